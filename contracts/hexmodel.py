"""hexadecimal text as a value: number and amount of digits"""
import ast
import binascii
from .common import *


class Hex(GhostVal):
    """`n` lower-case hex digits spelling the number `val`; kind 'str' or 'bytes'"""

    def __init__(self, val, n, kind='str'):
        self.val, self.n, self.kind = val, n, kind

    def __repr__(self):
        return '<Hex %s %s>' % (self.n, self.kind)

    def vkind(self):
        return (Hex, self.n, self.kind)

    @staticmethod
    def vfresh(path, name, kind):
        v = path.fresh_nat(name)
        path.fact(v < 16 ** kind[0])
        return Hex(v, kind[0], kind[1])

    def py_isinstance(self, ip, cls):
        return cls in (str, object) if self.kind == 'str' else cls in (bytes, object)

    def py_eq(self, ip, o):
        if isinstance(o, Hex):
            return self.kind == o.kind and self.n == o.n and eq(self.val, o.val)
        if isinstance(o, (str, bytes)) and o == type(o)() and (self.kind == 'str') == isinstance(o, str):
            return self.n == 0
        return False

    def py_len(self, ip):
        return self.n

    def truth(self, ip=None):
        return self.n > 0

    def lit(self, o):
        """a literal of the same kind as Hex"""
        if isinstance(o, Hex):
            return o
        if self.kind == 'str' and isinstance(o, str) or self.kind == 'bytes' and isinstance(o, bytes):
            t = o if isinstance(o, str) else o.decode('latin1')
            if all(ch in '0123456789abcdef' for ch in t):
                return Hex(int(t, 16) if t else 0, len(t), self.kind)
        return None

    def py_binop(self, ip, t, b):
        o = self.lit(b)
        if t is ast.Add and o is not None and o.kind == self.kind:
            return Hex(add(mul(self.val, 16 ** o.n), o.val), self.n + o.n, self.kind)
        return NotImplemented

    def py_rbinop(self, ip, t, a):
        o = self.lit(a)
        if t is ast.Add and o is not None:
            return Hex(add(mul(o.val, 16 ** self.n), self.val), self.n + o.n, self.kind)
        return NotImplemented

    def cut(self, lo, hi):
        v = self.val
        v = v // 16 ** (self.n - hi) if isinstance(v, int) else zint(v) / 16 ** (self.n - hi)
        return Hex(v % 16 ** (hi - lo) if lo else v, hi - lo, self.kind)

    def py_slice(self, ip, lo, hi):
        if not all(isinstance(x, (int, type(None))) for x in (lo, hi)):
            raise Unsupported('symbolic slice of hex text')
        lo, hi, _ = slice(lo, hi).indices(self.n)
        return self.cut(lo, max(lo, hi))

    def py_getattr(self, ip, name):
        return ModelM(self, name)

    def m_startswith(self, ip, o):
        o = self.lit(o)
        if o is None or o.kind != self.kind:
            ip.throw(TypeError, 'startswith argument')
        if o.n > self.n:
            return False
        return eq(self.cut(0, o.n).val, o.val)

    def m_encode(self, ip, *a):
        if self.kind != 'str':
            ip.throw(AttributeError, 'encode')
        return Hex(self.val, self.n, 'bytes')

    def m_decode(self, ip, *a):
        if self.kind != 'bytes':
            ip.throw(AttributeError, 'decode')
        return Hex(self.val, self.n, 'str')

    def m_lower(self, ip):
        return self

    def m_strip(self, ip):
        return self


from pyvc.interp import ModelM


def key_bytes(p, key, n, kind='bytes'):
    """n bytes spelling the number `key`"""
    s = from_base(ByteArr(p.name('keyed')), 0, n, kind)
    s.key = key
    return s


def m_a2b(ip, h):
    if not isinstance(h, Hex):
        raise Unsupported('hex of %r' % (h,))
    if h.n % 2:
        ip.throw(binascii.Error, 'Odd-length string')
    return key_bytes(ip.p, h.val, h.n // 2)


def m_b2a(ip, b):
    b = as_sbytes(b)
    if not isinstance(b.n, int):
        raise Unsupported('hex of bytes of unknown length')
    return Hex(key_of(b), 2 * b.n, 'bytes')


HEX_MODELS = {binascii.a2b_hex: m_a2b, binascii.unhexlify: m_a2b, binascii.b2a_hex: m_b2a, binascii.hexlify: m_b2a}
