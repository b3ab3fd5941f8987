"""zlib.decompressobj (assumed contract).

A source describes one zlib stream inside a map of bytes: where it begins, how long it is, and
what it inflates to.  A decompressor must be fed consecutive pieces of the map from the start of
the stream.  decompress(d, n) consumes some of d and returns the next at most n plain bytes
(n = 0: no limit); it stops short of the end of d only if it returned n bytes or the stream
ended; it is at the end exactly if all of the stream was consumed, and then everything was
returned.  unconsumed_tail holds what was not consumed before the end, unused_data what was not
consumed since the end.  A tail that was not empty before the step that reaches the end is replaced
by what this step left unused (CPython, zlibmodule.c: save_unconsumed_input)."""
import zlib
from .fdmodels import *


class ZSource:
    """`m`: byte array of the map, the stream is m[z0:z0+zl], `plain`: what it inflates to"""

    def __init__(self, base, z0, zl, plain):
        self.base, self.z0, self.zl, self.plain = base, z0, zl, as_sbytes(plain)


def zsources(p):
    return p.ghost.setdefault('zsources', [])


class Decompress(Model):
    no_attr = True

    def __init__(self):
        super().__init__('decompressobj')
        self.f.update(cin=0, pout=0, eof=False, tl=0, ul=0)
        self.src = None

    def region(self, off, n):
        if self.src is None:
            return b''
        return from_base(self.src.base, add(self.src.z0, off), n)

    def a_unconsumed_tail(self, ip):
        f = self.f
        e = concb(f['eof'])
        return self.region(f['cin'] if e is False else Ite(f['eof'], sub(add(f['cin'], f['ul']), f['tl']), f['cin']), f['tl'])

    def a_unused_data(self, ip):
        return self.region(self.src.zl if self.src else 0, self.f['ul'])

    def a_eof(self, ip):
        return self.f['eof']

    def invariant(self):
        """true of every decompressor that was only used through decompress"""
        f, s = self.f, self.src
        zl, pl = zint(s.zl), zint(s.plain.n)
        e = zbool(f['eof'])
        return z3.And(0 <= zint(f['cin']), zint(f['cin']) <= zl, 0 <= zint(f['pout']), zint(f['pout']) <= pl,
                      e == (zint(f['cin']) == zl), z3.Implies(e, zint(f['pout']) == pl), zint(f['tl']) >= 0, zint(f['ul']) >= 0,
                      z3.Implies(e, zint(f['tl']) <= zint(f['ul'])), z3.Implies(z3.Not(e), zint(f['ul']) == 0))

    def left(self):
        """bytes it was fed but did not consume"""
        return conc(z3.If(zbool(self.f['eof']), zint(self.f['ul']), zint(self.f['tl'])))

    def bind(self, ip, d):
        if self.src is not None:
            return
        p = ip.p
        for s in zsources(p):
            if d.base is s.base and p.entails(eq(d.off, s.z0)):
                self.src = s
                return
        raise Unsupported('data that is not the start of a known zlib stream')

    def m_decompress(self, ip, d, max_length=0):
        p = ip.p
        d = as_sbytes(d)
        if not p.decide(ge(max_length, 0), 'max_length'):
            ip.throw(ValueError, 'max_length must be non-negative')
        if d.base is None and concb(eq(d.n, 0)) is not True:
            raise Unsupported('inflating bytes of unknown origin')
        if concb(eq(d.n, 0)) is not True:
            self.bind(ip, d)
        f = self.f
        if self.src is None:
            return b''
        s = self.src
        # the data must continue what was consumed
        if d.base is not None:
            at = add(s.z0, add(f['cin'], f['ul']))
            p.prove(Or(eq(d.n, 0), And(d.base is s.base, eq(d.off, at))), 'a decompressor is fed where it left off', 'precondition')
        lim = max_length
        k, r = p.fresh_nat('consumed'), p.fresh_nat('inflated')
        cin, pout = zint(f['cin']), zint(f['pout'])
        n = zint(d.n)
        e0, ul0 = zbool(f['eof']), zint(f['ul'])
        e = p.fresh_bool('eof')
        zl, pl = zint(s.zl), zint(s.plain.n)
        p.fact(z3.And(k <= n, cin + k <= zl, pout + r <= pl, e == (cin + k == zl), z3.Implies(e, pout + r == pl),
                      z3.Or(zint(lim) == 0, r <= zint(lim)),
                      z3.Implies(z3.And(z3.Not(e), z3.Or(zint(lim) == 0, r < zint(lim))), k == n)))
        out = slice_bytes(s.plain, f['pout'], conc(r))
        self.setf('cin', conc(cin + k))
        self.setf('pout', conc(pout + r))
        self.setf('eof', e)
        self.setf('tl', conc(z3.If(z3.And(e, zint(f['tl']) == 0), z3.IntVal(0), n - k)))
        self.setf('ul', conc(z3.If(e, ul0 + (n - k), z3.IntVal(0))))
        return out

    def m_flush(self, ip, *a):
        raise Unsupported('flush of a decompressor')


def m_decompressobj(ip, *a, **kw):
    if a or kw:
        raise Unsupported('arguments of decompressobj')
    z = Decompress()
    ip.p.ghost.setdefault('decompressors', []).append(z)
    return z


def m_decompress_all(ip, d, *a):
    d = as_sbytes(d)
    z = m_decompressobj(ip)
    r = z.m_decompress(ip, d, 0)
    if not ip.p.decide(z.f['eof'], 'complete'):
        ip.throw(zlib.error, 'incomplete or truncated stream')
    return r


Z_MODELS = {**FD_MODELS, zlib.decompressobj: m_decompressobj, zlib.decompress: m_decompress_all}
