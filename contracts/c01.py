"""Pack object headers: gitdb.fun.pack_object_header_info / create_pack_object_header"""
from .common import *


def header_hook(p, VV):
    """VV(i): value of the first i header bytes"""
    def hook(i, t):
        i = zint(i)
        p.fact(z3.Implies(i == 0, VV(i + 1) == t % 16))
        p.fact(z3.Implies(i > 0, VV(i + 1) == VV(i) + (t % 128) * P2(4 + 7 * (i - 1))))
    return hook


class Parse(Contract):
    """arbitrary bytes are decoded the way git defines them"""
    name = 'C01.parse'
    target = 'gitdb.fun:pack_object_header_info'
    invs = [
        Inv('index in range', 'i:int', lambda c, i: And(ge(i, 1), le(i, c.L))),
        Inv('shift', 's:int i:int', lambda c, s, i: eq(s, add(4, mul(7, sub(i, 1))))),
        Inv('size of the bytes read', 'size:int i:int', lambda c, size, i: zint(size) == c.VV(zint(i))),
        Inv('size bound', 'size:int i:int', lambda c, size, i: z3.And(zint(size) >= 0, zint(size) < P2(4 + 7 * (zint(i) - 1)))),
        Inv('last byte read', 'c:int i:int', lambda c, x, i: zint(x) == c.data.get(sub(i, 1))),
        Inv('continuation so far', 'i:int', lambda c, i: z3.Implies(zint(sub(i, 1)) > c.K, c.dK >= 128)),
        Inv('type', 'type_id:int', lambda c, t: zint(t) == (c.data.get(0) / 16) % 8),
        Inv('terminates', 'i:int', lambda c, i: sub(c.L, i), measure=True),
    ]

    def setup(self, c):
        p = c.p
        c.env.VV = F('VV')
        c.env.data = c.bytes('data', hook=header_hook(p, c.VV))
        c.env.L = c.data.n
        c.env.K = c.nat('K')
        c.env.dK = c.data.get(c.K)
        c.assume(c.L >= 1)
        return [c.data], {}

    def post(self, c, ret):
        r = tup(ret, 3)
        if r is None or not all(is_int(x) for x in r):
            return [('returns (type, size, start of data)', False)]
        t, size, n = r
        n = zint(n)
        return [('start of data lies in the input', And(ge(n, 1), le(n, c.L))),
                ('type are bits 4-6 of the first byte', zint(t) == (c.data.get(0) / 16) % 8),
                ('size is the value of all header bytes', zint(size) == c.VV(n)),
                ('the header ends at the first byte without continuation',
                 z3.And(c.data.get(sub(n, 1)) < 128, z3.Implies(c.K < n - 1, c.dK >= 128)))]

    def exc(self, c, e):
        return [('error only if every byte announces a continuation (%s)' % e.cls.__name__,
                 z3.Implies(c.K < zint(c.L), c.dK >= 128) if is_exc(e, IndexError, ValueError, AssertionError) else False)]


def quotients(p, S):
    """Q(1) = S div 16, Q(i+1) = Q(i) div 128: what remains after the first i bytes"""
    Q = F('Q')
    p.fact(z3.And(Q(1) >= 0, Q(1) == S / 16))

    def unfold(i):
        i = zint(i)
        k = ('unfoldQ', i.get_id())
        if k not in p.memo:
            p.memo[k] = i
            p.fact(z3.Implies(i >= 1, z3.And(Q(i) >= 0, Q(i + 1) == Q(i) / 128, Q(i + 1) >= 0)))
    return Q, unfold


def header_byte(S, T, Q, k):
    """byte k of the header of type T and size S"""
    k = zint(k)
    low = z3.If(k == 0, S % 16 + 16 * T, Q(k) % 128)
    return low + z3.If(Q(k + 1) != 0, z3.IntVal(128), z3.IntVal(0))


class Create(Contract):
    """the header of (type, size) is the one git defines, byte for byte"""
    name = 'C01.create'
    target = 'gitdb.fun:create_pack_object_header'
    invs = [
        Inv('remaining size', 'obj_size:int hdr:bytearray|bytes', lambda c, s, h: z3.And(zint(s) == c.Qat(1 + blen(h)), zint(s) >= 0)),
        Inv('remaining size, none pending', 'obj_size:int hdr:bytearray|bytes', lambda c, s, h: z3.And(zint(s) == c.Qat(blen(h)), zint(s) >= 0, blen(h) >= 1)),
        Inv('pending byte', 'c:int hdr:bytearray|bytes', lambda c, x, h: zint(x) == z3.If(blen(h) == 0, c.S % 16 + 16 * c.T, c.Qat(blen(h)) % 128)),
        Inv('written bytes', 'hdr:bytearray|bytes', lambda c, h: z3.Implies(c.K < blen(h), bat(h, c.K) == header_byte(c.S, c.T, c.Q, c.K))),
        Inv('not the last byte', 'hdr:bytearray|bytes', lambda c, h: z3.Implies(c.K < blen(h), c.Q(c.K + 1) != 0)),
        Inv('terminates', 'obj_size:int', lambda c, s: s, measure=True),
    ]

    def setup(self, c):
        p = c.p
        c.env.T, c.env.S = c.int('type'), c.int('size')
        c.assume(z3.And(c.T >= 1, c.T <= 7, c.S >= 0))
        c.env.K = c.nat('K')
        c.env.Q, c.env.unfold = quotients(p, c.S)
        c.unfold(c.K)

        def Qat(i):
            c.unfold(i)
            return c.Q(i)
        c.env.Qat = Qat
        return [c.T, c.S], {}


    def post(self, c, ret):
        if not is_byteslike(ret):
            return [('returns bytes', False)]
        h = as_sbytes(ret)
        n = zint(h.n)
        c.unfold(n - 1)
        c.unfold(n)
        return [('at least one byte', n >= 1),
                ('every byte is as git defines it', z3.Implies(z3.And(c.K < n), zint(h.get(c.K)) == header_byte(c.S, c.T, c.Q, c.K))),
                ('exactly the bytes needed', z3.And(c.Q(n) == 0, z3.Implies(c.K < n - 1, c.Q(c.K + 1) != 0)))]


class RoundTrip(Contract):
    """parsing what Create specifies gives type, size and length back, whatever follows"""
    name = 'C01.roundtrip'
    target = 'gitdb.fun:pack_object_header_info'
    invs = [
        Inv('index in range', 'i:int', lambda c, i: And(ge(i, 1), le(i, c.N))),
        Inv('shift', 's:int i:int', lambda c, s, i: eq(s, add(4, mul(7, sub(i, 1))))),
        Inv('size so far', 'size:int i:int s:int', lambda c, size, i, s: c.S == zint(size) + P2(s) * c.Q(zint(i))),
        Inv('size so far without shift', 'size:int i:int', lambda c, size, i: z3.And(zint(size) >= 0, zint(size) < P2(4 + 7 * (zint(i) - 1)), c.S == zint(size) + P2(4 + 7 * (zint(i) - 1)) * c.Q(zint(i)))),
        Inv('last byte read', 'c:int i:int', lambda c, x, i: zint(x) == c.data.get(sub(i, 1))),
        Inv('type', 'type_id:int', lambda c, t: zint(t) == c.T),
    ]

    def setup(self, c):
        p = c.p
        c.env.T, c.env.S = c.int('type'), c.int('size')
        c.assume(z3.And(c.T >= 1, c.T <= 7, c.S >= 0))
        c.env.Q, c.env.unfold = quotients(p, c.S)
        c.env.N = c.int('N')
        c.assume(c.N >= 1)
        c.env.A = c.int('A')     # index of the last byte read: Q != 0 before N
        c.fact(c.Q(c.N) == 0)

        def hook(i, t):
            i = zint(i)
            c.unfold(i)
            c.unfold(i + 1)
            # post-condition of Create at byte i
            p.fact(z3.Implies(z3.And(i >= 0, i < c.N), z3.And(t == header_byte(c.S, c.T, c.Q, i), z3.Implies(i < c.N - 1, c.Q(i + 1) != 0))))
        c.env.data = c.bytes('data', hook=hook)
        c.assume(c.data.n >= c.N)
        return [c.data], {}

    def post(self, c, ret):
        r = tup(ret, 3)
        if r is None or not all(is_int(x) for x in r):
            return [('returns (type, size, start of data)', False)]
        t, size, n = r
        return [('same type', zint(t) == c.T), ('same size', zint(size) == c.S), ('data starts after the header', zint(n) == c.N)]


CONTRACTS = [Parse(), Create(), RoundTrip()]
