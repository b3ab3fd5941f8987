"""loose object headers: type, space, decimal size, zero byte, content"""
from .readmodels import *


class Header:
    """plain[:H] is a header: T bytes of type without space or zero byte, then the size"""

    def __init__(self, plain, T, N, S):
        self.plain, self.T, self.N, self.S = as_sbytes(plain), T, N, S

    def at(self, p, s):
        """where in plain the piece s begins, if that is known to be the start or the number"""
        if s.base is not self.plain.base:
            return None
        for w, off in (('start', self.plain.off), ('number', add(self.plain.off, add(self.T, 1)))):
            if p.entails(eq(s.off, off)):
                return w
        return None

    def find(self, ip, s, byte):
        p = ip.p
        w = self.at(p, s)
        if w is None or byte not in (0, 0x20):
            return None
        goal = self.N if byte == 0 else self.T
        if w == 'number':
            if byte == 0x20:
                return None
            goal = sub(self.N, add(self.T, 1))
        if p.decide(gt(s.n, goal), 'the piece has the byte'):
            return goal
        return -1

    def hook(self, ip, s, name, args):
        p = ip.p
        if name in ('split', 'partition', 'index', 'rsplit', 'rpartition') and args and isinstance(args[0], bytes) and len(args[0]) == 1:
            c = args[0][0]
            r = None
            w = self.at(p, s)
            if w is None:
                return None
            if name in ('rsplit', 'rpartition') or (name == 'split' and len(args) == 1):
                # needs that there is one only
                if c == 0x20 and not p.entails(le(s.n, self.N)):
                    return None
                if c == 0:
                    if not p.entails(le(s.n, add(self.N, 1))):
                        return None
            if w == 'number' and c == 0x20 and p.entails(le(s.n, sub(self.N, add(self.T, 1)))):
                r = -1
            else:
                r = self.find(ip, s, c)
            if r is None:
                return None
            if name == 'index':
                if isinstance(r, int) and r < 0:
                    ip.throw(ValueError, 'subsection not found')
                return r
            if isinstance(r, int) and r < 0:
                return SList([s]) if 'split' in name else (s, b'', b'')
            a, b = slice_bytes(s, 0, r), slice_bytes(s, add(r, 1), sub(s.n, add(r, 1)))
            if 'partition' in name:
                return (a, args[0], b)
            return SList([a, b])
        return None

    def number(self, ip, v, base):
        if base != 10 or not is_byteslike(v):
            return None
        s = as_sbytes(v)
        n = sub(self.N, add(self.T, 1))
        if s.base is self.plain.base and ip.p.entails(And(eq(s.off, add(self.plain.off, add(self.T, 1))), eq(s.n, n))):
            return self.S
        return None

    def install(self, run):
        run.find_hook = self.find
        run.bytes_hook = self.hook
        run.int_hook = self.number


def plain_source(c):
    """a map that begins with a zlib stream of S bytes of content, followed by anything"""
    p = c.p
    c.env.m = c.bytes('m')
    zl = c.env.zl = c.nat('zl')
    c.env.plain = c.bytes('plain')
    p.fact(z3.And(zl >= 1, zl <= zint(c.m.n)))
    c.env.src = ZSource(c.m.base, 0, zl, c.plain)
    zsources(p).append(c.src)
    c.env.H, c.env.S = 0, c.plain.n


def header_source(c):
    """... of a header and S bytes of content"""
    p = c.p
    plain_source(c)
    T, N = c.nat('type_len'), c.nat('zero_at')
    c.env.S = c.nat('size')
    p.fact(z3.And(T >= 1, N >= T + 2, N < HDRMAX))
    p.fact(zint(c.plain.n) == N + 1 + zint(c.S))
    c.env.header_spec = Header(c.plain, T, N, c.S)
    c.header_spec.install(c.run)
    c.env.typ = slice_bytes(c.plain, 0, T)
    c.env.H = conc(N + 1)


def reached(c, header, unread_header=False):
    """any state of a reader after some reads and rewinds"""
    p = c.p
    if header:
        header_source(c)
    else:
        plain_source(c)
    buffered = header and p.choose(2, 'buffered')
    o = c.env.o = arbitrary_reader(c, c.S, buffered, header)
    r = Rep(o)
    c.env.br0 = o.f['_br']
    p.assume(And(le(o.f['_br'], c.S), eq(r.q(), add(c.H, o.f['_br']))))
    return o


def at_content_conds(c, o, br):
    if not isinstance(o, SObj) or not isinstance(o.f.get('_zip'), Decompress):
        return [False]
    z = o.f['_zip']
    if z.src is None:
        z.src = c.src
    r = Rep(o)
    return [r.holds(c.p), eq(o.f.get('_s'), c.S) if is_int(o.f.get('_s')) else False, eq(o.f['_br'], br), eq(r.q(), add(c.H, br)),
            le(o.f['_cwe'], c.m.n), o.f['_m'] is c.m]


def at_content(c, o, br):
    return list(zip(('the state stays consistent', 'the size stays', 'the position is right', 'the next byte is the right one', 'the map is not left', 'the map stays'),
                    (at_content_conds(c, o, br) + [False] * 6)[:6]))
