"""Pack index files: gitdb.pack.PackIndexFile"""
from .packmodels import *
from pyvc.interp import ModelM
from gitdb.pack import PackIndexFile

SIG = b'\377tOc'


def u32(m, off):
    r = 0
    for j in range(4):
        r = add(mul(r, 256), m.get(add(off, j)))
    return r


def u64(m, off):
    return add(mul(u32(m, off), 1 << 32), u32(m, add(off, 4)))


class Layout:
    """positions git's index formats give to fan-out, ids, checksums and offsets"""

    def __init__(self, c, ver):
        p = c.p
        self.ver = ver
        m = self.m = c.bytes('idx')
        self.base = base = 8 if ver == 2 else 0
        self.n = n = p.fresh_nat('count')
        p.fact(zint(u32(m, base + 255 * 4)) == n)
        p.fact(n < 2 ** 31)
        if ver == 2:
            for i, b in enumerate(SIG):
                p.fact(zint(m.get(i)) == b)
            p.fact(zint(u32(m, 4)) == 2)
            self.nl = p.fresh_nat('large')
            self.ids = 8 + 1024
            self.crcs = add(self.ids, mul(20, n))
            self.offs = add(self.crcs, mul(4, n))
            self.large = add(self.offs, mul(4, n))
            p.fact(zint(m.n) == zint(add(self.large, mul(8, self.nl))) + 40)
            f, offs = m.base.fn, zint(self.offs)

            def valid(q, t):
                if isinstance(conc(q), int):
                    return      # before any entry
                # an entry with its highest bit set is a position in the table of large offsets
                low = (t - 128) * 2 ** 24 + f(q + 1) * 2 ** 16 + f(q + 2) * 2 ** 8 + f(q + 3)
                p.fact(z3.Implies(z3.And(q >= offs, q < offs + 4 * n, (q - offs) % 4 == 0, t >= 128),
                                  z3.And(low < self.nl, *[z3.And(f(q + j) >= 0, f(q + j) < 256) for j in (1, 2, 3)])))
            m.base.hooks.append(valid)
        else:
            p.fact(z3.Or(*[zint(m.get(i)) != b for i, b in enumerate(SIG)]))
            p.fact(zint(m.n) == 1024 + 24 * n + 40)
        p.fact(zint(m.n) <= 1 << 30)

    def id(self, i):
        return slice_bytes(self.m, add(self.ids, mul(20, i)) if self.ver == 2 else add(1028, mul(24, i)), 20)

    def crc(self, i):
        return u32(self.m, add(self.crcs, mul(4, i))) if self.ver == 2 else 0

    def offset(self, i):
        """(the stored offset; fact that the index is valid there)"""
        if self.ver == 1:
            return u32(self.m, add(1024, mul(24, i)))
        p = Path.cur
        v = zint(u32(self.m, add(self.offs, mul(4, i))))
        low = p.fresh_int('low')
        p.fact(low == v % 2 ** 31)
        big = zint(u64(self.m, add(self.large, mul(8, low))))
        return z3.If(v >= 2 ** 31, big, v)

    def fan(self, b):
        return u32(self.m, add(self.base, mul(4, b)))


def index_object(c, lay):
    o = SObj(PackIndexFile)
    o.f['_indexpath'] = 'index'
    c.run.global_overrides[('gitdb.pack', 'mman')] = Mman(lambda ip, path: lay.m if path == 'index' else None)
    return o


OPS = ['sha', 'offset', 'crc', 'entry', 'size', 'version', 'path', 'offsets', 'packfile_checksum', 'indexfile_checksum']


class Access(Contract):
    """every accessor of a fresh index returns what the file holds at that position"""
    name = 'C06.access'
    target = 'gitdb.pack:PackIndexFile._set_cache_'
    cases = [{'ver': v, 'op': o} for v in (1, 2) for o in OPS]
    models = PACK_MODELS

    def setup(self, c):
        lay = c.env.lay = Layout(c, c.case['ver'])
        c.env.self_ = index_object(c, lay)
        c.env.i = c.nat('i')
        c.env.K = c.nat('K')
        c.assume(z3.And(c.i < lay.n, z3.Or(c.K < lay.n, lay.n == 0)))
        c.env.first = c.p.choose(2, 'used before') if c.case['op'] not in ('path',) else 0
        return [], {}

    def execute(self, c, args, kw):
        ip, op = c.ip, c.case['op']
        if c.first:
            # a second use finds everything initialised
            ip.call(ip.getattr(c.self_, 'size'), [], {})
        return ip.call(ip.getattr(c.self_, op), [c.i] if op in ('sha', 'offset', 'crc', 'entry') else [], {})

    def post(self, c, ret):
        lay, i, op, p = c.lay, c.i, c.case['op'], c.p

        def is_id(v):
            return same_bytes(p, v, lay.id(i)) if is_byteslike(v) else False

        def is_num(v, w):
            return eq(v, w) if is_int(v) else False
        if op == 'sha':
            return [('the id stored at the position', is_id(ret))]
        if op == 'offset':
            return [('the offset stored at the position', is_num(ret, lay.offset(i)))]
        if op == 'crc':
            return [('the checksum stored at the position', is_num(ret, lay.crc(i)))]
        if op == 'entry':
            r = tup(ret, 3)
            if r is None:
                return [('returns three values', False)]
            return [('offset, id and checksum of the position', And(is_num(r[0], lay.offset(i)), is_id(r[1]), is_num(r[2], lay.crc(i))))]
        if op == 'size':
            return [('number of objects', is_num(ret, lay.n))]
        if op == 'version':
            return [('version', is_num(ret, c.case['ver']))]
        if op == 'path':
            return [('path', ret == 'index')]
        if op == 'offsets':
            n = bm_len(c.ip, ret)
            p.fact(True)
            out = [('as many offsets as objects', eq(n, lay.n))]
            if p.decide(And(c.K < lay.n, eq(n, lay.n))):
                v = c.ip.getitem(ret, c.K)
                if isinstance(ret, Model):
                    for seq, m, less in p.ghost.get('extrema', []):
                        p.fact(z3.And(zint(seq.elem(c.K)) <= zint(m)) if not less else z3.And(zint(seq.elem(c.K)) >= zint(m)))
                out.append(('every offset is the one stored', is_num(v, lay.offset(c.K))))
            return out
        at = 40 if op == 'packfile_checksum' else 20
        return [('the checksum at the end of the file', same_bytes(p, ret, slice_bytes(lay.m, sub(lay.m.n, at), 20)) if is_byteslike(ret) else False)]


from pyvc.builtin_models import m_len as bm_len


class Ids(Model):
    """the ids of a valid index, ascending: read through the contract of sha()"""

    def __init__(self, c, n):
        super().__init__('ids')
        self.c, self.n = c, n
        self.seen = []
        self.arr = ByteArr('ids')

    def key(self, i):
        """id number i as a number; instances of the ordering with every id looked at"""
        p = self.c.p
        i = zint(i)
        s = from_base(self.arr, 20 * i, 20)
        k = zint(key_of(s))
        if not any(i.eq(x) for x, _ in self.seen):
            for x, kx in self.seen:
                p.fact(z3.And(z3.Implies(i < x, k < kx), z3.Implies(x < i, kx < k), z3.Implies(x == i, k == kx)))
            self.seen.append((i, k))
            for b, v in self.c.fans:
                self.fanfact(i, k, b, v)
        return k

    def fanfact(self, i, k, b, v):
        self.c.p.fact(z3.Implies(z3.And(i >= 0, i < self.n), (i < v) == (k / 256 ** 19 <= b)))

    def m_sha(self, ip, i):
        ip.p.prove(And(ge(i, 0), lt(i, self.n)), 'ids are read at positions of the index', 'precondition')
        self.key(i)
        return from_base(self.arr, 20 * zint(i), 20)


def lookup_object(c):
    """an initialised index, seen through the contracts of its accessors"""
    p = c.p
    n = c.env.n = c.nat('count')
    c.env.fans = []
    ids = c.env.ids = Ids(c, n)
    fan = F('fan')

    def fanout(b):
        b = zint(b)
        v = fan(b)
        if not any(b.eq(x) for x, _ in c.fans):
            p.fact(z3.And(v >= 0, v <= n, z3.Implies(b == 255, v == n)))
            for x, vx in c.fans:
                p.fact(z3.And(z3.Implies(x <= b, vx <= v), z3.Implies(b <= x, v <= vx)))
            c.fans.append((b, v))
            for i, k in ids.seen:
                ids.fanfact(i, k, b, v)
        return v
    o = c.env.self_ = SObj(PackIndexFile)
    o.f.update(_fanout_table=SList(Seq(256, fanout)), sha=ModelM(ids, 'sha'), _version=2, _indexpath='index')
    return o


class Lookup(Contract):
    """sha_to_index: the position of the id, or None exactly if the index does not hold it"""
    name = 'C06.sha_to_index'
    target = 'gitdb.pack:PackIndexFile.sha_to_index'
    invs = [
        Inv('range', 'lo:int hi:int', lambda c, lo, hi: And(ge(lo, 0), le(hi, c.n))),
        Inv('lower', 'lo:int', lambda c, lo: And(ge(lo, 0), le(lo, c.n))),
        Inv('upper', 'hi:int', lambda c, hi: And(ge(hi, 0), le(hi, c.n))),
        Inv('left of it', 'lo:int', lambda c, lo: z3.Implies(c.has, zint(lo) <= c.K)),
        Inv('right of it', 'hi:int', lambda c, hi: z3.Implies(c.has, c.K < zint(hi))),
        Inv('narrows', 'lo:int hi:int', lambda c, lo, hi: sub(hi, lo), measure=True),
        # other ways to bisect: lower bound, upper bound, inclusive right end
        Inv('ordered', 'lo:int hi:int', lambda c, lo, hi: le(lo, hi)),
        Inv('not right of it', 'hi:int', lambda c, hi: z3.Implies(c.has, c.K <= zint(hi))),
        Inv('at most one past it', 'lo:int', lambda c, lo: z3.Implies(c.has, zint(lo) <= c.K + 1)),
        Inv('upper, inclusive', 'hi:int', lambda c, hi: And(ge(hi, -1), lt(hi, c.n))),
    ]

    def setup(self, c):
        o = lookup_object(c)
        c.env.sha = c.bytes('sha', n=20)
        c.env.K = c.int('K')
        k = c.ids.key(c.K)
        c.env.has = z3.And(c.K >= 0, c.K < c.n, k == key_of(c.sha))
        return [o, c.sha], {}

    def post(self, c, ret):
        if ret is None:
            return [('absent only if no position holds the id', z3.Not(c.has))]
        if not is_int(ret):
            return [('returns a position', False)]
        r = zint(ret)
        return [('a position of the index', z3.And(r >= 0, r < c.n)),
                ('the position holds the id', c.ids.key(r) == key_of(c.sha)),
                ('no other position does', z3.Implies(c.has, c.K == r))]


CONTRACTS = [Access(), Lookup()]
LEVEL = 'proof'
