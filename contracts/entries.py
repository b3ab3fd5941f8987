"""Entries of a pack file, and how pack_object_at sees them.

What a position of the file means is given by specification functions of the position; the
contracts of C01 (headers) and pack_object_at tie them to the bytes."""
from .packmodels import *
from .headermodels import *
from . import c01
gpk = importlib.import_module('gitdb.pack')
gb = importlib.import_module('gitdb.base')

TYPE, SIZE, HL, XL, DIST, ZL = (F('entry_' + x, I, I) for x in ('type', 'size', 'headlen', 'extralen', 'distance', 'ziplen'))
ENTRY = z3.Function('entry_starts', I, z3.BoolSort())
PLAIN = F('plain_byte', I, I, I)
OFS, REF = 6, 7
ALL_MODELS = {**PACK_MODELS, **Z_MODELS}


class ParseUse(type(c01.CONTRACTS[0])):
    """C01.parse, with a contract for callers"""

    def call(self, ip, args, kw):
        d = as_sbytes(args[0])
        pk = ip.p.ghost.get('pack')
        if pk is None or d.base is not pk.F.base:
            raise Unsupported('header of unknown data')
        o = zint(d.off)
        ip.p.prove(ENTRY(o), 'headers are read at the start of an entry', 'precondition')
        pk.entry(o)
        return (conc(TYPE(o)), conc(SIZE(o)), conc(HL(o)))


PARSE = ParseUse()


class PackGhost:
    """a valid pack file"""

    def __init__(self, c, deltas=True):
        p = self.p = c.p
        self.F = c.bytes('packfile')
        self.n = self.F.n
        self.end = sub(self.n, 20)
        self.count = c.nat('count')
        self.deltas = deltas
        p.fact(z3.And(zint(self.end) >= 12, zint(self.n) <= 1 << 30, self.count < 2 ** 32))
        for i, b in enumerate(b'PACK\0\0\0\2'):
            p.fact(zint(self.F.get(i)) == b)
        v = 0
        for j in range(8, 12):
            v = add(mul(v, 256), self.F.get(j))
        p.fact(zint(v) == self.count)
        p.ghost['pack'] = self
        self.srcs = {}

    def entry(self, o):
        """what is known of an entry that starts at o"""
        o = zint(o)
        p = Path.cur
        k = ('packentry', o.get_id())
        if k in p.memo:
            return
        p.memo[k] = o
        t, x, d = TYPE(o), XL(o), self.data_at(o)
        p.fact(z3.Implies(ENTRY(o), z3.And(
            o >= 12, HL(o) >= 1, SIZE(o) >= 0, ZL(o) >= 1, d + ZL(o) <= zint(self.end),
            z3.Or(*[t == i for i in (1, 2, 3, 4, 6, 7)]),
            z3.Implies(t == OFS, z3.And(x >= 1, DIST(o) >= 1, ENTRY(o - DIST(o)))),
            z3.Implies(t == REF, x == 20), z3.Implies(z3.And(t != OFS, t != REF), x == 0))))

    def data_at(self, o):
        o = zint(o)
        return o + HL(o) + XL(o)

    def src(self, o):
        """the zlib stream of the entry at o"""
        o = zint(o)
        p = Path.cur
        k = z3.simplify(o).sexpr()
        m = p.memo.setdefault('packsrcs', {})
        if k not in m:
            # content: SIZE(o) bytes given by PLAIN
            b = p.fresh_bytes('content', conc(SIZE(o)))
            m[k] = ZSource(self.F.base, conc(z3.simplify(self.data_at(o))), conc(ZL(o)), b)
            zsources(p).append(m[k])
        return m[k]

    def stream_ok(self, o, at, br):
        """conditions: o is a reader of the entry at `at`, br bytes of it were read"""
        p = Path.cur
        if not isinstance(o, SObj) or not isinstance(o.f.get('_zip'), Decompress) or o.cls is not DR:
            return [False]
        s = self.src(at)
        z = o.f['_zip']
        if z.src is None:
            z.src = s
        m = as_sbytes(o.f['_m'])
        r = Rep(o)
        return [And(m.base is self.F.base, eq(m.off, self.data_at(at)), gt(m.n, sub(s.zl, 1)), le(o.f['_cwe'], m.n)),
                z.src is s or And(eq(z.src.z0, s.z0), z.src.base is s.base),
                r.holds(p), eq(o.f.get('_s'), SIZE(zint(at))) if is_int(o.f.get('_s')) else False, eq(o.f['_br'], br), eq(r.q(), br),
                eq(o.f['_cbr'], r.zip.f['cin'])]


class PackObjectAt(Contract):
    """an entry is taken apart as the pack format defines it"""
    name = 'pack_object_at'
    target = 'gitdb.pack:pack_object_at'
    models = ALL_MODELS
    uses = ['C01.parse']
    cases = [{'type': t, 'stream': s} for t in ('full', 'ofs', 'ref') for s in (True, False)]
    invs = [
        Inv('position', 'i:int', lambda c, i: And(ge(i, add(c.hl, 1)), le(i, add(c.hl, c.xl)))),
        Inv('last byte', 'c:int i:int', lambda c, x, i: eq(x, c.pk.F.get(add(c.o, sub(i, 1))))),
        Inv('value so far', 'delta_offset:int i:int', lambda c, d, i: zint(d) == c.dv(sub(i, 1))),
        Inv('not negative', 'delta_offset:int', lambda c, d: ge(d, 0)),
        Inv('terminates', 'i:int', lambda c, i: sub(add(c.hl, c.xl), i), measure=True),
        Inv('position of the last byte', 'i:int', lambda c, i: And(ge(i, c.hl), lt(i, add(c.hl, c.xl)))),
        Inv('last byte (at position)', 'c:int i:int', lambda c, x, i: eq(x, c.pk.F.get(add(c.o, i)))),
        Inv('value so far (at position)', 'delta_offset:int i:int', lambda c, d, i: zint(d) == c.dv(i)),
        Inv('value so far, shifted', 'delta_offset:int i:int', lambda c, d, i: And(ge(i, add(c.hl, 1)), eq(d, mul(128, add(c.dv(sub(i, 1)), 1))))),
    ]

    def setup(self, c):
        p = c.p
        pk = c.env.pk = PackGhost(c)
        o = c.env.o = c.nat('offset')
        p.fact(ENTRY(o))
        pk.entry(o)
        t = c.case['type']
        p.assume(TYPE(o) == OFS if t == 'ofs' else TYPE(o) == REF if t == 'ref' else z3.And(TYPE(o) != OFS, TYPE(o) != REF))
        c.env.hl, c.env.xl = HL(o), XL(o)
        start = o + HL(o)
        DV = F('distance_so_far', I, I)

        def hook(x, t_):
            # git: bytes from the start on announce a continuation, except the last
            x = zint(x)
            p.fact(z3.Implies(z3.And(TYPE(o) == OFS, x >= start, x < start + XL(o) - 1), t_ >= 128))
            p.fact(z3.Implies(z3.And(TYPE(o) == OFS, x == start + XL(o) - 1), t_ < 128))
            p.fact(z3.Implies(x == start, DV(x) == t_ % 128))
            p.fact(z3.Implies(x > start, DV(x) == (DV(x - 1) + 1) * 128 + t_ % 128))
        pk.F.base.hooks.append(hook)

        def dv(i):
            pk.F.get(add(o, i))
            return DV(o + zint(i))
        c.env.dv = dv
        p.fact(z3.Implies(TYPE(o) == OFS, DIST(o) == DV(start + XL(o) - 1)))
        return [Cursor(pk.F), o, c.case['stream']], {}

    def post(self, c, ret):
        r = tup(ret, 2)
        if r is None or not isinstance(r[1], SObj):
            return [('returns position and object', False)]
        p, pk, o = c.p, c.pk, c.o
        t, st = c.case['type'], c.case['stream']
        pos, obj = r
        cls = {(False, False): gb.OPackInfo, (False, True): gb.OPackStream, (True, False): gb.ODeltaPackInfo, (True, True): gb.ODeltaPackStream}[(t != 'full', st)]
        if not issubclass(obj.cls, cls):
            return [('the object is of the right kind', False)]
        g = lambda nm: c.ip.getattr(obj, nm)
        out = [('start of the compressed data', eq(pos, pk.data_at(o)) if is_int(pos) else False),
               ('position of the entry', eq(g('pack_offset'), o)), ('type', eq(g('type_id'), TYPE(o))), ('size', eq(g('size'), SIZE(o)))]
        if t == 'ofs':
            out.append(('distance to the base', eq(g('delta_info'), DIST(o)) if is_int(g('delta_info')) else False))
        if t == 'ref':
            out.append(('id of the base', same_bytes(p, g('delta_info'), slice_bytes(pk.F, add(o, HL(o)), 20)) if is_byteslike(g('delta_info')) else False))
        if st:
            out += [('the stream reads the content', And(*pk.stream_ok(g('stream'), o, 0)))]
        return out

    def call(self, ip, args, kw):
        a = dict(zip(('cursor', 'offset', 'as_stream'), args))
        a.update(kw)
        p = ip.p
        pk = p.ghost['pack']
        o = zint(a['offset'])
        cur = a['cursor']
        p.prove(isinstance(cur, Cursor) and cur.data.base is pk.F.base, 'the cursor is that of the pack', 'precondition')
        p.prove(ENTRY(o), 'objects are read at the start of an entry', 'precondition')
        cur.setf('ofs', conc(o))
        pk.entry(o)
        if p.decide(TYPE(o) == OFS, 'offset delta'):
            info = conc(DIST(o))
        elif p.decide(TYPE(o) == REF, 'reference delta'):
            info = slice_bytes(pk.F, conc(o + HL(o)), 20)
            info.kind = 'memoryview'
        else:
            info = None
        st = a['as_stream']
        d = conc(pk.data_at(o))
        items = [conc(o), conc(TYPE(o)), conc(SIZE(o))] + ([info] if info is not None else [])
        if not isinstance(st, bool):
            st = p.decide(ip.truth(st), 'as stream')
        if st:
            pk.src(o)
            m = slice_bytes(pk.F, d, sub(pk.n, d))
            m.kind = 'memoryview'
            items.append(ip.call(DR, [m, False, conc(SIZE(o))], {}))
        cls = {(False, False): gb.OPackInfo, (False, True): gb.OPackStream, (True, False): gb.ODeltaPackInfo, (True, True): gb.ODeltaPackStream}[(info is not None, st)]
        return (d, SObj(cls, items=tuple(items)))


PACK_OBJECT_AT = PackObjectAt()


def pack_file(c, pk):
    """a PackFile of the pack, used before or not"""
    c.run.global_overrides[('gitdb.pack', 'mman')] = Mman(lambda ip, path: pk.F if path == 'pack' else None)
    o = c.ip.call(gpk.PackFile, ['pack'], {})
    return o
