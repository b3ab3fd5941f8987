"""Delta chains of a pack: PackFile.collect_streams, PackEntity.collect_streams_at_offset, ._object"""
from .entries import *
from .c02 import MsbSize
from pyvc.interp import BoundM
gs = importlib.import_module('gitdb.stream')
from gitdb.exc import BadObject

RES = z3.Function('resolvable', I, z3.BoolSort())
IDX, OFFS, NEXT, AT, RANK = (F(x, I, I) for x in ('base_index', 'index_offset', 'next_in_chain', 'chain_at', 'rank'))
TYPENAMES = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag', 6: b'OFS_DELTA', 7: b'REF_DELTA'}


def is_delta(o):
    return z3.Or(TYPE(o) == OFS, TYPE(o) == REF)


def goes_on(o):
    """the pack holds the base of this entry"""
    return z3.Or(TYPE(o) == OFS, z3.And(TYPE(o) == REF, RES(o)))


class Index:
    """a valid index of the pack: ids of `n` objects and where their entries start"""

    def __init__(self, c, pk):
        self.c, self.pk = c, pk
        self.n = pk.count
        self.ids = ByteArr('indexids')
        self.version = 2

    def id(self, i):
        return from_base(self.ids, mul(20, i), 20)

    def offset(self, i):
        i = zint(i)
        o = OFFS(i)
        self.pk.entry(o)
        Path.cur.fact(z3.Implies(z3.And(i >= 0, i < self.n), ENTRY(o)))
        return o


class IndexModel(Model):
    """PackIndexFile through the contracts of C06: what its functions answer for a valid index"""
    no_attr = True

    def __init__(self, c):
        super().__init__('index')
        self.c = c

    def within(self, ip, i):
        ip.p.prove(And(ge(i, 0), lt(i, self.c.index.n)) if is_int(i) else False, 'positions of the index are within it', 'precondition')
        return i

    def m_sha_to_index(self, ip, sha):
        """the position of an id, or None"""
        p, c = ip.p, self.c
        b = as_sbytes(sha)
        p.prove(eq(b.n, 20), 'an id has 20 bytes', 'precondition')
        asked = getattr(c.env, 'sha', None)
        if asked is not None and b.base is asked.base:
            if p.decide(c.known, 'the id is in the index'):
                p.fact(z3.And(zint(c.at) >= 0, zint(c.at) < c.index.n))
                return c.at
            return None
        # the base of a reference delta
        if getattr(sha, 'kind', 'bytes') == 'memoryview':
            p.prove(False, 'ids are looked up as bytes', 'precondition')
        for o in c.refs:
            if b.base is c.pk.F.base and p.entails(z3.And(zint(b.off) == o + HL(o), TYPE(o) == REF)):
                if p.decide(RES(o), 'base within the pack'):
                    p.fact(z3.And(IDX(o) >= 0, IDX(o) < c.index.n))
                    return conc(IDX(o))
                return None
        raise Unsupported('lookup of an unknown id')

    def m_offset(self, ip, i):
        return self.c.index.offset(self.within(ip, i))

    def m_sha(self, ip, i):
        return self.c.index.id(self.within(ip, i))

    def m_crc(self, ip, i):
        return self.c.index.crc(self.within(ip, i))

    def m_entry(self, ip, i):
        i = self.within(ip, i)
        return (self.c.index.offset(i), self.c.index.id(i), self.c.index.crc(i))

    def m_size(self, ip):
        return self.c.index.n

    def m_offsets(self, ip):
        return Seq(self.c.index.n, lambda i: self.c.index.offset(i), tag='offsets')

    def m_version(self, ip):
        return self.c.index.version


class Streams:
    """lists of unread streams of entries"""

    def __init__(self, c, pk):
        self.c, self.pk = c, pk
        self.made = {}
        self.cache = []
        run = c.run
        run.kind_hook = self.kind
        run.havoc_hook = self.havoc

    def build(self, ip, o):
        """the unread stream of the entry at o"""
        o = zint(o)
        p = ip.p
        for x, s in self.cache:
            if x.eq(o) or p.entails(x == o):
                return s
        s = PACK_OBJECT_AT.call(ip, [Cursor(self.pk.F), conc(o), True], {})[1]
        self.cache.append((o, s))
        return s

    def pos(self, v):
        """the entry v is the unread stream of, or None"""
        if not isinstance(v, SObj) or not issubclass(v.cls, (gb.OPackStream, gb.ODeltaPackStream)) or v.items is None:
            return None
        it = v.items.v if isinstance(v.items, SList) else v.items
        d = issubclass(v.cls, gb.ODeltaPackStream)
        if len(it) != (5 if d else 4) or not all(is_int(x) for x in it[:3]):
            return None
        o = zint(it[0])
        p = Path.cur
        if not p.entails(z3.And(ENTRY(o), zint(it[1]) == TYPE(o), zint(it[2]) == SIZE(o), is_delta(o) if d else z3.Not(is_delta(o)))):
            return None
        if d:
            if is_int(it[3]):
                if not p.entails(z3.And(TYPE(o) == OFS, zint(it[3]) == DIST(o))):
                    return None
            elif not (is_byteslike(it[3]) and p.entails(And(TYPE(o) == REF, same_region(p, it[3], slice_bytes(self.pk.F, add(o, HL(o)), 20))))):
                return None
        if not p.entails(And(*self.pk.stream_ok(it[-1], o, 0))):
            return None
        return o

    def kind(self, ip, v):
        if isinstance(v, SObj) and self.pos(v) is not None:
            return ('seq', None, 'packstream')
        if isinstance(v, tuple) and v and all(isinstance(x, SObj) for x in v) or isinstance(v, Seq):
            if self.positions(v) is not None:
                return ('seq', None, 'packstreams')
        return None

    def havoc(self, ip, k, name, old):
        p = ip.p
        if k[2:] == ('packstream',):
            o = p.fresh_nat(name + '.pos')
            p.fact(ENTRY(o))
            return self.build(ip, o)
        if k[2:] == ('packstreams',):
            f = z3.Function(p.name(name + '.pos'), I, I)
            n = p.fresh_nat(name + '.len')
            return self.seq(ip, n, lambda j: f(zint(j)))
        return None

    def seq(self, ip, n, at):
        def pos(j):
            j = zint(j)
            o = at(j)
            Path.cur.fact(z3.Implies(z3.And(j >= 0, j < zint(n)), ENTRY(zint(o))))
            return o
        return Seq(n, lambda j: self.build(ip, pos(j)), 'list', tag=('streams', pos))

    def positions(self, v):
        """(length, position of element j) or None"""
        if isinstance(v, SList):
            v = v.v
        if isinstance(v, tuple):
            ps = [self.pos(x) for x in v]
            if None in ps:
                return None

            def at(j):
                r = z3.IntVal(-1)
                for k in reversed(range(len(ps))):
                    r = z3.If(zint(j) == k, ps[k], r)
                return r
            return len(ps), at
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'streams':
            return v.n, v.tag[1]
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'append':
            b = self.positions(v.tag[1])
            o = self.pos(v.tag[2])
            if b is None or o is None:
                return None
            return v.n, lambda j: z3.If(zint(j) < zint(b[0]), b[1](j), o)
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'slice':
            b = self.positions(v.tag[1])
            return None if b is None else (v.n, lambda j: b[1](add(v.tag[2], j)))
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'concat':
            x, y = self.positions(v.tag[1]), self.positions(v.tag[2])
            if x is None or y is None:
                return None
            return v.n, lambda j: z3.If(zint(j) < zint(x[0]), zint(x[1](j)), zint(y[1](sub(j, x[0]))))
        return None


def chain_setup(c, start=None):
    p = c.p
    pk = c.env.pk = PackGhost(c)
    c.env.index = Index(c, pk)
    c.env.streams = Streams(c, pk)
    c.env.refs = []
    o = c.env.start = c.nat('start') if start is None else start()
    p.fact(z3.And(ENTRY(o), AT(0) == o))
    c.env.J = c.nat('J')

    def see(j):
        j = zint(j)
        o = AT(j)
        pk.entry(o)
        pk.entry(o - DIST(o))
        pk.entry(OFFS(IDX(o)))
        if not any(o.eq(x) for x in c.refs):
            c.refs.append(o)
        p.fact(z3.Implies(ENTRY(o), z3.And(RANK(o) >= 0,
            z3.Implies(TYPE(o) == OFS, NEXT(o) == o - DIST(o)),
            z3.Implies(z3.And(TYPE(o) == REF, RES(o)), z3.And(NEXT(o) == OFFS(IDX(o)), IDX(o) >= 0, IDX(o) < c.index.n, ENTRY(OFFS(IDX(o))))),
            z3.Implies(goes_on(o), z3.And(ENTRY(NEXT(o)), RANK(NEXT(o)) < RANK(o), AT(j + 1) == NEXT(o))))))
        return o
    c.env.see = see
    see(0)

    def on_chain(j, n, cont):
        """what holds of position j of a chain of length n"""
        o = see(j)
        return z3.Implies(z3.And(zint(j) >= 0, zint(j) < zint(n)), z3.And(ENTRY(o), z3.Implies(zint(j) + 1 < zint(n), cont(o))))
    c.env.on_chain = on_chain

    def chain(lst, cont):
        """invariant: the list holds the first entries of the chain"""
        r = c.streams.positions(lst)
        if r is None:
            return isinstance(lst, SList) and lst.v == ()
        n, at = r
        if c.assuming and isinstance(lst, SList) and isinstance(lst.v, Seq) and lst.v.tag[0] == 'streams':
            old = lst.v

            def pos(j):
                x = zint(at(j))
                p.fact(z3.Implies(z3.And(zint(j) >= 0, zint(j) < zint(n)), x == AT(zint(j))))
                p.fact(on_chain(j, n, cont))
                return x
            new = c.streams.seq(c.ip, n, pos)
            lst.f['v'] = new
            pos(c.J)
            pos(sub(n, 1))
            return True
        return z3.And(z3.Implies(z3.And(c.J >= 0, c.J < zint(n)), zint(at(c.J)) == AT(c.J)), on_chain(c.J, n, cont))
    c.env.chain = chain

    def length(lst):
        return c.ip.seq_len(lst.v)
    c.env.length = length
    c.env.lastpos = lambda s: c.streams.pos(s) is not None
    c.env.at_of = lambda s: c.streams.pos(s) if c.streams.pos(s) is not None else z3.IntVal(0)
    return pk


class Entry(Contract):
    """metadata and stream of the entry at an offset; at the first one if none is given"""
    name = 'C03.entry'
    target = 'gitdb.pack:PackFile.info'
    models = ALL_MODELS
    uses = ['pack_object_at']
    cases = [{'type': t, 'stream': s, 'first': f} for t in ('full', 'ofs', 'ref') for s in (True, False) for f in (True, False)]

    def setup(self, c):
        p = c.p
        pk = c.env.pk = PackGhost(c)
        o = c.env.o = z3.IntVal(12) if c.case['first'] else c.nat('offset')
        p.fact(ENTRY(o))
        pk.entry(o)
        t = c.case['type']
        p.assume(TYPE(o) == OFS if t == 'ofs' else TYPE(o) == REF if t == 'ref' else z3.And(TYPE(o) != OFS, TYPE(o) != REF))
        return [pack_file(c, pk), 0 if c.case['first'] else o], {}

    def execute(self, c, args, kw):
        return c.ip.call(c.ip.getattr(args[0], 'stream' if c.case['stream'] else 'info'), args[1:], {})

    def post(self, c, ret):
        return PACK_OBJECT_AT.post(c, (c.pk.data_at(c.o), ret))


class CollectOfs(Contract):
    """the entries an offset delta is based on, up to the first that is none"""
    name = 'C03.collect_streams'
    target = 'gitdb.pack:PackFile.collect_streams'
    models = ALL_MODELS
    uses = ['pack_object_at']
    ofs = staticmethod(lambda o: TYPE(o) == OFS)
    invs = [
        Inv('chain so far', 'out:list', lambda c, l: c.chain(l, lambda o: TYPE(o) == OFS)),
        Inv('next entry', 'out:list offset:int', lambda c, l, o: And(eq(o, c.see(c.length(l))), ENTRY(zint(o)), Or(eq(c.length(l), 0), TYPE(c.see(sub(c.length(l), 1))) == OFS))),
        Inv('terminates', 'offset:int', lambda c, o: RANK(zint(o)), measure=True),
        Inv('at least one', 'out:list', lambda c, l: ge(c.length(l), 1)),
        Inv('last of the chain', 'out:list ostream:any', lambda c, l, s: And(c.lastpos(s), eq(c.at_of(s), c.see(sub(c.length(l), 1))))),
        Inv('last entry', 'out:list', lambda c, l: ENTRY(c.see(sub(c.length(l), 1)))),
        Inv('terminates (stream)', 'ostream:any', lambda c, s: RANK(zint(c.at_of(s))), measure=True),
        Inv('terminates (list)', 'out:list', lambda c, l: RANK(c.see(sub(c.length(l), 1))), measure=True),
    ]

    def setup(self, c):
        pk = chain_setup(c)
        o = pack_file(c, pk)
        return [o, c.start], {}

    def post(self, c, ret):
        r = c.streams.positions(ret) if isinstance(ret, SList) else None
        if r is None:
            return [('a list of unread streams is returned', False)]
        n, at = r
        return [('the chain has an entry', ge(n, 1)),
                ('entries as the pack defines them', z3.And(z3.Implies(z3.And(c.J >= 0, c.J < zint(n)), zint(at(c.J)) == AT(c.J)), c.on_chain(c.J, n, self.ofs))),
                ('the last one is no offset delta', TYPE(c.see(sub(n, 1))) != OFS)]

    def call(self, ip, args, kw):
        c, p = ip.run.ctx, ip.p
        p.prove(eq(args[1], c.start), 'the chain of the entry asked for', 'obligation')
        ip.getattr(args[0], '_cursor')
        n = p.fresh_nat('chainlen')
        p.fact(n >= 1)

        def at(j):
            p.fact(c.on_chain(j, n, self.ofs))
            return AT(zint(j))
        p.fact(TYPE(c.see(n - 1)) != OFS)
        p.fact(c.on_chain(c.J, n, self.ofs))
        at(n - 1)
        return SList(c.streams.seq(ip, n, at))


class CollectAll(Contract):
    """the chain up to an entry that is no delta, or whose base is not in the pack"""
    name = 'C03.collect_streams_at_offset'
    target = 'gitdb.pack:PackEntity.collect_streams_at_offset'
    models = ALL_MODELS
    uses = ['pack_object_at', 'C03.collect_streams']
    invs = [
        Inv('chain so far', 'streams:list', lambda c, l: c.chain(l, goes_on)),
        Inv('at least one', 'streams:list', lambda c, l: ge(c.length(l), 1)),
        Inv('last of the chain', 'streams:list stream:any', lambda c, l, s: And(c.lastpos(s), eq(c.at_of(s), c.see(sub(c.length(l), 1))))),
        Inv('not an offset delta or its base follows', 'streams:list', lambda c, l: ENTRY(c.see(sub(c.length(l), 1)))),
        Inv('terminates', 'stream:any', lambda c, s: RANK(zint(c.at_of(s))), measure=True),
        Inv('next entry', 'streams:list offset:int', lambda c, l, o: And(eq(o, c.see(c.length(l))), ENTRY(zint(o)), Or(eq(c.length(l), 0), goes_on(c.see(sub(c.length(l), 1)))))),
        Inv('terminates (offset)', 'offset:int', lambda c, o: RANK(zint(o)), measure=True),
        Inv('terminates (list)', 'streams:list', lambda c, l: RANK(c.see(sub(c.length(l), 1))), measure=True),
    ]

    def setup(self, c):
        pk = chain_setup(c)
        e = c.env.entity = entity(c)
        return [e, c.start], {}

    def post(self, c, ret):
        r = c.streams.positions(ret) if isinstance(ret, SList) else None
        if r is None:
            return [('a list of unread streams is returned', False)]
        n, at = r
        return [('the chain has an entry', ge(n, 1)),
                ('entries as the pack defines them', z3.And(z3.Implies(z3.And(c.J >= 0, c.J < zint(n)), zint(at(c.J)) == AT(c.J)), c.on_chain(c.J, n, goes_on))),
                ('it ends where the pack has no base', z3.Not(goes_on(c.see(sub(n, 1)))))]

    def call(self, ip, args, kw):
        c, p = ip.run.ctx, ip.p
        p.prove(eq(args[1], c.start), 'the chain of the entry asked for', 'obligation')
        return full_chain(c)


def full_chain(c):
    p, ip = c.p, c.ip
    n = c.env.chainlen = p.fresh_nat('chainlen')
    p.fact(n >= 1)

    def at(j):
        p.fact(c.on_chain(j, n, goes_on))
        return c.start if conc(j) == 0 and isinstance(conc(j), int) else AT(zint(j))
    p.fact(z3.Not(goes_on(c.see(n - 1))))
    at(c.J)
    at(n - 1)
    at(0)
    return SList(c.streams.seq(ip, n, at))


def entity(c):
    pk = c.pk
    c.run.global_overrides[('gitdb.pack', 'mman')] = Mman(lambda ip, path: pk.F if path == 'x.pack' else None)
    e = c.ip.call(gpk.PackEntity, ['x.pack'], {})
    e.f['_index'] = IndexModel(c)
    return e


def asked_object(c):
    """an id that the index knows (c.known, at c.at) or does not"""
    p = c.p
    c.env.sha = c.bytes('sha', 20)
    c.env.known = p.fresh_bool('known')
    c.env.at = c.nat('at')
    chain_setup(c, start=lambda: OFFS(c.at))
    p.fact(z3.Implies(c.known, c.at < zint(c.index.n)))
    src = c.pk.src(c.start)
    E1, _ = MsbSize.spec(src.plain.base, 0)
    E2, V2 = MsbSize.spec(src.plain.base, E1)
    n = zint(src.plain.n)
    # the two sizes a delta begins with lie within the first 512 bytes (git's take at most 20)
    p.fact(z3.And(z3.Or(E1 > n, E1 <= 512), z3.Or(E2 > n, E2 <= 512)))
    c.env.sizes_ok, c.env.target = z3.And(E1 <= n, E2 <= n), V2


class Object(Contract):
    """metadata and stream of an object, by id or by position"""
    name = 'C03.object'
    target = 'gitdb.pack:PackEntity._object'
    models = ALL_MODELS
    uses = ['C01.parse', 'pack_object_at', 'C03.collect_streams_at_offset', 'C02.msb_size', 'read']
    cases = ['info', 'stream', 'info_at_index', 'stream_at_index', 'info_both_index', 'stream_both_index']

    def setup(self, c):
        asked_object(c)
        if c.case.endswith('index'):
            c.p.fact(c.known)
        c.env.entity = entity(c)
        return [], {}

    def call(self, ip, args, kw):
        """what callers know: the answer is that for the object asked for"""
        c, p = ip.run.ctx, ip.p
        a = dict(zip(('self', 'sha', 'as_stream', 'index'), args), **kw)
        sha, as_stream, index = a.get('sha'), a.get('as_stream'), a.get('index', -1)
        p.prove(is_int(index) and And(ge(index, 0), lt(index, c.index.n)), 'the position is within the index', 'precondition')
        if sha is not None:
            p.prove(is_byteslike(sha) and same_bytes(p, sha, c.index.id(index)), 'the id is the one at the position', 'precondition')
        if not isinstance(as_stream, bool):
            raise Unsupported('whether a stream is asked for is not known')
        return Answered(index, as_stream)

    def execute(self, c, args, kw):
        ip = c.ip
        if 'both' in c.case:
            return ip.call(ip.getattr(c.entity, '_object'), [c.index.id(c.at), c.case.startswith('stream'), c.at], {})
        return ip.call(ip.getattr(c.entity, c.case), [c.at if c.case.endswith('index') else c.sha], {})

    def id(self, c):
        return c.index.id(c.at) if c.case.endswith('index') else c.sha

    def post(self, c, ret):
        p, o = c.p, zint(c.start)
        g = lambda nm: c.ip.getattr(ret, nm)
        stream = c.case.startswith('stream')
        if not isinstance(ret, SObj) or not issubclass(ret.cls, gb.OStream if stream else gb.OInfo) or stream != issubclass(ret.cls, gb.OStream):
            return [('an object of the right kind is returned', False)]
        sha = ret.items[0] if ret.items else None
        out = [('only for an id the index knows', c.known),
               ('the id is the one asked for', same_bytes(p, sha, self.id(c)) if is_byteslike(sha) else False)]
        if not p.decide(is_delta(o), 'delta'):
            out += [('type of the entry', self.type_is(g('type'), o)), ('size of the entry', eq(g('size'), SIZE(o)) if is_int(g('size')) else False)]
            if stream:
                out.append(('the stream reads the content', And(*c.pk.stream_ok(g('stream'), o, 0))))
            return out
        if not hasattr(c.env, 'chainlen'):
            return out + [('the chain is resolved', False)]
        n = c.chainlen
        base = AT(n - 1)
        out += [('resolved down to an entry that is no delta', z3.Not(is_delta(base))), ('type of the final base', self.type_is(g('type'), base))]
        if not stream:
            return out + [('size of the resolved content', eq(g('size'), c.target) if is_int(g('size')) else False)]
        r = g('stream')
        if not isinstance(r, SObj) or r.cls is not gs.DeltaApplyReader:
            return out + [('the stream applies deltas', False)]
        ds = c.streams.positions(r.f.get('_dstreams'))
        b = c.streams.pos(r.f.get('_bstream'))
        if ds is None or b is None:
            return out + [('the stream has the chain', False)]
        c.see(c.J)
        return out + [('the final base', b == base), ('as many deltas as the chain has', eq(ds[0], n - 1)),
                      ('the deltas of the chain, newest first', z3.Implies(z3.And(c.J >= 0, c.J < n - 1), zint(ds[1](c.J)) == AT(c.J))),
                      ('nothing was delivered yet', eq(r.f.get('_br'), 0) if is_int(r.f.get('_br')) else False),
                      ('the content is made when it is read', '_size' not in r.f and '_mm_target' not in r.f)]

    @staticmethod
    def type_is(t, o):
        for k, v in TYPENAMES.items():
            if t == v:
                return TYPE(zint(o)) == k
        return False

    def exc(self, c, e):
        o = zint(c.start)
        stream = c.case.startswith('stream')
        if is_exc(e, BadObject):
            if stream or c.p.decide(Not(c.known), 'unknown'):
                return [('not found only if the index does not know it', Not(c.known))]
        open_ = And(is_delta(o), is_delta(AT(c.chainlen - 1))) if hasattr(c.env, 'chainlen') else False
        if is_exc(e, ValueError, BadObject):
            return [('an error only if a base is missing or the delta damaged', And(c.known, Or(open_, And(is_delta(o), Not(c.sizes_ok)))))]
        return [('an error only if the delta is damaged (%s)' % e.cls.__name__, And(c.known, is_delta(o), Not(c.sizes_ok)) if is_exc(e, AssertionError, IndexError) else False)]


class Answered(GhostVal):
    """metadata or stream of the object at a position of the index"""
    tname = 'object'

    def __init__(self, i, stream):
        self.i, self.stream = i, stream


class Iterate(Contract):
    """each object of the index once, in its order"""
    name = 'C03.iter'
    target = 'gitdb.pack:PackEntity._iter_objects'
    models = ALL_MODELS
    uses = ['C03.object']
    cases = ['info_iter', 'stream_iter']
    yield_contract = True
    invs = [
        Inv('objects done', '$it:int', lambda c, it: And(eq(c.out.f['n'], it), ge(it, 0), le(it, c.index.n))),
        Inv('objects done (counter)', 'index:int', lambda c, i: And(eq(c.out.f['n'], i), ge(i, 0), le(i, c.index.n))),
        Inv('terminates', '', lambda c: sub(c.index.n, c.out.f['n']), measure=True),
    ]

    def setup(self, c):
        pk = c.env.pk = PackGhost(c)
        c.env.index = Index(c, pk)
        c.env.out = Model('out')
        c.out.f['n'] = 0
        return [entity(c)], {}

    def execute(self, c, args, kw):
        from pyvc.interp import CONSUMED, GenIter
        r = c.ip.call(c.ip.getattr(args[0], c.case), [], {})
        if isinstance(r, GenIter) and isinstance(r.items, Seq):
            self.on_yield_seq(c, r.items)
            return True
        if isinstance(r, GenIter) and isinstance(r.items, tuple):
            for v in r.items:
                self.on_yield(c, v)
            return True
        return r is CONSUMED

    def answer(self, c, v, i):
        p = c.p
        p.prove(isinstance(v, Answered), 'an object is yielded', 'obligation')
        if isinstance(v, Answered):
            p.prove(eq(v.i, i), 'the objects come in the order of the index', 'obligation')
            p.prove(v.stream == (c.case == 'stream_iter'), 'metadata or streams as asked for', 'obligation')

    def on_yield(self, c, v):
        self.answer(c, v, c.out.f['n'])
        c.out.setf('n', add(c.out.f['n'], 1))

    def on_yield_seq(self, c, seq):
        k, first = c.p.fresh_nat('k'), c.out.f['n']
        if c.p.decide(k < zint(seq.n), 'one of them'):
            self.answer(c, seq.elem(k), add(first, k))
        c.out.setf('n', add(first, seq.n))

    def post(self, c, ret):
        return [('the objects are yielded', ret is True), ('every object was yielded', eq(c.out.f['n'], c.index.n))]


class Chain(Contract):
    """the chain of an id"""
    name = 'C03.collect_streams_of_id'
    target = 'gitdb.pack:PackEntity.collect_streams'
    models = ALL_MODELS
    uses = ['C03.collect_streams_at_offset']

    def setup(self, c):
        asked_object(c)
        return [entity(c), c.sha], {}

    def post(self, c, ret):
        r = c.streams.positions(ret) if isinstance(ret, SList) else None
        if r is None or not hasattr(c.env, 'chainlen'):
            return [('the chain is returned', False)]
        c.see(c.J)
        return [('only for an id the index knows', c.known), ('the whole chain', eq(r[0], c.chainlen)),
                ('of this entry', z3.Implies(z3.And(c.J >= 0, c.J < c.chainlen), zint(r[1](c.J)) == AT(c.J)))]

    def exc(self, c, e):
        return [('not found only if the index does not know it', Not(c.known) if is_exc(e, BadObject) else False)]


CONTRACTS = [PARSE, PACK_OBJECT_AT, Entry(), MsbSize(), READ, CollectOfs(), CollectAll(), Chain(), Object(), Iterate()]
LEVEL = 'proof'
