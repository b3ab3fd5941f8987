"""Integrity verification: PackEntity.is_valid_stream and the extents of entries"""
from .c03 import *
from .c03 import entity, asked_object
from .c09 import crc_of, contents_of_crc, m_crc32
from .hashmodels import *
from .streamcopy import STREAM_COPY
from pyvc import builtin_models as bm
from gitdb.exc import UnsupportedOperation

CRCV, NXT = F('index_crc', I, I), F('next_entry', I, I)
SORTED, POS, RNK = F('sorted_offset', I, I), F('sorted_from', I, I), F('sorted_rank', I, I)
MODELS = {**ALL_MODELS, **HASH_MODELS, zlib.crc32: m_crc32, binascii.crc32: m_crc32}


def checked_pack(c, version):
    asked_object(c)
    ix = c.index
    ix.version = version

    def crc(i):
        v = CRCV(zint(i))
        c.p.fact(z3.And(v >= 0, v < 2 ** 32))
        return v
    ix.crc = crc
    # an index lists an object once, and the trailer lies behind every entry
    for i in (c.at,):
        ix.offset(i)
    c.p.fact(z3.And(zint(ix.n) >= 1, zint(ix.n) < 2 ** 31))
    return entity(c)


class Pairs(Model):
    """a dict made from a sequence of pairs with distinct keys, with items set later"""
    cls = dict

    def __init__(self, seq):
        super().__init__('dict')
        self.seq = seq
        self.f['later'] = ()

    def py_setitem(self, ip, k, v):
        self.setf('later', self.f['later'] + ((k, v),))

    def find(self, ip, k, where):
        """the value of a key known to be that of pair number `where`, if there is one"""
        p = ip.p
        for a, b in reversed(self.f['later']):
            if p.decide(eq(a, k), 'dict key'):
                return b
        if not p.decide(And(ge(where, 0), lt(where, self.seq.n)), 'dict key'):
            return None
        a, b = ip.as_tuple(self.seq.elem(where))
        return b if p.entails(eq(a, k)) else None


class Extents(Contract):
    """each entry's start leads to the start of the entry that follows it, the last one's to the trailer"""
    name = 'C18.offset_map'
    target = 'gitdb.pack:PackEntity._set_cache_'
    models = MODELS
    assumptions = ['sorted() sorts']

    def configure(self, run):
        def order(k):
            """facts about position k of the sorted offsets"""
            c, p = run.ctx, Path.cur
            k = zint(k)
            n = zint(c.index.n)
            seen = p.memo.setdefault('sorted', [])
            if any(x.eq(k) for x in seen):
                return
            p.fact(z3.Implies(z3.And(k >= 0, k < n), z3.And(SORTED(k) == OFFS(POS(k)), POS(k) >= 0, POS(k) < n, RNK(POS(k)) == k)))
            c.index.offset(POS(k))
            for x in seen:
                both = z3.And(k >= 0, k < n, x >= 0, x < n)
                p.fact(z3.Implies(z3.And(both, x < k), SORTED(x) < SORTED(k)))
                p.fact(z3.Implies(z3.And(both, k < x), SORTED(k) < SORTED(x)))
            seen.append(k)
        self.order = order

        def sort(ip, seq, key, reverse):
            if not isinstance(seq, Seq) or seq.tag != 'offsets' or key is not None or reverse is not False:
                return None

            def elem(k):
                order(k)
                return SORTED(zint(k))
            return Seq(seq.n, elem, tag='sorted')
        run.sort_hook = sort
        run.dict_hook = lambda ip, seq: Pairs(seq)

    def setup(self, c):
        e = checked_pack(c, 2)
        c.env.e = e
        c.env.j = c.nat('other')
        c.p.fact(c.j < zint(c.index.n))
        c.p.fact(c.known)
        c.index.offset(c.j)
        # offsets of the index are distinct, so sorting is a bijection of positions
        for i in (c.at, c.j):
            k = RNK(zint(i))
            self.order(k)
            c.p.fact(z3.And(k >= 0, k < zint(c.index.n), SORTED(k) == OFFS(zint(i)), POS(k) == zint(i)))
        self.order(RNK(c.at) + 1)
        return [e, '_offset_map'], {}

    def post(self, c, ret):
        p, m, o = c.p, c.e.f.get('_offset_map'), OFFS(c.at)
        if isinstance(m, Pairs):
            v = m.find(c.ip, o, RNK(c.at))
        elif isinstance(m, SDict):
            v = None
            for a, b in m.f['v']:
                if p.decide(eq(a, o), 'dict key'):
                    v = b
        else:
            return [('a mapping is made', False)]
        if not is_int(v):
            return [('every entry has an extent', False)]
        v = zint(v)
        self.order(RNK(c.at) + 1)
        i = POS(RNK(c.at) + 1)
        other = OFFS(c.j)
        return [('an entry ends behind its start', v > o),
                ('it ends where another starts or the trailer does', z3.Or(v == zint(c.pk.end), z3.And(v == OFFS(i), i >= 0, i < zint(c.index.n)))),
                ('no other entry starts within it', z3.Not(z3.And(other > o, other < v)))]

    def call(self, ip, args, kw):
        c = ip.run.ctx
        if args[1] != '_offset_map':
            ip.throw(AttributeError, args[1])
        args[0].setf('_offset_map', Extent(c))
        return None


class Extent(Model):
    """the map C18.offset_map shows: start of an entry to the start of the next"""
    cls = dict

    def __init__(self, c):
        super().__init__('offset_map')
        self.c = c

    def py_getitem(self, ip, o):
        c = self.c
        ip.p.prove(eq(o, OFFS(c.at)), 'the extent of the entry asked for', 'precondition')
        return next_entry(c)


def next_entry(c):
    o = OFFS(c.at)
    c.p.fact(z3.And(NXT(o) > o, NXT(o) <= zint(c.pk.end)))
    return NXT(o)


class ByChecksum(Contract):
    """True exactly if the CRC-32 of all bytes of the entry is the one in the index"""
    name = 'C18.by_checksum'
    target = 'gitdb.pack:PackEntity.is_valid_stream'
    models = MODELS
    uses = ['C18.offset_map']
    cases = ['version 2', 'version 1']
    assumptions = ['crc32 is a function of the bytes it was given, continued piece by piece']
    invs = [
        Inv('within the entry', 'cur_pos:int', lambda c, i: And(ge(i, OFFS(c.at)), le(i, NXT(OFFS(c.at))))),
        Inv('left', 'left:int', lambda c, i: And(ge(i, 0), le(i, NXT(OFFS(c.at)) - OFFS(c.at)))),
        Inv('checksum so far', 'this_crc_value:int cur_pos:int', lambda c, v, i: c.crcinv(v, i)),
        Inv('checksum so far, by what is left', 'this_crc_value:int left:int', lambda c, v, i: c.crcinv(v, sub(NXT(OFFS(c.at)), i))),
        Inv('checksum so far, by chunks', 'this_crc_value:int $it:int', lambda c, v, i: c.crcinv(v, c.upto(i))),
        Inv('terminates', 'cur_pos:int', lambda c, i: sub(NXT(OFFS(c.at)), i), measure=True),
        Inv('terminates, by what is left', 'left:int', lambda c, i: i, measure=True),
    ]

    def no_return(self, case):
        return case == 'version 1'

    def setup(self, c):
        e = checked_pack(c, 2 if c.case == 'version 2' else 1)
        p = c.p
        next_entry(c)

        def crcinv(v, i):
            d = slice_bytes(c.pk.F, OFFS(c.at), conc(z3.simplify(zint(i) - OFFS(c.at))))
            if c.assuming:
                p.ghost.setdefault('crcs', []).append((zint(v), d))
                p.fact(z3.And(zint(v) >= 0, zint(v) < 2 ** 32))
                return True
            # v is a checksum of exactly one content as far as anything is known about it
            return any(p.entails(same_bytes(p, got, d)) for got in contents_of_crc(p, v))
        c.env.crcinv = crcinv
        o, end = OFFS(c.at), NXT(OFFS(c.at))
        size = importlib.import_module('gitdb.pack').chunk_size
        c.env.upto = lambda i: Ite(And(ge(i, 0), lt(add(o, mul(size, i)), end)), add(o, mul(size, i)), end)
        return [e, c.sha, True], {}

    def post(self, c, ret):
        p = c.p
        if c.case == 'version 1':
            return [('verification by checksum is refused without checksums', False)]
        out = [('only for an id the index knows', c.known)]
        if not (isinstance(ret, bool) or is_sbool(ret)):
            return out + [('an answer', False)]
        want = slice_bytes(c.pk.F, OFFS(c.at), conc(NXT(OFFS(c.at)) - OFFS(c.at)))
        for v, d in reversed(p.ghost.get('crcs', [])):
            if p.entails(same_bytes(p, d, want)):
                return out + [('the answer is whether the checksum of all bytes of the entry is the one in the index', zbool(ret) == (v == CRCV(c.at)))]
        return out + [('the checksum is that of all bytes of the entry', False)]

    def exc(self, c, e):
        if c.case == 'version 1':
            return [('verification by checksum is refused', is_exc(e, UnsupportedOperation))]
        return [('not found only if the index does not know it (%s)' % e.cls.__name__, Not(c.known) if is_exc(e, BadObject) else False)]


class ObjectUse(Object):
    """C03/C02: the stream delivers the complete resolved content, or raises"""

    def call(self, ip, args, kw):
        a = dict(zip(('self', 'sha', 'as_stream', 'index'), args))
        a.update(kw)
        p, c = ip.p, ip.run.ctx
        p.prove(a.get('as_stream') is True and eq(a.get('index', -1), -1) is True, 'the stream of the id is asked for', 'obligation')
        p.prove(same_bytes(p, a['sha'], c.sha), 'the stream of the id is asked for', 'obligation')
        if not p.decide(c.known, 'known'):
            ip.throw(BadObject, a['sha'])
        if p.choose(2, 'damaged'):
            c.env.damaged = True
            ip.throw((ValueError, AssertionError, zlib.error)[p.choose(3, 'how')], 'damaged')
        return ip.call(gb.OStream, [a['sha'], c.type, c.content.n, c.reader], {})


class ByContent(Contract):
    """True exactly if the SHA-1 of header and content is the id"""
    name = 'C18.by_content'
    target = 'gitdb.pack:PackEntity.is_valid_stream'
    models = MODELS
    uses = ['C03.object', 'stream_copy']
    cases = ['commit', 'tree', 'blob', 'tag']
    assumptions = ['the stream of an object is that of its resolved content (C02, C03, C04) or raises']

    def setup(self, c):
        e = checked_pack(c, 2 - c.p.choose(2, 'version'))
        c.env.type = c.case.encode()
        c.env.content = c.bytes('content')
        c.assume(c.content.n < 2 ** 60)
        c.env.reader = Reader(c.content, fails=(ValueError,))
        c.env.damaged = False
        c.env.e = e
        return [e, c.sha] + ([] if c.p.choose(2, 'default') else [False]), {}

    def matches(self, c):
        """whether the id is the SHA-1 of the stored form, None if that was not computed"""
        p = c.p
        want = concat(concat(concat(c.type, b' '), bm.decimal_bytes(c.content.n)), concat(b'\0', c.content))
        for d in digests(p):
            if p.entails(same_bytes(p, d.data, want)):
                return c.ip.eq(d.bytes, c.sha)
        return None

    def post(self, c, ret):
        m = self.matches(c)
        out = [('only for an id the index knows', c.known)]
        if m is None or not (isinstance(ret, bool) or is_sbool(ret)):
            return out + [('the SHA-1 of header and content is computed', False)]
        return out + [('the answer is whether it is the id', zbool(ret) == zbool(m))]

    def exc(self, c, e):
        if is_exc(e, BadObject):
            return [('not found only if the index does not know it', Not(c.known))]
        if c.damaged or c.reader.f.get('failed'):
            return []
        m = self.matches(c)
        return [('an error only if the SHA-1 is not the id (%s)' % e.cls.__name__, Not(m) if m is not None else False)]


CONTRACTS = [STREAM_COPY, Extents(), ByChecksum(), ByContent()]
REGISTRY = {'C03.object': ObjectUse()}
LEVEL = 'proof'
