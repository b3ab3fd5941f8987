"""Abbreviated ids: is_equal_canonical_sha, PackIndexFile.partial_sha_to_index,
PackedDB/LooseObjectDB/CompoundDB.partial_to_complete_sha*"""
import ast
import itertools
from .packmodels import *
from .hexmodel import *
from .c06 import Ids, lookup_object
from pyvc.interp import FilterSeq, GenIter, ModelM
from gitdb.pack import PackIndexFile
from gitdb.exc import AmbiguousObjectName, BadObject

LENGTHS = list(range(4, 41))


def prefix_eq(L, match, key):
    """the id `key` (a number) starts with the first L digits of the bytes `match`"""
    m = key_of(match)
    return zint(key) / 16 ** (40 - L) == (zint(m) / 16 if L % 2 else zint(m))


class IsEqual(Contract):
    """true exactly if the id starts with the L digits"""
    name = 'C07.is_equal_canonical_sha'
    target = 'gitdb.fun:is_equal_canonical_sha'
    cases = LENGTHS
    assumptions = ['callers read "the first L digits agree" as equal quotients of the big-endian numbers (definition of digits)']

    def configure(self, run):
        run.bytes_by_byte = True

    def setup(self, c):
        L = c.case
        c.env.match = c.bytes('match', n=(L + 1) // 2)
        c.env.sha = c.bytes('sha', n=20)
        return [L, c.match, c.sha], {}

    def post(self, c, ret):
        L, bl = c.case, c.case // 2
        same = z3.And(*[zint(c.match.get(i)) == zint(c.sha.get(i)) for i in range(bl)])
        if L % 2:
            same = z3.And(same, zint(c.match.get(bl)) / 16 == zint(c.sha.get(bl)) / 16)
        t = c.ip.truth(ret)
        return [('true exactly if the first digits agree', zbool(t) == same)]

    def call(self, ip, args, kw):
        a = dict(zip(['canonical_length', 'match', 'sha1'], args))
        a.update(kw)
        L = conc(a['canonical_length'])
        m, s = as_sbytes(a['match']), as_sbytes(a['sha1'])
        ip.p.prove(And(isinstance(L, int) and 4 <= L <= 40, eq(m.n, (L + 1) // 2), eq(s.n, 20)), 'an id is compared with as many digits as given', 'precondition')
        return prefix_eq(L, m, key_of(s))


class PartialIndex(Contract):
    """position of the one id with these digits; None if there is none; error if several"""
    name = 'C07.partial_sha_to_index'
    target = 'gitdb.pack:PackIndexFile.partial_sha_to_index'
    cases = LENGTHS
    uses = ['C07.is_equal_canonical_sha']
    invs = [
        Inv('lower', 'lo:int', lambda c, lo: And(ge(lo, 0), le(lo, c.n))),
        Inv('upper', 'hi:int', lambda c, hi: And(ge(hi, 0), le(hi, c.n))),
        Inv('left of all', 'lo:int', lambda c, lo: z3.Implies(c.has, zint(lo) <= c.K)),
        Inv('left of first', 'lo:int', lambda c, lo: z3.Implies(zint(lo) > 0, c.ids.key(zint(lo) - 1) < c.filled)),
        Inv('right of first', 'hi:int', lambda c, hi: z3.Implies(zint(hi) < c.n, z3.Or(c.ids.key(zint(hi)) >= c.filled))),
        Inv('range', 'lo:int hi:int', lambda c, lo, hi: z3.Implies(zint(lo) > 0, zint(lo) <= zint(hi))),
        Inv('narrows', 'lo:int hi:int', lambda c, lo, hi: sub(hi, lo), measure=True),
        Inv('ordered', 'lo:int hi:int', lambda c, lo, hi: le(lo, hi)),
        Inv('right of first, inclusive', 'hi:int', lambda c, hi: And(ge(hi, -1), lt(hi, c.n), z3.Implies(zint(hi) + 1 < c.n, c.ids.key(zint(hi) + 1) >= c.filled))),
    ]

    def setup(self, c):
        L = c.case
        o = lookup_object(c)
        c.env.part = c.bytes('partial', n=(L + 1) // 2)
        m = key_of(c.part)
        if L % 2:
            c.assume(zint(m) % 16 == 0)     # an odd number of digits is filled up with 0
        c.env.filled = zint(m) * 256 ** (20 - (L + 1) // 2)
        c.env.K = c.int('K')
        k = c.ids.key(c.K)
        c.env.has = z3.And(c.K >= 0, c.K < c.n, prefix_eq(L, c.part, k))
        return [o, c.part, L], {}

    def pre(self, c, i):
        return z3.And(zint(i) >= 0, zint(i) < c.n, prefix_eq(c.case, c.part, c.ids.key(i)))

    def post(self, c, ret):
        if ret is None:
            return [('none only if no id has these digits', z3.Not(c.has))]
        if not is_int(ret):
            return [('returns a position', False)]
        return [('the id at the position has these digits', self.pre(c, ret)),
                ('no other id has', z3.Implies(c.has, c.K == zint(ret)))]

    def exc(self, c, e):
        if is_exc(e, AmbiguousObjectName):
            two = [z3.And(self.pre(c, a), self.pre(c, b), a != b) for n, (a, _) in enumerate(c.ids.seen) for b, _ in c.ids.seen[:n]]
            return [('ambiguous only if two ids have these digits', Or(*two))]
        return [('no exception (%s)' % e.cls.__name__, False)]


class Matches:
    """which ids match the digits asked for: `found(k)` holds for the ids that were seen to
    match and for nothing else; `witness` lists terms at which it is known"""

    def __init__(self, c):
        self.p = c.p
        self.fn = z3.Function('found', I, z3.BoolSort())
        self.witness = []

    def found(self, k):
        return self.fn(zint(k))

    def note(self, k):
        k = zint(k)
        if not any(k.eq(x) for x in self.witness):
            self.witness.append(k)

    def two(self):
        w = self.witness
        return Or(*[z3.And(self.found(a), self.found(b), a != b) for n, a in enumerate(w) for b in w[:n]])


def candidate_inv(c, cand, it, extra=None):
    """after the first `it` members: none matched, or all that did match is `cand`"""
    seen = z3.And(c.K >= 0, c.K < zint(it))
    if cand is None:
        return z3.Implies(seen, c.none(c.K))
    if not is_byteslike(cand):
        return False
    fit = eq(as_sbytes(cand).n, 20)
    if concb(fit) is not True:
        # an arbitrary value of unknown length
        if not c.assuming:
            return False
        c.fact(fit)
        cand.n = 20
    k = key_of(cand)
    c.m.note(k)
    r = z3.And(c.m.found(k), z3.Implies(seen, z3.Or(c.none(c.K), c.only(c.K, k))))
    return z3.And(r, extra(k)) if extra else r


def candidate_post(c, ret):
    if not is_byteslike(ret) or concb(eq(as_sbytes(ret).n, 20)) is not True:
        return [('returns an id', False)]
    k = key_of(ret)
    return [('an id that matches', c.m.found(k)),
            ('no other matches', z3.Implies(z3.And(c.K >= 0, c.K < c.n), z3.Or(c.none(c.K), c.only(c.K, k))))]


def candidate_exc(c, e):
    if is_exc(e, AmbiguousObjectName):
        return [('ambiguous only if two ids match', z3.Or(c.m.two(), c.several))]
    if is_exc(e, BadObject):
        return [('not found only if nothing matches', z3.Implies(z3.And(c.K >= 0, c.K < c.n), c.none(c.K)))]
    return [('no exception (%s)' % e.cls.__name__, False)]


CAND_INVS = [Inv('candidate', 'candidate:any $it:int', lambda c, x, it: candidate_inv(c, x, it), hints=[('candidate', '$it')])]


class PackIndexModel(Model):
    """a pack's index through the contracts of partial_sha_to_index and sha: cnt(i) ids of pack
    i match (0, 1, 2: several), at(i) is the position and key(i) the id of the only one"""

    def __init__(self, c, i):
        super().__init__('index')
        self.c, self.i = c, i

    def m_index(self, ip):
        return self

    def m_partial_sha_to_index(self, ip, part, length):
        c, i = self.c, self.i
        ip.p.prove(And(same_bytes(ip.p, part, c.part), eq(length, c.length)), 'the index is asked for the digits given', 'precondition')
        n = c.CNT(zint(i))
        if ip.p.decide(n >= 2, 'several'):
            c.env.several = z3.BoolVal(True)
            ip.throw(AmbiguousObjectName, part)
        if ip.p.decide(n == 0, 'none'):
            return None
        return c.AT(zint(i))

    def m_sha(self, ip, pos):
        c, i = self.c, self.i
        ip.p.prove(z3.And(c.CNT(zint(i)) == 1, zint(pos) == c.AT(zint(i))), 'the id is read at the position found', 'precondition')
        c.p.fact(c.m.found(c.KEY(zint(i))))
        c.m.note(c.KEY(zint(i)))
        return key_bytes(ip.p, c.KEY(zint(i)), 20)


class PartialPacked(Contract):
    """over all packs of a database"""
    name = 'C07.packed'
    target = 'gitdb.db.pack:PackedDB.partial_to_complete_sha'
    invs = CAND_INVS

    def setup(self, c):
        p = c.p
        c.env.n = c.nat('packs')
        c.env.part, c.env.length = c.bytes('partial'), c.nat('digits')
        c.env.CNT, c.env.AT, c.env.KEY = F('cnt'), F('at'), F('key')
        c.env.m = Matches(c)
        c.env.K = c.int('K')
        c.env.several = z3.BoolVal(False)

        def known(i):
            p.fact(z3.And(c.CNT(i) >= 0, c.CNT(i) <= 2, c.AT(i) >= 0, c.KEY(i) >= 0, c.KEY(i) < 16 ** 40))
        known(c.K)
        c.env.none = lambda i: c.CNT(i) == 0
        c.env.only = lambda i, k: z3.And(c.CNT(i) == 1, c.KEY(i) == k)
        made = {}

        def item(i):
            i = zint(i)
            if i.get_id() not in made:
                known(i)
                e = PackIndexModel(c, i)
                made[i.get_id()] = (i, SList((p.fresh_nat('hits'), e, ModelM(e, 'sha_to_index'))))
            return made[i.get_id()][1]
        from gitdb.db.pack import PackedDB
        o = SObj(PackedDB)
        o.f.update(_entities=SList(Seq(c.n, item)), _root_path='root', _hit_count=c.nat('hits'), _st_mtime=0)
        return [o, c.part, c.length], {}

    post = staticmethod(candidate_post)
    exc = staticmethod(candidate_exc)


class LooseIter(Contract):
    """sha_iter of the loose database yields every stored id once (C10)"""
    name = 'C07.loose_iter'
    target = 'gitdb.db.loose:LooseObjectDB.sha_iter'

    def call(self, ip, args, kw):
        c = ip.run.ctx

        def elem(i):
            i = zint(i)
            k = c.KEY(i)
            c.known(i)
            return key_bytes(ip.p, k, 20)
        return GenIter(Seq(c.n, elem))


class PartialLoose(Contract):
    """over all objects of a loose database"""
    name = 'C07.loose'
    target = 'gitdb.db.loose:LooseObjectDB.partial_to_complete_sha_hex'
    cases = [{'digits': n, 'as': k} for n in LENGTHS for k in ('str', 'bytes')]
    uses = ['C07.loose_iter']
    models = HEX_MODELS
    invs = [Inv('candidate', 'candidate:any $it:int', lambda c, x, it: candidate_inv(c, x, it, lambda k: z3.And(c.IDX(k) < zint(it), c.pre(k))), hints=[('candidate', '$it')])]

    def configure(self, run):
        run.witnesses = lambda c: [c.K]

    def setup(self, c):
        p, L = c.p, c.case['digits']
        c.env.n = c.nat('objects')
        c.env.KEY, c.env.IDX = F('key'), F('idx')
        c.env.m = Matches(c)
        c.env.K = c.int('K')
        c.env.several = z3.BoolVal(False)
        c.env.val = c.nat('digits')
        c.assume(c.val < 16 ** L)
        c.env.pre = lambda k: zint(k) / 16 ** (40 - L) == c.val

        def known(i):
            k = c.KEY(i)
            p.fact(z3.And(k >= 0, k < 16 ** 40, c.IDX(k) == i, z3.Implies(z3.And(i >= 0, i < c.n, c.pre(k)), c.m.found(k))))
            c.m.note(k)
        c.env.known = known
        known(c.K)
        c.env.none = lambda i: z3.Not(c.pre(c.KEY(i)))
        c.env.only = lambda i, k: c.KEY(i) == k
        from gitdb.db.loose import LooseObjectDB
        o = SObj(LooseObjectDB)
        o.f.update(_root_path='root', _hexsha_to_file=SDict(), _fd_open_flags=0)
        return [o, Hex(c.val, L, c.case['as'])], {}

    post = staticmethod(candidate_post)
    exc = staticmethod(candidate_exc)


class MemberModel(Model):
    """a member database that is no compound, through its contract for abbreviated ids"""

    def __init__(self, c, i):
        super().__init__('member')
        self.c, self.i = c, i

    def py_isinstance(self, ip, cls):
        from gitdb.db.base import CompoundDB
        if issubclass(cls, CompoundDB):
            return False
        raise Unsupported('kind of a member database')

    def py_hasattr(self, ip, name):
        if name == 'partial_to_complete_sha_hex':
            return self.c.HEX(zint(self.i))
        if name == 'partial_to_complete_sha':
            return z3.Not(self.c.HEX(zint(self.i)))
        raise Unsupported('hasattr ' + name)

    def answer(self, ip, name):
        c, i = self.c, zint(self.i)
        n = c.CNT(i)
        if ip.p.decide(n >= 2, 'several'):
            c.env.several = z3.BoolVal(True)
            ip.throw(AmbiguousObjectName, name)
        if ip.p.decide(n == 0, 'none'):
            ip.throw(BadObject, name)
        ip.p.fact(c.m.found(c.KEY(i)))
        c.m.note(c.KEY(i))
        return key_bytes(ip.p, c.KEY(i), 20)

    def m_partial_to_complete_sha_hex(self, ip, h):
        c = self.c
        if not ip.p.decide(c.HEX(zint(self.i)), 'has it'):
            ip.throw(AttributeError, 'partial_to_complete_sha_hex')
        ip.p.prove(isinstance(h, Hex) and h.n == c.L and eq(h.val, c.val), 'a member is asked for the digits given', 'precondition')
        return self.answer(ip, h)

    def m_partial_to_complete_sha(self, ip, b, n):
        c = self.c
        if not ip.p.decide(z3.Not(c.HEX(zint(self.i))), 'has it'):
            ip.throw(AttributeError, 'partial_to_complete_sha')
        b = as_sbytes(b)
        ok = And(eq(n, c.L), eq(b.n, (c.L + 1) // 2))
        ip.p.prove(And(ok, eq(key_of(b), mul(c.val, 16 if c.L % 2 else 1))), 'a member is asked for the digits given', 'precondition')
        return self.answer(ip, b)


class Db(GhostVal):
    """a database: `C` whether it is a compound, `N` how often W is found below it (a database
    that is no compound is found below itself), `W` whether it is W"""

    def __init__(self, C, N, W):
        self.C, self.N, self.W = C, N, W

    def vkind(self):
        return (Db,)

    @staticmethod
    def vfresh(path, name, kind):
        return fresh_db(path, name)

    def py_isinstance(self, ip, cls):
        from gitdb.db.base import CompoundDB
        if cls is CompoundDB:
            return self.C
        raise Unsupported('kind of a member database')


def fresh_db(p, name='db'):
    d = Db(p.fresh_bool(name + '.C'), p.fresh_nat(name + '.N'), p.fresh_nat(name + '.W'))
    db_facts(p, d)
    return d


def db_facts(p, d):
    p.fact(z3.And(d.W >= 0, d.W <= 1, d.N >= 0, z3.Implies(z3.Not(d.C), d.N == d.W)))


def running(p, n, at, **terms):
    """prefix sums over elements 0..n-1"""
    fs = {k: F(p.name(k)) for k in terms}
    for f in fs.values():
        p.fact(f(0) == 0)

    def unfold(i):
        i = zint(i)
        d = at(i)
        for k, t in terms.items():
            p.fact(z3.Implies(z3.And(i >= 0, i < zint(n)), fs[k](i + 1) == fs[k](i) + t(d)))
        return d
    return fs, unfold


class DbList(Model):
    """a list of databases: how many there are, how often W is in it (occ), and below them (tot)"""
    cls = list

    def __init__(self, c, n, occ, tot):
        super().__init__('dbs')
        self.c, self.occ0 = c, occ
        self.f.update(n=n, occ=occ, tot=tot)

    def change(self, n, occ, tot):
        for k, v in (('n', n), ('occ', occ), ('tot', tot)):
            self.setf(k, add(self.f[k], v))

    def m_append(self, ip, v):
        if not isinstance(v, Db):
            raise Unsupported('%r in a list of databases' % (v,))
        self.change(1, v.W, v.N)

    def m_extend(self, ip, v):
        self.change(*sums_of(self.c, ip, v))

    def py_iop(self, ip, op, v):
        if op is not ast.Add:
            return NotImplemented
        self.m_extend(ip, v)
        return self

    def truth(self, ip):
        return ne(self.f['n'], 0)

    def py_len(self, ip):
        return self.f['n']

    def py_iter(self, ip):
        p, n = ip.p, self.f['n']
        fc, fn, fw = z3.Function(p.name('C'), I, z3.BoolSort()), F(p.name('N')), F(p.name('W'))

        def at(i):
            d = Db(fc(i), fn(i), fw(i))
            db_facts(p, d)
            return d
        fs, unfold = running(p, n, at, occ=lambda d: d.W, tot=lambda d: d.N)
        p.fact(z3.And(fs['occ'](zint(n)) == zint(self.f['occ']), fs['tot'](zint(n)) == zint(self.f['tot'])))
        self.c.env.lists = self.c.lists + [fs]
        snap = dict(self.f)

        def elem(i):
            if any(self.f[k] is not snap[k] for k in snap):
                raise Unsupported('a list that changes while it is iterated')
            return unfold(i)
        return Seq(n, elem)


def sums_of(c, ip, v):
    """number of elements, W among them, W below them"""
    p = ip.p
    flt = None
    if isinstance(v, DbList):
        return v.f['n'], v.f['occ'], v.f['tot']
    if isinstance(v, GenIter):
        if v.pos:
            raise Unsupported('part of the members')
        v, it = v.items, v
        it.advance(0)
        it.items = ()
    if isinstance(v, SList):
        v = v.v
    if isinstance(v, Seq) and isinstance(v.tag, tuple) and v.tag[0] == 'filter':
        v = v.tag[1]
    if isinstance(v, FilterSeq):
        flt, v = v, v.vals
    if isinstance(v, tuple) and all(isinstance(d, Db) for d in v) and flt is None:
        n, o, t = len(v), 0, 0
        for d in v:
            o, t = add(o, d.W), add(t, d.N)
        return n, o, t
    if not isinstance(v, Seq) or v.tag != 'members':
        raise Unsupported('databases from %r' % (v,))
    if flt is None:
        return v.n, c.s['OL'](v.n) + c.s['OC'](v.n), c.s['OL'](v.n) + c.s['TC'](v.n)
    i = p.fresh_nat('i')
    p.fact(i < zint(v.n))
    d = v.elem(i)
    if flt.elt(i) is not d and not same_db(p, flt.elt(i), d):
        raise Unsupported('not the members')
    k = zbool(flt.cond(i))
    n = p.fresh_nat('some')
    p.fact(n <= zint(v.n))
    if p.entails(z3.Implies(i < zint(v.n), k == z3.Not(d.C))):
        return n, c.s['OL'](v.n), c.s['OL'](v.n)
    if p.entails(z3.Implies(i < zint(v.n), k == d.C)):
        return n, c.s['OC'](v.n), c.s['TC'](v.n)
    raise Unsupported('some of the members')


def same_db(p, a, b):
    return isinstance(a, Db) and p.entails(z3.And(a.C == b.C, a.N == b.N, a.W == b.W))


def sum_invs():
    z = lambda c, i: 0
    out = []
    firsts = [('', z), (' leaves so far', lambda c, i: c.s['OL'](zint(i))), (' all leaves', lambda c, i: c.s['OL'](c.n))]
    seconds = [('', z), (' nested so far', lambda c, i: c.s['TC'](zint(i))), (' all nested', lambda c, i: c.s['TC'](c.n)),
               (' compounds so far', lambda c, i: c.s['OC'](zint(i))),
               (' listed so far', lambda c, i: c.lists[-1]['tot'](zint(i)) if c.lists else None), (' listed', lambda c, i: c.lists[-1]['occ'](zint(i)) if c.lists else None)]
    for f in ('occ', 'tot'):
        for n1, g1 in firsts:
            for n2, g2 in seconds:
                def fn(c, l, i, f=f, g1=g1, g2=g2):
                    if not isinstance(l, DbList):
                        return False
                    b = g2(c, i)
                    return False if b is None else eq(l.f[f], add(add(l.occ0 if f == 'occ' else l.tot0 if hasattr(l, 'tot0') else 0, g1(c, i)), b))
                out.append(Inv(f + n1 + n2, 'output:any $it:int', fn, hints=[('output', '$it')]))
    return out


class Recursive(Contract):
    """_databases_recursive appends the databases below that are no compounds, each as often as
    it is a member (W: any database)"""
    name = 'C07.members'
    target = 'gitdb.db.base:_databases_recursive'
    cases = ['compound', 'leaf']
    uses = ['C07.members']
    invs = sum_invs()

    def configure(self, run):
        def newlist(ip, v):
            c = run.ctx
            if not hasattr(c.env, 'started'):
                return None
            try:
                return DbList(c, *sums_of(c, ip, v))
            except Unsupported:
                return None
        run.newlist_hook = newlist

    def setup(self, c):
        from gitdb.db.base import CompoundDB
        p = c.p
        c.env.lists = []
        n = c.env.n = c.nat('members')
        if c.case == 'leaf':
            o = fresh_db(p)
            p.fact(z3.Not(o.C))
            c.env.total = o.N
            c.env.s = {k: (lambda i: z3.IntVal(0)) for k in ('OL', 'OC', 'TC')}
        else:
            fc, fn, fw = z3.Function('isC', I, z3.BoolSort()), F('below'), F('isW')
            c.env.height = F('height')

            made = {}

            def at(i):
                if i.get_id() not in made:
                    made[i.get_id()] = (i, Db(fc(i), fn(i), fw(i)))
                    db_facts(p, made[i.get_id()][1])
                return made[i.get_id()][1]
            c.env.s, unfold = running(p, n, at, OL=lambda d: z3.If(d.C, 0, d.W), OC=lambda d: z3.If(d.C, d.W, 0), TC=lambda d: z3.If(d.C, d.N, 0))
            # what is found below a compound: its members that are none, and what is below the others
            c.env.total = c.s['OL'](n) + c.s['TC'](n)
            o = SObj(CompoundDB)
            o.f['_dbs'] = SList(Seq(n, unfold, tag='members'))
        c.env.out = DbList(c, c.nat('n'), c.nat('occ'), c.nat('tot'))
        c.out.tot0 = c.out.f['tot']
        c.env.started = True
        return [o, c.out], {}

    def call(self, ip, args, kw):
        c = ip.run.ctx
        db, out = args
        if isinstance(c.run.c, Recursive):
            # nesting is finite: a call for a member is one for a smaller database
            ip.p.prove(isinstance(db, Db) and isinstance(out, DbList), 'members are opened with the list given', 'precondition')
            k = ip.p.fresh_nat('more')
            out.change(k, db.N, ip.p.fresh_nat('below'))
            return None
        ip.p.prove(db is c.self_ and isinstance(out.v, tuple) and not out.v, 'all members are collected', 'precondition')
        p = ip.p
        made = {}

        def elem(i):
            i = zint(i)
            if i.get_id() not in made:
                c.known(i)
                made[i.get_id()] = (i, MemberModel(c, i))
            return made[i.get_id()][1]
        out.setf('v', Seq(c.n, elem))
        return None

    def post(self, c, ret):
        return [('every database below that is no compound is added, as often as it is a member; no other is', eq(c.out.f['occ'], add(c.out.occ0, c.total)))]


class PartialCompound(Contract):
    """over all members of a compound database"""
    name = 'C07.compound'
    target = 'gitdb.db.base:CompoundDB.partial_to_complete_sha_hex'
    cases = [{'digits': n, 'as': k} for n in LENGTHS for k in ('str', 'bytes')]
    uses = ['C07.members']
    models = HEX_MODELS
    invs = CAND_INVS

    def setup(self, c):
        p = c.p
        L = c.env.L = c.case['digits']
        c.env.n = c.nat('members')
        c.env.CNT, c.env.KEY, c.env.HEX = F('cnt'), F('key'), z3.Function('hashex', I, z3.BoolSort())
        c.env.m = Matches(c)
        c.env.K = c.int('K')
        c.env.several = z3.BoolVal(False)
        c.env.val = c.nat('digits')
        c.assume(c.val < 16 ** L)

        def known(i):
            p.fact(z3.And(c.CNT(i) >= 0, c.CNT(i) <= 2, c.KEY(i) >= 0, c.KEY(i) < 16 ** 40))
        c.env.known = known
        known(c.K)
        c.env.none = lambda i: c.CNT(i) == 0
        c.env.only = lambda i, k: z3.And(c.CNT(i) == 1, c.KEY(i) == k)
        from gitdb.db.base import CompoundDB
        o = c.env.self_ = SObj(CompoundDB)
        return [o, Hex(c.val, L, c.case['as'])], {}

    post = staticmethod(candidate_post)
    exc = staticmethod(candidate_exc)


CONTRACTS = [IsEqual(), PartialIndex(), PartialPacked(), PartialLoose(), PartialCompound(), Recursive()]
REGISTRY = {'C07.loose_iter': LooseIter()}
LEVEL = 'proof'
