"""Compound databases: CompoundDB's search, its cache, delegation, size, ids and update; GitDB's members"""
from .common import *
from pyvc.core import Seq
from pyvc.interp import CONSUMED
from .fsmodels import *
import gitdb.db.base as dbase
from gitdb.db.base import CompoundDB, CachingDB
from gitdb.db.git import GitDB
from gitdb.db.ref import ReferenceDB
from gitdb.exc import BadObject, InvalidDBRoot

CLASSES = {'CompoundDB': CompoundDB, 'GitDB': GitDB, 'ReferenceDB': ReferenceDB}
HAS = z3.Function('member_has', I, I, z3.BoolSort())
CACHING = z3.Function('member_caches', I, z3.BoolSort())
SIZE, SUM, COUNT, START = F('member_size'), F('size_of_first'), F('member_count'), F('ids_before')


class Members:
    """the member databases: any number, each with any objects; `version` counts changes"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.made = {}
        self.st = HObj('members')
        self.st.f['version'] = 0

    @property
    def version(self):
        return zint(self.st.f['version'])

    def at(self, i):
        i = zint(conc(i))
        if i.get_id() not in self.made:
            self.made[i.get_id()] = Member(self, i)
            self.facts(i)
        return self.made[i.get_id()]

    def facts(self, i):
        c, f = self.c, z3.And
        if hasattr(c.env, 'first'):
            c.p.fact(z3.Implies(f(i >= 0, i < zint(self.n)), z3.Implies(HAS(i, 0), f(c.known, c.first <= i))))
        c.p.fact(f(SIZE(i) >= 0, SUM(i + 1) == SUM(i) + SIZE(i), COUNT(i) >= 0, START(i + 1) == START(i) + COUNT(i), START(i) >= 0))

    def seq(self):
        return Seq(self.n, self.at)


class Member(GhostVal):
    def __init__(self, ms, i):
        self.ms, self.i = ms, i

    def vkind(self):
        return (Member,)

    @staticmethod
    def vfresh(path, name, kind):
        return path.run.ctx.ms.at(path.fresh_int(name))

    def has_native_attr(self, name):
        return name in METHODS

    def py_getattr(self, ip, name):
        if name in METHODS:
            return Asked(self, name)
        raise Unsupported('attribute %s of a member' % name)

    def py_isinstance(self, ip, cls):
        if cls is CachingDB:
            return CACHING(self.i)
        raise Unsupported('kind of a member')

    def truth(self):
        return True


class Asked(GhostVal):
    def __init__(self, m, name):
        self.m, self.name = m, name

    def py_call(self, ip, args, kw):
        return METHODS[self.name](self.m, ip, *args, **kw)


def asked(m, ip, sha):
    c = m.ms.c
    ip.p.prove(same_bytes(ip.p, sha, c.sha), 'a member is asked for the id given', 'precondition')


def has_object(m, ip, sha):
    asked(m, ip, sha)
    return HAS(m.i, m.ms.version)


def answer(what):
    def f(m, ip, sha):
        asked(m, ip, sha)
        if not ip.p.decide(HAS(m.i, m.ms.version), 'has it'):
            ip.throw(BadObject, sha)
        return Ref(what, m.i)
    return f


def size(m, ip):
    return SIZE(m.i)


def sha_iter(m, ip):
    return Ids(m)


def update(m, ip, force=False):
    c, st = m.ms.c, m.ms.st
    ip.p.prove(CACHING(m.i), 'only members that cache are updated', 'precondition')
    ip.p.prove(eq(force, c.force), 'a member is updated as the compound is', 'precondition')
    st.setf('version', add(st.f['version'], 1))
    st.setf('updated', Or(st.f['updated'], eq(m.i, c.J)))
    return ip.p.fresh_bool('changed')


METHODS = {'has_object': has_object, 'info': answer('info'), 'stream': answer('stream'), 'size': size, 'sha_iter': sha_iter, 'update_cache': update}


class Ids(GhostVal):
    """the ids of a member, in its order"""

    def __init__(self, m):
        self.m = m

    def py_iter(self, ip):
        return Seq(COUNT(self.m.i), lambda j: IdAt(self.m, j))

    def py_yield_from(self, ip, fr):
        c, m = self.m.ms.c, self.m
        if not getattr(fr, 'watched', False):
            raise Unsupported('yield from in an inlined generator')
        ip.p.prove(c.out.f['n'] == START(m.i) if not isinstance(c.out.f['n'], int) else START(m.i) == c.out.f['n'], 'the ids of members come in order', 'obligation')
        c.out.setf('n', START(m.i + 1))


class IdAt(GhostVal):
    def __init__(self, m, j):
        self.m, self.j = m, zint(j)

    def vkind(self):
        return (IdAt,)

    @staticmethod
    def vfresh(path, name, kind):
        return IdAt(path.run.ctx.ms.at(path.fresh_int(name)), path.fresh_int(name))


class Chain(GhostVal):
    def __init__(self, seq):
        self.seq = seq


class ValidCache(Model):
    """the cache as the class invariant describes it: it holds members that were the first
    having the id they are filed under; written only with such"""
    cls = dict

    def __init__(self, c):
        super().__init__('cache')
        self.c = c
        self.f['cleared'] = False
        self.f['added'] = False         # the id asked for was filed since
        self.was = c.p.fresh_bool('cached')

    def present(self, ip, k):
        c = self.c
        ip.p.prove(same_bytes(ip.p, k, c.sha), 'the cache is asked for the id given', 'precondition')
        if self.f['added'] is True or self.f['added'] is not False and ip.p.decide(self.f['added'], 'filed'):
            return True
        if self.f['cleared'] is not False:
            raise Unsupported('query of a cache that was cleared')
        if not ip.p.decide(self.was, 'cached'):
            return False
        c.p.assume(c.known)
        return True

    def py_getitem(self, ip, k):
        if self.present(ip, k):
            return self.c.ms.at(self.c.first)
        ip.throw(KeyError, k)

    def py_contains(self, ip, k):
        return self.present(ip, k)

    def m_get(self, ip, k, default=None):
        if self.present(ip, k):
            return self.c.ms.at(self.c.first)
        return default

    def py_setitem(self, ip, k, v):
        valid_entry(self.c, k, v)
        self.setf('added', True)

    def m_setdefault(self, ip, k, v=None):
        if self.present(ip, k):
            return self.c.ms.at(self.c.first)
        self.py_setitem(ip, k, v)
        return v

    def m_clear(self, ip):
        self.setf('cleared', True)
        self.setf('added', False)


def valid_entry(c, k, v):
    p = c.p
    ok = isinstance(v, Member) and v.ms is c.ms
    p.prove(And(same_bytes(p, k, c.sha), ok and z3.And(c.known, v.i == c.first)), 'the cache names the first member having the id', 'obligation')


def compound(c):
    c.env.n = c.nat('members')
    c.env.ms = Members(c, c.n)
    o = SObj(CLASSES[c.case['cls']])
    o.f['_dbs'] = SList(c.ms.seq())
    if c.case.get('cache') == 'any':
        c.env.cache = ValidCache(c)
        o.f['_db_cache'] = c.cache
    o.f.update(_root_path='root', _ref_file='file')
    c.env.o = o
    return o


def cache_after(c, empty):
    """obligations on the cache a method leaves"""
    d = c.o.f.get('_db_cache', UNDEF)
    if isinstance(d, ValidCache) or d is UNDEF:
        if empty and d is not UNDEF:
            return [('nothing stays cached', And(d.f['cleared'], Not(d.f['added'])))]
        return []
    if not isinstance(d, SDict):
        return [('the cache is a mapping', False)]
    if empty:
        return [('nothing stays cached', not d.f['v'])]
    out = []
    for k, v in d.f['v']:
        ok = isinstance(v, Member) and v.ms is c.ms
        out.append(('the cache names the first member having the id', And(same_bytes(c.p, k, c.sha), ok and z3.And(c.known, v.i == c.first))))
    return out


def run_in(c, args, kw):
    return c.ip.contains(args[0], args[1])


class Query(Contract):
    """the first member having the id answers, or not-found"""
    what = None
    invs = [
        Inv('none before', '$it:int', lambda c, it: z3.Implies(c.known, c.first >= zint(it))),
        Inv('none before, counted', 'i:int', lambda c, it: z3.Implies(c.known, c.first >= zint(it))),
        Inv('position', 'i:int $it:int', lambda c, i, it: eq(i, it)),
        Inv('position ends', 'i:int', lambda c, i: z3.And(zint(i) >= 0, zint(i) <= c.n)),
        Inv('goes on', 'i:int', lambda c, i: sub(c.n, i), measure=True),
    ]
    cases = [{'cls': k, 'cache': x} for k in CLASSES for x in ('fresh', 'any')]

    def __init__(self, what):
        self.what = what
        self.name = 'C13.' + what
        self.target = 'gitdb.db.base:CompoundDB.' + {'in': 'has_object'}.get(what, what)
        if what == 'in':
            self.execute = run_in

    def configure(self, run):
        run.witnesses = lambda c: [c.first]

    def resolve(self):
        return Contract.resolve(self)

    def setup(self, c):
        c.env.sha = c.bytes('sha', n=20)
        o = compound(c)
        c.env.known, c.env.first = c.p.fresh_bool('known'), c.int('first')
        c.fact(z3.Implies(c.known, z3.And(c.first >= 0, c.first < c.n, HAS(c.first, 0))))
        c.ms.at(c.first)
        return [o, c.sha], {}

    def post(self, c, ret):
        out = cache_after(c, False)
        if self.what in ('has_object', 'in'):
            t = ret if isinstance(ret, bool) or is_sbool(ret) else None
            return out + [('true exactly if some member has it', t is not None and zbool(t) == c.known)]
        ok = isinstance(ret, Ref) and ret.sort == self.what
        return out + [('the answer of the first member that has it', ok and z3.And(c.known, ret.term == c.first))]

    def exc(self, c, e):
        if self.what in ('has_object', 'in'):
            return [('no exception (%s)' % e.cls.__name__, False)]
        return cache_after(c, False) + [('not found only if no member has it (%s)' % e.cls.__name__, z3.Not(c.known) if is_exc(e, BadObject) else False)]


class Size(Contract):
    """the sum of the members' sizes"""
    name = 'C13.size'
    target = 'gitdb.db.base:CompoundDB.size'
    cases = [{'cls': k} for k in CLASSES]
    invs = [Inv('sum', 'x:int $it:int', lambda c, x, it: zint(x) == SUM(zint(it)))]

    def configure(self, run):
        def fold(ip, f, vals, init):
            c, p = run.ctx, ip.p
            if init is None:
                return None
            p.prove(eq(init, 0), 'the sum starts at zero', 'obligation')
            k = p.fresh_int('k')
            sub_ = z3.And(k >= 0, k < zint(vals.n))
            if p.decide(sub_, 'a member'):
                got = p.ghost['ip'].call(f, [SUM(k), vals.elem(k)], {}) if f != 'sum' else zint(vals.elem(k)) + SUM(k)
                c.ms.at(k)
                p.prove(eq(got, SUM(k + 1)), 'a member adds its size', 'obligation')
            return SUM(zint(vals.n))
        run.fold_hook = fold

    def setup(self, c):
        o = compound(c)
        c.fact(SUM(0) == 0)
        return [o], {}

    def post(self, c, ret):
        return [('the sum of the sizes of all members', is_int(ret) and eq(ret, SUM(c.n)))]


class ShaIter(Contract):
    """the ids of the members in order, none skipped or repeated"""
    name = 'C13.sha_iter'
    target = 'gitdb.db.base:CompoundDB.sha_iter'
    cases = [{'cls': k} for k in CLASSES]
    yield_contract = True
    invs = [
        Inv('members done', '$it:int', lambda c, it: zint(c.out.f['n']) == START(zint(it))),
        Inv('ids done', 'db:any $it:int', lambda c, db, it: isinstance(db, Member) and zint(c.out.f['n']) == START(db.i) + zint(it)),
    ]

    def configure(self, run):
        run.chain_hook = lambda ip, seq: Chain(seq)

    def setup(self, c):
        o = compound(c)
        c.fact(START(0) == 0)
        c.env.out = HObj('out')
        c.out.f['n'] = 0
        return [o], {}

    def on_yield(self, c, v):
        p = c.p
        if not isinstance(v, IdAt):
            p.prove(False, 'ids of members are given', 'obligation')
            return
        p.prove(zint(c.out.f['n']) == START(v.m.i) + v.j, 'the ids of members come in order', 'obligation')
        c.out.setf('n', add(c.out.f['n'], 1))

    def post(self, c, ret):
        p = c.p
        if isinstance(ret, Chain):
            n = ret.seq.n
            k = p.fresh_int('k')
            p.assume(z3.And(k >= 0, k < c.n))
            v = ret.seq.elem(k)
            return [('one iteration per member', eq(n, c.n)), ('the ids of members come in order', isinstance(v, Ids) and v.m.i == k)]
        if ret is not None and ret is not CONSUMED:
            return [('ids are given', False)]
        return [('the ids of all members are given', zint(c.out.f['n']) == START(c.n))]


class Sync(Contract):
    """C15: the alternates are made those listed now"""
    name = 'C13.sync'
    target = 'gitdb.db.ref:ReferenceDB._update_dbs_from_ref_file'

    def call(self, ip, args, kw):
        c = ip.run.ctx
        c.env.n = c.nat('members now')
        c.ms.n = c.n
        c.env.J = c.int('J now')
        args[0].f['_dbs'].setf('v', Seq(c.n, c.ms.at))
        c.ms.st.setf('version', add(c.ms.st.f['version'], 1))
        c.ms.st.setf('updated', False)
        c.env.synced = True
        return None


class Update(Contract):
    """every caching member is updated, nothing known from before is used afterwards"""
    name = 'C13.update_cache'
    target = 'gitdb.db.base:CompoundDB.update_cache'
    uses = ['C13.sync']
    cases = [{'cls': k, 'cache': x, 'force': f} for k in CLASSES for x in ('fresh', 'any') for f in ('default', 'any')]
    invs = [
        Inv('updated so far', '$it:int', lambda c, it: z3.Implies(z3.And(c.J >= 0, c.J < zint(it), CACHING(c.J)), zbool(c.ms.st.f['updated']))),
    ]

    def configure(self, run):
        self.target = 'gitdb.db.ref:ReferenceDB.update_cache' if run.case['cls'] == 'ReferenceDB' else Update.target

    def setup(self, c):
        c.env.sha = c.bytes('sha', n=20)
        c.env.known, c.env.first = c.p.fresh_bool('known'), c.int('first')
        o = compound(c)
        del c.env.first         # nothing is asked
        c.env.J = c.int('J')
        c.env.synced = c.case['cls'] != 'ReferenceDB'
        c.ms.st.f['updated'] = False
        c.env.force = c.p.fresh_bool('force') if c.case['force'] == 'any' else False
        return [o] + ([c.force] if c.case['force'] == 'any' else []), {}

    def post(self, c, ret):
        return cache_after(c, True) + [
            ('every member that caches is updated', z3.Implies(z3.And(c.J >= 0, c.J < c.n, CACHING(c.J)), zbool(c.ms.st.f['updated']))),
            ('the list of alternates is read again', c.synced)]


EXISTS = ('pack', 'objects', 'alternates')


def m_exists(ip, path):
    c = ip.run.ctx
    return c.there.get(os.path.normpath(path) if isinstance(path, str) else None, False)


class GitMembers(Contract):
    """a git database consists of its packs, loose objects and alternates, in this order, as far as they exist"""
    name = 'C13.git_members'
    target = 'gitdb.db.base:CompoundDB.databases'
    models = {os.path.exists: m_exists, os.path.isdir: m_exists, os.path.lexists: m_exists}

    def setup(self, c):
        from gitdb.db.loose import LooseObjectDB
        from gitdb.db.pack import PackedDB
        c.env.parts = [('/r/objects/pack', PackedDB), ('/r/objects', LooseObjectDB), ('/r/objects/info/alternates', ReferenceDB)]
        c.env.there = {x: c.p.fresh_bool('exists') for x, _ in c.parts}
        # the parts exist only within the whole
        c.assume(z3.Implies(z3.Or(*c.there.values()), c.there['/r/objects']))
        o = SObj(GitDB)
        o.f['_root_path'] = '/r/objects'
        c.env.o = o
        return [o], {}

    def post(self, c, ret):
        if not isinstance(ret, tuple):
            return [('members are given', False)]
        want = [x for x in c.parts if c.p.decide(c.there[x[0]], 'exists')]
        ok = len(ret) == len(want)
        for db, (path, cls) in zip(ret, want):
            at = isinstance(db, SObj) and db.f.get('_root_path', db.f.get('_ref_file'))
            ok = ok and isinstance(db, SObj) and db.cls is cls and isinstance(at, str) and os.path.normpath(at) == path
        return [('the members are those that exist, in order', ok)]

    def exc(self, c, e):
        return [('refused only if there is no database (%s)' % e.cls.__name__, z3.Not(z3.Or(*c.there.values())) if is_exc(e, InvalidDBRoot) else False)]


class Empty(Contract):
    """a compound that was given no members yet has none"""
    name = 'C13.empty'
    target = 'gitdb.db.base:CompoundDB.databases'
    cases = [{'op': x} for x in ('databases', 'size', 'has_object', 'update_cache')]

    def setup(self, c):
        return [], {}

    def execute(self, c, args, kw):
        o = c.env.o = SObj(CompoundDB)
        return c.ip.call(c.ip.getattr(o, c.case['op']), [c.bytes('sha', n=20)] if c.case['op'] == 'has_object' else [], {})

    def post(self, c, ret):
        if c.case['op'] == 'databases':
            return [('no members', isinstance(ret, tuple) and not ret)]
        if c.case['op'] == 'size':
            return [('no objects', is_int(ret) and eq(ret, 0))]
        return [('nothing is there', ret is False or is_sbool(ret) and Not(ret))]


CONTRACTS = [Empty()] + [Query(w) for w in ('has_object', 'in', 'info', 'stream')] + [Size(), ShaIter(), Update(), GitMembers()]
REGISTRY = {'C13.sync': Sync()}
LEVEL = 'proof'
