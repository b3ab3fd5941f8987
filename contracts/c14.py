"""Pack databases: search, order of packs, refresh"""
import glob
import os
from .bags import *
from .iomodels import same_bytes
from .bags import configure as bag_rules
from pyvc.builtin_models import SReal
from pyvc.interp import CONSUMED, ModelM, BoundM
from .fsmodels import Text, Atom, as_text, text_eq
from gitdb.db.pack import PackedDB
from gitdb.pack import PackEntity
from gitdb.exc import BadObject

HASP = z3.Function('pack_has', I, B)
POSN, NOBJ, OBJS, IDS = F('position_in_pack', I, I), F('objects_in_pack', I, I), F('objects_of_first', I, I), F('ids_before', I, I)
DISK = z3.Function('on_disk', I, B)
ROOT = '/data/p[a]*?cks'


class Pack(GhostVal):
    """the entity of the pack file named t"""

    def __init__(self, u, t):
        self.u, self.t = u, u.see(t)

    def vkind(self):
        return (Pack,)

    @staticmethod
    def vfresh(path, name, kind):
        return Pack(path.run.ctx.u, path.fresh_int(name))

    def py_getattr(self, ip, name):
        if name in ('index', 'pack', 'info_at_index', 'stream_at_index'):
            return Do(getattr(self, name))
        raise Unsupported('attribute %s of a pack entity' % name)

    def index(self, ip):
        return PackIndex(self)

    def pack(self, ip):
        return PackOf(self)

    def info_at_index(self, ip, i):
        return self.object(ip, i, 'info')

    def stream_at_index(self, ip, i):
        return self.object(ip, i, 'stream')

    def object(self, ip, i, what):
        c = self.u.c
        ip.p.prove(is_int(i) and z3.And(HASP(self.t), zint(i) == POSN(self.t)), 'the object is read where the index has it', 'precondition')
        c.env.source = self.t
        return Ref(what, self.t)

    def py_eq(self, ip, o):
        return eq(self.t, o.t) if isinstance(o, Pack) else False


class Do(GhostVal):
    def __init__(self, f):
        self.f = f

    def py_call(self, ip, args, kw):
        return self.f(ip, *args, **kw)


class PackIndex(GhostVal):
    def __init__(self, e):
        self.e = e

    def vkind(self):
        return (PackIndex,)

    @staticmethod
    def vfresh(path, name, kind):
        return PackIndex(Pack.vfresh(path, name, ()))

    def py_getattr(self, ip, name):
        if name == 'sha_to_index':
            return Lookup(self.e)
        if name == 'size':
            return Do(lambda ip: count(self.e))
        if name == 'sha':
            return Do(lambda ip, i: IdIn(self.e, i))
        raise Unsupported('attribute %s of an index' % name)


def count(e):
    e.u.fact(NOBJ(e.t) >= 0)
    return NOBJ(e.t)


class PackOf(GhostVal):
    def __init__(self, e):
        self.e = e

    def py_getattr(self, ip, name):
        if name == 'path':
            return Do(lambda ip: Name(self.e.u, self.e.t))
        if name == 'size':
            return Do(lambda ip: count(self.e))
        raise Unsupported('attribute %s of a pack' % name)


class Lookup(GhostVal):
    """sha_to_index of a pack's index (C06)"""

    def __init__(self, e):
        self.e = e

    def vkind(self):
        return (Lookup,)

    @staticmethod
    def vfresh(path, name, kind):
        return Lookup(Pack.vfresh(path, name, ()))

    def py_call(self, ip, args, kw):
        c = self.e.u.c
        ip.p.prove(len(args) == 1 and same_bytes(ip.p, args[0], c.sha), 'the index is asked for the id given', 'precondition')
        t = self.e.t
        if not ip.p.decide(HASP(t), 'has it'):
            return None
        c.u.fact(POSN(t) >= 0)
        return POSN(t)


class IdIn(GhostVal):
    def __init__(self, e, i):
        self.e, self.i = e, zint(i)


class Entry(Item):
    """an item of _entities: hit count, entity, lookup function"""

    @staticmethod
    def vfresh(path, name, kind):
        return Entry(path.run.ctx.u, path.fresh_int(name))

    def parts(self, ip):
        e = Pack(self.u, self.t)
        return (ip.p.fresh_nat('hits'), e, Lookup(e))

    def py_getitem(self, ip, i):
        if not isinstance(i, int):
            raise Unsupported('index of an entry')
        return self.parts(ip)[i]

    def py_setitem(self, ip, i, v):
        if i == 0 and is_int(v):
            return
        want = self.parts(ip)[i] if isinstance(i, int) and i in (1, 2) else None
        ok = want is not None and type(v) is type(want) and (v.t == want.t if isinstance(v, Pack) else v.e.t == want.e.t)
        ip.p.prove(ok, 'entries keep their pack', 'obligation')

    def py_iter(self, ip):
        return self.parts(ip)


class Entries(Bag):
    def accepts(self, ip, v):
        t = ip.as_tuple(v)
        if t is None and isinstance(v, Entry):
            raise Unsupported('an entry moved')
        if t is None or len(t) != 3 or not is_int(t[0]) or not isinstance(t[1], Pack) or not isinstance(t[2], Lookup):
            raise Unsupported('entry %r' % (v,))
        ip.p.prove(t[2].e.t == t[1].t, 'an entry looks up ids in the index of its pack', 'obligation')
        return t[1].t


def m_entity(ip, path):
    c = ip.run.ctx
    if not isinstance(path, Name):
        raise Unsupported('pack %r' % (path,))
    ip.p.prove(DISK(path.t), 'packs that exist are opened', 'precondition')
    return Pack(c.u, path.t)


def m_glob(ip, pattern, **kw):
    """the files matching the pattern; no pattern but this one is known to list the packs"""
    c = ip.run.ctx
    if kw or not isinstance(pattern, str):
        raise Unsupported('glob')
    d, base = os.path.split(pattern)
    if base != 'pack-*.pack':
        raise Unsupported('pattern %r' % pattern)
    ip.p.prove(d in (glob.escape(ROOT), os.path.join(glob.escape(ROOT), '')), 'packs are searched in the directory itself', 'obligation')
    ip.p.prove(c.stat_at is not None, 'the time stamp is read before the directory is', 'obligation')
    c.env.listed = True
    s = NameSet(c.u, lambda x: DISK(x))
    return ip.new_list(s.py_iter(ip))


class StatModel(GhostVal):
    def __init__(self, t):
        self.t = t

    def py_getattr(self, ip, name):
        if name == 'st_mtime':
            return SReal(z3.ToReal(self.t) / 1000000000)
        if name == 'st_mtime_ns':
            return self.t
        raise Unsupported('stat.' + name)


def m_stat(ip, path, **kw):
    c = ip.run.ctx
    ip.p.prove(path == ROOT, 'the directory of packs is looked at', 'precondition')
    c.env.stat_at = c.mtime
    return StatModel(c.mtime)


def stamp_is(c, ns):
    t = SReal.of(c.o.f['_st_mtime'])
    return t is not None and t * 1000000000 == z3.ToReal(ns)


def m_getmtime(ip, path):
    return m_stat(ip, path).py_getattr(ip, 'st_mtime')


MODELS = {PackEntity: m_entity, glob.glob: m_glob, glob.iglob: m_glob, os.stat: m_stat, os.path.getmtime: m_getmtime,
          glob.escape: lambda ip, p: glob.escape(p)}


def database(c, fresh=False):
    u = Universe(c)
    c.env.mtime, c.env.mtime0 = c.nat('mtime'), c.nat('mtime before')
    c.env.stat_at, c.env.listed = None, False
    o = SObj(PackedDB)
    o.f.update(_root_path=ROOT, _hit_count=c.nat('hit count'), _st_mtime=SReal(z3.ToReal(c.mtime0) / 1000000000))
    if not fresh:
        st = fresh_state(u, 'packs')
        u.forall(lambda x: z3.Implies(st.inb(x), st.old(x)))
        o.f['_entities'] = Entries(u, lambda t: Entry(u, t), st)
        c.env.st0 = st
    c.env.o = o
    c.env.bag = lambda: o.f.get('_entities')
    return o


def same_packs(c):
    """the class invariant, and that packs neither come nor go"""
    b = c.bag()
    if not isinstance(b, Entries):
        return [('the packs are kept', False)]
    return [('packs neither come nor go', z3.And(b.st.inb(c.Q) == c.st0.inb(c.Q), z3.Implies(b.st.inb(c.Q), b.st.old(c.Q))))]


class Query(Contract):
    """found exactly if a pack has it; the answer comes from a pack that has it"""
    models = MODELS
    invs = [
        Inv('not in those passed', '$it:int', lambda c, it: z3.Implies(z3.And(c.st0.inb(c.W), HASP(c.W)), c.bag().st.pos(c.W) >= zint(it))),
        Inv('not in those passed, counted', 'i:int', lambda c, it: z3.Implies(z3.And(c.st0.inb(c.W), HASP(c.W)), c.bag().st.pos(c.W) >= zint(it))),
        Inv('position', 'i:int', lambda c, i: z3.And(zint(i) >= 0, zint(i) <= zint(c.bag().st.n))),
        Inv('goes on', 'i:int', lambda c, i: sub(c.bag().st.n, i), measure=True),
    ]
    assumptions = ['an index finds exactly the ids of its pack (C06)']

    def __init__(self, what):
        self.what = what
        self.name = 'C14.' + what
        self.target = 'gitdb.db.pack:PackedDB.' + {'in': 'has_object'}.get(what, what)
        if what == 'in':
            self.execute = lambda c, args, kw: c.ip.contains(args[0], args[1])

    def configure(self, run):
        bag_rules(run, None)
        run.witnesses = lambda c: [c.bag().st.pos(c.W)]

    def setup(self, c):
        c.env.sha = c.bytes('sha', n=20)
        o = database(c)
        c.env.W = c.u.see(c.int('W'))
        return [o, c.sha], {}

    def none(self, c):
        return z3.Not(z3.And(c.st0.inb(c.W), HASP(c.W)))

    def post(self, c, ret):
        out = same_packs(c)
        if self.what in ('has_object', 'in'):
            if ret is True or ret is False:
                some = Or(*[z3.And(c.st0.inb(x), HASP(x)) for x in c.u.seen])
                return out + [('true exactly if a pack has it', some if ret else self.none(c))]
            return out + [('true exactly if a pack has it', False)]
        ok = isinstance(ret, Ref) and ret.sort == self.what
        return out + [('the answer comes from a pack that has it', ok and z3.And(c.st0.inb(ret.term), HASP(ret.term)))]

    def exc(self, c, e):
        if self.what in ('has_object', 'in') or not is_exc(e, BadObject):
            return [('no exception (%s)' % e.cls.__name__, False)]
        return same_packs(c) + [('not found only if no pack has it', self.none(c))]


class Size(Contract):
    """the objects of all packs"""
    name = 'C14.size'
    target = 'gitdb.db.pack:PackedDB.size'
    models = MODELS
    invs = [Inv('sum', 'x:int $it:int', lambda c, x, it: zint(x) == OBJS(zint(it)))]

    def configure(self, run):
        bag_rules(run, None)

        def fold(ip, f, vals, init):
            p = ip.p
            if init is None:
                return None
            p.prove(eq(init, 0), 'the sum starts at zero', 'obligation')
            k = p.fresh_int('k')
            if p.decide(z3.And(k >= 0, k < zint(vals.n)), 'a pack'):
                v = vals.elem(k)
                got = ip.call(f, [OBJS(k), v], {}) if f != 'sum' else zint(v) + OBJS(k)
                p.prove(eq(got, OBJS(k + 1)), 'a pack adds its size', 'obligation')
            return OBJS(zint(vals.n))
        run.fold_hook = fold

    def setup(self, c):
        o = database(c)
        st, at = c.st0, c.st0.at

        def counted(k):
            t = at(k)
            k = zint(k)
            c.fact(OBJS(k + 1) == OBJS(k) + NOBJ(t))
            c.fact(z3.And(NOBJ(t) >= 0, OBJS(k) >= 0))
            return t
        st.at = counted
        c.fact(OBJS(0) == 0)
        return [o], {}

    def post(self, c, ret):
        return same_packs(c) + [('the objects of all packs', is_int(ret) and eq(ret, OBJS(zint(c.st0.n))))]


class ShaIter(Contract):
    """every id of every pack, once per pack"""
    name = 'C14.sha_iter'
    target = 'gitdb.db.pack:PackedDB.sha_iter'
    models = MODELS
    yield_contract = True
    invs = [
        Inv('packs done', '$it:int', lambda c, it: zint(c.out.f['n']) == IDS(zint(it))),
        Inv('ids done', 'entity:any $it:int', lambda c, e, it: isinstance(e, Pack) and zint(c.out.f['n']) == IDS(c.st0.pos(e.t)) + zint(it)),
        Inv('pack of the position', 'entity:any $it:int', lambda c, e, it: isinstance(e, Pack) and z3.And(c.st0.inb(e.t), c.st0.pos(e.t) == zint(it) - 1)),
        Inv('pack', 'entity:any', lambda c, e: isinstance(e, Pack) and c.st0.inb(e.t)),
    ]

    def configure(self, run):
        bag_rules(run, None)

    def setup(self, c):
        o = database(c)
        st = c.st0

        def facts(k):
            t = st_at(k)
            k = zint(k)
            c.fact(z3.And(NOBJ(t) >= 0, IDS(k + 1) == IDS(k) + NOBJ(t)))
            return t
        st_at = st.at
        st.at = facts
        c.u.forall(lambda x: z3.And(NOBJ(x) >= 0, z3.Implies(st.inb(x), IDS(st.pos(x) + 1) == IDS(st.pos(x)) + NOBJ(x))))
        c.fact(IDS(0) == 0)
        c.env.out = HObj('out')
        c.out.f['n'] = 0
        return [o], {}

    def on_yield(self, c, v):
        p = c.p
        if not isinstance(v, IdIn):
            p.prove(False, 'ids of packs are given', 'obligation')
            return
        p.prove(z3.And(zint(c.out.f['n']) == IDS(c.st0.pos(v.e.t)) + v.i, c.st0.inb(v.e.t), v.i >= 0, v.i < NOBJ(v.e.t)), 'the ids of packs come in order', 'obligation')
        c.out.setf('n', add(c.out.f['n'], 1))

    def post(self, c, ret):
        return same_packs(c) + [('the ids of all packs are given', zint(c.out.f['n']) == IDS(zint(c.st0.n)))]


class Refresh(Contract):
    """after a refresh the packs are those in the directory; those that were there before are kept"""
    name = 'C14.update_cache'
    target = 'gitdb.db.pack:PackedDB.update_cache'
    models = MODELS
    cases = ['default', 'any', 'first']
    assumptions = ['packs in the directory can be opened (precondition)', 'glob lists the files that match']
    invs = bag_invs() + [
        Inv('not among those passed', 'pack_file:any $it:int', lambda c, f, it: isinstance(f, Name) and z3.Implies(c.bag().st.inb(f.t), c.bag().st.pos(f.t) >= zint(it))),
        Inv('where the match is', 'pack_file:any del_index:int $it:int', lambda c, f, i, it: isinstance(f, Name) and z3.Or(
            z3.And(zint(i) == -1, z3.Implies(c.bag().st.inb(f.t), c.bag().st.pos(f.t) >= zint(it))),
            z3.And(c.bag().st.inb(f.t), zint(i) == c.bag().st.pos(f.t), zint(i) < zint(it)))),
        Inv('no match yet', 'del_index:int', lambda c, i: eq(i, -1)),
        Inv('found nothing', 'del_index:any', lambda c, i: i is None),
    ]

    def configure(self, run):
        bag_rules(run, None)
        if run.case == 'first':
            self.target = 'gitdb.db.pack:PackedDB._set_cache_'

            def newlist(ip, v, old=run.newlist_hook):
                c = run.ctx
                if v == () and not isinstance(c.bag(), Entries) and not c.made:
                    c.env.made = True
                    c.env.st0 = c.empty
                    return Entries(c.u, lambda t: Entry(c.u, t), c.empty)
                return old(ip, v)
            run.newlist_hook = newlist
        else:
            self.target = Refresh.target

        def sort(ip, seq, key, reverse):
            if isinstance(seq, Seq) and isinstance(seq.tag, tuple) and seq.tag[0] == 'names' and key is None:
                return NameSet(run.ctx.u, seq.tag[1].has).py_iter(ip)
        run.sort_hook = sort

    def setup(self, c):
        first = c.case == 'first'
        o = database(c, fresh=first)
        c.env.made = False
        c.env.force = True if first else c.p.fresh_bool('force') if c.case == 'any' else False
        if first:
            no = lambda x: z3.BoolVal(False)
            n = c.nat('none')
            c.fact(n == 0)
            c.env.empty = fresh_state(c.u, 'none', no, no, n)
            return [o, '_entities'], {}
        return [o] + ([c.force] if c.case == 'any' else []), {}

    def post(self, c, ret):
        b = c.bag()
        if not isinstance(b, Entries):
            return [('the packs are kept', False)]
        Q, s, st0 = c.Q, b.st, c.st0
        idle = And(Not(c.force), le(c.mtime, c.mtime0))
        if not c.listed:
            return [('no refresh only if the directory did not change', idle),
                    ('says that nothing changed', c.case == 'first' or ret is False)] + same_packs(c) + [
                    ('the time stamp stays', stamp_is(c, c.mtime0))]
        out = [('exactly the packs in the directory', s.inb(Q) == DISK(Q)),
               ('packs that stay are kept as they are', z3.Implies(z3.And(s.inb(Q), st0.inb(Q)), s.old(Q))),
               ('the time stamp is that of the directory', stamp_is(c, c.mtime))]
        if c.case != 'first':
            out.append(('says that it refreshed', ret is True))
        return out


def m_splitext(ip, v):
    t = as_text(v)
    last = t.parts[-1] if t is not None and t.parts else None
    if not isinstance(last, str) or '.' not in last or last.rindex('.') < last.rfind('/'):
        raise Unsupported('extension of %r' % (v,))
    k = last.rindex('.')
    if k == 0 and len(t.parts) < 2 or last[k - 1:k] == '/':
        raise Unsupported('extension of %r' % (v,))
    return Text(t.parts[:-1] + (last[:k],), t.kind), Text((last[k:],), t.kind)


class Files(Contract):
    """an entity made for a pack is that of this pack and of the index beside it"""
    name = 'C14.entity'
    target = 'gitdb.pack:PackEntity.__init__'
    cases = ['.pack', '.idx']
    models = {os.path.splitext: m_splitext}

    def setup(self, c):
        c.env.base = Text(['/', Atom('directory'), '/', Atom('name', slashes=False)])
        c.env.e = SObj(PackEntity)
        return [c.e, Text([c.base, c.case])], {}

    def post(self, c, ret):
        out = []
        for what, ext, attr in (('pack', '.pack', '_packpath'), ('index', '.idx', '_indexpath')):
            o = c.ip.call(BoundM(getattr(PackEntity, what), c.e), [], {})
            path = c.ip.call(BoundM(getattr(o.cls, 'path'), o), [], {}) if isinstance(o, SObj) else None
            path = as_text(path)
            out.append(('the %s is that of the name' % what, path is not None and text_eq(path, Text([c.base, ext]))))
        return out


CONTRACTS = [Query(w) for w in ('has_object', 'in', 'info', 'stream')] + [Size(), ShaIter(), Refresh(), Files()]
LEVEL = 'proof'
