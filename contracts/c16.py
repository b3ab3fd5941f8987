"""The memory database: stores, queries, and transfer to other databases"""
from .loosemodels import *
from .headermodels import *
from .bags import Universe, Name, memo1, B
from gitdb.db.mem import MemoryDB
from gitdb.exc import BadObject
import gitdb.stream as gst


class Cache(Model):
    """a dictionary from ids to streams that may hold any ids already; `entry(number)` gives the
    value of one of them"""
    cls = dict

    def __init__(self, c, has, entry):
        super().__init__('cache')
        self.c, self.has, self.entry = c, has, entry
        self.f['new'] = ()          # (number, key, value), latest last
        self.f['n'] = c.nat('cached')
        self.touched = []

    def number(self, v):
        if not is_byteslike(v):
            raise Unsupported('key %r' % (v,))
        s = as_sbytes(v)
        self.c.p.prove(eq(s.n, 20), 'keys are ids of 20 bytes', 'obligation')
        return key_of(s)

    def look(self, ip, k):
        n = self.number(k)
        for m, _, v in reversed(self.f['new']):
            if ip.p.decide(eq(m, n), 'the new one'):
                return v
        if ip.p.decide(self.has(n), 'is there'):
            return self.entry(n)
        return UNDEF

    def py_contains(self, ip, k):
        n = self.number(k)
        return Or(*[eq(m, n) for m, _, v in self.f['new']], self.has(n))

    def py_getitem(self, ip, k):
        v = self.look(ip, k)
        if v is UNDEF:
            ip.throw(KeyError, 'id')
        return v

    def m_get(self, ip, k, d=None):
        v = self.look(ip, k)
        return d if v is UNDEF else v

    def py_setitem(self, ip, k, v):
        n = self.number(k)
        there = self.py_contains(ip, k)
        self.setf('n', Ite(there, self.f['n'], add(self.f['n'], 1)))
        self.setf('new', self.f['new'] + ((n, k, v),))

    def py_delitem(self, ip, k):
        raise Unsupported('removal of an object')

    def py_len(self, ip):
        return self.f['n']

    def truth(self, ip):
        return ne(self.f['n'], 0)

    def keys_(self):
        if not hasattr(self, 'keyseq'):
            self.keyseq = Seq(self.f['n'], lambda k: from_key(self.c, k), tag=self)
        return self.keyseq

    def py_iter(self, ip):
        return self.keys_()

    def m_keys(self, ip):
        return Keys(self)

    def m_items(self, ip):
        raise Unsupported('items of the cache')

    def m_update(self, ip, *a, **kw):
        if kw or len(a) != 1 or not isinstance(a[0], SDict):
            raise Unsupported('update of the cache')
        for k, v in a[0].f['v']:
            self.py_setitem(ip, k, v)

    def m_setdefault(self, ip, k, d=None):
        v = self.look(ip, k)
        if v is UNDEF:
            self.py_setitem(ip, k, d)
            return d
        return v

    def m_values(self, ip):
        raise Unsupported('values of the cache')

    def m_clear(self, ip):
        raise Unsupported('removal of objects')

    def m_pop(self, ip, *a):
        raise Unsupported('removal of an object')

    def m_popitem(self, ip):
        raise Unsupported('removal of an object')


class Keys(GhostVal):
    def __init__(self, cache):
        self.cache = cache

    def py_iter(self, ip):
        return self.cache.keys_()

    def py_len(self, ip):
        return self.cache.f['n']


def from_key(c, k):
    """the k-th id, in the order of the dictionary"""
    return Name(c.u, z3.Function('key_at', I, I)(zint(k)))


def memory_db(c, has, entry):
    ip = c.ip
    db = c.env.db = ip.call(MemoryDB, [], {})
    if not isinstance(db.f.get('_cache'), SDict):
        raise Unsupported('a database without cache')
    c.p.prove(db.f['_cache'].f['v'] == (), 'a new database is empty', 'obligation')
    cache = c.env.cache = Cache(c, has, entry)
    db.setf('_cache', cache)
    return db


class MemStore(Store):
    """the object is stored under its id, with type, size and the complete content; all others stay"""
    name = 'C16.store'
    target = 'gitdb.db.mem:MemoryDB.store'
    models = {**FS_MODELS, **Z_MODELS}
    uses = ['stream_copy', 'read']
    cases = ['new', 'known']

    def setup(self, c):
        super().setup(c)
        c.env.HAD = z3.Function('had', I, B)
        c.env.others = []
        return [], {}

    def execute(self, c, args, kw):
        ip, p = c.ip, c.p

        def entry(n):
            raise Unsupported('another object is looked at')
        db = memory_db(c, lambda n: c.HAD(zint(n)), entry)
        if p.choose(2, 'stored before'):
            # what an earlier store leaves behind
            for v in db.f.values():
                if isinstance(v, SObj) and v.cls is LooseObjectDB:
                    ip.call(ip.getattr(v, 'set_ostream'), [ip.call(gst.ZippedStoreShaWriter, [], {})], {})
        size = c.content.n if c.case != 'known' else c.nat('size')
        c.env.size = size
        ist = c.env.ist = ip.call(gb.IStream, [c.t, size, c.src] + ([c.binsha] if c.binsha is not None else []), {})
        del c.zips[:]
        c.fs.calls = []
        return ip.call(ip.getattr(db, 'store'), [ist], {})

    def post(self, c, ret):
        p, ip = c.p, c.ip
        if ret is not c.ist:
            return [('the stream given is returned', False)]
        b = ip.getattr(ret, 'binsha')
        if not is_byteslike(b):
            return [('the id is set', False)]
        b = as_sbytes(b)
        out = [('nothing is written elsewhere', not c.fs.calls), ('the cache stays', c.db.f['_cache'] is c.cache)]
        new = c.cache.f['new']
        if len(new) != 1:
            return out + [('one object is stored', False)]
        n, k, v = new[0]
        out.append(('the id is the one of the object', eq(n, key_of(b))))
        if not isinstance(v, SObj) or not issubclass(v.cls, gb.OStream):
            return out + [('a stream is stored', False)]
        g = lambda nm: ip.getattr(v, nm)
        o = g('stream')
        out += [('the stream has the id', same_bytes(p, g('binsha'), b)), ('the stream has the type', same_bytes(p, g('type'), c.t)), ('the stream has the size', eq(g('size'), c.size))]
        if not isinstance(o, SObj) or o.cls is not DR or not is_byteslike(o.f.get('_m')):
            return out + [('the content is kept', False)]
        m = o.f['_m']
        if c.case == 'known':
            out += [('the id stays', eq(key_of(b), key_of(c.binsha))), ('the stored bytes are kept', same_bytes(p, m, c.content))]
        else:
            zs = [z for z in c.zips if concb(eq(as_sbytes(z.fed).n, 0)) is not True]
            got = content_of_digest_number(p, key_of(b))
            out.append(('the id is the digest of header and content', got is not None and same_bytes(p, got, self.stored(c))))
            if len(zs) != 1:
                return out + [('header and content are deflated once', False)]
            z = zs[0]
            out += [('header and content are deflated', same_bytes(p, z.fed, self.stored(c))), ('all of it is flushed', z.f['flushed'] is True),
                    ('the deflated bytes are kept', same_bytes(p, m, z.out))]
        # it is in the state Query starts from
        ref = ip.call(DR, [m, False], {})
        same = set(o.f) == set(ref.f)
        for k, v in ref.f.items():
            w = o.f.get(k, UNDEF)
            if k == '_m' or k == '_close':
                continue
            if isinstance(v, Decompress):
                same = And(same, isinstance(w, Decompress) and w.src is None and w is not v)
            elif is_int(v) and not isinstance(v, bool):
                same = And(same, eq(w, v) if is_int(w) else False)
            else:
                same = And(same, w is v or w == v)
        return out + [('the stream is new', same)]

    def exc(self, c, e):
        return [('a store that nothing hinders succeeds', False)]


class Query(Contract):
    """what is there is returned from its first byte on, whatever was read before"""
    name = 'C16.query'
    target = 'gitdb.db.mem:MemoryDB.stream'
    models = {**Z_MODELS, **FS_MODELS}
    uses = ['read']
    cases = ['%s %s' % (a, b) for a in ('stream', 'info') for b in ('new', 'read', 'rewound', 'absent')] + ['has_object', 'in']

    def setup(self, c):
        c.env.op, c.env.state = (c.case.split() + [''])[:2]
        c.env.sha = c.bytes('sha', 20)
        c.env.number = key_of(c.sha)
        c.env.HAS = z3.Function('has', I, B)
        if c.state in ('read', 'rewound'):
            reached(c, True)
        else:
            header_source(c)
        return [], {}

    def execute(self, c, args, kw):
        ip, p = c.ip, c.p
        if c.state:
            p.assume(c.HAS(zint(c.number)) if c.state != 'absent' else z3.Not(c.HAS(zint(c.number))))
        if c.state == 'new':
            c.env.o = ip.call(DR, [c.m, False], {})
        elif c.state == 'rewound':
            ip.call(ip.getattr(c.o, 'seek'), [0], {})
        c.env.given = []

        def entry(n):
            p.prove(eq(n, c.number), 'only the object asked for is looked at', 'obligation')
            if not c.given:
                c.given.append(ip.call(gb.OStream, [c.sha, c.typ, c.S, c.o], {}))
            return c.given[0]
        db = memory_db(c, lambda n: c.HAS(zint(n)), entry)
        if c.op == 'in':
            return ip.contains(db, c.sha)
        return ip.call(ip.getattr(db, c.op), [c.sha], {})

    def post(self, c, ret):
        ip, p = c.ip, c.p
        stays = ('nothing is stored', c.cache.f['new'] == () and c.db.f['_cache'] is c.cache)
        if not c.state:
            there = c.HAS(zint(c.number))
            return [stays, ('exactly if it is there', zbool(ret) == there if isinstance(ret, (bool, z3.BoolRef)) else False)]
        if c.state == 'absent':
            return [('an object that is not there is an error', False)]
        if not isinstance(ret, SObj) or not issubclass(ret.cls, gb.OStream if c.op == 'stream' else (gb.OInfo, gb.OStream)):
            return [('an object is returned', False)]
        g = lambda nm: ip.getattr(ret, nm)
        out = [stays, ('the id asked for', same_bytes(p, g('binsha'), c.sha)), ('the type stored', same_bytes(p, g('type'), c.typ)), ('the size stored', eq(g('size'), c.S))]
        if c.op == 'stream':
            o = g('stream')
            if not isinstance(o, SObj) or o.cls is not DR:
                return out + [('a stream is returned', False)]
            out.append(('its stored bytes are all there', same_bytes(p, ip.call(ip.getattr(o, 'data'), [], {}), c.m)))
            # a read asks for the size first
            size = ip.getattr(o, '_s')
            out.append(('the size read from the header', eq(size, c.S) if is_int(size) else False))
            out += at_content(c, o, 0)
        return out

    def exc(self, c, e):
        return [('only an object that is not there is an error', c.state == 'absent' and is_exc(e, BadObject)), ('nothing is stored', c.cache.f['new'] == ())]

    def no_return(self, case):
        return case.endswith('absent')


class All(Contract):
    """the ids are those stored, and as many as the size says"""
    name = 'C16.ids'
    target = 'gitdb.db.mem:MemoryDB.size'
    cases = ['size', 'sha_iter']

    def setup(self, c):
        Universe(c)
        c.env.K = c.nat('K')
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip

        def entry(n):
            raise Unsupported('objects are looked at')
        db = memory_db(c, lambda n: z3.Function('has', I, B)(zint(n)), entry)
        r = ip.call(ip.getattr(db, c.case), [], {})
        return r if c.case == 'size' else ip.iter_values(r)

    def post(self, c, ret):
        if c.case == 'size':
            return [('as many as are stored', eq(ret, c.cache.f['n']) if is_int(ret) else False)]
        if not isinstance(ret, Seq):
            return [('ids are given', False)]
        k = c.p.fresh_nat('k')
        out = [('as many as are stored', eq(ret.n, c.cache.f['n']))]
        if c.p.decide(lt(k, ret.n), 'an id'):
            v = ret.elem(k)
            out.append(('each of them once', isinstance(v, Name) and eq(v.t, from_key(c, k).t)))
        return out


SHA, LISTED, FIRST, HELD, THERE, SZ = F('sha_at', I, I), F('listed', I, B), F('first_at', I, I), F('held', I, B), F('in_target', I, B), F('size_of', I, I)


class Id(Name):
    pass


class Kept(Model):
    """the stream of a stored object"""

    def __init__(self, data):
        super().__init__('stream')
        self.data = data

    def m_data(self, ip):
        return self.data

    def m_read(self, ip, *a):
        raise Unsupported('inflating for a copy')

    def m_seek(self, ip, *a):
        return None


class Held(Contract):
    """C16.query"""
    name = 'C16.stream'
    target = 'gitdb.db.mem:MemoryDB.stream'

    def call(self, ip, args, kw):
        c, sha = ip.run.ctx, args[1]
        if not isinstance(sha, Name):
            raise Unsupported('stream of %r' % (sha,))
        if not ip.p.decide(HELD(sha.t), 'held'):
            ip.throw(BadObject, 'sha')
        return ip.call(gb.OStream, [sha, c.type_of(sha.t), SZ(sha.t), Kept(c.data_of(sha.t))], {})


class Target(Model):
    """any database that keeps its contract"""

    def __init__(self, c, has):
        super().__init__('odb')
        self.c = c
        from .bags import Pred
        self.f['has'] = Pred(has)
        self.f['n'] = 0

    @property
    def has(self):
        return self.f['has'].f

    def m_has_object(self, ip, sha):
        if not isinstance(sha, Name):
            raise Unsupported('query of %r' % (sha,))
        return self.has(sha.t)

    def py_contains(self, ip, sha):
        return self.m_has_object(ip, sha)

    def m_store(self, ip, ist):
        p, c = ip.p, self.c
        ok = isinstance(ist, SObj) and issubclass(ist.cls, gb.IStream)
        p.prove(ok, 'a stream is stored', 'obligation')
        g = lambda nm: ip.getattr(ist, nm)
        sha = g('binsha')
        p.prove(isinstance(sha, Name), 'the id is known', 'obligation')
        if not ok or not isinstance(sha, Name):
            raise Unsupported('stored without an id')
        t = sha.t
        p.prove(z3.Not(self.has(t)), 'only what is missing is stored', 'obligation')
        p.prove(HELD(t), 'only what is there is stored', 'obligation')
        p.prove(same_bytes(p, g('type'), c.type_of(t)), 'the type is that of the object', 'obligation')
        p.prove(eq(g('size'), SZ(t)), 'the size is that of the object', 'obligation')
        data = ip.call(g('read'), [], {})
        p.prove(is_byteslike(data) and same_bytes(p, data, c.data_of(t)), 'the bytes are those kept of the object', 'obligation')
        has = self.has
        from .bags import Pred
        self.setf('has', Pred(lambda x: z3.Or(has(x), x == t)))
        self.setf('n', add(self.f['n'], 1))
        return ist


class Copy(Contract):
    """exactly what is missing is stored in the other database, and counted"""
    name = 'C16.stream_copy'
    target = 'gitdb.db.mem:MemoryDB.stream_copy'
    models = IO_MODELS
    uses = ['C16.stream']
    invs = [
        Inv('copied so far', '$it:int', lambda c, it: c.u.form(lambda x: c.odb.has(x) == z3.Or(THERE(x), z3.And(LISTED(x), FIRST(x) < zint(it)))), hints=[('$it',)]),
        Inv('counted so far', 'count:int', lambda c, n: eq(n, c.odb.f['n'])),
    ]

    def setup(self, c):
        p = c.p
        u = Universe(c)
        c.env.m = c.nat('asked')
        memo = {}

        def per_id(what, n=None):
            def f(t):
                k = (what, z3.simplify(zint(t)).get_id())
                if k not in memo:
                    memo[k] = (p.fresh_bytes(what), t)
                return memo[k][0]
            return f
        c.env.type_of, c.env.data_of = per_id('type'), per_id('kept')
        u.forall(lambda x: z3.Implies(LISTED(x), z3.And(FIRST(x) >= 0, FIRST(x) < c.m, SHA(FIRST(x)) == x)))
        u.forall(lambda x: SZ(x) >= 0)

        def elem(k):
            k = zint(k)
            t = SHA(k)
            key = ('sha', t.get_id())
            if key not in p.memo:
                p.memo[key] = t
                u.see(t)
                u.fact(z3.Implies(z3.And(k >= 0, k < c.m), z3.And(LISTED(t), FIRST(t) <= k)))
            return Id(u, t)
        c.env.odb = Target(c, lambda x: THERE(x))
        c.env.shas = GenIter(Seq(c.m, elem))
        return [], {}

    def execute(self, c, args, kw):
        def entry(n):
            raise Unsupported('objects are looked at')
        db = memory_db(c, lambda n: z3.BoolVal(False), entry)
        return c.ip.call(c.ip.getattr(db, 'stream_copy'), [c.shas, c.odb], {})

    def post(self, c, ret):
        Q = c.Q
        return [('exactly those asked for are there in addition', c.odb.has(Q) == z3.Or(THERE(Q), LISTED(Q))),
                ('their number is returned', eq(ret, c.odb.f['n']) if is_int(ret) else False),
                ('nothing is stored here', c.cache.f['new'] == () and c.db.f['_cache'] is c.cache)]

    def exc(self, c, e):
        # an id this database does not have
        x = c.u.seen
        return [('an error only for an object that is not there', is_exc(e, BadObject) and Or(*[And(LISTED(t), z3.Not(HELD(t)), z3.Not(THERE(t))) for t in x]))]


CONTRACTS = [MemStore(), Query(), All(), Copy(), STREAM_COPY, FORWARD_READ, READ]
REGISTRY = {'C16.stream': Held()}
LEVEL = 'proof'
