"""DeltaApplyReader._set_cache_ over a chain of any number of deltas"""
from .common import *
from .iomodels import *
from pyvc.core import Seq
from gitdb.stream import DeltaApplyReader
import gitdb.util

B = z3.BoolSort()


class PosFn(GhostVal):
    """positions of the delta streams, by number"""

    def __init__(self, fn):
        self.fn = fn

    def vkind(self):
        return (PosFn,)

    @staticmethod
    def vfresh(path, name, kind):
        f = F(path.name(name))
        return PosFn(lambda j: f(zint(j)))

    def set(self, i, v):
        return PosFn(lambda j: z3.If(zint(j) == zint(i), zint(v), zint(self.fn(j))))


class FamFields(dict):
    def __init__(self, r, d):
        super().__init__(d)
        self.r = r

    def __getitem__(self, k):
        if k == 'pos':
            return self.r.fam.st.f['positions'].fn(self.r.i)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if k == 'pos' or k in self else d


class FamReader(Reader):
    """the delta stream number i"""

    def __init__(self, fam, i):
        self.fam, self.i = fam, i
        E = fam.arr(i)
        super().__init__(from_base(E, 0, conc(fam.LEN(i))), 'dstream[%s]' % str(i).replace('\n', ''), type=b'DELTA', type_id=6)
        self.f = FamFields(self, self.f)
        self.f['size'] = conc(fam.SZ(i))

    def setf(self, name, v):
        if name == 'pos':
            st = self.fam.st
            st.setf('positions', st.f['positions'].set(self.i, v))
        else:
            super().setf(name, v)


class Family:
    """N delta streams, newest first, over a base stream; what applying the oldest k of them
    yields is CUR(k, .), CL(k) bytes; OKS(k): the first k steps are those of well-formed deltas"""

    def __init__(self, c, N, base, short):
        self.c, self.p, self.N, self.base, self.short = c, c.p, N, base, short
        self.LEN, self.SZ = F('delta_len'), F('delta_announced')
        self.E1, self.V1, self.E2, self.V2 = F('E1'), F('V1'), F('E2'), F('V2')
        self.DATA, self.CUR = F2('delta_data'), F2('CUR')
        self.CL, self.RL = F('CL'), F('RL')
        self.OKS, self.WF = z3.Function('OKS', I, B), z3.Function('WF', I, B)
        self.st = HObj('family')
        self.st.f['positions'] = PosFn(lambda j: z3.IntVal(0))
        self.touched, self.steps, self.foralls = [], [], []
        self.made = []
        c.p.ghost.setdefault('growing', []).extend([self.touched, self.steps, self.foralls, self.made])
        self.p.fact(self.OKS(0))
        self.p.fact(self.CL(0) == zint(base.content.n))
        self.step(z3.IntVal(0))

    # -- the k-th state
    def cur(self, k):
        k = zint(k)

        def hook(i, t):
            self.p.fact(z3.Implies(k == 0, t == zint(self.base.content.get(i))))
        return from_base(ByteArr('cur[%s]' % k.sexpr(), hook, lambda i: self.CUR(k, zint(i))), 0, conc(self.CL(k)))

    def hdr(self, j):
        return z3.And(self.E1(j) <= self.LEN(j), self.E2(j) <= self.LEN(j))

    def step(self, k):
        """definition of the k-th step (delta number N-1-k)"""
        k = zint(conc(k))
        if any(x.eq(k) for x in self.steps):
            return
        self.steps.append(k)
        j, fs = self.cached(('step', k.get_id()), lambda: self.step_facts(k))
        for x in fs:
            self.p.fact(x)
        self.touch(j)

    def step_facts(self, k):
        j = z3.simplify(zint(self.N) - 1 - k)
        return j, [z3.And(self.CL(k) >= 0, self.RL(k) >= 0),
                   z3.Implies(z3.And(k >= 0, k < zint(self.N)), z3.And(
                       self.OKS(k + 1) == z3.And(self.OKS(k), self.hdr(j), self.V1(j) == self.CL(k), self.WF(k), self.RL(k) == self.V2(j)),
                       self.CL(k + 1) == self.RL(k), z3.Implies(self.OKS(zint(self.N)), self.OKS(k + 1))))]

    def cached(self, key, make):
        """terms do not depend on the path: built once per run (the key holds ids of terms,
        which the cache keeps alive)"""
        cache = self.c.run.__dict__.setdefault('family_cache', {})
        key = (zint(self.N).get_id(), str(self.short)) + key
        if key not in cache:
            cache[key] = make()
        return cache[key]

    # -- the j-th stream
    def touch(self, j):
        j = z3.simplify(zint(j))
        if any(x.eq(j) for x in self.touched):
            return j
        self.touched.append(j)
        k, fs, _ = self.cached(('touch', j.get_id()), lambda: self.touch_facts(j))
        for x in fs:
            self.p.fact(x)
        for g in list(self.foralls):
            self.instance(g, j)
        self.step(k)
        return j

    def touch_facts(self, j):
        n = self.LEN(j)
        # the two sizes lie within the first 512 bytes (git's are at most 20 bytes)
        return zint(conc(zint(self.N) - 1 - j)), [
            z3.And(n >= 0, self.E1(j) > 0, self.E2(j) > self.E1(j), self.V1(j) >= 0, self.V2(j) >= 0),
            z3.And(z3.Or(self.E1(j) > n, self.E1(j) <= 512), z3.Or(self.E2(j) > n, self.E2(j) <= 512)),
            self.SZ(j) == n if self.short is None or isinstance(self.short, str) else z3.If(j == self.short, self.SZ(j) > n, self.SZ(j) == n),
            z3.Implies(z3.And(self.OKS(zint(self.N)), self.inside(j)), self.hdr(j))], j

    def instance(self, g, j):
        fn, key = g
        if key is None:
            self.p.fact(zbool(fn(j)))
        else:
            # the terms of the key are kept with the cached one
            self.p.fact(self.cached(key[0] + (j.get_id(),), lambda: (zbool(fn(j)), j, key[1]))[0])

    def inside(self, j):
        return z3.And(zint(j) >= 0, zint(j) < zint(self.N))

    def arr(self, i):
        a = ByteArr('delta_data[%s]' % i.sexpr(), None, lambda x: self.DATA(i, zint(x)))

        def msb(off):
            if self.p.entails(zint(off) == 0):
                return self.E1(i), self.V1(i)
            if self.p.entails(zint(off) == self.E1(i)):
                return self.E2(i), self.V2(i)
            return None
        a.msb = msb
        a.stream = i
        return a

    def at(self, i):
        i = self.touch(zint(conc(i)))
        for x, s in self.made:
            if x.eq(i) or self.p.entails(x == i):
                return s
        s = FamReader(self, i)
        self.made.append((i, s))
        return s

    def streams(self, kind='list'):
        return Seq(self.N, self.at, kind, tag=('deltas',))

    def forall(self, fn, *key):
        """all j: fn(j). Assumed: at every number that is looked at. To show: at an arbitrary one.
        `key`: what fn depends on besides j (a name and integer terms)"""
        if self.c.assuming:
            ts = [zint(x) for x in key[1:] if not isinstance(x, bool)]
            g = (fn, (tuple(x for x in key if isinstance(x, (str, bool))) + tuple(x.get_id() for x in ts), ts) if key else None)
            self.foralls.append(g)
            for j in list(self.touched):
                self.instance(g, j)
            return True
        j = self.p.fresh_int('any_stream')
        self.touch(j)
        return fn(j)

    def forall_bytes(self, s, n, fn):
        """all i < n: s[i] == fn(i)"""
        s = as_sbytes(s)
        if self.c.assuming:
            if s.base is None:
                get = s.get

                def known(i):
                    t = get(i)
                    self.p.fact(z3.Implies(z3.And(zint(i) >= 0, zint(i) < zint(n)), zint(t) == fn(zint(i))))
                    return t
                s.get = known
                return True
            if conc(s.off) != 0:
                raise Unsupported('bytes of an arbitrary buffer')
            s.base.hooks.append(lambda i, t: self.p.fact(z3.Implies(z3.And(i >= 0, i < zint(n)), t == fn(i))))
            return True
        i = self.p.fresh_nat('any_byte')
        return z3.Implies(i < zint(n), zint(s.get(i)) == fn(i))

    def sem(self, S, D):
        """what applying delta program D to S gives, if they are those of a step"""
        for x, s in self.made:
            if self.p.entails(zint(D.n) == self.LEN(x) - self.E2(x)):
                if D.base is s.content.base and self.p.entails(zint(D.off) == self.E2(x)):
                    break
                i = self.p.fresh_nat('any_byte')
                if self.p.entails(z3.Implies(i < zint(D.n), zint(D.get(conc(i))) == self.DATA(x, self.E2(x) + i))):
                    break
        else:
            return None
        j = x
        k = zint(conc(zint(self.N) - 1 - j))
        self.step(k)
        self.step(z3.simplify(k + 1))
        was, self.c.assuming = self.c.assuming, False
        try:
            if not self.p.entails(zint(S.n) == self.CL(k)) or not self.p.entails(zbool(self.forall_bytes(S, S.n, lambda i: zint(self.cur(k).get(i))))):
                return None
        finally:
            self.c.assuming = was
        nxt = z3.simplify(k + 1)
        res = self.cur(nxt)
        self.p.fact(z3.Implies(self.inside(j), self.CL(nxt) == self.RL(k)))
        return self.WF(k), SBytes(conc(self.RL(k)), res.get, res.base, 0)


def mem_of(v):
    """the memory behind an object allocate_memory gives, or None"""
    if isinstance(v, Mem):
        return v
    if isinstance(v, SObj) and v.cls is gitdb.util._RandomAccessBytesIO:
        m = v.f.get('_sio')
        return m if isinstance(m, Mem) else None
    return None


class _MemMeta(type):
    def __instancecheck__(cls, v):
        return mem_of(v) is not None


class IsMem(metaclass=_MemMeta):
    pass


class Headers:
    """kinds of what is kept per delta: tuples of the numbers and pieces of its header"""

    def __init__(self, c):
        self.c = c
        c.run.kind_hook, c.run.havoc_hook = self.kind, self.havoc

    def parts(self, j):
        fam = self.c.fam
        m = z3.If(fam.LEN(j) <= 512, fam.LEN(j), z3.IntVal(512))
        return [('E1', fam.E1(j)), ('V1', fam.V1(j)), ('E2', fam.E2(j)), ('V2', fam.V2(j)), ('read', m), ('announced', fam.SZ(j)),
                ('rest', m - fam.E2(j)), ('payload', fam.SZ(j) - fam.E2(j)), ('number', zint(j))]

    def shape(self, v, j):
        """a description of v in terms of the j-th stream"""
        fam, p = self.c.fam, self.c.p
        if isinstance(v, FamReader):
            return ('stream',) if p.entails(v.i == zint(j)) else None
        if isinstance(v, tuple) or isinstance(v, SList) and isinstance(v.v, tuple):
            xs = tuple(self.shape(x, j) for x in (v if isinstance(v, tuple) else v.v))
            return None if None in xs else ('tuple', xs)
        if is_int(v):
            for nm, t in self.parts(j):
                if p.entails(zint(v) == t):
                    return ('int', nm)
            return None
        if isinstance(v, SBytes) and v.base is not None and getattr(v.base, 'stream', None) is not None and p.entails(v.base.stream == zint(j)):
            ends = dict(self.parts(j))
            ends['0'] = z3.IntVal(0)
            lo = [nm for nm, t in ends.items() if p.entails(zint(v.off) == t)]
            hi = [nm for nm, t in ends.items() if p.entails(zint(v.off) + zint(v.n) == t)]
            # an empty piece may lie anywhere
            return ('bytes', sorted(lo)[0], 'read' if 'read' in hi else sorted(hi)[0], v.kind) if lo and hi else None
        return None

    def make(self, sh, j):
        fam = self.c.fam
        j = fam.touch(j)
        if sh[0] == 'stream':
            return fam.at(j)
        if sh[0] == 'tuple':
            return tuple(self.make(x, j) for x in sh[1])
        ends = dict(self.parts(j))
        ends['0'] = z3.IntVal(0)
        if sh[0] == 'int':
            return conc(ends[sh[1]])
        lo, hi = ends[sh[1]], ends[sh[2]]
        return from_base(fam.at(j).content.base, conc(lo), conc(hi - lo), sh[3])

    def seq_shape(self, v):
        """(number of elements, shape, kind) of a sequence kept per delta"""
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'headers':
            return v.n, v.tag[1]
        if isinstance(v, Seq) and v.tag and v.tag[0] == 'append':
            b = self.seq_shape(v.tag[1])
            if b is None:
                return None
            s = self.shape(v.tag[2], b[0])
            return (v.n, s) if s is not None and s == b[1] else None
        if isinstance(v, tuple) and v and all(isinstance(x, (tuple, FamReader)) or is_int(x) for x in v):
            ss = [self.shape(x, i) for i, x in enumerate(v)]
            if ss[0] is not None and all(x == ss[0] for x in ss):
                return len(v), ss[0]
        return None

    def kind(self, ip, v):
        if isinstance(v, FamReader):
            return ('seq', None, 'dstream')
        if isinstance(v, (tuple, Seq)):
            s = self.seq_shape(v)
            if s is not None:
                return ('seq', None, 'headers', s[1])
        return None

    def havoc(self, ip, k, name, old):
        p = ip.p
        if k[2:] == ('dstream',):
            j = p.fresh_int(name)
            p.assume(self.c.fam.inside(j))
            return self.c.fam.at(j)
        if k[2:3] == ('headers',):
            return Seq(p.fresh_nat(name + '.len'), lambda j: self.make(k[3], zint(conc(j))), 'list', tag=('headers', k[3]))
        return None


def V(c, j):
    return c.fam.V2(zint(j))


def room(c, m):
    n = zint(mem_of(m).data.n)
    return z3.Or(zint(c.N) == 1, zbool(c.fam.forall(lambda j: z3.Implies(z3.And(zint(c.N) > 1, c.fam.inside(j)), V(c, j) <= n)))) if not c.assuming else c.fam.forall(
        lambda j: z3.Implies(z3.And(zint(c.N) > 1, c.fam.inside(j)), V(c, j) <= n), 'room', n)


def current(c, m, it):
    c.fam.step(it)
    d = mem_of(m).data
    fam = c.fam
    cur = fam.cur(it)
    return And(le(cur.n, d.n), fam.forall_bytes(d, cur.n, lambda i: zint(cur.get(i))))


def positions(c, upto, then):
    """all streams below `upto` were read as far as their header is, the others `then`"""
    P = c.fam.st.f['positions'].fn

    def at(j):
        n = c.fam.LEN(j)
        m = z3.If(n <= 512, n, z3.IntVal(512))
        return z3.Implies(z3.And(c.fam.inside(j), zint(j) < zint(upto)), zint(P(j)) == m) if then is None else \
            z3.Implies(c.fam.inside(j), zint(P(j)) == z3.If(zint(j) < zint(upto), m, z3.IntVal(0)))
    return c.fam.forall(at, 'positions', P(z3.Int('probe')), upto, then is None)


def later(c, it, x, then):
    c.fam.step(it)
    if not is_int(x):
        return eq(it, 0)
    return Or(eq(it, 0), then(x))


class ApplyChain(Contract):
    name = 'C02.apply_chain'
    target = 'gitdb.stream:DeltaApplyReader._set_cache_'
    # whether memory for the base and for the targets can be mapped; any later mapping may fail
    cases = [dict(d, mmap_fails=[a, b]) for d in ({}, {'short': 'delta'}) for a in (False, True) for b in (False, True)] + [{'short': 'base', 'mmap_fails': True}]
    uses = ['C02.msb_size', 'C02.apply_delta_data', 'stream_copy']
    models = IO_MODELS
    role_types = {'mem': IsMem}
    timeout = 20
    invs = [
        Inv('headers kept', 'l:list $it:int', lambda c, l, it: eq(c.ip.seq_len(l.v), it), hints=[('buffer_info_list', '$it')]),
        Inv('headers read', '$it:int', lambda c, it: positions(c, it, 0)),
        Inv('headers end', '$it:int', lambda c, it: c.fam.forall(lambda j: z3.Implies(z3.And(c.fam.inside(j), j < zint(it)), c.fam.hdr(j)), 'end', it)),
        Inv('largest so far', 'x:int $it:int', lambda c, x, it: c.fam.forall(lambda j: z3.Implies(z3.And(c.fam.inside(j), j < zint(it)), V(c, j) <= zint(x)), 'largest', x, it), hints=[('max_target_size', '$it')]),
        Inv('largest is exact', 'x:int $it:int', lambda c, x, it: c.upto(x, it), hints=[('max_target_size', '$it')]),
        Inv('not negative', 'x:int', lambda c, x: ge(x, 0), hints=[('max_target_size',)]),
        Inv('headers remain', 'm:mem $it:int', lambda c, m, it: positions(c, sub(c.N, it), None), hints=[('bbuf', '$it')]),
        Inv('steps so far are well-formed', 'm:mem $it:int', lambda c, m, it: (c.fam.step(it), c.fam.OKS(zint(it)))[1], hints=[('bbuf', '$it')]),
        Inv('size of the source', 'x:int $it:int', lambda c, x, it: (c.fam.step(it), eq(x, c.fam.CL(zint(it))))[1], hints=[('src_buf_size', '$it')]),
        Inv('the source', 'm:mem $it:int', lambda c, m, it: current(c, m, it), hints=[('bbuf', '$it')]),
        Inv('two buffers', 'a:mem b:mem', lambda c, a, b: a is not b, excludes=True, hints=[('bbuf', 'tbuf')]),
        Inv('room', 'm:mem', room, hints=[('bbuf',), ('tbuf',)]),
        Inv('room at first', 'm:mem $it:int', lambda c, m, it: (c.fam.step(it), Implies(eq(it, 0), V(c, sub(c.N, 1)) <= zint(mem_of(m).data.n)))[1], hints=[('tbuf', '$it')]),
        Inv('at the start', 'm:mem', lambda c, m: eq(mem_of(m).f['pos'], 0), hints=[('bbuf',), ('tbuf',)]),
        Inv('at the start once begun', 'm:mem $it:int', lambda c, m, it: Or(eq(it, 0), eq(mem_of(m).f['pos'], 0)), hints=[('bbuf', '$it'), ('tbuf', '$it')]),
        Inv('size once begun', 'x:any $it:int', lambda c, x, it: later(c, it, x, lambda x: eq(x, c.fam.CL(zint(it)))), hints=[('final_target_size', '$it')]),
        Inv('short delta not reached', '$it:int', lambda c, it: c.not_reached(it)),
    ]

    def no_return(self, case):
        return case.get('short') is not None

    def setup(self, c):
        p = c.p
        short = c.case.get('short')
        nb = c.nat('base_size')
        ann = None
        if short == 'base':
            ann = c.nat('announced')
            c.assume(ann > nb)
        c.env.base = Reader(c.bytes('base', n=nb), 'base', announced=ann, type=b'TYPE', type_id=c.int('type_id'))
        c.env.N = c.nat('deltas')
        c.assume(c.N >= 1)
        s = short
        if short == 'delta':
            s = c.int('short')
            c.assume(z3.And(s >= 0, s < c.N))
        c.env.s = s
        c.env.fam = Family(c, c.N, c.base, s)
        p.ghost['family'] = c.fam
        c.env.headers = Headers(c)
        c.env.not_reached = lambda it: zint(it) <= zint(c.N) - 1 - s if short == 'delta' else True
        MX = F('largest')
        p.fact(MX(0) == 0)

        def upto(x, it):
            j = zint(it)
            c.fam.touch(j)
            for t in c.fam.cached(('largest exact', j.get_id()), lambda: ([z3.Implies(t >= 0, MX(t + 1) == z3.If(MX(t) >= c.fam.V2(t), MX(t), c.fam.V2(t))) for t in (j, z3.simplify(j - 1))], j))[0]:
                p.fact(t)
            return zint(x) == MX(j)
        c.env.upto = upto
        c.env.self_ = SObj(DeltaApplyReader)
        c.self_.f.update(_bstream=c.base, _dstreams=c.fam.streams('tuple'), _br=0)
        return [c.self_, '_size'], {}

    def post(self, c, ret):
        p = c.p
        if c.case.get('short') is not None:
            return [('incomplete input raises an error', False)]
        size, mem = c.self_.f.get('_size', UNDEF), c.self_.f.get('_mm_target', UNDEF)
        if not is_int(size) or mem is UNDEF:
            return [('size and content are set', False)]
        c.fam.step(c.N)
        res = c.fam.cur(c.N)
        out = [('every delta is well-formed and announces its sizes', c.fam.OKS(zint(c.N))),
               ('the size is that of the resolved object', eq(size, res.n))]
        ln = bm_len(c.ip, mem)
        out.append(('the content has this size', le(size, ln)))
        if p.decide(And(le(size, ln), eq(size, res.n))):
            got = as_sbytes(c.ip.getitem(mem, slice(0, size)))
            out.append(('the content is that of the resolved object', same_bytes(p, got, res)))
        out.append(('reading starts at the first byte', eq(c.ip.call(c.ip.getattr(mem, 'tell'), [], {}), 0)))
        return out

    def exc(self, c, e):
        if c.case.get('short') is not None:
            return []
        return [('error only if a delta is damaged (%s)' % e.cls.__name__, Not(c.fam.OKS(zint(c.N))))]


from pyvc.builtin_models import m_len as bm_len
