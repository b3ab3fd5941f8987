"""The index writer: gitdb.pack.IndexWriter.write"""
from .packmodels import *
from .hashmodels import *
from pyvc.interp import ModelM
from gitdb.pack import IndexWriter

SIG = b'\377tOc'


def byte_of(v, w, j):
    """byte j (from the left) of a number of w bytes; j may be symbolic"""
    if isinstance(conc(j), int):
        j = conc(j)
        return (zint(v) / 256 ** (w - 1 - j)) % 256
    r = zint(v) % 256
    for k in range(w - 1):
        r = z3.If(zint(j) == k, (zint(v) / 256 ** (w - 1 - k)) % 256, r)
    return r


def seq_int_at(v, i):
    """element of a list of integers"""
    if isinstance(v, Seq):
        return zint(v.elem(i))
    if all(isinstance(x, int) and x == v[0] for x in v) and v:
        return z3.IntVal(v[0])
    r = z3.IntVal(0)
    for k in reversed(range(len(v))):
        r = z3.If(zint(i) == k, zint(v[k]), r)
    return r


def each(c, lst, known, cond):
    """invariant about every element of a list of integers: assumed at each element that is
    read, proved for an arbitrary one"""
    if not isinstance(lst, SList):
        return False
    v = lst.v
    if not (isinstance(v, tuple) and all(is_int(x) for x in v) or isinstance(v, Seq) and v.kind == 'ints'):
        return False
    if c.assuming:
        if isinstance(v, tuple):
            return True     # nothing is assumed about it
        done = []

        def elem(k, old=v.elem):
            x = zint(old(k))
            if not any(zint(k).eq(y) for y in done):
                done.append(zint(k))
                c.fact(z3.Implies(z3.And(zint(k) >= 0, zint(k) < zint(v.n)), cond(zint(k), x)))
            return x
        lst.f['v'] = Seq(v.n, elem, 'ints')
        return True
    k = c.p.fresh_nat('anyelement')
    c.fact(zint(k) >= 0)
    n = v.n if isinstance(v, Seq) else len(v)
    if not isinstance(v, Seq) and not v:
        return True
    return z3.Implies(k < zint(n), cond(k, seq_int_at(v, k)))


class Objects:
    """distinct ids in ascending order with their checksums and offsets"""

    def __init__(self, c):
        self.c = c
        p = self.p = c.p
        self.n = p.fresh_nat('count')
        p.fact(self.n < 2 ** 31)
        self.ids = ByteArr('ids')
        self.CRC, self.OFS, self.NL, self.LG, self.FAN, self.IN = F('crc'), F('ofs'), F('nlarge'), F('large'), F('fan'), F('input')
        p.fact(self.NL(0) == 0)
        self.at, self.fans, self.nls = [], [], []
        self.nlarge(self.n)

    def nlarge(self, i):
        """number of large offsets before object i"""
        i = zint(i)
        if not any(i.eq(x) for x in self.nls):
            for x in self.nls:
                self.p.fact(z3.And(z3.Implies(i <= x, self.NL(i) <= self.NL(x)), z3.Implies(x <= i, self.NL(x) <= self.NL(i))))
            self.nls.append(i)
            self.p.fact(z3.Implies(i >= 0, z3.And(self.NL(i) >= 0, self.NL(i) <= i)))
        return self.NL(i)

    def see(self, i):
        i = zint(i)
        if any(i.eq(x) for x in self.at):
            return
        self.at.append(i)
        p = self.p
        inr = z3.And(i >= 0, i < self.n)
        p.fact(z3.Implies(inr, z3.And(self.CRC(i) >= 0, self.CRC(i) < 2 ** 32, self.OFS(i) >= 0, self.OFS(i) < 2 ** 63)))
        a, b = self.nlarge(i), self.nlarge(i + 1)
        big = self.OFS(i) >= 2 ** 31
        p.fact(z3.Implies(inr, z3.And(b == a + z3.If(big, 1, 0), z3.Implies(big, self.LG(a) == self.OFS(i)))))
        t = zint(self.ids.get(20 * i))
        for f in self.fans:
            self.fanfact(i, t, f)

    def fanfact(self, i, t, b):
        self.p.fact(z3.Implies(z3.And(i >= 0, i < self.n), (i < self.FAN(b)) == (t <= b)))

    def fan(self, b):
        """number of ids whose first byte is at most b"""
        b = zint(b)
        if not any(b.eq(x) for x in self.fans):
            p = self.p
            v = self.FAN(b)
            p.fact(z3.And(v >= 0, v <= self.n, z3.Implies(b >= 255, v == self.n), z3.Implies(b < 0, v == 0)))
            for x in self.fans:
                p.fact(z3.And(z3.Implies(x <= b, self.FAN(x) <= v), z3.Implies(b <= x, v <= self.FAN(x))))
            self.fans.append(b)
            for i in self.at:
                self.fanfact(i, zint(self.ids.get(20 * i)), b)
        return self.FAN(b)

    def id(self, i):
        return from_base(self.ids, mul(20, i), 20)

    def lg(self, m):
        self.p.fact(z3.Implies(z3.And(zint(m) >= 0, zint(m) < self.NL(self.n)), z3.And(self.LG(zint(m)) >= 0, self.LG(zint(m)) < 2 ** 63)))
        return self.LG(zint(m))


def tuple_at(o, i):
    o.see(i)
    return (o.id(i), o.CRC(zint(i)), o.OFS(zint(i)))


class IndexWrite(Contract):
    """the bytes written are the version 2 index of the objects"""
    name = 'C08.write'
    target = 'gitdb.pack:IndexWriter.write'
    models = {**PACK_MODELS, **HASH_MODELS}
    timeout = 20
    assumptions = ['list.sort returns the elements in ascending order of the key']
    invs = [
        Inv('table of 256', 'tmplist:list', lambda c, l: eq(c.ip.seq_len(l.v), 256)),
        Inv('counted so far', 'tmplist:list $it:int', lambda c, l, i: each(c, l, None, lambda b, x: x == c.counted(b, i)), hints=[('tmplist', '$it')]),
        Inv('summed so far', 'tmplist:list $it:int', lambda c, l, i: each(c, l, None, lambda b, x: z3.Implies(b < 256, x == z3.If(b <= zint(i), c.o.fan(b), c.o.fan(b) - c.o.fan(b - 1)))),
            hints=[('tmplist', '$it')]),
        Inv('running total', 'total:int $it:int', lambda c, t, i: eq(t, c.o.fan(sub(i, 1)))),
        Inv('large so far', 'tmplist:list $it:int', lambda c, l, i: eq(c.ip.seq_len(l.v), c.o.nlarge(i)), hints=[('tmplist', '$it')]),
        Inv('number of large', 'tmplist:list', lambda c, l: eq(c.ip.seq_len(l.v), c.o.nlarge(c.o.n))),
        Inv('large offsets', 'tmplist:list', lambda c, l: each(c, l, None, lambda m, x: x == c.o.lg(m))),
        Inv('fan-out so far', '$it:int', lambda c, i: eq(c.sink.out.n, add(8, mul(4, i)))),
        Inv('signature written', '', lambda c: eq(c.sink.out.n, 8)),
        Inv('ids so far', '$it:int', lambda c, i: eq(c.sink.out.n, add(1032, mul(20, i)))),
        Inv('checksums so far', '$it:int', lambda c, i: eq(c.sink.out.n, add(c.crcs, mul(4, i)))),
        Inv('offsets so far', '$it:int', lambda c, i: eq(c.sink.out.n, add(c.offs, mul(4, i)))),
        Inv('large offsets so far', '$it:int', lambda c, i: eq(c.sink.out.n, add(c.large, mul(8, i)))),
        Inv('fan-out written', '', lambda c: eq(c.sink.out.n, 1032)),
        Inv('ids written', '', lambda c: eq(c.sink.out.n, c.crcs)),
        Inv('checksums written', '', lambda c: eq(c.sink.out.n, c.offs)),
        Inv('offsets written', '', lambda c: eq(c.sink.out.n, c.large)),
        Inv('bytes so far', '', lambda c: c.agrees(c.sink.out)),
        Inv('digest of what is written', '', lambda c: And(*[And(eq(s.data.n, c.sink.out.n), c.agrees(s.data)) for s in c.shas])),
    ]

    def configure(self, run):
        run.max_unroll = 32
        run.int_lists = True

        def sort(ip, seq, key, reverse):
            c = run.ctx
            if not (isinstance(seq, Seq) and seq.tag == 'input') or reverse is not False:
                raise Unsupported('sort')
            if key is not None:
                i = ip.p.fresh_nat('i')
                ip.p.fact(i < c.o.n)
                k = ip.call(key, [tuple_at(c.o, i)], {})
                if not is_byteslike(k):
                    raise Unsupported('sort by something else than the id')
                ip.p.prove(same_region(ip.p, k, c.o.id(i)), 'objects are sorted by id')
            return Seq(c.o.n, lambda i: tuple_at(c.o, i), tag='sorted')
        run.sort_hook = sort

    def setup(self, c):
        p = c.p
        o = c.env.o = Objects(c)
        w = SObj(IndexWriter)
        w.f['_objs'] = SList(Seq(o.n, lambda i: tuple_at(o, o.IN(zint(i))), tag='input'))
        c.env.sink = Sink()
        c.env.shas = []
        c.env.psha = c.bytes('packsha', n=20)
        c.env.crcs = conc(1032 + 20 * o.n)
        c.env.offs = conc(c.crcs + 4 * o.n)
        c.env.large = conc(c.offs + 4 * o.n)
        c.env.end = conc(c.large + 8 * o.nlarge(o.n))
        c.env.total = conc(c.end + 20)
        K = c.env.K = c.nat('K')

        def counted(b, i):
            i, hi, lo = zint(i), o.fan(b), o.fan(zint(b) - 1)
            return z3.If(i < hi, i, hi) - z3.If(i < lo, i, lo)
        c.env.counted = counted
        # the byte a version 2 index has at position K
        x = c.env.X = c.int('expected')
        for k, v in enumerate(SIG + b'\0\0\0\2'):
            p.fact(z3.Implies(K == k, x == v))
        b = p.fresh_int('b')
        p.fact(z3.Implies(z3.And(K >= 8, K < 1032), z3.And(b == (K - 8) / 4, x == byte_of(o.fan(b), 4, (K - 8) % 4))))
        p.fact(z3.Implies(z3.And(K >= 1032, K < c.crcs), x == o.ids.get(K - 1032)))
        i = p.fresh_int('ci')
        o.see(i)
        p.fact(z3.Implies(z3.And(K >= c.crcs, K < c.offs), z3.And(i == (K - c.crcs) / 4, x == byte_of(o.CRC(i), 4, (K - c.crcs) % 4))))
        i = p.fresh_int('oi')
        o.see(i)
        v = z3.If(o.OFS(i) >= 2 ** 31, 2 ** 31 + o.nlarge(i), o.OFS(i))
        p.fact(z3.Implies(z3.And(K >= c.offs, K < c.large), z3.And(i == (K - c.offs) / 4, x == byte_of(v, 4, (K - c.offs) % 4))))
        m = p.fresh_int('li')
        p.fact(z3.Implies(z3.And(K >= c.large, K < c.end), z3.And(m == (K - c.large) / 8, x == byte_of(o.lg(m), 8, (K - c.large) % 8))))
        p.fact(z3.Implies(z3.And(K >= c.end, K < c.total), x == c.psha.get(K - c.end)))

        def agrees(data):
            data = as_sbytes(data)
            r = z3.Implies(z3.And(K < zint(data.n), K < c.total), zint(data.get(K)) == x)
            return r
        c.env.agrees = agrees

        def sha1(ip, data=b'', **kw):
            s = Sha(data)
            c.shas.append(s)
            return s
        c.run.models[hashlib.sha1] = sha1
        return [w, c.psha, ModelM(c.sink, 'write')], {}

    def post(self, c, ret):
        out = c.sink.out
        data = content_of_digest(c.p, ret)
        if data is None:
            return [('returns the checksum of the index', False)]
        body = slice_bytes(out, 0, sub(out.n, 20))
        return [('everything is written', eq(out.n, add(c.total, 20))),
                ('every byte is that of the version 2 index', c.agrees(out)),
                ('the checksum returned is of everything before', And(eq(data.n, c.total), c.agrees(data))),
                ('it ends with this checksum', same_bytes(c.p, slice_bytes(out, sub(out.n, 20), 20), ret))]


CONTRACTS = [IndexWrite()]
LEVEL = 'proof'
