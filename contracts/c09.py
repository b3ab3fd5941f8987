"""Writing a pack: IndexWriter.append, write_stream_to_pack, PackEntity.write_pack, PackEntity.create"""
import importlib
import binascii
from .fsmodels import *
from .c01 import Create
from .c08 import IndexWriter, IndexWrite, ModelM
gpk = importlib.import_module('gitdb.pack')
gb = importlib.import_module('gitdb.base')
gs = importlib.import_module('gitdb.stream')
TYPES = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag'}


# ---- CRC-32: a value that belongs to exactly what was digested (assumed contract)
def crc_of(p, data):
    v = p.fresh_nat('crc')
    p.fact(v < 2 ** 32)
    p.ghost.setdefault('crcs', []).append((v, as_sbytes(data)))
    return v


def contents_of_crc(p, v):
    """every content known to have this checksum (candidate invariants may name several)"""
    if isinstance(v, int) and v == 0:
        return [as_sbytes(b'')]
    return [d for x, d in p.ghost.get('crcs', []) if is_int(v) and not isinstance(v, int) and (x is v or zint(v).eq(x) or p.entails(x == zint(v)))]


def content_of_crc(p, v):
    r = contents_of_crc(p, v)
    return r[0] if r else None


def m_crc32(ip, d, prev=0):
    p = ip.p
    old = contents_of_crc(p, prev)
    if not old:
        raise Unsupported('crc32 continued from %r' % (prev,))
    v = crc_of(p, concat(old[0], as_sbytes(d)))
    for o in old[1:]:
        p.ghost['crcs'].append((v, concat(o, as_sbytes(d))))
    return v


PW_MODELS = {**FS_MODELS, zlib.crc32: m_crc32, binascii.crc32: m_crc32}

HN, ZN, ZBF, CL, OSIZE, OTYPE, OFSF = F('header_len', I, I), F('zip_len', I, I), F('zip_byte', I, I, I), F('content_len', I, I), F('obj_size', I, I), F('obj_type', I, I), F('entry_at', I, I)
HB, HLEN = F('header_byte', I, I, I, I), F('header_length', I, I, I)


class CreateUse(Create):
    """C01.create, with a contract for callers: the header of type and size"""

    def call(self, ip, args, kw):
        a = dict(zip(('obj_type', 'obj_size'), args))
        a.update(kw)
        p = ip.p
        t, s = zint(a['obj_type']), zint(a['obj_size'])
        p.prove(z3.And(t >= 1, t <= 7, s >= 0), 'type and size of a header are valid', 'precondition')
        return header(p, t, s)


def header(p, t, s):
    n = HLEN(t, s)
    p.fact(n >= 1)

    def get(k):
        r = HB(t, s, zint(k))
        p.fact(z3.And(r >= 0, r < 256))
        return r
    return SBytes(n, get)


class ZipReader(Reader):
    """a stream whose content, if compressed from its beginning, becomes `zipped`"""
    zipped = None
    index = None


class WriteStream(Contract):
    """one zlib stream of everything the source has, its length, and its checksum"""
    name = 'C09.write_stream'
    target = 'gitdb.pack:write_stream_to_pack'
    models = PW_MODELS
    cases = ['crc', 'no crc']
    assumptions = ['zlib.compressobj and crc32 behave as their models say']
    invs = [
        Inv('read so far', 'br:int', lambda c, b: And(eq(b, c.src.f['pos']), eq(b, c.z.fed.n), le(b, c.content.n))),
        Inv('written so far', 'bw:int', lambda c, b: And(eq(b, c.sink.out.n), eq(b, c.z.out.n))),
        Inv('finished', 'f:bool', lambda c, f: Implies(f, eq(c.src.f['pos'], c.content.n))),
        Inv('going on', 'f:bool', lambda c, f: Implies(Not(f), eq(c.src.f['pos'], c.content.n))),
        Inv('compressor open', '', lambda c: Not(c.z.f['flushed'])),
        Inv('fed bytes', '', lambda c: z3.Implies(c.K < zint(c.z.fed.n), zint(c.z.fed.get(c.K)) == zint(c.content.get(c.K)))),
        Inv('written bytes', '', lambda c: z3.Implies(c.K < zint(c.sink.out.n), zint(c.sink.out.get(c.K)) == zint(c.z.out.get(c.K)))),
        Inv('checksum so far', 'crc:int', lambda c, v: c.crcinv(v)),
        Inv('terminates', 'br:int', lambda c, b: sub(c.content.n, b), measure=True),
        Inv('terminates when finished', 'f:bool br:int', lambda c, f, b: add(sub(c.content.n, b), Ite(f, 0, 1)), measure=True),
        Inv('terminates when not going on', 'f:bool br:int', lambda c, f, b: add(sub(c.content.n, b), Ite(f, 1, 0)), measure=True),
    ]

    def setup(self, c):
        c.env.content = c.bytes('content')
        c.env.src = Reader(c.content)
        c.env.z = CompressObj()
        c.env.sink = Sink()
        c.env.K = c.nat('K')
        c.env.base = c.bytes('header')
        p = c.p
        base_crc = crc_of(p, c.base) if c.case == 'crc' else None

        def crcinv(v):
            if c.case == 'no crc':
                return eq(v, 0)
            if c.assuming:
                d = p.fresh_bytes('digested')
                p.fact(z3.And(zint(v) >= 0, zint(v) < 2 ** 32))
                p.ghost.setdefault('crcs', []).append((zint(v), d))
                return c.crc_ok(d)
            return Or(*[c.crc_ok(d) for d in contents_of_crc(p, v)])
        c.env.crcinv = crcinv

        def crc_ok(d):
            """d is the header and what was written, at position K"""
            k, n = c.K, zint(c.base.n)
            return z3.And(zint(d.n) == n + zint(c.sink.out.n),
                          z3.Implies(k < n, zint(d.get(k)) == zint(c.base.get(k))),
                          z3.Implies(k < zint(c.sink.out.n), zint(d.get(n + k)) == zint(c.sink.out.get(k))))
        c.env.crc_ok = crc_ok
        return [ModelM(c.src, 'read'), ModelM(c.sink, 'write'), c.z] + ([] if base_crc is None and p.choose(2, 'default') else [base_crc]), {}

    def post(self, c, ret):
        r = tup(ret, 3)
        if r is None or not all(is_int(x) for x in r):
            return [('returns three numbers', False)]
        br, bw, crc = r
        K = c.K
        out = [('everything is read', And(eq(br, c.content.n), eq(c.src.f['pos'], c.content.n))),
               ('everything is compressed', z3.And(zint(c.z.fed.n) == zint(c.content.n), z3.Implies(K < zint(c.content.n), zint(c.z.fed.get(K)) == zint(c.content.get(K))))),
               ('the compressed stream is complete', c.z.f['flushed'] is True),
               ('everything compressed is written', z3.And(zint(c.sink.out.n) == zint(c.z.out.n), z3.Implies(K < zint(c.sink.out.n), zint(c.sink.out.get(K)) == zint(c.z.out.get(K))))),
               ('the number of bytes written', eq(bw, c.sink.out.n))]
        if c.case == 'crc':
            out.append(('the checksum is that of the header and all bytes written', Or(*[c.crc_ok(d) for d in contents_of_crc(c.p, crc)])))
        return out

    def call(self, ip, args, kw):
        a = dict(zip(('read', 'write', 'zstream', 'base_crc'), args))
        a.update(kw)
        p = ip.p
        src = read_source(a['read'])
        z = a['zstream']
        if src is None or not isinstance(z, CompressObj):
            raise Unsupported('write_stream_to_pack of %r' % (a['read'],))
        p.prove(z.f['flushed'] is False and concb(eq(z.fed.n, 0)) is True and concb(eq(z.out.n, 0)) is True, 'the compressor is new', 'precondition')
        left = src.left()
        rest = slice_bytes(src.content, src.f['pos'], left)
        whole = isinstance(src, ZipReader) and p.entails(eq(src.f['pos'], 0))
        out = src.zipped if whole else p.fresh_bytes('deflated')
        src.setf('pos', src.content.n)
        z.setf('fed', rest)
        z.setf('out', out)
        z.setf('flushed', True)
        ip.call(a['write'], [out], {})
        crc, base = 0, a.get('base_crc')
        if base is not None:
            old = content_of_crc(p, base)
            if old is None:
                raise Unsupported('checksum continued from %r' % (base,))
            crc = crc_of(p, concat(old, out))
        return (left, out.n, crc)


class Append(Contract):
    """an entry is added behind the others"""
    name = 'C09.append'
    target = 'gitdb.pack:IndexWriter.append'
    models = PW_MODELS

    def setup(self, c):
        c.env.n = c.nat('count')
        ids = ByteArr('ids')
        CRC, OFS = F('crc'), F('ofs')
        c.env.at = lambda i: (from_base(ids, mul(20, i), 20), CRC(zint(i)), OFS(zint(i)))
        w = c.env.w = c.ip.call(IndexWriter, [], {})
        c.env.fresh = c.p.choose(2, 'new')
        if not c.fresh:
            w.f['_objs'] = SList(Seq(c.n, c.at, tag='entries'))
        c.env.id, c.env.crc, c.env.ofs = c.bytes('id', 20), c.nat('crc'), c.nat('ofs')
        return [w, c.id, c.crc, c.ofs], {}

    def post(self, c, ret):
        l = c.w.f.get('_objs')
        if not isinstance(l, SList):
            return [('the entries are a list', False)]
        n = c.ip.seq_len(l.v)
        k = 0 if c.fresh else c.n
        out = [('one entry more', eq(n, add(k, 1)))]
        last = c.ip.getitem(l, k if c.fresh else -1)
        t = tup(last, 3)
        out.append(('the last entry is the one given', t is not None and is_byteslike(t[0]) and And(same_bytes(c.p, t[0], c.id), eq(t[1], c.crc), eq(t[2], c.ofs))))
        if not c.fresh:
            i = c.nat('i')
            c.p.assume(zint(i) < zint(c.n))
            old = tup(c.ip.getitem(l, i), 3)
            e = c.at(i)
            out.append(('the entries before stay', old is not None and And(same_bytes(c.p, old[0], e[0]), eq(old[1], e[1]), eq(old[2], e[2]))))
        return out

    def call(self, ip, args, kw):
        a = dict(zip(('self', 'binsha', 'crc', 'offset'), args))
        a.update(kw)
        c, p = ip.run.ctx, ip.p
        i = c.g.f['entries']
        c.objs.see(i)
        p.prove(lt(i, c.objs.m), 'an entry is recorded for an object only', 'obligation')
        p.prove(And(same_bytes(p, a['binsha'], c.objs.id(i)), True), 'the index records the id of the object', 'obligation')
        p.prove(eq(a['offset'], OFSF(zint(i))), 'the index records where the entry starts', 'obligation')
        d = content_of_crc(p, a['crc'])
        hn, zn = HN(zint(i)), ZN(zint(i))
        if d is None:
            p.prove(False, 'the index records the checksum of the entry', 'obligation')
        else:
            k = p.fresh_nat('anyindex')
            p.prove(z3.And(zint(d.n) == hn + zn, z3.Implies(k < hn + zn, zint(d.get(k)) == c.objs.entry_byte(i, k))), 'the index records the checksum of exactly the bytes of the entry', 'obligation')
        c.g.setf('entries', add(i, 1))
        return None


class IndexWriteUse(IndexWrite):
    """C08.write, with a contract for callers"""

    def call(self, ip, args, kw):
        a = dict(zip(('self', 'pack_sha', 'write'), args))
        a.update(kw)
        c, p = ip.run.ctx, ip.p
        p.prove(eq(c.g.f['entries'], c.total), 'the index is written with an entry for every object', 'obligation')
        d = content_of_digest(p, a['pack_sha'])
        p.prove(d is not None and And(eq(d.n, c.size()), c.agrees(d)), 'the index is written with the checksum of the pack', 'obligation')
        if not isinstance(a['write'], ModelM) or a['write'].obj is not c.isink:
            raise Unsupported('index written to %r' % (a['write'],))
        ip.call(a['write'], [p.fresh_bytes('indexfile')], {})
        c.g.setf('written', True)
        r = c.env.isha = p.fresh_bytes('indexsha', 20)
        return r


class Stream(Model):
    """objects as a generator gives them: once"""
    cls = type(x for x in ())

    def __init__(self, seq):
        super().__init__('generator')
        self.seq = seq
        self.f['used'] = False

    def py_iter(self, ip):
        if self.f['used'] is not False:
            return ()
        self.setf('used', True)
        return self.seq

    def truth(self, ip):
        return True


class Objects:
    """m objects: id, type, size and a stream with a content"""

    def __init__(self, c):
        self.c = c
        p = self.p = c.p
        self.m = p.fresh_nat('objects')
        p.fact(self.m < 2 ** 32)
        self.ids = ByteArr('ids')
        self.seen, self.cache = [], {}
        p.fact(OFSF(0) == 12)

    def id(self, i):
        return from_base(self.ids, mul(20, i), 20)

    def see(self, i):
        i = zint(i)
        if any(i.eq(x) for x in self.seen):
            return True
        p = self.p
        p.fact(z3.Implies(i >= 0, z3.And(HN(i) >= 1, ZN(i) >= 1, CL(i) >= 0, OSIZE(i) >= 0, OTYPE(i) >= 1, OTYPE(i) <= 4, HN(i) == HLEN(OTYPE(i), OSIZE(i)),
                                         OFSF(i + 1) == OFSF(i) + HN(i) + ZN(i), OFSF(i) >= 12)))
        for x in self.seen:
            p.fact(z3.And(z3.Implies(z3.And(x >= 0, x < i), OFSF(x + 1) <= OFSF(i)), z3.Implies(z3.And(i >= 0, i < x), OFSF(i + 1) <= OFSF(x)), z3.Implies(i == x, OFSF(i) == OFSF(x))))
        self.seen.append(i)
        return True

    def entry_byte(self, i, k):
        i, k = zint(i), zint(k)
        h = HB(OTYPE(i), OSIZE(i), k)
        z = ZBF(i, k - HN(i))
        self.p.fact(z3.And(h >= 0, h < 256, z >= 0, z < 256))
        return z3.If(k < HN(i), h, z)

    def elem(self, i):
        i = zint(i)
        k = z3.simplify(i).sexpr()
        if k not in self.cache:
            self.see(i)
            p = self.p
            b = p.fresh_bytes('content', conc(CL(i)))
            s = ZipReader(b, 'content')
            s.index = i

            def get(j):
                r = ZBF(i, zint(j))
                p.fact(z3.And(r >= 0, r < 256))
                return r
            s.zipped = SBytes(conc(ZN(i)), get)
            t = 1 + p.choose(4, 'type')
            p.assume(OTYPE(i) == t)
            self.cache[k] = SObj(gb.OStream, items=(self.id(i), TYPES[t], conc(OSIZE(i)), s))
        return self.cache[k]


class WritePack(Contract):
    """header, every object in order, checksum; the index has exactly the entries written"""
    name = 'C09.write_pack'
    target = 'gitdb.pack:PackEntity.write_pack'
    models = PW_MODELS
    uses = ['C01.create', 'C09.write_stream', 'C09.append', 'C08.write']
    cases = ['%s %s %s' % (k, w, n) for k in ('list', 'generator') for w in ('index', 'no index') for n in ('counted', 'told')]
    timeout = 20
    assumptions = ['fewer than 2^32 objects']
    invs = [
        Inv('objects so far', 'actual_count:int $it:int', lambda c, a, i: And(eq(a, i), c.objs.see(i)), hints=[('actual_count', '$it')]),
        Inv('not all written', '$it:int', lambda c, i: Or(lt(i, c.total), eq(i, 0))),
        Inv('offset so far', 'ofs:int $it:int', lambda c, o, i: eq(o, OFSF(zint(i))), hints=[('ofs', '$it')]),
        Inv('written so far', '$it:int', lambda c, i: And(eq(c.sink.out.n, OFSF(zint(i))), c.agrees(c.sink.out))),
        Inv('digested so far', '$it:int', lambda c, i: And(*[And(eq(s.data.n, OFSF(zint(i))), c.agrees(s.data)) for s in c.shas])),
        Inv('indexed so far', '$it:int', lambda c, i: eq(c.g.f['entries'], i if c.indexed else 0)),
        Inv('all objects are complete', '$it:int', lambda c, i: z3.Implies(c.J < zint(i), CL(c.J) == OSIZE(c.J))),
    ]

    def call(self, ip, args, kw):
        a = dict(zip(('cls', 'object_iter', 'pack_write', 'index_write', 'object_count', 'zlib_compression'), args))
        a.update(kw)
        c, p = ip.run.ctx, ip.p
        p.prove(a['object_iter'] is c.objs and eq(a.get('object_count'), c.told) if c.told is not None else a.get('object_count') is None and a['object_iter'] is c.objs,
                'the objects given are written', 'obligation')
        P, X = p.fresh_bytes('packfile'), p.fresh_bytes('indexfile')
        k = p.choose(3, 'what happens')
        if k == 1:
            ip.call(a['pack_write'], [p.fresh_bytes('part')], {})
            ip.throw([ValueError, AssertionError][p.choose(2)], 'objects')
        ip.call(a['pack_write'], [P], {})
        c.env.P = P
        c.env.X = None
        if a.get('index_write') is not None:
            ip.call(a['index_write'], [X], {})
            c.env.X = X
        return (p.fresh_bytes('sha', 20), p.fresh_bytes('isha', 20) if c.X is not None else None)

    def setup(self, c):
        p = c.p
        kind, rest = c.case.split(' ', 1)
        c.env.indexed = not rest.startswith('no')
        told = rest.endswith('told')
        o = c.env.objs = Objects(c)
        c.env.sink, c.env.isink = Sink('pack'), Sink('index')
        c.env.shas = []
        g = c.env.g = Model('progress')
        g.f.update(entries=0, written=False)
        K, c.env.J = c.nat('K'), c.nat('J')
        c.env.K = K
        if told:
            n = c.env.told = c.nat('announced')
            p.assume(z3.And(n >= 1, n < 2 ** 32))
            c.env.total = n
        else:
            c.env.total = o.m
        total = zint(c.total)
        o.see(total)
        x = c.env.X = c.int('expected')
        for k, v in enumerate(b'PACK\0\0\0\2'):
            p.fact(z3.Implies(K == k, x == v))
        for k in range(4):
            p.fact(z3.Implies(K == 8 + k, x == (total / 256 ** (3 - k)) % 256))
        j = p.fresh_nat('entry')
        o.see(j)
        o.see(c.J)
        inr = z3.And(K >= 12, K < OFSF(total))
        p.fact(z3.Implies(inr, z3.And(j < total, OFSF(j) <= K, K < OFSF(j + 1))))
        p.fact(z3.Implies(inr, x == o.entry_byte(j, K - OFSF(j))))

        def agrees(data):
            data = as_sbytes(data)
            return z3.Implies(z3.And(K < zint(data.n), K < OFSF(total)), zint(data.get(K)) == x)
        c.env.agrees = agrees
        c.env.size = lambda: OFSF(total)

        def sha1(ip, data=b'', **kw):
            s = Sha(data)
            c.shas.append(s)
            return s
        c.run.models[hashlib.sha1] = sha1
        seq = Seq(o.m, o.elem, tag='objects')
        it = SList(seq) if kind == 'list' else Stream(seq)
        a = [gpk.PackEntity, it, ModelM(c.sink, 'write')]
        kw = {}
        if c.indexed:
            kw['index_write'] = ModelM(c.isink, 'write')
        if told:
            kw['object_count'] = c.told
        elif p.choose(2, 'count 0'):
            kw['object_count'] = 0
        if p.choose(2, 'level'):
            kw['zlib_compression'] = p.fresh_int('level')
        return a, kw

    def post(self, c, ret):
        p, out = c.p, c.sink.out
        r = tup(ret, 2)
        if r is None:
            return [('returns both checksums', False)]
        size = c.size()
        d = content_of_digest(p, r[0])
        if d is None:
            return [('returns the checksum of the pack', False)]
        res = [('there are as many objects as announced', ge(c.objs.m, c.total)),
               ('every object is complete', z3.Implies(c.J < zint(c.total), CL(c.J) == OSIZE(c.J))),
               ('everything is written', eq(out.n, add(size, 20))),
               ('every byte is that of the pack of these objects', c.agrees(out)),
               ('the checksum returned is of everything before', And(eq(d.n, size), c.agrees(d))),
               ('the pack ends with this checksum', same_bytes(p, slice_bytes(out, sub(out.n, 20), 20), r[0]))]
        if c.indexed:
            res.append(('the index is written', c.g.f['written'] is True))
            res.append(('the checksum of the index is returned', c.g.f['written'] is True and is_byteslike(r[1]) and same_bytes(p, r[1], c.isha)))
        else:
            res.append(('no index is written', And(eq(c.isink.out.n, 0), r[1] is None)))
        return res

    def exc(self, c, e):
        p = c.p
        bad = False
        if is_exc(e, ValueError):
            return [('an error only if there are fewer objects than announced', lt(c.objs.m, c.total))]
        if is_exc(e, AssertionError):
            # the object that was just written
            w = [z3.And(x < zint(c.objs.m), CL(x) != OSIZE(x)) for x in c.objs.seen]
            return [('an error only if an object is incomplete', z3.Or(*w))]
        return [('no other error (%s)' % e.cls.__name__, False)]


class CreateEntity(Contract):
    """the pack and index files hold all that was written, under matching names"""
    name = 'C09.create'
    target = 'gitdb.pack:PackEntity.create'
    models = PW_MODELS
    uses = ['C09.write_pack']
    cases = ['counted', 'told']
    timeout = 20
    assumptions = ['no operation but write fails']

    def setup(self, c):
        c.env.objs = Model('objects')
        c.env.told = c.nat('announced') if c.case == 'told' else None
        c.env.root = Text([Atom('base')])
        c.env.fs = FS([(c.root, Dir())], other=lambda ip, path: None, fails=False, may=('short', 'fail')).install(c.run)
        return [gpk.PackEntity, c.objs, c.root] + ([c.told] if c.told is not None else []), {}

    def file_at(self, c, path):
        node = c.fs.at(c.ip, as_text(path))
        return node if isinstance(node, File) else None

    def post(self, c, ret):
        ip, p = c.ip, c.p
        if not isinstance(ret, SObj) or not issubclass(ret.cls, gpk.PackEntity):
            return [('an entity is returned', False)]
        if c.X is None:
            return [('the index is written', False)]
        g = lambda o, nm: ip.call(ip.getattr(o, nm), [], {})
        pf = self.file_at(c, g(g(ret, 'pack'), 'path'))
        xf = self.file_at(c, g(g(ret, 'index'), 'path'))
        return [('every byte was taken', all(f.f['failed'] is False and f.f['short'] is False for f in c.fs.fds)),
                ('the pack file holds what was written', pf is not None and same_bytes(p, pf.data, c.P)),
                ('the index file holds what was written', xf is not None and same_bytes(p, xf.data, c.X)),
                ('the descriptors are closed', all(f.f['open'] is False for f in c.fs.fds)),
                ('nothing else is left behind', all(n is None or isinstance(n, Dir) or n is pf or n is xf for _, n in c.fs.f['files']))]

    def exc(self, c, e):
        bad = any(f.f['failed'] is not False or f.f['short'] is not False for f in c.fs.fds)
        return [('an error only if writing failed or the objects are not as announced', bad if is_exc(e, OSError) else is_exc(e, ValueError, AssertionError))]


CONTRACTS = [CreateEntity(), CreateUse(), WriteStream(), Append(), IndexWriteUse(), WritePack()]
LEVEL = 'proof'
