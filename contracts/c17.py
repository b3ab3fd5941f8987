"""Hashing writers: Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer, FDStream"""
from .fdmodels import *
import gitdb.stream as gs


def scramble_ints(p, o):
    """counters an object keeps may have any value after a history of writes"""
    for k, v in list(o.f.items()):
        if isinstance(v, bool):
            o.f[k] = p.fresh_bool(k)
        elif isinstance(v, int):
            o.f[k] = p.fresh_nat(k)


class Writer(Contract):
    """one operation after any history: everything that keeps the written bytes stays in step"""
    kind = None
    cls = None
    models = FD_MODELS
    cases = ['new', 'write', 'sha', 'sha_hex']
    assumptions = ['SHA-1, zlib and the descriptor behave as their models say']

    def make(self, c):
        """constructor arguments"""
        return []

    def keepers(self, c, o):
        """[(what, bytes so far)] that hold everything written"""
        return [('digest', s.data) for s in c.shas]

    def havoc(self, c, o):
        """the state after any sequence of writes: the bytes W"""
        for s in c.shas:
            s.f['data'] = c.W

    def setup(self, c):
        c.env.W = c.bytes('written')
        c.env.d = c.bytes('data')
        c.env.shas = []
        c.env.zips = c.p.ghost.setdefault('compressobjs', [])

        def sha1(ip, data=b'', **kw):
            s = Sha(data)
            c.shas.append(s)
            return s
        c.run.models[hashlib.sha1] = sha1
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip
        o = c.env.o = ip.call(self.cls, self.make(c), {})
        if c.case == 'new':
            return None
        self.havoc(c, o)
        scramble_ints(c.p, o)
        if c.case == 'write':
            return ip.call(ip.getattr(o, 'write'), [c.d], {})
        if c.case == 'sha':
            return ip.call(ip.getattr(o, 'sha'), [] if c.p.choose(2, 'default') else [False], {})
        if c.case == 'sha_hex':
            return ip.call(ip.getattr(o, 'sha'), [True], {})
        return ip.call(ip.getattr(o, c.case), [], {})

    def digest_is(self, c, ret, data):
        got = content_of_digest(c.p, ret)
        if got is None:
            return False
        if c.case == 'sha_hex' and not isinstance(ret, Hex):
            return False
        if c.case == 'sha' and isinstance(ret, Hex):
            return False
        return same_bytes(c.p, got, data)

    def in_step(self, c, data):
        out = []
        for what, b in self.keepers(c, c.o):
            out.append(('%s holds exactly the bytes written' % what, same_bytes(c.p, b, data)))
        if not out:
            out.append(('the bytes written are kept', False))
        return out

    def post(self, c, ret):
        if c.case == 'new':
            return self.in_step(c, b'')
        if c.case == 'write':
            return [('returns the number of bytes given', eq(ret, c.d.n) if is_int(ret) else False)] + self.in_step(c, concat(c.W, c.d))
        if c.case in ('sha', 'sha_hex'):
            return [('the digest is of all bytes written', self.digest_is(c, ret, c.W))] + self.in_step(c, c.W)
        return []


class Plain(Writer):
    name = 'C17.Sha1Writer'
    target = 'gitdb.stream:Sha1Writer.write'
    cls = gs.Sha1Writer


class Flexible(Writer):
    """forwards to a function that may return anything"""
    name = 'C17.FlexibleSha1Writer'
    target = 'gitdb.stream:FlexibleSha1Writer.write'
    cls = gs.FlexibleSha1Writer

    def make(self, c):
        c.env.sink = Sink(ret='len' if c.p.choose(2, 'returns') else None)
        return [ModelM(c.sink, 'write')]

    def havoc(self, c, o):
        super().havoc(c, o)
        c.sink.f['out'] = c.W

    def keepers(self, c, o):
        return super().keepers(c, o) + [('the function written to', c.sink.out)]


class Zipped(Writer):
    name = 'C17.ZippedStoreShaWriter'
    target = 'gitdb.stream:ZippedStoreShaWriter.write'
    cls = gs.ZippedStoreShaWriter
    cases = ['new', 'write', 'sha', 'sha_hex', 'close', 'getvalue', 'rewind']

    def setup(self, c):
        r = super().setup(c)
        c.env.Z = c.bytes('deflated_before')
        c.env.mems = []

        def bio(ip, data=b''):
            m = m_bytesio(ip, data)
            c.mems.append(m)
            return m
        c.run.models[io.BytesIO] = bio
        return r

    def havoc(self, c, o):
        super().havoc(c, o)
        for z in c.zips:
            z.f.update(fed=c.W, out=c.Z)
        for m in c.mems:
            m.f['data'], m.f['pos'] = c.Z, c.Z.n

    def execute(self, c, args, kw):
        if c.case != 'rewind':
            return super().execute(c, args, kw)
        ip = c.ip
        o = c.env.o = ip.call(self.cls, [], {})
        self.havoc(c, o)
        n = c.env.n = c.p.fresh_int('n')
        ip.call(ip.getattr(o, 'close'), [], {})
        c.env.all = c.zips[0].out
        ip.call(ip.getattr(o, 'seek'), [0], {})
        return ip.call(ip.getattr(o, 'read'), [n], {})

    def keepers(self, c, o):
        return super().keepers(c, o) + [('the compressor', z.fed) for z in c.zips]

    def post(self, c, ret):
        p = c.p
        one = [('one compressor and one buffer', len(c.zips) == 1 and len(c.mems) == 1)]
        if not one[0][1]:
            return one
        z, m = c.zips[0], c.mems[0]
        kept = [('the buffer holds all that was compressed', And(same_bytes(p, m.data, z.out), eq(m.f['pos'], m.data.n)))]
        if c.case == 'close':
            return one + self.in_step(c, c.W) + kept + [('the compressed data is complete', z.f['flushed'] is True)]
        if c.case == 'getvalue':
            return one + [('the value is all that was compressed', same_bytes(p, ret, c.Z) if is_byteslike(ret) else False)]
        if c.case == 'rewind':
            n = Ite(Or(lt(c.n, 0), gt(c.n, c.all.n)), c.all.n, c.n)
            return one + [('reads from the start of the compressed data', same_bytes(p, ret, slice_bytes(c.all, 0, n)) if is_byteslike(ret) else False)]
        return one + super().post(c, ret) + kept


class FDCompressed(Writer):
    name = 'C17.FDCompressedSha1Writer'
    target = 'gitdb.stream:FDCompressedSha1Writer.write'
    cls = gs.FDCompressedSha1Writer
    cases = ['new', 'write', 'sha', 'sha_hex', 'close']

    def make(self, c):
        c.env.fd = Fd()
        c.env.Z = c.bytes('deflated_before')
        return [c.fd]

    def havoc(self, c, o):
        super().havoc(c, o)
        for z in c.zips:
            z.f.update(fed=c.W, out=c.Z)
        c.fd.f['out'] = c.Z

    def keepers(self, c, o):
        return super().keepers(c, o) + [('the compressor', z.fed) for z in c.zips]

    def post(self, c, ret):
        p = c.p
        one = [('one compressor', len(c.zips) == 1)]
        if not one[0][1]:
            return one
        z = c.zips[0]
        kept = [('the descriptor took all that was compressed', And(c.fd.f['short'] is False, same_bytes(p, c.fd.out, z.out)))]
        if c.case == 'close':
            return one + self.in_step(c, c.W) + kept + [('the compressed data is complete', z.f['flushed'] is True), ('the descriptor is closed', c.fd.f['open'] is False)]
        return one + super().post(c, ret) + kept

    def exc(self, c, e):
        return [('error only if the descriptor did not take everything', c.case in ('write', 'close') and (c.fd.f['short'] is True or c.fd.f['failed'] is True) and is_exc(e, OSError))]


class FDWrite(Contract):
    """FDStream.write: all bytes are taken, or an error"""
    name = 'C17.FDStream'
    target = 'gitdb.stream:FDStream.write'
    models = FD_MODELS
    cases = ['write', 'close']

    def setup(self, c):
        c.env.fd = Fd()
        c.env.W, c.env.d = c.bytes('written'), c.bytes('data')
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip
        o = c.env.o = ip.call(gs.FDStream, [c.fd], {})
        c.fd.f['out'] = c.W
        scramble_ints(c.p, o)
        c.env.t0 = ip.call(ip.getattr(o, 'tell'), [], {})
        r = ip.call(ip.getattr(o, c.case), [c.d] if c.case == 'write' else [], {})
        c.env.t1 = ip.call(ip.getattr(o, 'tell'), [], {})
        return r

    def post(self, c, ret):
        if c.case == 'close':
            return [('the descriptor is closed', c.fd.f['open'] is False), ('nothing more is written', same_bytes(c.p, c.fd.out, c.W))]
        return [('returns the number of bytes given', eq(ret, c.d.n) if is_int(ret) else False),
                ('the descriptor took everything', And(c.fd.f['short'] is False, same_bytes(c.p, c.fd.out, concat(c.W, c.d)))),
                ('the position advances by as much', eq(sub(c.t1, c.t0), c.d.n))]

    def exc(self, c, e):
        return [('error only if the descriptor did not take everything', (c.fd.f['short'] is True or c.fd.f['failed'] is True) and is_exc(e, OSError))]


CONTRACTS = [Plain(), Flexible(), Zipped(), FDCompressed(), FDWrite()]
LEVEL = 'proof'
