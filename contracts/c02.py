"""Deltas: gitdb.fun.msb_size, apply_delta_data, gitdb.stream.DeltaApplyReader"""
from .common import *
from .iomodels import *
from .streamcopy import STREAM_COPY
from .chain import ApplyChain
from gitdb.base import ODeltaStream
from gitdb.stream import DeltaApplyReader


class MsbSize(Contract):
    """size number: seven bits per byte, least significant first, up to the first byte < 128"""
    name = 'C02.msb_size'
    target = 'gitdb.fun:msb_size'
    invs = [
        Inv('read so far', 'i:int', lambda c, i: And(ge(i, 0), z3.Or(c.NT, zint(i) < c.E - c.off), Or(le(i, 0), le(add(i, c.off), c.L)))),
        Inv('read so far, absolute', 'i:int', lambda c, i: And(ge(i, c.off), z3.Or(c.NT, zint(i) < c.E), Or(le(i, c.off), le(i, c.L)))),
        Inv('value so far', 'size:int i:int', lambda c, s, i: z3.And(zint(s) == c.VV(zint(i)), zint(s) >= 0, zint(s) < P2(7 * zint(i)))),
        Inv('value so far, absolute', 'size:int i:int', lambda c, s, i: z3.And(zint(s) == c.VV(zint(i) - c.off), zint(s) >= 0, zint(s) < P2(7 * (zint(i) - c.off)))),
        Inv('shift', 's:int i:int', lambda c, s, i: eq(s, mul(7, i)), hints=[('shift', 'i')]),
        Inv('end not seen', 'hit_msb:bool', lambda c, h: Not(h)),
        Inv('terminates', 'i:int', lambda c, i: sub(add(c.L, c.off), i), measure=True),
    ]

    def setup(self, c):
        p = c.p
        VV = c.env.VV = F('VV')
        p.fact(VV(0) == 0)
        c.env.off = c.nat('offset')
        c.env.E = c.int('end')
        c.env.NT = c.p.fresh_bool('no_end')
        p.fact(c.E > c.off)

        def hook(i, t):
            i = zint(i)
            p.fact(z3.Implies(i >= c.off, VV(i - c.off + 1) == VV(i - c.off) + (t % 128) * P2(7 * (i - c.off))))
            p.fact(z3.Implies(z3.And(i >= c.off, z3.Or(c.NT, i < c.E - 1)), t >= 128))
            p.fact(z3.Implies(z3.And(z3.Not(c.NT), i == c.E - 1), t < 128))
        c.env.data = c.bytes('data', hook=hook)
        c.env.L = c.data.n
        c.data.get(c.E - 1)
        return [c.data, c.off], {}

    def post(self, c, ret):
        r = tup(ret, 2)
        if r is None or not all(is_int(x) for x in r):
            return [('returns (end, size)', False)]
        e, v = r
        return [('ends after the first byte below 128', And(Not(c.NT), eq(e, c.E), le(e, c.L))),
                ('value of exactly these bytes', zint(v) == c.VV(c.E - c.off))]

    def exc(self, c, e):
        return [('error only without a final byte', Or(c.NT, c.E > zint(c.L)) if is_exc(e, AssertionError, IndexError, ValueError) else False)]

    @staticmethod
    def spec(base, off):
        """(end, value) of the size number at position `off` of an array; end is beyond any
        length if there is none"""
        p = Path.cur
        if getattr(base, 'msb', None):
            r = base.msb(off)
            if r is not None:
                return r
        E, V = F(base.name + '.sizeend')(zint(off)), F(base.name + '.size')(zint(off))
        k = ('msb', E.get_id())
        if k not in p.memo:
            p.memo[k] = E
            p.fact(z3.And(E > zint(off), V >= 0))
        return E, V

    def call(self, ip, args, kw):
        a = dict(zip(['data', 'offset'], args))
        a.update(kw)
        s = as_sbytes(a['data'])
        off = a.get('offset', 0)
        p = ip.p
        if s.base is None and conc(s.n) == 0:
            ip.throw(AssertionError, 'Could not find terminating MSB byte')
        if s.base is None:
            raise Unsupported('msb_size of a composite byte string')
        p.prove(ge(off, 0), 'msb_size is given an offset that is not negative', 'precondition')
        E, V = self.spec(s.base, add(s.off, off))
        if p.decide(E <= zint(add(s.off, s.n)), 'size number ends'):
            return (conc(E - zint(s.off)), V)
        ip.throw(AssertionError, 'Could not find terminating MSB byte')


class ApplyDelta(Contract):
    """the bytes written are those of the delta program; raises exactly if it is malformed"""
    name = 'C02.apply_delta_data'
    target = 'gitdb.fun:apply_delta_data'
    invs = [
        Inv('output so far', 'i:int', lambda c, i: c.at(i, lambda i: And(
            ge(i, 0), c.VALID(0) == c.VALID(i), Implies(c.VALID(i), And(le(i, c.n), c.LEN(0) == zint(c.sink.out.n) + c.LEN(i),
            Implies(And(le(0, c.K)), c.T(0, c.K) == z3.If(c.K < zint(c.sink.out.n), zint(c.sink.out.get(c.K)), c.T(i, c.K - zint(c.sink.out.n))))))))),
        Inv('terminates', 'i:int', lambda c, i: sub(c.n, i), measure=True),
    ]

    def setup(self, c):
        p = c.p
        c.env.n, c.env.ss = c.nat('delta_size'), c.nat('src_size')
        c.env.D = c.bytes('delta', n=c.n)
        c.env.SB = c.bytes('src')
        c.assume(c.SB.n >= c.ss)
        c.env.sink = Sink()
        c.env.K = c.nat('K')
        c.env.T, c.env.LEN, c.env.VALIDF = F2('T'), F('LEN'), z3.Function('VALID', I, z3.BoolSort())
        c.env.VALID = lambda i: c.VALIDF(zint(i))
        c.env.pos = c.int('k')
        D = c.D.base

        def unfold(i):
            i = zint(i)
            k = ('unfoldT', i.get_id())
            if k in p.memo:
                return
            p.memo[k] = i
            op = D.get(i)
            bit = p.bits_of(op)
            off, size, nx = z3.IntVal(0), z3.IntVal(0), i + 1
            # positions of the argument bytes depend on the flags before them
            args = []
            for j in range(7):
                v = D.get(nx)
                args.append(z3.If(bit[j], v, z3.IntVal(0)))
                n2 = p.fresh_int('argpos')
                p.fact(n2 == nx + z3.If(bit[j], 1, 0))
                nx = n2
            off = z3.Sum([x * 256 ** j for j, x in enumerate(args[:4])])
            size = z3.Sum([x * 256 ** j for j, x in enumerate(args[4:])])
            size = z3.If(size == 0, z3.IntVal(0x10000), size)
            copy = bit[7]
            ol = z3.If(copy, size, op)
            nxt = z3.If(copy, nx, i + 1 + op)
            okop = z3.If(copy, z3.And(nx <= c.n, off + size <= c.ss), z3.And(op > 0, i + 1 + op <= c.n))
            OL, NX, OK, OFF = p.fresh_int('ol'), p.fresh_int('next'), p.fresh_bool('okop'), p.fresh_int('off')
            p.fact(z3.And(OL == ol, NX == nxt, OK == okop, OFF == off))
            c.ops.append((i, OL, NX, OK, OFF))
            p.fact(c.VALID(i) == z3.Or(i == c.n, z3.And(i < c.n, OK, c.VALID(NX))))
            p.fact(z3.Implies(i == c.n, c.LEN(i) == 0))
            p.fact(z3.Implies(z3.And(i < c.n, OK, c.VALID(NX)), z3.And(c.LEN(i) == OL + c.LEN(NX), c.LEN(NX) >= 0, NX <= c.n)))
            kk = c.K - zint(c.sink.out.n)
            byte = z3.If(copy, zint(c.SB.get(OFF + kk)), D.get(i + 1 + kk))
            p.fact(z3.Implies(z3.And(i < c.n, OK, kk >= 0), c.T(i, kk) == z3.If(kk < OL, byte, c.T(NX, kk - OL))))
        c.env.ops = []

        def at(i, fn):
            if c.assuming:
                unfold(i)
            else:
                p.fact(z3.Implies(zint(i) > zint(c.n), z3.Not(c.VALID(i))))
            return fn(zint(i))
        c.env.at = at
        return [c.SB, c.ss, c.D, c.n, ModelM(c.sink, 'write')], {}

    def post(self, c, ret):
        p = c.p
        return c.at(0, lambda i: [('the delta is well-formed', c.VALID(0)),
                ('as many bytes as the program produces', zint(c.sink.out.n) == c.LEN(0)),
                ('every byte is the one the program produces', z3.Implies(c.K < c.LEN(0), zint(c.sink.out.get(c.K)) == c.T(0, c.K)))])

    def exc(self, c, e):
        return [('error only if the delta is malformed', Not(c.VALID(0)) if is_exc(e, ValueError, AssertionError, IndexError) else False)]

    @staticmethod
    def sem(S, D):
        """(well-formed, result) of applying delta program D to source S"""
        p = Path.cur
        if 'family' in p.ghost:
            r = p.ghost['family'].sem(S, D)
            if r is not None:
                return r
        lst = p.ghost.setdefault('sem', [])
        for s2, d2, r in lst:
            if p.entails(And(same_region(p, S, s2), same_region(p, D, d2))):
                return r
        nm = p.name('applied')
        n = p.fresh_nat('applied.len')
        r = (p.fresh_bool('wellformed'), from_base(ByteArr(nm), 0, n))
        lst.append((S, D, r))
        return r

    def call(self, ip, args, kw):
        a = dict(zip(['src_buf', 'src_buf_size', 'delta_buf', 'delta_buf_size', 'write'], args))
        a.update(kw)
        p = ip.p
        ln = bm_len(ip, a['src_buf'])
        p.prove(And(ge(a['src_buf_size'], 0), le(a['src_buf_size'], ln)), 'the source buffer is as large as stated', 'precondition')
        S = as_sbytes(ip.getitem(a['src_buf'], slice(0, a['src_buf_size'])))
        dl = bm_len(ip, a['delta_buf'])
        p.prove(eq(a['delta_buf_size'], dl), 'the delta buffer holds exactly the delta', 'precondition')
        D = as_sbytes(ip.getitem(a['delta_buf'], slice(0, a['delta_buf_size'])))
        ok, res = self.sem(S, D)
        if p.decide(ok, 'well-formed delta'):
            ip.call(a['write'], [res], {})
            return None
        ip.call(a['write'], [p.fresh_bytes('partial')], {})
        ip.throw([ValueError, AssertionError, IndexError][p.choose(3)], 'malformed delta')


from pyvc.interp import ModelM
from pyvc.builtin_models import m_len as bm_len


class SetCache(Contract):
    """how _size and _mm_target come to be, for the reading functions"""
    name = 'C02.set_cache'
    target = 'gitdb.stream:DeltaApplyReader._set_cache_'

    def call(self, ip, args, kw):
        o = args[0]
        c = ip.run.ctx
        if ip.p.choose(2, 'damaged delta'):
            ip.throw(ValueError, 'damaged delta')
        o.setf('_size', c.content.n)
        pad = ip.p.fresh_nat('pad')
        o.setf('_mm_target', Mem(concat(c.content, SBytes(pad, lambda i: z3.IntVal(0)))))
        c.env.resolved = True
        return None


class ReadSeek(Contract):
    """read delivers consecutive pieces of the resolved content; seek(0) starts over"""
    name = 'C02.read'
    target = 'gitdb.stream:DeltaApplyReader.read'
    cases = [{'op': o, 'state': s} for o in ('read', 'read default', 'seek', 'size', 'type', 'type_id', 'object size', 'object read') for s in ('fresh', 'resolved')]
    uses = ['C02.set_cache']

    def setup(self, c):
        p = c.p
        c.env.content = c.bytes('content')
        b = Reader(c.bytes('base'), type=b'BASETYPE', type_id=c.int('base_type'))
        c.env.base = b
        o = c.env.self_ = SObj(DeltaApplyReader)
        o.f.update(_bstream=b, _dstreams=(Reader(c.bytes('d'), type=b'OFS_DELTA', type_id=6),), _br=0)
        c.env.pos = 0
        c.env.resolved = False
        if c.case['state'] == 'resolved':
            c.env.pos = c.nat('pos')
            c.assume(zint(c.pos) <= zint(c.content.n))
            pad = c.nat('pad')
            m = Mem(concat(c.content, SBytes(pad, lambda i: z3.IntVal(0))))
            m.f['pos'] = c.pos
            o.f.update(_br=c.pos, _size=c.content.n, _mm_target=m)
        c.env.n = c.int('count')
        return [], {}

    def execute(self, c, args, kw):
        op = c.case['op']
        if op.startswith('object'):
            # through the object a database hands out
            o = c.ip.call(ODeltaStream, [c.bytes('sha', n=20), b'BASETYPE', None, c.self_], {})
            return c.ip.getattr(o, 'size') if op == 'object size' else c.ip.call(c.ip.getattr(o, 'read'), [c.n], {})
        if op == 'read':
            return c.ip.call(c.ip.getattr(c.self_, 'read'), [c.n], {})
        if op == 'read default':
            return c.ip.call(c.ip.getattr(c.self_, 'read'), [], {})
        if op == 'seek':
            return c.ip.call(c.ip.getattr(c.self_, 'seek'), [0], {})
        return c.ip.getattr(c.self_, op)

    def state(self, c, pos):
        """the representation stands for `pos` bytes delivered"""
        f = c.self_.f
        m = f.get('_mm_target', UNDEF)
        if m is UNDEF or not isinstance(m, Mem) or not is_int(f.get('_br', UNDEF)) or not is_int(f.get('_size', UNDEF)):
            return False
        if not c.p.decide(le(c.content.n, m.data.n)):
            return False
        return And(eq(f['_br'], pos), eq(m.f['pos'], pos), eq(f['_size'], c.content.n), same_region(c.p, slice_bytes(m.data, 0, c.content.n), c.content))

    def post(self, c, ret):
        op = c.case['op'].replace('object ', '')
        left = sub(c.content.n, c.pos)
        if op in ('read', 'read default'):
            n = c.n if op == 'read' else 0
            k = Ite(And(ge(n, 1), le(n, left)), n, left)
            if not is_byteslike(ret):
                return [('returns bytes', False)]
            r = as_sbytes(ret)
            out = [('as many bytes as asked for, or the rest', eq(r.n, k))]
            if c.p.decide(eq(r.n, k)):
                out.append(('the next bytes of the content', same_bytes(c.p, r, slice_bytes(c.content, c.pos, r.n))))
            out.append(('position advances by as much', self.state(c, add(c.pos, r.n))))
            return out
        if op == 'seek':
            return [('reading starts over', self.state(c, 0))]
        if op == 'size':
            return [('size of the resolved content', eq(ret, c.content.n) if is_int(ret) else False), ('position unchanged', self.state(c, c.pos))]
        if op == 'type':
            return [('type of the base', ret == b'BASETYPE')]
        return [('type of the base', eq(ret, c.base.f['type_id']) if is_int(ret) else False)]

    def exc(self, c, e):
        if c.case['state'] == 'fresh' and c.case['op'] not in ('type', 'type_id') and is_exc(e, ValueError):
            return []
        return [('no exception (%s)' % e.cls.__name__, False)]


class NumberedReader(Reader):
    """one of a list of arbitrarily many streams"""


class New(Contract):
    """DeltaApplyReader.new keeps the streams in order, newest first and base last"""
    name = 'C02.new'
    target = 'gitdb.stream:DeltaApplyReader.new'
    cases = [{'given as': 'list'}, {'given as': 'tuple'}]

    def setup(self, c):
        n = c.env.n = c.nat('streams')
        TID = c.env.TID = F('type_id')
        made = []

        def at(i):
            i = z3.simplify(zint(i))
            for x, s in made:
                if x.eq(i):
                    return s
            s = NumberedReader(c.bytes('content'), 'stream[%s]' % i, type=b'T', type_id=conc(TID(i)))
            s.no = i
            made.append((i, s))
            return s
        v = Seq(n, at, c.case['given as'])
        if c.case['given as'] == 'list':
            lst = SList((), 'streams')
            lst.f['v'] = v
            v = lst
        return [DeltaApplyReader, v], {}

    def post(self, c, ret):
        p, n = c.p, zint(c.n)
        if not isinstance(ret, SObj):
            return [('a reader is returned', False)]
        base, ds = ret.f.get('_bstream'), ret.f.get('_dstreams')
        ds = ds.f['v'] if isinstance(ds, SList) else ds
        out = [('refuses too few streams', n >= 2), ('the base is no delta', z3.And(c.TID(n - 1) != 6, c.TID(n - 1) != 7)),
               ('the last stream is the base', isinstance(base, NumberedReader) and base.no == n - 1),
               ('nothing is delivered yet', eq(ret.f.get('_br', -1), 0)),
               ('all others are kept', eq(c.ip.seq_len(ds), conc(n - 1)))]
        k = c.nat('any')
        c.assume(k < n - 1)
        d = c.ip.seq_at(ds, k)
        return out + [('in order', isinstance(d, NumberedReader) and d.no == k)]

    def exc(self, c, e):
        n = zint(c.n)
        return [('refuses only too few streams or a delta as base',
                 z3.Or(n < 2, c.TID(n - 1) == 6, c.TID(n - 1) == 7) if is_exc(e, ValueError) else False)]


CONTRACTS = [MsbSize(), ApplyDelta(), ApplyChain(), ReadSeek(), New(), STREAM_COPY]
REGISTRY = {'C02.set_cache': SetCache()}
LEVEL = 'proof'
