"""DecompressMemMapReader: representation invariant and the contract of read"""
import io
from .zmodels import *
from .iomodels import VIEWS
from pyvc.interp import ModelM
import gitdb.stream as gs
from gitdb.stream import DecompressMemMapReader as DR

HDRMAX = 8192


def plain_at(c, i):
    return zint(c.plain.get(i))


class Rep:
    """the state of a reader between two calls, in terms of one zlib stream:
    q plain bytes were delivered (or skipped) so far"""

    def __init__(self, o):
        self.o = o

    def g(self, k):
        return self.o.f[k]

    @property
    def zip(self):
        return self.g('_zip')

    def buflen(self):
        b = self.g('_buf')
        return 0 if b is None else self.g('_buflen')

    def q(self):
        return sub(self.zip.f['pout'], self.buflen())

    def exact(self, want=0):
        """the reader knows how many compressed bytes it used, and reading so many bytes does not
        look beyond the end again"""
        f = self.zip.f
        return And(eq(self.g('_cbr'), f['cin']), Or(Not(f['eof']), eq(f['ul'], 0), le(want, self.buflen())))

    def sane(self, want):
        """reading so many bytes does not feed again what is known to lie behind the end"""
        f = self.zip.f
        return Or(Not(f['eof']), eq(f['tl'], 0), le(want, self.buflen()))

    def holds(self, p, with_s=True):
        """conditions of the invariant"""
        z, g = self.zip, self.g
        ok = [ge(g('_br'), 0),
              eq(g('_cwe'), add(z.f['cin'], z.left())), ge(self.q(), 0)]
        if z.src is not None:
            ok.append(z.invariant())
        b = g('_buf')
        if b is None:
            ok.append(True)
        elif isinstance(b, Mem):
            left = sub(b.data.n, b.f['pos'])
            ok += [ge(b.f['pos'], 0), ge(left, 0), eq(left, g('_buflen')), gt(left, -1)]
            if z.src is not None:
                ok.append(same_bytes_at(p, slice_bytes(b.data, b.f['pos'], left), slice_bytes(z.src.plain, self.q(), left)))
        else:
            return False
        if with_s:
            ok.append(ge(sub(g('_s'), g('_br')), 0))
        return And(*ok)


def same_bytes_at(p, a, b):
    return same_bytes(p, a, b)


def arbitrary_reader(c, s, buffered, phi, label='reader'):
    """a reader in any state in which the invariant holds; c.src is its stream"""
    p, ip = c.p, c.ip
    o = ip.call(DR, [c.m, False, s], {})
    for k, v in list(o.f.items()):
        # helper counters a changed program may keep
        if k not in ('_m', '_zip', '_buf', '_buflen', '_s', '_br', '_cws', '_cwe', '_cbr', '_phi', '_close') and is_int(v) and not isinstance(v, bool):
            o.f[k] = p.fresh_int(k)
    z = o.f['_zip']
    if not isinstance(z, Decompress):
        raise Unsupported('no decompressor')
    z.src = c.src
    z.f.update(cin=p.fresh_nat('cin'), pout=p.fresh_nat('pout'), eof=p.fresh_bool('eof'), tl=p.fresh_nat('tail'), ul=p.fresh_nat('unused'))
    p.fact(z.invariant())
    # the map reaches beyond what was looked at
    p.fact(zint(add(z.f['cin'], z.left())) <= zint(c.m.n))
    o.f['_cbr'] = p.fresh_int('cbr')
    o.f['_cwe'] = add(z.f['cin'], z.left())
    o.f['_cws'] = p.fresh_int('cws')
    o.f['_br'] = p.fresh_nat('br')
    o.f['_phi'] = phi
    if buffered:
        bl = p.fresh_nat('buflen')
        off = p.fresh_nat('bufpos')
        p.fact(bl <= zint(z.f['pout']))
        # the buffer holds the plain bytes that were inflated but not delivered
        p.fact(off <= zint(z.f['pout']) - bl)
        start = conc(zint(z.f['pout']) - bl - off)
        b = Mem(slice_bytes(c.src.plain, start, conc(bl + off)), grows=True, label='BytesIO')
        b.f['pos'] = off
        o.f['_buf'], o.f['_buflen'] = b, bl
    else:
        o.f['_buf'] = None
        o.f['_buflen'] = 0 if s is None else p.fresh_nat('stale_buflen')
    return o


class Read(Contract):
    """read(n) delivers the next bytes of the stream: n of them (all up to the limit `_s` if
    n < 1), fewer only if the limit or the end of the stream is reached; when the end was reached
    before, it takes further compressed bytes in"""
    name = 'read'
    target = 'gitdb.stream:DecompressMemMapReader.read'
    models = Z_MODELS
    uses = ['read']
    cases = ['plain', 'buffered']
    timeout = 20
    invs = [
        Inv('consumed', 'indata:bytes', lambda c, d: Implies(c.exact0, eq(add(c.o.f['_cbr'], d.n), add(c.z.f['cin'], c.z.left())))),
        Inv('window', '', lambda c: eq(c.o.f['_cwe'], add(c.z.f['cin'], c.z.left()))),
        Inv('window within', '', lambda c: le(c.o.f['_cwe'], c.m.n)),
        Inv('window start', 'indata:bytes', lambda c, d: eq(c.o.f['_cws'], sub(c.o.f['_cwe'], d.n))),
        Inv('stream', '', lambda c: c.z.invariant()),
        Inv('output so far', 'dcompdat:bytes', lambda c, d: eq(c.z.f['pout'], add(c.pout0, as_sbytes(d).n))),
        Inv('output is limited', 'dcompdat:bytes size:int', lambda c, d, s: le(as_sbytes(d).n, s)),
        Inv('output bytes', 'dcompdat:bytes', lambda c, d: z3.Implies(z3.And(c.K >= 0, c.K < zint(as_sbytes(d).n)), zint(as_sbytes(d).get(c.K)) == plain_at(c, add(c.pout0, c.K)))),
        Inv('output bytes behind the buffer', 'dcompdat:bytes', lambda c, d: z3.Implies(z3.And(c.KB >= 0, c.KB < zint(as_sbytes(d).n)), zint(as_sbytes(d).get(c.KB)) == plain_at(c, add(c.pout0, c.KB)))),
        Inv('progress', 'indata:bytes', lambda c, d: Implies(c.e0, And(eq(c.z.f['cin'], c.cin0), eq(c.z.f['ul'], add(c.ul0, as_sbytes(d).n))))),
        Inv('input is consumed', 'indata:bytes dcompdat:bytes', lambda c, d, o: Implies(And(eq(as_sbytes(o).n, 0), Not(c.z.f['eof'])), eq(c.z.f['tl'], 0))),
        Inv('something is consumed', 'indata:bytes', lambda c, d: Or(c.e0, gt(c.z.f['cin'], c.cin0), eq(as_sbytes(d).n, 0), gt(c.z.f['pout'], c.pout0))),
        Inv('some input', 'indata:bytes', lambda c, d: Or(gt(as_sbytes(d).n, 0), eq(c.o.f['_cwe'], c.m.n))),
        Inv('terminates', '', lambda c: sub(add(c.m.n, 1), c.o.f['_cwe']), measure=True),
    ]

    def setup(self, c):
        p = c.p
        c.env.m = c.bytes('m')
        zl = c.nat('zl')
        c.env.plain = c.bytes('plain')
        p.fact(z3.And(zl >= 1, zl <= zint(c.m.n)))
        c.env.src = ZSource(c.m.base, 0, zl, c.plain)
        zsources(p).append(c.src)
        o = c.env.o = arbitrary_reader(c, c.nat('s'), c.case == 'buffered', bool(p.choose(2, 'header parsed')))
        p.assume(ge(o.f['_s'], o.f['_br']))
        z = c.env.z = o.f['_zip']
        c.env.K = c.nat('K')
        r = Rep(o)
        c.env.q0, c.env.br0, c.env.pout0, c.env.s0 = r.q(), o.f['_br'], z.f['pout'], o.f['_s']
        c.env.KB = conc(c.K - zint(r.buflen()))
        c.env.cin0, c.env.ul0, c.env.e0 = z.f['cin'], z.f['ul'], z.f['eof']
        c.env.n = c.int('n')
        w, _ = self.amount(c.n, c.s0, c.br0, 0)
        c.env.exact0 = r.exact(w)
        p.assume(r.sane(w))
        return [o, c.n], {}

    @staticmethod
    def amount(n, s, br, avail):
        want = conc(z3.If(zint(n) < 1, zint(s) - zint(br), z3.If(zint(n) <= zint(s) - zint(br), zint(n), zint(s) - zint(br))))
        return want, conc(z3.If(zint(want) <= zint(avail), zint(want), zint(avail)))

    def post(self, c, ret):
        p, o = c.p, c.o
        if not is_byteslike(ret):
            return [('bytes are returned', False)]
        ret = as_sbytes(ret)
        z = o.f['_zip']
        want, k = self.amount(c.n, c.s0, c.br0, sub(c.plain.n, c.q0))
        r = Rep(o)
        return [('the limit stays', eq(o.f['_s'], c.s0)),
                ('as many bytes as asked for, or all that is left', eq(ret.n, k)),
                ('the next bytes of the stream', z3.Implies(c.K < zint(k), zint(ret.get(c.K)) == plain_at(c, add(c.q0, c.K)))),
                ('the position advances by as much', eq(o.f['_br'], add(c.br0, k))),
                ('the state stays consistent', And(z is c.z, r.holds(p), eq(r.q(), add(c.q0, k)), le(o.f['_cwe'], c.m.n))),
                ('the compressed bytes are counted', Implies(c.exact0, eq(o.f['_cbr'], z.f['cin']))),
                ('reading at the end takes compressed bytes in', Implies(And(eq(c.q0, c.plain.n), gt(want, 0)),
                                                                       Or(And(Not(c.e0), gt(z.f['cin'], c.cin0)), And(c.e0, Or(gt(c.ul0, 0), gt(z.f['ul'], 0), eq(c.src.zl, c.m.n))))))]

    def call(self, ip, args, kw):
        """for callers: rep invariant before, the postcondition after"""
        p = ip.p
        o = args[0]
        n = args[1] if len(args) > 1 else kw.get('size', -1)
        if not isinstance(o, SObj):
            raise Unsupported('read of %r' % (o,))
        s = ip.getattr(o, '_s')
        r = Rep(o)
        z = r.zip
        m = o.f['_m']
        if z.src is None:
            d = slice_bytes(as_sbytes(m), 0, 1)
            z.bind(ip, d)
        src = z.src
        p.prove(And(r.holds(p), le(o.f['_cwe'], as_sbytes(m).n), le(src.zl, sub(as_sbytes(m).n, 0))), 'a reader is consistent when it is read', 'precondition')
        q0, br0 = r.q(), o.f['_br']
        want, k = self.amount(n, s, br0, sub(src.plain.n, q0))
        exact0 = r.exact(want)
        p.prove(r.sane(want), 'nothing is read beyond the end', 'precondition')
        if any(fr.func is self.resolve() for fr in ip.frames):
            c = ip.run.ctx
            w0, _ = self.amount(c.n, c.s0, c.br0, 0) if hasattr(c.env, 'br0') else (None, None)
            if w0 is not None:
                p.prove(And(ge(want, 0), lt(want, w0)), 'a recursive read asks for less', 'termination')
        k0, c0, u0, e0 = z.f['pout'], z.f['cin'], z.f['ul'], z.f['eof']
        if not p.decide(gt(want, 0), 'anything to read'):
            return b''
        z.setf('cin', p.fresh_nat('cin'))
        z.setf('pout', p.fresh_nat('pout'))
        z.setf('eof', p.fresh_bool('eof'))
        z.setf('tl', p.fresh_nat('tail'))
        z.setf('ul', p.fresh_nat('unused'))
        p.fact(z.invariant())
        end = add(q0, k)
        had = r.buflen()
        b = o.f['_buf']
        if b is not None and p.decide(lt(k, had), 'buffer lasts'):
            p.fact(zint(z.f['pout']) == zint(k0))
            o.setf('_buflen', sub(had, k))
            nb = Mem(b.data, grows=True, label='BytesIO')
            nb.f['pos'] = add(b.f['pos'], k)
            o.setf('_buf', nb)
        else:
            p.fact(zint(z.f['pout']) == zint(end))
            o.setf('_buf', None)
            o.setf('_buflen', 0)
        p.fact(z3.And(zint(z.f['cin']) >= zint(c0), zint(add(z.f['cin'], z.left())) <= zint(as_sbytes(m).n)))
        p.fact(z3.Implies(zint(q0) == zint(src.plain.n), z3.Or(z3.And(z3.Not(zbool(e0)), zint(z.f['cin']) > zint(c0)),
                                                             z3.And(zbool(e0), z3.Or(zint(u0) > 0, zint(z.f['ul']) > 0, zint(src.zl) == zint(as_sbytes(m).n))))))
        cbr = p.fresh_int('cbr')
        p.fact(Implies(exact0, eq(cbr, z.f['cin'])))
        o.setf('_cbr', cbr)
        o.setf('_cwe', add(z.f['cin'], z.left()))
        o.setf('_cws', p.fresh_int('cws'))
        o.setf('_br', add(br0, k))
        return slice_bytes(src.plain, q0, k)


def fresh_state(ip, o, H, br):
    """any state in which br bytes behind a header of H bytes were delivered"""
    p = ip.p
    z = o.f['_zip']
    z.setf('cin', p.fresh_nat('cin'))
    z.setf('pout', p.fresh_nat('pout'))
    z.setf('eof', p.fresh_bool('eof'))
    z.setf('tl', p.fresh_nat('tail'))
    z.setf('ul', p.fresh_nat('unused'))
    p.fact(z.invariant())
    q = add(H, br)
    b = o.f['_buf']
    if b is not None and p.choose(2, 'buffer'):
        bl = sub(z.f['pout'], q)
        p.assume(ge(bl, 0))
        nb = Mem(slice_bytes(z.src.plain, q, bl), grows=True, label='BytesIO')
        o.setf('_buf', nb)
        o.setf('_buflen', bl)
    else:
        p.fact(zint(z.f['pout']) == zint(q))
        o.setf('_buf', None)
        o.setf('_buflen', 0)
    end = add(z.f['cin'], z.left())
    p.fact(zint(end) <= zint(as_sbytes(o.f['_m']).n))
    o.setf('_cbr', p.fresh_int('cbr'))
    o.setf('_cwe', end)
    o.setf('_cws', p.fresh_int('cws'))
    o.setf('_br', br)


class InflateView:
    """an inflating reader as a source of stream_copy: what C04.history shows of its reads"""
    fails = ()

    def __init__(self, o, H, S):
        self.o, self.H, self.S = o, H, S
        self.content = slice_bytes(o.f['_zip'].src.plain, H, S)

    @property
    def f(self):
        return {'pos': self.o.f['_br'], 'size': self.S}

    def left(self):
        return sub(self.S, self.o.f['_br'])

    def setf(self, k, v):
        if k != 'pos':
            return
        ip = Path.cur.ghost['ip']
        o, p = self.o, ip.p
        counted = concb(eq(o.f['_cbr'], o.f['_zip'].f['cin']))
        fresh_state(ip, o, self.H, v)
        p.fact(Implies(counted, eq(o.f['_cbr'], o.f['_zip'].f['cin'])))


def inflating(ip, o):
    """the view of a reader whose state is as reads and rewinds leave it, or None"""
    if not isinstance(o, SObj) or o.cls is not DR:
        return None
    p = ip.p
    p.ghost['ip'] = ip
    S = ip.getattr(o, '_s')
    z = o.f['_zip']
    m = as_sbytes(o.f['_m'])
    if z.src is None:
        z.bind(ip, slice_bytes(m, 0, 1))
    r = Rep(o)
    H = conc(z3.simplify(zint(sub(z.src.plain.n, S))))
    ok = And(r.holds(p), le(o.f['_cwe'], m.n), le(z.src.zl, m.n), eq(add(H, o.f['_br']), r.q()), le(o.f['_br'], S))
    p.prove(ok, 'the reader is at its position in the content', 'precondition')
    return InflateView(o, H, S)


READ = Read()


def _view(read):
    from pyvc.interp import BoundM
    if read.func is DR.__dict__.get('read') and isinstance(read.self_, SObj):
        return inflating(Path.cur.ghost['ip'], read.self_)
    return None


VIEWS.append(_view)
