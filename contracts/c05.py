"""Compressed extents are exact; scanning a pack visits each object once"""
from .entries import *
from .streamcopy import STREAM_COPY
from . import iomodels


class CompressedBytes(Contract):
    """once everything was read, the length of the zlib stream; the state stays good"""
    name = 'compressed_bytes_read'
    target = 'gitdb.stream:DecompressMemMapReader.compressed_bytes_read'
    models = Z_MODELS
    uses = ['read']
    cases = ['header', 'plain']
    timeout = 20
    invs = [
        Inv('scrubbing', '', lambda c: And(Rep(c.o).holds(c.p), eq(Rep(c.o).q(), c.plain.n), eq(c.o.f['_br'], 0), le(c.o.f['_cwe'], c.m.n))),
        Inv('limit', '', lambda c: And(ge(c.o.f['_s'], 1), le(c.o.f['_s'], c.plain.n) if False else True)),
        Inv('counted', '', lambda c: eq(c.o.f['_cbr'], c.z.f['cin'])),
        Inv('terminates', '', lambda c: add(mul(2, sub(c.zl, c.z.f['cin'])), Ite(gt(c.z.f['ul'], 0), 0, 1)), measure=True),
    ]

    def setup(self, c):
        p = c.p
        reached(c, c.case == 'header')
        o = c.o
        c.env.z = o.f['_zip']
        p.fact(eq(o.f['_cbr'], c.z.f['cin']))
        return [o], {}

    def post(self, c, ret):
        o = c.o
        done = eq(c.br0, c.S)
        return [('when all was read, the length of the compressed data', Implies(done, eq(ret, c.zl)) if is_int(ret) else False),
                ('the compressed bytes are counted', eq(o.f['_cbr'], Rep(o).zip.f['cin']))] + at_content(c, o, c.br0)

    def call(self, ip, args, kw):
        p = ip.p
        o = args[0]
        v = inflating(ip, o)
        if v is None:
            raise Unsupported('compressed bytes of %r' % (o,))
        z, br = o.f['_zip'], o.f['_br']
        p.prove(eq(o.f['_cbr'], z.f['cin']), 'the compressed bytes are counted', 'precondition')
        s0 = o.f['_s']
        fresh_state(ip, o, v.H, br)
        o.setf('_cbr', z.f['cin'])
        o.setf('_s', s0)
        if p.decide(eq(br, s0), 'all was read'):
            p.fact(zint(z.f['cin']) == zint(z.src.zl))
            return z.src.zl
        return p.fresh_nat('some')


class CountHistory(Contract):
    """reads and rewinds keep count of the compressed bytes"""
    name = 'C05.counting'
    target = 'gitdb.stream:DecompressMemMapReader.seek'
    models = Z_MODELS
    uses = ['read']
    cases = ['%s %s' % (h, o) for h in ('header', 'plain') for o in ('read', 'rewind read', 'new')]

    def setup(self, c):
        h, c.env.op = c.case.split(' ', 1)
        if c.op == 'new':
            (header_source if h == 'header' else plain_source)(c)
        else:
            reached(c, h == 'header')
            c.p.fact(eq(c.o.f['_cbr'], c.o.f['_zip'].f['cin']))
        c.env.n = c.int('n')
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip
        if c.op == 'new':
            if c.case.startswith('header'):
                r = tup(ip.call(ip.getattr(DR, 'new'), [c.m], {}), 3)
                c.env.o = r[2] if r else None
            else:
                c.env.o = ip.call(DR, [c.m, False, c.S], {})
            return
        o = c.o
        if 'rewind' in c.op:
            ip.call(ip.getattr(o, 'seek'), [0], {})
        ip.call(ip.getattr(o, 'read'), [c.n], {})

    def post(self, c, ret):
        if not isinstance(c.o, SObj):
            return [('a reader', False)]
        return [('the compressed bytes are counted', eq(c.o.f['_cbr'], c.o.f['_zip'].f['cin']))]


class Scan(Contract):
    """every object once, in order, at its offset, with its content"""
    name = 'C05.scan'
    target = 'gitdb.pack:PackFile.stream_iter'
    models = ALL_MODELS
    uses = ['pack_object_at', 'compressed_bytes_read', 'stream_copy', 'read']
    yield_contract = True
    cases = ['from the start', 'from an object']
    invs = [
        Inv('next object', 'cur_offset:int', lambda c, o: And(eq(o, c.OFF(c.seen())), le(c.seen(), c.n), ge(c.seen(), c.i0), c.unfold(c.seen()))),
        Inv('terminates', '', lambda c: sub(c.n, c.seen()), measure=True),
    ]

    def setup(self, c):
        p = c.p
        pk = c.env.pk = PackGhost(c)
        n = c.env.n = pk.count
        OFF = c.env.OFF0 = F('object_offset', I, I)
        c.env.OFF = lambda i: OFF(zint(i))
        g = c.env.g = Model('progress')
        c.env.seen = lambda: g.f['i']

        def unfold(i):
            i = zint(i)
            p.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(ENTRY(OFF(i)), OFF(i + 1) == pk.data_at(OFF(i)) + ZL(OFF(i)), OFF(i) < zint(pk.end))))
            p.fact(z3.Implies(i == n, OFF(i) == zint(pk.end)))
            p.fact(z3.Implies(i + 1 == n, OFF(i + 1) == zint(pk.end)))
            return True
        c.env.unfold = unfold
        p.fact(OFF(0) == 12)
        if c.case == 'from the start':
            c.env.i0 = 0
            start = [0] if p.choose(2, 'explicit') else []
        else:
            c.env.i0 = c.nat('first')
            p.assume(c.i0 < n)
            start = [OFF(c.i0)]
        unfold(c.i0)
        pk.entry(OFF(zint(c.i0)))
        g.f['i'] = c.i0
        o = pack_file(c, pk)
        return [o] + start, {}

    def execute(self, c, args, kw):
        ip = c.ip
        if c.p.choose(2, 'used before'):
            ip.call(ip.getattr(args[0], 'size'), [], {})
        r = ip.call(ip.getattr(args[0], 'stream_iter'), args[1:], {})
        from pyvc.interp import CONSUMED
        return r is CONSUMED

    def on_yield(self, c, v):
        p, pk = c.p, c.pk
        i = c.seen()
        at = c.OFF(i)
        c.unfold(i)
        p.prove(lt(i, c.n), 'an object is yielded only as long as there are any', 'obligation')
        ok = isinstance(v, SObj) and issubclass(v.cls, (gb.OPackStream, gb.ODeltaPackStream))
        p.prove(ok, 'a stream is yielded', 'obligation')
        if ok:
            g = lambda nm: c.ip.getattr(v, nm)
            p.prove(And(eq(g('pack_offset'), at), eq(g('type_id'), TYPE(zint(at))), eq(g('size'), SIZE(zint(at)))), 'the object is the next one of the file', 'obligation')
            p.prove(And(*pk.stream_ok(g('stream'), at, 0)), 'its stream is at the start of its content', 'obligation')
        c.g.setf('i', add(i, 1))

    def post(self, c, ret):
        return [('the values are yielded', ret is True), ('every object was yielded', eq(c.seen(), c.n))]


CONTRACTS = [READ, CompressedBytes(), CountHistory(), PARSE, PACK_OBJECT_AT, STREAM_COPY, Scan()]
LEVEL = 'proof'
