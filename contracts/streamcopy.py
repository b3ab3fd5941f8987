"""gitdb.fun.stream_copy: shared by several properties"""
from .common import *
from .iomodels import *


class StreamCopy(Contract):
    """copies min(size, rest of the source) bytes, in order, and returns their number"""
    name = 'stream_copy'
    target = 'gitdb.fun:stream_copy'
    cases = ['working', 'failing']
    invs = [
        Inv('copied so far', 'dbw:int', lambda c, d: And(le(0, d), le(d, c.n), eq(c.src.f['pos'], add(c.pos0, d)), eq(c.sink.out.n, d))),
        Inv('more to copy', 'dbw:int', lambda c, d: Or(lt(d, c.n), And(eq(c.n, 0), eq(d, 0)), lt(d, c.size))),
        Inv('finished', 'f:bool dbw:int', lambda c, f, d: c.flag(f, d)),
        Inv('going on', 'f:bool dbw:int', lambda c, f, d: c.flag(Not(f), d)),
        Inv('copied bytes', '', lambda c: z3.Implies(z3.And(c.K >= 0, c.K < zint(c.sink.out.n)), zint(c.sink.out.get(c.K)) == zint(c.src.content.get(add(c.pos0, c.K))))),
        Inv('terminates', 'dbw:int', lambda c, d: sub(add(c.n, 1), d), measure=True),
        Inv('terminates when finished', 'f:bool dbw:int', lambda c, f, d: add(sub(c.n, d), Ite(f, 0, 1)), measure=True),
        Inv('terminates when not going on', 'f:bool dbw:int', lambda c, f, d: add(sub(c.n, d), Ite(f, 1, 0)), measure=True),
    ]

    def setup(self, c):
        p = c.p
        content = c.bytes('content')
        c.env.pos0 = c.nat('pos0')
        c.assume(c.pos0 <= content.n)
        c.env.src = Reader(content)
        c.src.f['pos'] = c.pos0
        c.env.sink = Sink()
        if c.case == 'failing':
            c.src.fails = c.sink.fails = (OSError, KeyboardInterrupt)
        c.env.size, c.env.cs = c.nat('size'), c.int('chunk_size')
        c.assume(c.cs >= 1)
        left = sub(content.n, c.pos0)
        c.assume(z3.Implies(c.size == 0, zint(left) == 0))
        c.env.n = conc(z3.If(c.size <= left, c.size, zint(left)))
        c.env.K = c.nat('K')
        c.env.flag = lambda f, d: And(Implies(f, eq(d, c.n)), Or(f, lt(d, c.n), And(eq(c.n, 0), eq(d, 0)), lt(d, c.size)))
        return [ModelM(c.src, 'read'), ModelM(c.sink, 'write'), c.size, c.cs], {}

    def post(self, c, ret):
        if not is_int(ret):
            return [('returns the number of bytes copied', False)]
        return [('returns the number of bytes copied', eq(ret, c.n)),
                ('everything up to the size or the end is written', eq(c.sink.out.n, c.n)),
                ('the source is advanced by as much', eq(c.src.f['pos'], add(c.pos0, c.n))),
                ('the bytes written are the bytes read', z3.Implies(c.K < zint(c.n), zint(c.sink.out.get(c.K)) == zint(c.src.content.get(add(c.pos0, c.K)))))]

    def exc(self, c, e):
        return [('an error only if reading or writing fails', c.src.f.get('failed') is True or c.sink.f.get('failed') is True),
                ('the error is passed on', is_exc(e, OSError, KeyboardInterrupt))]

    def call(self, ip, args, kw):
        names = ['read', 'write', 'size', 'chunk_size']
        a = dict(zip(names, args))
        a.update(kw)
        p = ip.p
        src = read_source(a['read'])
        if src is None:
            raise Unsupported('stream_copy from %r' % (a['read'],))
        p.prove(ge(a['chunk_size'], 1), 'stream_copy is given a chunk size of at least 1', 'precondition')
        size = a['size']
        p.prove(ge(size, 0), 'stream_copy is given a size that is not negative', 'precondition')
        left = src.left()
        hook = getattr(src, 'on_copy', None)
        if hook:
            hook(ip, a)
        if p.decide(eq(size, 0), 'copy of nothing'):
            p.prove(eq(left, 0), 'a copy of 0 bytes is only asked of an empty stream', 'precondition')
        k = size if p.decide(le(size, left), 'source has enough') else left
        if src.fails and p.choose(2, 'the source fails'):
            # after some of the bytes
            some = p.fresh_nat('copied')
            p.fact(some <= zint(k))
            ip.call(a['write'], [slice_bytes(src.content, src.f['pos'], some)], {})
            fail_now = p.choose(len(src.fails), 'error')
            src.setf('failed', True)
            ip.throw(src.fails[fail_now], 5, 'injected')
        data = slice_bytes(src.content, src.f['pos'], k)
        src.setf('pos', add(src.f['pos'], k))
        ip.call(a['write'], [data], {})
        return k


from pyvc.interp import ModelM
STREAM_COPY = StreamCopy()
