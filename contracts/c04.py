"""An inflating stream delivers exactly the object's content piece by piece"""
from .headermodels import *
import gitdb.fun as gf


class Opened(Contract):
    """type and size are those of the header, the position is behind it"""
    name = 'C04.new'
    target = 'gitdb.stream:DecompressMemMapReader.new'
    models = Z_MODELS
    uses = ['read']

    def setup(self, c):
        header_source(c)
        return [DR, c.m], {}

    def post(self, c, ret):
        t = tup(ret, 3)
        if t is None or not isinstance(t[2], SObj) or not isinstance(t[2].f.get('_zip'), Decompress):
            return [('type, size and stream are returned', False)]
        typ, size, o = t
        return [('the type is that of the header', same_bytes(c.p, typ, c.typ) if is_byteslike(typ) else False),
                ('the size is that of the header', eq(size, c.S) if is_int(size) else False)] + at_content(c, o, 0) + [
                ('compressed bytes are counted', eq(o.f['_cbr'], Rep(o).zip.f['cin']))]


class Constructed(Contract):
    """a stream of known size without a header"""
    name = 'C04.init'
    target = 'gitdb.stream:DecompressMemMapReader.__init__'
    models = Z_MODELS

    def setup(self, c):
        plain_source(c)
        return [], {}

    def execute(self, c, args, kw):
        return c.ip.call(DR, [c.m, False, c.S], {})

    def post(self, c, o):
        if not isinstance(o, SObj):
            return [('a reader', False)]
        z = o.f.get('_zip')
        if isinstance(z, Decompress):
            z.src = c.src
        return at_content(c, o, 0) + [('compressed bytes are counted', eq(o.f['_cbr'], 0))]


class History(Contract):
    """in every state reachable by reads and rewinds, the next read returns the next bytes of
    the content; a rewind returns to its first byte"""
    name = 'C04.history'
    target = 'gitdb.stream:DecompressMemMapReader.seek'
    models = Z_MODELS
    uses = ['read']
    cases = ['%s %s' % (h, o) for h in ('header', 'plain') for o in ('read', 'rewind read', 'rewind size', 'rewind rewind read', 'rewind elsewhere', 'elsewhere')]

    def setup(self, c):
        h, c.env.op = c.case.split(' ', 1)
        c.env.header = h == 'header'
        reached(c, c.header, unread_header=False)
        c.env.n = c.int('n')
        c.env.K = c.nat('K')
        return [], {}

    def execute(self, c, args, kw):
        ip, o = c.ip, c.o
        seek = lambda *a: ip.call(ip.getattr(o, 'seek'), list(a), {})
        if c.op.startswith('rewind'):
            for _ in range(c.op.count('rewind')):
                seek(*([0] if c.p.choose(2, 'default whence') else [0, 0]))
            c.env.br0 = 0
        if c.op.endswith('elsewhere'):
            c.env.off = c.p.fresh_int('offset')
            wh = c.p.choose(3, 'whence')
            if wh == 0:
                c.p.assume(Not(eq(c.off, 0)))
            return seek(c.off, wh)
        if c.op.endswith('read'):
            return ip.call(ip.getattr(o, 'read'), [c.n], {})
        if c.op.endswith('size'):
            return ip.getattr(o, '_s')

    def post(self, c, ret):
        p, o = c.p, c.o
        if c.op.endswith('elsewhere'):
            return [('other positions are refused', False)]
        if c.op == 'rewind size':
            return [('the size is that of the content', eq(ret, c.S) if is_int(ret) else False)] + at_content(c, o, 0)
        if not is_byteslike(ret):
            return [('bytes are returned', False)]
        ret = as_sbytes(ret)
        left = sub(c.S, c.br0)
        k = conc(z3.If(z3.Or(zint(c.n) < 1, zint(c.n) > zint(left)), zint(left), zint(c.n)))
        return [('exactly as many bytes as asked for, or all that are left', eq(ret.n, k)),
                ('the next bytes of the content', z3.Implies(c.K < zint(k), zint(ret.get(c.K)) == plain_at(c, add(c.H, add(c.br0, c.K)))))
                ] + at_content(c, o, add(c.br0, k))

    def exc(self, c, e):
        ok = [('only other positions are refused', c.op.endswith('elsewhere') and is_exc(e, ValueError))]
        if c.op != 'elsewhere':
            # the next read shows where it is
            if not is_int(c.ip.getattr(c.o, '_s')):
                return [('the size is known', False)]
        return ok + [('a refused seek changes nothing', And(*at_content_conds(c, c.o, c.br0)))]

    def no_return(self, case):
        return case.endswith('elsewhere')


class LooseHeader(Contract):
    """type and size of a loose object are those of its header"""
    name = 'C04.loose_object_header_info'
    target = 'gitdb.fun:loose_object_header_info'
    models = Z_MODELS

    def setup(self, c):
        header_source(c)
        return [c.m], {}

    def post(self, c, ret):
        t = tup(ret, 2)
        if t is None:
            return [('type and size are returned', False)]
        return [('the type is that of the header', same_bytes(c.p, t[0], c.typ) if is_byteslike(t[0]) else False),
                ('the size is that of the header', eq(t[1], c.S) if is_int(t[1]) else False)]


CONTRACTS = [READ, Opened(), Constructed(), History(), LooseHeader()]
LEVEL = 'proof'
