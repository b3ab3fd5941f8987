"""Models of the environment: anonymous memory maps, BytesIO, streams and sinks.
These are the assumed contracts of the standard library (trusted base)."""
import importlib
import io
import mmap
import z3
from .common import *
from pyvc import builtin_models as bm


def region_key(s):
    """identity of a byte string as a region of an array"""
    s = as_sbytes(s)
    if s.base is None:
        return None
    return s.base.name, z3.simplify(zint(s.off)).sexpr(), z3.simplify(zint(s.n)).sexpr()


def same_region(p, a, b):
    """condition: byte strings a and b are the same region of the same array"""
    a, b = as_sbytes(a), as_sbytes(b)
    if concb(eq(a.n, b.n)) is False:
        return False
    if a.tag is not None and b.tag is not None:
        return a.tag == b.tag
    if a.base is not None and a.base is b.base:
        return Or(And(eq(a.n, 0), eq(b.n, 0)), And(eq(a.off, b.off), eq(a.n, b.n)))
    if concb(eq(a.n, 0)) is True or concb(eq(b.n, 0)) is True:
        return eq(a.n, b.n)
    # an empty region is any empty byte string
    return And(eq(a.n, 0), eq(b.n, 0))


def same_bytes(p, a, b):
    """obligation (never an assumption): a and b hold the same bytes"""
    a, b = as_sbytes(a), as_sbytes(b)
    r = same_region(p, a, b)
    if concb(r) is True or p.entails(r):
        return True
    if concb(eq(a.n, b.n)) is False:
        return False
    k = p.fresh_nat('anyindex')
    return And(eq(a.n, b.n), Implies(lt(k, a.n), eq(a.get(k), b.get(k))))


class Mem(Model):
    """random access memory with a position: mmap (fixed size) or BytesIO (grows on write)"""

    def __init__(self, data, grows=False, label='mem', readonly=False):
        super().__init__(label)
        self.f['data'] = data
        self.f['pos'] = 0
        self.grows, self.readonly = grows, readonly
        self.cls = io.BytesIO if grows else mmap.mmap

    @property
    def data(self):
        return as_sbytes(self.f['data'])

    def as_sbytes(self):
        if self.grows:
            raise Unsupported('BytesIO as bytes')
        return self.data

    def m_write(self, ip, d):
        if self.readonly:
            ip.throw(TypeError, "mmap can't modify a readonly memory map")
        d = as_sbytes(d)
        cur, pos = self.data, self.f['pos']
        end = add(pos, d.n)
        if not ip.p.decide(le(end, cur.n), 'write fits'):
            if not self.grows:
                ip.throw(ValueError, 'data out of range')
            if not ip.p.decide(le(pos, cur.n), 'gap'):
                raise Unsupported('write beyond the end of BytesIO')
            self.setf('data', concat(slice_bytes(cur, 0, pos), d))
        else:
            if not (concb(eq(d.n, 0)) is True):
                self.setf('data', concat(concat(slice_bytes(cur, 0, pos), d), slice_bytes(cur, end, sub(cur.n, end))))
        self.setf('pos', end)
        return d.n

    def m_read(self, ip, n=None):
        cur, pos = self.data, self.f['pos']
        left = sub(cur.n, pos)
        if not ip.p.decide(ge(left, 0), 'pos in range'):
            return b''
        if n is None or ip.p.decide(lt(n, 0), 'read all'):
            k = left
        else:
            k = n if ip.p.decide(le(n, left), 'enough') else left
        r = slice_bytes(cur, pos, k)
        self.setf('pos', add(pos, k))
        return r

    def m_seek(self, ip, off, whence=0):
        if whence != 0:
            raise Unsupported('seek whence')
        if not ip.p.decide(ge(off, 0), 'seek'):
            ip.throw(ValueError, 'negative seek')
        if not self.grows and not ip.p.decide(le(off, self.data.n), 'seek in range'):
            ip.throw(ValueError, 'seek out of range')
        self.setf('pos', off)
        return off

    def m_tell(self, ip):
        return self.f['pos']

    def m_getvalue(self, ip):
        if not self.grows:
            ip.throw(AttributeError, 'getvalue')
        return self.data

    def m_getbuffer(self, ip):
        return self.m_getvalue(ip)

    def m_size(self, ip):
        return self.data.n

    def m_close(self, ip):
        self.setf('closed', True)

    def m_flush(self, ip):
        return None

    def m_truncate(self, ip, n=None):
        n = self.f['pos'] if n is None else n
        if ip.p.decide(le(n, self.data.n), 'truncate'):
            self.setf('data', slice_bytes(self.data, 0, n))
        return n

    def py_len(self, ip):
        if self.grows:
            ip.throw(TypeError, 'object of type BytesIO has no len()')
        return self.data.n

    def py_getitem(self, ip, i):
        if self.grows:
            ip.throw(TypeError, 'BytesIO object is not subscriptable')
        return ip.getitem(self.data, i)

    def py_slice(self, ip, a, b):
        if self.grows:
            ip.throw(TypeError, 'BytesIO object is not subscriptable')
        return ip.getitem(self.data, slice(a, b))

    def truth(self, ip):
        return True if self.grows else ne(self.data.n, 0)


def m_mmap(ip, fd, length, *a, **kw):
    if not (isinstance(fd, int) and fd == -1):
        raise Unsupported('mmap of a file')
    if not ip.p.decide(ge(length, 0), 'mmap length'):
        ip.throw(OverflowError, 'memory mapped length must be positive')
    if not ip.p.decide(gt(length, 0), 'mmap length 0'):
        ip.throw(ValueError, 'cannot mmap an empty file')
    fails = ip.run.case_get('mmap_fails')
    if isinstance(fails, list):
        # which of the first calls fail; any of the others may
        n = ip.p.ghost['mmaps'] = ip.p.ghost.get('mmaps', 0) + 1
        fails = fails[n - 1] if n <= len(fails) else ip.p.choose(2, 'mmap fails')
    elif fails:
        fails = ip.p.choose(2, 'mmap fails')
    if fails:
        ip.throw(OSError, 12, 'Cannot allocate memory')
    return Mem(SBytes(length, lambda i: z3.IntVal(0)), label='mmap')


def m_bytesio(ip, data=b''):
    if isinstance(data, str):
        ip.throw(TypeError, 'a bytes-like object is required')
    return Mem(data, grows=True, label='BytesIO')


IO_MODELS = {mmap.mmap: m_mmap, io.BytesIO: m_bytesio}


def fail(ip, o, what):
    """raise one of the errors this stream may show"""
    k = ip.p.choose(1 + len(o.fails), what + ' fails') if o.fails else 0
    if k:
        o.setf('failed', True)
        ip.throw(o.fails[k - 1], 5, 'injected')


class Reader(Model):
    """a stream that delivers a region piece by piece: read(n) returns fewer than n bytes only
    at the end; `announced` is the size it claims (equal to what it has unless stated)"""
    fails = ()

    def __init__(self, content, label='stream', announced=None, **attrs):
        super().__init__(label)
        self.content = as_sbytes(content)
        self.f['pos'] = 0
        self.f['size'] = self.content.n if announced is None else announced
        for k, v in attrs.items():
            self.f[k] = v

    def left(self):
        return sub(self.content.n, self.f['pos'])

    def m_read(self, ip, n=-1):
        p = ip.p
        pos, left = self.f['pos'], self.left()
        fail(ip, self, 'read')
        if n is None or p.decide(lt(n, 0), 'read rest'):
            k = left
        elif p.decide(eq(n, 0), 'read 0'):
            # streams of this code base deliver everything or nothing when asked for 0 bytes
            if p.decide(eq(left, 0), 'empty'):
                return b''
            if p.choose(2, 'read(0)') == 0:
                return b''
            k = left
        else:
            k = n if p.decide(le(n, left), 'enough left') else left
        r = slice_bytes(self.content, pos, k)
        self.setf('pos', add(pos, k))
        return r


class Sink(Model):
    """something that accepts bytes; `f['out']` is everything accepted so far"""
    fails = ()

    def __init__(self, label='sink', ret='len', out=b''):
        super().__init__(label)
        self.f['out'] = out
        self.ret = ret

    @property
    def out(self):
        return as_sbytes(self.f['out'])

    def m_write(self, ip, d):
        d = as_sbytes(d)
        fail(ip, self, 'write')
        self.setf('out', concat(self.f['out'], d))
        return d.n if self.ret == 'len' else None


VIEWS = []


def read_source(read):
    """the Reader behind a read method, or None; the streams of gitdb.base pass read on to the
    stream they hold (contract base.read)"""
    from pyvc.interp import ModelM, BoundM
    for _ in range(4):
        if isinstance(read, ModelM) and isinstance(read.obj, Reader) and read.name == 'read':
            return read.obj
        if isinstance(read, BoundM):
            for v in VIEWS:
                r = v(read)
                if r is not None:
                    return r
        o = read.self_ if isinstance(read, BoundM) and read.func in FORWARDS else None
        if o is None or o.items is None:
            return None
        it = o.items.v if isinstance(o.items, SList) else o.items
        s = it[FORWARDS[read.func]]
        if isinstance(s, SObj):
            f = s.cls.__dict__.get('read')
            if f is None:
                return None
            read = BoundM(f, s)
            continue
        if not isinstance(s, Reader):
            return None
        read = ModelM(s, 'read')
    return None


FORWARDS = {}


class ForwardRead(Contract):
    """read of the streams in gitdb.base asks the stream they hold for as much, and returns that"""
    name = 'base.read'
    target = 'gitdb.base:IStream.read'
    cases = ['IStream', 'OStream', 'OPackStream', 'ODeltaPackStream']

    def setup(self, c):
        gb = importlib.import_module('gitdb.base')
        c.env.src = Reader(c.bytes('content'))
        c.env.n = c.int('n')
        c.env.asked = []
        src = c.src
        inner = src.m_read

        def m_read(ip, *a, **k):
            c.asked.append(a[0] if len(a) == 1 and not k else k.get('size', k.get('n')) if not a and len(k) <= 1 else 'x')
            c.env.got = c.p.fresh_bytes('got')
            return c.got
        src.m_read = m_read
        return [], {}

    def execute(self, c, args, kw):
        gb = importlib.import_module('gitdb.base')
        cls = getattr(gb, c.case)
        t = {'IStream': [b'blob', c.src.content.n, c.src], 'OStream': [b'x' * 20, b'blob', c.src.content.n, c.src],
             'OPackStream': [12, 3, c.src.content.n, c.src], 'ODeltaPackStream': [12, 6, c.src.content.n, 5, c.src]}[c.case]
        o = c.ip.call(cls, t, {})
        c.env.all = bool(c.p.choose(2, 'no size'))
        return c.ip.call(c.ip.getattr(o, 'read'), [] if c.all else [c.n], {})

    def post(self, c, ret):
        if len(c.asked) != 1:
            return [('the stream is asked once', False)]
        a = c.asked[0]
        ok = a is None or is_int(a) and c.p.entails(lt(a, 0)) if c.all else is_int(a) and eq(a, c.n)
        return [('the same amount is asked for', ok), ('the same bytes are returned', ret is c.got)]


def _forwards():
    gb = importlib.import_module('gitdb.base')
    for cls, k in ((gb.IStream, 3), (gb.OStream, 3), (gb.OPackStream, 3), (gb.ODeltaPackStream, 4)):
        f = cls.__dict__.get('read')
        if f is not None:
            FORWARDS[f] = k


_forwards()
FORWARD_READ = ForwardRead()
