"""Models of smmap (assumed contract): a cursor over a file gives access to all its bytes.
Files are assumed to fit into one mapping window (1 GiB), as the code does for indices."""
import array
import sys
import z3
from .common import *
from .iomodels import *


class Cursor(Model):
    """smmap.WindowCursor"""

    def __init__(self, data, label='cursor'):
        super().__init__(label)
        self.data = as_sbytes(data)
        self.f['ofs'] = None

    def m_use_region(self, ip, offset=0, size=0, flags=0):
        self.setf('ofs', offset)
        return self

    def m_is_valid(self, ip):
        return True

    def m_file_size(self, ip):
        return self.data.n

    def m_map(self, ip):
        if self.f['ofs'] is None:
            ip.throw(AttributeError, "'NoneType' object has no attribute 'map'")
        return self.data

    def m_buffer(self, ip):
        o = self.f['ofs']
        if o is None:
            ip.throw(AttributeError, 'no region')
        if not ip.p.decide(And(ge(o, 0), le(o, self.data.n)), 'region within the file'):
            ip.throw(ValueError, 'offset beyond the end of the file')
        r = slice_bytes(self.data, o, sub(self.data.n, o))
        r.kind = 'memoryview'
        return r

    def m_unuse_region(self, ip):
        return None


class Mman(Model):
    """smmap.SlidingWindowMapManager; `files`: path value -> content"""

    def __init__(self, lookup):
        super().__init__('mman')
        self.lookup = lookup

    def m_make_cursor(self, ip, path):
        d = self.lookup(ip, path)
        if d is None:
            ip.throw(OSError, 2, 'No such file')
        return Cursor(d)

    def m_window_size(self, ip):
        return 1 << 30

    def m_force_map_handle_removal_win(self, ip, path):
        return 0

    def m_collect(self, ip):
        return 0


class U32Array(Model):
    """array.array('I'): 32 bit unsigned native integers"""
    cls = array.array

    def __init__(self):
        super().__init__('array')
        self.f['v'] = Seq(0, lambda i: z3.IntVal(0))

    @property
    def v(self):
        return self.f['v']

    def m_frombytes(self, ip, d):
        d = as_sbytes(d)
        n = zint(d.n)
        k = z3.simplify(n / 4)
        if not ip.p.decide(conc(n % 4) == 0 if isinstance(conc(n % 4), int) else n % 4 == 0, 'whole items'):
            ip.throw(ValueError, 'bytes length not a multiple of item size')
        old = self.v
        if not (isinstance(conc(old.n), int) and conc(old.n) == 0):
            raise Unsupported('array appended to')
        self.setf('v', ('raw', d, k))

    def m_fromstring(self, ip, d):
        return self.m_frombytes(ip, d)

    def m_byteswap(self, ip):
        v = self.f['v']
        self.setf('swapped', not self.f.get('swapped', False))

    def seq(self):
        v = self.f['v']
        if isinstance(v, Seq):
            return v
        _, d, k = v
        little = (sys.byteorder == 'little') != self.f.get('swapped', False)

        def elem(i):
            r = 0
            for j in (range(3, -1, -1) if little else range(4)):
                r = add(mul(r, 256), d.get(add(mul(i, 4), j)))
            return r
        return Seq(k, elem)

    def py_iter(self, ip):
        return self.seq()

    def py_len(self, ip):
        return self.seq().n

    def py_getitem(self, ip, i):
        return ip.getitem(self.seq(), i)

    def truth(self, ip):
        return gt(self.seq().n, 0)


def m_array(ip, code, init=None):
    if code not in ('I',) or init is not None:
        raise Unsupported('array kind')
    return U32Array()


PACK_MODELS = dict(IO_MODELS)
PACK_MODELS[array.array] = m_array
