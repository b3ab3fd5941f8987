"""Models of zlib.compressobj and of file descriptors (assumed contracts).

compressobj: what it returned so far, in order, is a prefix of one zlib stream of what it was
fed; after flush() it is the complete stream, which inflates to exactly what was fed.
os.write: takes a prefix of what it is given, possibly not all of it, or fails."""
import os
import zlib
from .common import *
from .iomodels import *
from .hashmodels import *
from pyvc.interp import ModelM


class CompressObj(Model):
    def __init__(self):
        super().__init__('compressobj')
        self.f.update(fed=b'', out=b'', flushed=False)

    @property
    def fed(self):
        return as_sbytes(self.f['fed'])

    @property
    def out(self):
        return as_sbytes(self.f['out'])

    def m_compress(self, ip, d):
        if self.f['flushed'] is not False:
            ip.throw(zlib.error, 'inconsistent stream state')
        self.setf('fed', concat(self.fed, as_sbytes(d)))
        r = ip.p.fresh_bytes('deflated')
        self.setf('out', concat(self.out, r))
        return r

    def m_flush(self, ip, mode=4):
        if mode != 4:
            raise Unsupported('flush mode')
        if self.f['flushed'] is not False:
            ip.throw(zlib.error, 'inconsistent stream state')
        self.setf('flushed', True)
        r = ip.p.fresh_bytes('deflated')
        self.setf('out', concat(self.out, r))
        return r


def m_compressobj(ip, *a, **kw):
    z = CompressObj()
    ip.p.ghost.setdefault('compressobjs', []).append(z)
    return z


class Fd(Model):
    """an open file descriptor; `may`: which failures its operations show"""
    cls = int

    def __init__(self, may=('short', 'fail'), label='fd'):
        super().__init__(label)
        self.may = may
        self.f.update(out=b'', open=True, short=False, failed=False)

    @property
    def out(self):
        return as_sbytes(self.f['out'])

    def py_eq(self, ip, o):
        return o is self


def m_os_write(ip, fd, d):
    if not isinstance(fd, Fd):
        raise Unsupported('write to %r' % (fd,))
    if fd.f['open'] is not True:
        ip.throw(OSError, 9, 'Bad file descriptor')
    d = as_sbytes(d)
    p = ip.p
    if 'fail' in fd.may and p.choose(2, 'write fails'):
        fd.setf('failed', True)
        ip.throw(OSError, 28, 'No space left on device')
    n = d.n
    if 'short' in fd.may and p.choose(2, 'short write'):
        p.assume(gt(n, 0))
        k = p.fresh_nat('taken')
        p.fact(k < zint(n))
        fd.setf('short', True)
        fd.setf('out', concat(fd.out, slice_bytes(d, 0, k)))
        return k
    fd.setf('out', concat(fd.out, d))
    return n


def m_os_close(ip, fd):
    if not isinstance(fd, Fd):
        raise Unsupported('close of %r' % (fd,))
    if fd.f['open'] is not True:
        ip.throw(OSError, 9, 'Bad file descriptor')
    fd.setf('open', False)
    return None


FD_MODELS = {**IO_MODELS, **HASH_MODELS, zlib.compressobj: m_compressobj, os.write: m_os_write, os.close: m_os_close}
