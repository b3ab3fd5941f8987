"""C11: what a loose store leaves behind when something fails, and at every moment in between"""
import io
import os
import random
import resource
import shutil
import signal
import tempfile
from gitdb.base import IStream
from gitdb.db.loose import LooseObjectDB
from .inflate import *
from . import inflate
from .watch import Watch, fds, listing, content as content_of
from .c10 import path_of


class Stop(BaseException):
    pass


ERRORS = {'OSError': lambda: OSError(5, 'injected'), 'PermissionError': lambda: PermissionError(13, 'injected'), 'KeyboardInterrupt': KeyboardInterrupt, 'Stop': Stop,
          'MemoryError': MemoryError, 'ValueError': lambda: ValueError('injected'), 'FileExistsError': lambda: FileExistsError(17, 'injected'), 'FileNotFoundError': lambda: FileNotFoundError(2, 'injected')}


class Failing:
    """fails when asked for something beyond `at` bytes"""

    def __init__(self, data, at, err, on=None):
        self.b, self.at, self.err, self.on, self.failed = io.BytesIO(data), at, err, on, False

    def read(self, n=-1):
        if self.on:
            self.on('read', ())
        if self.at is not None:
            # all or nothing: fewer bytes than asked for would mean the end
            if n < 0 or self.b.tell() + n > self.at:
                self.failed = True
                raise ERRORS[self.err]()
        return self.b.read(n)


def store(n, kind, raw, exist, fault=None, err='OSError', other=3, salt=0, chunk=None):
    """fault: None | ['read', bytes] | ['event', index] (file system operation number `index`) |
    ['limit', bytes] (a file may not grow beyond this) | ['dirfile'] (a file where the directory
    belongs) | ['dirtarget'] (a directory where the file belongs) | ['late', index] (someone
    else stores the object before operation `index`)"""
    root = tempfile.mkdtemp(prefix='store')
    lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        db = LooseObjectDB(root)
        if chunk:
            db.stream_chunk_size = chunk
        for k in range(other):
            d = b'other %d %d' % (k, salt)
            db.store(IStream(b'blob', len(d), io.BytesIO(d)))
        data = inflate.content(n, kind, salt)
        typ = b'blob'
        full = typ + b' %d\0' % n + data
        sha = oid(typ, data)
        path = path_of(root, sha)
        packed = deflate(full, raw, salt) if raw is not None else None
        theirs = zlib.compress(full, 1) + b''
        if exist:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(b'what was there before' if exist == 2 else theirs)
            os.chmod(path, 0o444)
        fault = fault or ['none']
        if fault[0] == 'dirfile' and not os.path.isdir(os.path.dirname(path)):
            with open(os.path.dirname(path), 'wb') as f:
                f.write(b'x')
        if fault[0] == 'dirtarget':
            os.makedirs(path)
        before = {f: content_of(os.path.join(root, f)) for f in listing(root)}
        rel = os.path.relpath(path, root)
        late = [False]

        def whole(b, what):
            if packed is not None:
                assert b == packed, '%s: the object is not what was given' % what
                return
            o = zlib.decompressobj()
            try:
                out = o.decompress(b)
            except zlib.error as e:
                raise AssertionError('%s: a damaged object is visible (%s)' % (what, e)) from e
            assert o.eof and not o.unused_data and out == full, '%s: an incomplete object is visible' % what

        def check(what, end=False):
            for f, b in before.items():
                now = content_of(os.path.join(root, f))
                assert now == b, '%s: %s changed' % (what, f)
            names = [f for f in listing(root) if f not in before]
            if fault[0] != 'dirtarget' and rel not in before and rel in names:
                b = content_of(path)
                if not (late[0] and b == theirs):
                    whole(b, what)
            for f in names:
                if f == rel:
                    continue
                assert not end, '%s: %s is left behind' % (what, f)
                assert not (len(os.path.basename(f)) == 38 and len(os.path.basename(os.path.dirname(f))) == 2), '%s: %s looks like an object' % (what, f)
        count = [0]

        def watch(event, args):
            check('before %s %r' % (event, args))
            i = count[0]
            count[0] += 1
            if i == (fault[1] if len(fault) > 1 else None):
                if fault[0] == 'event' and event not in ('os.remove',):
                    raise ERRORS[err]()
                if fault[0] == 'late' and not os.path.exists(path) and (os.path.isdir(os.path.dirname(path)) or not os.path.exists(os.path.dirname(path))):
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, 'wb') as f:
                        f.write(theirs)
                    late[0] = True
        src = Failing(packed if raw is not None else data, fault[1] if fault[0] == 'read' else None, err, lambda e, a: check('while reading'))
        ist = IStream(typ, n, src, sha) if raw is not None else IStream(typ, n, src)
        fd0 = set(fds())
        raised = None
        try:
            if fault[0] == 'limit':
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], lim[1]))
            try:
                with Watch(watch):
                    db.store(ist)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        except AssertionError:
            raise
        except (Exception, KeyboardInterrupt, Stop) as e:
            raised = e
        check('after %r' % (raised,), True)
        if raised is None:
            assert not src.failed, 'a failing read goes unnoticed'
            assert ist.binsha == sha, 'id'
            if fault[0] != 'dirtarget':
                b = content_of(path)
                assert isinstance(b, bytes), 'the store succeeds but there is no object'
                if rel not in before and not (late[0] and b == theirs):
                    whole(b, 'afterwards')
        else:
            assert fault[0] != 'none', 'the store fails although nothing did: %r' % raised
        if fault[0] == 'limit' and fault[1] < (len(packed) if packed is not None else 8):
            assert raised is not None, 'nothing could be written but the store succeeds'
        if fault[0] in ('none', 'read', 'event') and raised is not None:
            # and the object can still be stored
            db = LooseObjectDB(root)
            db.store(IStream(typ, n, io.BytesIO(packed), sha) if raw is not None else IStream(typ, n, io.BytesIO(data)))
            check('after storing it again', True)
            assert isinstance(content_of(path), bytes), 'the object could not be stored after a failure'
        return count[0]
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        signal.signal(signal.SIGXFSZ, sig)
        shutil.rmtree(root, ignore_errors=True)


CHECKS = {'store': store}


def gen(env):
    r = env.rng
    yield 'store', dict(n=100, kind='random', raw=None, exist=0)
    for raw in (None, 1):
        for exist in (0, 1, 2):
            for n in (0, 100, 20000):
                yield 'store', dict(n=n, kind='random', raw=raw, exist=exist)
                for i in range(7):
                    yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['event', i], err=r.choice(['OSError', 'FileNotFoundError', 'FileExistsError', 'ValueError']))
                    yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['event', i], err=r.choice(['KeyboardInterrupt', 'Stop', 'MemoryError']))
                    if not exist:
                        yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['late', i])
            for n, at in ((100, 0), (100, 1), (100, 99), (20000, 8192), (20000, 8193), (20000, 4096), (20000, 19999)):
                yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['read', at], err=r.choice(['OSError', 'ValueError']), chunk=r.choice([None, 64, 4096]))
                yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['read', at], err=r.choice(['KeyboardInterrupt', 'Stop']))
            for n, at in ((100, 0), (100, 1), (100, 50), (100, 112), (20000, 4096), (20000, 19000), (20000, 8192), (20000, 16384), (20000, 20010)):
                yield 'store', dict(n=n, kind='random', raw=raw, exist=exist, fault=['limit', at], chunk=r.choice([None, 1000]))
            yield 'store', dict(n=100, kind='random', raw=raw, exist=0, fault=['dirfile'])
            yield 'store', dict(n=100, kind='random', raw=raw, exist=0, fault=['dirtarget'])
    while True:
        n = r.choice([0, 1, 100, r.randrange(30000)])
        raw = r.choice([None, None, r.choice(ENCS)])
        f = r.choice([['event', r.randrange(8)], ['late', r.randrange(8)], ['read', r.randrange(n + 1)], ['limit', r.randrange(n + 30)], ['dirfile'], ['dirtarget'], None])
        ex = r.randrange(3) if not f or f[0] not in ('late', 'dirfile', 'dirtarget') else 0
        err = r.choice(list(ERRORS))
        if f and f[0] == 'event' and err == 'PermissionError':
            err = 'OSError'
        yield 'store', dict(n=n, kind=r.choice(KINDS), raw=raw, exist=ex, fault=f, err=err, other=r.choice([0, 3, 60]), salt=r.randrange(1 << 20), chunk=r.choice([None, None, 1 + r.randrange(5000)]))
