"""C12: histories of LockedFD handles on a few files, against an abstract description of them"""
import os
import random
import shutil
import tempfile
from gitdb.util import LockedFD
from gitdb.stream import FDStream
from .lib import *
from .watch import *


class H:
    def __init__(self, o, f):
        self.o, self.f = o, f
        self.state = 'new'
        self.write = self.stream = None
        self.data = b''
        self.fd = None


def history(ops, files=2, exist=1, salt=0):
    """ops: list of [op, handle, arg]"""
    d = tempfile.mkdtemp(prefix='lock')
    try:
        run(d, ops, files, exist, salt)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(d, ops, files, exist, salt):
    r = random.Random(salt)
    paths = [os.path.join(d, 'f%d' % i) for i in range(files)]
    cont = {}
    for i, p in enumerate(paths):
        cont[p] = None
        if i < exist:
            cont[p] = r.randbytes(r.choice([0, 10, 5000]))
            with open(p, 'wb') as f:
                f.write(cont[p])
    holder = {p: None for p in paths}
    hs = {}
    fds0 = fds()
    allowed = {}

    def check(what):
        for p in paths:
            c = content(p)
            assert c == cont[p], '%s: %s changed' % (what, os.path.basename(p))
            lk = os.path.exists(p + '.lock')
            assert lk == (holder[p] is not None), '%s: the lock is %s' % (what, 'there' if lk else 'gone')
        names = listing(d)
        want = [os.path.basename(p) for p in paths if cont[p] is not None] + [os.path.basename(p) + '.lock' for p in paths if holder[p]]
        assert names == sorted(want), '%s: files are %s, not %s' % (what, names, sorted(want))
        now = {k: v for k, v in fds().items() if k not in fds0}
        held = sorted(h.fd for h in hs.values() if h.state == 'open')
        assert sorted(now) == held, '%s: open descriptors %s instead of %s' % (what, now, held)

    def watch(event, args):
        for p in paths:
            c = content(p)
            assert c == cont[p] or p in allowed and c == allowed[p], 'before %s%r: %s is neither the old nor the new file' % (event, args, os.path.basename(p))
        for x in fail:
            if event == x or x == 'target' and event == 'open' and args[0] in paths:
                raise r.choice([OSError, PermissionError, KeyboardInterrupt])(5, 'injected')
    for op in ops:
        k, hi, arg = op
        allowed.clear()
        fail = []
        if k == 'handle' or hi not in hs:
            old = hs.pop(hi, None)
            if old is not None:
                if old.state == 'open':
                    holder[old.f] = None
                    old.state = 'closed'
                with Watch(watch):
                    old.o = None
                check('dropping a handle')
            hs[hi] = H(None, paths[(arg or 0) % files] if isinstance(arg, int) else paths[0])
            hs[hi].o = LockedFD(hs[hi].f)
            check('creating a handle')
            if k == 'handle':
                continue
        h = hs[hi]
        if k == 'open':
            write, stream, f = arg
            if f:
                fail = [f]
            expect = 'assert' if h.state != 'new' else 'fail' if holder[h.f] is not None or (not write and cont[h.f] is None) or f == 'open' or f == 'target' and not write else 'ok'
            try:
                with Watch(watch):
                    fd = h.o.open(write=bool(write), stream=bool(stream))
                assert expect == 'ok', 'open succeeds although it should not'
                if stream:
                    assert isinstance(fd, FDStream), 'no stream'
                    h.stream = fd
                    h.fd = fd.fileno()
                else:
                    h.fd = fd
                h.state, h.write = 'open', bool(write)
                holder[h.f] = h
                if not write:
                    want = cont[h.f]
                    got = fd.read(len(want)) if stream and want else os.read(h.fd, len(want) + 1) if not stream else b''
                    assert got == want, 'what is read is not the file'
            except AssertionError:
                if expect != 'assert':
                    raise
            except (OSError, KeyboardInterrupt):
                assert expect == 'fail', 'open fails although it should not'
                h.state = 'failed'
        elif k == 'write':
            if h.state == 'open' and h.write:
                b = r.randbytes(arg)
                if h.stream is not None:
                    h.stream.write(b)
                else:
                    assert os.write(h.fd, b) == len(b)
                h.data += b
        elif k in ('commit', 'rollback', 'del', 'commitfail'):
            if k == 'commitfail':
                fail = ['os.rename']
            will = h.state == 'open' and h.write and k == 'commit'
            if will:
                allowed[h.f] = h.data
            try:
                with Watch(watch):
                    if k == 'del':
                        h.o = None
                        hs.pop(hi)
                    elif k == 'rollback':
                        h.o.rollback()
                    else:
                        h.o.commit()
                assert h.state != 'new' or k == 'del', 'ending what was not started'
                assert not (k == 'commitfail' and h.state == 'open' and h.write), 'the rename failed but not the commit'
            except AssertionError as e:
                if h.state != 'new' or not str(e).startswith('Cannot end'):
                    raise
                check('refused %s' % k)
                continue
            except (OSError, KeyboardInterrupt):
                assert k == 'commitfail' and h.state == 'open' and h.write, '%s fails' % k
            if will:
                cont[h.f] = h.data
            if h.state == 'open':
                holder[h.f] = None
                h.state = 'closed'
        elif k == 'foreign':
            # a lock file of someone else
            if holder[h.f] is None:
                with open(h.f + '.lock', 'w'):
                    pass
                holder[h.f] = 'foreign'
            elif holder[h.f] == 'foreign':
                os.unlink(h.f + '.lock')
                holder[h.f] = None
        check('%s %s' % (k, arg))


CHECKS = {'history': history}


def gen(env):
    r = env.rng
    for write in (0, 1):
        for stream in (0, 1):
            for end in ('commit', 'rollback', 'del', 'commitfail'):
                for again in ('commit', 'rollback', 'del'):
                    for exist in (0, 1):
                        yield 'history', dict(ops=[['open', 0, [write, stream, None]], ['write', 0, 10], ['open', 1, [1, 0, None]], ['write', 0, 5000], [end, 0, None], [again, 0, None],
                                                   ['rollback', 1, None], ['open', 2, [1, 1, None]], ['write', 2, 7], ['commit', 2, None]], files=1, exist=exist, salt=1)
            for f in (None, 'open', 'target'):
                yield 'history', dict(ops=[['foreign', 0, None], ['open', 0, [write, stream, f]], ['commit', 0, None], ['del', 0, None], ['open', 2, [write, stream, f]], ['rollback', 2, None]], files=1, exist=0, salt=1)
                for salt in range(4):
                    yield 'history', dict(ops=[['open', 0, [write, stream, f]], ['commit', 0, None]], files=1, exist=1, salt=salt)
    while True:
        ops = []
        for _ in range(r.randrange(2, 25)):
            k = r.choice(['open'] * 6 + ['write'] * 5 + ['commit'] * 3 + ['rollback', 'del', 'commitfail', 'handle', 'foreign'])
            arg = None
            if k == 'open':
                arg = [r.randrange(2), r.randrange(2), r.choice(['open', 'target']) if r.random() < .15 else None]
            elif k == 'write':
                arg = r.choice([0, 1, 10, 3000])
            elif k == 'handle':
                arg = r.randrange(3)
            ops.append([k, r.randrange(4), arg])
        yield 'history', dict(ops=ops, files=r.randrange(1, 3), exist=r.randrange(3), salt=r.randrange(1 << 20))
