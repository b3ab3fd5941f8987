"""LockedFD: replacing a file through its lock file"""
from .fsmodels import *
import gitdb.util as gu
from gitdb.util import LockedFD


class LockFS(FS):
    """the file and its lock.  As long as the lock file is not one we created, other processes
    may take and release the lock and replace the file between any two of our steps; while it is
    ours they leave both alone (they follow the same protocol)."""

    def __init__(self, c, held):
        p = c.p
        self.c = c
        name = Text([Atom('filepath')])
        lock = Text([name, '.lock'])
        self.fpath, self.lpath = name, lock
        f = File('target', c.bytes('old'), 'before') if p.choose(2, 'file exists') else None
        super().__init__([(name, f), (lock, File('lock', b'', 'other') if held else None)])
        self.old = f
        self.committed = False

    def file(self):
        return self.f['files'][0][1]

    def lock(self):
        return self.f['files'][1][1]

    def ours(self):
        return isinstance(self.lock(), File) and self.lock().owner == 'us'

    def step(self, ip, op, *a):
        super().step(ip, op, *a)
        p = ip.p
        if op in ('close', 'write') or self.ours() or self.committed:
            return
        # what others may do meanwhile
        k = p.choose(4, 'others')
        if k == 0:
            return
        f = File('target', p.fresh_bytes('theirs'), 'other') if k & 2 else self.file()
        l = (None if self.lock() else File('lock', b'', 'other')) if k & 1 else self.lock()
        self.setf('files', ((self.fpath, f), (self.lpath, l)))
        self.old = f

    def changed(self, ip, op, *a):
        super().changed(ip, op, *a)
        p, c = ip.p, self.c
        f = self.file()
        if f is not self.old and not self.committed:
            ok = isinstance(f, File) and f.owner == 'us' and self.may_commit
            p.prove(And(ok, same_bytes(p, f.data, c.W)) if ok else False, 'the file is replaced by exactly the bytes written, on commit only')
            p.prove(len([k for k, v in self.f['files'] if v is f]) == 1, 'the new file is no longer the lock file')
            self.committed = True
        if f is self.old and f is not None:
            p.prove(same_bytes(p, f.data, self.old_data) if self.old_data is not None else True, 'the file is not written to')

    old_data = None
    may_commit = False

    def intrude(self, ip, path):
        """what our side removes or replaces must be its own"""
        c = self.c
        if c.ip.p.decide(text_eq(as_text(path), self.lpath), 'lock path'):
            ip.p.prove(self.ours(), 'only one\'s own lock is removed')

    def remove(self, ip, path):
        self.intrude(ip, path)
        return super().remove(ip, path)

    def rename(self, ip, a, b):
        self.intrude(ip, a)
        if ip.p.decide(text_eq(as_text(b), self.lpath), 'lock path'):
            ip.p.prove(False, 'nothing is moved over the lock')
        if ip.p.decide(text_eq(as_text(b), self.fpath), 'file path'):
            ip.p.prove(self.ours(), 'the file is only replaced while one holds the lock')
        return super().rename(ip, a, b)

    def open(self, ip, path, flags, mode=0o777):
        fd = super().open(ip, path, flags, mode)
        if fd.write:
            ip.p.prove(fd.file.owner == 'us' and ip.p.decide(text_eq(as_text(path), self.lpath), 'lock path'), 'only the lock file is opened for writing')
        return fd

    def open_fds(self):
        return [x for x in self.fds if x.f['open'] is True]


class Locked(Contract):
    name = 'C12.LockedFD'
    target = 'gitdb.util:LockedFD.open'
    models = FS_MODELS
    cases = [(op, w) for op in ('open', 'commit', 'rollback', '__del__', 'again', 'reopen') for w in ('write', 'read')] + [('unopened', None)]
    assumptions = ['closing a valid descriptor and removing an existing lock file succeed', 'other holders follow the same protocol',
                   'a rename is one step, open with O_CREAT and O_EXCL creates the file or fails']

    def setup(self, c):
        p = c.p
        c.env.W = c.bytes('written')
        c.env.write = c.case[1] == 'write'
        c.env.fs = LockFS(c, p.choose(2, 'lock held by another') if c.case[0] == 'open' else False).install(c.run)
        c.env.old = c.fs.old
        c.fs.old_data = c.old.data if c.old is not None else None
        return [], {}

    def no_return(self, case):
        return case[0] in ('reopen', 'unopened')

    def call(self, *a):
        raise Unsupported('LockedFD')

    def opened(self, c, o):
        """an instance opened successfully before; everything written to it: W"""
        ip, fs = c.ip, c.fs
        fs.fails = False
        fs.step = lambda ip, op, *a: None
        try:
            args = [c.write] if c.p.choose(2, 'positional') else []
            kw = {} if args else {'write': c.write}
            ip.call(ip.getattr(o, 'open'), args, kw)
        except PyRaise:
            from pyvc.core import PathEnd
            raise PathEnd()
        del fs.step
        fs.fails = True
        fs.calls = []
        fs.f['changes'] = 0
        if c.write:
            for fd in fs.fds:
                if fd.write:
                    fd.f['out'] = c.W

    def execute(self, c, args, kw):
        ip, fs, p = c.ip, c.fs, c.p
        op, _ = c.case
        o = c.env.o = ip.call(LockedFD, [fs.fpath], {})
        end = {0: 'commit', 1: 'rollback', 2: '__del__'}
        if op == 'unopened':
            k = p.choose(3, 'which')
            if k == 2:
                ip.call(ip.getattr(o, '__del__'), [], {})
                p.prove(not fs.calls, 'dropping a handle never opened does nothing')
            return ip.call(ip.getattr(o, ['commit', 'rollback', 'commit'][k]), [], {})
        if op == 'open':
            stream = c.env.stream = bool(p.choose(2, 'stream'))
            fs.old_data = None
            before = fs.lock()
            return ip.call(ip.getattr(o, 'open'), [], {'write': c.write, 'stream': stream})
        self.opened(c, o)
        if op == 'reopen':
            return ip.call(ip.getattr(o, 'open'), [bool(p.choose(2, 'w'))], {})
        if op == 'again':
            first, second = end[p.choose(3, 'first')], end[p.choose(3, 'second')]
            fs.may_commit = c.write and first == 'commit'
            try:
                ip.call(ip.getattr(o, first), [], {})
            except PyRaise:
                pass
            fs.calls = []
            fs.f['changes'] = 0
            c.env.second = True
            return ip.call(ip.getattr(o, second), [], {})
        fs.may_commit = c.write and op == 'commit'
        return ip.call(ip.getattr(o, op), [], {})

    def post(self, c, ret):
        p, fs = c.p, c.fs
        op, _ = c.case
        if op == 'open':
            fds = fs.open_fds()
            fd = ret
            out = []
            if c.stream:
                from gitdb.stream import FDStream
                ok = isinstance(ret, SObj) and ret.cls is FDStream
                out = [('a stream on the descriptor is returned', ok)]
                fd = c.ip.getattr(ret, '_fd') if ok else None
            out += [('the lock is ours', fs.ours()), ('the file is untouched', fs.file() is fs.old),
                    ('one descriptor is open, and returned', len(fds) == 1 and fd is fds[0])]
            if len(fds) == 1:
                d = fds[0]
                if c.write:
                    out += [('what is written goes to the lock file', d.write and d.file is fs.lock()), ('the new file is empty at first', eq(d.out.n, 0))]
                else:
                    out += [('the file is opened for reading', not d.write and d.file is fs.file())]
            return out
        if op in ('unopened', 'reopen'):
            return [('an error', False)]
        if op == 'again':
            return [('ending again does nothing', fs.f['changes'] == 0 and not fs.calls)]
        out = self.ended(c)
        if op == 'commit' and c.write:
            f = fs.file()
            out += [('the file now holds exactly the bytes written', And(fs.committed, same_bytes(p, f.data, c.W)) if isinstance(f, File) else False)]
        else:
            out += [('the file is untouched', self.untouched(c))]
        return out

    def untouched(self, c):
        fs = c.fs
        if fs.file() is not c.old:
            return False
        return c.old is None or same_bytes(c.p, c.old.data, fs.old_data)

    def ended(self, c):
        fs = c.fs
        return [('the lock is released', fs.lock() is None or not fs.ours()), ('all descriptors are closed', not fs.open_fds())]

    def exc(self, c, e):
        fs = c.fs
        op, _ = c.case
        if op in ('unopened', 'reopen'):
            return [('refused by an assertion', is_exc(e, AssertionError)), ('refusing changes nothing', not fs.calls)]
        if op == 'open':
            # ending what failed to open does nothing
            n = len(fs.calls)
            fs.may_commit = False
            k = c.p.choose(3, 'end')
            try:
                c.ip.call(c.ip.getattr(c.o, ['commit', 'rollback', '__del__'][k]), [], {})
            except PyRaise:
                return [('ending what could not be opened is no error', False)]
            return [('an error of the operating system', is_exc(e, OSError)), ('the lock is not kept', not fs.ours()),
                    ('the file is untouched', fs.file() is fs.old), ('all descriptors are closed', not fs.open_fds()),
                    ('ending what could not be opened does nothing', len(fs.calls) == n)]
        if op == 'again':
            return [('ending again is no error', False)]
        return self.ended(c) + [('error only if the system fails', bool(fs.failed) and is_exc(e, OSError)),
                                ('the file is untouched or committed', fs.committed and 'rename' not in fs.failed or self.untouched(c))]


CONTRACTS = [Locked()]
LEVEL = 'proof'
