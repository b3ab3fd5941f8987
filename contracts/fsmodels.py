"""A file system as ghost state (assumed contracts of os, os.path, tempfile and time.sleep).

Every path names a file, a directory or nothing.  Calls may fail (raise OSError) without having
done anything; rename and replace are one step; a file's bytes are what its descriptor took.
After every step that changes something the contract's `on_change` is asked: whatever it states
there holds at every moment, in particular if the process ends right then."""
import os
import os.path
import tempfile
import time
import errno
from .fdmodels import *
from .hexmodel import HEX_MODELS, Hex


def hex_str(self, ip):
    return Text([self]) if self.kind == 'str' else Text(["b'", self, "'"])


Hex.py_str = hex_str


class Atom:
    """an unknown non-empty piece of a path that neither begins nor ends with a separator"""

    def __init__(self, name, slashes=True):
        self.name, self.slashes = name, slashes

    def __repr__(self):
        return self.name


class Text(GhostVal):
    """text built of literals, atoms and hex digits"""

    def __init__(self, parts, kind='str'):
        out = []
        for x in parts:
            if isinstance(x, bytes):
                x = x.decode()
            if isinstance(x, Text):
                todo = x.parts
            else:
                todo = (x,)
            for y in todo:
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != '':
                    out.append(y)
        self.parts = tuple(out)
        self.kind = kind

    def __repr__(self):
        return 'Text' + repr(self.parts)

    def vkind(self):
        return (Text, self.parts, self.kind)

    @staticmethod
    def vfresh(path, name, kind):
        return Text(kind[1], kind[2])

    def join_text(self, parts):
        if not all(isinstance(x, (str, Text, Hex)) for x in parts):
            raise Unsupported('text of %r' % (parts,))
        return Text(parts, 'str')

    def py_str(self, ip):
        return self if self.kind == 'str' else Text(["b'", self, "'"])

    def py_isinstance(self, ip, cls):
        return cls in ((str, object) if self.kind == 'str' else (bytes, object))

    def truth(self, ip=None):
        return len(self.parts) > 0

    def py_eq(self, ip, o):
        o = as_text(o)
        if o is None or o.kind != self.kind:
            return False
        return text_eq(self, o)

    def py_binop(self, ip, t, b):
        b = as_text(b)
        if t is ast.Add and b is not None and b.kind == self.kind:
            return Text([self, b], self.kind)
        return NotImplemented

    def py_rbinop(self, ip, t, a):
        a = as_text(a)
        if t is ast.Add and a is not None and a.kind == self.kind:
            return Text([a, self], self.kind)
        return NotImplemented

    def py_getattr(self, ip, name):
        return ModelM(self, name)

    def m_decode(self, ip, *a):
        return Text([self], 'str')

    def m_encode(self, ip, *a):
        return Text([self], 'bytes')

    def m_startswith(self, ip, o):
        o = as_text(o)
        if o is not None and all(isinstance(x, str) for x in o.parts):
            if not o.parts:
                return True
            if self.parts and isinstance(self.parts[0], str) and len(self.parts[0]) >= len(o.parts[0]):
                return self.parts[0].startswith(o.parts[0])
        raise Unsupported('startswith of a path')

    def m_endswith(self, ip, o):
        o = as_text(o)
        if o is not None and all(isinstance(x, str) for x in o.parts):
            if not o.parts:
                return True
            if self.parts and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= len(o.parts[0]):
                return self.parts[-1].endswith(o.parts[0])
        raise Unsupported('endswith of a path')


import ast
from pyvc.interp import ModelM


def as_text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text([v])
    if isinstance(v, bytes):
        return Text([v.decode()], 'bytes')
    if isinstance(v, Hex):
        return Text([v], v.kind)
    return None


def hexes_merged(parts):
    """adjacent hex digits as one piece"""
    out = []
    for x in parts:
        if isinstance(x, Hex) and out and isinstance(out[-1], Hex):
            y = out[-1]
            out[-1] = Hex(add(mul(y.val, 16 ** x.n), x.val), y.n + x.n, y.kind)
        else:
            out.append(x)
    return out


def text_eq(a, b):
    """equality of texts; different atoms are different names (distinct paths)"""
    pa, pb = hexes_merged(a.parts), hexes_merged(b.parts)
    if len(pa) != len(pb):
        return False
    cs = []
    for x, y in zip(pa, pb):
        if isinstance(x, Hex) and isinstance(y, Hex):
            if x.n != y.n:
                return False
            cs.append(eq(x.val, y.val))
        elif isinstance(x, str) or isinstance(y, str):
            if isinstance(x, Hex) and isinstance(y, str) or isinstance(y, Hex) and isinstance(x, str):
                return False
            if x != y:
                return False
        elif x is not y:
            return False
    return And(*cs)


def m_join(ip, a, *rest):
    r = as_text(a)
    for b in rest:
        b = as_text(b)
        if r is None or b is None or r.kind != b.kind:
            ip.throw(TypeError, 'join: argument must be str or bytes')
        if b.parts and isinstance(b.parts[0], str) and b.parts[0].startswith('/'):
            r = b
        elif not r.parts or isinstance(r.parts[-1], str) and r.parts[-1].endswith('/'):
            r = Text([r, b], r.kind)
        else:
            r = Text([r, '/', b], r.kind)
    return r


def split(v):
    v = as_text(v)
    if v is None:
        raise Unsupported('path %r' % (v,))
    for i in range(len(v.parts) - 1, -1, -1):
        x = v.parts[i]
        if isinstance(x, Atom) and x.slashes:
            raise Unsupported('directory of an unknown path')
        if isinstance(x, str) and '/' in x:
            k = x.rindex('/')
            head = x[:k].rstrip('/') if (i or x[:k].strip('/')) else x[:k + 1]
            return Text(v.parts[:i] + (head,), v.kind), Text((x[k + 1:],) + v.parts[i + 1:], v.kind)
    return Text((), v.kind), v


class File(Model):
    """a file: its bytes and who created it"""

    def __init__(self, label, data=b'', owner='us'):
        super().__init__(label)
        self.f.update(data=data, mode=None, fd=None)
        self.owner = owner

    @property
    def data(self):
        fd = self.f['fd']
        return fd.out if fd is not None else as_sbytes(self.f['data'])


class Dir(Model):
    def __init__(self, label='dir'):
        super().__init__(label)


class FileFd(Fd):
    """descriptor of a file; `write`: opened for writing"""

    def __init__(self, file, write, may=('short', 'fail')):
        super().__init__(may=may)
        self.file, self.write = file, write
        if write:
            self.f['out'] = file.f['data']
            file.setf('fd', self)
        else:
            self.f['out'] = b''


class FS(Model):
    """`known`: list of (path, File | Dir | None); paths not listed are unknown names"""

    def __init__(self, known, on_change=None, before=None, other=None, may=('short', 'fail'), fails=True):
        super().__init__('fs')
        self.f['files'] = tuple(known)
        self.f['changes'] = 0
        self.on_change, self.before, self.other = on_change, before, other
        self.fds = []
        self.may, self.fails = may, fails
        self.failed = []
        self.calls = []

    # ---- state
    def at(self, ip, path):
        path = as_text(path)
        if path is None:
            raise Unsupported('path %r' % (path,))
        for k, v in self.f['files']:
            if ip.p.decide(text_eq(k, path), 'same path'):
                return v
        if self.other is None:
            raise Unsupported('unexpected path %r' % (path,))
        v = self.other(ip, path)
        self.setf('files', self.f['files'] + ((path, v),))
        return v

    def put(self, ip, path, node):
        path = as_text(path)
        out, done = [], False
        for k, v in self.f['files']:
            if not done and ip.p.decide(text_eq(k, path), 'same path'):
                v, done = node, True
            out.append((k, v))
        if not done:
            out.append((path, node))
        self.setf('files', tuple(out))

    def step(self, ip, op, *a):
        self.calls.append((op,) + a)
        if self.before:
            self.before(ip, op, *a)

    def changed(self, ip, op, *a):
        self.setf('changes', self.f['changes'] + 1)
        if self.on_change:
            self.on_change(ip, op, *a)

    # an interrupt may arrive in place of any operation
    interrupts = False

    def may_fail(self, ip, op, code=13):
        k = self.fails and ip.p.choose(3 if self.interrupts else 2, op + ' fails')
        if k:
            self.failed.append(op)
            if k == 2:
                ip.throw(KeyboardInterrupt)
            cls = {13: PermissionError, 2: FileNotFoundError, 17: FileExistsError}.get(code, OSError)
            ip.throw(cls, code, 'injected')

    def fail(self, ip, code, msg=''):
        cls = {2: FileNotFoundError, 17: FileExistsError, 20: NotADirectoryError, 21: IsADirectoryError}.get(code, OSError)
        ip.throw(cls, code, msg or os.strerror(code))

    # ---- system calls
    def open(self, ip, path, flags, mode=0o777):
        if not isinstance(flags, int):
            raise Unsupported('open flags')
        self.step(ip, 'open', path, flags)
        self.may_fail(ip, 'open')
        node = self.at(ip, path)
        acc = flags & 3
        if isinstance(node, Dir) and acc:
            self.fail(ip, 21)
        if node is None:
            if not flags & os.O_CREAT:
                self.fail(ip, 2)
            node = File('created')
            self.put(ip, path, node)
            fd = FileFd(node, acc != 0, self.may)
            self.fds.append(fd)
            self.changed(ip, 'create', path)
            return fd
        if flags & os.O_CREAT and flags & os.O_EXCL:
            self.fail(ip, 17)
        if acc and flags & os.O_TRUNC:
            node.setf('data', b'')
            fd = FileFd(node, True, self.may)
            self.fds.append(fd)
            self.changed(ip, 'truncate', path)
            return fd
        if acc and not flags & os.O_APPEND:
            # writing over existing bytes
            fd = FileFd(node, True, self.may)
            fd.overwrites = True
            self.fds.append(fd)
            return fd
        fd = FileFd(node, acc != 0, self.may)
        self.fds.append(fd)
        return fd

    def close(self, ip, fd):
        self.step(ip, 'close', fd)
        r = m_os_close(ip, fd)
        self.changed(ip, 'close', fd)
        return r

    def write(self, ip, fd, d):
        self.step(ip, 'write', fd)
        if isinstance(fd, FileFd) and not fd.write:
            ip.throw(OSError, 9, 'Bad file descriptor')
        try:
            return m_os_write(ip, fd, d)
        finally:
            if not isinstance(fd, FileFd) or any(v is fd.file for _, v in self.f['files']):
                self.changed(ip, 'write', fd)

    def remove(self, ip, path):
        self.step(ip, 'remove', path)
        node = self.at(ip, path)
        if node is None:
            self.fail(ip, 2)
        if isinstance(node, Dir):
            self.fail(ip, 21)
        self.put(ip, path, None)
        self.changed(ip, 'remove', path)

    def rename(self, ip, a, b):
        self.step(ip, 'rename', a, b)
        self.may_fail(ip, 'rename')
        node = self.at(ip, a)
        if node is None:
            self.fail(ip, 2)
        if isinstance(self.at(ip, b), Dir):
            self.fail(ip, 21)
        self.put(ip, a, None)
        self.put(ip, b, node)
        self.changed(ip, 'rename', a, b)

    def link(self, ip, a, b):
        self.step(ip, 'link', a, b)
        self.may_fail(ip, 'link')
        node = self.at(ip, a)
        if node is None:
            self.fail(ip, 2)
        if self.at(ip, b) is not None:
            self.fail(ip, 17)
        self.put(ip, b, node)
        self.changed(ip, 'link', a, b)

    def chmod(self, ip, path, mode):
        self.step(ip, 'chmod', path)
        self.may_fail(ip, 'chmod')
        node = self.at(ip, path)
        if node is None:
            self.fail(ip, 2)
        node.setf('mode', mode)

    def isfile(self, ip, path):
        self.step(ip, 'isfile', path)
        return isinstance(self.at(ip, path), File)

    def exists(self, ip, path):
        self.step(ip, 'exists', path)
        return self.at(ip, path) is not None

    def isdir(self, ip, path):
        self.step(ip, 'isdir', path)
        return isinstance(self.at(ip, path), Dir)

    def mkstemp(self, ip, suffix=None, prefix=None, dir=None, text=False):
        self.step(ip, 'mkstemp')
        self.may_fail(ip, 'mkstemp')
        if dir is None:
            dir = Text([Atom('tmpdir')])
        node = File('tmp')
        a = Atom('tmpname%d' % len(self.calls), slashes=False)
        path = m_join(ip, dir, Text([prefix or '', a, suffix or '']))
        self.put(ip, path, node)
        fd = FileFd(node, True, self.may)
        self.fds.append(fd)
        self.temps = getattr(self, 'temps', []) + [path]
        self.changed(ip, 'create', path)
        return (fd, path)

    def makedirs(self, ip, path, mode=0o777, exist_ok=False):
        self.step(ip, 'makedirs', path)
        self.may_fail(ip, 'makedirs')
        node = self.at(ip, path)
        if isinstance(node, Dir):
            if not self.truth_of(ip, exist_ok):
                self.fail(ip, 17)
            return None
        if node is not None:
            self.fail(ip, 17)
        self.put(ip, path, Dir())
        self.changed(ip, 'mkdir', path)

    def mkdir(self, ip, path, mode=0o777):
        return self.makedirs(ip, path, mode, False)

    def truth_of(self, ip, v):
        return ip.p.decide(ip.truth(v), 'flag')

    def fsync(self, ip, fd):
        self.step(ip, 'fsync', fd)
        return None

    def models(self):
        def m(f):
            return lambda ip, *a, **k: f(ip, *a, **k)
        return {os.open: m(self.open), os.close: m(self.close), os.write: m(self.write), os.remove: m(self.remove), os.unlink: m(self.remove),
                os.rename: m(self.rename), os.replace: m(self.rename), os.link: m(self.link), os.chmod: m(self.chmod),
                os.path.isfile: m(self.isfile), os.path.exists: m(self.exists), os.path.lexists: m(self.exists), os.path.isdir: m(self.isdir),
                os.path.join: m_join, os.path.dirname: lambda ip, v: split(v)[0], os.path.basename: lambda ip, v: split(v)[1],
                os.path.split: lambda ip, v: split(v), os.path.splitext: m_splitext, os.fsync: m(self.fsync),
                tempfile.mkstemp: m(self.mkstemp), os.makedirs: m(self.makedirs), os.mkdir: m(self.mkdir), time.sleep: lambda ip, t: None}

    def install(self, run):
        run.models.update(self.models())
        return self


def m_splitext(ip, v):
    t = as_text(v)
    if t is None or not t.parts or not isinstance(t.parts[-1], str) or '.' not in t.parts[-1] or '/' in t.parts[-1].rsplit('.', 1)[1]:
        raise Unsupported('splitext of %r' % (v,))
    a, b = t.parts[-1].rsplit('.', 1)
    return (Text(list(t.parts[:-1]) + [a], t.kind), '.' + b)


FS_MODELS = {**FD_MODELS, **HEX_MODELS}
