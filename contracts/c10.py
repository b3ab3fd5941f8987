"""Loose objects are stored under their true id and read back unchanged"""
from .loosemodels import *
from .headermodels import *
import binascii
from gitdb.db.git import GitDB
import mmap
from .hexmodel import key_bytes
from pyvc.core import Junk, Seq
from pyvc.interp import CONSUMED, GenIter


def is_hex(v, sha):
    return isinstance(v, Hex) and v.kind == 'bytes' and v.n == 40 and eq(v.val, key_of(sha))


class StoreOK(Store):
    """nothing fails: the object is there, under the digest of header and content"""
    name = 'C10.store'
    cases = ['new', 'known', 'override', 'set later']

    def post(self, c, ret):
        p, ip = c.p, c.ip
        if ret is not c.ist:
            return [('the stream given is returned', False)]
        b = ip.getattr(ret, 'binsha')
        if not is_byteslike(b):
            return [('the id is set', False)]
        b = as_sbytes(b)
        out = [('the id has 20 bytes', eq(b.n, 20)), ('and is given in hex', is_hex(ip.getattr(ret, 'hexsha'), b)), ('no error is noted', ip.getattr(ret, 'error') is None)]
        if c.case == 'known':
            out.append(('the id stays', eq(key_of(b), key_of(c.binsha))))
        else:
            got = content_of_digest_number(p, key_of(b))
            out.append(('the id is the digest of header and content', got is not None and same_bytes(p, got, self.stored(c))))
        if c.case == 'override':
            got = content_of_digest(p, ip.call(ip.getattr(c.w, 'sha'), [], {}))
            return out + [('the stream given is the one reported', ip.call(ip.getattr(c.db, 'ostream'), [], {}) is c.w), ('nothing is stored elsewhere', not c.fs.calls), ('the stream given takes header and content', got is not None and same_bytes(p, got, self.stored(c)))]
        objs = [o for o in c.fs.f['files'] if c.fs.classify(o[0])[0] == 'object' and o[1] is not None]
        out += [self.no_temp(c), ('one file of an object', len(objs) == 1)]
        for path, node in objs:
            number = c.fs.classify(path)[1]
            out.append(('the file is the one of the id', eq(number, key_of(b))))
            first = [o for o in c.fs.objects if p.entails(eq(o[0], number))]
            had = [o for o in first if o[1] is not None]
            if had:
                out.append(('an object that exists is left as it is', And(node is had[0][1], same_bytes(p, node.data, had[0][2]))))
            else:
                out.append(('the file holds the complete object', self.complete(c, node, number)))
        return out


class GitStore(StoreOK):
    """the same through a git database, whose loose objects are in its own directory"""
    name = 'C10.git_store'
    target = 'gitdb.db.git:GitDB.store'

    def make(self, c):
        loose = c.ip.call(LooseObjectDB, [c.fs.root], {})
        db = c.ip.call(GitDB, [c.fs.root], {})
        db.f.update(_loose_db=loose, _dbs=SList((loose,)))          # C13.git_members
        return db


class ReadFS(LooseFS):
    """one object is there, or not"""

    def new_path(self, ip, path):
        k, v = self.classify(path)
        if k == 'object' and ip.p.decide(eq(v, self.number), 'the object'):
            self.asked = True
            return self.node
        if k == 'object':
            return None
        return super().new_path(ip, path)

    def open(self, ip, path, flags, mode=0o777):
        if isinstance(flags, int) and flags & os.O_NOATIME and ip.p.choose(2, 'O_NOATIME is refused'):
            ip.throw(PermissionError, 1, 'Operation not permitted')
        return super().open(ip, path, flags, mode)


class ReadBack(Contract):
    """type, size and content are those of the stored file"""
    name = 'C10.read'
    target = 'gitdb.db.loose:LooseObjectDB.stream'
    models = {**Z_MODELS, **FS_MODELS}
    uses = ['read']
    cases = ['%s %s' % (a, b) for a in ('info', 'stream', 'has_object') for b in ('present', 'absent')]

    def setup(self, c):
        p = c.p
        c.env.op, c.env.there = c.case.split()
        header_source(c)
        c.env.sha = c.bytes('sha', 20)
        fs = c.env.fs = ReadFS(c, fails=False, may=())
        fs.number = key_of(c.sha)
        fs.node = File('object', c.m, 'before') if c.there == 'present' else None
        fs.install(c.run)

        def fd_map(ip, fd, length, *a, **kw):
            if not isinstance(fd, FileFd):
                return m_mmap(ip, fd, length, *a, **kw)
            if fd.f['open'] is not True:
                ip.throw(OSError, 9, 'Bad file descriptor')
            n = fd.file.data.n
            if not (isinstance(length, int) and length == 0):
                if not p.entails(eq(length, n)):
                    raise Unsupported('map of a part of a file')
            return Mem(fd.file.data, label='mmap', readonly=True)
        c.run.models[mmap.mmap] = fd_map
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip
        db = c.env.db = ip.call(LooseObjectDB, [c.fs.root], {})
        if c.p.choose(2, 'asked before'):
            try:
                ip.call(ip.getattr(db, c.op), [c.sha], {})
            except PyRaise:
                pass
        return ip.call(ip.getattr(db, c.op), [c.sha], {})

    def post(self, c, ret):
        ip, p = c.ip, c.p
        closed = ('no descriptor stays open', all(f.f['open'] is False for f in c.fs.fds))
        if c.op == 'has_object':
            return [('exactly if the file is there', ret is (c.there == 'present') if isinstance(ret, bool) else False), closed]
        if c.there == 'absent':
            return [('an object that is not there is an error', False)]
        if not isinstance(ret, SObj) or not issubclass(ret.cls, gb.OInfo if c.op == 'info' else gb.OStream):
            return [('an object is returned', False)]
        g = lambda nm: ip.getattr(ret, nm)
        typ = g('type')
        out = [closed, ('the id asked for', same_bytes(p, g('binsha'), c.sha)), ('the type is that of the header', same_bytes(p, typ, c.typ) if is_byteslike(typ) else False),
               ('the size is that of the header', eq(g('size'), c.S)), ('its id in hex', is_hex(g('hexsha'), c.sha))]
        if c.op == 'stream':
            o = g('stream')
            if isinstance(o, SObj) and isinstance(o.f.get('_m'), Mem):
                out.append(('the stream reads the file', And(same_region(p, o.f['_m'].data, c.m), not o.f['_m'].f.get('closed'))))
                c.env.m = o.f['_m']
                c.m.n = as_sbytes(c.m).n
            out += at_content(c, o, 0)
        return out

    def exc(self, c, e):
        from gitdb.exc import BadObject
        return [('an object that is not there is an error', c.there == 'absent' and c.op != 'has_object' and is_exc(e, BadObject)),
                ('no descriptor stays open', all(f.f['open'] is False for f in c.fs.fds))]

    def no_return(self, case):
        return case in ('info absent', 'stream absent')


DIRS, BASELEN, FILES = z3.Int('directories'), F('base_length'), F('files_in')
NAMELEN, OBJ, ALL = z3.Function('name_length', I, I, I), z3.Function('objects_in_first', I, I, I), F('objects_before')
IDNO = F('id_at')


def listing(d, j=None):
    """objects lie in directories with names of two characters, in files with names of 38"""
    p = Path.cur
    d = zint(d)
    p.fact(z3.And(BASELEN(d) >= 0, FILES(d) >= 0, ALL(0) == 0, ALL(d) >= 0, OBJ(d, 0) == 0, OBJ(d, FILES(d)) >= 0,
                  ALL(d + 1) == ALL(d) + z3.If(BASELEN(d) == 2, OBJ(d, FILES(d)), 0)))
    if j is not None:
        j = zint(j)
        p.fact(z3.And(NAMELEN(d, j) >= 0, OBJ(d, j) >= 0, OBJ(d, j + 1) == OBJ(d, j) + z3.If(NAMELEN(d, j) == 38, 1, 0)))


class Directory(GhostVal):
    """path of directory number d of the walk; with `base`, its last component"""
    tname = 'str'

    def __init__(self, d, base=False):
        self.d, self.base = zint(d), base

    def vkind(self):
        return (Directory, self.base)

    @staticmethod
    def vfresh(path, name, kind):
        return Directory(path.fresh_int(name), kind[0])

    def py_isinstance(self, ip, cls):
        return cls in (str, object)

    def py_len(self, ip):
        if not self.base:
            raise Unsupported('length of a path')
        listing(self.d)
        return BASELEN(self.d)

    def py_binop(self, ip, t, b):
        if t is ast.Add and self.base and isinstance(b, FileName) and b.d.eq(self.d):
            return ObjectName(b.d, b.j)
        return NotImplemented


class FileName(GhostVal):
    """name of file j of directory d"""
    tname = 'str'

    def __init__(self, d, j):
        self.d, self.j = zint(d), zint(j)

    def vkind(self):
        return (FileName,)

    @staticmethod
    def vfresh(path, name, kind):
        return FileName(path.fresh_int(name), path.fresh_int(name))

    def py_isinstance(self, ip, cls):
        return cls in (str, object)

    def py_len(self, ip):
        listing(self.d, self.j)
        return NAMELEN(self.d, self.j)


class ObjectName(FileName):
    """name of the directory and of the file, together"""

    def vkind(self):
        return (ObjectName,)

    def py_len(self, ip):
        return add(BASELEN(self.d), NAMELEN(self.d, self.j))

    def py_getattr(self, ip, name):
        return ModelM(self, name)

    def m_encode(self, ip, *a):
        return self


def walk(ip, top, topdown=True, onerror=None, followlinks=False):
    c = ip.run.ctx
    ip.p.prove(top == 'root' if isinstance(top, str) else False, 'the directory of the database is listed', 'obligation')

    def at(d):
        listing(d)
        return (Directory(d), SList(Seq(p_nat('subdirectories'), lambda j: FileName(d, -1 - zint(j)))), SList(Seq(FILES(zint(d)), lambda j: FileName(d, j))))

    def p_nat(n):
        return ip.p.fresh_nat(n)
    return GenIter(Seq(DIRS, at))


def base_of(ip, path):
    if isinstance(path, Directory) and not path.base:
        return Directory(path.d, True)
    raise Unsupported('last component of %r' % (path,))


def split_path(ip, path):
    return (Junk(), base_of(ip, path))


def from_hex(ip, h):
    p = ip.p
    if isinstance(h, ObjectName):
        d, j = h.d, h.j
        listing(d, j)
        p.prove(z3.And(BASELEN(d) == 2, NAMELEN(d, j) == 38), 'only names of objects are decoded', 'obligation')
        return key_bytes(p, IDNO(ALL(d) + OBJ(d, j)), 20)
    return HEX_MODELS[binascii.a2b_hex](ip, h)


def ids(ip, n):
    return GenIter(Seq(n, lambda i: key_bytes(ip.p, IDNO(zint(i)), 20)))


class ShaIter(Contract):
    """the id of every object of the directory tree, once"""
    name = 'C10.sha_iter'
    target = 'gitdb.db.loose:LooseObjectDB.sha_iter'
    models = {**Z_MODELS, **FS_MODELS, os.walk: walk, os.path.basename: base_of, os.path.split: split_path, binascii.a2b_hex: from_hex, binascii.unhexlify: from_hex}
    yield_contract = True
    invs = [
        Inv('directories done', '$it:int', lambda c, it: z3.And(zint(c.out.f['n']) == ALL(zint(it)), zint(it) >= 0, zint(it) <= DIRS)),
        Inv('files done', 'root:any $it:int', lambda c, r, it: isinstance(r, Directory) and z3.And(r.d >= 0, r.d < DIRS, zint(it) >= 0, zint(it) <= FILES(r.d),
                                                                                                  zint(c.out.f['n']) == ALL(r.d) + z3.If(BASELEN(r.d) == 2, OBJ(r.d, zint(it)), 0))),
    ]

    def setup(self, c):
        c.fact(z3.And(DIRS >= 0, ALL(0) == 0))
        c.env.out = Model('out')
        c.out.f['n'] = 0
        o = SObj(LooseObjectDB)
        o.f.update(_root_path='root', _hexsha_to_file=SDict(), _fd_open_flags=0)
        return [o], {}

    def call(self, ip, args, kw):
        total = ip.p.fresh_nat('objects')
        ip.run.ctx.env.total = total
        return ids(ip, total)

    def on_yield(self, c, v):
        p, n = c.p, c.out.f['n']
        ok = is_byteslike(v) and getattr(as_sbytes(v), 'key', None) is not None
        p.prove(ok, 'ids are given', 'obligation')
        if ok:
            p.prove(And(eq(as_sbytes(v).n, 20), eq(key_of(as_sbytes(v)), IDNO(zint(n)))), 'the ids of the objects come in order', 'obligation')
        c.out.setf('n', add(n, 1))

    def post(self, c, ret):
        return [('the ids are yielded', ret is CONSUMED), ('the id of every object was given', zint(c.out.f['n']) == ALL(DIRS))]


class Count(Contract):
    """as many as there are ids"""
    name = 'C10.size'
    target = 'gitdb.db.loose:LooseObjectDB.size'
    uses = ['C10.sha_iter']
    setup = ShaIter.setup
    invs = [Inv('counted', 'n:int $it:int', lambda c, n, it: And(eq(n, it), ge(it, 0), hasattr(c.env, 'total') and le(it, c.total)))]

    def post(self, c, ret):
        return [('the number of objects', is_int(ret) and hasattr(c.env, 'total') and eq(ret, c.total))]


CONTRACTS = [StoreOK(), GitStore(), ReadBack(), ShaIter(), Count(), STREAM_COPY, FORWARD_READ, READ]
LEVEL = 'proof'
