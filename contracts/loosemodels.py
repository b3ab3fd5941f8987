"""storing a loose object: the directory of a loose database as ghost state"""
from .fsmodels import *
from .streamcopy import STREAM_COPY
import importlib
gb = importlib.import_module('gitdb.base')
from gitdb.db.loose import LooseObjectDB

HEXN = 16 ** 38


class LooseFS(FS):
    """the root directory exists; the object's directory and the object's file may"""

    def __init__(self, c, **kw):
        self.c = c
        self.root = Text([Atom('root')])
        super().__init__([(self.root, Dir())], other=self.new_path, **kw)
        self.objects = []           # (number the path spells, initial node, path)

    def classify(self, path):
        parts = as_text(path).parts
        if len(parts) >= 3 and parts[0] is self.root.parts[0] and parts[1] == '/':
            r = hexes_merged(parts[2:])
            if len(r) == 1 and isinstance(r[0], Hex) and r[0].n == 2:
                return 'dir', r[0].val
            if len(r) == 3 and isinstance(r[0], Hex) and r[0].n == 2 and r[1] == '/' and isinstance(r[2], Hex) and r[2].n == 38:
                return 'object', add(mul(r[0].val, HEXN), r[2].val)
        return None, None

    def new_path(self, ip, path):
        p = ip.p
        k, v = self.classify(path)
        if k == 'dir':
            return Dir() if p.choose(2, 'directory exists') else None
        if k == 'object':
            node = None
            d = split(path)[0]
            if isinstance(self.at(ip, d), Dir) and not any(op == 'mkdir' and ip.p.entails(text_eq(as_text(x), d)) for op, x in self.made):
                if p.choose(2, 'object exists'):
                    node = File('existing', p.fresh_bytes('existing'), 'before')
            self.objects.append((v, node, node.data if node else None, path))
            return node
        return None

    made = ()

    def changed(self, ip, op, *a):
        if op == 'mkdir':
            self.made = self.made + ((op, a[0]),)
        super().changed(ip, op, *a)

    def rename(self, ip, a, b):
        d = split(b)[0]
        if not isinstance(self.at(ip, d), Dir):
            self.step(ip, 'rename', a, b)
            self.failed.append('rename')
            self.fail(ip, 2)
        return super().rename(ip, a, b)

    def close(self, ip, fd):
        if isinstance(fd, FileFd) and fd.f['open'] is True and self.fails and ip.p.choose(2, 'close fails'):
            self.step(ip, 'close', fd)
            fd.setf('open', False)
            fd.setf('failed', True)
            self.failed.append('close')
            ip.throw(OSError, 5, 'injected')
        return super().close(ip, fd)


class Store(Contract):
    """one store of an object, new (`new`), with known id (`known`) or into an overriding stream"""
    target = 'gitdb.db.loose:LooseObjectDB.store'
    models = FS_MODELS
    uses = ['stream_copy']
    fails = False
    timeout = 20

    def configure(self, run):
        run.max_unroll = 60

    def setup(self, c):
        p = c.p
        c.env.t = c.bytes('type')
        c.env.content = c.bytes('content')
        c.assume(c.content.n < 2 ** 60)
        c.env.src = Reader(c.content)
        if self.fails:
            c.src.fails = (OSError, KeyboardInterrupt)
        c.env.fs = LooseFS(c, fails=self.fails, may=('short', 'fail') if self.fails else (), on_change=lambda ip, op, *a: self.moment(c, op)).install(c.run)
        c.env.zips = p.ghost.setdefault('compressobjs', [])
        c.env.binsha = None
        if c.case == 'known':
            c.env.binsha = c.bytes('binsha', 20)
        return [], {}

    def execute(self, c, args, kw):
        ip = c.ip
        db = c.env.db = self.make(c)
        # the size of an object handed over as stored is that of its content, not of the stored bytes
        size = c.content.n if c.case != 'known' else c.nat('size')
        ist = c.env.ist = ip.call(gb.IStream, [c.t, size, c.src] + ([c.binsha] if c.binsha is not None else []), {})
        if c.case == 'set later':
            # a stream that gets what it describes after it was made
            ist = c.env.ist = ip.call(gb.IStream, [b'other', 0, None, c.bytes('binsha', 20)], {})
            for k, v in (('type', c.t), ('size', size), ('stream', c.src), ('binsha', None)):
                ip.setattr(ist, k, v)
        if c.case == 'override':
            import gitdb.stream as gs
            c.env.w = ip.call(gs.Sha1Writer, [], {})
            ip.call(ip.getattr(db, 'set_ostream'), [c.w], {})
        c.fs.calls = []
        return ip.call(ip.getattr(db, 'store'), [ist], {})

    def make(self, c):
        return c.ip.call(LooseObjectDB, [c.fs.root], {})

    def stored(self, c):
        """the bytes an object consists of"""
        return concat(concat(concat(c.t, b' '), bm.decimal_bytes(c.content.n)), concat(b'\0', c.content))

    def complete(self, c, node, number):
        """the file is the complete new object, under its id"""
        p = c.p
        if not isinstance(node, File) or node.owner != 'us':
            return False
        if c.binsha is not None:
            return And(same_bytes(p, node.data, c.content), eq(number, key_of(c.binsha)))
        if len(c.zips) != 1:
            return False
        z = c.zips[0]
        if z.f['flushed'] is not True:
            return False
        got = content_of_digest_number(p, number)
        if got is None:
            return False
        return And(same_bytes(p, node.data, z.out), same_bytes(p, z.fed, self.stored(c)), same_bytes(p, got, self.stored(c)))

    def moment(self, c, op):
        """what holds whenever something changed"""
        p = c.p
        for number, first, data, path in c.fs.objects:
            now = c.fs.at(c.ip, path)
            if now is first:
                p.prove(True if first is None else same_bytes(p, first.data, data), 'the file of an object is never written to')
            elif now is None:
                p.prove(False, 'no object file is removed')
            else:
                p.prove(self.complete(c, now, number), 'what appears under an id is the complete object of this id')
        for path, node in c.fs.f['files']:
            k, number = c.fs.classify(path)
            if k == 'object' and not any(path is o[3] for o in c.fs.objects) and node is not None:
                p.prove(self.complete(c, node, number), 'what appears under an id is the complete object of this id')

    def no_temp(self, c):
        return ('no temporary file is left behind', all(c.fs.at(c.ip, t) is None for t in getattr(c.fs, 'temps', [])) and
                all(node is None or isinstance(node, Dir) or c.fs.classify(path)[0] == 'object' for path, node in c.fs.f['files']))


def content_of_digest_number(p, v):
    """the content of the digest which, as a number, is proved to be v"""
    for d in digests(p):
        if p.entails(eq(key_of(d.bytes), v)):
            return d.data
    return None


from pyvc import builtin_models as bm
