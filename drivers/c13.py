"""C13: compound databases over members of all kinds, any distribution of objects and histories"""
import os
import shutil
import tempfile
import random
from io import BytesIO
from gitdb.base import IStream
from gitdb.db import LooseObjectDB, PackedDB, MemoryDB, ReferenceDB, GitDB
from gitdb.db.base import CompoundDB, ObjectDBR, CachingDB
from gitdb.exc import BadObject, InvalidDBRoot
from gitdb.base import OInfo, OStream
from .lib import *


class Fake(ObjectDBR):
    """a member that tells whose answer it is"""

    def __init__(self, name, ids):
        super().__init__()
        self.name, self.ids = name, list(ids)

    def has_object(self, sha):
        return sha in self.ids

    def info(self, sha):
        if sha not in self.ids:
            raise BadObject(sha)
        return OInfo(sha, b'blob', self.name)

    def stream(self, sha):
        if sha not in self.ids:
            raise BadObject(sha)
        return OStream(sha, b'blob', self.name, BytesIO(b'%d' % self.name))

    def size(self):
        return len(self.ids)

    def sha_iter(self):
        return iter(list(self.ids))


class FakeCaching(Fake, CachingDB):
    """shows changes only after an update"""

    def __init__(self, name, ids):
        super().__init__(name, ids)
        self.next, self.forced = list(ids), []

    def update_cache(self, force=False):
        changed = self.next != self.ids
        self.ids = list(self.next)
        self.forced.append(force)
        return changed


class Comp(CompoundDB):
    def __init__(self, dbs):
        super().__init__()
        self._dbs = list(dbs)


def outcome(f):
    try:
        return f()
    except BadObject:
        return None


def history(shape, salt, steps):
    """shape: one letter per member: f plain, c caching, ( ) nested compound"""
    r = random.Random(salt)
    pool = [r.randbytes(20) for _ in range(6)]
    leaves, stack, n = [], [[]], 0
    for ch in shape:
        if ch == '(':
            stack.append([])
        elif ch == ')':
            inner = Comp(stack.pop())
            stack[-1].append(inner)
        else:
            m = (Fake if ch == 'f' else FakeCaching)(n, r.sample(pool, r.randrange(len(pool))))
            n += 1
            leaves.append(m)
            stack[-1].append(m)
    top = Comp(stack[0])
    for _ in range(steps):
        op = r.choice(['has', 'in', 'info', 'stream', 'size', 'iter', 'has', 'info', 'stream', 'change', 'update'])
        sha = r.choice(pool)
        first = next((m for m in leaves if sha in m.ids), None)
        if op == 'has':
            got = top.has_object(sha)
            assert got == (first is not None) and isinstance(got, bool), 'has_object gives %r, first is %r' % (got, first and first.name)
        elif op == 'in':
            assert (sha in top) == (first is not None), 'in gives %r' % (sha in top)
        elif op == 'info':
            got = outcome(lambda: top.info(sha).size)
            assert got == (first and first.name), 'info comes from member %r, expected %r' % (got, first and first.name)
        elif op == 'stream':
            got = outcome(lambda: int(top.stream(sha).read()))
            assert got == (first and first.name), 'stream comes from member %r, expected %r' % (got, first and first.name)
        elif op == 'size':
            assert top.size() == sum(len(m.ids) for m in leaves), 'size %r' % top.size()
        elif op == 'iter':
            got = list(top.sha_iter())
            assert got == [i for m in leaves for i in m.ids], 'iteration gives %d ids' % len(got)
        else:
            force = r.random() < .5
            if op == 'change' or r.random() < .5:
                for m in leaves:
                    if isinstance(m, FakeCaching):
                        m.next = r.sample(pool, r.randrange(len(pool)))
                    else:
                        m.ids = r.sample(pool, r.randrange(len(pool)))
            counts = [len(m.forced) for m in leaves if isinstance(m, FakeCaching)]
            top.update_cache(force)
            now = [len(m.forced) for m in leaves if isinstance(m, FakeCaching)]
            assert now == [x + 1 for x in counts], 'members updated %r times' % [b - a for a, b in zip(counts, now)]
            for m in leaves:
                assert not isinstance(m, FakeCaching) or m.forced[-1] == force, 'update forced: %r' % force


def real(salt, where, odd=False):
    """a git database whose objects lie in its pack, loose and alternate parts as `where` says"""
    r = random.Random(salt)
    root = tempfile.mkdtemp()
    try:
        main, alt = os.path.join(root, 'main'), os.path.join(root, 'alt')
        for d in (main, alt):
            os.makedirs(os.path.join(d, 'info'))
        objs = []
        packs = {main: [], alt: []}
        for n, w in enumerate(where):
            data = b'%d %d' % (n, salt)
            sha = oid(b'blob', data)
            objs.append((sha, data, w))
            for ch in w:
                d = main if ch in 'pl' else alt
                if ch in 'lL':
                    st = LooseObjectDB(d).store(IStream(b'blob', len(data), BytesIO(data)))
                    assert st.binsha == sha
                else:
                    packs[d].append((b'blob', data))
        for d, es in packs.items():
            if es:
                os.mkdir(os.path.join(d, 'pack'))
                seen = sorted(set(es))
                raw, index, psha = make_pack(seen)
                base = os.path.join(d, 'pack', 'pack-' + psha.hex())
                with open(base + '.pack', 'wb') as f:
                    f.write(raw)
                with open(base + '.idx', 'wb') as f:
                    f.write(index)
        with open(os.path.join(main, 'info', 'alternates'), 'w') as f:
            f.write(alt + '\n')
        db = GitDB(main)
        for _ in range(3):
            r.shuffle(objs)
            for sha, data, w in objs:
                assert db.has_object(sha) == bool(w) == (sha in db), 'has_object of an object in %r: %r' % (w, db.has_object(sha))
                s = outcome(lambda: db.stream(sha))
                assert (s is not None) == bool(w), 'stream of an object in %r' % w
                if s is not None:
                    assert s.read() == data and s.type == b'blob' and s.binsha == sha, 'content of an object in %r' % w
                    i = db.info(sha)
                    assert i.size == len(data) and i.binsha == sha, 'info of an object in %r' % w
            assert db.size() == sum(len(set(w)) for _, _, w in objs), 'size %d' % db.size()
            assert sorted(db.sha_iter()) == sorted(s for s, _, w in objs for _ in set(w)), 'ids'
            db.update_cache()
    finally:
        shutil.rmtree(root)


def make_pack(items):
    entries = [(t, d) for t, d in items]
    out = bytearray(struct.pack('>4sLL', b'PACK', 2, len(entries)))
    objs = []
    for t, d in entries:
        off = len(out)
        code = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}[t]
        raw = entry_header(code, len(d)) + zlib.compress(d)
        out += raw
        objs.append((oid(t, d), zlib.crc32(raw), off))
    sha = hashlib.sha1(out).digest()
    return bytes(out) + sha, build_index(sorted(objs), sha), sha


def parts(have):
    """the members of a git database are those of its parts that exist"""
    root = tempfile.mkdtemp()
    try:
        main = os.path.join(root, 'main')
        if have is not None:
            os.mkdir(main)
        want = []
        if have and 'p' in have:
            os.mkdir(os.path.join(main, 'pack'))
            want.append(PackedDB)
        if have is not None:
            want.append(LooseObjectDB)
        if have and 'r' in have:
            os.mkdir(os.path.join(main, 'info'))
            open(os.path.join(main, 'info', 'alternates'), 'w').close()
            want.append(ReferenceDB)
        try:
            got = [type(x) for x in GitDB(main).databases()]
        except InvalidDBRoot:
            got = []
        assert got == want, 'members %r, expected %r' % (got, want)
    finally:
        shutil.rmtree(root)


def empty():
    """a compound that was given no members yet has none"""
    db = CompoundDB()
    sha = bytes(range(20))
    assert db.databases() == () and db.size() == 0 and not list(db.sha_iter()) and not db.has_object(sha) and sha not in db
    assert outcome(lambda: db.info(sha)) is None and not db.update_cache() and not db.has_object(sha)


CHECKS = {'history': history, 'real': real, 'parts': parts, 'empty': empty}


def gen(env):
    r = env.rng
    for have in (None, '', 'p', 'r', 'pr'):
        yield 'parts', dict(have=have)
    yield 'empty', dict()
    for shape in ('', 'f', 'c', 'ff', 'fc', 'cf', 'cc', 'ccc', 'fffff', '(cf)c', 'c(f(c))f', '()', '((c)(f))cc'):
        for k in range(6):
            yield 'history', dict(shape=shape, salt=k, steps=60)
    for where in (['p', 'l', 'P', 'L', ''], ['pl', 'lL', 'PL', 'plPL', 'lP'], ['L'], ['l', 'l'], ['P', '', 'p']):
        yield 'real', dict(salt=1, where=where)
    while True:
        if r.random() < .8:
            yield 'history', dict(shape=r.choice(['ffc', 'cffc', 'f(cc)f', '(c)(f)', 'cccccc', 'c']), salt=r.randrange(1 << 30), steps=r.choice([10, 60, 200]))
        else:
            yield 'real', dict(salt=r.randrange(1 << 30), where=[''.join(r.sample('plPL', r.randrange(5))) for _ in range(r.randrange(8))])
