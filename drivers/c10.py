"""C10: storing loose objects and reading them back"""
import io
import os
import random
import shutil
import tempfile
from gitdb.base import IStream
from gitdb.db.loose import LooseObjectDB
from gitdb.db.git import GitDB
from gitdb.stream import Sha1Writer
from gitdb.exc import BadObject
from gitdb.util import bin_to_hex
from .inflate import *
from .watch import fds, listing, content as content_of


class Slow:
    """a stream that counts, and delivers what is asked"""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def path_of(root, sha):
    h = bin_to_hex(sha).decode()
    return os.path.join(root, h[:2], h[2:])


def readable(db, root, sha, typ, data, what):
    p = path_of(root, sha)
    raw = content_of(p)
    assert isinstance(raw, bytes), '%s: no file under the id' % what
    o = zlib.decompressobj()
    plain = o.decompress(raw)
    assert o.eof and not o.unused_data and plain == typ + b' %d\0' % len(data) + data, '%s: the file does not inflate to header and content' % what
    assert db.has_object(sha), '%s: has_object' % what
    i = db.info(sha)
    assert (i.binsha, i.hexsha, bytes(i.type), i.size) == (sha, bin_to_hex(sha), typ, len(data)), '%s: info %r' % (what, i)
    s = db.stream(sha)
    assert (s.binsha, bytes(s.type), s.size) == (sha, typ, len(data)), '%s: stream %r' % (what, s[:3])
    assert s.read() == data, '%s: content' % what
    s = db.stream(sha)
    half = s.read(len(data) // 2 + 1)
    assert half + s.read(len(data) + 1) == data, '%s: content in two reads' % what


def history(ops, chunk=None, salt=0, git=False):
    """ops: ['store', type, n, kind] | ['raw', type, n, kind, enc] (already compressed) |
    ['dry', type, n, kind] | ['again'] | ['absent']"""
    root = tempfile.mkdtemp(prefix='loose')
    try:
        fd0 = set(fds())
        db = LooseObjectDB(root)
        if chunk:
            db.stream_chunk_size = chunk
        loose, both = db, [db, GitDB(root) if git else db]
        stored = []
        for k, op in enumerate(ops):
            what = 'step %d %r' % (k, op)
            db = both[(k + 1) % 2]
            if op[0] == 'absent' or op[0] == 'again' and not stored:
                sha = hashlib.sha1(b'%d %d' % (k, salt)).digest()
                assert not db.has_object(sha)
                for f in (db.info, db.stream):
                    try:
                        f(sha)
                    except BadObject:
                        continue
                    raise AssertionError('%s: an object nobody stored' % what)
                continue
            if op[0] == 'again':
                typ, data, sha, enc = stored[k % len(stored)]
            else:
                typ, data, enc = op[1].encode(), env_content(op, salt + k), op[4] if op[0] == 'raw' else None
                sha = oid(typ, data)
            before = content_of(path_of(root, sha))
            st = os.stat(path_of(root, sha)) if before is not None else None
            names = listing(root)
            if op[0] == 'dry':
                w = Sha1Writer()
                old = db.set_ostream(w)
                assert db.ostream() is w, '%s: the stream to store into' % what
                r = db.store(IStream(typ, len(data), Slow(data)))
                db.set_ostream(old)
                assert db.ostream() is old is None, '%s: the stream to store into, afterwards' % what
                assert r.binsha == sha == w.sha(), '%s: id of a dry run' % what
                assert listing(root) == names, '%s: a dry run stores' % what
                continue
            if op[0] == 'raw':
                raw = deflate(typ + b' %d\0' % len(data) + data, enc, salt + k)
                ist = IStream(typ, len(data), Slow(raw), sha)
            else:
                ist = IStream(typ, len(data), Slow(data))
            if k % 3 == 2:          # described after it was made
                later = IStream(b'other', 1, None, b'5' * 20)
                later.type, later.size, later.stream, later.binsha = ist.type, ist.size, ist.stream, ist.binsha
                ist = later
                assert ist.error is None
            r = db.store(ist)
            assert r is ist and r.binsha == sha and r.hexsha == bin_to_hex(sha), '%s: id' % what
            assert (r.type, r.size) == (typ, len(data)), '%s: type and size of the stream' % what
            now = content_of(path_of(root, sha))
            if before is not None:
                st2 = os.stat(path_of(root, sha))
                assert now == before and (st.st_ino, st.st_mtime_ns) == (st2.st_ino, st2.st_mtime_ns), '%s: an existing object was replaced' % what
            elif op[0] == 'raw':
                assert now == raw, '%s: not stored byte for byte' % what
            new = os.path.relpath(path_of(root, sha), root)
            assert listing(root) == sorted(set(names) | {new}), '%s: files %s' % (what, listing(root))
            stored.append((typ, data, sha, enc))
            readable(db, root, sha, typ, data, what)
        db = loose
        for typ, data, sha, _ in stored:
            readable(LooseObjectDB(root), root, sha, typ, data, 'at the end')
        assert sorted(db.sha_iter()) == sorted({s[2] for s in stored}), 'ids'
        assert db.size() == len({s[2] for s in stored}), 'size'
        # what is left behind by a writer that was stopped, packs and the like are no objects
        for sub in ('pack', 'info', 'a', 'abc', *sorted(os.listdir(root))[:2]):
            os.makedirs(os.path.join(root, sub), exist_ok=True)
            for n in (2, 37, 39, 40, 41) + (() if len(sub) == 2 else (38,)):
                open(os.path.join(root, sub, 'tmp_obj_%s_%s' % (sub, '5' * 40))[:len(root) + len(sub) + 2 + n], 'w').close()
        assert sorted(db.sha_iter()) == sorted({s[2] for s in stored}), 'ids, with other files around'
        assert db.size() == len({s[2] for s in stored}), 'size, with other files around'
        import gc
        gc.collect()
        left = {k: v for k, v in fds().items() if k not in fd0 and v.startswith(root)}
        assert not left, 'open descriptors %r' % left
    finally:
        shutil.rmtree(root, ignore_errors=True)


from . import inflate


def env_content(op, salt):
    return inflate.content(op[2], op[3], salt)


CHECKS = {'history': history, 'zlib_model': zlib_model}


def gen(env):
    r = env.rng
    sizes = [0, 1, 2, 9, 10, 99, 100, 4095, 4096, 4097, 8183, 8192, 100000]
    for n in sizes:
        for kind in KINDS[:3]:
            yield 'history', dict(ops=[['store', 'blob', n, kind], ['again'], ['store', 'tree', n, kind], ['dry', 'blob', n, kind], ['dry', 'tag', n + 1, kind], ['absent']], salt=n, git=kind == KINDS[0])
            yield 'history', dict(ops=[['raw', 'commit', n, kind, r.choice(ENCS)], ['again'], ['absent'], ['store', 'blob', n, 'text']], salt=n)
    for n in (0, 1, 9, 10, 11, 20, 21, 30):
        for ch in (1, 2, 10):
            yield 'history', dict(ops=[['store', 'blob', n, 'random'], ['raw', 'tag', n, 'random', 0]], chunk=ch, salt=n)
    yield 'history', dict(ops=[['store', 'blob', 2100000, 'text'], ['again']])
    for n in [x for x in env.constants(['gitdb/db/loose.py', 'gitdb/fun.py', 'gitdb/const.py', 'gitdb/stream.py', 'gitdb/util.py']) if x <= 4000000]:
        for d in (0, 1, 2):
            yield 'history', dict(ops=[['store', 'blob', max(0, n - 1 + d), 'random' if n < 100000 else 'text']])
    while True:
        ops = []
        for _ in range(r.randrange(1, 7)):
            n = r.choice([r.randrange(12), r.randrange(300), r.randrange(9000), r.choice(sizes)])
            k = r.choice(KINDS)
            t = r.choice(['blob', 'tree', 'commit', 'tag', 'x', 'longer-type'])
            ops.append(r.choice([['store', t, n, k], ['store', t, n, k], ['raw', t, n, k, r.choice(ENCS)], ['dry', t, n, k], ['again'], ['absent']]))
        yield 'history', dict(ops=ops, chunk=r.choice([None, None, 1 + r.randrange(50), 4096]), salt=r.randrange(1 << 30), git=r.random() < .4)
