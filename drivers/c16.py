"""C16: memory databases over any history, and transfer to other databases"""
import io
import os
import random
import shutil
import tempfile
from gitdb.base import IStream
from gitdb.db import LooseObjectDB, MemoryDB
from gitdb.exc import BadObject
from gitdb.util import bin_to_hex
from . import inflate
from .inflate import *
from .watch import listing

TYPES_ = (b'blob', b'tree', b'commit', b'tag', b'x', b'longer-type')


def deflated(typ, data, enc, salt):
    return deflate(typ + b' %d\0' % len(data) + data, enc, salt)


def same(db, sha, typ, data, r, what):
    assert db.has_object(sha) is True and sha in db, '%s: has_object' % what
    i = db.info(sha)
    assert (i.binsha, bytes(i.type), i.size) == (sha, typ, len(data)), '%s: info %r' % (what, i[:3])
    s = db.stream(sha)
    assert (s.binsha, bytes(s.type), s.size) == (sha, typ, len(data)), '%s: stream %r' % (what, s[:3])
    k = r.randrange(4)
    if k == 0:
        got = s.read()
    elif k == 1:
        got = s.read(len(data) + r.randrange(1, 9))
    else:
        got = b''
        while True:
            d = s.read(r.choice([1, 7, 100, 5000, len(data) // 3 + 1]) if len(data) < 20000 else r.choice([5000, len(data) // 3 + 1]))
            if not d:
                break
            got += d
    assert got == data, '%s: content (%d of %d bytes)' % (what, len(got), len(data))
    plain = zlib.decompress(bytes(s.stream.data()))
    assert plain == typ + b' %d\0' % len(data) + data, '%s: the stored bytes' % what


def history(salt, steps, sizes=None, kind='any'):
    r = random.Random(salt)
    root = tempfile.mkdtemp()
    try:
        db = MemoryDB()
        held = {}
        targets = [(MemoryDB(), {}), (LooseObjectDB(tempfile.mkdtemp(dir=root)), {})]
        for step in range(steps):
            op = r.choice(['store', 'store', 'raw', 'again', 'part', 'part', 'query', 'absent', 'copy', 'copy'])
            what = 'step %d %s' % (step, op)
            if op in ('store', 'raw') or not held:
                n = r.choice(sizes or [0, 1, 9, 10, 11, 99, 100, r.randrange(300), r.randrange(9000), 8150 + r.randrange(60), 40000])
                typ = r.choice(TYPES_)
                data = inflate.content(n, r.choice(KINDS[:3]) if kind == 'any' else kind, salt + step)
                sha = oid(typ, data)
                if op == 'raw':
                    ist = IStream(typ, n, io.BytesIO(deflated(typ, data, r.choice(ENCS), salt)), sha)
                else:
                    ist = IStream(typ, n, io.BytesIO(data))
                got = db.store(ist)
                assert got is ist and got.binsha == sha, '%s: id' % what
                held[sha] = (typ, data)
                same(db, sha, typ, data, r, what) if r.random() < .5 else None
                continue
            sha = r.choice(sorted(held))
            typ, data = held[sha]
            if op == 'again':
                got = db.store(IStream(typ, len(data), io.BytesIO(data)))
                assert got.binsha == sha, '%s: id' % what
            elif op == 'part':
                s = db.stream(sha)
                for _ in range(r.randrange(4)):
                    s.read(r.choice([1, 5, 1000, len(data) + 1, -1]))
                if r.random() < .3:
                    s.stream.compressed_bytes_read()
                if r.random() < .3:
                    s.stream.seek(0)
            elif op == 'query':
                same(db, sha, typ, data, r, what)
            elif op == 'absent':
                x = r.choice([hashlib.sha1(b'%d' % step).digest(), bytes([sha[0] ^ 1]) + sha[1:], sha[:19] + bytes([sha[19] ^ 255])])
                if x in held:
                    continue
                assert db.has_object(x) is False and x not in db, '%s: has_object' % what
                for f in (db.info, db.stream):
                    try:
                        f(x)
                    except BadObject:
                        continue
                    raise AssertionError('%s: an object nobody stored' % what)
            elif op == 'copy':
                t, has = r.choice(targets)
                if r.random() < .2:
                    t, has = (MemoryDB(), {}) if r.random() < .5 else (LooseObjectDB(tempfile.mkdtemp(dir=root, prefix='t')), {})
                for i in r.sample(sorted(held), min(len(held), r.randrange(3))):
                    if i not in has and r.random() < .5:
                        # it is there already
                        t.store(IStream(held[i][0], len(held[i][1]), io.BytesIO(held[i][1])))
                        has[i] = held[i]
                want = [r.choice(sorted(held)) for _ in range(r.randrange(7))]
                new = {i for i in want if i not in has}
                for i in want:
                    if r.random() < .3:
                        db.stream(i).read(r.randrange(1, 50))
                before = {i: open(os.path.join(t.root_path(), bin_to_hex(i).decode()[:2], bin_to_hex(i).decode()[2:]), 'rb').read() for i in has} if isinstance(t, LooseObjectDB) else {}
                count = db.stream_copy(r.choice([iter, list, tuple])(want), t)
                assert count == len(new), '%s: counts %d of %d' % (what, count, len(new))
                has.update({i: held[i] for i in new})
                assert sorted(t.sha_iter()) == sorted(has) and t.size() == len(has), '%s: ids in the target' % what
                for i, raw in before.items():
                    h = bin_to_hex(i).decode()
                    assert open(os.path.join(t.root_path(), h[:2], h[2:]), 'rb').read() == raw, '%s: an object that was there has changed' % what
                for i in (sorted(has) if len(has) < 8 else sorted(new)):
                    if isinstance(t, MemoryDB):
                        same(t, i, *has[i], r, what + ' (memory)')
                    else:
                        s = t.stream(i)
                        assert (s.binsha, bytes(s.type), s.size) == (i, has[i][0], len(has[i][1])), '%s: copied object' % what
                        assert s.read() == has[i][1], '%s: copied content' % what
                for i in want:
                    if r.random() < .3:
                        same(db, i, *held[i], r, what + ' (source)')
            assert db.size() == len(held), '%s: size %d of %d' % (what, db.size(), len(held))
            assert sorted(db.sha_iter()) == sorted(held), '%s: ids' % what
        for i in sorted(held):
            same(db, i, *held[i], r, 'at the end')
            same(db, i, *held[i], r, 'at the end, again')
    finally:
        shutil.rmtree(root, ignore_errors=True)


CHECKS = {'history': history, 'zlib_model': zlib_model}


def gen(env):
    r = env.rng
    for n in (0, 1, 10, 100, 8183, 8192, 8200, 100000):
        yield 'history', dict(salt=n, steps=25, sizes=[n, n + 1])
    for s in range(6):
        yield 'history', dict(salt=s, steps=60)
    yield 'history', dict(salt=77, steps=8, sizes=[1100000], kind='text')
    for n in [x for x in env.constants(['gitdb/db/mem.py', 'gitdb/fun.py', 'gitdb/const.py', 'gitdb/stream.py']) if 0 <= x <= 1500000]:
        yield 'history', dict(salt=n, steps=6, sizes=[n])
    while True:
        yield 'history', dict(salt=r.randrange(1 << 30), steps=r.choice([5, 20, 80]))
