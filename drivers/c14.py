"""C14: pack databases over any histories of queries, additions, removals and refreshes"""
import os
import random
import shutil
import tempfile
import gitdb.util
from gitdb.db import PackedDB
from gitdb.exc import BadObject
from .c13 import make_pack
from .lib import *

NAMES = ('packs', 'p[a]ck', 'p*', 'x?y', '[!z]', 'a b', 'pack-1.pack', '{x}', 'ü')


class Dir:
    """a directory of packs, with the ids of each"""

    def __init__(self, root, r):
        self.root, self.r = root, r
        self.packs = {}
        self.stamp = 1000 * 10 ** 9
        self.n = 0
        self.pool = [b'%d %d' % (k, r.randrange(1 << 30)) for k in range(12)]
        self.ids = {oid(b'blob', d): d for d in self.pool}
        self.touch()

    def touch(self):
        # nanoseconds; a time stamp of this size is exact to a microsecond as float
        self.stamp += self.r.choice([1000, 10 ** 6, 10 ** 8, 3 * 10 ** 8, 10 ** 9, 4 * 10 ** 9])
        os.utime(self.root, ns=(self.stamp, self.stamp))

    def add(self, k=None):
        some = sorted(set(self.r.sample(self.pool, k or self.r.randrange(1, len(self.pool)))))
        raw, index, sha = make_pack([(b'blob', d) for d in some])
        self.n += 1
        name = self.r.choice(['pack-%d%s' % (self.n, sha.hex()[:6]), 'pack-%s' % sha.hex(), 'pack-x[%d]' % self.n])
        if name in self.packs:
            return
        base = os.path.join(self.root, name)
        for ext, data in (('.idx', index), ('.pack', raw)):
            with open(base + ext, 'wb') as f:
                f.write(data)
        self.packs[name] = {oid(b'blob', d): d for d in some}
        self.touch()

    def drop(self):
        if not self.packs:
            return
        name = self.r.choice(sorted(self.packs))
        for ext in ('.idx', '.pack'):
            os.unlink(os.path.join(self.root, name + ext))
        del self.packs[name]
        self.touch()

    def other(self):
        """something that is not a pack"""
        self.n += 1
        with open(os.path.join(self.root, self.r.choice(['pack-%d.keep', 'tmp_pack_%d', 'x%d.pack', 'pack-%d.idx']) % self.n), 'wb') as f:
            f.write(b'x')
        self.touch()


def outcome(f):
    try:
        return f()
    except BadObject:
        return None


def history(salt, name, packs, steps, interval=None, lazy=False):
    r = random.Random(salt)
    top = tempfile.mkdtemp()
    root = os.path.join(top, name)
    os.mkdir(root)
    try:
        d = Dir(root, r)
        for _ in range(packs):
            d.add()
        db = PackedDB(root)
        if interval:
            db._sort_interval = interval
        if not lazy:
            db.entities()
        known = dict(d.packs) if not lazy else None
        clean = True
        before = {}
        ids = sorted(d.ids)
        for step in range(steps):
            gone = known is not None and any(n not in d.packs for n in known)
            op = 'update' if gone else r.choice(['has', 'has', 'in', 'info', 'stream', 'many', 'size', 'iter', 'mixed', 'change', 'update', 'update'])
            if known is None and op != 'change':
                known = dict(d.packs)
                clean = True
            if op == 'change':
                stamp = d.stamp
                for _ in range(r.randrange(1, 4)):
                    r.choice([d.add, d.drop, d.add, d.drop, d.other])()
                if d.stamp != stamp:
                    clean = False
                continue
            if op == 'update':
                old = {e.pack().path(): e for e in db.entities()}
                forced = r.random() < .3
                got = db.update_cache(forced) if r.random() < .7 or forced else db.update_cache()
                if not got:
                    assert clean and not forced, 'a refresh reports no change although the directory changed'
                known, clean = dict(d.packs), True
                now = db.entities()
                paths = sorted(e.pack().path() for e in now)
                assert paths == sorted(os.path.join(root, n + '.pack') for n in known), 'searches %s, the directory has %s' % (
                    [os.path.basename(p) for p in paths], sorted(known))
                for e in now:
                    p = e.pack().path()
                    assert p not in old or old[p] is e, 'an unchanged pack was replaced'
                    assert e.index().path() == p[:-4] + 'idx', 'index of a pack'
                continue
            held = [i for i in ids if any(i in p for p in known.values())]
            for sha in (ids * 3 if op == 'many' else [r.choice(ids)]):
                there = sha in held
                if op in ('has', 'many', 'mixed'):
                    got = db.has_object(sha)
                    assert got is there, 'has_object gives %r' % got
                elif op == 'in':
                    assert (sha in db) is there, 'in gives %r' % (sha in db)
                elif op == 'info':
                    i = outcome(lambda: db.info(sha))
                    assert (i is not None) == there, 'info: %r' % (i,)
                    assert i is None or (i.binsha, i.type, i.size) == (sha, b'blob', len(d.ids[sha])), 'info: %r' % (i,)
                elif op == 'stream':
                    s = outcome(lambda: db.stream(sha))
                    assert (s is not None) == there, 'stream: %r' % (s,)
                    assert s is None or s.binsha == sha and s.read() == d.ids[sha], 'content'
            want = sorted(i for p in known.values() for i in p)
            if op == 'size':
                assert db.size() == len(want), 'size %d' % db.size()
            if op == 'iter':
                assert sorted(db.sha_iter()) == want, 'ids'
            if op == 'mixed':
                got = []
                for i in db.sha_iter():
                    got.append(i)
                    db.has_object(r.choice(ids))
                assert sorted(got) == want, 'ids, with queries in between'
        del db
    finally:
        shutil.rmtree(top)


CHECKS = {'history': history}


def gen(env):
    r = env.rng
    for name in NAMES:
        yield 'history', dict(salt=1, name=name, packs=2, steps=12)
    for n in range(5):
        for iv in (1, 2, 3, None):
            yield 'history', dict(salt=n, name='packs', packs=n, steps=60, interval=iv, lazy=bool(n % 2))
    yield 'history', dict(salt=5, name='packs', packs=4, steps=700)
    while True:
        yield 'history', dict(salt=r.randrange(1 << 30), name=r.choice(NAMES), packs=r.randrange(6), steps=r.choice([5, 30, 120]),
                              interval=r.choice([None, 1, 2, 5]), lazy=r.random() < .3)
