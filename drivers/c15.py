"""C15: reference databases over any sequence of changes to their file"""
import io
import os
import random
import shutil
import tempfile
from gitdb.base import IStream
from gitdb.db import CompoundDB, GitDB, LooseObjectDB, ReferenceDB
from gitdb.exc import InvalidDBRoot
from .lib import *


class Picky(LooseObjectDB):
    """fails in one of several ways for some paths"""
    log = []

    def __init__(self, path):
        Picky.log.append(path)
        b = os.path.basename(path)
        for k, e in (('dbroot', InvalidDBRoot), ('oserror', PermissionError), ('value', ValueError), ('assert', AssertionError), ('key', KeyError), ('type', TypeError), ('attr', AttributeError)):
            if k in b:
                raise e(path)
        super().__init__(path)


class Lazy(CompoundDB):
    """cannot be opened, as it turns out later"""

    def __init__(self, path):
        super().__init__()
        self.path = path

    def root_path(self):
        return self.path

    def _set_cache_(self, attr):
        if attr == '_dbs' and 'ok' not in self.path:
            raise (OSError if 'os' in self.path else InvalidDBRoot)(self.path)
        if attr == '_dbs':
            self._dbs = []
        else:
            super()._set_cache_(attr)


def world(top, kind):
    """(class to use, paths, the usable ones)"""
    if kind == 'git':
        paths, good = [], set()
        for n in ('a', 'b c', 'ü', 'z', 'x#y', 'A'):
            p = os.path.join(top, n)
            os.makedirs(os.path.join(p, 'pack'))
            paths.append(p)
            good.add(p)
        for n in ('none', 'none2'):
            paths.append(os.path.join(top, n))
        os.mkdir(os.path.join(top, 'empty'))
        paths.append(os.path.join(top, 'empty', 'objects'))
        return None, paths, good
    if kind == 'lazy':
        paths = [os.path.join('/', n) for n in ('ok1', 'bad', 'os', 'ok2', 'ok3', 'bad2')]
        return Lazy, paths, {p for p in paths if 'ok' in p}
    if kind == 'same':
        paths = ['/x/%d' % n for n in range(12)]
        return Picky, paths, set(paths)
    paths = ['/p/' + n for n in ('a', 'dbroot', 'b', 'oserror', 'c', 'value', 'assert', 'key', 'd', 'type', 'attr', 'e')]
    return Picky, paths, {p for p in paths if len(p) == 4}


def lines_of(r, paths):
    some = [r.choice(paths) for _ in range(r.choice([0, 1, 2, 4, 8, 14]))]
    out = []
    for p in some:
        out.append(r.choice(['', '', '', ' ', '\t']) + p + r.choice(['', '', '', ' ', '  ']))
        while r.random() < .2:
            out.append(r.choice(['', '', ' ', '\t']))
    end = r.choice(['\n', '\n', '\n', '\r\n'])
    text = end.join(out) + r.choice(['', end])
    return text, [p for p in out if p.strip()]


def history(salt, kind, steps, first='file'):
    r = random.Random(salt)
    top = os.path.realpath(tempfile.mkdtemp())
    old = os.getcwd()
    os.mkdir(os.path.join(top, 'cwd'))
    os.mkdir(os.path.join(top, 'cwd', 'pack'))
    try:
        # what the file says must not depend on the directory this runs in
        os.chdir(os.path.join(top, 'cwd'))
        cls, paths, good = world(top, kind)
        good = set(good)
        ref = os.path.join(top, 'alternates')

        class Refs(ReferenceDB):
            ObjectDBCls = cls

        def change():
            """new content; returns the distinct paths, in order"""
            k = r.random()
            if os.path.isdir(ref):
                os.rmdir(ref)
            elif os.path.lexists(ref):
                os.unlink(ref)
            if k < .08:
                return []
            if k < .12:
                os.mkdir(ref)
                return []
            if k < .16:
                os.symlink(ref, ref)
                return []
            text, ps = lines_of(r, paths)
            with open(ref, 'wb') as f:
                f.write(text.encode('utf-8'))
            if k < .2 and os.geteuid():
                os.chmod(ref, 0)
                return []
            out = []
            for p in ps:
                if p.strip() not in out:
                    out.append(p.strip())
            return out
        held = {}
        if kind == 'git':
            for p in good:
                held[p] = LooseObjectDB(p).store(IStream(b'blob', len(p.encode()), io.BytesIO(p.encode()))).binsha
        asked = list(held.values())
        listed = change() if first == 'file' else []
        db = Refs(ref) if kind != 'git' or r.random() < .5 else ReferenceDB(ref)
        have = []
        for step in range(steps):
            if kind == 'git':
                # directories that are not in use come and go
                for p in paths:
                    if p not in dict(have) and r.random() < .1 and not p.endswith('objects'):
                        if os.path.isdir(p):
                            shutil.rmtree(p)
                            good.discard(p)
                            held.pop(p, None)
                        else:
                            os.makedirs(os.path.join(p, 'pack'))
                            good.add(p)
            if step:
                if r.random() < .8:
                    listed = change()
                r.choice([lambda: db.update_cache(), lambda: db.update_cache(True), lambda: db.update_cache(force=False)])()
            now = list(db.databases())
            want = [p for p, _ in have if p in listed]
            want += [p for p in listed if p in good and p not in want]
            got = [d.root_path() for d in now]
            assert sorted(got) == sorted(want), 'databases %s, the file lists the usable %s' % (got, want)
            added = [p for p in listed if p not in dict(have) and p in want]
            assert [p for p in got if p in added] == added, 'new ones in the order %s, the file lists %s' % ([p for p in got if p in added], added)
            for p, d in have:
                if p in listed:
                    assert any(x is d for x in now), 'the database at %s was replaced' % p
            if cls:
                assert all(type(d) is cls for d in now), 'kind of database'
            else:
                assert all(type(d) is GitDB for d in now), 'kind of database'
            have = [(d.root_path(), d) for d in now]
            # objects are those of the databases that are listed now, also if one was asked for before
            for sha in asked:
                there = any(held.get(p) == sha for p in got)
                assert db.has_object(sha) == there, 'an object of %s: %s' % ([p for p in held if held[p] == sha], 'not found' if there else 'found although it is not listed')
    finally:
        os.chdir(old)
        shutil.rmtree(top)


CHECKS = {'history': history}


def gen(env):
    r = env.rng
    for k in ('git', 'lazy', 'picky', 'same'):
        for f in ('file', 'none'):
            for s in range(6):
                yield 'history', dict(salt=s, kind=k, steps=30, first=f)
    while True:
        yield 'history', dict(salt=r.randrange(1 << 30), kind=r.choice(['git', 'lazy', 'picky', 'same']), steps=r.choice([3, 15, 60]), first=r.choice(['file', 'file', 'none']))
