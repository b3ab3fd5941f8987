"""C18: integrity verification"""
import os
import random
import tempfile
import importlib
from gitdb.exc import BadObject, UnsupportedOperation
from .c03 import *
from .inflate import content


def verdict(f):
    try:
        r = f()
    except (UnsupportedOperation, BadObject):
        raise
    except Exception:
        return False
    assert r is True or r is False, 'answers %r' % (r,)
    return r


class Pack:
    def __init__(self, raw, idx):
        self.d = tempfile.mkdtemp()
        self.p, self.x = os.path.join(self.d, 'a.pack'), os.path.join(self.d, 'a.idx')
        for f, b in ((self.p, raw), (self.x, idx)):
            with open(f, 'wb') as o:
                o.write(b)

    def __enter__(self):
        self.e = pk.PackEntity(self.p)
        return self.e

    def __exit__(self, *a):
        self.e.close()
        for f in (self.p, self.x):
            os.remove(f)
        os.rmdir(self.d)


def build(spec, salt):
    """spec as in C03, or [number of bytes] for a large plain object"""
    objs = layout([s for s in spec if len(s) == 3], salt)
    ents, _ = place(objs, list(range(len(objs))), salt)
    for k, s in enumerate(spec):
        if len(s) == 1:
            ents.insert(len(ents) if k else 0, dict(kind='full', type=3, content=content(s[0], 'random', salt + k), level=0))
            if not k:
                for e in ents[1:]:
                    if e['kind'] == 'ofs':
                        e['base'] += 1
    return build_pack(ents)


def crc(spec, salt, damage, version=2):
    """damage: list of [entry, where in it, xor]"""
    raw, info, sha = build(spec, salt)
    idx = build_index([(i['id'], i['crc'], i['offset']) for i in info], sha, version)
    raw = bytearray(raw)
    hit = set()
    for n, where, x in damage:
        i = info[n % len(info)]
        w = i['offset'] + (where % len(i['raw']) if where >= 0 else len(i['raw']) - 1)
        raw[w] ^= x
    for i in info:
        if raw[i['offset']:i['offset'] + len(i['raw'])] != i['raw']:
            hit.add(i['id'])
    order = list(range(len(info)))
    random.Random(salt).shuffle(order)
    with Pack(bytes(raw), idx) as e:
        for k in order:
            i = info[k]
            if version == 1:
                try:
                    r = e.is_valid_stream(i['id'], use_crc=True)
                except UnsupportedOperation:
                    continue
                raise AssertionError('answers %r without checksums' % (r,))
            r = verdict(lambda: e.is_valid_stream(i['id'], use_crc=True))
            assert r == (i['id'] not in hit), 'entry %d (%d bytes at %d, %s) verified by checksum: %s' % (k, len(i['raw']), i['offset'], 'damaged' if i['id'] in hit else 'intact', r)
        error(lambda: e.is_valid_stream(b'\1' * 20, use_crc=True), BadObject, UnsupportedOperation)


def sha(spec, salt, wrong, version=2):
    """objects listed under an id that is not theirs are not valid"""
    raw, info, psha = build(spec, salt)
    r = random.Random(salt)
    ids = {}
    for k, i in enumerate(info):
        w = i['id']
        if k in wrong:
            w = bytearray(w)
            w[r.randrange(20)] ^= 1 << r.randrange(8)
        ids[k] = bytes(w)
    idx = build_index([(ids[k], i['crc'], i['offset']) for k, i in enumerate(info)], psha, version)
    with Pack(raw, idx) as e:
        known = set(ids.values())
        for k, i in enumerate(info):
            deltas_ok = k in wrong or True
            got = verdict(lambda: e.is_valid_stream(ids[k]))
            if k in wrong:
                assert got is False, 'object %d is accepted under an id that is not its own' % k
            elif not wrong:
                assert got is True, 'intact object %d is refused' % k
        error(lambda: e.is_valid_stream(b'\1' * 20), BadObject)


CHECKS = {'crc': crc, 'sha': sha}


def gen(env):
    r = env.rng
    F, O, R = 'full', 'ofs', 'ref'
    small = [[F, None, 0], [O, 0, 0], [R, 1, 0], [F, None, 30], [R, 0, 0]]
    for n in range(5):
        for w in (0, 1, 2, -1):
            yield 'crc', dict(spec=small, salt=n, damage=[[n, w, 1 + 40 * n]])
    yield 'crc', dict(spec=small[:1], salt=1, damage=[])
    yield 'crc', dict(spec=small[:1], salt=1, damage=[[0, -1, 1]])
    yield 'crc', dict(spec=small, salt=1, damage=[], version=1)
    yield 'sha', dict(spec=small, salt=1, wrong=[])
    yield 'sha', dict(spec=small, salt=1, wrong=[0, 1, 2, 3, 4, 5])
    yield 'sha', dict(spec=small, salt=1, wrong=[], version=1)
    cs = sorted({x for x in env.constants(['gitdb/pack.py', 'gitdb/fun.py']) if 1000 < x <= 1 << 21} | {4096000, 8192000})
    for n in cs:
        for d in (-40, 0, 3):
            yield 'crc', dict(spec=[[n + d], [F, None, 0]], salt=n, damage=[[0, -1, 1]])
            yield 'crc', dict(spec=[[n + d], [F, None, 0]], salt=n, damage=[])
        yield 'crc', dict(spec=[[n + 100], [F, None, 0]], salt=n, damage=[[0, n + 20, 8]])
        yield 'sha', dict(spec=[[n + 1], [F, None, 0]], salt=n, wrong=[])
    while True:
        n = r.randrange(1, 9)
        spec = [[r.choice([F, O, R]) if k else F, r.randrange(max(0, k - 3), k) if k else None, r.choice([0, 0, r.randrange(300)])] for k in range(n)]
        for s in spec:
            if s[0] == F:
                s[1] = None
        if r.random() < .6:
            yield 'crc', dict(spec=spec, salt=r.randrange(1 << 30), damage=[[r.randrange(n), r.choice([-1, 0, 1, r.randrange(400)]), r.randrange(1, 256)] for _ in range(r.choice([0, 1, 1, 1, 2]))], version=2 if r.random() < .95 else 1)
        else:
            yield 'sha', dict(spec=spec, salt=r.randrange(1 << 30), wrong=r.choice([[], list(range(20)), list(range(0, 20, 2))]), version=r.choice([1, 2]))
