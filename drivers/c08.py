"""C08: IndexWriter against the format of version 2 indices"""
import io
import os
import random
import tempfile
from gitdb.pack import IndexWriter, PackIndexFile
from .lib import *
from .c06 import objects


def write(n, kind, salt, offs='', order='shuffled', piecewise=False, reread=True, repeat=1):
    objs = objects(n, kind, salt, offs)
    given = list(objs)
    r = random.Random(salt)
    if order == 'shuffled':
        r.shuffle(given)
    elif order == 'reversed':
        given.reverse()
    w = IndexWriter()
    for i, c, o in given:
        w.append(i, c, o)
    psha = r.randbytes(20)
    for _ in range(repeat):
        out = io.BytesIO()
        sha = w.write(psha, out.write)
        data = out.getvalue()
        check(objs, psha, sha, data)
    if reread:
        fd, p = tempfile.mkstemp(suffix='.idx')
        os.write(fd, data)
        os.close(fd)
        ix = PackIndexFile(p)
        try:
            assert ix.version() == 2 and ix.size() == len(objs), 'read back: size'
            for k, (i, c, o) in enumerate(objs):
                assert ix.sha_to_index(i) == k, 'read back: position of id %d' % k
                assert ix.offset(k) == o, 'read back: offset %d is %d, not %d' % (k, ix.offset(k), o)
                assert ix.crc(k) == c, 'read back: checksum %d' % k
            assert bytes(ix.packfile_checksum()) == psha and bytes(ix.indexfile_checksum()) == sha, 'read back: checksums'
        finally:
            ix.close()
            os.unlink(p)


def check(objs, psha, sha, data):
    n = len(objs)
    assert data[:8] == b'\377tOc\0\0\0\2', 'signature'
    for b in range(256):
        v = struct.unpack_from('>L', data, 8 + 4 * b)[0]
        assert v == sum(1 for o in objs if o[0][0] <= b), 'fan-out entry %d is %d' % (b, v)
    p = 8 + 1024
    assert data[p:p + 20 * n] == b''.join(o[0] for o in objs), 'ids'
    p += 20 * n
    crcs = struct.unpack_from('>%dL' % n, data, p)
    assert list(crcs) == [o[1] for o in objs], 'checksums'
    p += 4 * n
    q = p + 4 * n
    used = 0
    for k, v in enumerate(struct.unpack_from('>%dL' % n, data, p)):
        if v & 0x80000000:
            used = max(used, (v & 0x7fffffff) + 1)
            v = struct.unpack_from('>Q', data, q + 8 * (v & 0x7fffffff))[0]
        assert v == objs[k][2], 'offset %d reads back as %d, not %d' % (k, v, objs[k][2])
    q += 8 * used
    assert data[q:q + 20] == psha, 'pack checksum'
    assert data[q + 20:] == hashlib.sha1(data[:q + 20]).digest(), 'index checksum'
    assert sha == data[q + 20:], 'returned checksum'


CHECKS = {'write': write}


def gen(env):
    kinds = ['even', 'same', 'zero', 'ff', 'ends', 'close', 'spread']
    for n in (0, 1, 2, 3, 10, 256, 257):
        for k in kinds:
            for offs in ('', 'large'):
                yield 'write', dict(n=n, kind=k, salt=n, offs=offs, order='shuffled' if n % 2 else 'reversed')
    yield 'write', dict(n=20, kind='even', salt=5, offs='large', repeat=2)
    ns = [x for x in env.constants(['gitdb/pack.py']) if x < 3000]
    while True:
        yield 'write', dict(n=env.rng.choice(ns) if env.rng.random() < .3 else env.rng.randrange(60), kind=env.rng.choice(kinds), salt=env.rng.randrange(1 << 30),
                            offs=env.rng.choice(['', 'large']), order=env.rng.choice(['shuffled', 'reversed', 'sorted']))
