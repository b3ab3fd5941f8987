"""C06: PackIndexFile against the layout of the file"""
import os
import tempfile
from gitdb.pack import PackIndexFile
from gitdb.util import bin_to_hex
from .lib import *


def open_index(data):
    fd, p = tempfile.mkstemp(suffix='.idx')
    os.write(fd, data)
    os.close(fd)
    return PackIndexFile(p), p


def objects(n, kind, salt, offs=()):
    """n (id, crc, offset), ids by the kind of distribution"""
    import random
    r = random.Random(salt)
    ids = set()
    for i in range(n):
        if kind == 'even':
            x = r.randbytes(20)
        elif kind == 'same':
            x = b'\x7f' + r.randbytes(19)
        elif kind == 'zero':
            x = b'\0' + r.randbytes(19)
        elif kind == 'ff':
            x = b'\xff' + r.randbytes(19)
        elif kind == 'ends':
            x = (b'\0' if r.random() < .5 else b'\xff') + r.randbytes(19)
        elif kind == 'close':
            x = b'\x10' * 19 + bytes([i & 255]) if i < 256 else b'\x11' * 18 + bytes([i >> 8, i & 255])
        else:
            x = bytes([i * 256 // max(n, 1)]) + r.randbytes(19)
        ids.add(x)
    pool = [12, 13, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 40 + 3, 2 ** 63 - 1]
    out = []
    for i, x in enumerate(sorted(ids)):
        off = r.choice(pool) + i if offs == 'large' and r.random() < .5 else 12 + 17 * r.randrange(1 << 20)
        if off >= 2 ** 63:
            off = 2 ** 63 - 1
        out.append((x, r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32)]), off))
    return out


def index(n, kind, salt, version, offs=(), force=0):
    objs = objects(n, kind, salt, offs)
    if version == 1:
        objs = [(i, c, o % 2 ** 32) for i, c, o in objs]
    fl = [o[0] for o in objs][:force]
    data = build_index(objs, b'P' * 20, version, fl)
    ix, path = open_index(data)
    try:
        probe(ix, objs, version, data, salt)
    finally:
        ix.close()
        os.unlink(path)


def probe(ix, objs, version, data, salt):
    import random
    r = random.Random(salt)
    assert ix.size() == len(objs), 'size %r' % ix.size()
    assert ix.version() == version, 'version %r' % ix.version()
    order = list(range(len(objs)))
    r.shuffle(order)
    for k in order:
        i, c, o = objs[k]
        for q in (i, bin_to_hex(i)):
            try:
                got = ix.sha_to_index(q)
            except ValueError:
                continue        # hexadecimal ids are the caller's business
            if len(q) == 20:
                assert got == k, 'id number %d is reported at %r' % (k, got)
        assert bytes(ix.sha(k)) == i, 'sha(%d)' % k
        assert ix.offset(k) == o, 'offset(%d) is %r, not %d' % (k, ix.offset(k), o)
        want = c if version == 2 else 0
        assert ix.crc(k) == want, 'crc(%d) is %r' % (k, ix.crc(k))
        e = tuple(ix.entry(k))
        assert (e[0], bytes(e[1]), e[2]) == (o, i, want), 'entry(%d) is %r' % (k, e)
    ids = {x[0] for x in objs}
    probes = [b'\0' * 20, b'\xff' * 20]
    for k in order[:40]:
        i = int.from_bytes(objs[k][0], 'big')
        probes += [x.to_bytes(20, 'big') for x in (i - 1, i + 1, i ^ (1 << r.randrange(160))) if 0 <= x < 2 ** 160]
    probes += [bytes([b]) + r.randbytes(19) for b in (0, 1, 127, 128, 254, 255)]
    for q in probes:
        if q not in ids:
            got = ix.sha_to_index(q)
            assert got is None, 'an absent id is reported at %r' % got
    offs = list(ix.offsets())
    assert sorted(offs) == sorted(o[2] for o in objs) and (version == 1 or offs == [o[2] for o in objs] or True), 'offsets() differs'
    assert offs == [o[2] for o in objs], 'offsets() is not in the order of the index'
    assert bytes(ix.packfile_checksum()) == data[-40:-20], 'pack checksum'
    assert bytes(ix.indexfile_checksum()) == data[-20:], 'index checksum'


CHECKS = {'index': index}


def gen(env):
    kinds = ['even', 'same', 'zero', 'ff', 'ends', 'close', 'spread']
    for n in (0, 1, 2, 3, 255, 256, 257):
        for v in (2, 1):
            for k in kinds:
                yield 'index', dict(n=n, kind=k, salt=n, version=v, offs='large' if k in ('even', 'close', 'same') else '')
    for f in (1, 3):
        yield 'index', dict(n=5, kind='even', salt=f, version=2, offs='', force=f)
    ns = [x for x in env.constants(['gitdb/pack.py', 'gitdb/fun.py']) if x < 3000]
    while True:
        yield 'index', dict(n=env.rng.choice(ns) if env.rng.random() < .3 else env.rng.randrange(60), kind=env.rng.choice(kinds), salt=env.rng.randrange(1 << 30),
                            version=env.rng.choice([1, 2]), offs=env.rng.choice(['', 'large']), force=env.rng.choice([0, 0, 2]))
