"""C04: inflating streams against zlib"""
from gitdb.stream import DecompressMemMapReader
from gitdb.fun import loose_object_header_info
from .inflate import *


def history(n, kind, enc, salt, ops, header=None, trail='none', view=False, chunky=None):
    """ops: numbers to read, 'rewind', 'bad', 'cbr' (compressed_bytes_read)"""
    data = content(n, kind, salt)
    plain = (header.encode() + b' %d\0' % n if header else b'') + data
    z = deflate(plain, enc, salt)
    m = a_map(z + trailing(trail, salt), 'view' if view else '')
    if header:
        if not view or hasattr(m, 'find'):
            assert tuple(loose_object_header_info(m)) == (header.encode(), n), 'loose_object_header_info'
        t, s, r = DecompressMemMapReader.new(m)
        assert (t, s) == (header.encode(), n), 'type and size %r' % ((t, s),)
    else:
        r = DecompressMemMapReader(m, False, n)
    pos = 0
    for i, op in enumerate(ops):
        what = 'step %d (%r at %d of %d)' % (i, op, pos, n)
        if op == 'rewind':
            r.seek(0)
            pos = 0
        elif op == 'bad':
            for a in ((1,), (0, 1), (0, 2), (-1,)):
                try:
                    r.seek(*a)
                except ValueError:
                    continue
                raise AssertionError('seek%r is accepted' % (a,))
        elif op == 'cbr':
            if pos == n:
                r.compressed_bytes_read()
        else:
            got = r.read() if op == 'all' else r.read(op)
            want = data[pos:] if op == 'all' or op < 1 else data[pos:pos + op]
            assert bytes(got) == want, '%s returns %d bytes instead of %d%s' % (what, len(got), len(want), '' if len(got) != len(want) else ', other bytes')
            pos += len(want)


CHECKS = {'zlib_model': zlib_model, 'history': history}


def gen(env):
    r = env.rng
    sizes = [0, 1, 2, 7, 8, 9, 100, 511, 512, 4095, 4096, 8170, 8183, 8184, 8185, 8192, 8193, 9000, 20000, 70000]
    opss = [['all', 1], [1] * 12 + ['all', 5], [10, 'rewind', 3, 'all', 'rewind', 'all'], ['rewind', 'rewind', 5, 'bad', 5, -1, 0, 'rewind', 1, 'bad', 1],
            ['all', 'cbr', 'rewind', 'all', 'cbr', 'rewind', 7, 'all'], [4096, 4096, 4096, 'all', 'rewind', 4096, 'all'], [8100, 100, 'all'], [10000000, 'rewind', 8192, 'rewind', 100000, 1]]
    for n in sizes:
        for kind in KINDS[:3]:
            enc = r.choice(ENCS)
            for ops in opss:
                for h in (None, 'blob'):
                    yield 'history', dict(n=n, kind=kind, enc=enc, salt=n, ops=ops, header=h, trail=r.choice(TRAIL), view=bool(r.randrange(2)) and h is None)
    cs = [x for x in env.constants(['gitdb/stream.py']) if x <= 1 << 20]
    while True:
        if r.random() < .1:
            n = r.choice([0, 1, r.randrange(30), r.randrange(9000)])
            yield 'zlib_model', dict(n=n, kind=r.choice(KINDS), enc=r.choice(ENCS), salt=r.randrange(1 << 30), trail=r.choice(TRAIL),
                                     steps=[[r.choice([0, 1, 8, r.randrange(1, n + 20), n + 100]), r.choice([0, 1, 7, r.randrange(1, n + 2)])] for _ in range(r.randrange(1, 12))])
        n = r.choice(cs + [r.randrange(10), r.randrange(300), r.randrange(20000), r.randrange(100000)])
        m = r.choice([2, 10, 200, 9000, n + 2])
        ops = []
        for _ in range(r.randrange(1, 12)):
            ops.append(r.choice([r.randrange(1, m + 1)] * 6 + ['rewind', 'cbr', 'all', r.choice(cs), 'bad', r.randrange(-3, 3), max(1, n - r.randrange(3))]))
        yield 'history', dict(n=n, kind=r.choice(KINDS), enc=r.choice(ENCS), salt=r.randrange(1 << 30), ops=ops + ['all'], header=r.choice([None, 'blob', 'commit', 'tree', 'tag', 'x' * r.randrange(1, 40)]),
                              trail=r.choice(TRAIL), view=False)
