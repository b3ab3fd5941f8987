"""C05: compressed extents and pack scans"""
import os
import random
import tempfile
import importlib
from gitdb.stream import DecompressMemMapReader
from .inflate import *
PackFile = importlib.import_module('gitdb.pack').PackFile


def extent(n, kind, enc, salt, ops, header=None, trail='none'):
    data = content(n, kind, salt)
    plain = (header.encode() + b' %d\0' % n if header else b'') + data
    z = deflate(plain, enc, salt)
    m = z + trailing(trail, salt)
    r = DecompressMemMapReader.new(m)[2] if header else DecompressMemMapReader(m, False, n)
    pos = 0
    for op in list(ops) + ['all']:
        if op == 'rewind':
            r.seek(0)
            pos = 0
        elif op == 'cbr':
            v = r.compressed_bytes_read()
            if pos == n:
                assert v == len(z), 'reports %d compressed bytes, there are %d' % (v, len(z))
        else:
            got = r.read() if op == 'all' else r.read(op)
            k = len(data) - pos if op == 'all' or op < 1 else min(op, len(data) - pos)
            assert bytes(got) == data[pos:pos + k], 'read at %d' % pos
            pos += k
    for i in range(2):
        v = r.compressed_bytes_read()
        assert v == len(z), 'reports %d compressed bytes, there are %d (query %d)' % (v, len(z), i + 1)
    assert r.read(5) == b'', 'bytes beyond the content'
    r.seek(0)
    assert bytes(r.read()) == data, 'content after the query and a rewind'


def entries(spec, salt):
    rng = random.Random(salt)
    out = []
    for t, n, kind, lvl in spec:
        if t in ('ofs', 'ref') and out:
            b = rng.randrange(len(out))
            d, res = make_delta(out[b]['content'], rng, n % 5)
            out.append(dict(kind=t, base=b, base_id=oid(TYPES[out[b]['type']], out[b]['content']), type=out[b]['type'], content=res, delta=d, level=lvl))
        else:
            out.append(dict(kind='full', type=t if isinstance(t, int) else 3, content=content(n, kind, salt + len(out)), level=lvl))
    return out


def scan(spec, salt, first=0, part=0):
    ents = entries(spec, salt)
    raw, info, _ = build_pack(ents)
    d = tempfile.mkdtemp()
    path = os.path.join(d, 'a.pack')
    try:
        with open(path, 'wb') as f:
            f.write(raw)
        p = PackFile(path)
        assert p.size() == len(ents), 'size'
        i = first
        for s in p.stream_iter(info[first]['offset'] if first else 0):
            assert i < len(info), 'more objects than the pack has'
            e = info[i]
            assert s.pack_offset == e['offset'], 'object %d at %d instead of %d' % (i, s.pack_offset, e['offset'])
            want = e['content'] if e['kind'] == 'full' else e['delta']
            assert s.size == len(want), 'size of object %d' % i
            if part:
                s.read(part)
                s.stream.seek(0)
            assert bytes(s.read()) == want, 'content of object %d' % i
            i += 1
        assert i == len(info), 'only %d of %d objects' % (i, len(info))
        p.close()
    finally:
        os.remove(path) if os.path.exists(path) else None
        os.rmdir(d)


CHECKS = {'zlib_model': zlib_model, 'extent': extent, 'scan': scan}


def gen(env):
    r = env.rng
    sizes = [0, 1, 2, 7, 8, 9, 100, 4095, 4096, 4097, 8183, 8184, 8185, 20000, 70000, 300000]
    for n in sizes:
        for t in TRAIL:
            for h in (None, 'blob'):
                yield 'extent', dict(n=n, kind=r.choice(KINDS), enc=r.choice(ENCS), salt=n, ops=r.choice([[], ['cbr'], [1, 'cbr', 'all', 'cbr', 'rewind', 3], [4096] * 5]), header=h, trail=t)
    for spec in ([[3, 0, 'zero', 6]], [[3, 0, 'zero', 0]] * 4, [[1, 4096, 'random', 0], [2, 0, 'zero', 1], [3, 8192, 'random', 6], [4, 1, 'zero', 9]],
                 [[3, 100, 'text', 6], ['ofs', 3, '', 6], ['ref', 4, '', 0], ['ofs', 0, '', 1], [3, 70000, 'zero', 1]], [[3, 520000, 'random', 0], [3, 5, 'text', 1]]):
        for f in range(len(spec)):
            yield 'scan', dict(spec=spec, salt=5, first=f, part=f)
    cs = [x for x in env.constants(['gitdb/stream.py', 'gitdb/pack.py']) if x <= 1 << 19]
    while True:
        if r.random() < .1:
            n = r.choice([0, 1, r.randrange(30), r.randrange(9000)])
            yield 'zlib_model', dict(n=n, kind=r.choice(KINDS), enc=r.choice(ENCS), salt=r.randrange(1 << 30), trail=r.choice(TRAIL),
                                     steps=[[r.choice([0, 1, 8, r.randrange(1, n + 20), n + 100]), r.choice([0, 1, 7, r.randrange(1, n + 2)])] for _ in range(r.randrange(1, 12))])
        n = r.choice(cs + [r.randrange(10), r.randrange(300), r.randrange(20000), r.randrange(100000)])
        if r.random() < .7:
            ops = [r.choice([r.randrange(1, n + 2), r.randrange(1, 50), 'cbr', 'rewind', 'all', 'cbr']) for _ in range(r.randrange(6))]
            yield 'extent', dict(n=n, kind=r.choice(KINDS), enc=r.choice(ENCS), salt=r.randrange(1 << 30), ops=ops, header=r.choice([None, None, 'blob', 'commit']), trail=r.choice(TRAIL))
        else:
            spec = [[r.choice([1, 2, 3, 4, 'ofs', 'ref']), r.choice([0, 1, r.randrange(50), r.choice(cs), r.randrange(9000)]), r.choice(KINDS), r.choice([0, 1, 6, 9])] for _ in range(r.randrange(1, 9))]
            yield 'scan', dict(spec=spec, salt=r.randrange(1 << 30), first=r.choice([0, r.randrange(len(spec))]), part=r.randrange(20))
