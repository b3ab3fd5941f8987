"""C02: DeltaApplyReader and apply_delta_data against git's delta semantics"""
import io
from gitdb.fun import apply_delta_data, msb_size
from gitdb.stream import DeltaApplyReader
from .lib import *


def make(base, deltas, cut=None):
    """`cut`: (stream index or -1 for the base, bytes missing)"""
    ss = [Chunks(d, type=b'OFS_DELTA', type_id=6) for d in reversed(deltas)] + [Chunks(base, type=b'tree', type_id=2)]
    if cut:
        s = ss[-1] if cut[0] < 0 else ss[cut[0]]
        data = s.b.getvalue()
        s.b = io.BytesIO(data[:len(data) - cut[1]])
    return DeltaApplyReader.new(ss)


def chain(base, deltas, reads, cut=None):
    want = base
    try:
        if cut:
            raise Bad('cut')
        for d in deltas:
            want = apply_delta(want, d)
    except Bad as e:
        want = e
    try:
        r = make(base, deltas, cut)
        size = r.size
    except Exception as e:
        assert isinstance(want, Bad), 'raises %r on well-formed deltas' % e
        return
    assert not isinstance(want, Bad), 'no error (%s)' % want
    assert size == len(want), 'size is %r, not %d' % (size, len(want))
    assert r.type == b'tree' and r.type_id == 2, 'type %r' % (r.type,)
    pos = 0
    for n in list(reads) + [0]:
        if n == 'rewind':
            r.seek(0)
            pos = 0
            continue
        d = r.read(n)
        k = n if 0 < n < len(want) - pos else len(want) - pos
        assert bytes(d) == want[pos:pos + k], 'read(%d) at %d returns %d bytes, expected %d; first difference at %s' % (
            n, pos, len(d), k, next((i for i, (x, y) in enumerate(zip(d, want[pos:pos + k])) if x != y), 'end'))
        pos += k


def ops(src, prog):
    out = io.BytesIO()
    try:
        want = apply_ops(src, prog)
    except Bad as e:
        want = e
    try:
        apply_delta_data(src, len(src), prog, len(prog), out.write)
    except (ValueError, AssertionError, IndexError):
        assert isinstance(want, Bad), 'raises on a well-formed delta'
        return
    assert not isinstance(want, Bad), 'no error (%s)' % want
    assert out.getvalue() == want, 'applied delta differs'


def size_field(data, off):
    try:
        want = read_msb(data, off)
    except IndexError:
        want = None
    try:
        e, v = msb_size(data, off)
    except (AssertionError, IndexError, ValueError):
        assert want is None, 'raises instead of %r' % (want,)
        return
    assert (v, e) == want, 'size %r ends at %r, expected %r' % (v, e, want)


CHECKS = {'chain': chain, 'ops': ops, 'size_field': size_field}


def lit(src, n, rng, pad=None):
    """a delta for src whose result has n literal bytes"""
    b = rng.randbytes(n)
    prog = b''.join(bytes([len(b[i:i + 127])]) + b[i:i + 127] for i in range(0, n, 127))
    return msb(len(src)) + msb(n) + prog, b


def gen(env):
    rng = env.rng
    K = env.constants(['gitdb/stream.py', 'gitdb/fun.py', 'gitdb/util.py'], 1 << 21)
    for n in range(0, 12):
        for tail in (b'', b'\0', b'\x80'):
            yield 'size_field', dict(data=b'\xff' * n + b'\x05' + tail, off=0)
            yield 'size_field', dict(data=b'\1' + b'\x81' * n + b'\0' + tail, off=1)
            yield 'size_field', dict(data=b'\1' + b'\x81' * n, off=1)
    src = rng.randbytes(70000)
    for c in range(256):
        for fill in (b'\0', b'\1', b'\2', b'\xff'):
            for n in range(0, 8):
                yield 'ops', dict(src=src[:600], prog=bytes([c]) + fill * n)
    for off in (0, 1, 255, 256, 65535, 65536, 69999):
        for size in (1, 255, 256, 65535, 65536, 70000, 70001, 4464, 4465):
            if size:
                yield 'ops', dict(src=src, prog=copy_op(off, size))
    big = rng.randbytes((1 << 24) + 300)
    for off in (0, 1 << 16, 0x123456, 1 << 24):
        yield 'ops', dict(src=big, prog=copy_op(off, 200))
    # deltas of any length, in particular around the amounts code reads at once
    for n in sorted({k for k in K if k <= 2100} | {0, 1, 126, 127, 128, 500, 505, 508, 509, 510, 511, 512, 513, 1023, 1024, 1025}):
        d, r = lit(b'x' * 5, n, rng)
        yield 'chain', dict(base=b'x' * 5, deltas=[d], reads=[1, 7, n // 2, 'rewind', n, 1])
        d2, r2 = make_delta(r, rng, 4)
        yield 'chain', dict(base=b'x' * 5, deltas=[d, d2], reads=[3, 'rewind', 0])
        yield 'chain', dict(base=b'x' * n, deltas=[msb(n) + msb(0)], reads=[1])
        yield 'chain', dict(base=b'x' * n, deltas=[msb(n) + msb(1) + b'\1a', msb(1) + msb(2) + b'\2ab'], reads=[1])
        if n:
            yield 'chain', dict(base=b'x' * n, deltas=[msb(n) + msb(n) + b''.join(copy_op(i, min(0xffff, n - i)) for i in range(0, n, 0xffff))], reads=[1], cut=[-1, 1])
            yield 'chain', dict(base=b'x' * 5, deltas=[d], reads=[], cut=[0, min(n, rng.randrange(1, 9))])
    for trial in range(400 if env.tier == 'quick' else 20000):
        if not env.time_left():
            return
        base = rng.randbytes(rng.choice([0, 1, 10, rng.randrange(3000)]))
        if trial % 40 == 0:
            base = rng.randbytes(rng.choice([0x10000, 0x10001, 200000, 1 << 20]))
        ds, cur = [], base
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
            d, cur2 = make_delta(cur, rng, rng.randrange(0, 8), big=len(base) > 60000) if len(cur) < 1 << 21 else lit(cur, 100, rng)
            ds.append(d)
            cur = cur2
        reads = [rng.choice([1, 2, 100, rng.randrange(1, 5000), 'rewind', -1, 1 << 22]) for _ in range(rng.randrange(5))]
        yield 'chain', dict(base=base, deltas=ds, reads=reads)
        # damage one delta
        k = rng.randrange(len(ds))
        d = bytearray(ds[k])
        for _ in range(rng.choice([1, 1, 2])):
            if not d:
                break
            m = rng.random()
            i = rng.randrange(len(d))
            if m < .4:
                d[i] ^= 1 << rng.randrange(8)
            elif m < .6:
                del d[i]
            elif m < .8:
                d = d[:i]
            else:
                d.insert(i, rng.randrange(256))
        yield 'chain', dict(base=base, deltas=ds[:k] + [bytes(d)] + ds[k + 1:], reads=reads)
        yield 'chain', dict(base=base + b'z', deltas=ds, reads=[])
        if base:
            yield 'chain', dict(base=base[:-1], deltas=ds, reads=[])
