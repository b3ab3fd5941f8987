"""C17: hashing writers against hashlib and zlib"""
import fcntl
import io
import os
import random
import tempfile
from gitdb.stream import Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer, FDStream
from .lib import *


def pieces(sizes, salt, kind):
    r = random.Random(salt)
    out = []
    for n in sizes:
        if kind == 'random':
            out.append(r.randbytes(n))
        elif kind == 'zero':
            out.append(bytes(n))
        else:
            out.append((b'abc%d ' % r.randrange(9) * (n // 4 + 1))[:n])
    return out


def digests_ok(w, so_far):
    h = hashlib.sha1(so_far)
    assert w.sha() == h.digest() == w.sha(False) == w.sha(as_hex=False), 'binary digest after %d bytes' % len(so_far)
    x = w.sha(as_hex=True)
    assert x == h.hexdigest() == w.sha(True), 'hexadecimal digest after %d bytes: %r' % (len(so_far), x)


def plain(sizes, salt, kind, peek=True):
    w, s = Sha1Writer(), b''
    for d in pieces(sizes, salt, kind):
        assert w.write(d) == len(d), 'return value of write'
        s += d
        if peek:
            digests_ok(w, s)
    digests_ok(w, s)


def flexible(sizes, salt, kind, ret='len', peek=True):
    got = []

    def sink(d):
        got.append(bytes(d))
        return {'len': len(d), 'none': None, 'zero': 0, 'half': len(d) // 2}[ret]
    w, s = FlexibleSha1Writer(sink), b''
    for d in pieces(sizes, salt, kind):
        r = w.write(d)
        assert r == len(d), 'write of %d bytes returns %r' % (len(d), r)
        s += d
        assert b''.join(got) == s, 'bytes passed on'
        if peek:
            digests_ok(w, s)
    digests_ok(w, s)


def zipped(sizes, salt, kind, peek=True, reads=(-1,)):
    w, s = ZippedStoreShaWriter(), b''
    for d in pieces(sizes, salt, kind):
        assert w.write(d) == len(d), 'return value of write'
        s += d
        if peek:
            digests_ok(w, s)
    w.close()
    digests_ok(w, s)
    z = w.getvalue()
    o = zlib.decompressobj()
    assert o.decompress(z) == s and o.eof and not o.unused_data, 'the compressed data does not inflate to what was written'
    w.seek(0)
    got = b''.join(w.read(n) for n in reads)
    assert z.startswith(got) and (got == z or -1 not in reads), 'read after rewinding'


def fd(sizes, salt, kind, peek=True, compressed=True):
    f = tempfile.TemporaryFile()
    d2 = os.dup(f.fileno())
    w, s = (FDCompressedSha1Writer if compressed else FDStream)(d2), b''
    for d in pieces(sizes, salt, kind):
        assert w.write(d) == len(d), 'return value of write'
        s += d
        if compressed and peek:
            digests_ok(w, s)
        if not compressed:
            assert w.tell() == len(s), 'position'
    w.close()
    try:
        os.fstat(d2)
        raise AssertionError('the descriptor is left open')
    except OSError:
        pass
    f.seek(0)
    data = f.read()
    f.close()
    if compressed:
        digests_ok(w, s)
        o = zlib.decompressobj()
        data, rest = o.decompress(data), o.unused_data
        assert o.eof and not rest, 'the compressed data is not one complete stream'
    assert data == s, 'the file does not hold what was written'


def full(sizes, salt, capacity=4096, compressed=True):
    """a pipe that takes only `capacity` bytes: an operation must fail, or everything arrived"""
    r, w_ = os.pipe()
    try:
        fcntl.fcntl(w_, 1031, capacity)
    except OSError:
        pass
    fcntl.fcntl(w_, fcntl.F_SETFL, fcntl.fcntl(w_, fcntl.F_GETFL) | os.O_NONBLOCK)
    w, s = (FDCompressedSha1Writer if compressed else FDStream)(w_), b''
    failed = False
    try:
        for d in pieces(sizes, salt, 'random'):
            n = w.write(d)
            assert n == len(d), 'write of %d bytes returns %r' % (len(d), n)
            s += d
        w.close()
    except OSError:
        failed = True
        try:
            os.close(w_)
        except OSError:
            pass
    data = b''
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        data += d
    os.close(r)
    if not failed:
        if compressed:
            o = zlib.decompressobj()
            data = o.decompress(data)
            assert o.eof, 'no error, but the data is incomplete'
        assert data == s, 'no error, but only %d of %d bytes arrived' % (len(data), len(s))


CHECKS = {'plain': plain, 'flexible': flexible, 'zipped': zipped, 'fd': fd, 'full': full}


def gen(env):
    r = env.rng
    base = [[], [0], [1], [0, 0], [5, 0, 7], [1, 1, 1], [4096], [65536, 1], [100000, 65535, 2]]
    for sizes in base:
        for k in ('random', 'zero'):
            yield 'plain', dict(sizes=sizes, salt=1, kind=k)
            for ret in ('len', 'none', 'zero', 'half'):
                yield 'flexible', dict(sizes=sizes, salt=1, kind=k, ret=ret)
            yield 'zipped', dict(sizes=sizes, salt=1, kind=k, reads=[-1])
            yield 'zipped', dict(sizes=sizes, salt=1, kind=k, reads=[1, 5, 100])
            yield 'fd', dict(sizes=sizes, salt=1, kind=k)
            yield 'fd', dict(sizes=sizes, salt=1, kind=k, compressed=False)
    for sizes in ([10000], [4095, 2], [4096], [100, 9000], [4000, 50, 46, 1], [200000], [100000, 100000]):
        for c in (True, False):
            yield 'full', dict(sizes=sizes, salt=2, compressed=c)
    ns = [x for x in env.constants(['gitdb/stream.py']) if x <= 1 << 20]
    while True:
        sizes = [r.choice(ns) if r.random() < .2 else r.randrange(r.choice([4, 300, 9000])) for _ in range(r.randrange(8))]
        k = r.choice(['random', 'zero', 'text'])
        kind = r.choice(['plain', 'flexible', 'zipped', 'fd', 'fd', 'full'])
        kw = dict(sizes=sizes, salt=r.randrange(1 << 30))
        if kind != 'full':
            kw.update(kind=k, peek=r.random() < .5)
        if kind == 'flexible':
            kw['ret'] = r.choice(['len', 'none', 'zero', 'half'])
        if kind in ('fd', 'full'):
            kw['compressed'] = r.random() < .5
        yield kind, kw
