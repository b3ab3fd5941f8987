"""C09: packs and indices written are parsed independently"""
import io
import os
import random
import resource
import shutil
import signal
import struct
import tempfile
import importlib
from binascii import crc32
from gitdb.base import OStream, IStream
from gitdb.pack import PackEntity
from .inflate import *
from . import inflate
from .watch import fds, listing, content as content_of


class Src:
    def __init__(self, data, short=None):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def parse(pk, n):
    """(type, content, start, end) of every entry"""
    assert pk[:4] == b'PACK' and struct.unpack('>LL', pk[4:12]) == (2, n), 'pack header %r' % pk[:12]
    assert hashlib.sha1(pk[:-20]).digest() == pk[-20:], 'pack checksum'
    i, out = 12, []
    for _ in range(n):
        at = i
        c = pk[i]
        i += 1
        t, size, s = (c >> 4) & 7, c & 15, 4
        while c & 128:
            c = pk[i]
            i += 1
            size |= (c & 127) << s
            s += 7
        o = zlib.decompressobj()
        d = o.decompress(pk[i:-20])
        assert o.eof, 'an entry is cut short'
        i = len(pk) - 20 - len(o.unused_data)
        assert len(d) == size, 'size of an entry'
        out.append((t, d, at, i))
    assert i == len(pk) - 20, '%d bytes after the last entry' % (len(pk) - 20 - i)
    return out


def check_index(x, ents, ids, psha):
    n = len(ents)
    assert x[:8] == b'\377tOc\0\0\0\2', 'index header'
    fan = struct.unpack('>256L', x[8:1032])
    want = sorted(zip(ids, ents))
    for b in range(256):
        assert fan[b] == sum(1 for i in ids if i[0] <= b), 'fan-out'
    p = 1032
    assert [x[p + 20 * k:p + 20 * k + 20] for k in range(n)] == [w[0] for w in want], 'ids of the index'
    return want, p


def whole_index(x, pk, ents, ids, psha):
    n = len(ents)
    want, p = check_index(x, ents, ids, psha)
    p += 20 * n
    for k, (i, (t, d, a, b)) in enumerate(want):
        assert struct.unpack_from('>L', x, p + 4 * k)[0] == crc32(pk[a:b]) & 0xffffffff, 'checksum of an entry'
        assert struct.unpack_from('>L', x, p + 4 * n + 4 * k)[0] == a, 'offset of an entry'
    p += 8 * n
    assert x[p:p + 20] == psha and x[p + 20:] == hashlib.sha1(x[:p + 20]).digest(), 'end of the index'


def write(objs, gen=False, told=None, index=True, level=None, salt=0, wrong=None, chunk=None, create=False, limit=None, repeat=False):
    """objs: [type, n, kind]; wrong: [k, delta] the size of object k is off by delta;
    told: announced minus actual number of objects, or None"""
    data = [inflate.content(n, kind, salt + i) for i, (t, n, kind) in enumerate(objs)]
    ids = []
    for i, (t, n, kind) in enumerate(objs):
        # ids are taken as given: any distinct 20 bytes
        ids.append(hashlib.sha1(b'%d %d' % (i, salt)).digest())
    typ = [TYPES[t] for t, _, _ in objs]

    def ostreams():
        out = []
        for i, d in enumerate(data):
            size = len(d) + (wrong[1] if wrong and wrong[0] == i else 0)
            cls = OStream
            out.append(cls(ids[i], typ[i], size, Src(d)) if (i + salt) % 2 else mk_istream(typ[i], size, Src(d), ids[i]))
        return out
    lst = ostreams()
    it = iter(lst) if gen else lst if salt % 3 else tuple(lst)
    kw = {}
    cnt = len(objs)
    if told is not None:
        kw['object_count'] = len(objs) + told
        cnt = len(objs) + told
    if level is not None:
        kw['zlib_compression'] = level
    use = min(cnt, len(objs))
    bad = cnt > len(objs) or wrong is not None and wrong[0] < use and wrong[1] and data is not None
    if create:
        return do_create(it, kw, lst, data, ids, typ, bad, limit, cnt)
    pk, ix = bytearray(), bytearray()

    def sink(b):
        def w(d):
            b.extend(d)
            # what a write function returns is no business of the pack writer
            return [None, 0, len(d)][salt % 3]
        return w
    try:
        r = PackEntity.write_pack(it, sink(pk), sink(ix) if index else None, **kw)
    except (ValueError, AssertionError) as e:
        assert bad, 'writing failed: %r' % e
        return
    assert not bad, 'what is announced does not match and no error is raised'
    assert isinstance(r, tuple) and len(r) == 2, 'result'
    assert bytes(pk[-20:]) == r[0], 'checksum returned'
    ents = parse(bytes(pk), cnt)
    compare(ents, data, objs)
    if index:
        whole_index(bytes(ix), bytes(pk), ents, ids[:cnt], r[0])
        assert bytes(ix[-20:]) == r[1], 'checksum of the index returned'
    else:
        assert r[1] is None


def compare(ents, data, objs):
    for k, (t, d, a, b) in enumerate(ents):
        assert t == objs[k][0], 'type of object %d' % k
        assert d == data[k], 'content of object %d' % k


def mk_istream(t, size, s, sha):
    class Named(tuple):
        pass
    return OStream(sha, t, size, s)


def do_create(it, kw, lst, data, ids, typ, bad, limit, cnt):
    d = tempfile.mkdtemp(prefix='packs')
    lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        f0 = set(fds())
        try:
            try:
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, lim[1]))
                e = PackEntity.create(it, d, **kw)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        except (ValueError, AssertionError, OSError) as ex:
            assert bad or limit is not None, 'creation failed: %r' % ex
            return
        assert not bad, 'what is announced does not match and no error is raised'
        pk, ix = content_of(e.pack().path()), content_of(e.index().path())
        assert isinstance(pk, bytes) and isinstance(ix, bytes), 'no files'
        ents = parse(pk, cnt)
        for k, (t, x, a, b) in enumerate(ents):
            assert TYPES[t] == typ[k] and x == data[k], 'object %d' % k
        whole_index(ix, pk, ents, ids[:cnt], pk[-20:])
        left = {k: v for k, v in fds().items() if k not in f0 and v.startswith(d) and not v.endswith('.pack') and not v.endswith('.idx')}
        assert not left, 'open descriptors %r' % left
        for i in range(cnt):
            s = e.stream(ids[i])
            assert (s.type, s.size, s.read()) == (typ[i], len(data[i]), data[i]), 'reading object %d back' % i
            assert e.is_valid_stream(ids[i], use_crc=True), 'verifying object %d' % i
        assert [s.read() for s in e.pack().stream_iter()] == data[:cnt], 'iteration'
        assert len(listing(d)) == 2, 'files %r' % listing(d)
        e.close()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        signal.signal(signal.SIGXFSZ, sig)
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {'write': write}


def gen(env):
    r = env.rng
    sizes = [0, 1, 15, 16, 17, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 262143, 262144, 524287, 524288]
    cs = sorted(set(env.constants(['gitdb/pack.py', 'gitdb/fun.py', 'gitdb/const.py', 'gitdb/stream.py'])))
    for c in cs:
        for d in (-1, 0, 1):
            if 0 <= c + d <= 3000000:
                sizes.append(c + d)
    yield 'write', dict(objs=[])
    for n in (1, 2, 3):
        for g in (False, True):
            for ix in (True, False):
                for told in (None, 0, 1, -1):
                    if told == -1 and n == 1:
                        continue
                    yield 'write', dict(objs=[[1 + (i % 4), 10 * i, 'random'] for i in range(n)], gen=g, told=told, index=ix, salt=n)
                    yield 'write', dict(objs=[[1 + (i % 4), 10 * i + 1, 'text'] for i in range(n)], gen=g, told=told, index=ix, salt=n + 1, wrong=[0, -1])
    for k in range(3):
        for dl in (-1, 1, 5):
            yield 'write', dict(objs=[[3, 20, 'text']] * 3, wrong=[k, dl], create=bool(k % 2))
    for s in sizes:
        yield 'write', dict(objs=[[3, s, 'random'], [2, 5, 'zero'], [4, s, 'text']], level=r.choice([None, 0, 1, 9]), create=r.random() < .3, salt=s % 7)
    for s in (4096000, 8192001, 12288000):
        yield 'write', dict(objs=[[3, s, 'random'], [2, 5, 'zero']], level=1, salt=s % 7)
        yield 'write', dict(objs=[[3, s, 'text'], [2, 5, 'zero']], level=1, salt=s % 7)
    for lim in (0, 10, 500, 1000, 1080, 1100, 1200):
        yield 'write', dict(objs=[[3, 400, 'random']], create=True, limit=lim)
    for n in (255, 256, 257):
        yield 'write', dict(objs=[[3, r.randrange(20), 'random'] for _ in range(n)], create=True, salt=n)
    while True:
        n = r.choice([0, 1, 2, 5, 20, 100])
        objs = [[r.randrange(1, 5), r.choice([0, 1, r.randrange(100), r.randrange(10000), r.choice(sizes) if n < 5 else 3]), r.choice(KINDS)] for _ in range(n)]
        yield 'write', dict(objs=objs, gen=r.random() < .5, told=r.choice([None, None, 0, 1, -1]) if n > 1 else None, index=r.random() < .8,
                            level=r.choice([None, 0, 1, 6, 9]), salt=r.randrange(1 << 20), wrong=[r.randrange(n), r.choice([-1, 1, 100])] if n and r.random() < .1 and all(o[1] for o in objs) else None,
                            create=n > 0 and r.random() < .3)
