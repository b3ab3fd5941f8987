"""streams to inflate: contents and encodings"""
import random
from .lib import *


def content(n, kind, salt):
    r = random.Random(salt)
    if kind == 'random':
        return r.randbytes(n)
    if kind == 'zero':
        return bytes(n)
    if kind == 'mixed':
        out = b''
        while len(out) < n:
            out += r.choice([r.randbytes, lambda k: bytes(k)])(r.randrange(1, 3000))
        return out[:n]
    return (b'some text %d, ' % r.randrange(9) * (n // 8 + 1))[:n]


def deflate(data, enc, salt):
    """encodings: level 0-9, 'flush': empty blocks in between, 'huff', 'fixed'"""
    r = random.Random(salt)
    if isinstance(enc, int):
        return zlib.compress(data, enc)
    if enc == 'flush':
        z = zlib.compressobj(r.choice([0, 1, 6]))
        out, i = b'', 0
        for _ in range(r.randrange(1, 6)):
            k = r.randrange(0, len(data) // 2 + 2)
            out += z.compress(data[i:i + k])
            i += k
            for _ in range(r.choice([1, 2, 10])):
                out += z.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        return out + z.compress(data[i:]) + z.flush()
    z = zlib.compressobj(6, zlib.DEFLATED, r.choice([9, 15]), 9, zlib.Z_HUFFMAN_ONLY if enc == 'huff' else zlib.Z_FIXED)
    return z.compress(data) + z.flush()


ENCS = [0, 1, 6, 9, 'flush', 'huff', 'fixed']
KINDS = ['random', 'zero', 'text', 'mixed']


def trailing(kind, salt):
    r = random.Random(salt)
    return {'none': b'', 'short': r.randbytes(r.randrange(1, 9)), 'sha': r.randbytes(20), 'object': entry_header(3, 5) + zlib.compress(b'abcde') + r.randbytes(20),
            'long': r.randbytes(r.randrange(4000, 20000))}[kind]


TRAIL = ['none', 'short', 'sha', 'object', 'long']


def a_map(data, how):
    return memoryview(data) if how == 'view' else data


def zlib_model(n, kind, enc, salt, steps, trail='none'):
    """the contract assumed of zlib.decompressobj (contracts/zmodels.py), on the real one"""
    data = content(n, kind, salt)
    z = deflate(data, enc, salt)
    m = z + trailing(trail, salt)
    o = zlib.decompressobj()
    cin = pout = tl = ul = 0
    eof = False
    for feed, lim in steps:
        d = m[cin + ul:cin + ul + feed]
        out = o.decompress(d, lim)
        e = o.eof
        if eof:
            assert out == b'', 'output after the end'
            k, tl, ul = 0, (len(d) if tl else 0), ul + len(d)
        else:
            k = len(z) - cin if e else len(d) - len(o.unconsumed_tail)
            tl, ul = ((len(d) - k if tl else 0), len(d) - k) if e else (len(d) - k, 0)
        assert 0 <= k <= len(d) and out == data[pout:pout + len(out)] and (not lim or len(out) <= lim)
        cin, pout, eof = cin + k, pout + len(out), e
        assert e == (cin == len(z)), 'end of the stream'
        assert not e or pout == n, 'everything is returned at the end'
        assert e or (lim and len(out) == lim) or k == len(d), 'consumes everything unless limited'
        if not e:
            assert o.unconsumed_tail == d[k:] and o.unused_data == b'', 'tail'
        else:
            assert o.unused_data == m[cin:cin + ul] and o.unconsumed_tail == m[cin + ul - tl:cin + ul], 'unused data and tail at the end'
