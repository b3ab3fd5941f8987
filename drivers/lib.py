"""executable reference semantics shared by the drivers"""
import hashlib
import io
import os
import struct
import zlib
from binascii import crc32

TYPES = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag', 6: b'OFS_DELTA', 7: b'REF_DELTA'}


def msb(n):
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


def read_msb(d, i):
    v = s = 0
    while True:
        b = d[i]
        i += 1
        v |= (b & 127) << s
        s += 7
        if b < 128:
            return v, i


class Bad(Exception):
    pass


def apply_ops(src, d, i=0):
    """git's patch-delta on the program d[i:]"""
    out = bytearray()
    n = len(d)
    while i < n:
        c = d[i]
        i += 1
        if c & 128:
            off = size = 0
            for k in range(4):
                if c & (1 << k):
                    if i >= n:
                        raise Bad('cut short')
                    off |= d[i] << (8 * k)
                    i += 1
            for k in range(3):
                if c & (16 << k):
                    if i >= n:
                        raise Bad('cut short')
                    size |= d[i] << (8 * k)
                    i += 1
            size = size or 0x10000
            if off + size > len(src):
                raise Bad('copy outside source')
            out += src[off:off + size]
        elif c:
            if i + c > n:
                raise Bad('cut short')
            out += d[i:i + c]
            i += c
        else:
            raise Bad('opcode 0')
    return bytes(out)


def apply_delta(src, d):
    try:
        s, i = read_msb(d, 0)
        t, i = read_msb(d, i)
    except IndexError:
        raise Bad('no sizes')
    if s != len(src):
        raise Bad('source size')
    out = apply_ops(src, d, i)
    if len(out) != t:
        raise Bad('target size')
    return out


def copy_op(off, size, rng=None):
    """a copy instruction; with rng, some zero bytes are written out needlessly"""
    c = 128
    args = bytearray()
    for k in range(4):
        b = (off >> (8 * k)) & 255
        if b or (rng and rng.random() < .2):
            c |= 1 << k
            args.append(b)
    sz = 0 if size == 0x10000 else size
    for k in range(3):
        b = (sz >> (8 * k)) & 255
        if b or (rng and rng.random() < .2):
            c |= 16 << k
            args.append(b)
    return bytes([c]) + bytes(args)


def make_delta(src, rng, ops=6, big=False, target=None):
    """(delta, result)"""
    prog, out = bytearray(), bytearray()
    for _ in range(ops):
        if rng.random() < .5 and src:
            off = rng.randrange(len(src))
            mx = min(len(src) - off, 0xffffff)
            size = rng.randrange(1, mx + 1)
            if big and mx >= 0x10000 and rng.random() < .5:
                size = rng.choice([s for s in (0x10000, 0xffff, 0x10001, 0x20000) if s <= mx])
            prog += copy_op(off, size, rng)
            out += src[off:off + size]
        else:
            k = rng.choice([1, 2, 126, 127, rng.randrange(1, 128)])
            b = rng.randbytes(k)
            prog += bytes([k]) + b
            out += b
    return msb(len(src)) + msb(len(out)) + bytes(prog), bytes(out)


def entry_header(t, size):
    out = bytearray()
    c = (t << 4) | (size & 15)
    size >>= 4
    while size:
        out.append(c | 128)
        c = size & 127
        size >>= 7
    out.append(c)
    return bytes(out)


def ofs(n):
    out = [n & 127]
    n >>= 7
    while n:
        n -= 1
        out.append(128 | (n & 127))
        n >>= 7
    return bytes(reversed(out))


def oid(tname, content):
    return hashlib.sha1(tname + b' %d\0' % len(content) + content).digest()


class Chunks:
    """a stream that counts what is asked of it"""

    def __init__(self, data, size=None, type=b'blob', type_id=3):
        self.b = io.BytesIO(data)
        self.size = len(data) if size is None else size
        self.type, self.type_id = type, type_id

    def read(self, n=-1):
        return self.b.read(n)


def build_pack(entries, version=2):
    """entries: ('full', type, content) | ('ofs', index, delta) | ('ref', base id, delta) with a
    result each: dict(kind=, type=, content=, delta=, base=).  Returns (pack bytes, info list)"""
    out = bytearray(struct.pack('>4sLL', b'PACK', version, len(entries)))
    info = []
    for e in entries:
        off = len(out)
        if e['kind'] == 'full':
            raw = entry_header(e['type'], len(e['content'])) + zlib.compress(e['content'], e.get('level', 6))
        elif e['kind'] == 'ofs':
            raw = entry_header(6, len(e['delta'])) + ofs(off - info[e['base']]['offset']) + zlib.compress(e['delta'], e.get('level', 6))
        else:
            raw = entry_header(7, len(e['delta'])) + e['base_id'] + zlib.compress(e['delta'], e.get('level', 6))
        out += raw
        info.append(dict(offset=off, raw=bytes(raw), crc=crc32(raw) & 0xffffffff, id=oid(TYPES[e['type']], e['content']) if 'id' not in e else e['id'],
                         type=e['type'], content=e['content'], kind=e['kind'], delta=e.get('delta')))
    sha = hashlib.sha1(out).digest()
    return bytes(out) + sha, info, sha


def build_index(objs, pack_sha, version=2, force_large=()):
    """objs: (id, crc, offset)"""
    objs = sorted(objs)
    fan = b''.join(struct.pack('>L', sum(1 for o in objs if o[0][0] <= k)) for k in range(256))
    if version == 1:
        body = fan + b''.join(struct.pack('>L', o[2]) + o[0] for o in objs)
    else:
        body = b'\377tOc' + struct.pack('>L', 2) + fan
        body += b''.join(o[0] for o in objs) + b''.join(struct.pack('>L', o[1]) for o in objs)
        large = []
        for o in objs:
            if o[2] >= 2 ** 31 or o[0] in force_large:
                body += struct.pack('>L', 0x80000000 | len(large))
                large.append(o[2])
            else:
                body += struct.pack('>L', o[2])
        body += b''.join(struct.pack('>Q', x) for x in large)
    body += pack_sha
    return body + hashlib.sha1(body).digest()


def random_entries(rng, n, size=200, share=True):
    """a pack's worth of entries with random delta chains"""
    ents = []
    ids = {}
    while len(ents) < n:
        r = rng.random()
        if ents and r < .6:
            b = rng.randrange(len(ents))
            base = ents[b]
            d, res = make_delta(base['content'], rng, rng.randrange(0, 5))
            e = dict(kind='ofs' if rng.random() < .5 else 'ref', base=b, base_id=oid(TYPES[base['type']], base['content']),
                     type=base['type'], content=res, delta=d)
        else:
            e = dict(kind='full', type=rng.choice([1, 2, 3, 4]), content=rng.randbytes(rng.choice([0, 1, 15, 16, rng.randrange(size)])))
        e['level'] = rng.choice([0, 1, 9])
        i = oid(TYPES[e['type']], e['content'])
        if i in ids:
            continue
        ids[i] = 1
        ents.append(e)
    return ents


def read_pieces(stream, sizes):
    """every read's result for the given sizes"""
    return [stream.read(s) for s in sizes]
