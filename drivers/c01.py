from gitdb.fun import pack_object_header_info, create_pack_object_header


def ref_create(t, s):
    out = bytearray()
    c = (t << 4) | (s & 15)
    s >>= 4
    while s:
        out.append(c | 128)
        c = s & 127
        s >>= 7
    out.append(c)
    return bytes(out)


def ref_parse(d):
    n = next((i for i, b in enumerate(d) if b < 128), None)
    if n is None:
        return None
    size, sh = d[0] & 15, 4
    for b in d[1:n + 1]:
        size |= (b & 127) << sh
        sh += 7
    return (d[0] >> 4) & 7, size, n + 1


def roundtrip(t, s, tail):
    h = bytes(create_pack_object_header(t, s))
    assert h == ref_create(t, s), 'header of type %d size %d is %s, not %s' % (t, s, h.hex(), ref_create(t, s).hex())
    r = tuple(pack_object_header_info(h + tail))
    assert r == (t, s, len(h)), 'header of (%d, %d) decodes to %r' % (t, s, r)


def parse(data):
    want = ref_parse(data)
    for d in (data, memoryview(data)):
        try:
            r = tuple(pack_object_header_info(d))
        except (IndexError, ValueError, AssertionError):
            assert want is None, '%s raises instead of %r' % (data.hex(), want)
        else:
            assert r == want, '%s decodes to %r instead of %r' % (data.hex(), r, want)


CHECKS = {'roundtrip': roundtrip, 'parse': parse}


def gen(env):
    rng = env.rng
    sizes = set(env.hints)
    for b in range(0, 80):
        sizes |= {2 ** b - 1, 2 ** b, 2 ** b + 1}
    sizes |= set(env.constants(['gitdb/fun.py'], 1 << 200))
    for s in sorted(sizes):
        for t in range(1, 8):
            yield 'roundtrip', dict(t=t, s=s, tail=b'' if t % 2 else b'\xff\x80')
    for b0 in range(256):
        yield 'parse', dict(data=bytes([b0]))
        for b1 in (0, 1, 127, 128, 255):
            yield 'parse', dict(data=bytes([b0, b1]))
    for n in range(1, 40):
        yield 'parse', dict(data=b'\xff' * n)
        yield 'parse', dict(data=b'\x80' * n + b'\x01')
        yield 'parse', dict(data=b'\xff' * n + b'\x7f\x80')
    for _ in range(3000 if env.tier == 'quick' else 200000):
        if not env.time_left():
            return
        n = rng.randrange(1, 24)
        yield 'parse', dict(data=bytes(rng.randrange(256) | (128 if rng.random() < .7 else 0) for _ in range(n)))
        yield 'roundtrip', dict(t=rng.randrange(1, 8), s=rng.getrandbits(rng.randrange(1, 150)), tail=env.rbytes(rng.randrange(4)))
