"""C07: abbreviated ids over packs, loose objects and compound databases"""
import os
import tempfile
import shutil
import random
import zlib
from gitdb.exc import AmbiguousObjectName, BadObject
from gitdb.fun import is_equal_canonical_sha
from gitdb.pack import PackIndexFile
from gitdb.db import LooseObjectDB, PackedDB
from gitdb.db.base import CompoundDB
from gitdb.util import bin_to_hex, hex_to_bin
from .lib import *


def part(hexd):
    return hex_to_bin(hexd + '0' * (len(hexd) % 2))


def outcome(f):
    try:
        r = f()
    except AmbiguousObjectName:
        return 'ambiguous'
    except BadObject:
        return None
    return r


def want(ids, hexd):
    m = {i for i in ids if i.hex().startswith(hexd)}
    return None if not m else 'ambiguous' if len(m) > 1 else m.pop()


def ids_for(shape, salt):
    """ids that share prefixes: shape is a list of shared digit counts"""
    r = random.Random(salt)
    base = r.randbytes(20).hex()
    if r.random() < .3:
        base = r.choice(['00000000', 'ffffffff', '0f0f0000', 'abcd0000', 'fffffff0']) + base[8:]
    out = {base}
    for k in shape:
        d = (int(base[k], 16) + r.randrange(1, 16)) % 16
        rest = r.choice([r.randbytes(20).hex(), '0' * 40, 'f' * 40])
        out.add(base[:k] + '%x' % d + rest[k + 1:])
    for _ in range(r.randrange(3)):
        out.add(r.randbytes(20).hex())
    return base, sorted(bytes.fromhex(x) for x in out)


def queries(base, ids, salt):
    r = random.Random(salt)
    qs = set()
    for n in range(4, 41):
        qs.add(base[:n])
        qs.add(r.choice(ids).hex()[:n])
        q = list(r.choice(ids).hex()[:n])
        q[r.randrange(n)] = '%x' % r.randrange(16)
        qs.add(''.join(q))
    return sorted(qs)


def in_index(shape, salt, version):
    base, ids = ids_for(shape, salt)
    fd, p = tempfile.mkstemp(suffix='.idx')
    os.write(fd, build_index([(i, 0, 12 + k) for k, i in enumerate(ids)], b'P' * 20, version))
    os.close(fd)
    ix = PackIndexFile(p)
    for q in queries(base, ids, salt):
        got = outcome(lambda: ix.partial_sha_to_index(part(q), len(q)))
        w = want(ids, q)
        w = ids.index(w) if isinstance(w, bytes) else w
        assert got == w and type(got) == type(w), '%s of %s gives %r, expected %r' % (q, [i.hex() for i in ids], got, w)
    ix.close()
    os.unlink(p)


def equal(a, b, digits):
    got = is_equal_canonical_sha(digits, a[:(digits + 1) // 2], b)
    assert bool(got) == (a.hex()[:digits] == b.hex()[:digits]), 'first %d digits of %s and %s: %r' % (digits, a.hex(), b.hex(), got)


def put_pack(d, name, ids):
    """only the index matters here; the pack is an empty shell"""
    body = struct.pack('>4sLL', b'PACK', 2, len(ids))
    sha = hashlib.sha1(body).digest()
    with open(os.path.join(d, 'pack-%s.pack' % name), 'wb') as f:
        f.write(body + sha)
    with open(os.path.join(d, 'pack-%s.idx' % name), 'wb') as f:
        f.write(build_index([(i, 0, 12 + k) for k, i in enumerate(ids)], sha))


def put_loose(d, ids):
    for i in ids:
        h = i.hex()
        os.makedirs(os.path.join(d, h[:2]), exist_ok=True)
        with open(os.path.join(d, h[:2], h[2:]), 'wb') as f:
            f.write(zlib.compress(b'blob 0\0'))


class Comp(CompoundDB):
    def __init__(self, dbs):
        super().__init__()
        self._dbs = list(dbs)


def spread(shape, salt, plan):
    """plan: which member databases hold the ids: l loose, p pack db with 1, P with 3 packs,
    ( and ) nest a compound"""
    r = random.Random(salt)
    base, ids = ids_for(shape, salt)
    root = tempfile.mkdtemp()
    try:
        held = set()
        stack = [[]]
        for n, ch in enumerate(plan):
            d = os.path.join(root, 'm%d' % n)
            os.mkdir(d)
            mine = [i for i in ids if r.random() < .5]
            if ch == '(':
                stack.append([])
                continue
            if ch == ')':
                c = Comp(stack.pop())
                stack[-1].append(c)
                continue
            if ch == 'l':
                put_loose(d, mine)
                db = LooseObjectDB(d)
            else:
                for k in range(1 if ch == 'p' else 3):
                    some = mine if ch == 'p' else sorted(r.sample(ids, r.randrange(len(ids) + 1)))
                    held |= set(some)
                    put_pack(d, '%d' % k, some)
                db = PackedDB(d)
            held |= set(mine) if ch != 'P' else set()
            stack[-1].append(db)
        top = Comp(stack[0])
        for q in queries(base, ids, salt):
            for qq in (q, q.encode()):
                got = outcome(lambda: top.partial_to_complete_sha_hex(qq))
                w = want(held, q)
                assert got == w, '%s with %s over %s gives %r, expected %r' % (q, [i.hex() for i in sorted(held)], plan, got, w)
        for db in stack[0]:
            if isinstance(db, LooseObjectDB):
                mine = set(db.sha_iter())
                for q in queries(base, ids, salt)[::5]:
                    assert outcome(lambda: db.partial_to_complete_sha_hex(q)) == want(mine, q), 'loose %s' % q
            if isinstance(db, PackedDB):
                mine = set(db.sha_iter())
                for q in queries(base, ids, salt)[::5]:
                    assert outcome(lambda: db.partial_to_complete_sha(part(q), len(q))) == want(mine, q), 'pack %s' % q
    finally:
        shutil.rmtree(root)


CHECKS = {'index': in_index, 'equal': equal, 'spread': spread}


def gen(env):
    r = env.rng
    for n in range(1, 41):
        a = r.randbytes(20)
        for k in range(max(0, n - 3), min(40, n + 2)):
            h = a.hex()
            b = bytes.fromhex(h[:k] + '%x' % (int(h[k], 16) ^ r.randrange(1, 16)) + h[k + 1:])
            yield 'equal', dict(a=a, b=b, digits=n)
        yield 'equal', dict(a=a, b=a, digits=n)
    for k in range(3, 40):
        yield 'index', dict(shape=[k], salt=k, version=2 - k % 2)
    for plan in ('', 'l', 'p', 'P', 'lp', 'pl', 'll', 'pp', 'l(lp)', '(l)p', '(l(p))', '((P)l)P'):
        for k in (5, 6, 39):
            yield 'spread', dict(shape=[k], salt=k, plan=plan)
    while True:
        sh = [r.randrange(3, 40) for _ in range(r.randrange(5))]
        if r.random() < .5:
            yield 'index', dict(shape=sh, salt=r.randrange(1 << 30), version=r.choice([1, 2]))
        else:
            yield 'spread', dict(shape=sh, salt=r.randrange(1 << 30), plan=r.choice(['l', 'p', 'P', 'lp', 'pp', 'l(lp)', '(l(P))p', '(lp)(pl)', 'PP', '(p)(p)', 'lll']))
