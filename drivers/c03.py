"""C03: delta chains of packs"""
import os
import random
import tempfile
import importlib
from gitdb.exc import BadObject
from .lib import *
pk = importlib.import_module('gitdb.pack')


def layout(spec, salt):
    """spec: [kind, base (number of an earlier object), filler before it]; reference deltas with
    base None have a base that is not in the pack.  Returns objects with their chain of numbers"""
    rng = random.Random(salt)
    objs = []
    for k, (kind, base, fill, *large) in enumerate(spec):
        if kind == 'full' or (base is not None and not objs):
            t = rng.choice([1, 2, 3, 4])
            o = dict(kind='full', type=t, content=rng.randbytes(rng.choice([0, 1, 40, 700])) + b'#%d.' % k, chain=[k])
            if large:
                o['content'] = bytes(large[0]) + o['content']
        else:
            if base is None:
                src, t, chain, kind = b'elsewhere', 3, None, 'ref'
                bid = oid(b'blob', src + b'%d' % k)
            else:
                base %= len(objs)
                src, t, bid = objs[base]['content'], objs[base]['type'], objs[base]['id']
                chain = [k] + objs[base]['chain'] if objs[base]['chain'] else None
            d, res = make_delta(src, rng, rng.randrange(1, 5))
            if large:           # all of the source, then so many zeros
                res = src + bytes(large[0])
                d = msb(len(src)) + msb(len(res)) + b''.join(copy_op(at, min(65536, len(src) - at)) for at in range(0, len(src), 65536)) + \
                    b''.join(bytes([min(127, large[0] - at)]) + bytes(min(127, large[0] - at)) for at in range(0, large[0], 127))
            elif src[:2000] == bytes(2000):
                d, res = b'', b''
            if len(res) > len(src) + 3000 or not res:
                d = msb(len(src)) + msb(5) + b'\x05' + b'%05d' % k
                res = b'%05d' % k
            tail = b'#%d.' % k           # so that no two contents are the same
            s, i = read_msb(d, 0)
            n, j = read_msb(d, i)
            d = d[:i] + msb(n + len(tail)) + d[j:] + bytes([len(tail)]) + tail
            o = dict(kind=kind, base=base, base_id=bid, type=t, content=res + tail, delta=d, chain=chain)
        o['part'] = [k] + (objs[base].get('part', []) if base is not None and o['kind'] != 'full' else [])
        o['id'] = oid(TYPES[o['type']], o['content'])
        o['fill'] = fill
        o['level'] = rng.choice([0, 1, 6])
        objs.append(o)
    return objs


def place(objs, order, salt):
    """entries in the given order (bases of offset deltas first), with filler objects in between"""
    rng = random.Random(salt)
    todo, done, ents, where = list(order), set(), [], {}
    while todo:
        k = todo.pop(0)
        o = objs[k]
        if o['kind'] == 'ofs' and o['base'] not in done:
            todo.insert(min(len(todo), 1 + rng.randrange(len(todo)) if todo else 0), k)
            if todo[0] == k:
                todo.append(todo.pop(0))
            continue
        if o['fill']:
            f = random.Random(salt + k).randbytes(o['fill'])
            ents.append(dict(kind='full', type=3, content=f, level=0))
        e = dict(o)
        if o['kind'] == 'ofs':
            e['base'] = where[o['base']]
        where[k] = len(ents)
        ents.append(e)
        done.add(k)
    return ents, where


def error(f, *kinds):
    try:
        r = f()
    except kinds:
        return True
    raise AssertionError('%r instead of an error' % (r,))


def chains(spec, order, salt, version=2):
    objs = layout(spec, salt)
    ents, where = place(objs, [k for k in order if k < len(objs)] + [k for k in range(len(objs)) if k not in order], salt)
    raw, info, sha = build_pack(ents)
    if len({i['id'] for i in info} | {o['base_id'] for o in objs if o['kind'] == 'ref' and o['base'] is None}) < len(info) + sum(o['kind'] == 'ref' and o['base'] is None for o in objs):
        return          # two fillers are the same object
    d = tempfile.mkdtemp()
    p, x = os.path.join(d, 'a.pack'), os.path.join(d, 'a.idx')
    try:
        with open(p, 'wb') as f:
            f.write(raw)
        with open(x, 'wb') as f:
            f.write(build_index([(i['id'], i['crc'], i['offset']) for i in info], sha, version))
        e = pk.PackEntity(p)
        ids = sorted(i['id'] for i in info)
        ks = list(range(len(objs)))
        random.Random(salt).shuffle(ks)
        for k in ks:
            o = objs[k]
            at = lambda j: info[where[j]]['offset']
            for name, got in (('collect_streams', e.collect_streams(o['id'])), ('collect_streams_at_offset', e.collect_streams_at_offset(at(k)))):
                want = [at(j) for j in o['part']]
                assert [s.pack_offset for s in got] == want, '%s of object %d: entries at %s, not %s' % (name, k, [s.pack_offset for s in got], want)
                for s, j in zip(got, o['part']):
                    w = objs[j]['delta'] if objs[j]['kind'] != 'full' else objs[j]['content']
                    assert s.size == len(w) and bytes(s.read()) == w, 'data of entry %d in the chain of %d' % (j, k)
            w = o['delta'] if o['kind'] != 'full' else o['content']
            for q in (e.pack().info, e.pack().stream):
                for off in (at(k), 0)[:1 + (at(k) == 12)]:
                    v = q(off)
                    assert (v.pack_offset, v.type_id, v.size) == (at(k), {'ofs': 6, 'ref': 7}.get(o['kind'], o['type']), len(w)), '%s of the entry of object %d: %r %r %r' % (q.__name__, k, v.pack_offset, v.type_id, v.size)
                    if o['kind'] != 'full':
                        assert v.delta_info == (o['base_id'] if o['kind'] == 'ref' else at(k) - at(o['base'])), '%s of the entry of object %d: base %r' % (q.__name__, k, v.delta_info)
            ofs = []
            for j in o['part']:
                ofs.append(at(j))
                if objs[j]['kind'] != 'ofs':
                    break
            got = [s.pack_offset for s in e.pack().collect_streams(at(k))]
            assert got == ofs, 'offset chain of object %d: %s, not %s' % (k, got, ofs)
            i = ids.index(o['id'])
            if o['chain'] is None:
                error(lambda: e.info(o['id']), BadObject)
                error(lambda: e.stream(o['id']).read(), BadObject, ValueError)
                continue
            t = TYPES[o['type']]
            for nm, q in (('info', lambda: e.info(o['id'])), ('info_at_index', lambda: e.info_at_index(i)), ('stream', lambda: e.stream(o['id'])), ('stream_at_index', lambda: e.stream_at_index(i))):
                v = q()
                assert (v.binsha, v.type, v.size) == (o['id'], t, len(o['content'])), '%s of object %d: %r %r %r' % (nm, k, v.binsha, v.type, v.size)
                if 'stream' in nm:
                    v = q()
                    assert v.type == t and bytes(v.read()) == o['content'], 'content of object %d' % k
        if all(o['chain'] is not None for o in objs):
            by = {o['id']: o for o in objs}
            for nm, q in (('info', e.info_iter), ('stream', e.stream_iter)):
                got = list(q())
                assert [v.binsha for v in got] == ids, '%s_iter gives %d objects %s, not the %d %s' % (nm, len(got), [v.binsha for v in got][:5], len(ids), ids[:5])
                for v in got:
                    o = by.get(v.binsha)
                    if o is None:
                        continue
                    assert v.type == TYPES[o['type']] and (bytes(v.read()) == o['content'] if nm == 'stream' else v.size == len(o['content'])), '%s_iter: %r of %r' % (nm, v.type, v.binsha)
        error(lambda: e.info(b'\1' * 20), BadObject)
        error(lambda: e.stream(b'\1' * 20), BadObject)
        error(lambda: e.collect_streams(b'\1' * 20), BadObject)
        e.close()
    finally:
        for f in (p, x):
            if os.path.exists(f):
                os.remove(f)
        os.rmdir(d)


CHECKS = {'chains': chains}


def gen(env):
    r = env.rng
    F, O, R = 'full', 'ofs', 'ref'
    yield 'chains', dict(spec=[[F, None, 0], [O, 0, 0], [R, 1, 0], [O, 2, 0], [R, 3, 0], [R, 4, 0], [O, 5, 0], [O, 6, 0]], order=[], salt=1)
    yield 'chains', dict(spec=[[F, None, 0], [R, 0, 0], [R, 1, 0], [R, 2, 0]], order=[3, 2, 1, 0], salt=2)
    yield 'chains', dict(spec=[[R, None, 0], [O, 0, 0], [R, 1, 0], [F, None, 0]], order=[2], salt=3)
    for size in (128, 16384, 2097152 + 77, 100, 16300, 2097152 - 50):
        yield 'chains', dict(spec=[[F, None, 0, size], [O, 0, 0, 0], [R, 1, 0, 200], [O, 2, 0]], order=[], salt=size)
    for fill in (50, 90, 110, 127, 130, 16000, 16300, 16384, 16500, 16512, 2097152 - 60, 2097152 + 16384 + 128, 300, 5000):
        yield 'chains', dict(spec=[[F, None, 0], [O, 0, fill], [R, 1, 0], [O, 2, fill % 1000]], order=[], salt=fill)
    while True:
        n = r.randrange(1, 14)
        spec = []
        for k in range(n):
            kind = r.choice([F, O, O, R, R]) if k else F
            spec.append([kind, None if kind == F or (kind == R and r.random() < .08) else r.randrange(max(0, k - 3), k), r.choice([0, 0, 0, r.randrange(300), r.randrange(20000)])])
        order = list(range(n))
        r.shuffle(order)
        yield 'chains', dict(spec=spec, order=order if r.random() < .7 else [], salt=r.randrange(1 << 30), version=r.choice([1, 2]))
