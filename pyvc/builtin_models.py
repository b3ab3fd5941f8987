"""Rules for builtins and for the small part of the standard library that the code uses.
Every rule here is part of the trusted base."""
import ast
import math
import binascii
import builtins
import contextlib
import functools
import itertools
import struct
import types

import z3
from .core import *
from .interp import (BoundM, Closure, FilterSeq, GenIter, Star, first_of, ModelM, NativeM, SuperProxy, Interp)

MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


# ------------------------------------------------------------------ strings

class SStr(GhostVal):
    """symbolic text: a tuple of parts, each a str, ('dec', int term), ('sym', int term) or
    ('txt', SBytes) (ascii text given as bytes)"""

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '' or not isinstance(x, str):
                out.append(x)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    def shape(self):
        return tuple(x if isinstance(x, str) else x[0] for x in self.parts)

    def vkind(self):
        return (SStr, self.shape())

    @staticmethod
    def vfresh(path, name, kind):
        return SStr([x if x not in ('dec', 'sym', 'txt') else (x, path.fresh_int(name) if x != 'txt' else path.fresh_bytes(name)) for x in kind[1]])

    def py_eq(self, ip, o):
        if isinstance(o, str):
            o = SStr([o])
        if not isinstance(o, SStr):
            return False if not isinstance(o, GhostVal) else NotImplemented
        h = ip.run.str_eq_hook
        if h:
            r = h(ip, self, o)
            if r is not None:
                return r
        if self.shape() == o.shape():
            cs = []
            for a, b in zip(self.parts, o.parts):
                if isinstance(a, str):
                    continue
                cs.append(eq(a[1], b[1]) if a[0] != 'txt' else ip.bytes_eq(a[1], b[1]))
            if len([x for x in self.parts if not isinstance(x, str)]) <= 1 or all(c is True for c in cs):
                return And(*cs)
        la, lb = [x.parts for x in (self, o)]
        key = ('streq', repr(la), repr(lb))
        if key not in ip.p.memo:
            ip.p.memo[key] = ip.p.fresh_bool('streq')
        return ip.p.memo[key]

    def py_binop(self, ip, t, b):
        if t is ast.Add and isinstance(b, (str, SStr)):
            return join_str(ip, [self, b])
        return NotImplemented

    def py_rbinop(self, ip, t, a):
        if t is ast.Add and isinstance(a, str):
            return join_str(ip, [a, self])
        return NotImplemented

    def py_getattr(self, ip, name):
        return NativeM(self, name)

    def truth(self):
        return True

    def encode(self):
        r = b''
        for x in self.parts:
            r = concat(r, part_bytes(x))
        return r


_dec = ByteArr('decimal', fn=lambda i: None)
DEC = z3.Function('decimal', z3.IntSort(), z3.IntSort(), z3.IntSort())
DECLEN = z3.Function('decimal_len', z3.IntSort(), z3.IntSort())


def part_bytes(x):
    if isinstance(x, str):
        return x.encode()
    if x[0] == 'txt':
        return x[1]
    if x[0] == 'dec':
        return decimal_bytes(x[1])
    raise Unsupported('bytes of an opaque string')


def decimal_bytes(t):
    """the ascii decimal representation of an integer, as a function of the integer"""
    if isinstance(t, int):
        return str(t).encode()
    n = DECLEN(t)
    p = Path.cur
    k = ('declen', t.get_id())
    if k not in p.memo:
        p.memo[k] = (t, n)
        p.fact(z3.And(n >= 1, n <= 25, z3.Implies(t >= 0, z3.And(*[(n <= d) == (t < 10 ** d) for d in (1, 2, 3, 5, 10, 20)]))))
    arr = ByteArr('decimal@%s' % t.get_id(), fn=lambda i: DEC(t, i))
    return from_base(arr, 0, n)


def join_str(ip, parts):
    if all(isinstance(x, str) for x in parts):
        return ''.join(parts)
    for x in parts:
        if hasattr(x, 'join_text'):
            return x.join_text(parts)
    out = []
    for x in parts:
        out.extend(x.parts if isinstance(x, SStr) else [x])
    return SStr(out)


def fmt_value(ip, x, conv, spec):
    if conv in (114, 'r') or spec not in ('', 'd', 's', 'i'):
        return repr(x) if ip.is_native(x) else '<repr>'
    return to_str(ip, x)


def to_str(ip, x):
    if hasattr(x, 'py_str'):
        return x.py_str(ip)
    if isinstance(x, (str, SStr)) or hasattr(x, 'join_text'):
        return x
    if is_int(x):
        return str(x) if isinstance(x, int) else SStr([('dec', x)])
    if ip.is_native(x):
        return str(x)
    return SStr([('sym', ip.p.fresh_int('str'))])


def str_format(ip, fmt, args):
    if ip.is_native(args):
        try:
            return fmt % args
        except Exception as e:
            ip.throw(type(e), *e.args)
    if isinstance(fmt, bytes):
        t = args if isinstance(args, tuple) else (args,)
        out, i, k = b'', 0, 0
        r = b''
        while i < len(fmt):
            if fmt[i:i + 1] == b'%':
                c = fmt[i + 1:i + 2]
                v = t[k]
                k += 1
                if c in (b'i', b'd'):
                    r = concat(r, decimal_bytes(v))
                elif c in (b's', b'b'):
                    r = concat(r, as_sbytes(v))
                else:
                    raise Unsupported('bytes format')
                i += 2
            else:
                r = concat(r, fmt[i:i + 1])
                i += 1
        return r
    t = args if isinstance(args, tuple) else (args,)
    parts, i, k = [], 0, 0
    while i < len(fmt):
        if fmt[i] == '%':
            c = fmt[i + 1]
            i += 2
            if c == '%':
                parts.append('%')
                continue
            if c not in 'sdir':
                parts.append('<fmt>')
                k += 1
                continue
            v = t[k]
            k += 1
            if c in 'di' and not is_intlike(v):
                ip.throw(TypeError, '%d format: a number is required')
            if isinstance(v, SBytes) or c == 'r':
                parts.append(SStr([('sym', ip.p.fresh_int('fmt'))]))
            else:
                parts.append(to_str(ip, v))
        else:
            parts.append(fmt[i])
            i += 1
    return join_str(ip, parts)


# ------------------------------------------------------------------ methods of values

def native_method(ip, o, name, args, kw):
    p = ip.p
    if isinstance(o, SList):
        return list_method(ip, o, name, args, kw)
    if isinstance(o, SDict):
        return dict_method(ip, o, name, args, kw)
    if isinstance(o, SSet):
        return set_method(ip, o, name, args, kw)
    if isinstance(o, SStr):
        return sstr_method(ip, o, name, args, kw)
    nat = ip.is_native(o) and ip.is_native(tuple(args)) and ip.is_native(kw)
    if isinstance(o, (str, bytes, int, float, tuple, frozenset, set, dict, list, bytearray)) and nat and \
            not (isinstance(o, (set, dict, list, bytearray)) and name in ('add', 'append', 'update', 'pop', 'clear', 'remove', 'sort', 'setdefault', 'extend', 'insert', 'discard')):
        try:
            r = getattr(o, name)(*args, **kw)
        except Exception as e:
            ip.throw(type(e), *e.args)
        return wrap_result(ip, r)
    if isinstance(o, dict):
        if name == 'get':
            for k, v in o.items():
                if p.decide(ip.eq(k, args[0])):
                    return v
            return args[1] if len(args) > 1 else None
    if isinstance(o, str):
        if name == 'format':
            return SStr([('sym', p.fresh_int('format'))])
        if name == 'join':
            vals = ip.iter_values(args[0])
            out = []
            for i, v in enumerate(vals):
                if i:
                    out.append(o)
                out.append(v)
            return join_str(ip, out)
    if is_byteslike(o):
        return bytes_method(ip, o, name, args, kw)
    raise Unsupported('method %s of %r' % (name, o))


def wrap_result(ip, r):
    if isinstance(r, list):
        return ip.new_list(tuple(r))
    return r


def sstr_method(ip, o, name, args, kw):
    if name == 'encode':
        return o.encode()
    if name in ('strip', 'rstrip', 'lower'):
        h = ip.run.str_hook
        if h:
            return h(ip, o, name, args)
    raise Unsupported('str.%s on symbolic text' % name)


def bytes_method(ip, o, name, args, kw):
    p = ip.p
    if name == 'tobytes':
        s = as_sbytes(o)
        return SBytes(s.n, s.get, s.base, s.off, 'bytes', s.key, s.kparent, s.parts, s.tag)
    s = as_sbytes(o)
    if name == 'find':
        if s.tag is not None and isinstance(args[0], bytes):
            return s.tag.find(*args)
        if len(args) == 1 and isinstance(args[0], bytes) and len(args[0]) == 1:
            h = ip.run.find_hook
            if h:
                r = h(ip, s, args[0][0])
                if r is not None:
                    return r
            # position of the first occurrence, or -1
            r = p.fresh_int('find')
            c = args[0][0]
            w = p.fresh_int('findw')
            p.fact(z3.And(r >= -1, r < zint(s.n)))
            if p.decide(r >= 0, 'found'):
                p.fact(zint(s.get(r)) == c)
            p.ghost.setdefault('finds', []).append((s, c, r))
            return r
    if name == 'decode' and s.key is None and s.tag is None:
        # text of the same bytes (ascii)
        return SStr([('txt', s)])
    if name == 'startswith' and is_byteslike(args[0]):
        a = as_sbytes(args[0])
        if not p.decide(le(a.n, s.n), 'startswith'):
            return False
        return ip.bytes_eq(slice_bytes(s, 0, a.n), a)
    if name == 'endswith' and is_byteslike(args[0]):
        a = as_sbytes(args[0])
        if not p.decide(le(a.n, s.n), 'endswith'):
            return False
        return ip.bytes_eq(slice_bytes(s, sub(s.n, a.n), a.n), a)
    if name == 'join' and isinstance(o, bytes):
        vals = ip.iter_values(args[0])
        if isinstance(vals, tuple):
            r = b''
            for i, v in enumerate(vals):
                if i and o:
                    r = concat(r, o)
                r = concat(r, v)
            return r
        if o == b'':
            return join_seq(ip, vals)
    h = ip.run.bytes_hook
    if h:
        r = h(ip, s, name, args)
        if r is not None:
            return r
    raise Unsupported('bytes.%s' % name)


def join_seq(ip, vals):
    """b''.join over a symbolic sequence whose elements all have one fixed length"""
    p = ip.p
    i = p.fresh_int('ji')
    p.fact(i >= 0)
    e = as_sbytes(vals.elem(i))
    w = e.n
    if not isinstance(w, int) or w == 0:
        raise Unsupported('join of pieces of varying length')

    def get(k):
        k = zint(k)
        return as_sbytes(vals.elem(k / w)).get(conc(k % w))
    return SBytes(mul(vals.n, w), get, tag=None)


def list_method(ip, o, name, args, kw):
    p = ip.p
    seq = o.v
    if name == 'append':
        v = args[0]
        if isinstance(seq, tuple):
            o.setf('v', seq + (v,))
        else:
            n = seq.n

            def elem(i):
                c = concb(lt(i, n))
                if c is True:
                    return seq.elem(i)
                if c is False:
                    return v
                if is_int(v):
                    return Ite(c, seq.elem(i), v)
                return seq.elem(i) if p.decide(c, 'elem') else v
            o.setf('v', Seq(add(n, 1), elem, 'ints' if seq.kind == 'ints' and is_int(v) else 'list', tag=('append', seq, v)))
        return None
    if name == 'extend':
        o.setf('v', ip.seq_concat(seq, ip.iter_values(args[0])))
        return None
    if name == 'clear':
        o.setf('v', ())
        return None
    if name == 'copy':
        return ip.new_list(seq)
    if name == 'reverse':
        if isinstance(seq, tuple):
            o.setf('v', seq[::-1])
        else:
            o.setf('v', Seq(seq.n, lambda i: seq.elem(sub(sub(seq.n, 1), i))))
        return None
    if name == 'sort':
        h = ip.run.sort_hook
        if h:
            r = h(ip, seq, kw.get('key'), kw.get('reverse', False))
            if r is not None:
                o.setf('v', r)
                return None
        if isinstance(seq, tuple):
            o.setf('v', sort_conc(ip, seq, kw.get('key'), kw.get('reverse', False)))
            return None
    if name == 'pop' and isinstance(seq, tuple):
        i = args[0] if args else -1
        j = ip.norm_index(i, len(seq))
        if isinstance(j, int):
            o.setf('v', seq[:j] + seq[j + 1:])
            return seq[j]
    if name == 'pop' and isinstance(seq, Seq) and not args:
        if p.decide(eq(seq.n, 0)):
            ip.throw(IndexError, 'pop from empty list')
        o.setf('v', Seq(sub(seq.n, 1), seq.elem, tag=('slice', seq, 0)))
        return seq.elem(sub(seq.n, 1))
    if name == 'insert' and isinstance(seq, tuple) and isinstance(args[0], int):
        l = list(seq)
        l.insert(args[0], args[1])
        o.setf('v', tuple(l))
        return None
    if name == 'insert' and isinstance(args[0], int) and args[0] == 0:
        o.setf('v', ip.seq_concat((args[1],), seq))
        return None
    if name == 'index' and isinstance(seq, tuple):
        for i, v in enumerate(seq):
            if p.decide(ip.eq(v, args[0]), 'list.index'):
                return i
        ip.throw(ValueError, 'not in list')
    if name == 'remove' and isinstance(seq, tuple):
        for i, v in enumerate(seq):
            if p.decide(ip.eq(v, args[0]), 'list.remove'):
                o.setf('v', seq[:i] + seq[i + 1:])
                return None
        ip.throw(ValueError, 'not in list')
    h = ip.run.list_hook
    if h:
        r = h(ip, o, name, args, kw)
        if r is not None:
            return r
    raise Unsupported('list.%s' % name)


def sort_conc(ip, seq, key, reverse):
    """stable insertion sort by (symbolic) comparisons"""
    ks = [ip.call(key, [v], {}) if key is not None else v for v in seq]
    out = []
    for k, v in zip(ks, seq):
        i = len(out)
        while i > 0:
            c = ip.compare(ast.Lt(), k, out[i - 1][0]) if not reverse else ip.compare(ast.Gt(), k, out[i - 1][0])
            if not ip.p.decide(c, 'sort'):
                break
            i -= 1
        out.insert(i, (k, v))
    return tuple(v for _, v in out)


def dict_method(ip, o, name, args, kw):
    p = ip.p
    d = o.f['v']
    if name == 'get':
        for k, v in d:
            if p.decide(ip.eq(k, args[0]), 'dict.get'):
                return v
        return args[1] if len(args) > 1 else None
    if name == 'setdefault':
        for k, v in d:
            if p.decide(ip.eq(k, args[0]), 'dict.setdefault'):
                return v
        ip.setitem(o, args[0], args[1] if len(args) > 1 else None)
        return args[1] if len(args) > 1 else None
    if name == 'items':
        return tuple((k, v) for k, v in d)
    if name == 'keys':
        return tuple(k for k, _ in d)
    if name == 'values':
        return tuple(v for _, v in d)
    if name == 'clear':
        o.setf('v', ())
        return None
    if name == 'copy':
        return SDict(d)
    if name == 'pop':
        for i, (k, v) in enumerate(d):
            if p.decide(ip.eq(k, args[0]), 'dict.pop'):
                o.setf('v', d[:i] + d[i + 1:])
                return v
        if len(args) > 1:
            return args[1]
        ip.throw(KeyError, args[0])
    if name == 'update':
        src = args[0]
        items = src.f['v'] if isinstance(src, SDict) else tuple(ip.iter_values(x) for x in ip.iter_values(src))
        for k, v in items:
            ip.setitem(o, k, v)
        return None
    raise Unsupported('dict.%s' % name)


def set_method(ip, o, name, args, kw):
    p = ip.p
    v = o.f['v']
    if name == 'add':
        if not p.decide(Or(*[ip.eq(x, args[0]) for x in v]), 'set.add'):
            o.setf('v', v + (args[0],))
        return None
    if name in ('remove', 'discard'):
        for i, x in enumerate(v):
            if p.decide(ip.eq(x, args[0]), 'set.remove'):
                o.setf('v', v[:i] + v[i + 1:])
                return None
        if name == 'remove':
            ip.throw(KeyError, args[0])
        return None
    if name in ('difference', 'union', 'intersection'):
        b = ip.make_set(ip.iter_values(args[0]))
        return ip.set_op({'difference': ast.Sub, 'union': ast.BitOr, 'intersection': ast.BitAnd}[name], o, b)
    if name == 'clear':
        o.setf('v', ())
        return None
    if name == 'update':
        for x in ip.iter_values(args[0]):
            set_method(ip, o, 'add', [x], {})
        return None
    if name == 'copy':
        return SSet(v)
    raise Unsupported('set.%s' % name)


# ------------------------------------------------------------------ builtin functions

@model(len)
def m_len(ip, v):
    if hasattr(v, 'py_len'):
        return v.py_len(ip)
    if isinstance(v, (SBytes, Seq)):
        return v.n
    if isinstance(v, (SList, SDict, SSet)):
        return ip.seq_len(v.f['v'])
    if isinstance(v, SObj):
        t = ip.as_tuple(v)
        if t is not None:
            return len(t)
        m = ip.class_attr(v.cls, '__len__')
        if m:
            return ip.call(BoundM(m, v), [], {})
    if hasattr(v, 'as_sbytes'):
        return v.as_sbytes().n
    if v is None or is_intlike(v):
        ip.throw(TypeError, 'object has no len()')
    try:
        return len(v)
    except TypeError:
        raise Unsupported('len of %r' % (v,))


@model(ord)
def m_ord(ip, v):
    if isinstance(v, (str, bytes)):
        try:
            return ord(v)
        except TypeError as e:
            ip.throw(TypeError, *e.args)
    if isinstance(v, SBytes):
        if ip.p.decide(eq(v.n, 1), 'ord'):
            return v.get(0)
        ip.throw(TypeError, 'ord() expected a character')
    if is_intlike(v) or v is None:
        ip.throw(TypeError, 'ord() expected string of length 1')
    raise Unsupported('ord of %r' % (v,))


def _minmax(ip, args, kw, less):
    if len(args) == 1:
        vals = ip.iter_values(args[0])
        if isinstance(vals, Seq):
            h = ip.run.minmax_hook
            r = h(ip, vals, less) if h else None
            if r is not None:
                return r
            n = vals.n
            if ip.p.decide(eq(n, 0), 'min/max of empty'):
                if 'default' in kw:
                    return kw['default']
                ip.throw(ValueError, 'arg is an empty sequence')
            # an element of the sequence which bounds all others (instances on demand)
            w = ip.p.fresh_int('argm')
            ip.p.fact(z3.And(w >= 0, w < zint(n)))
            m = vals.elem(w)
            ip.p.ghost.setdefault('extrema', []).append((vals, m, less))
            return m
    else:
        vals = tuple(args)
    if 'key' in kw:
        raise Unsupported('min/max with key')
    if not vals:
        if 'default' in kw:
            return kw['default']
        ip.throw(ValueError, 'empty sequence')
    r = vals[0]
    for v in vals[1:]:
        c = ip.compare(ast.Lt() if less else ast.Gt(), v, r)
        if ip.p.decide(c, 'minmax'):
            r = v
    return r


@model(min)
def m_min(ip, *args, **kw):
    return _minmax(ip, args, kw, True)


@model(max)
def m_max(ip, *args, **kw):
    return _minmax(ip, args, kw, False)


@model(range)
def m_range(ip, *a):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > ip.run.max_unroll:
            return Seq(len(r), lambda i: add(r.start, mul(i, r.step)), 'range')
        return r
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if st == 1:
        if ip.p.decide(le(hi, lo), 'empty range'):
            return ()
        return Seq(sub(hi, lo), lambda i: add(lo, i), 'range')
    if st == -1:
        if ip.p.decide(le(lo, hi), 'empty range'):
            return ()
        return Seq(sub(lo, hi), lambda i: sub(lo, i), 'range')
    if isinstance(st, int) and st > 1:
        if ip.p.decide(le(hi, lo), 'empty range'):
            return ()
        n = zint(add(sub(hi, lo), st - 1)) / st
        return Seq(n, lambda i: add(lo, mul(i, st)), 'range')
    raise Unsupported('range step')


@model(enumerate)
def m_enumerate(ip, it, start=0):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        return GenIter(tuple((add(start, i), x) for i, x in enumerate(v)))
    return GenIter(Seq(v.n, lambda i: (add(start, i), v.elem(i))))


@model(zip)
def m_zip(ip, *its):
    vs = [ip.iter_values(x) for x in its]
    if all(isinstance(v, tuple) for v in vs):
        return GenIter(tuple(zip(*vs)))
    ns = [ip.seq_len(v) for v in vs]
    n = ns[0]
    for m in ns[1:]:
        if ip.p.decide(lt(m, n), 'zip length'):
            n = m
    return GenIter(Seq(n, lambda i: tuple(ip.seq_at(v, i) for v in vs)))


@model(reversed)
def m_reversed(ip, it):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        return GenIter(v[::-1])
    return GenIter(Seq(v.n, lambda i: v.elem(sub(sub(v.n, 1), i))))


@model(map)
def m_map(ip, f, *its):
    v = ip.iter_values(its[0]) if len(its) == 1 else ip.iter_values(m_zip(ip, *its))
    c = (lambda x: ip.call(f, [x], {})) if len(its) == 1 else (lambda x: ip.call(f, list(x), {}))
    if isinstance(v, tuple):
        return GenIter(tuple(c(x) for x in v))
    return GenIter(Seq(v.n, lambda i: c(v.elem(i))))


@model(filter)
def m_filter(ip, f, it):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        return GenIter(tuple(x for x in v if ip.test(x if f is None else ip.call(f, [x], {}))))
    raise Unsupported('filter over symbolic')


@model(iter)
def m_iter(ip, it, *sentinel):
    if sentinel:
        raise Unsupported('iter with sentinel')
    if isinstance(it, GenIter):
        return it
    return GenIter(ip.iter_values(it))


@model(next)
def m_next(ip, it, *default):
    if isinstance(it, GenIter) and isinstance(it.items, FilterSeq):
        v = it.items.first(ip)
        it.items = None
        if v is not UNDEF:
            return v
        if default:
            return default[0]
        ip.throw(StopIteration)
    if isinstance(it, GenIter):
        n = ip.seq_len(it.items)
        if ip.p.decide(lt(it.pos, n), 'next'):
            v = ip.seq_at(it.items, it.pos)
            it.advance(1)
            return v
        if default:
            return default[0]
        ip.throw(StopIteration)
    raise Unsupported('next of %r' % (it,))


@model(sorted)
def m_sorted(ip, it, key=None, reverse=False):
    v = ip.iter_values(it)
    h = ip.run.sort_hook
    if h:
        r = h(ip, v, key, reverse)
        if r is not None:
            return ip.new_list(r)
    if isinstance(v, tuple):
        return ip.new_list(sort_conc(ip, v, key, reverse))
    raise Unsupported('sorted of symbolic sequence')


@model(sum)
def m_sum(ip, it, start=0):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        for x in v:
            start = ip.binop(ast.Add(), start, x)
        return start
    h = ip.run.fold_hook
    if h:
        r = h(ip, 'sum', v, start)
        if r is not None:
            return r
    if isinstance(v, Seq):
        k = len(ip.p.taken)
        x = v.elem(ip.p.fresh_int('summand'))
        if isinstance(x, int) and isinstance(start, int) and len(ip.p.taken) == k:      # the same for every element
            return add(start, mul(v.n, int(x)))
    raise Unsupported('sum of symbolic sequence')


@model(any)
def m_any(ip, it):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        for x in v:
            if ip.test(x):
                return True
        return False
    return quant(ip, v, True)


@model(all)
def m_all(ip, it):
    v = ip.iter_values(it)
    if isinstance(v, tuple):
        for x in v:
            if not ip.test(x):
                return False
        return True
    return quant(ip, v, False)


def quant(ip, v, ex):
    h = ip.run.quant_hook
    if h:
        r = h(ip, v, ex)
        if r is not None:
            return r
    if isinstance(v, Seq) and ip.run.witnesses:
        r = first_of(ip, v.n, lambda k: ip.truth(v.elem(k)) if ex else Not(ip.truth(v.elem(k))), lambda k: True)
        return (r is not UNDEF) == ex
    raise Unsupported('any/all over symbolic sequence')


@model(list)
def m_list(ip, it=()):
    return ip.new_list(ip.iter_values(it))


@model(tuple)
def m_tuple(ip, it=()):
    return ip.iter_values(it)


@model(set, frozenset)
def m_set(ip, it=()):
    return ip.make_set(ip.iter_values(it))


@model(dict)
def m_dict(ip, *a, **kw):
    d = SDict()
    if a:
        if isinstance(a[0], SDict):
            d.f['v'] = a[0].f['v']
        else:
            vals = ip.iter_values(a[0])
            if isinstance(vals, Seq):
                h = ip.run.dict_hook
                r = h(ip, vals) if h else None
                if r is not None:
                    return r
                raise Unsupported('dict of symbolic length')
            for kv in vals:
                k, v = ip.iter_values(kv)
                ip.setitem(d, k, v)
    for k, v in kw.items():
        ip.setitem(d, k, v)
    return d


@model(bool)
def m_bool(ip, v=False):
    return ip.truth(v)


@model(abs)
def m_abs(ip, v):
    return abs(v) if isinstance(v, (int, float)) else Ite(lt(v, 0), sub(0, v), v)


@model(divmod)
def m_divmod(ip, a, b):
    return (ip.binop(ast.FloorDiv(), a, b), ip.binop(ast.Mod(), a, b))


class SReal(GhostVal):
    """a float, taken for the real number it stands for (no rounding)"""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(v):
        if isinstance(v, SReal):
            return v.t
        if isinstance(v, bool) or is_sbool(v) or is_int(v):
            return z3.ToReal(zint(v))
        if isinstance(v, float) and v == v and abs(v) != float('inf'):
            from fractions import Fraction
            f = Fraction(v)
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        return None

    @staticmethod
    def vfresh(path, name, kind):
        path.nfresh = getattr(path, 'nfresh', 0) + 1
        return SReal(z3.Real('%s!r%d' % (name, path.nfresh)))

    def truth(self):
        return concb(self.t != 0)

    def to_int(self):
        t = self.t
        return conc(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def py_eq(self, ip, o):
        v = SReal.of(o)
        return NotImplemented if v is None else concb(self.t == v)

    def py_compare(self, ip, t, o):
        v = SReal.of(o)
        if v is None:
            return NotImplemented
        return concb({ast.Lt: self.t < v, ast.LtE: self.t <= v, ast.Gt: self.t > v, ast.GtE: self.t >= v}[t])

    def op(self, ip, t, a, b):
        if a is None or b is None:
            return NotImplemented
        if t in (ast.Add, ast.Sub):
            return SReal(a + b if t is ast.Add else a - b)
        const = z3.is_rational_value(z3.simplify(b))
        if t is ast.Mult and (const or z3.is_rational_value(z3.simplify(a))):
            return SReal(a * b)
        if t in (ast.Div, ast.FloorDiv, ast.Mod) and const and z3.is_true(z3.simplify(b > 0)):
            if t is ast.Div:
                return SReal(a / b)
            q = z3.ToReal(z3.ToInt(a / b))
            return SReal(q if t is ast.FloorDiv else a - q * b)
        return NotImplemented

    def py_binop(self, ip, t, o):
        return self.op(ip, t, self.t, SReal.of(o))

    def py_rbinop(self, ip, t, o):
        return self.op(ip, t, SReal.of(o), self.t)

    def __repr__(self):
        return '<float %s>' % self.t


@model(float)
def m_float(ip, v=0.0):
    if isinstance(v, SReal):
        return v
    if isinstance(v, (int, str, float)):
        return float(v)
    if is_intlike(v):
        return SReal(SReal.of(v))
    raise Unsupported('float(%r)' % (v,))


@model(math.floor)
def m_floor(ip, v):
    if isinstance(v, SReal):
        return conc(z3.ToInt(v.t))
    return math.floor(v) if isinstance(v, (int, float)) else m_int(ip, v)


@model(math.ceil)
def m_ceil(ip, v):
    if isinstance(v, SReal):
        return conc(-z3.ToInt(-v.t))
    return math.ceil(v) if isinstance(v, (int, float)) else m_int(ip, v)


@model(pow)
def m_pow(ip, a, b):
    return ip.binop(ast.Pow(), a, b)


@model(int)
def m_int(ip, v=0, base=10):
    if is_int(v):
        return v
    if isinstance(v, bool) or is_sbool(v):
        return conc(zint(v))
    if isinstance(v, (str, bytes, float)):
        try:
            return int(v, base) if base != 10 or isinstance(v, (str, bytes)) else int(v)
        except ValueError as e:
            ip.throw(ValueError, *e.args)
    if isinstance(v, SReal):
        return v.to_int()
    h = ip.run.int_hook
    if h:
        r = h(ip, v, base)
        if r is not None:
            return r
    raise Unsupported('int(%r)' % (v,))


@model(str)
def m_str(ip, v='', *enc):
    if enc and is_byteslike(v):
        return m_decode(ip, v)
    return to_str(ip, v)


def m_decode(ip, v):
    return SStr([('txt', as_sbytes(v))])


@model(repr)
def m_repr(ip, v):
    return repr(v) if ip.is_native(v) else SStr([('sym', ip.p.fresh_int('repr'))])


@model(bytes)
def m_bytes(ip, v=b'', *enc):
    if isinstance(v, int):
        return bytes(v)
    if isinstance(v, str):
        return v.encode(*enc)
    if isinstance(v, SStr):
        return v.encode()
    if is_byteslike(v):
        s = as_sbytes(v)
        if s.tag is not None:
            return s.tag
        return SBytes(s.n, s.get, s.base, s.off, 'bytes', s.key, s.kparent, s.parts, s.tag)
    if is_int(v):
        n = v
        if ip.p.decide(lt(n, 0)):
            ip.throw(ValueError, 'negative count')
        return SBytes(n, lambda i: 0)
    vals = ip.iter_values(v)
    for x in (vals if isinstance(vals, tuple) else (vals.elem(ip.p.fresh_nat()),)):
        if not ip.p.decide(between(0, x, 256), 'byte range'):
            ip.throw(ValueError, 'bytes must be in range(0, 256)')
    if isinstance(vals, tuple):
        if ip.is_native(vals):
            return bytes(vals)
        return tuple_bytes(vals)
    return SBytes(vals.n, vals.elem)


def tuple_bytes(vals):
    def get(i):
        i = conc(i)
        if isinstance(i, int):
            return vals[i] if 0 <= i < len(vals) else 0
        r = z3.IntVal(0)
        for k in reversed(range(len(vals))):
            r = z3.If(i == k, zint(vals[k]), r)
        return r
    return SBytes(len(vals), get)


class SByteArray(HObj):
    """bytearray"""

    def __init__(self, v=b''):
        super().__init__('bytearray')
        self.f['v'] = v

    def as_sbytes(self):
        s = as_sbytes(self.f['v'])
        return SBytes(s.n, s.get, s.base, s.off, 'bytearray', s.key, s.kparent, s.parts, s.tag)

    def m_append(self, ip, v):
        if not is_intlike(v):
            ip.throw(TypeError, 'an integer is required')
        if not ip.p.decide(between(0, v, 256), 'byte range'):
            ip.throw(ValueError, 'byte must be in range(0, 256)')
        self.setf('v', concat(self.f['v'], bytes([v]) if isinstance(v, int) else SBytes(1, lambda i: v)))

    def m_extend(self, ip, v):
        self.setf('v', concat(self.f['v'], m_bytes(ip, v)))

    def py_iop(self, ip, t, v):
        if t is ast.Add:
            self.setf('v', concat(self.f['v'], as_sbytes(v)))
            return self
        return NotImplemented

    def py_len(self, ip):
        return as_sbytes(self.f['v']).n

    def py_setitem(self, ip, i, v):
        s = as_sbytes(self.f['v'])
        j = ip.norm_index(i, s.n)
        if not ip.p.decide(between(0, v, 256), 'byte range'):
            ip.throw(ValueError, 'byte must be in range(0, 256)')
        self.setf('v', SBytes(s.n, lambda k: Ite(eq(k, j), v, s.get(k))))

    def m_find(self, ip, *a):
        return bytes_method(ip, self, 'find', list(a), {})


@model(bytearray)
def m_bytearray(ip, v=b''):
    return SByteArray(m_bytes(ip, v))


@model(memoryview)
def m_memoryview(ip, v):
    s = as_sbytes(v)
    return SBytes(s.n, s.get, s.base, s.off, 'memoryview', s.key, s.kparent, s.parts, s.tag)


@model(int.from_bytes)
def m_from_bytes(ip, b, byteorder='big', signed=False):
    if ip.is_native(b):
        return int.from_bytes(b, byteorder, signed=signed)
    s = as_sbytes(b)
    if not isinstance(s.n, int):
        raise Unsupported('from_bytes of unknown length')
    r = 0
    idx = range(s.n) if byteorder == 'big' else reversed(range(s.n))
    for i in idx:
        r = add(mul(r, 256), s.get(i))
    return r


@model(isinstance)
def m_isinstance(ip, o, cls):
    if isinstance(cls, tuple):
        return Or(*[m_isinstance(ip, o, c) for c in cls])
    if not isinstance(cls, type):
        raise Unsupported('isinstance with %r' % (cls,))
    h = getattr(o, 'py_isinstance', None)
    if h:
        return h(ip, cls)
    return issubclass(type_of(ip, o), cls)


def type_of(ip, o):
    if isinstance(o, SObj):
        return o.cls
    if isinstance(o, SExc):
        return o.cls
    if isinstance(o, (SBytes,)):
        return {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}.get(o.kind, bytes)
    if isinstance(o, SByteArray):
        return bytearray
    if isinstance(o, SList):
        return list
    if isinstance(o, SDict):
        return dict
    if isinstance(o, SSet):
        return set
    if isinstance(o, Seq):
        return tuple if o.kind == 'tuple' else list
    if is_sint(o):
        return int
    if is_sbool(o):
        return bool
    if isinstance(o, SStr):
        return str
    if isinstance(o, (Closure,)):
        return types.FunctionType
    if isinstance(o, GenIter):
        return types.GeneratorType
    if isinstance(o, Model) and o.cls is not None:
        return o.cls
    if isinstance(o, (GhostVal, HObj, BoundM, ModelM, NativeM)):
        raise Unsupported('type of %r' % (o,))
    return type(o)


@model(type)
def m_type(ip, o):
    return type_of(ip, o)


@model(issubclass)
def m_issubclass(ip, c, d):
    return issubclass(c, d)


@model(hasattr)
def m_hasattr(ip, o, name):
    h = getattr(o, 'py_hasattr', None)
    if h:
        return h(ip, name)
    try:
        ip.getattr(o, name)
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


@model(getattr)
def m_getattr(ip, o, name, *d):
    return ip.getattr(o, name, d[0] if d else UNDEF)


@model(setattr)
def m_setattr(ip, o, name, v):
    ip.setattr(o, name, v)


@model(callable)
def m_callable(ip, o):
    return callable(o) or isinstance(o, (Closure, BoundM, ModelM, NativeM))


@model(id)
def m_id(ip, o):
    raise Unsupported('id()')


@model(print)
def m_print(ip, *a, **k):
    return None


@model(object.__getattribute__)
def m_getattribute(ip, o, name):
    if isinstance(o, SObj):
        if name in o.f and o.f[name] is not UNDEF:
            return o.f[name]
        for k in o.cls.__mro__:
            if name in k.__dict__ and not isinstance(k.__dict__[name], (types.MemberDescriptorType,)):
                return ip.bind(k.__dict__[name], o, o.cls)
        ip.throw(AttributeError, name)
    raise Unsupported('object.__getattribute__')


@model(tuple.__new__)
def m_tuple_new(ip, cls, vals=()):
    if cls is tuple:
        return ip.iter_values(vals)
    return SObj(cls, items=ip.conc_tuple(vals))


@model(list.__new__)
def m_list_new(ip, cls, *vals):
    return SObj(cls, items=SList(()))


@model(object.__new__)
def m_object_new(ip, cls, *a, **k):
    return SObj(cls)


@model(tuple.__init__, object.__init__)
def m_noop_init(ip, *a, **k):
    return None


@model(list.__init__)
def m_list_init(ip, o, vals=()):
    o.items.setf('v', ip.iter_values(vals))
    return None


@model(functools.reduce)
def m_reduce(ip, f, it, *init):
    vals = ip.iter_values(it)
    if isinstance(vals, tuple):
        vals = list(vals)
        if init:
            acc = init[0]
        else:
            if not vals:
                ip.throw(TypeError, 'reduce() of empty iterable')
            acc = vals.pop(0)
        for v in vals:
            acc = ip.call(f, [acc, v], {})
        return acc
    h = ip.run.fold_hook
    if h:
        r = h(ip, f, vals, init[0] if init else None)
        if r is not None:
            return r
    raise Unsupported('reduce over symbolic sequence')


@model(itertools.chain)
def m_chain(ip, *its):
    out = ()
    if len(its) == 1 and isinstance(its[0], Star) and ip.run.chain_hook:
        return ip.run.chain_hook(ip, its[0].seq)
    for it in its:
        if isinstance(it, Star):
            raise Unsupported('chain of symbolic length')
        out = ip.seq_concat(out, ip.iter_values(it))
    return GenIter(out)


@model(itertools.chain.from_iterable)
def m_chain_from(ip, it):
    v = ip.iter_values(it)
    if isinstance(v, Seq):
        return m_chain(ip, Star(v))
    return m_chain(ip, *ip.iter_values(it))


class Suppress(Model):
    def __init__(self, ip, *excs):
        super().__init__('suppress')
        self.excs = excs

    def m___enter__(self, ip):
        return None

    def m___exit__(self, ip, cls, exc, tb):
        return cls is not None and any(issubclass(cls, x) for x in self.excs)


MODELS[contextlib.suppress] = Suppress


# ------------------------------------------------------------------ struct, binascii

def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    little = False
    if fmt[:1] in '><!=@':
        if fmt[0] == '<':
            little = True
        elif fmt[0] in '=@':
            raise Unsupported('native struct format')
        fmt = fmt[1:]
    else:
        raise Unsupported('native struct format')
    out, num = [], ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch == 's':
            out.append(('s', int(num or 1)))
        elif ch in 'BHILQ':
            out.extend([('u', {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}[ch])] * int(num or 1))
        elif ch == 'x':
            out.append(('x', int(num or 1)))
        else:
            raise Unsupported('struct format %r' % ch)
        num = ''
    return out, little


def be_bytes(v, w, little=False):
    """w bytes of a number in range"""
    if isinstance(v, int):
        return v.to_bytes(w, 'little' if little else 'big')
    parts = [conc((v / (256 ** (w - 1 - k))) % 256) if k else conc(v / (256 ** (w - 1))) for k in range(w)]
    if little:
        parts = parts[::-1]
    s = tuple_bytes(tuple(parts))
    if not little:
        s.key = v
    return s


@model(struct.pack)
def m_pack(ip, fmt, *args):
    if ip.is_native(args) and isinstance(fmt, (str, bytes)):
        try:
            return struct.pack(fmt, *args)
        except struct.error as e:
            ip.throw(struct.error, *e.args)
    items, little = parse_fmt(fmt)
    if len([x for x in items if x[0] != 'x']) != len(args):
        ip.throw(struct.error, 'wrong number of items')
    r = b''
    args = list(args)
    for k, w in items:
        if k == 'x':
            r = concat(r, b'\0' * w)
            continue
        v = args.pop(0)
        if k == 's':
            s = as_sbytes(v)
            if isinstance(s.n, int) and s.n == w:
                r = concat(r, s)
                continue
            raise Unsupported('pack of s')
        if not is_intlike(v):
            ip.throw(struct.error, 'required argument is not an integer')
        if not ip.p.decide(between(0, v, 256 ** w), 'struct range'):
            ip.throw(struct.error, 'argument out of range')
        r = concat(r, be_bytes(v, w, little))
    return r


def unpack_at(ip, fmt, s, off):
    items, little = parse_fmt(fmt)
    out = []
    for k, w in items:
        if k == 's':
            out.append(slice_bytes(s, off, w))
        elif k == 'u':
            out.append(be_int(ip, s, off, w, little))
        off = add(off, w)
    return tuple(out)


def be_int(ip, s, off, w, little=False):
    r = 0
    for j in (reversed(range(w)) if little else range(w)):
        r = add(mul(r, 256), s.get(add(off, j)))
    h = getattr(ip.run, 'int_tag_hook', None)
    return r


@model(struct.unpack_from)
def m_unpack_from(ip, fmt, data, offset=0):
    s = as_sbytes(data)
    h = ip.run.unpack_hook
    if h:
        r = h(ip, fmt, s, offset)
        if r is not None:
            return r
    size = struct.calcsize(fmt)
    if is_int(offset) and ip.p.decide(lt(offset, 0), 'unpack neg'):
        raise Unsupported('negative unpack offset')
    if not ip.p.decide(le(add(offset, size), s.n), 'unpack range'):
        ip.throw(struct.error, 'unpack_from requires a buffer of at least %d bytes' % size)
    return unpack_at(ip, fmt, s, offset)


@model(struct.unpack)
def m_unpack(ip, fmt, data):
    s = as_sbytes(data)
    size = struct.calcsize(fmt)
    if not ip.p.decide(eq(s.n, size), 'unpack size'):
        ip.throw(struct.error, 'unpack requires a buffer of %d bytes' % size)
    h = ip.run.unpack_hook
    if h:
        r = h(ip, fmt, s, 0)
        if r is not None:
            return r
    return unpack_at(ip, fmt, s, 0)


PURE = {struct.calcsize, repr, hash, chr, hex, bin, oct, round, complex, float, str, format, int, bytes, slice}


def _lexical(f):
    def g(ip, *a):
        if all(isinstance(x, str) for x in a):
            return f(*a)
        raise Unsupported('%s of %r' % (f.__name__, a))
    return g


import os as _os
for _f in (_os.path.splitext, _os.path.join, _os.path.basename, _os.path.dirname, _os.path.split):
    MODELS[_f] = _lexical(_f)
