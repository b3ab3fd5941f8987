"""Symbolic interpreter of Python functions, working on the AST of the function objects
that the program under test really has loaded."""
import ast
import builtins
import inspect
import textwrap
import types
import sys

import z3
from .core import *
from .core import _cmp

_src_cache = {}
MAX_UNROLL = 600


def func_ast(fn):
    """AST node of a function object, located by file and first line of its code object"""
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _src_cache:
        return _src_cache[key]
    fk = ('file', code.co_filename)
    if fk not in _src_cache:
        with open(code.co_filename, encoding='utf-8') as f:
            _src_cache[fk] = ast.parse(f.read())
    best = None
    for node in ast.walk(_src_cache[fk]):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            ln = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                ln = min(d.lineno for d in node.decorator_list)
            nm = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
            if ln == code.co_firstlineno and nm == code.co_name:
                best = node
                break
    if best is None:
        raise Unsupported('no source for %s' % fn)
    # the text that is interpreted must compile to the code that runs
    ck = ('code', code.co_filename)
    if ck not in _src_cache:
        allc = []
        todo = [compile(_src_cache[fk], code.co_filename, 'exec', dont_inherit=True)]
        while todo:
            c = todo.pop()
            allc.append(c)
            todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))
        _src_cache[ck] = allc
    if not any(c.co_name == code.co_name and c.co_firstlineno == code.co_firstlineno and _same_code(c, code) for c in _src_cache[ck]):
        raise Unsupported('source of %s is not the code that is loaded' % code.co_name)
    _src_cache[key] = best
    return best


def _same_code(a, b):
    if a.co_code != b.co_code or a.co_names != b.co_names or a.co_varnames != b.co_varnames or len(a.co_consts) != len(b.co_consts):
        return False
    return all(_same_code(x, y) if isinstance(x, types.CodeType) and isinstance(y, types.CodeType) else (x == y and type(x) is type(y))
               for x, y in zip(a.co_consts, b.co_consts))


class LazyVar:
    """variable whose kind at a loop head is chosen when it is first used"""

    def __init__(self, kinds, name, old):
        self.kinds, self.name, self.old = kinds, name, old


class Closure:
    """function defined while interpreting"""

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = getattr(node, 'name', '<lambda>')


class BoundM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ModelM:
    """bound method of a Model"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class NativeM:
    """bound method of a value with a rule (list.append, bytes.find, ...)"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperProxy:
    def __init__(self, cls, obj, objcls):
        self.cls, self.obj, self.objcls = cls, obj, objcls


class Consumed(GhostVal):
    """a generator all of whose values the contract has seen"""


CONSUMED = Consumed()


class FilterSeq:
    """the elements of `vals` that satisfy `cond`, in order, each given as `elt(k)`; which
    ones they are is known at the indices the contract names as witnesses"""

    def __init__(self, vals, cond, elt):
        self.vals, self.cond, self.elt = vals, cond, elt

    def first(self, ip):
        """value of the first element there is, UNDEF if there is none"""
        return first_of(ip, self.vals.n, self.cond, self.elt)

    def check(self, ip):
        """one arbitrary element shows what evaluating the condition and the value may raise"""
        p = ip.p
        i = p.fresh_int('fi')
        if p.decide(gt(self.vals.n, 0), 'filter nonempty'):
            p.fact(z3.And(i >= 0, i < zint(self.vals.n)))
            with pure(p):
                if p.decide(self.cond(i), 'filter'):
                    self.elt(i)

    def as_seq(self, ip):
        """as a sequence of unknown length: element j is that of index at(j), increasing"""
        p = ip.p
        n = p.fresh_nat('kept')
        p.fact(n <= zint(self.vals.n))
        at = z3.Function(p.name('kept.at'), z3.IntSort(), z3.IntSort())
        seen = []

        def index(j):
            j = zint(conc(j))
            t = at(j)
            if not any(j.eq(x) for x in seen):
                for x in seen:
                    p.fact(z3.And(z3.Implies(j < x, t < at(x)), z3.Implies(x < j, at(x) < t), z3.Implies(x == j, t == at(x))))
                seen.append(j)
                with pure(p):
                    p.fact(z3.Implies(z3.And(j >= 0, j < n), z3.And(t >= 0, t < zint(self.vals.n), zbool(self.cond(t)))))
            return t
        for j in (0, 1, n - 1):
            index(j)
        for w in (ip.run.witnesses(ip.run.ctx) if ip.run.witnesses else []):
            h = p.fresh_int('kept.pos')
            with pure(p):
                p.fact(z3.Implies(z3.And(zint(w) >= 0, zint(w) < zint(self.vals.n), zbool(self.cond(w))), z3.And(h >= 0, h < n, index(h) == zint(w))))
        return Seq(n, lambda j: self.elt(index(j)), tag=('filter', self))


class pure:
    """within, no object that existed before may change"""

    def __init__(self, p):
        self.p = p

    def __enter__(self):
        if not getattr(self.p, 'comp_depth', 0):
            self.p.comp_clock = self.p.clock
        self.p.comp_depth = getattr(self.p, 'comp_depth', 0) + 1

    def __exit__(self, *a):
        self.p.comp_depth -= 1


def first_of(ip, n, cond, elt):
    p = ip.p
    ws = [w for w in ip.run.witnesses(ip.run.ctx)]
    if p.choose(2, 'is there one') == 0:
        k = p.fresh_int('first')
        p.assume(And(ge(k, 0), lt(k, n)))
        p.assume(cond(k))
        for w in ws:
            if p.decide(And(ge(w, 0), lt(w, k)), 'witness before'):
                p.assume(Not(cond(w)))
        return elt(k)
    for w in ws:
        if p.decide(And(ge(w, 0), lt(w, n)), 'witness'):
            p.assume(Not(cond(w)))
    return UNDEF


class Star:
    """*seq among the arguments of a call, for a sequence of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


class GenIter:
    """values of an interpreted generator / iterator, produced eagerly: ('conc', tuple) or Seq"""

    def __init__(self, items):
        self.items = items
        self.pos = 0
        self.born = Path.cur.clock
        Path.cur.clock += 1

    def advance(self, k):
        ls = Path.cur.loopstack
        if ls and self.born < ls[-1].clock:
            raise Unsupported('iterator advanced inside a loop')
        self.pos += k


class SeqYields:
    """what a generator gives that is nothing but `yield from` a sequence of symbolic length"""

    def __init__(self, seq):
        self.seq = seq

    def append(self, v):
        raise Unsupported('yield after yield from a symbolic sequence')


class Frame:
    __slots__ = ('vars', 'globals', 'func', 'parent', 'node', 'clscell', 'depth', 'nonlocals', 'isgen', 'yields', 'caller', 'args0', 'watched')

    def __init__(self, func, globs, parent=None, caller=None):
        self.vars = {}
        self.globals = globs
        self.func = func
        self.parent = parent
        self.caller = caller
        self.depth = caller.depth + 1 if caller else 0
        self.clscell = self.node = None
        self.nonlocals = set()
        self.isgen = False
        self.yields = None
        self.args0 = None


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class LoopRec:
    def __init__(self, key):
        self.key = key
        self.written = {}


def is_gen_node(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    """nodes of a function body without nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def assigned_names(nodes):
    out = set()
    for b in nodes:
        for n in [b] + list(walk_own(b)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


def _fresh_scopes(fnode):
    """per name, the loops whose body gives it a value before anything can read it"""
    out = {}
    for m in ast.walk(fnode):
        if not isinstance(m, (ast.For, ast.While)):
            continue
        if isinstance(m, ast.For):
            for x in ast.walk(m.target):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, set()).add(m)
        seen = set()
        for st in m.body:
            if isinstance(st, ast.Assign):
                for x in ast.walk(st.value):
                    if isinstance(x, ast.Name):
                        seen.add(x.id)
                for t in st.targets:
                    for x in [t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []:
                        if isinstance(x, ast.Name) and x.id not in seen:
                            out.setdefault(x.id, set()).add(m)
            seen.update(x.id for x in ast.walk(st) if isinstance(x, ast.Name))
    return out


def dead_names(fnode, loop):
    """names whose value at the head of the loop is never read: every read is within some other
    loop body (not around this loop) that gives the name a value first"""
    memo = fnode.__dict__.setdefault('_dead', {})
    if loop in memo:
        return memo[loop]
    scopes = _fresh_scopes(fnode)
    reads = {}

    def visit(n, around):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            reads.setdefault(n.id, []).append(around)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                reads.setdefault(x, []).append(())
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            reads.setdefault(n.target.id, []).append(around)
        if isinstance(n, (ast.For, ast.While)):
            body = set(map(id, n.body))
            for ch in ast.iter_child_nodes(n):
                visit(ch, around + (n,) if id(ch) in body else around)
        else:
            for ch in ast.iter_child_nodes(n):
                visit(ch, around)
    visit(fnode, ())
    inside = {m for m in ast.walk(fnode) if isinstance(m, (ast.For, ast.While)) and m is not loop and any(x is loop for b in m.body for x in ast.walk(b))}
    names = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name)}
    dead = {x for x in names if x in scopes and all(any(m in scopes[x] and m not in inside for m in around) for around in reads.get(x, []))}
    memo[loop] = dead
    return dead


class Interp:
    def __init__(self, path, run):
        self.p = path
        self.run = run
        self.models = run.models
        self.depth = 0
        self.frames = []

    # ------------------------------------------------------------------ errors
    def throw(self, cls, *args):
        raise PyRaise(SExc(cls, args))

    def uns(self, msg):
        raise Unsupported(msg)

    # ------------------------------------------------------------------ truth & compare
    def truth(self, v):
        if v is None or v is UNDEF:
            return False
        if isinstance(v, bool) or is_sbool(v):
            return v
        if is_int(v):
            return ne(v, 0)
        if isinstance(v, (SBytes, Seq)):
            return ne(v.n, 0)
        if isinstance(v, (SList, SDict, SSet)):
            x = v.f['v']
            return ne(x.n, 0) if isinstance(x, Seq) else (len(x) > 0)
        if isinstance(v, Model):
            return v.truth(self)
        if isinstance(v, SObj):
            if v.items is not None:
                it = v.items
                return (len(it.v) if isinstance(it, SList) else len(it)) > 0
            for nm in ('__bool__', '__len__'):
                m = self.class_attr(v.cls, nm)
                if m is not None:
                    return self.truth(self.call(BoundM(m, v), [], {}))
            return True
        if isinstance(v, GhostVal):
            t = getattr(v, 'truth', None)
            return t() if t else True
        if hasattr(v, 'as_sbytes'):
            return ne(v.as_sbytes().n, 0)
        if isinstance(v, GenIter):
            return True
        return bool(v)

    def test(self, v, why=''):
        return self.p.decide(self.truth(v), why)

    def eq(self, a, b):
        if a is b and not isinstance(a, float):
            return True
        if is_intlike(a) and is_intlike(b):
            if (is_sbool(a) or isinstance(a, bool)) and (is_sbool(b) or isinstance(b, bool)):
                return concb(zbool(a) == zbool(b))
            return eq(a, b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, GhostVal) and hasattr(o, 'is_none'):
                return o.is_none()
            return False
        if hasattr(a, 'py_eq'):
            r = a.py_eq(self, b)
            if r is not NotImplemented:
                return r
        if hasattr(b, 'py_eq'):
            r = b.py_eq(self, a)
            if r is not NotImplemented:
                return r
        if is_byteslike(a) and is_byteslike(b):
            return self.bytes_eq(a, b)
        if is_byteslike(a) or is_byteslike(b):
            return False
        ta, tb = self.as_tuple(a), self.as_tuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return False
            return And(*[self.eq(x, y) for x, y in zip(ta, tb)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.term == b.term if a.sort == b.sort else False
        if isinstance(a, HObj) or isinstance(b, HObj):
            return False
        if is_intlike(a) or is_intlike(b):
            return False
        if isinstance(a, (Closure, BoundM)) or isinstance(b, (Closure, BoundM)):
            return False
        if isinstance(a, GhostVal) or isinstance(b, GhostVal):
            self.uns('== on %r, %r' % (a, b))
        return a == b

    def as_tuple(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, SList) and isinstance(v.v, tuple):
            return v.v
        if isinstance(v, SObj) and v.items is not None:
            return v.items.v if isinstance(v.items, SList) else v.items
        return None

    def bytes_eq(self, a, b):
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return a == b
        a, b = as_sbytes(a), as_sbytes(b)
        e = eq(a.n, b.n)
        if e is False:
            return False
        if a.tag is not None and b.tag is not None:
            return a.tag == b.tag
        if a.base is not None and a.base is b.base and concb(eq(a.off, b.off)) is True:
            return e
        for n, o in ((a.n, b), (b.n, a)):
            if isinstance(n, int):
                if e is not True and not self.p.decide(e, 'len=='):
                    return False
                if (n >= 8 or a.key is not None or b.key is not None) and not self.run.bytes_by_byte:
                    try:
                        ax = a if isinstance(a.n, int) else self.with_len(a, n)
                        bx = b if isinstance(b.n, int) else self.with_len(b, n)
                        return eq(key_of(ax), key_of(bx))
                    except Unsupported:
                        pass
                if n <= 64:
                    return And(*[eq(a.get(k), b.get(k)) for k in range(n)])
        # symbolic length: the result is equality at all positions; the negative case has a witness
        r = self.p.fresh_bool('bytes_eq')
        w = self.p.fresh_int('eqw')
        self.p.fact(z3.Implies(z3.Not(r), z3.Or(z3.Not(zbool(e)), z3.And(w >= 0, w < zint(a.n), zint(a.get(w)) != zint(b.get(w))))))
        self.p.fact(z3.Implies(r, zbool(e)))
        for K in self.p.ghost.get('K', []):
            self.p.fact(z3.Implies(r, z3.Implies(z3.And(K >= 0, K < zint(a.n)), zint(a.get(K)) == zint(b.get(K)))))
        return r

    def with_len(self, s, n):
        return SBytes(n, s.get, s.base, s.off, s.kind, s.key, s.kparent, s.parts, s.tag)

    def bytes_lt(self, a, b):
        a, b = as_sbytes(a), as_sbytes(b)
        if isinstance(a.n, int) and isinstance(b.n, int) and a.n == b.n:
            return lt(key_of(a), key_of(b))
        self.uns('bytes < of different or unknown length')

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return Not(self.eq(a, b))
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return r if t is ast.Is else Not(r)
        if t is ast.In or t is ast.NotIn:
            r = self.contains(b, a)
            return r if t is ast.In else Not(r)
        if is_intlike(a) and is_intlike(b):
            a, b = (zint(a) if is_sbool(a) else a), (zint(b) if is_sbool(b) else b)
            return {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[t](a, b)
        for x, y, tt in ((a, b, t), (b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t])):
            if hasattr(x, 'py_compare'):
                r = x.py_compare(self, tt, y)
                if r is not NotImplemented:
                    return r
        if is_byteslike(a) and is_byteslike(b):
            if t is ast.Lt:
                return self.bytes_lt(a, b)
            if t is ast.Gt:
                return self.bytes_lt(b, a)
            if t is ast.LtE:
                return Not(self.bytes_lt(b, a))
            return Not(self.bytes_lt(a, b))
        if not isinstance(a, (GhostVal, HObj, SBytes)) and not isinstance(b, (GhostVal, HObj, SBytes)):
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
            try:
                return f(a, b)
            except TypeError as e:
                self.throw(TypeError, str(e))
        if a is None or b is None:
            self.throw(TypeError, 'not orderable')
        self.uns('comparison of %r and %r' % (a, b))

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, GhostVal) and hasattr(o, 'is_none'):
                return o.is_none()
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            if is_sbool(a) or is_sbool(b):
                return concb(zbool(a) == zbool(b))
            return False
        if isinstance(a, HObj) or isinstance(b, HObj):
            return a is b
        if is_intlike(a) and is_intlike(b):
            return eq(a, b)
        return a is b

    def contains(self, cont, x):
        if hasattr(cont, 'py_contains'):
            return cont.py_contains(self, x)
        if isinstance(cont, SDict):
            return Or(*[self.eq(k, x) for k, _ in cont.f['v']])
        if isinstance(cont, (SSet, SList)) and isinstance(cont.f['v'], tuple):
            return Or(*[self.eq(k, x) for k in cont.f['v']])
        t = self.as_tuple(cont)
        if t is not None:
            return Or(*[self.eq(k, x) for k in t])
        if isinstance(cont, (dict, set, frozenset)):
            return Or(*[self.eq(k, x) for k in cont])
        if isinstance(cont, (str,)) and isinstance(x, str):
            return x in cont
        if isinstance(cont, SObj):
            m = self.class_attr(cont.cls, '__contains__')
            if m:
                return self.truth(self.call(BoundM(m, cont), [x], {}))
        if is_byteslike(cont) and is_byteslike(x):
            r = self.call_native_method(as_sbytes(cont), 'find', [x], {})
            return ge(r, 0)
        self.uns('in %r' % (cont,))

    # ------------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        t = type(op)
        if is_intlike(a) and is_intlike(b):
            return self.int_op(t, a, b)
        if t is ast.Add:
            if is_byteslike(a) and is_byteslike(b):
                return concat(self.bytes_of(a), self.bytes_of(b))
            ta, tb = self.as_tuple(a), self.as_tuple(b)
            if isinstance(a, tuple) and tb is not None:
                return a + tb
            if isinstance(a, SList) and isinstance(b, SList):
                return self.new_list(self.seq_concat(a.v, b.v))
        if t is ast.Mult:
            if is_byteslike(a) and is_int(b):
                return self.bytes_repeat(a, b)
            if is_byteslike(b) and is_int(a):
                return self.bytes_repeat(b, a)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(a, SList) and isinstance(b, int) and isinstance(a.v, tuple):
                return self.new_list(a.v * b)
        if t is ast.Mod and isinstance(a, str):
            return self.str_format(a, b)
        if t is ast.Mod and isinstance(a, bytes):
            return self.str_format(a, b)
        if hasattr(a, 'py_binop'):
            r = a.py_binop(self, t, b)
            if r is not NotImplemented:
                return r
        if hasattr(b, 'py_rbinop'):
            r = b.py_rbinop(self, t, a)
            if r is not NotImplemented:
                return r
        if isinstance(a, SSet) and isinstance(b, SSet) and t in (ast.Sub, ast.BitOr, ast.BitAnd):
            return self.set_op(t, a, b)
        if self.is_native(a) and self.is_native(b):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
                 ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitOr: operator.or_,
                 ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
                 ast.RShift: operator.rshift, ast.Pow: operator.pow}[t]
            try:
                return f(a, b)
            except Exception as e:
                self.throw(type(e), *e.args)
        if a is None or b is None or (is_intlike(a) and is_byteslike(b)) or (is_byteslike(a) and is_intlike(b)):
            self.throw(TypeError, 'unsupported operand')
        self.uns('%s on %r, %r' % (t.__name__, a, b))

    def is_native(self, v):
        if isinstance(v, (z3.ExprRef, GhostVal, HObj, SBytes, Seq, Closure, BoundM, ModelM, NativeM, GenIter, SExc)):
            return False
        if isinstance(v, (tuple, list, set, frozenset)):
            return all(self.is_native(x) for x in v)
        if isinstance(v, dict):
            return all(self.is_native(x) for x in v.values())
        return True

    def set_op(self, t, a, b):
        va, vb = a.f['v'], b.f['v']
        out = []
        if t is ast.BitOr:
            out = list(va)
            for x in vb:
                if not self.p.decide(Or(*[self.eq(x, y) for y in out])):
                    out.append(x)
        else:
            want = t is ast.BitAnd
            for x in va:
                if self.p.decide(Or(*[self.eq(x, y) for y in vb])) == want:
                    out.append(x)
        return SSet(tuple(out))

    def bytes_of(self, v):
        return v.as_sbytes() if hasattr(v, 'as_sbytes') else v

    def bytes_repeat(self, a, n):
        if isinstance(a, bytes) and isinstance(n, int) and len(a) * n < 100000:
            return a * n
        s = as_sbytes(a)
        if isinstance(s.n, int) and s.n == 1:
            n = Ite(lt(n, 0), 0, n) if not (isinstance(n, int)) else max(n, 0)
            c = s.get(0)
            r = SBytes(conc(n), lambda i: c, kind=s.kind)
            return r
        self.uns('bytes * n')

    def nonneg(self, a):
        return a >= 0 if isinstance(a, int) else self.p.entails(a >= 0)

    def int_op(self, t, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                 ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
                 ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
                 ast.Div: operator.truediv, ast.Pow: operator.pow}.get(t)
            try:
                return f(a, b)
            except (ZeroDivisionError, ValueError) as e:
                self.throw(type(e), *e.args)
        if t in (ast.BitOr, ast.BitAnd, ast.BitXor) and all(is_sbool(x) or isinstance(x, bool) for x in (a, b)):
            return {ast.BitOr: Or, ast.BitAnd: And}[t](a, b) if t is not ast.BitXor else Not(self.eq(a, b))
        a = zint(a) if not isinstance(a, int) else int(a)
        b = zint(b) if not isinstance(b, int) else int(b)
        p = self.p
        if t is ast.Add:
            return add(a, b)
        if t is ast.Sub:
            return sub(a, b)
        if t is ast.Mult:
            return mul(a, b)
        if t in (ast.FloorDiv, ast.Mod):
            if not isinstance(b, int):
                if p.decide(b == 0):
                    self.throw(ZeroDivisionError)
                if not p.entails(b > 0):
                    self.uns('division by a possibly negative number')
            elif b == 0:
                self.throw(ZeroDivisionError)
            elif b < 0:
                self.uns('division by a negative number')
            return conc(zint(a) / b) if t is ast.FloorDiv else conc(zint(a) % b)
        if t is ast.LShift:
            if not isinstance(b, int) and p.decide(b < 0):
                self.throw(ValueError, 'negative shift count')
            r = mul(a, p.pow2(b))
            return self.tag_mult(r, b, a)
        if t is ast.RShift:
            if isinstance(b, int) and b < 0 or (not isinstance(b, int) and p.decide(b < 0)):
                self.throw(ValueError, 'negative shift count')
            return conc(zint(a) / zint(p.pow2(b)))
        if t is ast.BitAnd:
            return self.bit_and(a, b)
        if t is ast.BitOr:
            return self.bit_or(a, b)
        if t is ast.BitXor:
            return self.bit_xor(a, b)
        if t is ast.Pow and isinstance(a, int) and a == 2:
            return p.pow2(b)
        self.uns('integer operation %s' % t.__name__)

    def tag_mult(self, r, e, x):
        if isinstance(r, z3.ExprRef):
            self.p.memo[('shl', r.get_id())] = (r, e, x)
        return r

    def bit_and(self, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            m = b
            if m == 0:
                return 0
            bits = self.p.memo.get(('bits', a.get_id()))
            if bits is not None and 0 <= m < 256:
                return conc(z3.Sum([z3.If(b, z3.IntVal(2 ** j), z3.IntVal(0)) for j, b in enumerate(bits[1]) if (m >> j) & 1]))
            xo = self.p.memo.get(('xor', a.get_id()))
            if xo is not None and m > 0:
                return self.bit_xor(self.bit_and(xo[1], m) if not isinstance(xo[1], int) else xo[1] & m,
                                    self.bit_and(xo[2], m) if not isinstance(xo[2], int) else xo[2] & m)
            if m < 0:
                # a & ~k == a - (a & k)
                k = ~m
                if k == 0:
                    return a
                return sub(a, self.bit_and(a, k))
            # contiguous runs of ones
            r, lo = 0, 0
            while m >> lo:
                if (m >> lo) & 1:
                    hi = lo
                    while (m >> hi) & 1:
                        hi += 1
                    w = hi - lo
                    if lo == 0:
                        part = a % (2 ** w)
                    else:
                        part = ((a / (2 ** lo)) % (2 ** w)) * (2 ** lo)
                    r = add(r, part)
                    lo = hi
                else:
                    lo += 1
            return r
        # both symbolic: sound bounds only
        r = self.p.fresh_int('and')
        self.p.fact(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a, r <= b)))
        return r

    def bit_or(self, a, b):
        """exact when the operands have no common bits (proved), bounds otherwise"""
        p = self.p
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        for x, y in ((a, b), (b, a)):
            # y multiple of 2^e and 0 <= x < 2^e
            e = None
            if isinstance(y, int):
                if y > 0:
                    e = (y & -y).bit_length() - 1
            else:
                tg = p.memo.get(('shl', y.get_id()))
                if tg is not None:
                    e = tg[1]
            if e is None:
                continue
            pe = p.pow2(e)
            if p.entails(And(le(0, x), lt(x, pe))) and self.nonneg(y):
                r = add(a, b)
                # keep the power both are multiples of, if any
                return r
        for x, y in ((a, b), (b, a)):
            # a constant k whose bits are single-run: a | k = a + k - (a & k)
            if isinstance(y, int) and y > 0 and not isinstance(x, int):
                return sub(add(x, y), self.bit_and(x, y))
        r = p.fresh_int('or')
        p.fact(z3.Implies(z3.And(zint(a) >= 0, zint(b) >= 0), z3.And(r >= zint(a), r >= zint(b), r <= zint(a) + zint(b))))
        return r

    def bit_xor(self, a, b):
        p = self.p
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        r = p.fresh_int('xor')
        a, b = zint(a), zint(b)
        p.fact(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a + b)))
        p.fact((r == 0) == (a == b))
        p.memo[('xor', r.get_id())] = (r, a, b)
        return r

    # ------------------------------------------------------------------ sequences
    def new_list(self, v=()):
        if self.run.newlist_hook:
            r = self.run.newlist_hook(self, v)
            if r is not None:
                return r
        return SList(v)

    def seq_len(self, v):
        return v.n if isinstance(v, Seq) else len(v)

    def seq_at(self, v, i):
        """element i, 0 <= i < len known"""
        if isinstance(v, Seq):
            return v.elem(i)
        if isinstance(i, int):
            return v[i]
        for k in range(len(v)):
            if k == len(v) - 1 or self.p.decide(eq(i, k), 'index'):
                return v[k]
        self.uns('index into empty')

    def seq_concat(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        na, nb = self.seq_len(a), self.seq_len(b)
        ip = self

        def elem(i):
            if ip.p.decide(lt(i, na), 'concat index'):
                return ip.seq_at(a, i)
            return ip.seq_at(b, sub(i, na))
        return Seq(add(na, nb), elem, tag=('concat', a, b))

    def norm_index(self, i, n, exc=IndexError):
        """python index -> position, raising when out of range"""
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                self.throw(exc, 'index out of range')
            return j
        if self.p.decide(lt(i, 0), 'neg index'):
            i = add(i, n)
            if self.p.decide(lt(i, 0), 'index range'):
                self.throw(exc, 'index out of range')
            return i
        if not self.p.decide(lt(i, n), 'index range'):
            self.throw(exc, 'index out of range')
        return i

    def clamp_slice(self, lo, hi, n):
        p = self.p

        def cl(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int) and isinstance(n, int):
                if x < 0:
                    return max(x + n, 0)
                return min(x, n)
            if p.decide(lt(x, 0), 'slice neg'):
                x = add(x, n)
                if p.decide(lt(x, 0), 'slice neg2'):
                    return 0
                return x
            if p.decide(gt(x, n), 'slice beyond'):
                return n
            return x
        lo = cl(lo, 0)
        hi = cl(hi, n)
        if lo is hi:
            return lo, 0
        if p.decide(lt(hi, lo), 'slice empty'):
            return lo, 0
        return lo, sub(hi, lo)

    def getitem(self, o, i):
        p = self.p
        if isinstance(i, slice):
            if i.step is not None:
                if is_byteslike(o) and isinstance(o, bytes):
                    return o[i]
                if i.step == -1 and i.start is None and i.stop is None:
                    s = self.bytes_of(o)
                    if isinstance(s, SBytes):
                        n = s.n
                        return SBytes(n, lambda k: s.get(sub(sub(n, 1), k)), kind=s.kind)
                    t = self.as_tuple(o)
                    if t is not None:
                        return t[::-1] if not isinstance(o, SList) else self.new_list(t[::-1])
                if isinstance(i.step, int) and isinstance(i.start, (int, type(None))) and isinstance(i.stop, (int, type(None))):
                    t = self.as_tuple(o)
                    if t is not None:
                        return t[i] if not isinstance(o, SList) else self.new_list(t[i])
                self.uns('slice step')
            if hasattr(o, 'py_slice'):
                return o.py_slice(self, i.start, i.stop)
            if is_byteslike(o):
                if isinstance(o, (bytes, bytearray)) and all(isinstance(x, (int, type(None))) for x in (i.start, i.stop)):
                    return o[i]
                s = as_sbytes(o)
                lo, n = self.clamp_slice(i.start, i.stop, s.n)
                return slice_bytes(s, lo, n)
            if isinstance(o, str):
                return o[i]
            seq = o.v if isinstance(o, SList) else (o.f['v'] if isinstance(o, SDict) else o)
            if isinstance(seq, SObj):
                seq = self.as_tuple(seq)
            if isinstance(seq, tuple) and all(isinstance(x, (int, type(None))) for x in (i.start, i.stop)):
                r = seq[i]
            elif isinstance(seq, (tuple, Seq)):
                lo, n = self.clamp_slice(i.start, i.stop, self.seq_len(seq))
                sq = seq
                r = Seq(n, lambda k: self.seq_at(sq, add(lo, k)), tag=('slice', sq, lo))
                if isinstance(lo, int) and lo == 0 and n is self.seq_len(seq):
                    r = seq
            elif isinstance(o, SObj) and isinstance(o.cls, type) and hasattr(o.cls, '__getitem__'):
                return self.call(self.getattr(o, '__getitem__'), [i], {})
            else:
                self.uns('slice of %r' % (o,))
            return self.new_list(r) if isinstance(o, SList) else r
        if hasattr(o, 'py_getitem'):
            return o.py_getitem(self, i)
        if is_byteslike(o):
            if isinstance(o, (bytes, bytearray)) and isinstance(i, int):
                try:
                    return o[i]
                except IndexError as e:
                    self.throw(IndexError, *e.args)
            s = as_sbytes(o)
            if not is_int(i):
                self.throw(TypeError, 'indices must be integers')
            return s.get(self.norm_index(i, s.n))
        if isinstance(o, SDict):
            for k, v in o.f['v']:
                if p.decide(self.eq(k, i), 'dict key'):
                    return v
            self.throw(KeyError, i)
        if isinstance(o, dict):
            if not self.is_native(i) or not self.is_native(tuple(o)):
                for k, v in o.items():
                    if p.decide(self.eq(k, i), 'dict key'):
                        return v
                self.throw(KeyError, i)
            if i in o:
                return o[i]
            self.throw(KeyError, i)
        if isinstance(o, Seq):
            return o.elem(self.norm_index(i, o.n))
        if isinstance(o, SList):
            return self.seq_at(o.v, self.norm_index(i, self.seq_len(o.v)))
        t = self.as_tuple(o)
        if t is not None:
            if not is_int(i):
                self.throw(TypeError, 'bad index')
            return self.seq_at(t, self.norm_index(i, len(t)))
        if isinstance(o, (str, list)) and isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                self.throw(IndexError, *e.args)
        if o is None:
            self.throw(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, SObj):
            m = self.class_attr(o.cls, '__getitem__')
            if m:
                return self.call(BoundM(m, o), [i], {})
        self.uns('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        p = self.p
        if hasattr(o, 'py_setitem'):
            return o.py_setitem(self, i, v)
        if isinstance(o, SObj) and o.items is not None and isinstance(o.items, SList):
            o = o.items
        if isinstance(o, SList):
            seq = o.v
            if isinstance(i, slice):
                if i.start is None and i.stop is None:
                    o.setf('v', self.iter_values(v))
                    return
                self.uns('slice assignment')
            j = self.norm_index(i, self.seq_len(seq))
            if isinstance(seq, tuple):
                if isinstance(j, int):
                    o.setf('v', seq[:j] + (v,) + seq[j + 1:])
                    return
                if len(seq) <= 300 and all(is_int(x) for x in seq) and is_int(v):
                    o.setf('v', tuple(Ite(eq(j, k), v, x) for k, x in enumerate(seq)))
                    return
                for k in range(len(seq)):
                    if k == len(seq) - 1 or p.decide(eq(j, k), 'store index'):
                        o.setf('v', seq[:k] + (v,) + seq[k + 1:])
                        return

            def elem(k, seq=seq, j=j, v=v):
                old = self.seq_at(seq, k)
                if is_int(old) and is_int(v):
                    return Ite(eq(k, j), v, old)
                return v if p.decide(eq(k, j), 'elem') else old
            o.setf('v', Seq(seq.n, elem, 'ints' if seq.kind == 'ints' and is_int(v) else 'list'))
            return
        if isinstance(o, SDict):
            out = []
            done = False
            for k, x in o.f['v']:
                if not done and p.decide(self.eq(k, i), 'dict key'):
                    out.append((k, v))
                    done = True
                else:
                    out.append((k, x))
            if not done:
                out.append((i, v))
            o.setf('v', tuple(out))
            return
        if isinstance(o, SObj):
            m = self.class_attr(o.cls, '__setitem__')
            if m:
                return self.call(BoundM(m, o), [i, v], {})
        self.uns('item assignment on %r' % (o,))

    def delitem(self, o, i):
        if hasattr(o, 'py_delitem'):
            return o.py_delitem(self, i)
        if isinstance(o, SList):
            seq = o.v
            if isinstance(i, slice):
                self.uns('del slice')
            j = self.norm_index(i, self.seq_len(seq))
            if isinstance(seq, tuple):
                for k in range(len(seq)):
                    if k == len(seq) - 1 or self.p.decide(eq(j, k), 'del index'):
                        o.setf('v', seq[:k] + seq[k + 1:])
                        return
            n = seq.n
            o.setf('v', Seq(sub(n, 1), lambda k: seq.elem(k) if self.p.decide(lt(k, j), 'del elem') else seq.elem(add(k, 1))))
            return
        if isinstance(o, SDict):
            for idx, (k, v) in enumerate(o.f['v']):
                if self.p.decide(self.eq(k, i), 'dict key'):
                    o.setf('v', o.f['v'][:idx] + o.f['v'][idx + 1:])
                    return
            self.throw(KeyError, i)
        self.uns('del item of %r' % (o,))

    def iter_values(self, v):
        """the values an iteration over v yields: tuple, Seq or ('range', lo, hi)"""
        if hasattr(v, 'py_iter'):
            return v.py_iter(self)
        if isinstance(v, (tuple, Seq)):
            return v
        if isinstance(v, SList):
            return v.v
        if isinstance(v, SSet):
            return v.f['v']
        if isinstance(v, SDict):
            return tuple(k for k, _ in v.f['v'])
        if isinstance(v, SObj) and v.items is not None:
            return self.as_tuple(v)
        if isinstance(v, GenIter):
            it = v.items
            if isinstance(it, FilterSeq):
                it = it.as_seq(self)
            if v.pos:
                if isinstance(it, tuple):
                    it = it[v.pos:]
                else:
                    pos, s = v.pos, it
                    it = Seq(sub(s.n, pos), lambda k: s.elem(add(k, pos)))
            v.advance(0)
            v.items, v.pos = (), 0
            return it
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, (bytes, bytearray)):
            return tuple(v)
        if is_byteslike(v):
            s = as_sbytes(v)
            if isinstance(s.n, int) and s.n <= 64:
                return tuple(s.get(k) for k in range(s.n))
            return Seq(s.n, s.get)
        if isinstance(v, (list, set, frozenset, str, dict)):
            return tuple(v)
        if isinstance(v, (types.GeneratorType, zip, enumerate, map, filter)):
            return tuple(v)
        if isinstance(v, SObj):
            m = self.class_attr(v.cls, '__iter__')
            if m:
                return self.iter_values(self.call(BoundM(m, v), [], {}))
        if v is None or is_intlike(v):
            self.throw(TypeError, 'not iterable')
        self.uns('iteration over %r' % (v,))

    # ------------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                if k in (object, tuple, list, dict, BaseException, Exception):
                    return None
                return v
        return None

    def getattr(self, o, name, default=UNDEF):
        try:
            return self.getattr_(o, name)
        except PyRaise as e:
            if default is not UNDEF and issubclass(e.exc.cls, AttributeError):
                return default
            raise

    def getattr_(self, o, name):
        if isinstance(o, SObj):
            # data descriptors first
            cv = UNDEF
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    cv = k.__dict__[name]
                    ck = k
                    break
            if isinstance(cv, property):
                if cv.fget is None:
                    self.throw(AttributeError, name)
                return self.call(BoundM(cv.fget, o), [], {})
            if name in o.f and o.f[name] is not UNDEF:
                return o.f[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                self.uns('__dict__')
            if cv is not UNDEF and not isinstance(cv, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                return self.bind(cv, o, o.cls)
            if o.items is not None and isinstance(o.items, SList) and name in ('append', 'extend', 'pop', 'insert', 'index'):
                return NativeM(o.items, name)
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not None:
                return self.call(BoundM(ga, o), [name], {})
            self.throw(AttributeError, name)
        if isinstance(o, Model):
            if hasattr(o, 'a_' + name):
                return getattr(o, 'a_' + name)(self)
            if name in o.f:
                return o.f[name]
            if hasattr(o, 'm_' + name):
                return ModelM(o, name)
            if getattr(o, 'no_attr', False):
                self.throw(AttributeError, name)
            self.uns('attribute %s of %r' % (name, o))
        if isinstance(o, SuperProxy):
            mro = o.objcls.__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if k is object and name == '__init__':
                        return _noop
                    if k in (tuple, list, object) and name in ('__new__', '__init__'):
                        return getattr(k, name)
                    return self.bind(v, o.obj, o.objcls)
            self.throw(AttributeError, name)
        if isinstance(o, SExc):
            if name == 'args':
                return o.args
            if name in o.attrs:
                return o.attrs[name]
            if name in ('errno', 'strerror', 'filename') and issubclass(o.cls, OSError):
                if name == 'errno':
                    return o.args[0] if len(o.args) > 1 else None
                return None
            if name == '__class__':
                return o.cls
            for k in o.cls.__mro__:
                if name in k.__dict__ and isinstance(k.__dict__[name], types.FunctionType):
                    return BoundM(k.__dict__[name], o)
            self.throw(AttributeError, name)
        if isinstance(o, GhostVal):
            g = getattr(o, 'py_getattr', None)
            if g:
                return g(self, name)
            self.uns('attribute %s of %r' % (name, o))
        if isinstance(o, (SBytes, SList, SDict, SSet, Seq)) or hasattr(o, 'as_sbytes'):
            if hasattr(o, 'm_' + name):
                return ModelM(o, name)
            if isinstance(o, SBytes) and name in ('__class__',):
                return bytes
            if not self.has_native(o, name):
                self.throw(AttributeError, name)
            return NativeM(o, name)
        if is_intlike(o) and not isinstance(o, (int, bool)):
            return NativeM(o, name)
        if isinstance(o, (bytes, str, bytearray, int, tuple, list, dict, set, frozenset, float)):
            if not hasattr(o, name):
                self.throw(AttributeError, name)
            return NativeM(o, name)
        if isinstance(o, (GenIter, Closure, BoundM)):
            if name == '__name__':
                return getattr(o, '__name__', 'f')
            self.uns('attribute %s of %r' % (name, o))
        if o is None:
            self.throw(AttributeError, "'NoneType' object has no attribute %r" % name)
        if isinstance(o, type):
            for k in o.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, classmethod):
                        return BoundM(v.__func__, o)
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, (types.FunctionType,)):
                        return v
                    break
            over = self.run.cls_attrs.get((o, name), UNDEF)
            if over is not UNDEF:
                return over
            try:
                return self.wrap_const(getattr(o, name))
            except AttributeError as e:
                self.throw(AttributeError, name)
        try:
            return self.wrap_const(getattr(o, name))
        except AttributeError:
            self.throw(AttributeError, name)

    def wrap_const(self, v):
        return v

    NATIVE = {
        'SBytes': {'find', 'index', 'split', 'startswith', 'endswith', 'join', 'tobytes', 'decode', 'hex', 'strip', 'count',
                   'tolist', 'rstrip', 'lstrip', 'release', 'rfind', 'partition', 'lower', 'upper'},
        'SList': {'append', 'extend', 'pop', 'insert', 'sort', 'index', 'remove', 'reverse', 'clear', 'copy', 'count'},
        'SDict': {'get', 'items', 'keys', 'values', 'pop', 'clear', 'setdefault', 'update', 'copy', 'popitem'},
        'SSet': {'add', 'remove', 'discard', 'update', 'difference', 'union', 'intersection', 'clear', 'copy', 'pop'},
        'Seq': {'index', 'count'},
    }

    def has_native(self, o, name):
        return name in self.NATIVE.get(type(o).__name__, ())

    def bind(self, v, obj, cls):
        if isinstance(v, types.FunctionType) or isinstance(v, Closure):
            return BoundM(v, obj)
        if isinstance(v, classmethod):
            return BoundM(v.__func__, cls)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, property):
            return self.call(BoundM(v.fget, obj), [], {})
        if isinstance(v, types.BuiltinFunctionType):
            return v
        return v

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    cv = k.__dict__[name]
                    if isinstance(cv, property):
                        if cv.fset is None:
                            self.throw(AttributeError, name)
                        return self.call(BoundM(cv.fset, o), [v], {})
                    break
            hook = getattr(o, 'set_hook', None)
            if hook:
                hook(name, v)
            o.setf(name, v)
            return
        if isinstance(o, Model):
            o.setf(name, v)
            return
        if isinstance(o, SExc):
            o.attrs[name] = v
            return
        self.uns('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.p.steps += 1
        if self.p.steps > self.run.max_steps:
            self.uns('too many steps')
        if isinstance(f, BoundM):
            # classmethod / method of real function
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, ModelM):
            return getattr(f.obj, 'm_' + f.name)(self, *args, **kw)
        if f is _noop:
            return None
        if isinstance(f, NativeM):
            return self.call_native_method(f.obj, f.name, args, kw)
        if isinstance(f, (Closure, types.FunctionType)):
            return self.call_func(f, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, Model) and hasattr(f, 'm___call__'):
            return f.m___call__(self, *args, **kw)
        if isinstance(f, types.MethodType):
            m = self.models.get(f.__func__)
            if m is not None:
                return m(self, f.__self__, *args, **kw)
            return self.call_func(f.__func__, [f.__self__] + list(args), kw)
        m = self.lookup_model(f)
        if m is not None:
            return m(self, *args, **kw)
        if isinstance(f, GhostVal) and hasattr(f, 'py_call'):
            return f.py_call(self, args, kw)
        if isinstance(f, SObj):
            m = self.class_attr(f.cls, '__call__')
            if m:
                return self.call(BoundM(m, f), args, kw)
        if f is None or isinstance(f, (int, str, bytes)):
            self.throw(TypeError, 'not callable')
        if callable(f) and self.run.is_pure(f) and self.is_native(tuple(args)) and self.is_native(kw):
            try:
                return f(*args, **kw)
            except Exception as e:
                self.throw(type(e), *e.args)
        self.uns('call of %r with %r' % (f, args))

    def lookup_model(self, f):
        try:
            return self.models.get(f)
        except TypeError:
            return None

    def call_func(self, f, args, kw):
        if isinstance(f, types.FunctionType):
            m = self.models.get(f)
            if m is not None:
                return m(self, *args, **kw)
            c = self.run.contract_for(self, f, args, kw)
            if c is not None:
                return c.call(self, args, kw)
            if not self.run.may_inline(f):
                if self.is_native(tuple(args)) and self.is_native(kw) and self.run.is_pure(f):
                    try:
                        return f(*args, **kw)
                    except Exception as e:
                        self.throw(type(e), *e.args)
                self.uns('call of %s.%s' % (f.__module__, f.__qualname__))
            return self.run_function(f, args, kw)
        return self.run_function(f, args, kw)

    def run_function(self, f, args, kw):
        """interpret the body of a function"""
        self.run.note_function(f)
        caller = self.frames[-1] if self.frames else None
        if len(self.frames) > 40:
            self.uns('call depth')
        if isinstance(f, Closure):
            node = f.node
            fr = Frame(f, f.frame.globals, parent=f.frame, caller=caller)
            fr.clscell = f.frame.clscell
            defaults, kwdefaults = f.defaults, f.kwdefaults
        else:
            node = func_ast(f)
            fr = Frame(f, f.__globals__, caller=caller)
            defaults = list(f.__defaults__ or ())
            kwdefaults = dict(f.__kwdefaults__ or {})
            if f.__closure__:
                for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                    if nm == '__class__':
                        fr.clscell = cell.cell_contents
                    else:
                        fr.vars[nm] = cell.cell_contents
        fr.node = node
        self.bind_args(fr, node.args, args, kw, defaults, kwdefaults, getattr(node, 'name', '<lambda>'))
        fr.args0 = list(args)
        if isinstance(node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(node.body, fr)
            finally:
                self.frames.pop()
        if is_gen_node(node):
            fr.isgen = True
            fr.yields = []
            h = self.run.yield_handler
            if h is None or not (caller is None or self.run.yield_all):
                return self.run_generator(fr, node)
            # the consumer is the contract: it sees every value as it is yielded
            fr.watched = True
            self.frames.append(fr)
            try:
                self.exec_block(node.body, fr)
            except ReturnEx:
                pass
            finally:
                self.frames.pop()
            return CONSUMED
        self.frames.append(fr)
        try:
            self.exec_block(node.body, fr)
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()
        return None

    def run_generator(self, fr, node):
        """eager evaluation of an inlined generator: allowed only if it loops over concrete
        sequences or consists of one comprehension-like loop"""
        self.frames.append(fr)
        try:
            try:
                self.exec_block(node.body, fr)
            except ReturnEx:
                pass
        finally:
            self.frames.pop()
        return GenIter(fr.yields.seq if isinstance(fr.yields, SeqYields) else tuple(fr.yields))

    def bind_args(self, fr, a, args, kw, defaults, kwdefaults, name):
        args = list(args)
        kw = dict(kw)
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for i, nm in enumerate(pos):
            if i < len(args):
                if nm in kw:
                    self.throw(TypeError, 'multiple values for %s' % nm)
                vals[nm] = args[i]
            elif nm in kw:
                vals[nm] = kw.pop(nm)
            else:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    self.throw(TypeError, '%s() missing argument %s' % (name, nm))
                vals[nm] = defaults[j]
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            self.throw(TypeError, '%s() takes %d arguments' % (name, len(pos)))
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
            else:
                self.throw(TypeError, 'missing %s' % x.arg)
        if a.kwarg:
            vals[a.kwarg.arg] = SDict(tuple(kw.items()))
        elif kw:
            self.throw(TypeError, '%s() got an unexpected keyword argument %s' % (name, list(kw)[0]))
        fr.vars.update(vals)

    def instantiate(self, cls, args, kw):
        m = self.models.get(cls)
        if m is not None:
            return m(self, *args, **kw)
        if issubclass(cls, BaseException):
            return SExc(cls, args)
        if not self.run.cls_ok(cls):
            if self.run.is_pure(cls) and self.is_native(tuple(args)) and self.is_native(kw):
                try:
                    return cls(*args, **kw)
                except Exception as e:
                    self.throw(type(e), *e.args)
            self.uns('instantiation of %r' % cls)
        new = None
        for k in cls.__mro__:
            if '__new__' in k.__dict__:
                new = k.__dict__['__new__']
                break
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call_func(new, [cls] + list(args), kw)
        elif issubclass(cls, tuple):
            o = SObj(cls, items=self.conc_tuple(args[0]) if args else ())
        elif issubclass(cls, list):
            o = SObj(cls, items=SList(self.iter_values(args[0]) if args else ()))
        else:
            o = SObj(cls)
        if isinstance(o, SObj) and issubclass(o.cls, cls):
            init = self.class_attr(cls, '__init__')
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
        return o

    def conc_tuple(self, v):
        t = self.iter_values(v)
        if not isinstance(t, tuple):
            self.uns('tuple of symbolic length as object')
        return t

    def call_native_method(self, o, name, args, kw):
        from . import builtin_models as bm
        return bm.native_method(self, o, name, args, kw)

    def str_format(self, fmt, args):
        from . import builtin_models as bm
        return bm.str_format(self, fmt, args)

    # ------------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, LazyVar):
                    v = self.resolve_lazy(f, name)
                if v is UNDEF:
                    self.throw(UnboundLocalError, name)
                return v
            f = f.parent
        if isinstance(fr.node, ast.FunctionDef) and name in self.local_names(fr.node):
            self.throw(UnboundLocalError, name)
        ov = self.run.global_overrides.get((fr.globals.get('__name__'), name), UNDEF)
        if ov is not UNDEF:
            return ov
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def resolve_lazy(self, f, name):
        v = f.vars[name]
        if isinstance(v, LazyVar):
            v = f.vars[name] = self.fresh_kind(v.kinds[self.p.choose(len(v.kinds), 'kind of %s' % name)], v.name, v.old)
        return v

    def local_names(self, node):
        r = getattr(node, '_pyvc_locals', None)
        if r is None:
            r = assigned_names(node.body)
            for n in walk_own(node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    r -= set(n.names)
            # names bound in comprehensions are not locals of the function
            comp = set()
            for n in walk_own(node):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in n.generators:
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name):
                                comp.add(x.id)
            other = set()
            for n in walk_own(node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr, ast.ExceptHandler, ast.Import, ast.ImportFrom)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            other.add(x.id)
            node._pyvc_locals = r = {x for x in r if x not in comp or x in other}
        return r

    def store(self, fr, name, v):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iter_values(v)
            if isinstance(vals, Seq):
                if not isinstance(conc(vals.n), int):
                    if not self.p.decide(eq(vals.n, len(t.elts)), 'unpack'):
                        self.throw(ValueError, 'unpack')
                vals = tuple(vals.elem(k) for k in range(len(t.elts)))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.new_list(tuple(vals[i:len(vals) - after])), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                self.throw(ValueError, 'unpack: expected %d values, got %d' % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        else:
            self.uns('assignment target %s' % type(t).__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.uns('expression %s' % type(e).__name__)
        return m(e, fr)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else sub(0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return ~v if isinstance(v, int) else sub(-1, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            # keep pure conditions symbolic if the rest cannot fail
            if self.p.decide(t, 'bool') != isand:
                return v if not is_sbool(v) else (not isand)
        return v

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, fr)
            c = self.compare(op, a, b)
            if len(e.ops) == 1:
                return c
            if i < len(e.ops) - 1:
                if not self.p.decide(self.truth(c), 'cmp'):
                    return False
            else:
                return c
            a = b
        return res

    def e_IfExp(self, e, fr):
        if self.test(self.ev(e.test, fr), 'ifexp'):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.ev_star(e.elts, fr))

    def ev_star(self, elts, fr, calls=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iter_values(self.ev(x.value, fr))
                if not isinstance(v, tuple):
                    if not calls:
                        self.uns('* of symbolic length')
                    out.append(Star(v))
                    continue
                out.extend(v)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new_list(tuple(self.ev_star(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.make_set(tuple(self.ev_star(e.elts, fr)))

    def make_set(self, vals):
        if not isinstance(vals, tuple) or self.run.tuple_sets:
            h = self.run.set_hook
            if h:
                r = h(self, vals)
                if r is not None:
                    return r
            if not isinstance(vals, tuple):
                self.uns('set of symbolic length')
        out = []
        for v in vals:
            if not out or not self.p.decide(Or(*[self.eq(v, y) for y in out]), 'set dup'):
                out.append(v)
        return SSet(tuple(out))

    def e_Dict(self, e, fr):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.uns('** in dict')
            self.setitem(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return Closure(e, fr, [self.ev(d, fr) for d in e.args.defaults],
                       {a.arg: self.ev(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_JoinedStr(self, e, fr):
        from . import builtin_models as bm
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec else ''
                parts.append(bm.fmt_value(self, x, v.conversion, spec))
        return bm.join_str(self, parts)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            o = fr.args0[0] if fr.args0 else None
            f = fr
            while f.clscell is None and f.parent is not None:
                f = f.parent
            oc = o if isinstance(o, type) else o.cls
            return SuperProxy(f.clscell, o, oc)
        f = self.ev(e.func, fr)
        if f is builtins.super and e.args:
            a = [self.ev(x, fr) for x in e.args]
            return SuperProxy(a[0], a[1], a[1] if isinstance(a[1], type) else a[1].cls)
        args = self.ev_star(e.args, fr, True)
        if any(isinstance(a, Star) for a in args) and f not in self.run.star_ok:
            self.uns('* of symbolic length')
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, SDict):
                    for kk, vv in v.f['v']:
                        kw[kk] = vv
                else:
                    self.uns('**')
            else:
                kw[k.arg] = v
        if f is builtins.globals:
            return fr.globals
        if f is builtins.locals:
            self.uns('locals()')
        return self.call(f, args, kw)

    def e_Starred(self, e, fr):
        self.uns('starred')

    # comprehensions: element-wise over concrete sequences; over symbolic ones the element
    # expression becomes the element function of the result (evaluated on demand)
    def comp(self, e, fr, elt):
        gens = e.generators
        f2 = Frame(fr.func, fr.globals, parent=fr, caller=fr.caller)
        f2.node = None
        f2.clscell = fr.clscell
        f2.args0 = fr.args0

        def rec(k):
            if k == len(gens):
                return (elt(f2),)
            g = gens[k]
            vals = self.iter_values(self.ev(g.iter, f2))
            if isinstance(vals, Seq) and isinstance(conc(vals.n), int) and conc(vals.n) <= 300:
                vals = tuple(vals.elem(i) for i in range(conc(vals.n)))
            if isinstance(vals, tuple):
                out = ()
                for v in vals:
                    self.assign(g.target, v, f2)
                    if all(self.test(self.ev(c, f2), 'comp if') for c in g.ifs):
                        r = rec(k + 1)
                        if isinstance(r, Seq) or isinstance(out, Seq):
                            out = self.seq_concat(out, r)
                        else:
                            out = out + r
                return out
            if k != len(gens) - 1 or g.ifs:
                h = self.run.comp_hook
                if h:
                    r = h(self, e, fr, f2, vals, k)
                    if r is not None:
                        return r
                if k == len(gens) - 1 and k == 0:
                    def at(i, what):
                        f3 = Frame(fr.func, fr.globals, parent=f2, caller=fr.caller)
                        f3.clscell, f3.args0 = fr.clscell, fr.args0
                        f3.vars = dict(f2.vars)
                        self.assign(g.target, vals.elem(i), f3)
                        return what(f3)
                    r = FilterSeq(vals, lambda i: at(i, lambda f3: And(*[self.truth(self.ev(c, f3)) for c in g.ifs])), lambda i: at(i, elt))
                    r.check(self)
                    return r if isinstance(e, ast.GeneratorExp) else r.as_seq(self)
                self.uns('comprehension with condition over a symbolic sequence')
            snap = dict(fr.vars)

            def elem(i):
                f3 = Frame(fr.func, fr.globals, parent=f2, caller=fr.caller)
                f3.clscell, f3.args0 = fr.clscell, fr.args0
                f3.vars = dict(f2.vars)
                self.assign(g.target, vals.elem(i), f3)
                return elt(f3)
            # one arbitrary element shows what evaluating an element may raise or change
            i = self.p.fresh_int('ci')
            if self.p.decide(gt(vals.n, 0), 'comp nonempty'):
                self.p.fact(z3.And(i >= 0, i < zint(vals.n)))
                if not getattr(self.p, 'comp_depth', 0):
                    self.p.comp_clock = self.p.clock
                self.p.comp_depth = getattr(self.p, 'comp_depth', 0) + 1
                try:
                    elem(i)
                finally:
                    self.p.comp_depth -= 1
            return Seq(vals.n, elem)
        return rec(0)

    def e_ListComp(self, e, fr):
        return self.new_list(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_GeneratorExp(self, e, fr):
        return GenIter(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_SetComp(self, e, fr):
        return self.make_set(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_DictComp(self, e, fr):
        d = SDict()
        v = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if not isinstance(v, tuple):
            self.uns('dict comprehension of symbolic length')
        for k, x in v:
            self.setitem(d, k, x)
        return d

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        self.do_yield(fr, v)
        return None

    def do_yield(self, fr, v):
        h = self.run.yield_handler
        if h is not None and getattr(fr, 'watched', False):
            h(self, v)
            return
        if getattr(fr, 'yields', None) is None:
            self.uns('yield')
        if self.p.loopstack and self.p.loopstack[-1].key[0] == id(fr):
            self.uns('generator with an unbounded loop, inlined')
        fr.yields.append(v)

    def e_YieldFrom(self, e, fr):
        vals = self.ev(e.value, fr)
        if vals is CONSUMED:
            return None
        if isinstance(vals, GhostVal) and hasattr(vals, 'py_yield_from'):
            vals.py_yield_from(self, fr)
            return None
        vals = self.iter_values(vals)
        if isinstance(vals, Seq) and fr.yields == [] and not getattr(fr, 'watched', False) and not self.p.loopstack:
            # all this generator gives, as long as nothing follows
            fr.yields = SeqYields(vals)
            return None
        if not isinstance(vals, tuple):
            if getattr(fr, 'watched', False) and hasattr(self.run.c, 'on_yield_seq') and isinstance(vals, Seq):
                self.run.c.on_yield_seq(self.run.ctx, vals)
                return None
            self.uns('yield from symbolic')
        for v in vals:
            self.do_yield(fr, v)
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.p.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.uns('statement %s' % type(s).__name__)
        self.run.cur_line = (fr, s.lineno)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.aug(s.op, cur, self.ev(s.value, fr))
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.aug(s.op, cur, self.ev(s.value, fr)))

    def aug(self, op, cur, v):
        if isinstance(cur, SList) and isinstance(op, ast.Add):
            cur.setf('v', self.seq_concat(cur.v, self.iter_values(v)))
            return cur
        if hasattr(cur, 'py_iop'):
            r = cur.py_iop(self, type(op), v)
            if r is not NotImplemented:
                return r
        return self.binop(op, cur, v)

    def s_If(self, s, fr):
        if self.test(self.ev(s.test, fr), 'if@%d' % s.lineno):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.test(self.ev(s.test, fr), 'assert@%d' % s.lineno):
            raise PyRaise(SExc(AssertionError, (self.ev(s.msg, fr),) if s.msg else ()))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(fr, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, SObj):
                    if t.attr not in o.f or o.f[t.attr] is UNDEF:
                        self.throw(AttributeError, t.attr)
                    o.setf(t.attr, UNDEF)
                else:
                    self.uns('del attribute')
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, (ast.Tuple,)):
                for x in t.elts:
                    self.s_Delete(ast.Delete(targets=[x]), fr)

    def s_FunctionDef(self, s, fr):
        self.store(fr, s.name, Closure(s, fr, [self.ev(d, fr) for d in s.args.defaults],
                                       {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}))

    def s_Global(self, s, fr):
        self.uns('global statement')

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            self.store(fr, a.asname or a.name.split('.')[0], sys.modules[a.name] if a.asname else m)

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.store(fr, a.asname or a.name, getattr(m, a.name))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr
            e = getattr(self, 'handling', None)
            if not e:
                self.throw(RuntimeError, 'No active exception')
            raise PyRaise(e[-1])
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, [], {})
        if isinstance(v, BaseException):
            v = SExc(type(v), v.args)
        if not isinstance(v, SExc):
            self.throw(TypeError, 'exceptions must derive from BaseException')
        if s.cause is not None:
            v.cause = self.ev(s.cause, fr)
        raise PyRaise(v)

    def exc_match(self, exc, h):
        if isinstance(h, tuple):
            return any(self.exc_match(exc, x) for x in h)
        if not isinstance(h, type):
            self.uns('except %r' % (h,))
        return issubclass(exc.cls, h)

    def s_Try(self, s, fr):
        if not hasattr(self, 'handling'):
            self.handling = []

        def run_inner():
            try:
                self.exec_block(s.body, fr)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None or self.exc_match(pr.exc, self.ev(h.type, fr)):
                        if h.name:
                            self.store(fr, h.name, pr.exc)
                        self.handling.append(pr.exc)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                            if h.name:
                                fr.vars[h.name] = UNDEF
                        return
                raise
            else:
                self.exec_block(s.orelse, fr)
        if not s.finalbody:
            return run_inner()
        try:
            run_inner()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as ex:
            if isinstance(ex, PyRaise):
                self.handling.append(ex.exc)
            try:
                self.exec_block(s.finalbody, fr)
            finally:
                if isinstance(ex, PyRaise):
                    self.handling.pop()
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        enter = self.getattr(cm, '__enter__')
        exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyRaise as pr:
            if self.test(self.call(exit_, [pr.exc.cls, pr.exc, None], {}), 'with exit'):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(exit_, [None, None, None], {})
            raise
        self.call(exit_, [None, None, None], {})

    # ------------------------------------------------------------------ loops
    def s_While(self, s, fr):
        def cond():
            return self.test(self.ev(s.test, fr), 'while@%d' % s.lineno)
        c = s.test
        self.loop(s, fr, cond, lambda: None, {}, s.body, s.orelse)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        flt = None
        if isinstance(it, GenIter) and isinstance(it.items, FilterSeq) and not it.pos:
            # for x in (.. for y in vals if cond): one iteration per y, skipped unless cond
            flt, vals = it.items, it.items.vals
            it.advance(0)
            it.items = ()
        else:
            vals = self.iter_values(it)
        n = self.seq_len(vals)
        n = conc(n)
        if isinstance(n, int) and n <= self.run.max_unroll and (isinstance(vals, tuple) or n <= 64) and flt is None:
            for i in range(n):
                self.assign(s.target, self.seq_at(vals, i), fr)
                try:
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.exec_block(s.orelse, fr)
            return
        # symbolic: hidden index variable
        idx = '$it%d_%d' % (s.lineno, s.col_offset)
        fr.vars[idx] = 0
        live = None
        if isinstance(it, SList):
            live = it

        def seqn():
            # a list that is iterated is re-read on every iteration, as python does
            return live.v if live is not None else vals

        def cond():
            return self.p.decide(lt(fr.vars[idx], self.seq_len(seqn())), 'for@%d' % s.lineno)

        def step():
            i = fr.vars[idx]
            if flt is not None:
                fr.vars[idx] = add(i, 1)
                if not self.test(flt.cond(i), 'filter'):
                    raise ContinueEx()
                self.assign(s.target, flt.elt(i), fr)
                return
            self.assign(s.target, self.seq_at(seqn(), i), fr)
            fr.vars[idx] = add(i, 1)
        self.loop(s, fr, cond, step, {idx: (0, n)}, s.body, s.orelse, {idx}, live)

    def loop(self, s, fr, cond, step, hidden, body, orelse, extra=(), live=None):
        """cut the loop at its head with the invariants of the run"""
        p, run = self.p, self.run
        # fully concrete loops are unrolled
        key = (self.frame_path(fr), s.lineno, s.col_offset, type(s).__name__)
        if key not in run.cut_loops:
            done = self.try_unroll(s, fr, cond, step, body, orelse, key, hidden)
            if done:
                return
        names = assigned_names(body) | set(extra)
        if isinstance(s, ast.For):
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        rec = LoopRec(key)
        rec.clock = p.clock
        ls = run.loop_state(key)
        ls.dead = dead_names(fr.node, s) if isinstance(fr.node, ast.FunctionDef) else ()
        # 1. invariants hold on entry
        run.inv_check(self, ls, fr, hidden, 'entry')
        # 2. arbitrary iteration
        for nm in sorted(names):
            if nm in fr.nonlocals:
                continue
            k = ls.kinds.setdefault(('v', nm), [])
            v0 = fr.vars.get(nm, UNDEF)
            for k0 in v0.kinds if isinstance(v0, LazyVar) else [self.kind_of(v0, p.clock)]:
                self.add_kind(ls, k, k0)
        base = {}
        for cell, kinds in list(ls.kinds.items()):
            if cell[0] == 'v':
                depth = cell[2] if len(cell) > 2 else None
                tgt = fr if depth is None else self.frames[depth]
                old = tgt.vars.get(cell[1], UNDEF)
                nv = self.havoc(kinds, cell[1], old, lazy=True)
                tgt.vars[cell[1]] = nv
                base[cell] = nv
            else:
                obj = self.find_obj(cell[1])
                if obj is None:
                    continue
                old = obj.f.get(cell[2], UNDEF)
                nv = self.havoc(kinds, '%s.%s' % (cell[1], cell[2]), old)
                p.write(obj, cell[2], nv)
                base[cell] = nv
        p.loopstack.append(rec)
        for h, (lo, hi) in hidden.items():
            v = fr.vars[h]
            p.fact(zint(v) >= lo)
            if live is None or ('h', live.label, 'v') not in ls.kinds:
                p.fact(zint(v) <= zint(hi))
        run.inv_assume(self, ls, fr, hidden)
        locals_before = {id(f): dict(f.vars) for f in self.frames}
        run.loop_reached(ls)
        m0 = run.measure_at_head(self, ls, fr, hidden)
        try:
            if not cond():
                p.loopstack.pop()
                self.exec_block(orelse, fr)
                return
            run.loop_body_reached(ls)
            try:
                step()
                self.exec_block(body, fr)
            except ContinueEx:
                pass
        except BreakEx:
            p.loopstack.remove(rec)
            return
        except (PyRaise, ReturnEx):
            if rec in p.loopstack:
                p.loopstack.remove(rec)
            raise
        # 3. back edge: state that changed must have been arbitrary, invariants hold again
        grew = False
        for f_i, f in enumerate(self.frames):
            if id(f) not in locals_before:
                continue
            lb = locals_before[id(f)]
            for nm, v in list(f.vars.items()):
                old = lb.get(nm, UNDEF)
                if v is old or isinstance(v, LazyVar):
                    continue
                if isinstance(old, LazyVar):
                    old = v
                cell = ('v', nm) if f is fr else ('v', nm, f_i)
                same = self.same_value(old, v)
                if cell in ls.kinds:
                    grew |= self.add_kind(ls, ls.kinds[cell], self.kind_of(v, rec.clock))
                elif not same:
                    ls.kinds[cell] = []
                    self.add_kind(ls, ls.kinds[cell], self.kind_of(old, rec.clock))
                    self.add_kind(ls, ls.kinds[cell], self.kind_of(v, rec.clock))
                    grew = True
        for (label, name), (obj, old) in rec.written.items():
            v = obj.f.get(name, UNDEF)
            cell = ('h', label, name)
            if obj.born is not None and obj.born >= rec.clock:
                continue
            if cell in ls.kinds:
                grew |= self.add_kind(ls, ls.kinds[cell], self.kind_of(v, rec.clock))
            elif v is not old and not self.same_value(old, v):
                ls.kinds[cell] = []
                self.add_kind(ls, ls.kinds[cell], self.kind_of(old, rec.clock))
                self.add_kind(ls, ls.kinds[cell], self.kind_of(v, rec.clock))
                grew = True
        if grew:
            if self.run.opts.get('verbose'):
                import sys
                print('  kinds', {c: k for c, k in ls.kinds.items() if len(k) > 1}, file=sys.stderr)
            raise Restart(ls)
        p.loopstack.remove(rec)
        run.inv_check(self, ls, fr, hidden, 'preserved')
        run.measure_check(self, ls, fr, hidden, m0)
        raise PathEnd('back edge')

    def try_unroll(self, s, fr, cond, step, body, orelse, key, hidden):
        """execute a loop whose condition is concrete as it is; if it turns out symbolic,
        remember that it has to be cut and start over"""
        p = self.p
        n = 0
        while True:
            before = len(p.taken)
            t0 = p.steps
            c = self.cond_concrete(s, fr, hidden)
            if c is None:
                if n > 0 or True:
                    self.run.cut_loops.add(key)
                    if n == 0:
                        return False
                    raise Restart()
            if not c:
                if hidden and isinstance(s, ast.For):
                    pass
                self.exec_block(orelse, fr)
                return True
            n += 1
            if n > self.run.max_unroll:
                self.run.cut_loops.add(key)
                raise Restart()
            try:
                step()
                self.exec_block(body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return True

    def cond_concrete(self, s, fr, hidden):
        """the loop condition as a python bool, or None"""
        if isinstance(s, ast.For):
            return None
        if isinstance(s.test, ast.Constant):
            return None
        if not self.side_effect_free(s.test):
            return None
        before = len(self.p.taken)
        facts = len(self.p.pc)
        try:
            v = self.truth(self.ev(s.test, fr))
        except PyRaise:
            return None
        v = concb(v)
        if len(self.p.taken) != before:
            # evaluating it forked: symbolic
            self.run.cut_loops.add((self.frame_path(fr), s.lineno, s.col_offset, type(s).__name__))
            raise Restart()
        if isinstance(v, bool):
            return v
        return None

    def side_effect_free(self, e):
        return all(isinstance(n, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Load, ast.cmpop,
                                  ast.operator, ast.boolop, ast.unaryop, ast.Attribute)) for n in ast.walk(e))

    def frame_path(self, fr):
        out = []
        f = fr
        while f is not None:
            nm = getattr(f.func, '__qualname__', None) or getattr(f.func, '__name__', '?')
            out.append(nm)
            f = f.caller
        return '/'.join(reversed(out))

    # ---- kinds of values, for havoc
    def kind_of(self, v, clock):
        """`clock`: objects made from then on are new in every iteration"""
        if v is UNDEF:
            return ('undef',)
        if isinstance(v, LazyVar):
            self.uns('kind of a variable not looked at')
        if self.run.kind_hook is not None:
            k = self.run.kind_hook(self, v)
            if k is not None:
                return k
        if isinstance(v, bool) or is_sbool(v):
            return ('bool',)
        if is_int(v):
            return ('int',)
        if isinstance(v, SBytes):
            return ('bytes', v.kind)
        if isinstance(v, bytes):
            return ('bytes', 'bytes')
        if self.run.int_lists and (isinstance(v, tuple) and all(is_int(x) for x in v) or isinstance(v, Seq) and v.kind == 'ints'):
            return ('intlist',)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.kind_of(x, clock) for x in v)
        if isinstance(v, Seq):
            return ('seq', self.run.seq_kind(self, v, clock))
        if isinstance(v, GhostVal):
            return ('ghost',) + tuple(v.vkind())
        if isinstance(v, HObj):
            if v.born is None or v.born < clock:
                return ('obj', v.label)
            if isinstance(v, SObj):
                items = v.items.v if isinstance(v.items, SList) else v.items
                if items is None or (isinstance(items, tuple) and not isinstance(v.items, SList)):
                    return ('newobj', v.cls, None if items is None else tuple(self.kind_of(x, clock) for x in items),
                            tuple(sorted((n, self.kind_of(x, clock)) for n, x in v.f.items())))
            if isinstance(v, SList):
                return ('newlist', self.kind_of(v.v, clock))
            return ('ghost', Junk)
        if isinstance(v, (GenIter, SExc)):
            return ('ghost', Junk)
        if isinstance(v, BoundM):
            return ('bound', v.func, self.kind_of(v.self_, clock))
        if isinstance(v, (Closure, ModelM, NativeM)):
            return ('ghost', Junk)
        return ('const', v)

    def add_kind(self, ls, kinds, k):
        for x in kinds:
            if x == k:
                return False
        kinds.append(k)
        return True

    def havoc(self, kinds, name, old, lazy=False):
        p = self.p
        ks = kinds
        if lazy and len(ks) > 1:
            return LazyVar(list(ks), name, old)
        if len(ks) == 1 and ks[0][0] == 'const':
            return old
        i = p.choose(len(ks), 'kind of %s' % name)
        return self.fresh_kind(ks[i], name, old)

    def fresh_kind(self, k, name, old):
        p = self.p
        if k[0] == 'undef':
            return UNDEF
        if k[0] == 'bool':
            return p.fresh_bool(name)
        if k[0] == 'int':
            return p.fresh_int(name)
        if k[0] == 'bytes':
            return p.fresh_bytes(name, kind=k[1])
        if k[0] == 'intlist':
            return Seq(p.fresh_nat(name + '.len'), self.fresh_intseq(name).elem, 'ints')
        if k[0] == 'tuple':
            if len(k) > 1 and all(x == ('int',) for x in k[1:]) and len(k) > 20:
                return Seq(len(k) - 1, self.fresh_intseq(name).elem)
            return tuple(self.fresh_kind(x, '%s[%d]' % (name, i), UNDEF) for i, x in enumerate(k[1:]))
        if k[0] == 'const':
            return k[1]
        if k[0] == 'obj':
            o = self.find_obj(k[1])
            if o is None:
                # an object of other paths
                raise PathEnd('object of another path')
            return o
        if k[0] == 'ghost':
            return k[1].vfresh(p, name, k[1:])
        if k[0] == 'newobj':
            o = SObj(k[1], items=None if k[2] is None else tuple(self.fresh_kind(x, '%s.%d' % (name, i), UNDEF) for i, x in enumerate(k[2])))
            for n, x in k[3]:
                o.f[n] = self.fresh_kind(x, '%s.%s' % (name, n), UNDEF)
            return o
        if k[0] == 'newlist':
            return SList(self.fresh_kind(k[1], name, UNDEF))
        if k[0] == 'bound':
            return BoundM(k[1], self.fresh_kind(k[2], name, UNDEF))
        if k[0] == 'seq' and k[1] is not None:
            return self.run.fresh_seq(self, k[1], name)
        h = self.run.havoc_hook
        if h:
            r = h(self, k, name, old)
            if r is not None:
                return r
        self.uns('arbitrary value of kind %s for %s' % (k[0], name))

    def fresh_intseq(self, name):
        nm = self.p.name(name)
        f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        return Seq(None, lambda i: f(zint(i)))

    def find_obj(self, label):
        return self.p.objs.get(label)

    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.eq(z3.simplify(a), z3.simplify(b))
        if isinstance(a, (bool, int, str, bytes, type(None))) and type(a) is type(b):
            return a == b
        if isinstance(a, SBytes) and isinstance(b, SBytes):
            if a.tag is not None and b.tag is not None:
                return a.tag == b.tag
            if a.base is not None and a.base is b.base:
                return concb(eq(a.off, b.off)) is True and concb(eq(a.n, b.n)) is True
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same_value(x, y) for x, y in zip(a, b))
        return False


def _noop(*a, **k):
    return None
