"""Values, paths and proof obligations.

A *path* is one symbolic execution of a function from its entry to a return, an
exception, or a cut (loop back edge, infeasible assumption).  Paths are enumerated by
re-execution: `Path.decide` follows a recorded prefix of decisions and extends it,
scheduling the alternatives that are feasible too.
"""
import time
import z3

z3.set_param('smt.mbqi', False)

POW2_LIMIT = 4096


class PathEnd(Exception):
    """the path is cut: everything after this point is covered elsewhere"""


class Unsupported(Exception):
    """a construct the verifier has no rule for: nothing about this path is proved"""


class Restart(Exception):
    """the set of state a loop changes grew: start over"""


class PyRaise(Exception):
    """the interpreted program raised `exc` (an SExc)"""

    def __init__(self, exc):
        self.exc = exc


class SExc:
    """an exception object of the interpreted program"""

    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, tuple(args), cause
        self.attrs = {}

    def __repr__(self):
        return '<%s%r>' % (self.cls.__name__, self.args)


class Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()

IntRef = z3.ArithRef
BoolRef = z3.BoolRef


def is_sint(v):
    return isinstance(v, z3.ArithRef)


def is_sbool(v):
    return isinstance(v, z3.BoolRef)


def is_int(v):
    return isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)


def is_intlike(v):
    return isinstance(v, (int, z3.ArithRef, z3.BoolRef))


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def conc(v):
    """simplify to a python int if it is a numeral"""
    if isinstance(v, z3.ArithRef):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
        return s if s.num_args() == 0 else v
    return v


def concb(v):
    if isinstance(v, z3.BoolRef):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return v


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*[zbool(x) for x in xs]) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*[zbool(x) for x in xs]) if len(xs) > 1 else xs[0]


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_sbool(a) or isinstance(a, bool):
        return z3.If(c, zbool(a), zbool(b))
    return z3.If(c, zint(a), zint(b))


def eq(a, b):
    """equality of integers (python or symbolic)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return concb(zint(a) == zint(b))


def ne(a, b):
    return Not(eq(a, b))


def _cmp(name):
    import operator
    op = getattr(operator, name)

    def f(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return op(a, b)
        return concb(op(zint(a), zint(b)))
    return f


lt, le, gt, ge = _cmp('lt'), _cmp('le'), _cmp('gt'), _cmp('ge')


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return conc(zint(a) + zint(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return conc(zint(a) - zint(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return conc(zint(a) * zint(b))


def between(lo, x, hi):
    """lo <= x < hi"""
    return And(le(lo, x), lt(x, hi))


# --------------------------------------------------------------------- byte strings

class ByteArr:
    """an arbitrary, immutable array of bytes, indexed from 0; reading adds the byte range
    (and whatever the contract attached with `hook`) as ground facts"""
    n_made = 0

    def __init__(self, name, hook=None, fn=None):
        self.name = name
        self.fn = fn if fn is not None else z3.Function(name, z3.IntSort(), z3.IntSort())
        self.hooks = [hook] if hook else []
        self._seen = None

    def get(self, i):
        p = Path.cur
        t = self.fn(zint(i))
        key = ('ba', self.name, t.get_id())
        if key not in p.memo:
            p.memo[key] = t
            p.fact(z3.And(t >= 0, t <= 255))
            for h in self.hooks:
                h(zint(i), t)
        return t


class SBytes:
    """immutable byte string value: length and element function; `base`/`off` if it is a
    slice of a ByteArr (its identity as a region), `kind` the python type it stands for"""
    __slots__ = ('n', 'get', 'base', 'off', 'kind', 'key', 'kparent', 'parts', 'tag')

    def __init__(self, n, get, base=None, off=None, kind='bytes', key=None, kparent=None, parts=None, tag=None):
        self.n, self.get, self.base, self.off, self.kind = n, get, base, off, kind
        self.key, self.kparent, self.parts, self.tag = key, kparent, parts, tag

    def __repr__(self):
        return '<SBytes %s n=%s>' % (self.base.name if self.base else '', self.n)


def from_base(base, off, n, kind='bytes'):
    return SBytes(n, lambda i: base.get(add(off, i)), base, off, kind)


def const_bytes(b, kind='bytes'):
    def get(i):
        i = conc(i)
        if isinstance(i, int):
            return b[i] if 0 <= i < len(b) else 0
        r = z3.IntVal(0)
        for k in reversed(range(len(b))):
            r = z3.If(i == k, z3.IntVal(b[k]), r)
        return r
    s = SBytes(len(b), get, kind=kind, tag=bytes(b))
    if len(b) <= 64:
        s.key = int.from_bytes(b, 'big')
    return s


def as_sbytes(v):
    if isinstance(v, SBytes):
        return v
    if isinstance(v, (bytes, bytearray)):
        return const_bytes(bytes(v), 'bytes' if isinstance(v, bytes) else 'bytearray')
    if hasattr(v, 'as_sbytes'):
        return v.as_sbytes()
    raise Unsupported('not bytes: %r' % (v,))


def is_byteslike(v):
    return isinstance(v, (SBytes, bytes, bytearray)) or hasattr(v, 'as_sbytes')


def concat(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    a, b = as_sbytes(a), as_sbytes(b)
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a
    if a.base is not None and a.base is b.base:
        if Path.cur.entails(eq(add(a.off, a.n), b.off)):
            return from_base(a.base, a.off, add(a.n, b.n), a.kind)
    if not isinstance(b.n, int) and Path.cur.entails(eq(b.n, 0)):
        return a
    if not isinstance(a.n, int) and Path.cur.entails(eq(a.n, 0)):
        return b
    na = a.n

    def get(i):
        c = concb(lt(i, na))
        if c is True:
            return a.get(i)
        if c is False:
            return b.get(sub(i, na))
        return Ite(c, a.get(i), b.get(sub(i, na)))
    r = SBytes(add(a.n, b.n), get, kind=a.kind, parts=(a, b))
    if a.tag is not None and b.tag is not None:
        r.tag = a.tag + b.tag
    if isinstance(b.n, int) and isinstance(a.n, int):
        r.kparent = ('cat', a, b)
    return r


def slice_bytes(s, lo, n):
    """s[lo:lo+n], already clamped"""
    if s.tag is not None and isinstance(lo, int) and isinstance(n, int):
        return const_bytes(s.tag[lo:lo + n], s.kind)
    if isinstance(n, int) and n == 0:
        return const_bytes(b'', s.kind)
    if isinstance(lo, int) and lo == 0 and (n is s.n or concb(eq(n, s.n)) is True):
        return s
    if s.base is not None:
        r = from_base(s.base, add(s.off, lo), n, s.kind)
    else:
        if s.parts:
            a, b = s.parts
            en = Path.cur.entails
            if en(le(a.n, lo)):
                return slice_bytes(b, sub(lo, a.n), n)
            if en(le(add(lo, n), a.n)):
                return slice_bytes(a, lo, n)
            if en(And(le(lo, a.n), le(a.n, add(lo, n)))):
                return concat(slice_bytes(a, lo, sub(a.n, lo)), slice_bytes(b, 0, sub(add(lo, n), a.n)))
        r = SBytes(n, lambda i: s.get(add(lo, i)), kind=s.kind)
    if isinstance(lo, int) and isinstance(n, int) and isinstance(s.n, int):
        r.kparent = ('sub', s, lo)
    return r


def key_of(s):
    """the byte string (of known length) read as a big-endian number"""
    s = as_sbytes(s)
    if s.key is not None:
        return s.key
    p = Path.cur
    n = s.n
    if not isinstance(n, int):
        raise Unsupported('key of byte string of unknown length')
    k = None
    if s.kparent:
        if s.kparent[0] == 'cat':
            a, b = s.kparent[1:]
            k = add(mul(key_of(a), 256 ** b.n), key_of(b))
        else:
            par, lo = s.kparent[1:]
            if par.base is None or par.key is not None or n < par.n and par.n <= 20:
                k = key_of(par)
                d = 256 ** (par.n - lo - n)
                k = k // d if isinstance(k, int) else zint(k) / d
                if lo:
                    m = 256 ** n
                    k = k % m
    if k is None and s.base is not None and n <= 8:
        k = 0
        for i in range(n):
            k = add(mul(k, 256), s.get(i))
    if k is None and s.base is not None:
        f = z3.Function('%s.key%d' % (s.base.name, n), z3.IntSort(), z3.IntSort())
        k = f(zint(s.off))
        kk = ('key', k.get_id())
        if kk not in p.memo:
            p.memo[kk] = k
            p.fact(z3.And(k >= 0, k < 256 ** n))
            if n:
                p.fact(k / (256 ** (n - 1)) == s.get(0))
    if k is None:
        if n <= 4:
            k = 0
            for i in range(n):
                k = add(mul(k, 256), s.get(i))
        else:
            raise Unsupported('key of composite byte string')
    s.key = k
    return k


# --------------------------------------------------------------------- heap objects

class HObj:
    """object with identity and mutable cells; every write goes through setf"""

    def __init__(self, label):
        self.label = label
        self.f = {}
        self.born = None
        p = Path.cur
        if p is not None:
            n = p.objcount.get(label, 0)
            p.objcount[label] = n + 1
            if n:
                self.label = '%s#%d' % (label, n)
            self.born = p.clock
            p.clock += 1
            p.objs[self.label] = self

    def setf(self, name, val):
        Path.cur.write(self, name, val)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.label)


class SObj(HObj):
    """instance of a real class of the program; `items` for tuple/list subclasses"""

    def __init__(self, cls, label=None, items=None):
        super().__init__(label or cls.__name__)
        self.cls = cls
        self.items = items


class Model(HObj):
    """object of the environment: methods m_<name>(ip, *args), attributes a_<name>(ip)"""
    cls = None

    def truth(self, ip):
        return True


class SList(HObj):
    """python list: f['v'] is a tuple of values, or a Seq"""

    def __init__(self, v=(), label='list'):
        super().__init__(label)
        self.f['v'] = v

    @property
    def v(self):
        return self.f['v']


class SDict(HObj):
    """python dict with concrete keys: f['v'] is a tuple of (key, value)"""

    def __init__(self, v=(), label='dict'):
        super().__init__(label)
        self.f['v'] = tuple(v)


class SSet(HObj):
    def __init__(self, v=(), label='set'):
        super().__init__(label)
        self.f['v'] = tuple(v)


class Seq:
    """immutable sequence of symbolic length"""
    __slots__ = ('n', 'elem', 'kind', 'tag')

    def __init__(self, n, elem, kind='list', tag=None):
        self.n, self.elem, self.kind, self.tag = n, elem, kind, tag

    def __repr__(self):
        return '<Seq %s>' % self.n


class GhostVal:
    """immutable symbolic value of a special sort; subclasses give vkind() and
    vfresh(path, name, idx)"""

    def vkind(self):
        return (type(self),)


class Junk(GhostVal):
    """a value about which nothing is known; any use of it is unsupported"""

    def vkind(self):
        return (Junk,)

    @staticmethod
    def vfresh(path, name, kind):
        return Junk()


class Ref(GhostVal):
    """opaque immutable value of some sort, identified by a z3 integer term"""

    def __init__(self, sort, term):
        self.sort, self.term = sort, term

    def vkind(self):
        return (Ref, self.sort)

    @staticmethod
    def vfresh(path, name, kind):
        return Ref(kind[1], path.fresh_int(name))

    def __repr__(self):
        return '<%s %s>' % (self.sort, self.term)


# --------------------------------------------------------------------- paths

class Path:
    cur = None

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = list(prefix)
        self.taken = []
        self.forced = []
        self.pc = []
        self.memo = {}
        self.names = {}
        self.objcount = {}
        self.objs = {}
        self.qfacts = []
        self.clock = 0
        self.pows = []
        self.loopstack = []
        self.solver = z3.Solver()
        self.solver.set('timeout', run.feas_ms)
        self.trace = []
        self.steps = 0
        self.ghost = {}

    # ---- naming
    def name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_int(self, base='x'):
        return z3.Int(self.name(base))

    def fresh_nat(self, base='n'):
        x = self.fresh_int(base)
        self.fact(x >= 0)
        return x

    def fresh_bool(self, base='b'):
        return z3.Bool(self.name(base))

    def fresh_bytes(self, base='s', n=None, kind='bytes', hook=None):
        nm = self.name(base)
        if n is None:
            n = z3.Int(nm + '.len')
            self.fact(n >= 0)
        return from_base(ByteArr(nm, hook), 0, n, kind)

    # ---- what is only needed to show something is forgotten afterwards
    def scope(self):
        self.solver.push()
        return (len(self.pc), len(self.qfacts), dict(self.memo), dict(self.names), dict(self.objcount), list(self.pows),
                [(l, len(l)) for l in self.ghost.get('growing', ())])

    def unscope(self, s):
        self.solver.pop()
        del self.pc[s[0]:]
        del self.qfacts[s[1]:]
        self.memo, self.names, self.objcount, self.pows = s[2:6]
        for l, n in s[6]:
            del l[n:]

    # ---- facts
    def fact(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        """restrict the path (preconditions, contracts of callees)"""
        c = concb(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('assume false')
        self.fact(c)

    def feasible(self, c=None):
        t = time.time()
        r = self.solver.check(c) if c is not None else self.solver.check()
        self.run.stat('feas', time.time() - t)
        return r != z3.unsat

    def entails(self, c):
        """c certainly follows (used only to pick a cheaper but exact encoding)"""
        c = concb(c)
        if isinstance(c, bool):
            return c
        t = time.time()
        r = self.solver.check(z3.Not(c))
        self.run.stat('feas', time.time() - t)
        return r == z3.unsat

    def decide(self, c, why=''):
        """fork on a condition"""
        c = concb(c)
        if isinstance(c, bool):
            return c
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.fact(c if v else z3.Not(c))
            return v
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c)) if ft else True
        if ft and ff:
            self.run.push(self.taken + [False])
            v = True
        else:
            v = ft
        self.taken.append(v)
        self.fact(c if v else z3.Not(c))
        return v

    def choose(self, n, why=''):
        """fork nondeterministically into n cases"""
        if n == 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            return v
        for k in range(1, n):
            self.run.push(self.taken + [k])
        self.taken.append(0)
        return 0

    # ---- obligations
    def prove(self, goal, label, kind='obligation'):
        return self.run.obligation(self, goal, label, kind)

    def qfact(self, c):
        """a quantified fact: used by proofs, not by the quick feasibility checks"""
        self.qfacts.append(c)

    # ---- heap
    def write(self, obj, name, val):
        if getattr(self, 'comp_depth', 0):
            if obj.born is None or obj.born < self.comp_clock:
                raise Unsupported('element of a symbolic comprehension changes state')
        for lp in self.loopstack:
            k = (obj.label, name)
            if k not in lp.written:
                lp.written[k] = (obj, obj.f.get(name, UNDEF))
        obj.f[name] = val

    # ---- arithmetic helpers
    def bits_of(self, t):
        """the eight bits of a byte term, as booleans"""
        k = ('bits', t.get_id())
        if k not in self.memo:
            bs = [self.fresh_bool('bit') for _ in range(8)]
            self.memo[k] = (t, bs)
            self.fact(t == z3.Sum([z3.If(b, z3.IntVal(2 ** j), z3.IntVal(0)) for j, b in enumerate(bs)]))
        return self.memo[k][1]

    def pow2(self, e):
        e = conc(e)
        if isinstance(e, int):
            if e < 0:
                raise PyRaise(SExc(ValueError, ('negative shift count',)))
            return 2 ** e
        f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
        t = f(e)
        for (e2, t2) in self.pows:
            if z3.eq(e, e2):
                return t2
        self.fact(t >= 1)
        for (e2, t2) in self.pows + [(z3.IntVal(0), z3.IntVal(1))]:
            d = z3.simplify(e - e2, som=True)
            if z3.is_int_value(d):
                k = d.as_long()
                if 0 <= k < 4096:
                    self.fact(t == t2 * (2 ** k))
                elif -4096 < k < 0:
                    self.fact(t2 == t * (2 ** -k))
        self.pows.append((e, t))
        return t
