"""Lists of named things and sets of names, of any size.

A *bag* is a python list whose items are told apart by a name (a path), no name twice; its state
is which names are in it (`inb`), under which of them the item is the one that was there at the
start (`old`), and the order (`at`: name at a position, `pos`: its inverse).  Appending and
deleting are exact on all of these.  A *name set* is a python set of names given by a predicate;
iterating over it gives each member once, in an unknown order.

Facts "for all names" are instantiated at the names seen on the path, among them one arbitrary
name Q about which the contracts' invariants and postconditions are stated."""
from .common import *
from pyvc.core import Seq
import ast

B = z3.BoolSort()


def memo1(f):
    """f, a pure function on terms, computed once per term"""
    if f is None or isinstance(f, z3.FuncDeclRef) or getattr(f, 'memo', None) is not None:
        return f
    d = {}

    def g(x):
        x = zint(x)
        k = x.get_id()
        r = d.get(k)
        if r is None:
            r = d[k] = (x, f(x))
        return r[1]
    g.memo = d
    return g


class Universe:
    def __init__(self, c):
        self.c = c
        self.seen, self.insts, self.ids = [], [], {}
        self.Q = z3.IntVal(0)
        c.env.u = self
        self.Q = c.Q if hasattr(c.env, 'Q') else c.int('Q')
        c.env.Q = self.Q
        self.see(self.Q)
        self.iters, self.sets = [], []

    def see(self, x):
        x = zint(conc(x))
        k = x.get_id()
        if k in self.ids:
            return x
        self.ids[k] = x
        self.seen.append(x)
        for f in list(self.insts):
            self.fact(f(x))
        return x

    def fact(self, f):
        self.c.p.fact(zbool(f)) if f is not True else None

    def forall(self, f):
        self.insts.append(f)
        for x in list(self.seen):
            self.fact(f(x))

    def form(self, f):
        """the formula "f holds for all names" as something to assume or to show"""
        if self.c.assuming:
            self.forall(f)
            return True
        return f(self.Q)


class Name(GhostVal):
    """text that is told apart from other such text by the number `t`"""

    def __init__(self, u, t):
        self.u, self.t = u, u.see(t)

    def vkind(self):
        return (Name,)

    @staticmethod
    def vfresh(path, name, kind):
        u = path.run.ctx.u
        return Name(u, path.fresh_int(name))

    def py_eq(self, ip, o):
        if isinstance(o, Name):
            return eq(self.t, o.t)
        if isinstance(o, str):
            raise Unsupported('comparison of an arbitrary name with a literal')
        return False


class State(GhostVal):
    def __init__(self, u, n, inb, old, at, pos):
        self.u, self.n, self.inb, self.old, self.at, self.pos = u, n, memo1(inb), memo1(old), at, memo1(pos)

    def vkind(self):
        return (State,)

    @staticmethod
    def vfresh(path, name, kind):
        return fresh_state(path.run.ctx.u, name)


def fresh_state(u, name, inb=None, old=None, n=None):
    p = u.c.p
    fi = z3.Function(p.name(name + '.in'), I, B)
    fo = z3.Function(p.name(name + '.old'), I, B)
    fa = z3.Function(p.name(name + '.at'), I, I)
    fp = z3.Function(p.name(name + '.pos'), I, I)
    inb, old = fi if inb is None else inb, fo if old is None else old
    n = p.fresh_nat(name + '.n') if n is None else n

    def at(k):
        k = zint(k)
        t = fa(k)
        key = ('at', t.get_id())
        if key not in p.memo:
            p.memo[key] = t
            u.see(t)
            u.fact(z3.Implies(z3.And(k >= 0, k < zint(n)), z3.And(inb(t), fp(t) == k)))
        return t
    st = State(u, n, inb, old, at, fp)
    u.forall(lambda x: z3.Implies(inb(x), z3.And(fp(x) >= 0, fp(x) < zint(n), fa(fp(x)) == x)))
    u.forall(lambda x: z3.Implies(old(x), inb(x)))
    return st


class BagSeq(Seq):
    """iteration over a bag in the state it had; `live` if the list itself is iterated"""
    __slots__ = ('bag', 'st', 'live')

    def __init__(self, bag, st, live):
        self.bag, self.st, self.live = bag, st, live

        def elem(k):
            if self.live and bag.f['st'] is not st:
                raise Unsupported('a list that changes while it is iterated')
            return bag.item(st.at(k))
        super().__init__(st.n, elem, tag='bag')


class Bag(Model):
    cls = list

    def __init__(self, u, item, st, owner=None):
        super().__init__('bag')
        self.u, self.item = u, item
        self.f['st'] = st

    @property
    def st(self):
        return self.f['st']

    def truth(self, ip):
        return ne(self.st.n, 0)

    def py_len(self, ip):
        return self.st.n

    def py_iter(self, ip):
        self.u.snap = self.st
        return BagSeq(self, self.st, True)

    def snapshot(self):
        return BagSeq(self, self.st, False)

    def py_setitem(self, ip, i, v):
        if not isinstance(i, slice) or (i.start, i.stop, i.step) != (None, None, None) or not isinstance(v, (Bag, BagSeq)):
            raise Unsupported('assignment to an item of a list of databases')
        self.setf('st', v.st)

    def py_slice(self, ip, lo, hi):
        if lo in (None, 0) and hi is None:
            return type(self)(self.u, self.item, self.st)
        raise Unsupported('slice of a list of databases')

    def m_copy(self, ip):
        return type(self)(self.u, self.item, self.st)

    def py_getitem(self, ip, i):
        return self.item(self.st.at(ip.norm_index(i, self.st.n)))

    def name_of(self, ip, v):
        raise NotImplementedError

    def py_delitem(self, ip, i):
        self.delete(ip.norm_index(i, self.st.n))

    def m_pop(self, ip, i=-1):
        i = ip.norm_index(i, self.st.n)
        r = self.item(self.st.at(i))
        self.delete(i)
        return r

    def m_remove(self, ip, v):
        t = self.key(ip, v)
        if t is None:
            raise Unsupported('removal of %r' % (v,))
        if not ip.p.decide(self.st.inb(t), 'in list'):
            ip.throw(ValueError, 'not in list')
        self.delete(self.st.pos(t))

    def delete(self, i):
        s, i = self.st, zint(i)
        gone = s.at(i)
        self.setf('st', State(s.u, sub(s.n, 1), lambda x: z3.And(s.inb(x), x != gone), lambda x: z3.And(s.old(x), x != gone),
                              lambda k: Ite(lt(k, i), s.at(k), s.at(add(k, 1))) if not concb(lt(k, i)) is True else s.at(k),
                              lambda x: z3.If(s.pos(x) > i, s.pos(x) - 1, s.pos(x))))

    def key(self, ip, v):
        """name of an item"""
        return v.t if isinstance(v, Item) else None

    def accepts(self, ip, v):
        """name of the thing a value that is added stands for; proves it is what it should be"""
        raise Unsupported('addition to a list of databases')

    def m_append(self, ip, v):
        t = self.u.see(self.accepts(ip, v))
        s = self.st
        ip.p.prove(z3.Not(s.inb(t)), 'nothing is added twice', 'obligation')
        n = zint(s.n)
        self.setf('st', State(s.u, add(s.n, 1), lambda x: z3.Or(s.inb(x), x == t), lambda x: z3.And(s.old(x), x != t),
                              lambda k: z3.If(zint(k) == n, t, s.at(k)), lambda x: z3.If(x == t, n, s.pos(x))))

    def m_sort(self, ip, key=None, reverse=False):
        s, p = self.st, ip.p
        if key is None:
            raise Unsupported('order of databases')
        k = p.fresh_int('k')
        if p.decide(z3.And(k >= 0, k < zint(s.n)), 'an item'):
            v = ip.call(key, [self.item(s.at(k))], {})
            if not is_int(v):
                raise Unsupported('order by %r' % (v,))
        self.setf('st', fresh_state(self.u, 'sorted', s.inb, s.old, s.n))

    def m_reverse(self, ip):
        s = self.st
        self.setf('st', fresh_state(self.u, 'reversed', s.inb, s.old, s.n))


class Item(GhostVal):
    def __init__(self, u, t):
        self.u, self.t = u, u.see(t)

    def vkind(self):
        return (type(self),)

    def py_eq(self, ip, o):
        if isinstance(o, Item):
            return eq(self.t, o.t)
        return False


class Pred(GhostVal):
    """a predicate on names"""

    def __init__(self, f):
        self.f = memo1(f)

    def vkind(self):
        return (Pred,)

    @staticmethod
    def vfresh(path, name, kind):
        f = z3.Function(path.name(name), I, B)
        return Pred(lambda x: f(zint(x)))


class NameSet(Model):
    cls = set

    def __init__(self, u, has):
        super().__init__('names')
        self.u = u
        self.f['has'] = Pred(has)
        u.sets.append(self)

    @property
    def has(self):
        return self.f['has'].f

    def sized(self):
        """number of members, their order of iteration"""
        pr = self.f['has']
        if hasattr(self, 'order') and self.order[0] is pr:
            return self.order[1:]
        u, p, has = self.u, self.u.c.p, self.has
        n = p.fresh_nat('names.n')
        fe, fx = z3.Function(p.name('elem'), I, I), z3.Function(p.name('idx'), I, I)
        u.forall(lambda x: z3.Implies(has(x), z3.And(fx(x) >= 0, fx(x) < n, fe(fx(x)) == x)))

        def elem(k):
            if self.f['has'] is not pr:
                raise Unsupported('a set that changes while it is iterated')
            k = zint(k)
            t = fe(k)
            key = ('el', t.get_id())
            if key not in p.memo:
                p.memo[key] = t
                u.see(t)
                u.fact(z3.Implies(z3.And(k >= 0, k < n), z3.And(has(t), fx(t) == k)))
            return t
        self.order = (pr, n, elem, fx)
        return self.order[1:]

    def m_add(self, ip, v):
        if not isinstance(v, Name):
            raise Unsupported('%r in a set of names' % (v,))
        has, t = self.has, v.t
        self.setf('has', Pred(lambda x: z3.Or(has(x), x == t)))

    def m_discard(self, ip, v):
        if not isinstance(v, Name):
            raise Unsupported('%r in a set of names' % (v,))
        has, t = self.has, v.t
        self.setf('has', Pred(lambda x: z3.And(has(x), x != t)))

    def m_remove(self, ip, v):
        if not ip.p.decide(self.py_contains(ip, v), 'in set'):
            ip.throw(KeyError, 'not in set')
        self.m_discard(ip, v)

    def truth(self, ip):
        n = self.sized()[0]
        self.sized()[1](0)
        return ne(n, 0)

    def py_len(self, ip):
        return self.sized()[0]

    def py_iter(self, ip):
        n, elem, fx = self.sized()
        self.u.iters.append(Progress(self.u, self.has, n, fx, elem))
        return Seq(n, lambda k: Name(self.u, elem(k)), tag=('names', self))

    def py_contains(self, ip, v):
        if isinstance(v, Name):
            return self.has(v.t)
        raise Unsupported('membership of %r' % (v,))

    def py_binop(self, ip, op, o):
        if not isinstance(o, NameSet):
            return NotImplemented
        a, b = self.has, o.has
        if op is ast.Sub:
            return NameSet(self.u, lambda x: z3.And(a(x), z3.Not(b(x))))
        if op is ast.BitAnd:
            return NameSet(self.u, lambda x: z3.And(a(x), b(x)))
        if op is ast.BitOr:
            return NameSet(self.u, lambda x: z3.Or(a(x), b(x)))
        if op is ast.BitXor:
            return NameSet(self.u, lambda x: a(x) != b(x))
        return NotImplemented

    def named(op):
        def f(self, ip, *os):
            r = self
            for o in os:
                if not isinstance(o, NameSet):
                    o = as_set(ip, o)
                r = r.py_binop(ip, op, o)
            return r
        return f
    m_difference, m_intersection, m_union = named(ast.Sub), named(ast.BitAnd), named(ast.BitOr)

    def m_copy(self, ip):
        return NameSet(self.u, self.has)


def as_set(ip, v):
    r = ip.make_set(ip.iter_values(v))
    if not isinstance(r, NameSet):
        raise Unsupported('set of %r' % (v,))
    return r


class Progress:
    """an iteration over a set: the members passed after `it` steps; the bag's state then"""

    def __init__(self, u, has, n, idx, elem):
        self.has, self.n, self.idx, self.elem = has, n, idx, elem
        self.sets0 = [(x, x.has) for x in u.sets]
        self.st0 = u.c.bag().st if hasattr(u.c.env, 'bag') and u.c.bag() else None

    def done(self, x, it):
        return z3.And(self.has(x), self.idx(x) < zint(it))


def latest(c):
    if not c.u.iters:
        raise Unsupported('no iteration over names')
    it = c.u.iters[-1]
    if it.st0 is None:
        raise Unsupported('no list')
    return it, c.bag().st


def bag_invs(usable=lambda c, x: z3.BoolVal(True)):
    def adding(c, k):
        it, s = latest(c)
        return c.u.form(lambda x: s.inb(x) == z3.Or(it.st0.inb(x), z3.And(it.done(x, k), usable(c, x))))

    def removing(c, k):
        it, s = latest(c)
        return c.u.form(lambda x: s.inb(x) == z3.And(it.st0.inb(x), z3.Not(it.done(x, k))))

    def kept(c, k):
        it, s = latest(c)
        return c.u.form(lambda x: z3.Implies(z3.And(s.inb(x), it.st0.inb(x)), s.old(x) == it.st0.old(x)))
    hint = [('$it',)]

    def remembered(c, e, k):
        if not isinstance(e, NameSet) or not c.u.iters:
            return False
        it = c.u.iters[-1]
        for x, has in it.sets0:
            if x is e:
                return c.u.form(lambda x: e.has(x) == z3.Or(has(x), it.done(x, k)))
        return False

    def listed(c, e, k):
        bag = c.bag() if hasattr(c.env, 'bag') else None
        if not isinstance(e, NameSet) or not bag:
            return False
        st = bag.st
        return c.u.form(lambda x: e.has(x) == z3.And(st.inb(x), st.pos(x) < zint(k)))

    return [Inv('names of the list so far', 's:any $it:int', listed, hints=[('cur_ref_paths_set', '$it')]), Inv('noted so far', 's:any $it:int', remembered, hints=[('cur_ref_paths_set', '$it'), ('seen', '$it')]), Inv('added so far', '$it:int', adding, hints=hint), Inv('removed so far', '$it:int', removing, hints=hint), Inv('others kept', '$it:int', kept, hints=hint)]


def configure(run, want):
    """rules for the built-in types on these"""
    def set_hook(ip, seq):
        c = run.ctx
        if isinstance(seq, tuple):
            if all(isinstance(x, Name) for x in seq):
                ts = [x.t for x in seq]
                return NameSet(c.u, lambda x: z3.BoolVal(False) if not ts else z3.Or(*[x == t for t in ts]))
            return None
        if isinstance(seq, Seq) and isinstance(seq.tag, tuple) and seq.tag[0] == 'names':
            return NameSet(c.u, seq.tag[1].has)
        # names of the items of a bag
        if isinstance(seq, Seq):
            p = ip.p
            k = p.fresh_int('k')
            bag = c.bag()
            p.prove(eq(seq.n, bag.st.n), 'the names of all databases are taken', 'obligation')
            if p.decide(z3.And(k >= 0, k < zint(seq.n)), 'an item'):
                v = seq.elem(k)
                if not isinstance(v, Name) or not p.entails(v.t == bag.st.at(k)):
                    raise Unsupported('set of %r' % (v,))
            return NameSet(c.u, bag.st.inb)
        return None
    run.set_hook = set_hook
    run.tuple_sets = True

    def comp_hook(ip, e, fr, f2, vals, k):
        """a list made of the items of a bag that satisfy a condition on their names"""
        from pyvc.interp import Frame
        g = e.generators[k]
        if not isinstance(vals, BagSeq) or k or len(e.generators) != 1 or not isinstance(e, ast.ListComp):
            return None
        if not (isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and g.target.id == e.elt.id):
            return None
        c, s, bag = run.ctx, vals.st, vals.bag

        def cond(x):
            f3 = Frame(fr.func, fr.globals, parent=f2, caller=fr.caller)
            f3.clscell, f3.args0 = fr.clscell, fr.args0
            f3.vars = dict(f2.vars)
            ip.assign(g.target, bag.item(x), f3)
            return zbool(And(*[ip.truth(ip.ev(i, f3)) for i in g.ifs]))
        st = fresh_state(c.u, 'filtered', lambda x: z3.And(s.inb(x), cond(x)), lambda x: z3.And(s.old(x), cond(x)))
        # the order stays
        return BagSeq(type(bag)(c.u, bag.item, st), st, False)
    run.comp_hook = comp_hook

    def newlist(ip, v):
        if isinstance(v, BagSeq):
            return type(v.bag)(v.bag.u, v.bag.item, v.st)
        return None
    run.newlist_hook = newlist
