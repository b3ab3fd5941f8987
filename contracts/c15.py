"""Alternates: ReferenceDB's databases and its reference file"""
import builtins
import codecs
from . import c13
from .bags import *
from .bags import configure as bag_rules
from pyvc.interp import Frame
from gitdb.db.base import CompoundDB
from gitdb.db.ref import ReferenceDB
from gitdb.db.git import GitDB
from gitdb.exc import InvalidDBRoot

LINE, FIRST = F('line', I, I), F('first_line', I, I)
LISTED, MADE, COMP, OPENS, BLANK = (z3.Function(x, I, B) for x in ('listed', 'can_be_made', 'is_compound', 'opens', 'blank'))
LINES = 'lines'


def usable(x):
    return z3.And(z3.Not(BLANK(x)), MADE(x), z3.Implies(COMP(x), OPENS(x)))


class Path_(Name):
    def truth(self):
        return z3.Not(BLANK(self.t))

    def py_getattr(self, ip, name):
        if name == 'strip':
            return Do(lambda ip, *a: self)
        raise Unsupported('%s of a path' % name)


class Do(GhostVal):
    def __init__(self, f):
        self.f = f

    def py_call(self, ip, args, kw):
        return self.f(ip, *args, **kw)


class Line(GhostVal):
    """a line with blanks around it: strip() gives the path"""

    def __init__(self, c, j):
        self.c, self.j = c, j

    def vkind(self):
        return (Line,)

    @staticmethod
    def vfresh(path, name, kind):
        return Line(path.run.ctx, path.fresh_int(name))

    def py_getattr(self, ip, name):
        if name != 'strip':
            raise Unsupported('%s of a line' % name)

        def strip(ip, *a):
            if a:
                raise Unsupported('strip of some characters')
            return Path_(self.c.u, line(self.c, self.j))
        return Do(strip)


def line(c, j):
    """the path in line j"""
    j = zint(j)
    if j.num_args() == 1 and j.decl().eq(FIRST):
        # only asked for paths that are listed
        return c.u.see(j.arg(0))
    t = LINE(j)
    key = ('ln', t.get_id())
    if key not in c.p.memo:
        c.p.memo[key] = t
        c.u.see(t)
        c.u.fact(z3.Implies(z3.And(j >= 0, j < c.m), z3.And(LISTED(t), FIRST(t) <= j)))
    return t


def lines(c):
    return Seq(c.m, lambda j: Line(c, j), tag=LINES)


class PState(GhostVal):
    """which paths are in a list, where each is for the first time, what is at each position"""

    def __init__(self, n, has, at, elem, u=None):
        self.n, self.has, self.at0, self.elem, self.u = n, memo1(has), memo1(at), elem, u
        self.asked, self.ids, self.orders = [], set(), []

    def at(self, x):
        r = self.at0(x)
        if x.get_id() not in self.ids:
            self.ids.add(x.get_id())
            self.asked.append(x)
            for f in self.orders:
                for y in self.asked:
                    self.u.fact(z3.And(f(x, y), f(y, x)))
        return r

    def like(self, other):
        """both know an order of the paths: it is the same"""
        def f(x, y):
            return z3.Implies(z3.And(self.has(x), self.has(y)), (self.at0(x) < self.at0(y)) == (other(x) < other(y)))
        self.orders.append(f)
        for x in list(self.asked):
            for y in list(self.asked):
                self.u.fact(f(x, y))

    def vkind(self):
        return (PState,)

    @staticmethod
    def vfresh(path, name, kind):
        return paths_state(path.run.ctx, None)


def paths_state(c, has):
    p, u = c.p, c.u
    n = p.fresh_nat('paths.n')
    fh, fa, fe = z3.Function(p.name('paths.has'), I, B), z3.Function(p.name('paths.at'), I, I), z3.Function(p.name('paths.elem'), I, I)
    has = fh if has is None else has
    u.forall(lambda x: z3.Implies(has(x), z3.And(fa(x) >= 0, fa(x) < n, fe(fa(x)) == x)))

    def elem(k):
        k = zint(k)
        t = fe(k)
        key = ('el', t.get_id())
        if key not in p.memo:
            p.memo[key] = t
            u.see(t)
            u.fact(z3.Implies(z3.And(k >= 0, k < n), z3.And(has(t), fa(t) <= k)))
            st.at(t)
        return t
    st = PState(n, has, fa, elem, u)
    return st


def in_file_order(c, s):
    """the paths come in the order in which the file lists them"""
    if c.assuming:
        s.like(FIRST)
        return True
    x, y = c.Q, c.Q2
    return z3.Implies(z3.And(s.has(x), s.has(y)), (s.at(x) < s.at(y)) == (FIRST(x) < FIRST(y)))


class Paths(Model):
    """a list of paths"""
    cls = list

    def __init__(self, c, st):
        super().__init__('paths')
        self.c = c
        self.f['st'] = st
        c.paths.append(self)

    @property
    def st(self):
        return self.f['st']

    @staticmethod
    def of_file(c, has):
        """the paths of the file for which `has` holds, in its order"""
        st = paths_state(c, has)
        st.like(FIRST)
        return Paths(c, st)

    def py_len(self, ip):
        return self.st.n

    def truth(self, ip):
        return ne(self.st.n, 0)

    def py_iter(self, ip):
        st = self.st

        def elem(k):
            if self.f['st'] is not st:
                raise Unsupported('a list that changes while it is iterated')
            return Path_(self.c.u, st.elem(k))
        self.c.u.iters.append(Progress(self.c.u, st.has, st.n, st.at, st.elem))
        return Seq(st.n, elem, tag=self)

    def py_contains(self, ip, v):
        if not isinstance(v, Name):
            raise Unsupported('membership of %r' % (v,))
        return self.st.has(v.t)

    def m_index(self, ip, v):
        if not isinstance(v, Name):
            raise Unsupported('index of %r' % (v,))
        if not ip.p.decide(self.st.has(v.t), 'listed'):
            ip.throw(ValueError, 'not in list')
        return self.st.at(v.t)

    def m_append(self, ip, v):
        if not isinstance(v, Name):
            raise Unsupported('%r in a list of paths' % (v,))
        s, t = self.st, v.t
        n = zint(s.n)
        self.setf('st', PState(n + 1, lambda x: z3.Or(s.has(x), x == t), lambda x: z3.If(s.has(x), s.at(x), n), lambda k: z3.If(zint(k) == n, t, s.elem(k)), self.c.u))


class Text(GhostVal):
    """content of the file"""

    def __init__(self, r):
        self.r = r

    def py_getattr(self, ip, name):
        if name == 'splitlines':
            return Do(lambda ip: ip.new_list(self.r))
        if name == 'split':
            return Do(lambda ip, sep: ip.new_list(self.r) if sep == '\n' else ip.uns('split of the file'))
        raise Unsupported('%s of the file' % name)


class File(Model):
    def __init__(self, c):
        super().__init__('file')
        self.c = c

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        return False

    def m_close(self, ip):
        return None

    def py_iter(self, ip):
        self.c.readable(ip)
        return lines(self.c)

    def m_read(self, ip):
        r = self.py_iter(ip)
        return Text(r)

    def m_readlines(self, ip):
        return ip.new_list(self.py_iter(ip))


def m_open(ip, name, mode='r', encoding=None, **kw):
    c = ip.run.ctx
    ip.p.prove(name == 'the/file' and mode in ('r', 'rt') and str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8'), 'the reference file is read as UTF-8', 'obligation')
    c.readable(ip)
    return File(c)


class Db(Item):
    @staticmethod
    def vfresh(path, name, kind):
        return Db(path.run.ctx.u, path.fresh_int(name))

    def py_isinstance(self, ip, cls):
        if issubclass(CompoundDB, cls) or cls is CompoundDB:
            return COMP(self.t)
        raise Unsupported('kind of a database')

    def py_getattr(self, ip, name):
        if name == 'root_path':
            return Do(lambda ip: Path_(self.u, self.t))
        if name == 'databases':
            return Do(self.databases)
        raise Unsupported('attribute %s of a database' % name)

    def databases(self, ip):
        ip.p.prove(COMP(self.t), 'only compounds have members', 'precondition')
        if not ip.p.decide(OPENS(self.t), 'opens'):
            fails(ip)
        return ()


class Odd(Exception):
    """stands for all other exceptions"""


ERRORS = (InvalidDBRoot, OSError, Odd)


def fails(ip):
    ip.throw(ERRORS[ip.p.choose(len(ERRORS), 'how')], 'unusable')


def make(ip, path):
    c = ip.run.ctx
    if not isinstance(path, Name):
        raise Unsupported('database at %r' % (path,))
    if not ip.p.decide(MADE(path.t), 'made'):
        fails(ip)
    return Db(c.u, path.t)


class Refs(Bag):
    def accepts(self, ip, v):
        c = self.u.c
        if not isinstance(v, Db):
            raise Unsupported('database %r' % (v,))
        ip.p.prove(zint(c.order.f['last']) < FIRST(v.t), 'databases are added in the order they are listed', 'obligation')
        c.order.setf('last', FIRST(v.t))
        c.order.setf('name', v.t)
        return v.t

    def m_sort(self, ip, **kw):
        raise Unsupported('order of alternates')

    m_reverse = m_sort


def deleting(c, e, it, form):
    """in a loop over all databases that takes out the one at path e"""
    s, s1 = c.bag().st, c.u.snap
    gone = z3.And(s1.inb(e.t), s1.pos(e.t) < zint(it))
    return form(s, s1, gone)


def deleting_inv(label, form):
    return Inv(label, 'path:any $it:int', lambda c, e, it: isinstance(e, Name) and deleting(c, e, it, lambda s, s1, gone: form(c, e.t, s, s1, gone)), hints=[('path', '$it')])


class Sync(Contract):
    """the databases are those of the distinct usable paths listed"""
    name = 'C15.sync'
    target = 'gitdb.db.ref:ReferenceDB._update_dbs_from_ref_file'
    cases = [{'cls': k, 'first': f, 'file': r} for r in ('read', 'unreadable') for k in ('default', 'custom') for f in (False, True)]
    models = {codecs.open: m_open, builtins.open: m_open, GitDB: make}
    assumptions = ['the reference file is UTF-8 (precondition)', 'a list keeps the order of its items when some are deleted or one is appended']
    invs = bag_invs(lambda c, x: usable(x)) + [
        deleting_inv('in while deleting', lambda c, e, s, s1, gone: c.u.form(lambda x: s.inb(x) == z3.And(s1.inb(x), z3.Not(z3.And(x == e, gone))))),
        deleting_inv('old while deleting', lambda c, e, s, s1, gone: c.u.form(lambda x: z3.Implies(s.inb(x), s.old(x) == s1.old(x)))),
        deleting_inv('positions while deleting', lambda c, e, s, s1, gone: c.u.form(lambda x: z3.Implies(z3.And(z3.Not(gone), s.inb(x)), s.pos(x) == s1.pos(x)))),
        deleting_inv('length while deleting', lambda c, e, s, s1, gone: zint(s.n) == z3.If(gone, zint(s1.n) - 1, zint(s1.n))),
        Inv('paths so far', 'r:any $it:int', lambda c, r, it: isinstance(r, Paths) and c.u.form(lambda x: r.st.has(x) == z3.And(LISTED(x), FIRST(x) < zint(it))), hints=[('ref_paths', '$it')]),
        Inv('paths so far, no blanks', 'r:any $it:int', lambda c, r, it: isinstance(r, Paths) and c.u.form(lambda x: r.st.has(x) == z3.And(LISTED(x), FIRST(x) < zint(it), z3.Not(BLANK(x)))), hints=[('ref_paths', '$it')]),
        Inv('paths in order', 'r:any', lambda c, r: isinstance(r, Paths) and in_file_order(c, r.st), hints=[('ref_paths',)]),
        Inv('last among those passed', '$it:int', lambda c, it: passed(c, it), hints=[('$it',)]),
        Inv('order', '$it:int', lambda c, it: ordered(c, it), hints=[('$it',)]),
        Inv('nothing added', '', lambda c: eq(c.order.f['last'], -1)),
    ]

    def configure(self, run):
        bag_rules(run, None)
        base_set, base_comp, base_new = run.set_hook, run.comp_hook, run.newlist_hook

        def raw(ip, seq):
            """whether these are the paths of all lines, in order"""
            c = run.ctx
            if not isinstance(seq, Seq) or isinstance(seq, BagSeq) or seq.tag == LINES or concb(eq(seq.n, c.m)) is not True:
                return False
            k = ip.p.fresh_int('k')
            if ip.p.decide(z3.And(k >= 0, k < c.m), 'a line'):
                v = seq.elem(k)
                return isinstance(v, Name) and ip.p.entails(v.t == LINE(k))
            return True

        def set_hook(ip, seq):
            c = run.ctx
            if isinstance(seq, Seq) and isinstance(seq.tag, Paths):
                return NameSet(c.u, seq.tag.st.has)
            if raw(ip, seq):
                return NameSet(c.u, LISTED)
            if isinstance(seq, Seq) and not isinstance(seq, BagSeq) and not seq.tag:
                for o in c.paths:
                    if concb(eq(seq.n, o.st.n)) is True:
                        k = ip.p.fresh_int('k')
                        if ip.p.decide(z3.And(k >= 0, k < zint(seq.n)), 'a path'):
                            v = seq.elem(k)
                            if not isinstance(v, Name) or not ip.p.entails(v.t == o.st.elem(k)):
                                continue
                        return NameSet(c.u, o.st.has)
            return base_set(ip, seq)
        run.set_hook = set_hook

        def comp_hook(ip, e, fr, f2, vals, k):
            """the paths of those lines, or of a list, for which a condition holds"""
            c, p = run.ctx, ip.p
            if not isinstance(vals, Seq) or len(e.generators) != 1 or isinstance(e, ast.DictComp):
                return base_comp(ip, e, fr, f2, vals, k)
            src = vals.tag.st if isinstance(vals.tag, Paths) else None
            if not src and concb(eq(vals.n, c.m)) is not True:
                return base_comp(ip, e, fr, f2, vals, k)
            g = e.generators[0]
            first, what = (src.at, src.elem) if src else (FIRST, lambda j: line(c, j))

            def at(j, x=None):
                f3 = Frame(fr.func, fr.globals, parent=f2, caller=fr.caller)
                f3.clscell, f3.args0 = fr.clscell, fr.args0
                f3.vars = dict(f2.vars)
                ip.assign(g.target, Path_(c.u, x) if src and x is not None else vals.elem(j), f3)
                return ip.ev(e.elt, f3), zbool(And(*[ip.truth(ip.ev(y, f3)) for y in g.ifs]))
            j = p.fresh_int('j')
            if p.decide(z3.And(j >= 0, j < zint(vals.n)), 'a line'):
                v, cond = at(j)
                t = what(j)
                if not isinstance(v, Name) or not p.entails(v.t == t) or not p.entails(cond == at(first(t), t)[1]):
                    return None
            has = src.has if src else LISTED
            keep = lambda x: z3.And(has(x), at(first(x), x)[1])
            if not src:
                return Paths.of_file(c, keep).py_iter(ip)
            st = paths_state(c, keep)
            st.like(src.at)
            return Paths(c, st).py_iter(ip)
        run.comp_hook = comp_hook

        def sort(ip, seq, key, reverse):
            c, p = run.ctx, ip.p
            if not (isinstance(seq, Seq) and isinstance(seq.tag, tuple) and seq.tag[0] == 'names') or reverse is not False:
                return None
            names = NameSet(c.u, seq.tag[1].has)
            n, elem, fx = names.sized()
            by_line = False
            if key is not None:
                k, k2 = p.fresh_int('k'), p.fresh_int('k')
                if p.decide(z3.And(k >= 0, k < zint(n), k2 >= 0, k2 < zint(n)), 'a path'):
                    x, y = elem(k), elem(k2)
                    v, w = (ip.call(key, [Path_(c.u, t)], {}) for t in (x, y))
                    by_line = is_int(v) and is_int(w) and p.entails((zint(v) < zint(w)) == (FIRST(x) < FIRST(y)))
                else:
                    by_line = True
            if by_line:
                seen = []

                def inorder(k):
                    t, k = elem(k), zint(k)
                    if not any(k.eq(j) for j, _ in seen):
                        for j, u in seen:
                            both = z3.And(j >= 0, j < n, k >= 0, k < n)
                            c.u.fact(z3.And(z3.Implies(z3.And(both, j < k), FIRST(u) < FIRST(t)), z3.Implies(z3.And(both, k < j), FIRST(t) < FIRST(u))))
                        seen.append((k, t))
                    return t
                names.order = (names.f['has'], n, inorder, fx)
            return names.py_iter(ip)
        run.sort_hook = sort

        def newlist(ip, v):
            c = run.ctx
            if isinstance(v, Seq) and isinstance(v.tag, Paths):
                return Paths(c, v.tag.st)
            if raw(ip, v):
                return Paths.of_file(c, LISTED)
            if v == () and run.case['first'] and not isinstance(c.bag(), Refs) and not c.made:
                c.env.made = True
                return Refs(c.u, lambda t: Db(c.u, t), c.st0)
            if v == ():
                n = zint(0)
                no = lambda x: z3.BoolVal(False)
                return Paths(c, PState(n, no, lambda x: n, lambda k: z3.IntVal(-1), c.u))
            return base_new(ip, v)
        run.newlist_hook = newlist
        self.target = 'gitdb.db.ref:ReferenceDB._set_cache_' if run.case['first'] else Sync.target

    def setup(self, c):
        p = c.p
        u = Universe(c)
        first = c.case['first']
        o = SObj(ReferenceDB)
        o.f['_ref_file'] = 'the/file'
        if c.case['cls'] == 'custom':
            o.f['ObjectDBCls'] = Do(make)
        else:
            u.forall(lambda x: COMP(x))
        c.env.o = o
        c.env.made = False
        c.env.paths = []
        c.env.Q2 = c.int('Q2')
        u.see(c.Q2)
        c.env.bag = lambda: o.f.get('_dbs')
        if first:
            no = lambda x: z3.BoolVal(False)
            n = c.nat('none')
            c.fact(n == 0)
            c.env.st0 = fresh_state(u, 'none', no, no, n)
        else:
            st = c.env.st0 = fresh_state(u, 'dbs')
            u.forall(lambda x: z3.And(z3.Implies(st.inb(x), st.old(x)), z3.Implies(st.inb(x), z3.Not(BLANK(x)))))
            o.f['_dbs'] = Refs(u, lambda t: Db(u, t), st)
        c.env.m = c.nat('lines')
        c.env.order = HObj('order')
        c.order.f['last'] = -1
        c.order.f['name'] = -1
        c.env.missing = c.case['file'] == 'unreadable'

        def readable(ip):
            if c.missing:
                ip.throw((FileNotFoundError, PermissionError, OSError)[p.choose(3, 'why')], 'the/file')
        c.env.readable = readable
        u.forall(lambda x: z3.Implies(LISTED(x), z3.And(FIRST(x) >= 0, FIRST(x) < c.m, LINE(FIRST(x)) == x)))
        return [o] + (['_dbs'] if first else []), {}

    def post(self, c, ret):
        b, Q, st0 = c.bag(), c.Q, c.st0
        if not isinstance(b, Refs):
            return [('the databases are a list', False)]
        s = b.st
        listed = z3.BoolVal(False) if c.missing else LISTED(Q)
        return [('exactly the usable paths listed', s.inb(Q) == z3.And(listed, z3.Or(st0.inb(Q), usable(Q)))),
                ('those still listed are kept as they are', z3.Implies(z3.And(listed, st0.inb(Q)), s.old(Q)))]


def passed(c, it):
    if not c.u.iters:
        return False
    pr, last, x = c.u.iters[-1], zint(c.order.f['last']), c.u.see(c.order.f['name'])
    return z3.Or(last == -1, z3.And(pr.done(x, it), last == FIRST(x)))


def ordered(c, it):
    if not c.u.iters:
        return False
    pr = c.u.iters[-1]
    last = zint(c.order.f['last'])
    return z3.Or(last == -1, z3.And(zint(it) >= 1, last <= FIRST(pr.elem(sub(it, 1)))))


class Updates(c13.Update):
    """an update reads the file again, before the members are updated"""
    name = 'C15.update_cache'
    cases = [k for k in c13.Update.cases if k['cls'] == 'ReferenceDB']


CONTRACTS = [Sync(), Updates()]
REGISTRY = c13.REGISTRY
LEVEL = 'proof'
