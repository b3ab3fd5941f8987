"""Contracts, the verification of one function, invariant inference and reports."""
import ast
import importlib
import itertools
import json
import sys
import time
import traceback
import types

import z3
from .core import *
from .interp import Interp, GenIter, BoundM, LazyVar
from . import builtin_models as bm


class Inv:
    """candidate loop invariant: `fn(c, *values)` over variables playing the given roles.
    `hints`: names the variables have in the current code (tried first); the roles make it
    applicable to code in which they are called differently."""

    def __init__(self, label, roles, fn, hints=None, measure=False, excludes=False):
        self.label = label
        self.roles = [tuple(r.split(':')) for r in roles.split()] if isinstance(roles, str) else roles
        self.fn = fn
        # excludes: it may be false of some of the values that stand for all values at the
        # loop head; those do not occur then
        self.excludes = excludes
        self.hints = hints or [tuple(r[0] for r in self.roles)]
        self.measure = measure


class Cand:
    __slots__ = ('inv', 'bind', 'alive', 'id', 'false_at_entry')

    def __init__(self, inv, bind):
        self.inv, self.bind, self.alive = inv, bind, True
        self.false_at_entry = False
        self.id = (inv.label,) + tuple(bind)


class LoopState:
    def __init__(self, key):
        self.key = key
        self.kinds = {}
        self.cands = {}
        self.reached = self.body_reached = 0
        self.measures = None


class Ctx:
    """what contracts see"""

    def __init__(self, run, path, ip):
        self.run, self.p, self.ip = run, path, ip
        self.env = types.SimpleNamespace()
        self.case = run.case
        self.assuming = False

    def __getattr__(self, k):
        return getattr(self.__dict__['env'], k)

    def int(self, name='x'):
        return self.p.fresh_int(name)

    def nat(self, name='n'):
        return self.p.fresh_nat(name)

    def bytes(self, name='s', n=None, kind='bytes', hook=None):
        return self.p.fresh_bytes(name, n, kind, hook)

    def assume(self, c):
        self.p.assume(c)

    def fact(self, c):
        self.p.fact(c)


class Contract:
    """specification of one function of the program.

    setup(c)      arbitrary arguments satisfying the precondition: (args, kwargs)
    post(c, ret)  [(label, condition)] that hold when it returns
    exc(c, e)     [(label, condition)] that hold when it raises e; [] if e is allowed
    invs          loop invariant candidates
    uses          names of contracts that replace callees
    call(ip,a,k)  how callers see it (for contracts used by others)
    """
    target = None
    cases = [None]
    invs = []
    uses = []
    level = 'proved'
    timeout = 10
    scoped = True           # what is needed only to show an invariant is forgotten afterwards
    may_raise_assert = False
    bounded = None
    assumptions = []
    models = {}

    def resolve(self):
        mod, qn = self.target.split(':')
        o = importlib.import_module(mod)
        for part in qn.split('.'):
            d = None
            if isinstance(o, type):
                for k in o.__mro__:
                    if part in k.__dict__:
                        d = k.__dict__[part]
                        break
                if d is None:
                    raise AttributeError(qn)
                o = d
            else:
                o = getattr(o, part)
        if isinstance(o, (classmethod, staticmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        return o

    def setup(self, c):
        raise NotImplementedError

    def post(self, c, ret):
        return []

    def exc(self, c, e):
        return [('no exception (%s)' % e.cls.__name__, False)]

    def configure(self, run):
        pass

    def no_return(self, case):
        """this case never returns"""
        return False

    def on_yield(self, c, v):
        raise Unsupported('yield')


class Failure:
    def __init__(self, label, reason, where, model=None):
        self.label, self.reason, self.where, self.model = label, reason, where, model

    def as_dict(self):
        return {'obligation': self.label, 'reason': self.reason, 'where': self.where, 'model': self.model}


class Run:
    """verification of one contract (one case)"""

    def __init__(self, contract, case, registry, opts):
        self.c, self.case, self.registry, self.opts = contract, case, registry, opts
        self.feas_ms = opts.get('feas_ms', 400)
        self.prove_ms = int(1000 * (opts.get('prove_s') or contract.timeout))
        self.max_steps = 400000
        self.max_paths = opts.get('max_paths', 6000)
        self.deadline = time.time() + opts.get('budget_s', 300)
        self.models = dict(bm.MODELS)
        self.models.update(contract.models)
        self.global_overrides = {}
        self.cls_attrs = {}
        self.cut_loops = set()
        self.bytes_by_byte = False
        self.max_unroll = 600
        self.yield_all = False
        self.int_lists = False
        self.star_ok = (itertools.chain,)
        self.loops = {}
        self.stats = {}
        self.functions = set()
        self.contracts_used = set()
        self.cur_line = None
        for h in ('yield_handler', 'set_hook', 'sort_hook', 'minmax_hook', 'fold_hook', 'quant_hook', 'dict_hook', 'int_hook',
                  'str_hook', 'bytes_hook', 'find_hook', 'list_hook', 'kind_hook', 'unpack_hook', 'comp_hook', 'havoc_hook', 'str_eq_hook',
                  'witnesses', 'chain_hook', 'newlist_hook', 'tuple_sets'):
            setattr(self, h, None)
        self.mode = 'hints'
        self.results = {}
        self.failures = []
        self.second = {}
        contract.configure(self)
        self.target = contract.resolve()
        self.used = {}
        for nm in contract.uses:
            k = registry[nm]
            try:
                self.used[k.resolve()] = k
            except (AttributeError, ImportError):
                pass

    def case_get(self, k):
        return self.case.get(k) if isinstance(self.case, dict) else None

    # ---- statistics
    def stat(self, k, t):
        a = self.stats.setdefault(k, [0, 0.0])
        a[0] += 1
        a[1] += t

    # ---- inlining policy
    def contract_for(self, ip, f, args, kw):
        k = self.used.get(f)
        if k is None:
            return None
        if f is self.target and not ip.frames:
            return None
        self.contracts_used.add(k.target)
        return k

    def may_inline(self, f):
        m = f.__module__ or ''
        return m == 'gitdb' or m.startswith('gitdb.')

    def cls_ok(self, cls):
        m = cls.__module__ or ''
        return m == 'gitdb' or m.startswith('gitdb.')

    def is_pure(self, f):
        try:
            return f in bm.PURE
        except TypeError:
            return False

    def note_function(self, f):
        if isinstance(f, types.FunctionType):
            self.functions.add('%s.%s' % (f.__module__, f.__qualname__))

    # ---- paths
    def push(self, prefix):
        self.work.append(list(prefix))

    def loop_state(self, key):
        if key not in self.loops:
            self.loops[key] = LoopState(key)
        return self.loops[key]

    def loop_reached(self, ls):
        ls.reached += 1

    def loop_body_reached(self, ls):
        ls.body_reached += 1

    def where(self, path):
        if self.cur_line:
            fr, ln = self.cur_line
            return '%s:%d' % (getattr(fr.func, '__qualname__', getattr(fr.func, '__name__', '?')), ln)
        return '?'

    # ---- proving
    def check(self, path, goal, ms=None):
        """'unsat' if the goal follows from the facts of the path"""
        goal = concb(goal)
        if goal is True:
            return 'unsat', None, 'trivial'
        neg = z3.BoolVal(True) if goal is False else z3.Not(goal)
        t = time.time()
        try:
            if not path.qfacts:
                path.solver.set('timeout', 1500)
                r = path.solver.check(neg)
                m = path.solver.model() if r == z3.sat else None
                path.solver.set('timeout', self.feas_ms)
                if r != z3.unknown:
                    return str(r), m, 'z3'
            s = z3.Solver()
            s.set('timeout', ms or self.prove_ms)
            s.add(*path.pc)
            s.add(*path.qfacts)
            s.add(neg)
            r = s.check()
            if r == z3.unknown and not path.qfacts:
                s = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_UFNIA')
                s.set('timeout', ms or self.prove_ms)
                s.add(*path.pc)
                s.add(neg)
                r = s.check()
            if r == z3.sat:
                return 'sat', s.model(), 'z3'
            return str(r), None, 'z3'
        finally:
            self.stat('prove', time.time() - t)

    def obligation(self, path, goal, label, kind='obligation'):
        n = path.ghost.setdefault('oblno', {})
        n[label] = n.get(label, 0) + 1
        key = (tuple(path.taken), label, n[label])
        if key in self.results:
            return self.results[key][0] == 'unsat'
        t = time.time()
        r, m, be = self.check(path, goal)
        dt = time.time() - t
        self.results[key] = (r, kind, be, dt, label)
        if self.opts.get('dump') and r == 'unsat' and be != 'trivial':
            self.dump(path, goal, label)
        if r != 'unsat':
            if self.opts.get('verbose'):
                print('FAILED', label, r, self.where(path), path.taken, file=sys.stderr)
            self.failures.append(Failure(label, 'counterexample' if r == 'sat' else 'not proved (%s)' % r, self.where(path),
                                         self.show_model(path, m)))
        return r == 'unsat'

    def dump(self, path, goal, label):
        self.dumped = getattr(self, 'dumped', [])
        self.dump_no = getattr(self, 'dump_no', {})
        n = self.dump_no[label] = self.dump_no.get(label, 0) + 1
        if n > 4 or len(self.dumped) >= 150:
            return
        s = z3.Solver()
        s.add(*path.pc)
        s.add(*path.qfacts)
        s.add(z3.Not(zbool(goal)))
        self.dumped.append((label, s.to_smt2()))

    def show_model(self, path, m):
        if m is None:
            return None
        out = {}
        try:
            for d in m.decls()[:60]:
                if d.arity() == 0:
                    out[d.name()] = str(m[d])
        except Exception:
            pass
        show = getattr(self.c, 'show', None)
        if show:
            try:
                out['args'] = show(self.ctx, m)
            except Exception:
                pass
        return out

    # ---- loop invariants
    def visible(self, ip, fr):
        """variables in scope of a loop: (frame number, name) -> value"""
        out = {}
        for i, f in enumerate(ip.frames):
            for nm, v in f.vars.items():
                out[(i, nm)] = v
        return out

    def type_ok(self, v, t):
        if '|' in t:
            return any(self.type_ok(v, x) for x in t.split('|'))
        if t == 'int':
            return is_int(v)
        if t == 'bool':
            return isinstance(v, bool) or is_sbool(v)
        if t == 'bytes':
            return isinstance(v, (bytes, SBytes))
        if t == 'list':
            return isinstance(v, SList)
        if t == 'any':
            return v is not UNDEF
        if t == 'bytearray':
            return isinstance(v, bm.SByteArray)
        cls = self.c.role_types.get(t) if hasattr(self.c, 'role_types') else None
        if cls is not None:
            return isinstance(v, cls)
        return False

    def get_bind(self, ip, b):
        i, nm = b
        if i >= len(ip.frames):
            return UNDEF
        v = ip.frames[i].vars.get(nm, UNDEF)
        if isinstance(v, LazyVar):
            v = ip.resolve_lazy(ip.frames[i], nm)
        return v

    def instantiate(self, ip, ls, fr):
        vis = self.visible(ip, fr)
        fi = ip.frames.index(fr)
        for inv in self.c.invs:
            if not inv.roles:
                self.add_cand(ls, inv, ())
                continue
            if self.mode == 'hints':
                for h in inv.hints:
                    b = []
                    for nm in h:
                        for i in range(fi, -1, -1):
                            if nm == '$it':
                                its = [k[1] for k in vis if k[0] == i and k[1].startswith('$it')]
                                if its:
                                    b.append((i, its[-1]))
                                    break
                                continue
                            if (i, nm) in vis:
                                b.append((i, nm))
                                break
                            al = self.alias(ip.frames[i]).get(nm)
                            if al and (i, al) in vis:
                                b.append((i, al))
                                break
                    if len(b) == len(h):
                        self.add_cand(ls, inv, tuple(b))
            else:
                choices = []
                for nm, t in inv.roles:
                    its = [k for k in vis if k[0] == fi and k[1].startswith('$it')] if nm == '$it' else []
                    dead = getattr(ls, 'dead', ())
                    # a role $it is the number of iterations so far, where the loop has one
                    choices.append(its or [k for k, v in vis.items() if (self.type_ok(v, t) or v is UNDEF or isinstance(v, LazyVar)) and not (k[0] == fi and k[1] in dead)])
                n = 1
                for ch in choices:
                    n *= max(1, len(ch))
                if n > 3000:
                    continue
                for b in itertools.product(*choices):
                    if len(set(b)) == len(b):
                        self.add_cand(ls, inv, b)

    def alias(self, fr):
        node = fr.node
        if not isinstance(node, ast.FunctionDef):
            return {}
        r = getattr(node, '_pyvc_alias', None)
        if r is None:
            from .names import aliases
            r = node._pyvc_alias = aliases(fr.globals.get('__name__', ''), getattr(fr.func, '__qualname__', ''), node)
        return r

    def add_cand(self, ls, inv, b):
        k = (inv.label,) + tuple(b)
        if k not in ls.cands:
            ls.cands[k] = Cand(inv, tuple(b))

    def cand_cond(self, ip, cand, hidden=None):
        vals = []
        for (nm, t), b in zip(cand.inv.roles, cand.bind):
            v = self.get_bind(ip, b)
            if not self.type_ok(v, t):
                return True
            vals.append(v)
        try:
            r = cand.inv.fn(self.ctx, *vals)
        except (Unsupported, AttributeError, TypeError, z3.Z3Exception):
            return True if False else None
        return r

    def inv_check(self, ip, ls, fr, hidden, where):
        p = ip.p
        if where == 'entry':
            self.instantiate(ip, ls, fr)
        if not self.c.scoped:
            return self.inv_show(ip, ls, where)
        # which values they are about is decided before
        for cd in list(ls.cands.values()):
            if cd.alive and not cd.inv.measure:
                for (nm, t), b in zip(cd.inv.roles, cd.bind):
                    if not self.type_ok(self.get_bind(ip, b), t):
                        break
        key = (tuple(p.taken), 'inv', str(ls.key), where, len(p.pc), 'all')
        alive = sorted(str(cd.id) for cd in ls.cands.values() if cd.alive)
        if self.results.get(key, (0,) * 5)[4] == alive:
            return
        sc = p.scope()
        try:
            self.inv_show(ip, ls, where)
        finally:
            p.unscope(sc)
        if alive == sorted(str(cd.id) for cd in ls.cands.values() if cd.alive):
            self.results[key] = ('unsat', 'group', '', 0, alive)

    def inv_show(self, ip, ls, where):
        p = ip.p
        todo = []
        for cd in list(ls.cands.values()):
            if cd.alive and not cd.inv.measure:
                r = self.cand_cond(ip, cd)
                if r is None:
                    cd.alive = False
                    self.dropped += 1
                    continue
                r = concb(r)
                if r is True:
                    continue
                todo.append((cd, r))
        key = (tuple(p.taken), 'inv', str(ls.key), where, len(p.pc))
        if not todo:
            return
        while todo:
            goal = And(*[r for _, r in todo])
            t = time.time()
            # cached only if all alive candidates of this point were proved before
            ck = key + tuple(sorted(str(cd.id) for cd, _ in todo))
            if ck in self.results:
                return
            r, m, be = self.check(p, goal)
            if r == 'unsat':
                for cd, _ in todo:
                    self.results[ck + (str(cd.id),)] = (r, 'invariant', be, (time.time() - t) / len(todo), 'invariant %s %s' % (cd.inv.label, where))
                self.results[ck] = (r, 'group', be, 0, '')
                return
            killed = []
            if r == 'sat' and m is not None:
                for cd, cnd in todo:
                    try:
                        v = m.eval(zbool(cnd), model_completion=True)
                        if z3.is_false(v):
                            killed.append(cd)
                    except z3.Z3Exception:
                        pass
            if not killed:
                for cd, cnd in todo:
                    r1, _, _ = self.check(p, cnd, 6000 if self.mode == 'full' else None)
                    if r1 != 'unsat':
                        killed.append(cd)
                if not killed:
                    # each holds on its own
                    for cd, _ in todo:
                        self.results[ck + (str(cd.id),)] = ('unsat', 'invariant', be, 0, 'invariant %s %s' % (cd.inv.label, where))
                    self.results[ck] = ('unsat', 'group', be, 0, '')
                    return
            for cd in killed:
                if self.opts.get('verbose'):
                    print('  drop %s at %s %s (%s) %s' % (cd.id, ls.key, where, r, p.taken), file=sys.stderr)
                cd.alive = False
                cd.false_at_entry = where == 'entry'
                self.dropped += 1
            todo = [(cd, x) for cd, x in todo if cd.alive]

    def inv_assume(self, ip, ls, fr, hidden):
        self.ctx.assuming = True
        try:
            for cd in list(ls.cands.values()):
                if cd.alive and not cd.inv.measure:
                    r = self.cand_cond(ip, cd)
                    if r is None:
                        continue
                    if r is False and cd.inv.excludes:
                        raise PathEnd('excluded')
                    if r is False:
                        # an invariant about the shape of a value must not rule out the
                        # arbitrary value that stands for all values at the loop head
                        raise Unsupported('invariant %s is false of the arbitrary value' % cd.inv.label)
                    ip.p.fact(zbool(r)) if r is not True else None
        finally:
            self.ctx.assuming = False

    # ---- termination measures
    def measure_at_head(self, ip, ls, fr, hidden):
        ms = {}
        for k, cd in ls.cands.items():
            if cd.alive and cd.inv.measure:
                try:
                    vals = [self.get_bind(ip, b) for b in cd.bind]
                    if all(self.type_ok(v, t) for v, (n, t) in zip(vals, cd.inv.roles)):
                        ms[k] = cd.inv.fn(self.ctx, *vals)
                except (Unsupported, AttributeError, TypeError):
                    pass
        return ms

    def measure_check(self, ip, ls, fr, hidden, m0):
        if hidden:
            return
        if not any(i.measure for i in self.c.invs):
            return
        for k, cd in ls.cands.items():
            if not (cd.alive and cd.inv.measure):
                continue
            ok = False
            if k in m0:
                try:
                    vals = [self.get_bind(ip, b) for b in cd.bind]
                    new = cd.inv.fn(self.ctx, *vals)
                    key = (tuple(ip.p.taken), 'measure', str(k), str(ls.key), len(ip.p.pc))
                    if key in self.results:
                        ok = True
                    else:
                        r, m, be = self.check(ip.p, And(ge(m0[k], 0), lt(new, m0[k])))
                        ok = r == 'unsat'
                        if ok:
                            self.results[key] = (r, 'termination', be, 0, 'loop terminates: %s' % cd.inv.label)
                except (Unsupported, AttributeError, TypeError):
                    ok = False
            if not ok:
                if self.opts.get('verbose'):
                    print('  drop measure %s at %s' % (cd.id, ls.key), file=sys.stderr)
                cd.alive = False
                self.dropped += 1

    def seq_kind(self, ip, v, clock):
        return None

    def fresh_seq(self, ip, k, name):
        raise Unsupported('arbitrary sequence for %s' % name)

    # ---- one exploration of all paths
    def explore(self):
        self.work = [[]]
        self.npaths = self.returns = self.raises = 0
        self.setup_ok = None
        self.results = {}
        self.failures = []
        self.unsupported = []
        for ls in self.loops.values():
            ls.reached = ls.body_reached = 0
        while self.work:
            if time.time() > self.deadline:
                self.unsupported.append(('time budget exceeded', self.where(None)))
                return
            if self.npaths > self.max_paths:
                self.unsupported.append(('too many paths', self.where(None)))
                return
            prefix = self.work.pop()
            self.npaths += 1
            self.path(prefix)
            if len(self.failures) > 40:
                return

    def path(self, prefix):
        p = Path(self, prefix)
        Path.cur = p
        ip = Interp(p, self)
        p.ghost['ip'] = ip
        c = self.ctx = Ctx(self, p, ip)
        self.cur_line = None
        try:
            try:
                args, kw = self.c.setup(c)
            except PathEnd:
                return
            if self.setup_ok is None or self.setup_ok == 'unknown':
                r = p.solver.check()
                self.setup_ok = str(r)
                if r == z3.unsat:
                    if not prefix:
                        self.setup_ok = None
                    return
            f = self.target
            if getattr(self.c, 'yield_contract', False):
                self.yield_all = True
                self.yield_handler = lambda ip, v: self.c.on_yield(c, v)
            try:
                runner = getattr(self.c, 'execute', None)
                if runner:
                    ret = runner(c, args, kw)
                else:
                    ret = ip.run_function(f, args, kw)
            except PyRaise as e:
                self.raises += 1
                for label, cond in self.c.exc(c, e.exc):
                    self.obligation(p, cond, label)
                return
            self.returns += 1
            for label, cond in self.c.post(c, ret):
                self.obligation(p, cond, label)
        except PathEnd:
            return
        except Restart:
            raise
        except Unsupported as e:
            # a path that cannot happen needs no rule
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*p.pc)
            s.add(*p.qfacts)
            if s.check() == z3.unsat:
                return
            if self.opts.get('verbose'):
                print('UNSUPPORTED', e, self.where(p), p.taken, file=sys.stderr)
                if self.opts['verbose'] > 1:
                    traceback.print_exc()
            self.unsupported.append((str(e), self.where(p)))

    def fixpoint(self):
        rounds = 0
        while True:
            rounds += 1
            self.dropped = 0
            alive = {id(cd) for ls in self.loops.values() for cd in ls.cands.values() if cd.alive}
            known = {id(cd) for ls in self.loops.values() for cd in ls.cands.values()}
            if rounds > 200 or time.time() > self.deadline:
                self.unsupported = [('no fixpoint of loop invariants in time', '')]
                self.results = {}
                self.failures = []
                return
            try:
                self.explore()
            except Restart as e:
                if self.opts.get('verbose'):
                    print('-- restart', {str(k): list(v.kinds) for k, v in self.loops.items()} if self.opts['verbose'] > 1 else '', file=sys.stderr)
                # what was dropped while the state a loop changes was not known in full
                # gets another chance
                for ls in self.loops.values():
                    for cd in ls.cands.values():
                        if ls in e.args and cd.false_at_entry:
                            # what a loop changes does not matter before it
                            continue
                        if id(cd) in alive or id(cd) not in known:
                            cd.alive = True
                continue
            if self.dropped == 0:
                return
            if self.unsupported and self.opts.get('fail_fast'):
                return

    def run(self):
        t0 = time.time()
        self.unsupported = []
        self.npaths = self.returns = self.raises = 0
        self.setup_ok = None
        err = None
        try:
            for mode in ('hints', 'full'):
                self.mode = mode
                if mode == 'full':
                    self.deadline = min(self.deadline, time.time() + self.opts.get('full_s', 240))
                self.loops = {}
                self.fixpoint()
                if not self.bad() or not self.c.invs:
                    break
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
            tb = traceback.format_exc()
            if self.opts.get('verbose'):
                print(tb, file=sys.stderr)
            self.unsupported.append(('verifier error: ' + err, self.where(None)))
        return self.report(time.time() - t0)

    def bad(self):
        return bool(self.failures or self.unsupported or not self.vacuity_ok())

    def vacuity_ok(self):
        return (self.returns or self.c.no_return(self.case) and self.raises) and \
            self.setup_ok in ('sat', 'unknown')

    def report(self, wall):
        kinds = {}
        backends = {}
        n = 0
        for k, v in self.results.items():
            if v[1] == 'group':
                continue
            n += 1
            kinds[v[1]] = kinds.get(v[1], 0) + 1
            backends[v[2]] = backends.get(v[2], 0) + 1
        fails = [f.as_dict() for f in self.failures]
        for u, w in self.unsupported:
            fails.append({'obligation': 'every path of %s is covered by the rules' % self.c.target, 'reason': u, 'where': w, 'model': None})
        if not fails and not self.vacuity_ok():
            fails.append({'obligation': 'the contract of %s is not vacuous' % self.c.target, 'reason': 'no path reaches an exit, or the precondition is unsatisfiable', 'where': '', 'model': None})
        # loops need a measure where the contract asks for one
        if not fails and any(i.measure for i in self.c.invs):
            for ls in self.loops.values():
                if ls.body_reached and 'For' != ls.key[3] and not any(cd.alive and cd.inv.measure for cd in ls.cands.values()):
                    fails.append({'obligation': 'loop at %s:%d terminates' % (ls.key[0], ls.key[1]), 'reason': 'no measure decreases', 'where': ls.key[0], 'model': None})
        return {'contract': self.c.name, 'target': self.c.target, 'case': self.case, 'mode': self.mode,
                'obligations': n + len(fails), 'discharged': n - len([v for v in self.results.values() if v[0] != 'unsat' and v[1] != 'group']) if n else 0,
                'kinds': kinds, 'backends': backends, 'failures': fails, 'paths': self.npaths, 'returns': self.returns,
                'raises': self.raises, 'functions': sorted(self.functions), 'contracts_used': sorted(self.contracts_used),
                'solver_s': round(sum(v[1] for v in self.stats.values()), 3), 'wall_s': round(wall, 3),
                'bounded': self.c.bounded, 'assumptions': list(self.c.assumptions),
                'dumped': getattr(self, 'dumped', None)}


def verify(contract, case, registry, opts=None):
    r = Run(contract, case, registry, opts or {})
    return r.run()
