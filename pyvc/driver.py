"""Concrete replay of properties against the real code.

A driver module has CHECKS: name -> function(**inputs) that raises AssertionError (or lets an
exception of the code through) when the property does not hold for these inputs, and gen(env)
yielding (name, inputs).  The drivers decide nothing about the properties: they turn a failed
obligation into an input that fails on the real code, and guard the machinery against its own
mistakes."""
import ast
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASE_TIMEOUT = 25


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {'hex': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    return v


def dec(v):
    if isinstance(v, dict):
        if set(v) == {'hex'}:
            return bytes.fromhex(v['hex'])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


class Env:
    def __init__(self, seed, tier, budget_s, hints=(), src='/repo'):
        self.seed, self.tier, self.budget_s, self.src = seed, tier, budget_s, src
        self.rng = random.Random(seed)
        self.hints = list(hints)
        self.deadline = time.time() + budget_s

    def time_left(self):
        return time.time() < self.deadline

    def constants(self, files, limit=1 << 24):
        """integers occurring in the current source: sizes at which behaviour may change"""
        out = set()
        for f in files:
            try:
                t = ast.parse(open(os.path.join(self.src, f), encoding='utf-8').read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                    out.add(n.value)
                if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        v = eval(compile(ast.Expression(n), 'c', 'eval'))
                        if isinstance(v, int):
                            out.add(v)
                    except Exception:
                        pass
        for h in self.hints:
            out.add(h)
        out |= {x + d for x in list(out) for d in (-1, 1)}
        return sorted(x for x in out if 0 <= x <= limit)

    def rbytes(self, n):
        return self.rng.randbytes(n)


def run_case(mod, name, kw):
    """None, or the reason why the property fails on these inputs"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        mod.CHECKS[name](**kw)
        return None
    except Hang:
        return 'did not finish within %d s' % CASE_TIMEOUT
    except AssertionError as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        return '%s [%s:%d]' % (e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    except MemoryError:
        return 'out of memory'
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_exc().splitlines(True)[-6:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def drop_privileges(scratch):
    """the code under test runs as nobody: it can only damage the scratch directory"""
    try:
        if os.getuid() == 0:
            os.chown(scratch, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    except OSError:
        pass


def release_maps():
    """thousands of cases in one process: give files mapped by earlier ones back"""
    try:
        import gitdb.util
        gitdb.util.mman.collect()
    except Exception:
        pass


def run_driver(mod, env):
    t0 = time.time()
    seen = set()
    n = 0
    fails = []
    samples = []
    kinds = {}
    gen = mod.gen(env)
    while True:
        try:
            name, kw = next(gen)
        except StopIteration:
            break
        n += 1
        js = json.dumps([name, enc(kw)], sort_keys=True)
        seen.add(hash(js))
        kinds[name] = kinds.get(name, 0) + 1
        if len(samples) < 12 and kinds[name] <= 3:
            samples.append(js[:300])
        why = run_case(mod, name, kw)
        if n % 100 == 0:
            release_maps()
        if why is not None:
            fails.append({'check': name, 'inputs': json.loads(js)[1], 'why': why})
            break
        if not env.time_left():
            break
    return {'evaluations': n, 'distinct': len(seen), 'failures': fails, 'samples': samples, 'kinds': kinds,
            'wall_s': round(time.time() - t0, 2)}


def child(prop, seed, tier, budget_s, hints, src, out):
    """entry point of the driver process"""
    import importlib
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    scratch = tempfile.mkdtemp(prefix='gitdbchk-')
    res = None
    try:
        mod = importlib.import_module('drivers.' + prop.lower())
        os.chmod(scratch, 0o700)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fo = open(out, 'w')
                drop_privileges(scratch)
                os.chdir(scratch)
                os.environ['HOME'] = scratch
                tempfile.tempdir = scratch
                sys.stdout = sys.stderr = open(os.devnull, 'w')
                env = Env(seed, tier, budget_s, hints, src)
                res = run_driver(mod, env)
                json.dump(res, fo)
                fo.close()
                code = 0
            except BaseException:
                try:
                    json.dump({'error': traceback.format_exc()}, fo)
                    fo.close()
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.waitpid(pid, 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
