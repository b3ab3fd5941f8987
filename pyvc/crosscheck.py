"""Re-check of discharged obligations by a second solver (thorough tier): a sample of the queries z3 found
unsatisfiable, as SMT-LIB text, given to cvc5."""
import concurrent.futures
import hashlib
import os
import subprocess
import tempfile
import time

EACH_S = 10


def one(args):
    label, text, until = args
    if time.time() > until:
        return label, 'skipped'
    fd, p = tempfile.mkstemp(suffix='.smt2', prefix='gitdbvc-')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (EACH_S * 1000), p], capture_output=True, text=True, timeout=EACH_S + 10)
        except subprocess.TimeoutExpired:
            return label, 'unknown'
        out = r.stdout.split()
        return label, out[0] if out and out[0] in ('sat', 'unsat', 'unknown') else 'unknown'
    finally:
        os.unlink(p)


def crosscheck(results, budget_s):
    seen, todo = set(), []
    until = time.time() + budget_s
    for r in results:
        for label, text in r.get('dumped') or ():
            h = hashlib.sha1(text.encode()).digest()
            if h not in seen:
                seen.add(h)
                todo.append(('%s: %s' % (r['contract'], label), text, until))
    todo.sort(key=lambda x: hashlib.sha1(x[1].encode()).digest())
    n = {'unsat': 0, 'unknown': 0, 'sat': 0, 'skipped': 0}
    bad = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for label, res in ex.map(one, todo):
            n[res] += 1
            if res == 'sat':
                bad.append(label)
    return {'back_end': 'cvc5', 'queries': len(todo), 'confirmed': n['unsat'], 'undecided_in_%d_s' % EACH_S: n['unknown'],
            'contradicted': n['sat'], 'not_reached_in_budget': n['skipped'], 'contradictions': bad[:10]}
