#!/usr/bin/env python3
"""replay.py FILE : run the failing input of a replay file against the real code"""
import sys
sys.dont_write_bytecode = True
import os
SRC = os.environ.get('GITDB_SRC', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, SRC, '/opt/venv/lib/python3.12/site-packages']
import importlib
import json
import shutil
import tempfile
from pyvc import driver

r = json.load(open(sys.argv[1]))
for f in r['failed_obligations']:
    print('failed obligation:', f['contract'], '|', f['obligation'], '|', f['reason'], '|', f['where'])
fi = r['failing_input']
if not fi:
    print('no failing input is recorded')
    sys.exit(1 if r['failed_obligations'] else 0)
mod = importlib.import_module('drivers.' + r['property'].lower())
d = tempfile.mkdtemp(prefix='gitdbreplay-')
pid = os.fork()
if pid == 0:
    driver.drop_privileges(d)
    os.chdir(d)
    tempfile.tempdir = d
    why = driver.run_case(mod, fi['check'], driver.dec(fi['inputs']))
    print('input:', json.dumps(fi['inputs'])[:2000])
    print('still fails: %s' % why if why else 'does not fail any more')
    sys.stdout.flush()
    os._exit(1 if why else 0)
_, st = os.waitpid(pid, 0)
shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if st else 0)
