import sys, json, importlib
sys.path[:0]=[__import__('os').environ.get('GITDB_SRC','/repo'),'/opt/venv/lib/python3.12/site-packages','/verif']
sys.dont_write_bytecode = True
from pyvc.verify import verify
mod=importlib.import_module('contracts.'+sys.argv[1])
verbose = int(sys.argv[3]) if len(sys.argv)>3 else 0
reg={k.name:k for k in mod.CONTRACTS}
try: reg.update(mod.REGISTRY)
except AttributeError: pass
for k in mod.CONTRACTS:
    if len(sys.argv)>2 and sys.argv[2] not in ('-',) and sys.argv[2] not in k.name: continue
    for case in k.cases[:int(__import__('os').environ.get('NCASES','99'))]:
        r=verify(k,case,reg,{'verbose':verbose,'budget_s':int(__import__('os').environ.get('BUDGET','120'))})
        fl=r.pop('failures'); 
        print(r['contract'],r['case'],r['mode'],'obl',r['obligations'],'disch',r['discharged'],'paths',r['paths'],'ret',r['returns'],'raise',r['raises'],'wall',r['wall_s'])
        seen=set()
        for f in fl:
            if (f['obligation'],f['reason']) in seen or len(seen)>6: continue
            seen.add((f['obligation'],f['reason']))
            print('   FAIL',f['obligation'],'|',f['reason'],'|',f['where'], str(f['model'])[:600] if verbose>0 else '')
