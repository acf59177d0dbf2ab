import sys, time, json
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath("tools/t.py")))); sys.path.append('/opt/venv/lib/python3.12/site-packages')
import pyvc.verify as V, importlib
if '-d' in sys.argv: V.DEBUG=True; sys.argv.remove('-d')
mod = importlib.import_module('contracts.'+sys.argv[1])
t=time.time()
ver = V.Verifier(mod.CONTRACTS + getattr(mod,'IMPORTS',[]))
print('load', time.time()-t)
for c in mod.CONTRACTS:
    if len(sys.argv)>2 and sys.argv[2] not in type(c).__name__+' '+c.label() or getattr(c,'assumed',False): continue
    c.timeout = float(os.environ.get('T', c.timeout))
    r = ver.verify(c)
    print(type(c).__name__, r['contract'], r['status'], r['obligations'], r['discharged'], 'z3',r['z3'],'cvc5',r['cvc5'],'triv',r['trivial'],'paths',r['paths'], r.get('time'), r['note'])
    for f in r['failed']: print('   FAILED', f['label'], f['result'], f['formula'][:300] if '-v' in sys.argv else '', f['model'][:500] if '-v' in sys.argv else '')
