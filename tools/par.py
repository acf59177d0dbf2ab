"""run the contracts of one module (or those whose label contains a text) in parallel: par.py c_x [text] [-v]"""
import sys, os, time, multiprocessing as mp, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
mod = importlib.import_module('contracts.' + sys.argv[1])
v = '-v' in sys.argv
txt = [x for x in sys.argv[2:] if not x.startswith('-')]
cs = check.all_contracts()
mine = [i for i, c in enumerate(cs) if type(c).__module__ == mod.__name__ and not getattr(c, 'assumed', False) and (not txt or txt[0] in type(c).__name__ + ' ' + c.label())]
to = float(os.environ['T']) if 'T' in os.environ else None
t0 = time.time()
with mp.get_context('fork').Pool(min(7, len(mine)), maxtasksperchild=20) as pool:
    for r in pool.imap(check._verify, [(i, [], to) for i in mine], chunksize=1):
        print(r['contract'], r['status'], r['obligations'], r['discharged'], 'z3', r['z3'], 'cvc5', r['cvc5'], 'triv', r['trivial'], 'paths', r['paths'], r.get('time'), r["note"][-2500 if v else -300:], flush=True)
        for f in r['failed']:
            print('   FAILED', f['label'], f['result'], f['formula'][:1500] if v else '', f['model'][:1500] if v else '', flush=True)
print('%.0f s' % (time.time() - t0))
