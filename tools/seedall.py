"""run the check of every planted bug (or those named) on a copy with the bug; results into tools/seed_results.json"""
import json, os, subprocess, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(HERE, 'tools', 'seed_results.json')
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for n in ids:
    prop = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))['property']
    w = '/tmp/seedall-' + n
    subprocess.run('rm -rf %s; cp -a /repo %s; cd %s; git apply %s/seeded/%s/patch.diff' % (w, w, w, HERE, n), shell=True, check=True)
    r = subprocess.run(['python3-vt', 'check.py', prop], cwd=HERE, env=dict(os.environ, PYVC_REPO=w), capture_output=True, text=True)
    subprocess.run(['rm', '-rf', w])
    vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    res = 'MISSED' if r.returncode == 0 else 'error' if r.returncode != 1 else ('by proof' if 'failed obligation:' in r.stdout or any('no-failing' in v for v in vs) else 'by driver')
    if r.returncode == 1 and not all('no-failing-input-found' in v for v in vs):
        res += ', with input'
    print(n, prop, res, flush=True)
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[n] = res
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
