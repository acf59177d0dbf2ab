"""python3 tools/mkseed.py FILE: makes seeded/<id>/ from the entries in FILE
(a python literal list of dicts: id, property, file, old, new (or edits), needs, breaks, demo)"""
import sys, os, json, subprocess, tempfile, shutil, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['cp', '-a', '/repo/.', w])
    for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # changed lines that are not of the original repository
    for f in set(e[0] for e in s.get('edits') or [(s['file'],)]):
        bl = subprocess.check_output(['git', '-C', w, 'blame', '-s', 'HEAD', '--', f], text=True).split('\n')
        cur = 0
        for line in diff.split('\n'):
            if line.startswith('@@'):
                cur = int(line.split()[1][1:].split(',')[0]) - 1
            elif line.startswith('-') and not line.startswith('---'):
                h = bl[cur].split()[0]
                if not BASE.startswith(h.lstrip('^')):
                    print(s['id'], 'line changed by own commit:', bl[cur][:100])
                cur += 1
            elif line.startswith(' '):
                cur += 1
    shutil.rmtree(w)
    print(s['id'], len(diff))
