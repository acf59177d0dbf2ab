"""Decide one property:  python3-vt check.py C01

1. verifies every contract that carries a clause of the property, on the
   current source of /repo (pyvc, z3 / cvc5);
2. runs the property's driver against the real code: the search for a
   failing input when an obligation fails, and a bounded cross-check always.
Exit 0: holds on everything explored.  Exit 1: VIOLATION line.
"""
import sys, os, json, time, subprocess, importlib, glob, multiprocessing as mp, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
REPO = os.environ.get('PYVC_REPO', '/repo')
DRIVER_PY = '/opt/venv/bin/python'

_ver = None


def all_contracts():
    out = []
    for fn in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c_*.py'))):
        m = importlib.import_module('contracts.' + os.path.basename(fn)[:-3])
        out.extend(m.CONTRACTS)
    return out


def _init():
    pass


def _verify(args):
    idx, disabled, timeout = args
    global _ver
    try:
        import pyvc.verify as V
        from pyvc import core
        cs = all_contracts()
        if _ver is None:
            _ver = V.Verifier(cs)
            _ver.cs = cs
        _ver.disabled = set(disabled)
        _ver.used = set()
        c = _ver.cs[idx]
        if timeout:
            c.timeout = timeout
        t0 = (core.STATS.z3_time, core.STATS.cvc5_time, core.STATS.z3_calls, core.STATS.cvc5_calls)
        r = _ver.verify(c)
        r['used'] = sorted(_ver.used)
        r['solver_s'] = round(core.STATS.z3_time - t0[0] + core.STATS.cvc5_time - t0[1], 2)
        r['solver_calls'] = core.STATS.z3_calls - t0[2] + core.STATS.cvc5_calls - t0[3]
        return r
    except Exception as e:      # the interpreter could not even load the sources
        return dict(no_answer('#%d' % idx), note='load: %r %s' % (e, traceback.format_exc()[-500:]))


def run_contracts(idxs, disabled, timeout, procs, deadline, label):
    """verify the contracts; what is not decided by the deadline is undecided"""
    if not idxs:
        return []
    ctx = mp.get_context('fork')
    out = []
    with ctx.Pool(min(procs, len(idxs)), _init, maxtasksperchild=20) as pool:
        rs = [(i, pool.apply_async(_verify, ((i, disabled, timeout),))) for i in idxs]
        for i, r in rs:
            try:
                out.append(r.get(max(0.1, deadline - time.time())))
            except mp.TimeoutError:
                out.append(dict(no_answer(label[i]), note='not decided within the time of this check'))
        pool.terminate()
    return out


def no_answer(label):
    return dict(contract=label, target=None, status='unsupported', obligations=0, discharged=0, z3=0, cvc5=0, rewriting=0,
                failed=[], note='', paths=0, trivial=0, used=[], solver_s=0, solver_calls=0, time=0)


class Driver(object):
    def __init__(self, prop, seed, budget, tier):
        self.out = os.path.join(HERE, 'evidence', '.driver-%s-%d.json' % (prop, os.getpid()))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        env['PYVC_REPO'] = REPO
        self.budget = budget
        self.p = subprocess.Popen([DRIVER_PY, os.path.join(HERE, 'drivers', 'run.py'), prop, '--seed', str(seed), '--time', str(budget),
                                   '--tier', tier, '--out', self.out], env=env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def result(self):
        try:
            _, err = self.p.communicate(timeout=self.budget * 2 + 120)
        except subprocess.TimeoutExpired:
            self.p.kill()
            _, err = self.p.communicate()
        try:
            with open(self.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = dict(error='driver ended with %s: %s' % (self.p.returncode, (err or b'').decode('utf-8', 'replace')[-1500:]),
                     evaluations=0, distinct=0, failures=[], samples=[], rule='')
        if os.path.exists(self.out):
            os.remove(self.out)
        return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    budget = float(os.environ.get('PYVC_DRIVER_TIME', 20 if tier == 'quick' else 300))
    has_driver = os.path.exists(os.path.join(HERE, 'drivers', prop.lower() + '.py'))
    drv = Driver(prop, seed, budget, tier) if has_driver else None

    cs = all_contracts()
    mine = [i for i, c in enumerate(cs) if prop in c.props and not getattr(c, 'assumed', False)]
    label = dict((i, c.label()) for i, c in enumerate(cs))
    public = dict((c.label(), c.public) for c in cs)
    procs = int(os.environ.get('PYVC_PROCS', '7'))
    res = run_contracts(mine, [], None if tier == 'quick' else 600, procs, t0 + (480 if tier == 'quick' else 7200), label)
    notes = []
    # a private helper whose own contract no longer holds (or that is gone) is
    # inlined into its callers instead; the public contracts decide
    bad_private = [r['contract'] for r in res if r['status'] in ('failed', 'absent', 'vacuous', 'unsupported') and not public.get(r['contract'], True)]
    if bad_private:
        notes.append('private contracts not met, inlined into their callers: ' + ', '.join(bad_private))
        again = [i for i in mine if label[i] not in bad_private]
        res2 = run_contracts(again, bad_private, None if tier == 'quick' else 600, procs, t0 + (650 if tier == 'quick' else 10800), label)
        priv = [dict(r, demoted=True) for r in res if r['contract'] in bad_private]
        if all(r['status'] == 'proved' for r in res2) and res2:
            res = res2
        else:
            res = res2 + priv
            notes.append('inlining did not prove the callers')

    failed = [r for r in res if r['status'] == 'failed']
    undecided = [r for r in res if r['status'] in ('unsupported', 'vacuous', 'absent')]

    dres = drv.result() if drv else dict(evaluations=0, distinct=0, failures=[], samples=[], rule='no driver')
    # search harder for a failing input if an obligation fails
    if failed and not [f for f in dres['failures']] and drv:
        d2 = Driver(prop, seed + 1000, budget * 3, tier).result()
        for k in ('evaluations', 'distinct'):
            d2[k] = d2.get(k, 0) + dres.get(k, 0)
        if 'error' not in d2:
            dres = d2

    known = load_known(prop)
    viol, kf = [], {}
    for f in dres['failures']:
        if f.get('key') in known:
            kf[f['key']] = f
        else:
            viol.append(f)
    for key, what in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, what))
    code = 0
    if viol:
        f = viol[0]
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, case=f['case'], message=f['msg'], failures=len(viol),
                           failed_obligations=[dict(contract=r['contract'], label=x['label']) for r in failed for x in r['failed']],
                           replay_cmd='PYTHONPATH=%s %s %s %s --replay %s' % (REPO, DRIVER_PY, os.path.join(HERE, 'drivers', 'run.py'), prop, path)), fh, indent=1)
        print('failing input: %s' % f['case'][:600])
        print('  %s' % f['msg'][:1500])
        for r in failed:
            for x in r['failed']:
                print('failed obligation: %s: %s' % (r['contract'], x['label']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif failed:
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, failed=[dict(contract=r['contract'], target=r['target'], obligations=r['failed']) for r in failed]), fh, indent=1)
        for r in failed:
            for x in r['failed']:
                print('failed obligation: %s: %s (%s)' % (r['contract'], x['label'], x['result']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code = 1
    if 'error' in dres:
        print('driver error: ' + dres['error'])
        if code == 0:
            code = 2
    if mine and not any(r['obligations'] for r in res) and code == 0 and not has_driver:
        print('no obligations generated')
        code = 2
    for r in undecided:
        print('undecided by the verifier (bounded check stands in): %s: %s' % (r['contract'], r['note'][:300]))
    ob = sum(r['obligations'] for r in res)
    di = sum(r['discharged'] for r in res)
    print('%s: %d functions/scenarios under contract, %d obligations, %d discharged; driver: %d evaluations, %d distinct; %.1f s' % (
        prop, len([r for r in res if not r.get('demoted')]), ob, di, dres['evaluations'], dres['distinct'], time.time() - t0))
    write_evidence(prop, tier, seed, res, dres, notes, undecided, failed, cs, time.time() - t0, len(viol) + (1 if failed and not viol else 0), known)
    sys.exit(code)


def load_known(prop):
    """findings recorded and not repaired: lines  finding: property=<id> key=<key> <what>"""
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split(' ', 2)[2].strip()
                    key, _, what = rest.partition(' ')
                    out[key.split('=', 1)[1]] = what
    except OSError:
        pass
    return out


def write_evidence(prop, tier, seed, res, dres, notes, undecided, failed, cs, wall, nviol, known):
    import pyvc.trusted as T
    byl = dict((c.label(), c) for c in cs)
    verified = set(r['contract'] for r in res)
    used = sorted(set(u for r in res for u in r.get('used', [])) - verified)
    owners = {}
    for u in used:
        owners[u] = list(byl[u].props)
    ob = sum(r['obligations'] for r in res)
    di = sum(r['discharged'] for r in res)
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd='python3-vt check.py %s' % prop,
        trusted_base=T.BASE + T.FOR.get(prop, []),
        functions_under_contract=[dict(contract=r['contract'], function=r['target'], line=r.get('line'), status=r['status'], obligations=r['obligations'],
                                       discharged=r['discharged'], by_z3=r['z3'], by_cvc5=r['cvc5'], by_rewriting=r['rewriting'], syntactic=r['trivial'],
                                       paths=r['paths'], wall_s=r.get('time'), note=r['note'][:300]) for r in res],
        backends=dict(z3=sum(r['z3'] for r in res), cvc5=sum(r['cvc5'] for r in res), rewriting=sum(r['rewriting'] for r in res), syntactic=sum(r['trivial'] for r in res)),
        solver_s=round(sum(r.get('solver_s', 0) for r in res), 2),
        solver_queries=sum(r.get('solver_calls', 0) for r in res),
        callee_contracts_assumed_here_and_verified_by=owners,
        not_decided_by_proof=[dict(contract=r['contract'], note=r['note'][:300]) for r in undecided],
        failed_obligations=[dict(contract=r['contract'], label=x['label'], result=x['result']) for r in failed for x in r['failed']],
        notes=notes,
        bounded_cross_check=dict(evaluations=dres['evaluations'], distinct_nontrivial=dres['distinct'], rule=dres.get('rule', ''),
                                 samples=dres.get('samples', [])[:3], failures=len(dres['failures']),
                                 label='bounded: random and enumerated inputs on the real code, not counted as proved'),
        known_findings=sorted(known))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, wall_s=round(wall, 2), violations=nviol,
              assumptions=T.ASSUME + T.ASSUME_FOR.get(prop, []))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
