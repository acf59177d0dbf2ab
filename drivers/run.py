"""run a property driver against the real code (bounded: random + enumerated cases)

A driver module has RULE, gen(rng, tier) -> cases (python literals) and
check(case) -> None, or a message, or (finding key, message)."""
import sys, os, json, time, random, argparse, importlib, signal, traceback, ast, resource, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def one(mod, case, limit=20):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except Hang:
        return 'does not terminate within %d s' % limit
    except MemoryError:
        return 'runs out of memory'
    except RecursionError as e:
        return 'RecursionError ' + traceback.format_exc()[-600:]
    except AssertionError as e:
        return 'assertion: %s\n%s' % (e, traceback.format_exc()[-900:])
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=10)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    scratch = tempfile.mkdtemp(prefix='verif-driver-')
    os.chdir(scratch)
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    try:
        return run(a)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def run(a):
    import io
    err = sys.stderr
    out = dict(evaluations=0, distinct=0, failures=[], samples=[], rule='')
    try:
        mod = importlib.import_module(a.prop.lower())
    except Exception as e:
        # the code under test does not import: that breaks every property
        out['failures'].append(dict(case='import', msg='import fails: %s' % traceback.format_exc()[-1200:]))
        out['evaluations'] = 1
        if a.out:
            json.dump(out, open(a.out, 'w'))
        return 1
    out['rule'] = mod.RULE
    if a.replay:
        rp = json.load(open(a.replay))
        r = one(mod, ast.literal_eval(rp['case']))
        print('replay: %s' % (r or 'holds'))
        return 1 if r else 0
    rng = random.Random(a.seed)
    t0 = time.time()
    seen = set()
    keys = {}
    nf = 0
    real_err, sys.stderr = sys.stderr, io.StringIO()
    for case in mod.gen(rng, a.tier):
        if time.time() - t0 > a.time:
            break
        text = repr(case)
        out['evaluations'] += 1
        seen.add(hash(text))
        r = one(mod, case)
        if len(out['samples']) < 3 or (out['evaluations'] in (50, 500)):
            out['samples'].append(text[:400])
        if out['evaluations'] % 200 == 0:
            sys.stderr = io.StringIO()
        if r:
            key = None
            if isinstance(r, tuple):
                key, r = r
            if key is not None:
                if key in keys:
                    continue
                keys[key] = 1
            else:
                nf += 1
            out['failures'].append(dict(case=text, msg=str(r)[:3000], key=key))
            if nf >= 5:
                break
    sys.stderr = real_err
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f)
    else:
        print(json.dumps(dict(out, samples=out['samples'][:2]), indent=1)[:4000])
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
