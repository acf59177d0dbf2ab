"""contracts, exploration of a function under its contract, obligations"""
import time, traceback
import os
import z3
from .core import *
from .heap import *
from .engine import *
from . import models as M

SHAPES = {}          # (class qual, attr) -> fn(ctx, obj) -> value
CLASS_SHAPES = {}    # class name -> fn(ctx) -> object


class Ctx(object):
    """what contracts use to build states and state clauses"""

    def __init__(self, ver, interp, path):
        self.ver, self.interp, self.path, self.p = ver, interp, path, path
        self.it = interp

    def int(self, label='n', lo=None):
        v = self.path.fresh('int', label)
        if lo is not None:
            self.path.assume(v.t >= lo)
        return v

    def str(self, label='s'):
        return self.path.fresh('str', label)

    def bytes(self, label='b'):
        return self.path.fresh('bytes', label)

    def bool(self, label='f'):
        return self.path.fresh('bool', label)

    def list(self, ek, label='l'):
        return VList([self.path.new_atom(ek, label)])

    def choose(self, label='choice'):
        return self.path.choose(label)

    def pick(self, *options):
        """one of several values (each is explored); callables are called"""
        for i, o in enumerate(options[:-1]):
            if self.path.choose('pick%d' % i):
                return o() if callable(o) else o
        o = options[-1]
        return o() if callable(o) else o

    def assume(self, *fs):
        for f in fs:
            self.path.assume(f)

    def cls(self, qual):
        return self.interp.lookup_func(qual)

    def obj(self, qual, **attrs):
        return Obj(self.cls(qual), dict(attrs))

    def stream(self, label='in', **kw):
        return M.new_stream(self.interp, label, **kw)

    def call(self, o, name, *args, **kw):
        return self.interp.call(self.interp.getattr(o, name), list(args), kw)

    def prove(self, label, f):
        self.ver.obligation(label, f)

    def attr(self, o, name):
        """attribute value by name (also via class attributes)"""
        return self.interp.getattr(o, name)


class Args(object):
    def __init__(self, d):
        self.__dict__.update(d)


class Contract(object):
    target = None
    props = ()
    public = True
    call_side = True      # callers use the contract; otherwise they inline the function
    name = None
    timeout = 150

    def label(self):
        return self.name or self.target

    def args(self, c):
        return {}

    def pre(self, c, a):
        return ()

    def old(self, c, a):
        return None

    def mods(self, c, a):
        return ()

    def post(self, c, a, o, r):
        return ()

    def raises(self, c, a, o):
        """(class or python exception, condition at call (formula), fn(exc)->clauses)"""
        return ()

    def result(self, c, a, o):
        return None

    def inv(self, c, L, a, o):
        return ()

    def applies(self, c, a):
        return True

    def run(self, c, f, a):
        args = dict(a.__dict__)
        node = f.node.args
        names = [x.arg for x in node.posonlyargs + node.args]
        pos = []
        for n in names:
            if n in args:
                pos.append(args.pop(n))
            else:
                break
        va = args.pop('varargs', ())
        return c.interp.call(f, pos + list(va), args)


class Obligation(object):
    def __init__(self, contract, label, pc, f, trace):
        self.contract, self.label, self.pc, self.f, self.trace = contract, label, pc, f, trace
        self.status = None
        self.backend = None
        self.model = None


class Verifier(object):
    max_depth = 90

    def __init__(self, contracts):
        self.registry = {}
        self.all = contracts
        for c in contracts:
            if c.target and c.call_side:
                self.registry.setdefault(c.target, []).append(c)
        self.loops = {}
        self.work = []
        self.ctx = None
        self.cur = None
        self.root = None
        self.disabled = set()
        self.deadline = None
        self.cur_node = None
        self.used = set()
        self.assumed_calls = set()
        self.frozen = {}
        self.root_func = None
        self.interp = Interp(self)
        self.interp.path = None
        self.interp.load_all()
        self.frozen = self._frozen()

    def _frozen(self):
        seen = {}
        todo = []
        for m in self.interp.modules.values():
            todo.extend(m.ns.values())
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            if isinstance(o, Cls):
                seen[id(o)] = o
                todo.extend(o.ns.values())
            elif isinstance(o, Obj):
                seen[id(o)] = o
                todo.extend(o.attrs.values())
            elif isinstance(o, VDict):
                seen[id(o)] = o
                todo.extend(o.d.values())
            elif isinstance(o, VList):
                seen[id(o)] = o
                todo.extend(s[1] for s in o.segs if isinstance(s, tuple))
        return seen

    # -- hooks of the interpreter
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time limit')

    def cutting(self, node, frame):
        return True

    def shape_for(self, interp, obj, attr):
        if isinstance(obj.cls, Cls):
            for k in obj.cls.mro():
                if isinstance(k, Cls) and (k.qual, attr) in SHAPES:
                    return SHAPES[(k.qual, attr)]
        return None

    def class_shape(self, name):
        return CLASS_SHAPES.get(name)

    def contract_for(self, f):
        if f is self.root_func:
            self.root_func = None
            return None
        for c in self.registry.get(f.qual, ()):
            if c.label() not in self.disabled:
                return self.registry[f.qual]
        return None

    def apply_contract(self, cs, f, args, kwargs):
        it = self.interp
        fr = it.bind(f, args, kwargs)
        a = Args(fr.locals)
        ctx = self.ctx
        for c in cs:
            if c.label() in self.disabled or self.cur.label() in getattr(c, 'inline_in', ()):
                continue
            try:
                if not c.applies(ctx, a):
                    continue
            except (AttributeError, KeyError):
                continue
            return self.apply(c, f, a)
        return NotImplemented

    def apply(self, c, f, a):
        ctx, p, it = self.ctx, self.ctx.path, self.interp
        self.used.add(c.label())
        for label, g in c.pre(ctx, a):
            self.obligation('call %s: %s' % (f.qual, label), g)
            p.assume(g)
        o = c.old(ctx, a)
        for exc, cond, clauses in c.raises(ctx, a, o):
            if p.decide(And(cond, p.fresh('bool', 'raises').t)):
                for (ob, attr, sh) in c.mods(ctx, a):
                    self.havoc(ob, attr, sh)
                e = it.make_exc(exc) if not isinstance(exc, Cls) else Obj(exc, {'args': (ctx.str('msg'),)})
                if clauses is not None:
                    for label, g in clauses(e):
                        p.assume(g)
                raise PyRaise(e)
        for (ob, attr, sh) in c.mods(ctx, a):
            self.havoc(ob, attr, sh)
        r = c.result(ctx, a, o)
        for label, g in c.post(ctx, a, o, r):
            p.assume(g)
        return r

    def havoc(self, ob, attr, sh):
        v = sh(self.ctx, ob) if callable(sh) else sh
        if attr == '*':
            ob.segs = v.segs
        else:
            ob.attrs[attr] = v
        self.interp.record(ob, attr)

    # -- obligations
    def obligation(self, label, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if isinstance(f, S):
            f = f.t
        self.obls.append(Obligation(self.cur, label, list(self.ctx.path.pc), f, list(self.ctx.path.trace)))

    def prove_now(self, f):
        if isinstance(f, bool):
            return f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            f = z3.BoolVal(False)
        r, be, m = check(self.ctx.path.pc + [Not(f)], rlimit=1500000, cvc5=False)
        if r == 'unknown':
            r, be, m = check(self.ctx.path.pc + [Not(f)], rlimit=1500000, cvc5=True)
        return r == 'unsat'

    # -- loop candidates
    def cands(self, view, at=None):
        out = []
        seen = set()
        view.c = self.ctx
        try:
            for x in self.cur.inv(self.ctx, view, self.cur_args, self.cur_old):
                out.append(x)
        except Unsupported as e:
            if 'decision log' in str(e):
                raise
        for n, v in view.roles('int'):
            out.append(('fact', 'int>=0 ' + n, (lambda v=v: v.t >= 0 if isinstance(v, S) else z3.BoolVal(v >= 0))))
        for ap, attr, v in self.mod_scalars(view):
            out.append(('conserve', 'same %s.%s' % (ap, attr), (lambda v=v: term(v))))
        for ap, attr, v in self.mod_scalars(view, True):
            out.append(('conserve', 'none or not %s.%s' % (ap, attr), z3.BoolVal(v is None)))
        res = []
        for k, label, f in out:
            if label in seen or label in view.info.dead:
                continue
            seen.add(label)
            try:
                t = f() if callable(f) else f
            except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
                if 'decision log' in str(e):
                    raise
                continue
            if t is None:
                continue
            if k == 'list':
                res.append((k, label, t))
                continue
            if k == 'check':
                if at:
                    self.obligation('loop %s: %s' % (at, label), t)
                continue
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            if isinstance(t, S):
                t = t.t
            res.append((k, label, t))
        return res

    def list_form(self, t):
        lst, segs = t
        return self.ctx.path.rope_eq(lst.segs, segs)

    def mod_scalars(self, view, none=False):
        paths = self.interp.access_paths()
        out = []
        for (ap, attr) in sorted(view.info.mods, key=str):
            o = self.interp.resolve(ap, paths)
            v = None
            if isinstance(o, Frame):
                v = o.locals.get(attr)
            elif isinstance(o, Obj):
                v = o.attrs.get(attr)
            if none:
                if 'none' in view.info.mods[(ap, attr)] and not isinstance(v, Junk):
                    out.append((ap, attr, v))
            elif kind(v) in SORT:
                out.append((ap, attr, v))
        return out

    def cand_entry(self, view, at):
        view.entry = {}
        bad = False
        for k, label, t in self.cands(view, 'entry'):
            if k == 'conserve':
                view.entry[label] = t
            elif self.prove_now(self.list_form(t) if k == 'list' else t):
                view.entry[label] = True
            else:
                view.info.dead.add(label)
                bad = True
        if bad:
            # replays have to see the same candidates
            raise Restart('candidate')

    def cand_assume(self, view):
        view.head = set()
        formed = set()
        for k, label, t in sorted(self.cands(view), key=lambda x: x[0] != 'list'):
            if label not in view.entry:
                continue
            if k == 'list':
                if id(t[0]) in formed:
                    continue
                formed.add(id(t[0]))
                t[0].segs = list(t[1])
                view.head.add(label)
                continue
            if k == 'conserve':
                e = view.entry[label]
                if e.sort() != t.sort():
                    continue
                self.ctx.path.assume(e == t)
            else:
                self.ctx.path.assume(t)
            view.head.add(label)

    def cand_back(self, view):
        bad = False
        got = set()
        for k, label, t in self.cands(view, 'end'):
            got.add(label)
            if label not in view.head:
                continue
            if k == 'list':
                t = self.list_form(t)
            f = (view.entry[label] == t) if k == 'conserve' else t
            if k == 'conserve' and view.entry[label].eq(t):
                continue
            if not self.prove_now(f):
                if DEBUG:
                    print('  drop', view.key[:3], label)
                    import os
                    if os.environ.get('PYVC_DROP') in (label, '%s:%s' % (view.key[1], label)):
                        print(check(self.ctx.path.pc + [Not(f)], rlimit=3000000)[0], f)
                        memo={}
                        from .core import abstracted as AB, is_hard
                        for g in [x for x in AB(self.ctx.path.pc+[Not(f)]) if not is_hard(x,memo)]:
                            print('     ', g)
                        r, be, m = check(self.ctx.path.pc + [Not(f)], want_model=True)
                        print(m)
                        raise SystemExit
                view.info.dead.add(label)
                bad = True
        for label in view.head - got:
            view.info.dead.add(label)
            bad = True
        if bad:
            raise Restart('candidate')

    # -- exploration
    def reach(self):
        paths = {}
        todo = [('arg ' + n, v) for n, v in sorted(self.cur_args.__dict__.items())] + \
               [('ghost ' + n, v) for n, v in sorted(self.ctx.path.ghost.items())]
        while todo:
            ap, o = todo.pop(0)
            if isinstance(o, (Obj, VList, VDict)):
                if id(o) in paths:
                    continue
                if isinstance(o, Obj):
                    paths[id(o)] = (ap, o, dict(o.attrs))
                    todo.extend(('%s.%s' % (ap, k), v) for k, v in o.attrs.items())
                elif isinstance(o, VList):
                    paths[id(o)] = (ap, o, list(o.segs))
                    todo.extend(('%s[%d]' % (ap, i), s[1]) for i, s in enumerate(o.segs) if isinstance(s, tuple))
                else:
                    paths[id(o)] = (ap, o, dict(o.d))
                    todo.extend(('%s[%s]' % (ap, k), v) for k, v in o.d.items())
            elif isinstance(o, tuple):
                todo.extend((ap, x) for x in o)
        return paths

    def run_path(self, dec):
        c = self.cur
        p = Path(self, dec)
        self.interp.path = p
        self.interp.stack = []
        self.ctx = Ctx(self, self.interp, p)
        ctx = self.ctx
        self.root_func = None
        a = Args(c.args(ctx))
        self.cur_args, self.cur_old = a, None
        f = self.interp.lookup_func(c.target) if c.target else None
        if isinstance(f, (PropV,)):
            f = f.fget
        for label, g in c.pre(ctx, a):
            p.assume(g)
        o = c.old(ctx, a)
        self.cur_old = o
        snap = self.reach()
        wstart = len(p.writes)
        mods = list(c.mods(ctx, a))
        allowed = set((id(ob), attr) for ob, attr, sh in mods)
        self.root_func = f
        try:
            r = c.run(ctx, f, a)
            exc = None
        except PyRaise as e:
            exc = e.value
            r = None
        self.root_func = None
        if exc is not None:
            ok = []
            for cls, cond, clauses in c.raises(ctx, a, o):
                if self.interp.issub(self.interp.class_of(exc), cls):
                    ok.append(cond)
                    if clauses is not None:
                        for label, g in clauses(exc):
                            self.obligation(label, g)
            self.obligation('raises %s only where allowed' % cls_name(self.interp.class_of(exc)),
                            Or(*ok) if ok else z3.BoolVal(False))
        else:
            for label, g in c.post(ctx, a, o, r):
                self.obligation(label, g)
            self.normal += 1
        # frame
        if not getattr(c, 'no_frame', False):
            done = set()
            for ob, attr in p.writes[wstart:]:
                if id(ob) in snap and (id(ob), attr) not in allowed and (id(ob), '**') not in allowed and (id(ob), attr) not in done:
                    done.add((id(ob), attr))
                    ap, _, was = snap[id(ob)]
                    if isinstance(ob, Obj):
                        if attr not in was:
                            f = z3.BoolVal(attr not in ob.attrs)
                        elif attr not in ob.attrs:
                            f = z3.BoolVal(False)
                        else:
                            f = self.interp.eq_formula(was[attr], ob.attrs[attr])
                        self.obligation('frame: %s.%s unchanged' % (ap, attr), f)
                    elif isinstance(ob, VList):
                        self.obligation('frame: %s unchanged' % ap, p.rope_eq(was, ob.segs))
                    elif isinstance(ob, VDict):
                        self.obligation('frame: %s unchanged' % ap, z3.BoolVal(list(was) == list(ob.d) and all(was[k] is ob.d[k] for k in was)))
        self.end_pcs.append(list(p.pc))

    def explore(self, c):
        self.cur = c
        self.loops = {}
        self.deadline = time.time() + c.timeout
        rounds = 0
        while True:
            rounds += 1
            if rounds > 120:
                raise Unsupported('loop information does not stabilize')
            self.obls = []
            self.end_pcs = []
            self.normal = 0
            self.paths = 0
            self.work = [[]]
            try:
                while self.work:
                    d = self.work.pop()
                    self.paths += 1
                    try:
                        self.run_path(d)
                    except PathEnd:
                        pass
            except Restart:
                continue
            break
        return self.obls

    def verify(self, c, want_model=True):
        t0 = time.time()
        res = dict(contract=c.label(), target=c.target, status='proved', obligations=0, discharged=0, z3=0, cvc5=0, rewriting=0,
                   failed=[], note='', paths=0, trivial=0, line=None)
        try:
            f = self.interp.lookup_func(c.target) if c.target else None
            if f is not None:
                f0 = f.f if isinstance(f, (CtxFunc, StaticV, ClassMV)) else f
                res['line'] = getattr(getattr(f0, 'node', None), 'lineno', None)
        except (KeyError, AttributeError):
            res['status'] = 'absent'
            res['note'] = 'no function %s' % c.target
            return res
        try:
            if not c.target and not hasattr(c, 'run'):
                raise Unsupported('nothing to run')
            obls = self.explore(c)
            res['paths'] = self.paths
            if not obls:
                res['status'] = 'unsupported'
                res['note'] = 'no obligations generated'
                return res
            # vacuity: some path must reach its end under satisfiable assumptions
            live = any(check(pc, rlimit=400000)[0] != 'unsat' for pc in self.end_pcs[:40])
            if not live or (not self.normal and not getattr(c, 'only_raises', False)):
                res['status'] = 'vacuous'
                res['note'] = 'no path reaches the end of the function'
                return res
            self.deadline = time.time() + c.timeout
            groups = {}
            for ob in obls:
                self.tick()
                res['obligations'] += 1
                f = ob.f
                if z3.is_true(f):
                    res['discharged'] += 1
                    res['trivial'] += 1
                    continue
                r, be, m = check(ob.pc + [Not(f)], cvc5=True)
                if r == 'unsat':
                    res['discharged'] += 1
                    res[be] += 1
                else:
                    mod = ''
                    if os.environ.get('PYVC_PC'):
                        for g in ob.pc:
                            print('   pc', str(g).replace('\n', ' '))
                    if r == 'sat' and want_model:
                        r2, be2, m = check(ob.pc + [Not(f)], want_model=True)
                        if m is not None:
                            mod = model_text(m)
                    res['failed'].append(dict(label=ob.label, result=r, formula=str(f)[:1500], model=mod, trace=str(ob.trace)[:500]))
                    if len(res['failed']) >= 5:
                        break
            if res['failed']:
                res['status'] = 'failed'
        except Unsupported as e:
            res['status'] = 'unsupported'
            res['note'] = str(e)
            if DEBUG:
                res['note'] += traceback.format_exc()
        except PyRaise as e:
            res['status'] = 'unsupported'
            res['note'] = 'exception in contract: %r' % (e.value,)
        except Exception as e:
            if DEBUG:
                raise
            res['status'] = 'unsupported'
            res['note'] = 'engine: %r %s' % (e, traceback.format_exc()[-800:])
        res['time'] = round(time.time() - t0, 2)
        return res


DEBUG = bool(os.environ.get('PYVC_DEBUG'))


def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), m[d]))
    return '; '.join(sorted(out))[:3000]
