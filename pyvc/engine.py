"""symbolic interpreter for the Python subset used by warcio, and loop cutting"""
import ast, os, sys, importlib, builtins, contextlib
import z3
from .core import *
from .heap import *

REPO = os.environ.get('PYVC_REPO', '/repo')


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame(object):
    def __init__(self, func, module, closure=None):
        self.locals = {}
        self.func = func
        self.module = module
        self.closure = closure
        self.globals_decl = set()
        self.nonlocals = set()


class Path(object):
    """one execution path: path condition, decisions, fresh names"""

    def __init__(self, ver, decisions):
        self.ver = ver
        self.pc = []
        self.dec = list(decisions)
        self.di = 0
        self.n = 0
        self.writes = []
        self.splits = {}       # atom term id -> (Atom, [(index term, elem)])
        self.homs_used = {}    # (hom name, key ids) -> (hom, keys, {atom id: atom})
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', FEAS_RLIMIT)
        self.solver.set('timeout', 3000)
        self.ghost = {}
        self.derived = {}
        self.deadline = None

    # -- facts
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = term(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd('assumed false')
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)
        self.solver.add(f)

    def fresh(self, k, label=''):
        self.n += 1
        return S(k, z3.Const('%s!%d' % (label or k, self.n), SORT[k]))

    def fresh_term(self, sort, label):
        self.n += 1
        return z3.Const('%s!%d' % (label, self.n), sort)

    def fresh_id(self):
        self.n += 1
        return self.n

    def _next_dec(self):
        if self.di < len(self.dec):
            v = self.dec[self.di]
            self.di += 1
            return v
        return None

    def _feasible(self, f, rlimit=FEAS_RLIMIT):
        self.solver.set('rlimit', rlimit)
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        STATS.z3_calls += 1
        return r != z3.unsat

    def query(self, f, rlimit=FEAS_RLIMIT):
        """is f entailed here?  (recorded, so re-executions agree)"""
        f = term(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        d = self._next_dec()
        if d is None:
            d = 'Q1' if not self._feasible(Not(f), rlimit) else 'Q0'
            self.dec.append(d)
            self.di += 1
        if d not in ('Q0', 'Q1'):
            raise Unsupported('decision log mismatch')
        return d == 'Q1'

    def decide(self, f, label=''):
        if isinstance(f, bool):
            return f
        f = term(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        d = self._next_dec()
        if d is None:
            nf = Not(f)
            a = self._feasible(f, 6 * FEAS_RLIMIT)
            b = self._feasible(nf, 6 * FEAS_RLIMIT) if a else True
            if a and b:
                if len(self.dec) > self.ver.max_depth:
                    raise Unsupported('too many decisions')
                self.ver.work.append(self.dec + ['N'])
                d = 'Y'
            elif a:
                d = 'Y'
            else:
                d = 'N'
            self.dec.append(d)
            self.di += 1
        if d not in ('Y', 'N'):
            raise Unsupported('decision log mismatch')
        self.assume(f if d == 'Y' else Not(f))
        if label:
            self.trace.append((label, d))
        return d == 'Y'

    def choose(self, label='choice'):
        """nondeterministic choice"""
        return self.decide(self.fresh('bool', label).t)

    # -- lists
    def new_atom(self, ek, label='list'):
        t = self.fresh_term(LS, label)
        return self.atom(t, ek)

    def atom(self, t, ek):
        a = Atom(t, ek)
        self.assume(fLen(t) >= 0)
        return a

    def elem_at(self, a, i):
        i = term(i)
        if a.ek == 'pair':
            return (S('str', fNthA(a.t, i)), S('str', fNthB(a.t, i)))
        if a.ek in ('str', 'bytes'):
            return S(a.ek, fNthA(a.t, i))
        if a.ek == 'int':
            return S('int', fNthI(a.t, i))
        raise Unsupported('element kind ' + a.ek)

    def seg_len(self, s):
        if isinstance(s, tuple):
            return z3.IntVal(1)
        d = s.t
        return fLen(d)

    def rope_len(self, segs):
        n = 0
        ts = []
        for s in self.norm(segs):
            if isinstance(s, tuple):
                n += 1
            else:
                ts.append(fLen(s.t))
        r = z3.IntVal(n)
        for t in ts:
            r = t if (z3.is_int_value(r) and r.as_long() == 0) else r + t
        return z3.simplify(r) if not ts else r

    def split(self, a, i):
        """register the split of atom a at index i: a = take(a,i) ++ [x] ++ drop(a,i+1)"""
        i = term(i)
        base, lo = self._base(a)
        gi = z3.simplify(lo + i)
        ent = self.splits.setdefault(base.t.get_id(), (base, []))[1]
        for j, x in ent:
            if j.eq(gi):
                return x
        x = self.elem_at(base, gi)
        ent.append((gi, x))
        n = fLen(base.t)
        tk, tk1, dp, dp1 = fTake(base.t, gi), fTake(base.t, z3.simplify(gi + 1)), fDrop(base.t, gi), fDrop(base.t, z3.simplify(gi + 1))
        for f in (fLen(tk) == gi, fLen(tk1) == gi + 1, fLen(dp) == n - gi, fLen(dp1) == n - gi - 1):
            self.assume(f)
        # relate homomorphisms already used
        for key, (h, keys, atoms) in list(self.homs_used.items()):
            if base.t.get_id() in atoms:
                self._hom_split(h, keys, base, gi, x)
        return x

    def _hom_split(self, h, keys, base, gi, x):
        f = lambda t: h.f(t, *keys)
        gi1 = z3.simplify(gi + 1)
        ex = h.elem(x, *keys)
        tk, tk1, dp, dp1 = fTake(base.t, gi), fTake(base.t, gi1), fDrop(base.t, gi), fDrop(base.t, gi1)
        c = h.comb
        self.assume(f(base.t) == c([f(tk), ex, f(dp1)], base=(self, h, keys, [tk, x, dp1])))
        self.assume(f(tk1) == c([f(tk), ex], base=(self, h, keys, [tk, x])))
        self.assume(f(dp) == c([ex, f(dp1)], base=(self, h, keys, [x, dp1])))

    def _base(self, a):
        """(base atom, offset) of take/drop terms of a base list"""
        t = a.t
        if z3.is_app(t) and t.num_args() == 2 and t.decl().name() == 'take':
            b, lo = self._base(Atom(t.arg(0), a.ek))
            return b, lo
        if z3.is_app(t) and t.num_args() == 2 and t.decl().name() == 'drop':
            b, lo = self._base(Atom(t.arg(0), a.ek))
            return b, lo + t.arg(1)
        return a, z3.IntVal(0)

    def norm(self, segs):
        """normal form: expand take/drop atoms at the known splits"""
        out = []
        for s in segs:
            if isinstance(s, tuple):
                out.append(s)
                continue
            t = s.t
            nm = t.decl().name() if z3.is_app(t) else ''
            if nm in ('take', 'drop') and t.num_args() == 2:
                b, idx = Atom(t.arg(0), s.ek), t.arg(1)
                bl = fLen(b.t)
                if nm == 'take':
                    if self.query(idx <= 0):
                        continue
                    if self.query(idx == bl):
                        out.extend(self.norm([b]))
                        continue
                    done = False
                    for j, x in self.splits.get(b.t.get_id(), (None, []))[1]:
                        if idx.eq(j):
                            break
                        if self.query(idx == j + 1):
                            out.extend(self.norm([self.atom(fTake(b.t, j), s.ek)]))
                            out.append(('e', x))
                            done = True
                            break
                    if done:
                        continue
                else:
                    if self.query(idx >= bl):
                        continue
                    if self.query(idx <= 0):
                        out.extend(self.norm([b]))
                        continue
                    done = False
                    for j, x in self.splits.get(b.t.get_id(), (None, []))[1]:
                        if self.query(idx == j):
                            out.append(('e', x))
                            out.extend(self.norm([self.atom(fDrop(b.t, z3.simplify(j + 1)), s.ek)]))
                            done = True
                            break
                    if done:
                        continue
                out.append(s)
                continue
            ent = self.splits.get(t.get_id())
            if ent and ent[1]:
                j, x = ent[1][-1]
                out.extend(self.norm([self.atom(fTake(t, j), s.ek)]))
                out.append(('e', x))
                out.extend(self.norm([self.atom(fDrop(t, z3.simplify(j + 1)), s.ek)]))
                continue
            if self.ver and t.decl().name() in MAPPED and t.num_args() >= 1:
                # derived list  f(base, keys): expand with the base
                inner = self.norm([Atom(t.arg(0), s.ek)])
                if len(inner) != 1 or isinstance(inner[0], tuple) or not inner[0].t.eq(t.arg(0)):
                    keys = [t.arg(i) for i in range(1, t.num_args())]
                    out.extend(MAPPED[t.decl().name()].apply(self, inner, keys))
                    continue
            out.append(s)
        return out

    def hom(self, h, segs, *keys):
        keys = [term(k) for k in keys]
        kid = (h.name,) + tuple(k.get_id() for k in keys)
        ent = self.homs_used.setdefault(kid, (h, keys, {}))[2]
        parts, raw = [], []
        for s in self.norm(segs):
            if isinstance(s, tuple):
                parts.append(h.elem(s[1], *keys))
                raw.append(s[1])
            else:
                base, lo = self._base(s)
                if base.t.get_id() not in ent:
                    ent[base.t.get_id()] = base
                    for j, x in self.splits.get(base.t.get_id(), (None, []))[1]:
                        self._hom_split(h, keys, base, j, x)
                    self.assume(h.f(fTake(base.t, z3.IntVal(0)), *keys) == h.unit)
                    if h.name == 'llen_':
                        pass
                ft = h.f(s.t, *keys)
                if not s.t.eq(base.t) and ('b', s.t.get_id()) not in ent:
                    # a part that is everything or nothing
                    ent[('b', s.t.get_id())] = s
                    bl, fb = fLen(base.t), h.f(base.t, *keys)
                    nm, ix = s.t.decl().name(), s.t.arg(1)
                    if s.t.arg(0).eq(base.t):
                        self.assume(Implies(ix == (bl if nm == 'take' else 0), ft == fb))
                        self.assume(Implies(ix == (0 if nm == 'take' else bl), ft == h.unit))
                parts.append(ft)
                raw.append(s.t)
        return h.comb(parts, base=(self, h, keys, raw)) if parts else h.unit

    def rope_eq(self, a, b):
        """formula: two lists are equal (syntactic structure, equal elements)"""
        a, b = self.norm(a), self.norm(b)
        f = self._rope_eq(a, b)
        if f is not None:
            return f
        drop = lambda segs: [s for s in segs if isinstance(s, tuple) or not self.query(fLen(s.t) == 0)]
        f = self._rope_eq(drop(a), drop(b))
        return f if f is not None else z3.BoolVal(False)

    def _rope_eq(self, a, b):
        if len(a) != len(b):
            return None
        fs = []
        for x, y in zip(a, b):
            if isinstance(x, tuple) != isinstance(y, tuple):
                return None
            if isinstance(x, tuple):
                fs.append(self.ver.interp.eq_formula(x[1], y[1]))
            else:
                fs.append(x.t == y.t if not x.t.eq(y.t) else z3.BoolVal(True))
        return And(*fs)


MAPPED = {}      # name of derived list function -> object with .apply(path, segs, keys)


class MapFn(object):
    """derived list function, homomorphic: on elements given by fn(path, elem, keys) -> segs"""
    def __init__(self, name, fn, keysorts=(), ek=None):
        self.name = name
        self.fn = fn
        self.f = z3.Function(name, LS, *(list(keysorts) + [LS]))
        self.ek = ek
        MAPPED[name] = self

    def apply(self, path, segs, keys):
        out = []
        for s in path.norm(segs):
            if isinstance(s, tuple):
                out.extend(self.fn(path, s[1], keys))
            else:
                out.append(path.atom(self.f(s.t, *keys), self.ek or s.ek))
        return out


# ---------------------------------------------------------------------------
class LoopInfo(object):
    def __init__(self, key):
        self.key = key
        self.mods = {}        # (access path, attr) -> set of kinds
        self.dead = set()
        self.entered = 0
        self.backs = 0


class LoopView(object):
    """what a contract sees of a loop when it proposes invariants"""
    def __init__(self, interp, frame, info, node):
        self.interp = interp
        self.path = interp.path
        self.frame = frame
        self.info = info
        self.node = node
        self.idx = None
        self.done = None       # segs of the iterated list consumed so far
        self.whole = None
        self.c = interp.ver.ctx

    def _mod_locals(self):
        d = len(self.interp.stack) - 1
        out = []
        for (ap, attr) in sorted(self.info.mods, key=str):
            if ap.startswith('F') and '.' not in ap and '[' not in ap:
                fr = self.interp.resolve(ap, {})
                if fr is not None and attr in fr.locals:
                    out.append((ap + '.' + attr, fr.locals[attr]))
        return out

    def roles(self, k, modified=True):
        """locals of kind k that the loop modifies"""
        if modified:
            return [(n, v) for n, v in self._mod_locals() if kind(v) == k]
        return [(n, v) for n, v in sorted(self.frame.locals.items()) if kind(v) == k]

    def lists(self):
        out = []
        seen = set()
        for di, fr in enumerate(self.interp.stack):
            for n, v in sorted(fr.locals.items()):
                if isinstance(v, VList) and id(v) not in seen:
                    seen.add(id(v))
                    out.append(('F%d.%s' % (di, n), v))
        return out

    def modlists(self):
        """list objects modified by the loop (reachable from locals)"""
        paths = self.interp.access_paths()
        out = []
        for (ap, attr) in sorted(self.info.mods, key=str):
            if attr == '*':
                for o, p in paths.values():
                    if p == ap:
                        out.append((ap, o))
        # lists that are rebuilt and reassigned
        for n, v in self._mod_locals():
            if isinstance(v, VList):
                out.append((n, v))
        return out

    def idxs(self):
        out = []
        if self.idx is not None:
            out.append(('idx', self.idx))
        out.extend(self.roles('int'))
        return out


class Interp(object):
    def __init__(self, ver):
        self.ver = ver
        self.path = None
        self.stack = []
        self.modules = {}
        self.real_models = {}
        self.cls_models = {}
        self.inline_depth = 0
        from . import models
        models.install(self)
        self.M = models

    # ---------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        fn = os.path.join(REPO, *name.split('.'))
        fn = fn + '.py' if os.path.exists(fn + '.py') else os.path.join(fn, '__init__.py')
        with open(fn, newline='') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        m = ModV(name, {'__name__': name, '__file__': fn})
        self.modules[name] = m
        m.tree = tree
        fr = Frame(None, m)
        fr.locals = m.ns
        self.stack.append(fr)
        try:
            for _ in self.exec_block(tree.body, fr):
                raise Unsupported('yield at module level')
        finally:
            self.stack.pop()
        return m

    def load_all(self):
        for n in MODULES:
            self.load_module('warcio.' + n)

    def lookup_func(self, target):
        """'module.Class.method' -> value"""
        parts = target.split('.')
        m = self.load_module('warcio.' + parts[0])
        if parts[1] not in m.ns:
            raise KeyError(target)
        v = m.ns[parts[1]]
        for p in parts[2:]:
            v = v.ns[p]
            if isinstance(v, PropV):
                v = v.fget
            if isinstance(v, (StaticV, ClassMV)):
                v = v.f
        return v

    # ---------------------------------------------------------- exceptions
    def make_exc(self, cls, *args):
        o = Obj(cls, {'args': tuple(args)})
        return o

    def throw(self, cls, *args):
        raise PyRaise(self.make_exc(cls, *args))

    def issub(self, c, target):
        if isinstance(target, tuple):
            return any(self.issub(c, t) for t in target)
        if isinstance(c, Cls):
            return any(x is target or (isinstance(x, type) and isinstance(target, type) and issubclass(x, target)) for x in c.mro())
        if isinstance(c, MCls):
            return c is target or (c.real is not None and isinstance(target, type) and issubclass(c.real, target))
        if isinstance(c, type) and isinstance(target, type):
            return issubclass(c, target)
        if isinstance(c, type) and isinstance(target, MCls):
            return False
        return False

    def class_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, S):
            return {'int': int, 'bool': bool, 'str': str, 'bytes': bytes}[v.k]
        if isinstance(v, VList):
            return list
        if isinstance(v, VDict):
            return dict
        if isinstance(v, VSet):
            return set
        if isinstance(v, (Cls, MCls)):
            return type
        return type(v)

    # ---------------------------------------------------------- writes
    def record(self, obj, attr):
        if self.path is None:
            return
        if id(obj) in self.ver.frozen:
            raise Unsupported('write to module level object')
        self.path.writes.append((obj, attr))

    def setlocal(self, fr, name, v):
        if name in fr.globals_decl:
            fr.module.ns[name] = v
            return
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.locals:
                    f.locals[name] = v
                    if self.path is not None:
                        self.record(f, name)
                    return
                f = f.closure
            raise Unsupported('nonlocal ' + name)
        fr.locals[name] = v
        if self.path is not None:
            self.record(fr, name)

    def getname(self, fr, name):
        f = fr
        while f is not None:
            if name in f.locals and name not in f.globals_decl:
                v = f.locals[name]
                if isinstance(v, Junk):
                    raise Unsupported('use of %s: %s' % (name, v.why))
                return v
            f = f.closure
        if name in fr.module.ns:
            return fr.module.ns[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if fr.func is not None and name in assigned_names(fr.func.node):
            self.throw(UnboundLocalError, name)
        self.throw(NameError, name)

    # ---------------------------------------------------------- attributes
    def find_attr(self, cls, name):
        for c in cls.mro():
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name], c
            else:
                if c is object:
                    continue
                m = self.M.base_attr(self, c, name)
                if m is not None:
                    return m, c
        return None, None

    def bind_attr(self, v, obj, cls):
        if isinstance(v, Func) or isinstance(v, Ext) or isinstance(v, CtxFunc):
            return Bound(v, obj)
        if isinstance(v, PropV):
            return self.call(v.fget, [obj], {})
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return Bound(v.f, cls)
        return v

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name == '__class__':
                return o.cls
            if isinstance(o.cls, Cls):
                v, c = self.find_attr(o.cls, name)
                if isinstance(v, PropV):
                    return self.bind_attr(v, o, o.cls)
                if name in o.attrs:
                    return self.chk(o.attrs[name], name)
                if c is not None:
                    return self.bind_attr(v, o, o.cls)
                if name == '__dict__':
                    raise Unsupported('__dict__')
                self.throw(AttributeError, name)
            if name in o.attrs:
                return self.chk(o.attrs[name], name)
            if isinstance(o.cls, MCls):
                if name in o.cls.methods:
                    return Bound(Ext(o.cls.name + '.' + name, lambda it, a, k, f=o.cls.methods[name]: f(it, *a, **k)), o)
                self.throw(AttributeError, name)
            if isinstance(o.cls, type) and issubclass(o.cls, BaseException):
                if name == '__str__':
                    return Ext('str', lambda it, a, k: it.to_str(o))
                self.throw(AttributeError, name)
            self.throw(AttributeError, name)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if o.name == 'sys' and name in ('stdout', 'stderr', 'stdin'):
                return self.M.std_stream(self, name)
            if o.real is not None and hasattr(o.real, name):
                return self.wrap_real(getattr(o.real, name), o.name + '.' + name)
            self.throw(AttributeError, name)
        if isinstance(o, Cls):
            v, c = self.find_attr(o, name)
            if c is None:
                if name == '__name__':
                    return o.name
                self.throw(AttributeError, name)
            if isinstance(v, StaticV):
                return v.f
            if isinstance(v, ClassMV):
                return Bound(v.f, o)
            return v
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls):
                    if name in c.ns:
                        return self.bind_attr(c.ns[name], o.obj, c)
                elif c is not object:
                    m = self.M.base_attr(self, c, name)
                    if m is not None:
                        return Bound(m, o.obj)
            if name == '__init__':
                return Ext('object.__init__', lambda it, a, k: None)
            self.throw(AttributeError, name)
        if isinstance(o, (Func, Bound)):
            f = o.func if isinstance(o, Bound) else o
            if isinstance(f, Func):
                if name == '__name__':
                    return f.node.name
                if name in f.attrs:
                    return f.attrs[name]
            self.throw(AttributeError, name)
        if isinstance(o, PropV) and name == 'setter':
            return Ext('property.setter', lambda it, a, k: PropV(o.fget, a[0]))
        m = self.M.method(self, o, name)
        if m is not None:
            return m
        if o is None or isinstance(o, (S, VList, VDict, bool, int, str, bytes, tuple, Ext)):
            self.throw(AttributeError, name)
        if isinstance(o, type) or hasattr(o, name):
            if hasattr(o, name):
                return self.wrap_real(getattr(o, name), name)
            self.throw(AttributeError, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def chk(self, v, name):
        if isinstance(v, Junk):
            raise Unsupported('use of .%s: %s' % (name, v.why))
        return v

    def wrap_real(self, v, name=''):
        import types
        if isinstance(v, types.ModuleType):
            return self.real_module(v)
        return v

    def real_module(self, m):
        if m.__name__.startswith('warcio'):
            return self.load_module(m.__name__)
        r = self.modules.get('real:' + m.__name__)
        if r is None:
            r = ModV(m.__name__, {}, real=m)
            self.modules['real:' + m.__name__] = r
        return r

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                d, c = self.find_attr(o.cls, name)
                if isinstance(d, PropV):
                    if d.fset is None:
                        self.throw(AttributeError, name)
                    self.call(d.fset, [o, v], {})
                    return
            o.attrs[name] = v
            if self.path is not None:
                self.record(o, name)
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            if self.path is not None:
                raise Unsupported('class attribute assignment')
            return
        if isinstance(o, ModV):
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        raise Unsupported('setattr on %r' % (o,))

    def delattr(self, o, name):
        if isinstance(o, Obj) and name in o.attrs:
            del o.attrs[name]
            self.record(o, name)
            return
        self.throw(AttributeError, name)

    # ---------------------------------------------------------- truth / equality
    def truth_formula(self, v):
        if isinstance(v, S):
            if v.k == 'bool':
                return v.t
            if v.k == 'int':
                return v.t != 0
            return Not(eq(v, S('str', EMPTY)))
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, VList):
            return self.path.rope_len(v.segs) > 0 if not v.concrete() else z3.BoolVal(bool(v.segs))
        if isinstance(v, VDict):
            if v.pairs is not None:
                return self.path.rope_len(v.pairs) > 0
            return z3.BoolVal(bool(v.d))
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                d, c = self.find_attr(v.cls, '__bool__')
                if isinstance(d, Func):
                    return self.truth_formula(self.call(d, [v], {}))
                d, c = self.find_attr(v.cls, '__len__')
                if isinstance(d, Func):
                    return self.truth_formula(self.call(d, [v], {}))
            return z3.BoolVal(True)
        if isinstance(v, VSet):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Junk):
            raise Unsupported('truth of unknown value')
        if isinstance(v, (bool, int, str, bytes, tuple, float, range)):
            return z3.BoolVal(bool(v))
        return z3.BoolVal(True)

    def truth(self, v):
        f = self.truth_formula(v)
        return self.decide(f)

    def decide(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.path.decide(f)

    def eq_formula(self, a, b):
        sa, sb = isinstance(a, S), isinstance(b, S)
        if a is b:
            return z3.BoolVal(True)
        if sa or sb:
            ka, kb = kind(a), kind(b)
            if ka == kb:
                return eq(a, b)
            if {ka, kb} == {'int', 'bool'}:
                ta, tb = self.as_int(a), self.as_int(b)
                return ta == tb
            return z3.BoolVal(False)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return z3.BoolVal(False)
            return And(*[self.eq_formula(x, y) for x, y in zip(a, b)])
        if isinstance(a, VList) and isinstance(b, VList):
            return self.path.rope_eq(a.segs, b.segs)
        if isinstance(a, VDict) and isinstance(b, VDict) and a.pairs is None and b.pairs is None:
            if set(a.d) != set(b.d):
                return z3.BoolVal(False)
            return And(*[self.eq_formula(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, Obj) and isinstance(a.cls, Cls):
            d, c = self.find_attr(a.cls, '__eq__')
            if isinstance(d, Func):
                return self.truth_formula(self.call(d, [a, b], {}))
        if isinstance(a, (Obj, Cls, Func, MCls, ModV)) or isinstance(b, (Obj, Cls, Func, MCls, ModV)):
            if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.cls, MCls) and 'eq' in a.cls.methods:
                return term(a.cls.methods['eq'](self, a, b))
            return z3.BoolVal(False)
        if isinstance(a, (VList, VDict)) or isinstance(b, (VList, VDict)):
            return z3.BoolVal(False)
        return z3.BoolVal(a == b)

    def as_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, S) and v.k == 'bool':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return term(v)

    def to_str(self, v):
        """str(v) as a value"""
        k = kind(v)
        if k == 'str':
            return v
        if isinstance(v, S):
            return self.M.sym_to_str(self, v)
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                d, c = self.find_attr(v.cls, '__str__')
                if isinstance(d, Func):
                    return self.call(d, [v], {})
                if self.issub(v.cls, BaseException):
                    a = v.attrs.get('args', ())
                    return self.to_str(a[0]) if len(a) == 1 else S('str', self.path.fresh('str', 'excstr').t)
                d, c = self.find_attr(v.cls, '__repr__')
                if isinstance(d, Func):
                    return self.call(d, [v], {})
            if 'str' in getattr(v.cls, 'methods', {}):
                return v.cls.methods['str'](self, v)
            a = v.attrs.get('args', ())
            if len(a) == 1 and kind(a[0]) == 'str':
                return a[0]
            if len(a) == 0 and 'args' in v.attrs:
                return ''
            return self.path.fresh('str', 'objstr')
        if isinstance(v, (VList, VDict, VSet)) or (isinstance(v, tuple) and any(not isinstance(x, (str, int, bytes, type(None))) for x in v)):
            if isinstance(v, VList) and v.concrete() and all(isinstance(x, (str, int, bytes)) for x in v.items()):
                return str(v.items())
            return self.path.fresh('str', 'repr')
        return str(v)

    # ---------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        self.ver.tick()
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Ext):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Func):
            c = self.ver.contract_for(f)
            if c is not None:
                r = self.ver.apply_contract(c, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_inline(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, CtxFunc):
            g = self.call_inline(f.f, args, kwargs)
            return Obj(self.M.CTXMGR, {'gen': g})
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj) and isinstance(f.cls, Cls):
            d, c = self.find_attr(f.cls, '__call__')
            if d is not None:
                return self.call(d, [f] + list(args), kwargs)
        if isinstance(f, Obj) and 'call' in getattr(f.cls, 'methods', {}):
            return f.cls.methods['call'](self, f, *args, **kwargs)
        if isinstance(f, MCls):
            if 'new' in f.methods:
                return f.methods['new'](self, *args, **kwargs)
            raise Unsupported('instantiate ' + f.name)
        return self.M.call_real(self, f, list(args), kwargs)

    def call_inline(self, f, args, kwargs):
        if len(self.stack) > 60:
            raise Unsupported('recursion too deep')
        fr = self.bind(f, args, kwargs)
        if f.is_gen:
            return GenV(self.exec_block(f.node.body, fr), fr)
        self.stack.append(fr)
        depth = len(self.stack)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            for _ in self.exec_block(f.node.body, fr):
                raise Unsupported('yield in non generator')
        except ReturnSig as r:
            return r.value
        finally:
            del self.stack[depth - 1:]
        return None

    def gen_next(self, g):
        """next value of a GenV: (True, value) or (False, return value)"""
        if g.done:
            return False, None
        self.stack.append(g.frame)
        depth = len(self.stack)
        try:
            v = next(g.it)
            return True, v[1]
        except StopIteration:
            g.done = True
            return False, None
        except ReturnSig as r:
            g.done = True
            return False, r.value
        except PyRaise:
            g.done = True
            raise
        finally:
            del self.stack[depth - 1:]

    def gen_throw(self, g, exc):
        self.stack.append(g.frame)
        depth = len(self.stack)
        try:
            v = g.it.throw(exc)
            return True, v[1]
        except StopIteration:
            g.done = True
            return False, None
        except ReturnSig as r:
            g.done = True
            return False, r.value
        finally:
            del self.stack[depth - 1:]

    def bind(self, f, args, kwargs):
        fr = Frame(f, f.module, f.closure)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    self.throw(TypeError, 'multiple values for argument ' + n)
                fr.locals[n] = args[i]
            elif n in kwargs:
                fr.locals[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                fr.locals[n] = f.defaults[i - (len(names) - nd)]
            else:
                self.throw(TypeError, 'missing argument ' + n)
        extra = args[len(names):]
        if a.vararg:
            fr.locals[a.vararg.arg] = tuple(extra)
        elif extra:
            self.throw(TypeError, 'too many arguments')
        for x, dflt in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                fr.locals[x.arg] = kwargs.pop(x.arg)
            elif dflt is not None:
                fr.locals[x.arg] = dflt[0]
            else:
                self.throw(TypeError, 'missing keyword argument ' + x.arg)
        if a.kwarg:
            fr.locals[a.kwarg.arg] = VDict(dict(kwargs))
        elif kwargs:
            self.throw(TypeError, 'unexpected keyword argument ' + sorted(kwargs)[0])
        return fr

    def instantiate(self, cls, args, kwargs):
        if self.issub(cls, BaseException):
            o = Obj(cls, {'args': tuple(args)})
        else:
            o = Obj(cls, {})
        init, c = self.find_attr(cls, '__init__')
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif (args or kwargs) and not self.issub(cls, BaseException):
            self.throw(TypeError, 'takes no arguments')
        return o

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            for y in self.exec_stmt(s, fr):
                yield y

    def exec_stmt(self, s, fr):
        self.ver.tick()
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Yield):
                v = self.eval(s.value.value, fr) if s.value.value else None
                yield ('yield', v)
            elif isinstance(s.value, ast.YieldFrom):
                g = self.eval(s.value.value, fr)
                for x in self.iterate(g, fr, s):
                    yield ('yield', x)
            elif isinstance(s.value, ast.Constant):
                pass
            else:
                self.eval(s.value, fr)
        elif t is ast.Assign:
            if isinstance(s.value, ast.Yield):
                raise Unsupported('value of yield')
            v = self.eval(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif t is ast.AugAssign:
            self.augassign(s, fr)
        elif t is ast.Return:
            raise ReturnSig(self.eval(s.value, fr) if s.value else None)
        elif t is ast.If:
            if self.truth(self.eval(s.test, fr)):
                for y in self.exec_block(s.body, fr):
                    yield y
            else:
                for y in self.exec_block(s.orelse, fr):
                    yield y
        elif t is ast.While:
            for y in self.exec_while(s, fr):
                yield y
        elif t is ast.For:
            for y in self.exec_for(s, fr):
                yield y
        elif t is ast.Try:
            for y in self.exec_try(s, fr):
                yield y
        elif t is ast.With:
            for y in self.exec_with(s, fr, 0):
                yield y
        elif t is ast.Raise:
            self.exec_raise(s, fr)
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, fr)):
                self.throw(AssertionError, *([self.eval(s.msg, fr)] if s.msg else []))
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise BreakSig()
        elif t is ast.Continue:
            raise ContinueSig()
        elif t in (ast.Import, ast.ImportFrom):
            self.exec_import(s, fr)
        elif t is ast.FunctionDef:
            self.setlocal(fr, s.name, self.make_func(s, fr))
        elif t is ast.ClassDef:
            self.exec_class(s, fr)
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
        elif t is ast.Global:
            fr.globals_decl.update(s.names)
        elif t is ast.Nonlocal:
            fr.nonlocals.update(s.names)
        else:
            raise Unsupported('statement ' + t.__name__)

    def make_func(self, s, fr):
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.eval(d, fr),) for d in a.kw_defaults]
        isfn = isinstance(fr.func, (Func,)) or getattr(fr, 'is_class', False)
        qual = (fr.qual + '.' if hasattr(fr, 'qual') else (fr.func.qual + '.' if fr.func is not None else fr.module.name.replace('warcio.', '') + '.'))
        name = getattr(s, 'name', '<lambda>')
        closure = fr if (fr.func is not None and not getattr(fr, 'is_class', False)) else (fr.closure if getattr(fr, 'is_class', False) else None)
        f = Func(s, fr.module, qual + name, closure, defaults, kwd, is_generator(s))
        v = f
        if not isinstance(s, ast.Lambda):
            for d in reversed(s.decorator_list):
                dv = self.eval(d, fr)
                v = self.decorate(dv, v)
        return v

    def decorate(self, d, v):
        if d is property:
            return PropV(v)
        if d is staticmethod:
            return StaticV(v)
        if d is classmethod:
            return ClassMV(v)
        if d is contextlib.contextmanager:
            return CtxFunc(v)
        if isinstance(d, (Ext, Func, Bound)):
            return self.call(d, [v], {})
        raise Unsupported('decorator %r' % (d,))

    def exec_class(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        bases = [b for b in bases if b is not object]
        cfr = Frame(fr.func, fr.module, fr)
        cfr.is_class = True
        cfr.qual = fr.module.name.replace('warcio.', '') + '.' + s.name
        if fr.func is None:
            cfr.closure = None
        self.stack.append(cfr)
        try:
            for _ in self.exec_block(s.body, cfr):
                raise Unsupported('yield in class')
        finally:
            self.stack.pop()
        c = Cls(s.name, bases, cfr.locals, cfr.qual)
        for v in c.ns.values():
            for f in (v, getattr(v, 'f', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                if isinstance(f, Func) and f.owner is None:
                    f.owner = c
        v = c
        for d in reversed(s.decorator_list):
            raise Unsupported('class decorator')
        self.setlocal(fr, s.name, v)

    def exec_import(self, s, fr):
        if isinstance(s, ast.Import):
            for al in s.names:
                top = al.name if al.asname else al.name.split('.')[0]
                if al.name.startswith('warcio'):
                    m = self.load_module(al.name)
                    self.setlocal(fr, al.asname or top, m)
                    continue
                try:
                    importlib.import_module(al.name)
                    m = sys.modules[top]
                except ImportError:
                    self.throw(ImportError, al.name)
                self.setlocal(fr, al.asname or top, self.real_module(m))
            return
        if s.module and s.module.startswith('warcio') and s.level == 0:
            m = self.load_module(s.module)
            for al in s.names:
                self.setlocal(fr, al.asname or al.name, self.getattr(m, al.name))
            return
        if s.level:
            raise Unsupported('relative import')
        if s.module == '__future__':
            return
        try:
            m = importlib.import_module(s.module)
        except ImportError:
            self.throw(ImportError, s.module)
        for al in s.names:
            try:
                v = getattr(m, al.name) if hasattr(m, al.name) else importlib.import_module(s.module + '.' + al.name)
            except ImportError:
                self.throw(ImportError, al.name)
            self.setlocal(fr, al.asname or al.name, self.wrap_real(v))

    def exec_raise(self, s, fr):
        if s.exc is None:
            for f in reversed(self.stack):
                if getattr(f, 'handling', None):
                    raise PyRaise(f.handling[-1])
            self.throw(RuntimeError, 'no active exception')
        v = self.eval(s.exc, fr)
        if isinstance(v, (Cls, type)):
            v = self.instantiate(v, [], {}) if isinstance(v, Cls) else self.make_exc(v)
        raise PyRaise(v)

    def exec_try(self, s, fr):
        def body():
            try:
                for y in self.exec_block(s.body, fr):
                    yield y
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.issub(self.class_of(e.value), self.eval(h.type, fr))
                    if ok:
                        if h.name:
                            self.setlocal(fr, h.name, e.value)
                        if not hasattr(fr, 'handling'):
                            fr.handling = []
                        fr.handling.append(e.value)
                        try:
                            for y in self.exec_block(h.body, fr):
                                yield y
                        finally:
                            fr.handling.pop()
                            if h.name and h.name in fr.locals:
                                del fr.locals[h.name]
                        return
                raise
            else:
                for y in self.exec_block(s.orelse, fr):
                    yield y
        if not s.finalbody:
            for y in body():
                yield y
            return
        try:
            for y in body():
                yield y
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            for y in self.exec_block(s.finalbody, fr):
                yield y
            raise
        else:
            for y in self.exec_block(s.finalbody, fr):
                yield y

    def exec_with(self, s, fr, i):
        if i == len(s.items):
            for y in self.exec_block(s.body, fr):
                yield y
            return
        cm = self.eval(s.items[i].context_expr, fr)
        v = self.cm_enter(cm)
        if s.items[i].optional_vars is not None:
            self.assign(s.items[i].optional_vars, v, fr)
        try:
            for y in self.exec_with(s, fr, i + 1):
                yield y
        except PyRaise as e:
            if not self.cm_exit(cm, e):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.cm_exit(cm, None)
            raise
        else:
            self.cm_exit(cm, None)

    def cm_enter(self, cm):
        if isinstance(cm, Obj) and cm.cls is self.M.CTXMGR:
            ok, v = self.gen_next(cm.attrs['gen'])
            if not ok:
                self.throw(RuntimeError, "generator didn't yield")
            return v
        return self.call(self.getattr(cm, '__enter__'), [], {})

    def cm_exit(self, cm, exc):
        if isinstance(cm, Obj) and cm.cls is self.M.CTXMGR:
            g = cm.attrs['gen']
            if exc is None:
                ok, v = self.gen_next(g)
                if ok:
                    self.throw(RuntimeError, "generator didn't stop")
                return False
            ok, v = self.gen_throw(g, exc)     # raises if the generator does not swallow it
            return True
        f = self.getattr(cm, '__exit__')
        if exc is None:
            self.call(f, [None, None, None], {})
            return False
        return self.truth(self.call(f, [self.class_of(exc.value), exc.value, None], {}))

    # ---------------------------------------------------------- assignment
    def assign(self, tg, v, fr):
        t = type(tg)
        if t is ast.Name:
            self.setlocal(fr, tg.id, v)
        elif t in (ast.Tuple, ast.List):
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                raise Unsupported('starred target')
            items = self.unpack(v, len(tg.elts))
            for e, x in zip(tg.elts, items):
                self.assign(e, x, fr)
        elif t is ast.Attribute:
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif t is ast.Subscript:
            o = self.eval(tg.value, fr)
            self.setitem(o, self.eval_index(tg.slice, fr), v)
        else:
            raise Unsupported('target ' + t.__name__)

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, VList):
            if v.concrete():
                items = v.items()
            else:
                if not self.decide(self.path.rope_len(v.segs) == n):
                    self.throw(ValueError, 'unpack')
                items = [self.getitem(v, i) for i in range(n)]
        elif isinstance(v, VDict) and v.pairs is None:
            items = list(v.d)
        elif isinstance(v, str):
            items = list(v)
        elif isinstance(v, S):
            if v.k in ('int', 'bool'):
                self.throw(TypeError, 'cannot unpack')
            raise Unsupported('unpack of symbolic string')
        elif v is None:
            self.throw(TypeError, 'cannot unpack None')
        else:
            items = list(self.iterate(v, None, None))
        if len(items) != n:
            self.throw(ValueError, 'unpack')
        return items

    def augassign(self, s, fr):
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            cur = self.getname(fr, s.target.id)
            v = self.eval(s.value, fr)
            if isinstance(cur, VList) and op is ast.Add:
                self.list_extend(cur, v)
                return
            self.setlocal(fr, s.target.id, self.binop(op, cur, v))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            v = self.eval(s.value, fr)
            if isinstance(cur, VList) and op is ast.Add:
                self.list_extend(cur, v)
                return
            self.setattr(o, s.target.attr, self.binop(op, cur, v))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.eval_index(s.target.slice, fr)
            self.setitem(o, i, self.binop(op, self.getitem(o, i), self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented target')

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            if tg.id in fr.locals:
                del fr.locals[tg.id]
                return
            self.throw(NameError, tg.id)
        if isinstance(tg, ast.Attribute):
            self.delattr(self.eval(tg.value, fr), tg.attr)
            return
        if isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            i = self.eval_index(tg.slice, fr)
            self.delitem(o, i)
            return
        raise Unsupported('delete')

    # ---------------------------------------------------------- containers
    def list_extend(self, l, v):
        if isinstance(v, VList):
            l.segs = l.segs + list(v.segs)
        elif isinstance(v, tuple):
            l.segs = l.segs + [('e', x) for x in v]
        elif isinstance(v, VDict) and v.pairs is None:
            l.segs = l.segs + [('e', x) for x in v.d]
        else:
            l.segs = l.segs + [('e', x) for x in self.iterate(v, None, None)]
        self.record(l, '*')

    def locate(self, l, i):
        """(position of segment, local index) of element i; raises IndexError in the program"""
        p = self.path
        segs = p.norm(l.segs)
        l.segs = segs
        it = term(i)
        n = p.rope_len(segs)
        if self.decide(it < 0):
            it = z3.simplify(it + n)
            if self.decide(it < 0):
                self.throw(IndexError, 'list index out of range')
        if not self.decide(it < n):
            self.throw(IndexError, 'list index out of range')
        off = z3.IntVal(0)
        for si, s in enumerate(segs):
            sl = p.seg_len(s)
            nxt = z3.simplify(off + sl)
            if si == len(segs) - 1 or p.query(it < nxt):
                if not p.query(it >= off):
                    if not self.decide(it >= off):
                        raise Unsupported('list position')
                return si, z3.simplify(it - off)
            if not p.query(it >= nxt):
                if self.decide(it < nxt):
                    return si, z3.simplify(it - off)
            off = nxt
        raise Unsupported('list position')

    def getitem(self, o, i):
        p = self.path
        if isinstance(i, slice):
            return self.M.getslice(self, o, i)
        if isinstance(o, tuple):
            if isinstance(i, S):
                raise Unsupported('symbolic tuple index')
            try:
                return o[i]
            except IndexError:
                self.throw(IndexError, 'tuple index out of range')
        if isinstance(o, VList):
            if o.concrete() and isinstance(i, int):
                try:
                    return o.items()[i]
                except IndexError:
                    self.throw(IndexError, 'list index out of range')
            si, li = self.locate(o, i)
            s = o.segs[si]
            if isinstance(s, tuple):
                return s[1]
            return p.split(s, li)
        if isinstance(o, VDict):
            if o.pairs is not None:
                return self.M.pairs_get(self, o, i, None, True)
            return self.dict_get(o, i, None, True)
        if isinstance(o, Obj) and isinstance(o.cls, Cls):
            d, c = self.find_attr(o.cls, '__getitem__')
            if d is not None:
                return self.call(Bound(d, o), [i], {})
        if kind(o) in ('str', 'bytes'):
            if not isinstance(o, S) and isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    self.throw(IndexError, 'string index out of range')
            return self.M.str_index(self, o, i)
        if isinstance(o, Obj) and isinstance(o.cls, MCls) and 'getitem' in o.cls.methods:
            return o.cls.methods['getitem'](self, o, i)
        if o is None:
            self.throw(TypeError, 'not subscriptable')
        if isinstance(o, dict) and not isinstance(i, S):
            try:
                return o[i]
            except KeyError:
                self.throw(KeyError, i)
        raise Unsupported('getitem of %r' % (o,))

    def dict_get(self, o, key, default, must=False):
        if not isinstance(key, S):
            try:
                if key in o.d:
                    return o.d[key]
            except TypeError:
                raise Unsupported('unhashable key')
            for k in o.d:
                if isinstance(k, S):
                    raise Unsupported('symbolic keys')
            if must:
                self.throw(KeyError, key)
            return default
        for k, v in o.d.items():
            if kind(k) == key.k and self.decide(eq(key, k)):
                return v
        if must:
            self.throw(KeyError, key)
        return default

    def setitem(self, o, i, v):
        if isinstance(o, VList):
            if o.concrete() and isinstance(i, int):
                items = o.items()
                try:
                    items[i] = v
                except IndexError:
                    self.throw(IndexError, 'assignment index out of range')
                o.segs = [('e', x) for x in items]
            elif isinstance(i, slice):
                if i.start is None and i.stop is None and i.step is None:
                    o.segs = [('e', x) for x in v] if isinstance(v, tuple) else list(v.segs)
                else:
                    raise Unsupported('slice assignment')
            else:
                si, li = self.locate(o, i)
                s = o.segs[si]
                if isinstance(s, tuple):
                    o.segs = o.segs[:si] + [('e', v)] + o.segs[si + 1:]
                else:
                    self.path.split(s, li)
                    pre, x, post = self.parts(s, li)
                    o.segs = o.segs[:si] + pre + [('e', v)] + post + o.segs[si + 1:]
            self.record(o, '*')
            return
        if isinstance(o, VDict):
            if o.pairs is not None:
                self.M.pairs_set(self, o, i, v)
                self.record(o, '*')
                return
            if isinstance(i, S):
                raise Unsupported('symbolic dict store')
            o.d[i] = v
            self.record(o, '*')
            return
        if isinstance(o, Obj) and isinstance(o.cls, Cls):
            d, c = self.find_attr(o.cls, '__setitem__')
            if d is not None:
                self.call(Bound(d, o), [i, v], {})
                return
        if isinstance(o, Obj) and isinstance(o.cls, MCls) and '__setitem__' in o.cls.methods:
            o.cls.methods['__setitem__'](self, o, i, v)
            return
        raise Unsupported('setitem of %r' % (o,))

    def parts(self, s, li):
        """segs before / element / segs after local index li of atom s (already split)"""
        p = self.path
        base, lo = p._base(s)
        gi = z3.simplify(lo + li)
        segs = p.norm([s])
        for k, sg in enumerate(segs):
            if isinstance(sg, tuple):
                x = p.split(base, gi)
                if sg[1] is x or self.same_elem(sg[1], x):
                    return segs[:k], x, segs[k + 1:]
        raise Unsupported('split of list segment')

    def same_elem(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_elem(x, y) for x, y in zip(a, b))
        if isinstance(a, S) and isinstance(b, S):
            return a.t.eq(b.t)
        return a is b

    def delitem(self, o, i):
        if isinstance(o, VList):
            if o.concrete() and isinstance(i, int):
                items = o.items()
                try:
                    del items[i]
                except IndexError:
                    self.throw(IndexError, 'index out of range')
                o.segs = [('e', x) for x in items]
            elif isinstance(i, slice):
                raise Unsupported('slice deletion')
            else:
                si, li = self.locate(o, i)
                s = o.segs[si]
                if isinstance(s, tuple):
                    o.segs = o.segs[:si] + o.segs[si + 1:]
                else:
                    self.path.split(s, li)
                    pre, x, post = self.parts(s, li)
                    o.segs = o.segs[:si] + pre + post + o.segs[si + 1:]
            self.record(o, '*')
            return
        if isinstance(o, VDict) and o.pairs is None and not isinstance(i, S):
            if i not in o.d:
                self.throw(KeyError, i)
            del o.d[i]
            self.record(o, '*')
            return
        if isinstance(o, Obj) and isinstance(o.cls, Cls):
            d, c = self.find_attr(o.cls, '__delitem__')
            if d is not None:
                self.call(Bound(d, o), [i], {})
                return
        raise Unsupported('delitem of %r' % (o,))

    # ---------------------------------------------------------- iteration (concrete)
    def iterate(self, v, fr, node):
        """python iterator over values; only for iterables of known length and generators"""
        if isinstance(v, (tuple, str, bytes, range, list, dict, set, frozenset)):
            return iter(v)
        if isinstance(v, VList):
            if v.concrete():
                return iter(v.items())
            raise Unsupported('iteration over symbolic list')
        if isinstance(v, VDict):
            if v.pairs is None:
                return iter(list(v.d))
            raise Unsupported('iteration over symbolic dict')
        if isinstance(v, VSet):
            return iter(v.items)
        if isinstance(v, RangeV):
            if any(isinstance(x, S) for x in (v.a, v.b, v.step)):
                raise Unsupported('symbolic range')
            return iter(range(v.a, v.b, v.step))
        if isinstance(v, IterV):
            def it():
                while v.i < len(v.items):
                    v.i += 1
                    yield v.items[v.i - 1]
            return it()
        if isinstance(v, GenV):
            def gen():
                while True:
                    ok, x = self.gen_next(v)
                    if not ok:
                        return
                    yield x
            return gen()
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            d, c = self.find_attr(v.cls, '__iter__')
            if d is not None:
                r = self.call(Bound(d, v), [], {})
                if r is v:
                    return self.iter_next(v)
                return self.iterate(r, fr, node)
        if isinstance(v, Obj) and 'iter' in getattr(v.cls, 'methods', {}):
            return v.cls.methods['iter'](self, v)
        if v is None or isinstance(v, (int, bool)) or (isinstance(v, S) and v.k in ('int', 'bool')):
            self.throw(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def iter_next(self, v):
        nxt, c = self.find_attr(v.cls, '__next__')
        while True:
            try:
                x = self.call(Bound(nxt, v), [], {})
            except PyRaise as e:
                if self.issub(self.class_of(e.value), StopIteration):
                    return
                raise
            yield x

    # ---------------------------------------------------------- loops
    def loop_key(self, node, fr, extra=''):
        d = fr.func.qual if fr.func is not None else '<module>'
        return (d, node.lineno - (fr.func.node.lineno if fr.func is not None else 0), node.col_offset, extra,
                tuple(f.func.qual for f in self.stack[:-1] if f.func is not None))

    def access_paths(self):
        """id(obj) -> (obj, path) for objects reachable from frames and ghosts"""
        seen = {}
        queue = []

        def add(o, p):
            if isinstance(o, (Obj, VList, VDict)):
                if id(o) not in seen:
                    seen[id(o)] = (o, p)
                    queue.append((o, p))
            elif isinstance(o, tuple):
                for i, x in enumerate(o):
                    add(x, '%s[%d]' % (p, i))
            elif isinstance(o, Bound):
                add(o.self_, p + '.__self__')
            elif isinstance(o, GenV):
                for n in sorted(o.frame.locals):
                    add(o.frame.locals[n], p + '.gen.' + n)
        for n in sorted(self.path.ghost):
            add(self.path.ghost[n], 'G.' + n)
        for i, f in enumerate(self.stack):
            fr = f
            lvl = 0
            while fr is not None:
                for n in sorted(fr.locals):
                    add(fr.locals[n], 'F%d%s.%s' % (i, "'" * lvl, n))
                fr = fr.closure
                lvl += 1
        k = 0
        while k < len(queue):
            o, p = queue[k]
            k += 1
            if isinstance(o, Obj):
                for n in sorted(o.attrs, key=str):
                    add(o.attrs[n], p + '.' + str(n))
            elif isinstance(o, VList):
                for i, s in enumerate(o.segs):
                    if isinstance(s, tuple):
                        add(s[1], '%s[%d]' % (p, i))
            elif isinstance(o, VDict):
                for n in sorted(o.d, key=str):
                    add(o.d[n], '%s[%s]' % (p, n))
        return seen

    def value_kind(self, v):
        k = kind(v)
        if k != 'other':
            return k
        if isinstance(v, VList):
            eks = set(s.ek if isinstance(s, Atom) else self.elem_kind(s[1]) for s in v.segs)
            return 'list:' + '|'.join(sorted(eks))
        if isinstance(v, VDict):
            return 'dict'
        if isinstance(v, Obj):
            return 'obj:' + cls_name(v.cls)
        if isinstance(v, tuple):
            return 'tuple:' + ','.join(self.value_kind(x) for x in v)
        if isinstance(v, Junk):
            return 'junk'
        return 'id:%s' % getattr(v, '__name__', type(v).__name__)

    def elem_kind(self, v):
        if isinstance(v, tuple) and len(v) == 2:
            return 'pair'
        return kind(v)

    def havoc_value(self, kinds, label, entry, owner=None, attr=None):
        p = self.path
        kinds = set(kinds)
        if 'junk' in kinds or 'undef' in kinds:
            return Junk('assigned in the loop (%s)' % label)
        sh = None
        if owner is not None and isinstance(owner, Obj):
            sh = self.ver.shape_for(self, owner, attr)
        if sh is not None:
            return sh(self.ver.ctx, owner)
        if 'none' in kinds and len(kinds) > 1:
            rest = kinds - {'none'}
            if p.choose(label + '_is_none'):
                return None
            return self.havoc_value(rest, label, entry, None, None)
        if kinds == {'none'}:
            return None
        if kinds <= {'int', 'bool'} and len(kinds) == 2:
            return p.fresh('int', label)
        lists = [k for k in kinds if k.startswith('list:')]
        if lists and len(lists) == len(kinds):
            eks = set(e for k in lists for e in k[5:].split('|') if e)
            if len(eks) > 1:
                return Junk('list of mixed elements (%s)' % label)
            if not eks:
                return VList()
            return VList([p.new_atom(eks.pop(), label)])
        if len(kinds) != 1:
            return Junk('several kinds %s (%s)' % (sorted(kinds), label))
        k = kinds.pop()
        if k in SORT:
            return p.fresh(k, label)
        if k.startswith('obj:'):
            b = self.ver.class_shape(k[4:])
            if b is not None:
                return b(self.ver.ctx)
            return Junk('object %s (%s)' % (k, label))
        if k.startswith('tuple:'):
            parts = k[6:].split(',')
            if all(x in SORT for x in parts):
                return tuple(p.fresh(x, label) for x in parts)
        if k.startswith('id:'):
            return entry
        return Junk('kind %s (%s)' % (k, label))

    def resolve(self, ap, paths):
        if ap.startswith('F') and '.' not in ap:
            i = int(ap[1:].rstrip("'"))
            fr = self.stack[i] if i < len(self.stack) else None
            for _ in range(ap.count("'")):
                fr = fr.closure if fr is not None else None
            return fr
        for o, p in paths.values():
            if p == ap:
                return o
        return None

    def cut(self, node, fr, view):
        """generic loop head: check candidates, havoc, assume.  Returns a state for back()."""
        ver = self.ver
        p = self.path
        info = ver.loops.setdefault(view.key, LoopInfo(view.key))
        view.info = info
        info.entered += 1
        paths = self.access_paths()
        pre_ids = {i: ap for i, (o, ap) in paths.items()}
        keep = [o for o, ap in paths.values()]
        frames = {}
        for i, f in enumerate(self.stack):
            g = f
            lvl = 0
            while g is not None:
                frames.setdefault(id(g), ('F%d%s' % (i, "'" * lvl), g))
                g = g.closure
                lvl += 1
        # kinds at entry
        for (ap, attr) in list(info.mods):
            o = self.resolve(ap, paths)
            if o is None or self.foreign(o, attr):
                continue
            self.note_kind(info, ap, attr, o)
        # candidates at entry
        ver.cand_entry(view, at='entry')
        # havoc: parents first
        for (ap, attr) in sorted(info.mods, key=lambda x: (x[0].count('.') + x[0].count('['), str(x))):
            o = self.resolve(ap, paths)
            if o is None or self.foreign(o, attr):
                continue
            kinds = info.mods[(ap, attr)]
            label = ('%s_%s' % (ap.split('.')[-1], attr)).replace('*', 'items')
            if isinstance(o, Frame):
                v = self.havoc_value(kinds, attr, o.locals.get(attr))
                if isinstance(v, Junk) and attr not in o.locals:
                    continue
                o.locals[attr] = v
            elif isinstance(o, Obj):
                o.attrs[attr] = self.havoc_value(kinds, label, o.attrs.get(attr), o, attr)
            elif isinstance(o, VList):
                v = self.havoc_value(kinds, label, o)
                if isinstance(v, Junk):
                    o.segs = [Atom(p.fresh_term(LS, 'junk'), 'junk')]
                else:
                    o.segs = v.segs
            elif isinstance(o, VDict):
                raise Unsupported('dict modified in loop')
        view.havoc_extra()
        ver.cand_assume(view)
        return dict(info=info, start=len(p.writes), pre=pre_ids, frames=frames, keep=keep, view=view)

    def foreign(self, o, attr):
        """modelled objects have all their attributes from the start: this one belongs to another class"""
        return isinstance(o, Obj) and isinstance(o.cls, MCls) and attr not in o.attrs

    def note_kind(self, info, ap, attr, o):
        if isinstance(o, Frame):
            k = self.value_kind(o.locals[attr]) if attr in o.locals else 'undef'
        elif isinstance(o, Obj):
            k = self.value_kind(o.attrs[attr]) if attr in o.attrs else 'undef'
        elif isinstance(o, VList):
            k = self.value_kind(o)
        else:
            k = 'dict'
        ks = info.mods.setdefault((ap, attr), set())
        if k not in ks and not (k == 'junk'):
            ks.add(k)
            return True
        return False

    def back(self, st):
        """back edge: update the write set, check candidates, end the path"""
        p = self.path
        info = st['info']
        info.backs += 1
        changed = False
        for (o, attr) in p.writes[st['start']:]:
            if isinstance(o, Frame):
                e = st['frames'].get(id(o))
                if e is None:
                    continue
                ap = e[0]
            else:
                ap = st['pre'].get(id(o))
                if ap is None:
                    continue
            if (ap, attr) not in info.mods:
                info.mods[(ap, attr)] = set()
                changed = True
            if isinstance(o, Obj) and attr not in o.attrs:
                continue
            if self.note_kind(info, ap, attr, o):
                changed = True
        if changed:
            # candidates were judged with too few variables havoced: judge them again
            for i in self.ver.loops.values():
                i.dead.clear()
            raise Restart('loop writes')
        self.ver.cand_back(st['view'])
        raise PathEnd('back edge')

    def leave(self, st):
        """the loop is left with break/exception: writes after the head still count"""
        pass

    def new_view(self, node, fr, extra=''):
        v = LoopView(self, fr, None, node)
        v.key = self.loop_key(node, fr, extra)
        v.havoc_extra = lambda: None
        return v

    def exec_while(self, s, fr):
        const_true = isinstance(s.test, ast.Constant) and s.test.value
        if not self.ver.cutting(s, fr):
            while self.truth(self.eval(s.test, fr)):
                try:
                    for y in self.exec_block(s.body, fr):
                        yield y
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            for y in self.exec_block(s.orelse, fr):
                yield y
            return
        view = self.new_view(s, fr)
        st = self.cut(s, fr, view)
        if self.truth(self.eval(s.test, fr)):
            try:
                for y in self.exec_block(s.body, fr):
                    yield y
            except BreakSig:
                return
            except ContinueSig:
                pass
            self.back(st)
        for y in self.exec_block(s.orelse, fr):
            yield y

    def exec_for(self, s, fr):
        v = self.eval(s.iter, fr)
        self.for_exited = False
        for y in self.for_over(s, fr, v, lambda x: self.assign(s.target, x, fr), s.body):
            yield y
            continue
        if fr.locals.get('__broke__', None) is s:
            del fr.locals['__broke__']
            return
        for y in self.exec_block(s.orelse, fr):
            yield y

    def for_over(self, s, fr, v, bind, body):
        """run body for the elements of v (list with symbolic parts, range, generator, ...)"""
        p = self.path
        if isinstance(v, Obj) and isinstance(v.cls, MCls) and 'segs' in v.cls.methods:
            v = v.cls.methods['segs'](self, v)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            d, _ = self.find_attr(v.cls, '__iter__')
            if d is not None:
                v = self.call(Bound(d, v), [], {})
        if isinstance(v, VDict) and v.pairs is not None:
            v = VList([('e', x[1][0]) if isinstance(x, tuple) else None for x in v.pairs])
            if None in v.segs:
                raise Unsupported('iteration over keys of a symbolic mapping')

        def run(x):
            bind(x)
            try:
                for y in self.exec_block(body, fr):
                    yield y
            except ContinueSig:
                pass

        try:
            if isinstance(v, RangeV) and any(isinstance(x, S) for x in (v.a, v.b, v.step)):
                for y in self.for_range(s, fr, v, bind, body):
                    yield y
                return
            num = None
            if isinstance(v, Obj) and v.cls is self.M.ENUM:
                num = '__number_%d' % getattr(s, 'lineno', 0)
                self.setlocal(fr, num, v.attrs['start'])
                v = v.attrs['of']
            if isinstance(v, Obj) and isinstance(v.cls, MCls) and 'step' in v.cls.methods:
                st = self.cut(s, fr, self.new_view(s, fr))
                more, x = v.cls.methods['step'](self, v)
                if more:
                    if num is not None:
                        i = fr.locals[num]
                        x = (i, x)
                        self.setlocal(fr, num, wrap('int', z3.simplify(term(i) + 1)))
                    for y in run(x):
                        yield y
                    self.back(st)
                return
            if isinstance(v, VList) and not v.concrete():
                segs = p.norm(v.segs)
                v.segs = segs
                done = []
                for k, sg in enumerate(segs):
                    if isinstance(sg, tuple):
                        for y in run(sg[1]):
                            yield y
                        done.append(sg)
                        continue
                    for y in self.for_atom(s, fr, v, sg, done, k, segs, bind, body):
                        yield y
                    done.append(sg)
                return
            for x in self.iterate(v, fr, s):
                for y in run(x):
                    yield y
        except BreakSig:
            fr.locals['__broke__'] = s

    def for_atom(self, s, fr, lst, a, done, k, segs, bind, body):
        p = self.path
        view = self.new_view(s, fr, 'seg%d' % k)
        view.idx = 0
        view.done = list(done)
        view.whole = list(segs)
        view.atom = a

        def extra():
            i = p.fresh('int', 'i')
            p.assume(And(i.t >= 0, i.t <= fLen(a.t)))
            view.idx = i
            p.assume(fLen(fTake(a.t, i.t)) == i.t)
            p.assume(fLen(fDrop(a.t, i.t)) == fLen(a.t) - i.t)
            view.done = list(done) + [p.atom(fTake(a.t, i.t), a.ek)]
            view.rest = [p.atom(fDrop(a.t, i.t), a.ek)]
        view.havoc_extra = extra
        view.rest = [a]
        st = self.cut(s, fr, view)
        i = view.idx.t
        if self.decide(i < fLen(a.t)):
            x = p.split(a, i)
            bind(x)
            try:
                for y in self.exec_block(body, fr):
                    yield y
            except ContinueSig:
                pass
            if any(o is lst and at == '*' for o, at in p.writes[st['start']:]):
                raise Unsupported('list modified while iterated')
            i1 = z3.simplify(i + 1)
            view.idx = S('int', i1)
            p.assume(fLen(fTake(a.t, i1)) == i1)
            view.done = list(done) + [p.atom(fTake(a.t, i1), a.ek)]
            view.rest = [p.atom(fDrop(a.t, i1), a.ek)]
            self.back(st)
        p.assume(i == fLen(a.t))

    def for_range(self, s, fr, v, bind, body):
        p = self.path
        if isinstance(v.step, S):
            raise Unsupported('symbolic step')
        a, b, step = term(v.a), term(v.b), v.step
        if step not in (1, -1):
            raise Unsupported('range step')
        view = self.new_view(s, fr)
        view.idx = wrap('int', a)

        def extra():
            i = p.fresh('int', 'i')
            if step > 0:
                p.assume(And(i.t >= a, Or(i.t <= b, i.t == a)))
            else:
                p.assume(And(i.t <= a, Or(i.t >= b, i.t == a)))
            view.idx = i
        view.havoc_extra = extra
        st = self.cut(s, fr, view)
        i = view.idx.t
        if self.decide(i < b if step > 0 else i > b):
            bind(S('int', i))
            try:
                for y in self.exec_block(body, fr):
                    yield y
            except ContinueSig:
                pass
            view.idx = wrap('int', z3.simplify(i + step))
            self.back(st)

    # ---------------------------------------------------------- expressions
    def eval_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(self.eval(n.lower, fr) if n.lower else None,
                         self.eval(n.upper, fr) if n.upper else None,
                         self.eval(n.step, fr) if n.step else None)
        return self.eval(n, fr)

    def eval(self, n, fr):
        t = type(n)
        if t is ast.Constant:
            return n.value
        if t is ast.Name:
            return self.getname(fr, n.id)
        if t is ast.Attribute:
            return self.getattr(self.eval(n.value, fr), n.attr)
        if t is ast.Call:
            return self.eval_call(n, fr)
        if t is ast.BinOp:
            return self.binop(type(n.op), self.eval(n.left, fr), self.eval(n.right, fr))
        if t is ast.BoolOp:
            v = None
            for i, e in enumerate(n.values):
                v = self.eval(e, fr)
                if i == len(n.values) - 1:
                    return v
                b = self.truth(v)
                if isinstance(n.op, ast.And) and not b:
                    return v if not (isinstance(v, S) and v.k == 'bool') else False
                if isinstance(n.op, ast.Or) and b:
                    return v if not (isinstance(v, S) and v.k == 'bool') else True
            return v
        if t is ast.UnaryOp:
            v = self.eval(n.operand, fr)
            if isinstance(n.op, ast.Not):
                return wrap('bool', Not(self.truth_formula(v)))
            if isinstance(n.op, ast.USub):
                return wrap('int', z3.simplify(-self.as_int(v))) if isinstance(v, S) else -v
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Invert) and not isinstance(v, S):
                return ~v
            raise Unsupported('unary operator')
        if t is ast.Compare:
            left = self.eval(n.left, fr)
            res = None
            for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
                right = self.eval(c, fr)
                r = self.compare(op, left, right)
                if i == len(n.ops) - 1:
                    return r
                if not self.truth(r):
                    return False
                left = right
            return res
        if t is ast.IfExp:
            return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)
        if t is ast.Tuple:
            return tuple(self.eval_seq(n.elts, fr))
        if t is ast.List:
            return VList.of(self.eval_seq(n.elts, fr))
        if t is ast.Set:
            return VSet(self.eval_seq(n.elts, fr))
        if t is ast.Dict:
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    o = self.eval(v, fr)
                    if not isinstance(o, VDict) or o.pairs is not None:
                        raise Unsupported('dict unpacking')
                    d.update(o.d)
                else:
                    kk = self.eval(k, fr)
                    if isinstance(kk, S):
                        raise Unsupported('symbolic dict key')
                    d[kk] = self.eval(v, fr)
            if not n.keys and self.path is not None and 'new_dict' in self.path.ghost:
                return self.path.ghost['new_dict']()
            return VDict(d)
        if t is ast.Subscript:
            return self.getitem(self.eval(n.value, fr), self.eval_index(n.slice, fr))
        if t is ast.Lambda:
            return self.make_func(n, fr)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.eval_comp(n, fr)
        if t is ast.JoinedStr:
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        raise Unsupported('format spec')
                    parts.append(self.to_str(self.eval(v.value, fr)))
            return wrap('str', concat(*[term(x) for x in parts])) if parts else ''
        if t is ast.NamedExpr:
            v = self.eval(n.value, fr)
            self.assign(n.target, v, fr)
            return v
        if t is ast.Starred:
            raise Unsupported('starred')
        raise Unsupported('expression ' + t.__name__)

    def eval_seq(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, fr), fr, e))
            else:
                out.append(self.eval(e, fr))
        return out

    def eval_comp(self, n, fr):
        """comprehension: the equivalent loop appending to a list"""
        if len(n.generators) != 1 or n.generators[0].is_async:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        if isinstance(n, ast.GeneratorExp):
            pass     # evaluated eagerly; the generators in warcio have no side effects in between
        cfr = Frame(fr.func, fr.module, fr)
        src = self.eval(g.iter, fr)
        out = VList()
        cfr.locals['__comp__'] = out
        d = {}

        class _B(ast.stmt):
            pass
        self.stack.append(cfr)
        try:
            def bind(x):
                self.assign(g.target, x, cfr)

            def body_fn():
                for c in g.ifs:
                    if not self.truth(self.eval(c, cfr)):
                        return
                if isinstance(n, ast.DictComp):
                    k = self.eval(n.key, cfr)
                    if isinstance(k, S):
                        raise Unsupported('symbolic dict key')
                    d[k] = self.eval(n.value, cfr)
                else:
                    v = self.eval(n.elt, cfr)
                    out.segs = out.segs + [('e', v)]
                    self.record(out, '*')
            stmt = PyStmt(body_fn)
            ast.copy_location(stmt, n)
            save = self.exec_stmt
            for _ in self.for_over(n, cfr, src, bind, [stmt]):
                raise Unsupported('yield in comprehension')
        finally:
            self.stack.pop()
        if isinstance(n, ast.DictComp):
            return VDict(d)
        if isinstance(n, ast.SetComp):
            return VSet(out.items())
        return out

    def eval_any(self, n, fr, all_):
        """any(... for ...) and all(... for ...): the loop that stops at the first that decides"""
        g = n.generators[0]
        cfr = Frame(fr.func, fr.module, fr)
        src = self.eval(g.iter, fr)
        hit = []
        self.stack.append(cfr)
        try:
            def body_fn():
                for c in g.ifs:
                    if not self.truth(self.eval(c, cfr)):
                        return
                if self.truth(self.eval(n.elt, cfr)) != all_:
                    hit.append(1)
                    raise BreakSig()
            stmt = PyStmt(body_fn)
            ast.copy_location(stmt, n)
            for _ in self.for_over(n, cfr, src, lambda x: self.assign(g.target, x, cfr), [stmt]):
                raise Unsupported('yield in comprehension')
        finally:
            self.stack.pop()
        return not all_ if hit else all_

    def eval_call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                and len(n.args[0].generators) == 1 and self.getname(fr, n.func.id) is getattr(builtins, n.func.id):
            return self.eval_any(n.args[0], fr, n.func.id == 'all')
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.getname(fr, 'super') is builtins.super:
            if n.args:
                c, o = self.eval(n.args[0], fr), self.eval(n.args[1], fr)
            else:
                f = fr.func
                c = f.owner
                names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                o = fr.locals[names[0]]
            return SuperV(c, o)
        f = self.eval(n.func, fr)
        args = self.eval_seq(n.args, fr)
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, VDict) or v.pairs is not None:
                    raise Unsupported('** of symbolic mapping')
                kwargs.update(v.d)
            else:
                kwargs[k.arg] = v
        self.ver.cur_node = (fr, n)
        return self.call(f, args, kwargs)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            if isinstance(a, S) and a.k == 'bool' and isinstance(b, bool):
                f = a.t if b else Not(a.t)
                return wrap('bool', f if t is ast.Is else Not(f))
            if isinstance(b, S) and b.k == 'bool' and isinstance(a, bool):
                return self.compare(op, b, a)
            if isinstance(a, S) or isinstance(b, S):
                r = (a is b)
                if not r and (a is not None and b is not None):
                    raise Unsupported('identity of symbolic values')
            else:
                r = a is b
            return r if t is ast.Is else not r
        if t is ast.Eq:
            return wrap('bool', self.eq_formula(a, b))
        if t is ast.NotEq:
            if isinstance(a, Obj) and isinstance(a.cls, Cls):
                d, c = self.find_attr(a.cls, '__ne__')
                if isinstance(d, Func):
                    return self.call(d, [a, b], {})
            return wrap('bool', Not(self.eq_formula(a, b)))
        if t in (ast.In, ast.NotIn):
            f = self.M.contains(self, b, a)
            return wrap('bool', f if t is ast.In else Not(f))
        # ordering
        if a is None or b is None:
            self.throw(TypeError, 'ordering of None')
        if isinstance(a, S) or isinstance(b, S):
            ka, kb = kind(a), kind(b)
            if ka in ('int', 'bool') and kb in ('int', 'bool'):
                x, y = self.as_int(a), self.as_int(b)
            elif ka == kb and ka in ('str', 'bytes'):
                x, y = term(a), term(b)
            elif 'other' in (ka, kb):
                raise Unsupported('ordering')
            else:
                self.throw(TypeError, 'ordering')
            f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[t]()
            return wrap('bool', z3.simplify(f) if z3.is_int_value(x) and z3.is_int_value(y) else f)
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()
        except TypeError as e:
            self.throw(TypeError, str(e))

    def binop(self, op, a, b):
        ka, kb = kind(a), kind(b)
        if isinstance(a, Obj) and isinstance(a.cls, MCls) and 'binop' in a.cls.methods:
            return a.cls.methods['binop'](self, a, op, b)
        if isinstance(b, Obj) and isinstance(b.cls, MCls) and 'rbinop' in b.cls.methods:
            return b.cls.methods['rbinop'](self, b, op, a)
        if not isinstance(a, S) and not isinstance(b, S) and ka != 'other' and kb != 'other':
            try:
                return PYOPS[op](a, b)
            except KeyError:
                raise Unsupported('operator')
            except Exception as e:
                self.throw(type(e), str(e))
        if op is ast.Add:
            if ka == kb and ka in ('str', 'bytes'):
                return wrap(ka, concat(a, b))
            if ka in ('int', 'bool') and kb in ('int', 'bool'):
                return wrap('int', z3.simplify(self.as_int(a) + self.as_int(b)))
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.segs + b.segs)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            self.throw(TypeError, 'unsupported operand types for +')
        if op is ast.Mod and ka in ('str', 'bytes'):
            return self.M.percent_format(self, a, b)
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x, y = self.as_int(a), self.as_int(b)
            if op is ast.Sub:
                return wrap('int', z3.simplify(x - y))
            if op is ast.Mult:
                return wrap('int', z3.simplify(x * y))
            if op in (ast.FloorDiv, ast.Mod):
                if self.decide(y == 0):
                    self.throw(ZeroDivisionError, 'division by zero')
                if not self.path.query(y > 0):
                    raise Unsupported('division by negative')
                return wrap('int', x / y if op is ast.FloorDiv else x % y)
        if op is ast.Mult and {ka, kb} & {'str', 'bytes'} and {ka, kb} & {'int', 'bool'}:
            return self.M.str_repeat(self, a, b)
        if 'none' in (ka, kb):
            self.throw(TypeError, 'unsupported operand type None')
        if op is ast.Mult and isinstance(a, VList) and isinstance(b, int) and a.concrete():
            return VList(a.segs * b)
        if {ka, kb} <= {'str', 'bytes', 'int', 'bool'}:
            self.throw(TypeError, 'unsupported operand types')
        raise Unsupported('operator %s on %s, %s' % (op.__name__, ka, kb))


class PyStmt(ast.stmt):
    """internal statement: run a python function"""
    def __init__(self, fn):
        self.fn = fn


_orig_exec_stmt = Interp.exec_stmt


def _exec_stmt(self, s, fr):
    if type(s) is PyStmt:
        s.fn()
        return iter(())
    return _orig_exec_stmt(self, s, fr)


Interp.exec_stmt = _exec_stmt

import operator
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Div: operator.truediv, ast.Pow: operator.pow, ast.BitOr: operator.or_,
         ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}

MODULES = ['utils', 'exceptions', 'limitreader', 'bufferedreaders', 'timeutils', 'statusandheaders',
           'digestverifyingreader', 'recordloader', 'recordbuilder', 'warcwriter', 'archiveiterator',
           'indexer', 'checker', 'extractor', 'recompressor', 'capture_http', 'cli']


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_an = {}


def assigned_names(node):
    r = _an.get(id(node))
    if r is None:
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
        _an[id(node)] = r
    return r
