"""pyvc core: values, path context, solver access.

pyvc is a small deductive verifier for the Python code in /repo/warcio.  It
reads the real source on every run (ast), executes a function symbolically
from an arbitrary state allowed by its contract, cuts loops at invariants,
replaces calls by the callee's contract, and hands every obligation to z3
(cvc5 as second solver).  Strings and bytes are z3 strings (bytes = code
points 0..255), ints are mathematical integers (as in Python).
"""
import re
import z3, time, hashlib, os, subprocess, tempfile

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Unsupported(Exception):
    """construct or call outside the supported subset"""


class PathEnd(Exception):
    """this path is finished (infeasible, or reached a loop back edge)"""


class Restart(Exception):
    """loop information changed: explore the function again"""


class S(object):
    """symbolic scalar: k in int, bool, str, bytes"""
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return 'S(%s,%s)' % (self.k, str(self.t)[:80])

    def __bool__(self):
        raise Unsupported('python truth value of a symbolic value')


class Junk(object):
    """value of a variable that is not known at a loop head"""
    def __init__(self, why):
        self.why = why


SORT = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort(), 'bytes': z3.StringSort()}


def kind(v):
    if isinstance(v, S):
        return v.k
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, (bytes, bytearray)):
        return 'bytes'
    if v is None:
        return 'none'
    return 'other'


_sv = {}


def strval(s):
    r = _sv.get(s)
    if r is None:
        out = []
        for ch in s:
            o = ord(ch)
            if 32 <= o < 127 and ch != '\\':
                out.append(ch)
            else:
                out.append('\\u{%x}' % o)
        r = z3.StringVal('')
        r = z3.SeqRef(z3.Z3_mk_string(z3.main_ctx().ref(), ''.join(out)), z3.main_ctx())
        _sv[s] = r
    return r


def term(v):
    """z3 term of a scalar value"""
    if isinstance(v, S):
        return v.t
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return strval(v)
    if isinstance(v, (bytes, bytearray)):
        return strval(bytes(v).decode('latin-1'))
    raise Unsupported('no term for %r' % (v,))


def is_const_str(t):
    return z3.is_string_value(t)


def const_of(t):
    """python string of a z3 string literal"""
    s = t.as_string()
    # z3 escapes as \u{..}
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def wrap(k, t):
    """S, or the python value if t is a literal"""
    if k == 'int' and z3.is_int_value(t):
        return t.as_long()
    if k == 'bool':
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if k in ('str', 'bytes') and z3.is_string_value(t):
        s = const_of(t)
        return s if k == 'str' else s.encode('latin-1')
    return S(k, t)


EMPTY = strval('')


def flat(t):
    """parts of a concatenation"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in t.children():
            r.extend(flat(c))
        return r
    if z3.is_string_value(t) and const_of(t) == '':
        return []
    return [t]


def concat(*ts):
    parts = []
    for t in ts:
        for p in flat(term(t)):
            if parts and z3.is_string_value(p) and z3.is_string_value(parts[-1]):
                parts[-1] = strval(const_of(parts[-1]) + const_of(p))
            else:
                parts.append(p)
    if not parts:
        return EMPTY
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


FIXED = {}


def fixed_len(t):
    """length of a term of known length (digN: N digits of a number, chN: any N characters)"""
    n = t.decl().name()
    if n not in FIXED:
        m = re.match(r'^(?:dig|ch)(\d+)$', n)
        FIXED[n] = int(m.group(1)) if m else None
    return FIXED[n]


def length(t):
    t = term(t)
    n = 0
    ts = []
    for p in flat(t):
        if z3.is_string_value(p):
            n += len(const_of(p))
        elif fixed_len(p) is not None:
            n += fixed_len(p)
        else:
            ts.append(z3.Length(p))
    if not ts:
        return z3.IntVal(n)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return r + n if n else r


def eq(a, b):
    """equality formula of two scalar values"""
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        return z3.BoolVal(False)
    if ta.eq(tb):
        return z3.BoolVal(True)
    if z3.is_string_value(ta) and z3.is_string_value(tb):
        return z3.BoolVal(const_of(ta) == const_of(tb))
    if z3.is_int_value(ta) and z3.is_int_value(tb):
        return z3.BoolVal(ta.as_long() == tb.as_long())
    return ta == tb


def And(*fs):
    fs = [z3.BoolVal(f) if isinstance(f, bool) else term(f) for f in fs]
    fs = [f for f in fs if not z3.is_true(f)]
    if any(z3.is_false(f) for f in fs):
        return z3.BoolVal(False)
    if not fs:
        return z3.BoolVal(True)
    return z3.And(*fs) if len(fs) > 1 else fs[0]


def Or(*fs):
    fs = [z3.BoolVal(f) if isinstance(f, bool) else term(f) for f in fs]
    fs = [f for f in fs if not z3.is_false(f)]
    if any(z3.is_true(f) for f in fs):
        return z3.BoolVal(True)
    if not fs:
        return z3.BoolVal(False)
    return z3.Or(*fs) if len(fs) > 1 else fs[0]


def Not(f):
    f = term(f)
    if z3.is_true(f):
        return z3.BoolVal(False)
    if z3.is_false(f):
        return z3.BoolVal(True)
    if z3.is_not(f):
        return f.children()[0]
    return z3.Not(f)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    c = term(c)
    if z3.is_true(c):
        return term(a)
    if z3.is_false(c):
        return term(b)
    return z3.If(c, term(a), term(b))


# ---------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.cvc5_calls = 0
        self.cvc5_time = 0.0
        self.by = {}
        self.rw_calls = 0
        self.rw_time = 0.0


STATS = Stats()
RLIMIT = 3000000
FEAS_RLIMIT = 20000
_cache = {}


def _smt2(fs):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    return '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))


def cvc5_check(fs, tlimit=8000):
    STATS.cvc5_calls += 1
    t0 = time.time()
    txt = _smt2(fs)
    # z3 prints unicode escapes as \u{..}, as cvc5 reads them
    try:
        p = subprocess.run(['cvc5', '--strings-exp', '--lang=smt2', '--tlimit=%d' % tlimit, '-'],
                           input=txt, capture_output=True, text=True, timeout=tlimit / 1000.0 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except subprocess.TimeoutExpired:
        out = 'unknown'
    STATS.cvc5_time += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'


_abs_consts = {}


def abstracted(fs):
    """the formulas with every application of an uninterpreted function replaced by a constant
    (the same for the same application): weaker, so unsat carries over"""
    memo = {}
    keep = []

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                key = t.get_id()
                c = _abs_consts.get(key)
                if c is None:
                    c = (z3.Const('abs!%d' % len(_abs_consts), t.sort()), t)
                    _abs_consts[key] = c
                r = c[0]
            elif d.kind() == z3.Z3_OP_SEQ_CONCAT:
                r = concat(*ch)
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif d.kind() == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif d.kind() == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            else:
                r = d(*ch)
        else:
            r = t
        memo[k] = r
        keep.append(t)
        return r
    return [go(f) for f in fs]


_HARD = set(getattr(z3, n) for n in ('Z3_OP_SEQ_CONTAINS', 'Z3_OP_SEQ_SUFFIX', 'Z3_OP_SEQ_PREFIX', 'Z3_OP_SEQ_IN_RE', 'Z3_OP_SEQ_REPLACE',
                                      'Z3_OP_SEQ_EXTRACT', 'Z3_OP_SEQ_INDEX') if hasattr(z3, n))


def is_hard(f, memo):
    k = f.get_id()
    if k not in memo:
        memo[k] = z3.is_app(f) and (f.decl().kind() in _HARD or any(is_hard(c, memo) for c in f.children()))
    return memo[k]


def weaker_checks(fs, rlimit):
    """unsat of a weaker set of formulas, or None"""
    ab = abstracted(fs)
    memo = {}
    light = [f for f in ab[:-1] if not is_hard(f, memo)] + ab[-1:]
    for g in ([light] if len(light) < len(ab) else []) + [ab]:
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('timeout', 10000)
        for f in g:
            s.add(f)
        STATS.z3_calls += 1
        if s.check() == z3.unsat:
            return True
    return False


def check(fs, rlimit=None, cvc5=False, want_model=False, weaker=True):
    """satisfiability of a conjunction: 'sat' / 'unsat' / 'unknown', back end, model"""
    key = None
    if not want_model:
        key = (tuple(sorted(set(f.get_id() for f in fs))), cvc5)
        if key in _cache:
            return _cache[key][:3]
    t0 = time.time()
    if fs and not want_model and z3.is_not(fs[-1]) and z3.is_eq(fs[-1].arg(0)):
        from .rewrite import entails
        if entails(fs[:-1], fs[-1].arg(0)):
            STATS.rw_calls += 1
            STATS.rw_time += time.time() - t0
            _cache[key] = ('unsat', 'rewriting', None, list(fs))
            return 'unsat', 'rewriting', None
        STATS.rw_time += time.time() - t0
        t0 = time.time()
    STATS.z3_calls += 1
    s = z3.Solver()
    s.set('rlimit', rlimit or RLIMIT)
    s.set('timeout', 20000)
    for f in fs:
        s.add(f)
    r = str(s.check())
    m = None
    be = 'z3'
    if r == 'sat' and want_model:
        m = s.model()
    if r == 'unknown' and weaker and weaker_checks(fs, rlimit or RLIMIT):
        r = 'unsat'
    STATS.z3_time += time.time() - t0
    if r == 'unknown' and cvc5:
        r = cvc5_check(fs)
        be = 'cvc5'
    if key is not None:
        _cache[key] = (r, be, m, list(fs))     # keep fs alive: ids stay valid
    return r, be, m
