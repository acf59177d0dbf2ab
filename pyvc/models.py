"""models of the external world: builtins, str/bytes methods, streams, zlib,
hashlib, base64, time, ...  Everything here is trusted (listed in evidence)."""
import ast, io, os, re, sys, builtins, zlib, hashlib, base64, tempfile, uuid, json, logging, threading, socket
import binascii, calendar, datetime as _dt, email.utils, collections, collections.abc, argparse, shutil, traceback, operator
import z3
from .core import *
from .heap import *

SS, II, BB = z3.StringSort(), z3.IntSort(), z3.BoolSort()
_uf = {}


def U(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _uf.get(k)
    if f is None:
        f = _uf[k] = z3.Function(name, *sorts)
    return f


# --- spec functions on strings (usable in contracts) -------------------------
f_rstrip = U('rstrip', SS, SS)
f_lstrip = U('lstrip', SS, SS)
f_lower = U('lower', SS, SS)
f_upper = U('upper', SS, SS)
f_enc8 = U('utf8_encode', SS, SS)
f_dec8 = U('utf8_decode', SS, SS)
f_valid8 = U('utf8_valid', SS, BB)
f_isascii = U('is_ascii', SS, BB)
f_isl1 = U('is_latin1', SS, BB)
f_itos = U('itos', II, SS)
f_toint = U('to_int', SS, II, II)
f_isint = U('is_int', SS, II, BB)
f_take = U('stake', SS, II, SS)
f_drop = U('sdrop', SS, II, SS)
f_replace = U('replace_all', SS, SS, SS, SS)

CTXMGR = MCls('contextmanager')


class SymIdx(Exception):
    pass


def lit(t):
    """python string of a literal term or None"""
    t = term(t)
    return const_of(t) if z3.is_string_value(t) else None


def stake(p, t, n):
    """prefix of length n (0 <= n <= len known)"""
    t, n = term(t), z3.simplify(term(n))
    if z3.is_int_value(n):
        k = n.as_long()
        if k == 0:
            return EMPTY
        # through literal prefixes
        parts = flat(t)
        out = []
        for i, x in enumerate(parts):
            if k == 0:
                return concat(*out) if out else EMPTY
            if z3.is_string_value(x):
                s = const_of(x)
                out.append(strval(s[:k]))
                k -= min(k, len(s))
                if k == 0:
                    return concat(*out)
            elif fixed_len(x) is not None and fixed_len(x) <= k:
                out.append(x)
                k -= fixed_len(x)
                if k == 0:
                    return concat(*out)
            else:
                break
    ln = length(t)
    if p.query(n == ln):
        return t
    # prefix parts of a concatenation
    parts = flat(t)
    if len(parts) > 1:
        acc = z3.IntVal(0)
        for i in range(len(parts)):
            if i and p.query(n == acc):
                return concat(*parts[:i])
            acc = z3.simplify(acc + length(parts[i]))
    r = f_take(t, n)
    p.assume(And(t == z3.Concat(r, f_drop(t, n)), z3.Length(r) == n))
    return r


def sdrop(p, t, n):
    t, n = term(t), z3.simplify(term(n))
    if z3.is_int_value(n):
        k = n.as_long()
        if k == 0:
            return t
        parts = flat(t)
        while parts and k:
            if z3.is_string_value(parts[0]):
                s = const_of(parts[0])
                m = min(k, len(s))
                parts = ([strval(s[m:])] if s[m:] else []) + parts[1:]
                k -= m
            elif fixed_len(parts[0]) is not None and fixed_len(parts[0]) <= k:
                k -= fixed_len(parts[0])
                parts = parts[1:]
            else:
                break
        if k == 0:
            return concat(*parts) if parts else EMPTY
    ln = length(t)
    if p.query(n == ln):
        return EMPTY
    parts = flat(t)
    if len(parts) > 1:
        acc = z3.IntVal(0)
        for i in range(len(parts)):
            if i and p.query(n == acc):
                return concat(*parts[i:])
            acc = z3.simplify(acc + length(parts[i]))
    r = f_drop(t, n)
    p.assume(And(t == z3.Concat(f_take(t, n), r), z3.Length(f_take(t, n)) == n))
    return r


def rstrip(p, t):
    s = lit(t)
    if s is not None:
        return strval(s.rstrip())
    t = term(t)
    if z3.is_app(t) and t.decl().name() == 'rstrip':
        return t
    if z3.is_app(t) and t.decl().name() == 'lstrip' and t.num_args() == 1:
        return lstrip(p, rstrip(p, t.arg(0)))
    parts = flat(t)
    while parts and z3.is_string_value(parts[-1]) and const_of(parts[-1]).strip() == '':
        parts = parts[:-1]
    if not parts:
        return EMPTY
    if z3.is_string_value(parts[-1]):
        s = const_of(parts[-1])
        return concat(*(parts[:-1] + [strval(s.rstrip())]))
    t = concat(*parts)
    r = f_rstrip(t)
    p.assume(And(z3.PrefixOf(r, t), z3.Length(r) <= z3.Length(t), f_rstrip(r) == r))
    return r


def lstrip(p, t):
    s = lit(t)
    if s is not None:
        return strval(s.lstrip())
    t = term(t)
    if z3.is_app(t) and t.decl().name() == 'lstrip':
        return t
    parts = flat(t)
    while parts and z3.is_string_value(parts[0]) and const_of(parts[0]).strip() == '':
        parts = parts[1:]
    if not parts:
        return EMPTY
    if z3.is_string_value(parts[0]):
        s = const_of(parts[0])
        return concat(*([strval(s.lstrip())] + parts[1:]))
    t = concat(*parts)
    r = f_lstrip(t)
    p.assume(And(z3.SuffixOf(r, t), z3.Length(r) <= z3.Length(t), f_lstrip(r) == r))
    return r


def chars_strip(p, t, chars, which):
    s = lit(t)
    if s is not None and chars is not None:
        return strval(getattr(s, which)(chars))
    f = U('%s_%s' % (which, ''.join('%02x' % ord(c) for c in sorted(set(chars)))), SS, SS)
    t = term(t)
    parts = flat(t)
    if which == 'rstrip':
        while parts and z3.is_string_value(parts[-1]):
            x = const_of(parts[-1]).rstrip(chars)
            if x:
                return concat(*(parts[:-1] + [strval(x)]))
            parts = parts[:-1]
        if not parts:
            return EMPTY
        t = concat(*parts)
    r = f(t)
    p.assume(And(z3.Length(r) <= z3.Length(t), f(r) == r))
    if which == 'rstrip':
        p.assume(z3.PrefixOf(r, t))
        p.assume(And(*[Not(z3.SuffixOf(strval(x), r)) for x in sorted(set(chars))]))
    if which == 'lstrip':
        p.assume(z3.SuffixOf(r, t))
    return r


def casemap(p, f, t):
    s = lit(t)
    if s is not None:
        return strval(s.lower() if f is f_lower else s.upper())
    t = term(t)
    if z3.is_app(t) and t.decl().eq(f):
        return t
    r = f(t)
    p.assume(f(r) == r)
    p.assume((r == EMPTY) == (t == EMPTY))
    return r


def is_ascii_f(p, t):
    out = []
    for x in flat(term(t)):
        if z3.is_string_value(x):
            if not const_of(x).isascii():
                return z3.BoolVal(False)
        else:
            if z3.is_app(x) and x.decl().name() == 'itos':
                continue
            out.append(f_isascii(x))
    return And(*out)


def enc8(p, t):
    out = []
    for x in flat(term(t)):
        if z3.is_string_value(x):
            out.append(strval(const_of(x).encode('utf-8', 'surrogatepass').decode('latin-1')))
        elif z3.is_app(x) and x.decl().name() == 'itos':
            out.append(x)
        else:
            e = f_enc8(x)
            p.assume(And(f_dec8(e) == x, f_valid8(e), z3.Implies(f_isascii(x), e == x),
                         (e == EMPTY) == (x == EMPTY)))
            out.append(e)
    return concat(*out) if out else EMPTY


def dec8(p, t):
    """(valid formula, decoded term)"""
    parts = flat(term(t))
    s = lit(t)
    if s is not None:
        try:
            return z3.BoolVal(True), strval(s.encode('latin-1').decode('utf-8'))
        except UnicodeDecodeError:
            return z3.BoolVal(False), EMPTY
    # ascii literals are synchronization points
    groups, cur = [], []
    for x in parts:
        if z3.is_string_value(x) and const_of(x).isascii():
            if cur:
                groups.append(('t', concat(*cur)))
                cur = []
            groups.append(('l', x))
        elif z3.is_app(x) and x.decl().eq(f_enc8):
            if cur:
                groups.append(('t', concat(*cur)))
                cur = []
            groups.append(('e', x.arg(0)))
        else:
            cur.append(x)
    if cur:
        groups.append(('t', concat(*cur)))
    ok, out = [], []
    for g, x in groups:
        if g in ('l', 'e'):
            out.append(x)
        else:
            ok.append(f_valid8(x))
            d = f_dec8(x)
            p.assume(And(z3.Implies(f_isascii(x), And(f_valid8(x), d == x)), (d == EMPTY) == (x == EMPTY),
                         z3.Implies(f_valid8(x), f_enc8(d) == x)))
            out.append(d)
    return And(*ok), concat(*out)


def itos(p, n):
    n = z3.simplify(term(n))
    if z3.is_int_value(n):
        return strval(str(n.as_long()))
    r = f_itos(n)
    p.assume(And(f_isint(r, z3.IntVal(10)), f_toint(r, z3.IntVal(10)) == n, z3.Length(r) > 0, f_isascii(r),
                 f_rstrip(r) == r, f_lstrip(r) == r))
    return r


f_isdigits = U('isdigits', SS, BB)


def dig(p, v, n):
    """n decimal digits of a number, which is known to have at most n"""
    v = z3.simplify(term(v))
    if z3.is_int_value(v):
        return strval('%0*d' % (n, v.as_long()))
    r = U('dig%d' % n, II, SS)(v)
    p.assume(And(f_isdigits(r), f_isascii(r), z3.Length(r) == n, f_rstrip(r) == r, f_lstrip(r) == r, f_isint(r, z3.IntVal(10)), f_toint(r, z3.IntVal(10)) == v))
    return r


def digits_value(t):
    """value of a text of decimal digits"""
    v, any_ = z3.IntVal(0), False
    for x in flat(t):
        if z3.is_string_value(x) and re.match('^[0-9]+$', const_of(x)):
            v = v * 10 ** len(const_of(x)) + int(const_of(x))
        elif x.decl().name().startswith('dig') and fixed_len(x) is not None:
            v = v * 10 ** fixed_len(x) + x.arg(0)
        else:
            return None
        any_ = True
    return z3.simplify(v) if any_ else None


def to_int(p, t, base=10):
    """(formula: is an int literal, value)"""
    s = lit(t)
    if s is not None:
        try:
            return z3.BoolVal(True), z3.IntVal(int(s, base))
        except ValueError:
            return z3.BoolVal(False), z3.IntVal(0)
    t = term(t)
    if z3.is_app(t) and t.decl().name() == 'itos' and base == 10:
        return z3.BoolVal(True), t.arg(0)
    if base == 10:
        v = digits_value(t)
        if v is not None:
            return z3.BoolVal(True), v
    b = z3.IntVal(base)
    p.assume(z3.Implies(f_isint(t, b), t != EMPTY))
    return f_isint(t, b), f_toint(t, b)


# --- values ------------------------------------------------------------------
def unreal(v):
    """python data to interpreter values"""
    if isinstance(v, list):
        return VList.of([unreal(x) for x in v])
    if isinstance(v, tuple):
        return tuple(unreal(x) for x in v)
    if isinstance(v, dict) and type(v) in (dict, collections.OrderedDict):
        return VDict({k: unreal(x) for k, x in v.items()})
    if isinstance(v, (set, frozenset)):
        return VSet([unreal(x) for x in v])
    if isinstance(v, bytearray):
        return bytes(v)
    return v


def realize(v):
    """interpreter value to concrete python data, or raise SymIdx"""
    if isinstance(v, S):
        raise SymIdx()
    if isinstance(v, VList):
        if not v.concrete():
            raise SymIdx()
        return [realize(x) for x in v.items()]
    if isinstance(v, VDict):
        if v.pairs is not None:
            raise SymIdx()
        return {realize(k): realize(x) for k, x in v.d.items()}
    if isinstance(v, VSet):
        return set(realize(x) for x in v.items)
    if isinstance(v, tuple):
        return tuple(realize(x) for x in v)
    if isinstance(v, (Obj, Cls, MCls, Func, Bound, Ext, Atom, GenV, Junk, SuperV, ModV)):
        raise SymIdx()
    return v


def is_concrete(v):
    try:
        realize(v)
        return True
    except SymIdx:
        return False


# --- str / bytes ---------------------------------------------------------------
def str_repeat(it, a, b):
    s, n = (a, b) if kind(a) in ('str', 'bytes') else (b, a)
    if not isinstance(s, S) and len(s) == 1:
        k = kind(s)
        f = U('rep_%02x' % (ord(s) if k == 'str' else s[0]), II, SS)
        if isinstance(n, int):
            return s * n
        if it.path.query(And(term(n) >= 0, term(n) <= 3)):
            for j in range(3):
                if it.decide(term(n) == j):
                    return s * j
            return s * 3
        r = f(term(n))
        it.path.assume(z3.Length(r) == z3.If(term(n) > 0, term(n), 0))
        return S(k, r)
    if not isinstance(n, S):
        return wrap(kind(s), concat(*[term(s)] * n)) if n > 0 else ('' if kind(s) == 'str' else b'')
    raise Unsupported('string repetition')


def getslice(it, o, sl):
    p = it.path
    if isinstance(o, VList):
        if o.concrete() and all(not isinstance(x, S) for x in (sl.start, sl.stop, sl.step)):
            return VList.of(o.items()[sl])
        if sl.start is None and sl.stop is None and sl.step is None:
            return VList(o.segs)
        if sl.step == -1 and sl.start is None and sl.stop is None:
            raise Unsupported('reversed list')
        # leading concrete elements
        if sl.step is None and sl.stop is None and isinstance(sl.start, int) and sl.start >= 0:
            segs = p.norm(o.segs)
            if all(isinstance(x, tuple) for x in segs[:sl.start]):
                return VList(segs[sl.start:])
        k = sl.stop if sl.start is None else sl.start if sl.stop is None else None
        segs = p.norm(o.segs)
        if sl.step is None and type(k) is int and 0 <= k <= 16 and len(segs) == 1 and isinstance(segs[0], Atom) and z3.is_const(segs[0].t):
            a = segs[0]
            if it.decide(fLen(a.t) <= k):
                return VList(segs if sl.start is None else [])
            kt = z3.IntVal(k)
            for j in range(k):
                p.split(a, z3.IntVal(j))
            p.assume(And(fLen(fTake(a.t, kt)) == kt, fLen(fDrop(a.t, kt)) == fLen(a.t) - kt))
            return VList(p.norm([p.atom((fTake if sl.start is None else fDrop)(a.t, kt), a.ek)]))
        raise Unsupported('slice of symbolic list')
    if isinstance(o, tuple):
        if any(isinstance(x, S) for x in (sl.start, sl.stop, sl.step)):
            raise Unsupported('symbolic slice')
        return o[sl]
    k = kind(o)
    if isinstance(o, Obj) and 'getslice' in getattr(o.cls, 'methods', {}):
        return o.cls.methods['getslice'](it, o, sl)
    if k not in ('str', 'bytes'):
        if o is None:
            it.throw(TypeError, 'not subscriptable')
        raise Unsupported('slice of %r' % (o,))
    if not isinstance(o, S) and not any(isinstance(x, S) for x in (sl.start, sl.stop, sl.step)):
        return o[sl]
    if sl.step not in (None, 1):
        raise Unsupported('slice step')
    t = term(o)
    n = length(t)

    def norm(x, dflt):
        if x is None:
            return dflt
        x = it.as_int(x)
        if it.decide(x < 0):
            x = z3.simplify(x + n)
            if it.decide(x < 0):
                return z3.IntVal(0)
            return x
        if it.decide(x > n):
            return n
        return x
    a = norm(sl.start, z3.IntVal(0))
    b = norm(sl.stop, n)
    if sl.stop is not None and it.decide(b <= a):
        return '' if k == 'str' else b''
    r = sdrop(p, t, a)
    if sl.stop is not None:
        r = stake(p, r, z3.simplify(b - a))
    return wrap(k, r)


def str_index(it, o, i):
    p = it.path
    k = kind(o)
    t = term(o)
    n = length(t)
    x = it.as_int(i)
    if it.decide(x < 0):
        x = z3.simplify(x + n)
        if it.decide(x < 0):
            it.throw(IndexError, 'string index out of range')
    if not it.decide(x < n):
        it.throw(IndexError, 'string index out of range')
    r = stake(p, sdrop(p, t, x), z3.IntVal(1))
    if k == 'str':
        return wrap('str', r)
    return wrap('int', z3.StrToCode(r))


def contains(it, c, x):
    """formula: x in c"""
    if kind(c) in ('str', 'bytes'):
        if kind(x) != kind(c):
            if kind(c) == 'bytes' and kind(x) == 'int':
                raise Unsupported('int in bytes')
            it.throw(TypeError, 'in <string> requires string')
        if not isinstance(c, S) and not isinstance(x, S):
            return z3.BoolVal(x in c)
        if not isinstance(x, S) and len(x) == 0:
            return z3.BoolVal(True)
        if not isinstance(x, S):
            # literal inside a literal part
            s = x if isinstance(x, str) else x.decode('latin-1')
            for q in flat(term(c)):
                if z3.is_string_value(q) and s in const_of(q):
                    return z3.BoolVal(True)
        if not isinstance(x, S) and len(x) == 1 and len(flat(term(c))) > 1:
            return Or(*[z3.Contains(q, term(x)) if not z3.is_string_value(q) else
                        z3.BoolVal((x if isinstance(x, str) else x.decode('latin-1')) in const_of(q)) for q in flat(term(c))])
        return z3.Contains(term(c), term(x))
    if isinstance(c, VList):
        if c.concrete():
            return Or(*[it.eq_formula(y, x) for y in c.items()])
        raise Unsupported('in symbolic list')
    if isinstance(c, (tuple, list, set, frozenset, range)):
        if isinstance(c, range) and isinstance(x, S):
            return And(term(x) >= c.start, term(x) < c.stop) if c.step == 1 else (_ for _ in ()).throw(Unsupported('in range'))
        return Or(*[it.eq_formula(y, x) for y in c])
    if isinstance(c, VSet):
        return Or(*[it.eq_formula(y, x) for y in c.items])
    if isinstance(c, VDict):
        if c.pairs is not None:
            return pairs_has(it, c, x)
        return Or(*[it.eq_formula(y, x) for y in c.d])
    if isinstance(c, dict):
        return Or(*[it.eq_formula(y, x) for y in c])
    if isinstance(c, Obj) and isinstance(c.cls, Cls):
        d, _ = it.find_attr(c.cls, '__contains__')
        if d is not None:
            return it.truth_formula(it.call(Bound(d, c), [x], {}))
    if isinstance(c, Obj) and 'contains' in getattr(c.cls, 'methods', {}):
        return c.cls.methods['contains'](it, c, x)
    if c is None:
        it.throw(TypeError, 'argument of type NoneType is not iterable')
    raise Unsupported('in %r' % (c,))


def sym_to_str(it, v):
    if v.k == 'int':
        return wrap('str', itos(it.path, v.t))
    if v.k == 'bool':
        return 'True' if it.decide(v.t) else 'False'
    if v.k == 'bytes':
        r = U('repr_bytes', SS, SS)(v.t)
        return S('str', r)
    raise Unsupported('str()')


def percent_format(it, fmt, args):
    if isinstance(fmt, S):
        raise Unsupported('symbolic format')
    k = kind(fmt)
    if not isinstance(args, tuple):
        args = (args,)
    if is_concrete(args):
        try:
            return fmt % realize(args)
        except Exception as e:
            it.throw(type(e), str(e))
    f = fmt if k == 'str' else fmt.decode('latin-1')
    out, i, n = [], 0, 0
    for m in re.finditer(r'%([sd%])', f):
        out.append(strval(f[i:m.start()]))
        i = m.end()
        if m.group(1) == '%':
            out.append(strval('%'))
            continue
        v = args[n]
        n += 1
        if k == 'bytes':
            if kind(v) != 'bytes':
                raise Unsupported('bytes formatting')
            out.append(term(v))
        else:
            out.append(term(it.to_str(v)))
    if '%' in re.sub(r'%[sd%]', '', f) or n != len(args):
        raise Unsupported('format ' + fmt)
    out.append(strval(f[i:]))
    return wrap(k, concat(*out))


def str_format(it, fmt, args, kwargs):
    if isinstance(fmt, S):
        raise Unsupported('symbolic format')
    if is_concrete(tuple(args)) and is_concrete(VDict(kwargs)):
        return fmt.format(*realize(tuple(args)), **realize(VDict(kwargs)))
    import string
    out, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(fmt):
        out.append(strval(text))
        if field is None:
            continue
        if conv not in (None, 's', 'r'):
            raise Unsupported('format spec')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported('format field ' + field)
        if conv == 'r':
            out.append(term(it.path.fresh('str', 'repr')))
            continue
        s = it.to_str(v)
        if spec:
            m = re.match(r'^0(\d+)d?$', spec)
            if m and kind(v) == 'int':
                out.append(zfill(it.path, v, int(m.group(1))))
                continue
            raise Unsupported('format spec ' + spec)
        out.append(term(s))
    return wrap('str', concat(*out))


def zfill(p, v, n):
    if not isinstance(v, S):
        return strval('%0*d' % (n, v))
    if p.query(And(v.t >= 0, v.t < 10 ** n)):
        return dig(p, v, n)
    f = U('zfill%d' % n, II, SS)
    r = f(v.t)
    p.assume(And(z3.Implies(And(v.t >= 0, v.t < 10 ** n), And(z3.Length(r) == n, f_isint(r, z3.IntVal(10)), f_toint(r, z3.IntVal(10)) == v.t)),
                 f_isascii(r)))
    return r


def first_split(p, t, sep):
    """terms (a, b): t == a + sep + b, sep not in a (one-character sep)"""
    parts = flat(t)
    for i, q in enumerate(parts):
        if z3.is_string_value(q) and sep in const_of(q):
            pre = parts[:i]
            if len(sep) == 1 and all(p.query(Not(z3.Contains(x, strval(sep)))) for x in pre if not z3.is_string_value(x)):
                s = const_of(q)
                j = s.index(sep)
                a = concat(*(pre + [strval(s[:j])]))
                b = concat(*([strval(s[j + len(sep):])] + parts[i + 1:]))
                return a, b
            break
    tag = ''.join('%02x' % ord(c) for c in sep)
    a, b = U('before_' + tag, SS, SS)(t), U('after_' + tag, SS, SS)(t)
    p.assume(And(t == z3.Concat(a, strval(sep), b), Not(z3.Contains(concat(a, strval(sep[:-1])), strval(sep)))))
    return a, b


def last_split(p, t, sep):
    parts = flat(t)
    for i in range(len(parts) - 1, -1, -1):
        q = parts[i]
        if z3.is_string_value(q) and sep in const_of(q):
            post = parts[i + 1:]
            if all(p.query(Not(z3.Contains(x, strval(sep)))) for x in post if not z3.is_string_value(x)):
                s = const_of(q)
                j = s.rindex(sep)
                return concat(*(parts[:i] + [strval(s[:j])])), concat(*([strval(s[j + len(sep):])] + post))
            break
    tag = ''.join('%02x' % ord(c) for c in sep)
    a, b = U('rbefore_' + tag, SS, SS)(t), U('rafter_' + tag, SS, SS)(t)
    p.assume(And(t == z3.Concat(a, strval(sep), b), Not(z3.Contains(b, strval(sep)))))
    return a, b


def sep_text(sep):
    if isinstance(sep, S):
        raise Unsupported('symbolic separator')
    return sep if isinstance(sep, str) else sep.decode('latin-1')


def str_split(it, s, sep=None, maxsplit=-1, right=False):
    p = it.path
    k = kind(s)
    if sep is None:
        raise Unsupported('split on whitespace')
    sep = sep_text(sep)
    if len(sep) == 0:
        it.throw(ValueError, 'empty separator')
    if len(sep) != 1 and right:
        raise Unsupported('rsplit at longer separator')
    t = term(s)
    if isinstance(maxsplit, S):
        raise Unsupported('maxsplit')
    out = []
    if maxsplit < 0:
        # only with a bound known: count occurrences
        maxsplit = 12
        unbounded = True
    else:
        unbounded = False
    n = 0
    if unbounded and not right:
        # the rest of the list is only split as far as needed
        if not it.decide(contains(it, wrap('str', t), sep)):
            return VList.of([wrap(k, t)])
        a, b = first_split(p, t, sep)
        at = p.atom(U('parts_' + ''.join('%02x' % ord(x) for x in sep), SS, LS)(b), k)
        p.assume(fLen(at.t) >= 1)
        return VList([('e', wrap(k, a)), at])
    while n < maxsplit and it.decide(contains(it, wrap('str', t), sep)):
        a, b = (last_split if right else first_split)(p, t, sep)
        if right:
            out.insert(0, wrap(k, b))
            t = a
        else:
            out.append(wrap(k, a))
            t = b
        n += 1
    if unbounded and n == maxsplit:
        raise Unsupported('unbounded split')
    if right:
        out.insert(0, wrap(k, t))
    else:
        out.append(wrap(k, t))
    return VList.of(out)


def lazy_first(it, s, sep, k):
    """s.split(sep)[0]"""


HOM_CAT = {}


def cat_hom(k):
    if k not in HOM_CAT:
        HOM_CAT[k] = Hom('cat_' + k, SS, EMPTY, lambda parts, base=None: concat(*parts) if parts else EMPTY, lambda x: term(x))
    return HOM_CAT[k]


def str_join(it, sep, lst):
    k = kind(sep)
    if isinstance(lst, VList) and not lst.concrete():
        if not isinstance(sep, S) and len(sep) == 0:
            return wrap(k, it.path.hom(cat_hom(k), lst.segs))
        h = join_hom(sep)
        segs = it.path.norm(lst.segs)
        raise Unsupported('join of symbolic list')
    items = list(it.iterate(lst, None, None))
    for x in items:
        if kind(x) != k:
            it.throw(TypeError, 'sequence item: expected %s' % k)
    ts = []
    for i, x in enumerate(items):
        if i:
            ts.append(term(sep))
        ts.append(term(x))
    return wrap(k, concat(*ts)) if ts else ('' if k == 'str' else b'')


def encode(it, s, enc='utf-8', errors='strict'):
    p = it.path
    if kind(s) != 'str':
        it.throw(AttributeError, 'encode')
    e = sep_text(enc).lower().replace('_', '-')
    if not isinstance(s, S):
        try:
            return s.encode(enc, errors)
        except Exception as x:
            it.throw(type(x), 'encode')
    if e in ('utf-8', 'utf8'):
        return wrap('bytes', enc8(p, s.t))
    if e in ('ascii', 'us-ascii'):
        if errors != 'strict':
            raise Unsupported('encode errors=')
        if it.decide(is_ascii_f(p, s.t)):
            return S('bytes', s.t)
        it.throw(UnicodeEncodeError, 'ascii')
    if e in ('latin-1', 'iso-8859-1', 'latin1'):
        if it.decide(f_isl1(s.t)):
            return S('bytes', s.t)
        it.throw(UnicodeEncodeError, 'latin-1')
    raise Unsupported('encoding ' + e)


def decode(it, s, enc='utf-8', errors='strict'):
    p = it.path
    if kind(s) != 'bytes':
        it.throw(AttributeError, 'decode')
    e = sep_text(enc).lower().replace('_', '-')
    if not isinstance(s, S):
        try:
            return s.decode(enc, errors)
        except Exception as x:
            it.throw(type(x), 'decode')
    if e in ('latin-1', 'iso-8859-1', 'latin1'):
        return S('str', s.t)
    if errors != 'strict':
        raise Unsupported('decode errors=')
    if e in ('utf-8', 'utf8'):
        ok, d = dec8(p, s.t)
        if it.decide(ok):
            return wrap('str', d)
        it.throw(UnicodeDecodeError, 'utf-8')
    if e in ('ascii', 'us-ascii'):
        if it.decide(is_ascii_f(p, s.t)):
            return S('str', s.t)
        it.throw(UnicodeDecodeError, 'ascii')
    raise Unsupported('encoding ' + e)


def starts(it, s, pre, suffix=False):
    if isinstance(pre, tuple):
        return wrap('bool', Or(*[term(starts(it, s, x, suffix)) for x in pre]))
    if kind(pre) != kind(s):
        it.throw(TypeError, 'startswith')
    l = lit(pre)
    parts = flat(term(s))
    if l is not None:
        if l == '':
            return True
        if parts:
            e = parts[-1] if suffix else parts[0]
            if z3.is_string_value(e):
                c = const_of(e)
                if len(c) >= len(l) or len(parts) == 1:
                    return c.endswith(l) if suffix else c.startswith(l)
                if not (l.endswith(c) if suffix else l.startswith(c)):
                    return False
        else:
            return False
    return wrap('bool', (z3.SuffixOf if suffix else z3.PrefixOf)(term(pre), term(s)))


def str_replace_m(it, s, a, b, cnt=-1):
    if not isinstance(cnt, int) or cnt >= 0:
        raise Unsupported('replace count')
    t = term(s)
    r = f_replace(t, term(a), term(b))
    it.path.assume(z3.Implies(Not(z3.Contains(t, term(a))), r == t))
    if lit(a) is not None and lit(b) is not None and lit(a) not in lit(b) and len(lit(a)) == 1:
        it.path.assume(Not(z3.Contains(r, term(a))))
    return wrap(kind(s), r)


def str_find(it, s, x, start=None):
    if start is not None:
        raise Unsupported('find with start')
    t, xt = term(s), term(x)
    if it.decide(contains(it, s, x)):
        a, b = first_split(it.path, t, const_of(xt)) if z3.is_string_value(xt) else (None, None)
        if a is None or len(const_of(xt)) != 1:
            r = z3.IndexOf(t, xt, 0)
            it.path.assume(And(r >= 0, r + length(xt) <= length(t)))
            return wrap('int', r)
        return wrap('int', length(a))
    return -1


def str_methods(it, v, name):
    k = kind(v)
    p = it.path

    def same(a):
        if kind(a) != k:
            it.throw(TypeError, 'mixing str and bytes')
        return a

    def partition(right=False):
        def f(sep):
            st = sep_text(sep)
            e = '' if k == 'str' else b''
            if it.decide(contains(it, v, sep)):
                a, b = (last_split if right else first_split)(p, term(v), st)
                return (wrap(k, a), sep, wrap(k, b))
            return (e, e, v) if right else (v, e, e)
        return f

    def strip_m(which):
        def f(chars=None):
            if chars is None:
                t = term(v)
                if which in ('rstrip', 'strip'):
                    t = rstrip(p, t)
                if which in ('lstrip', 'strip'):
                    t = lstrip(p, t)
                return wrap(k, t)
            c = sep_text(chars)
            if which == 'strip':
                return wrap(k, chars_strip(p, chars_strip(p, term(v), c, 'rstrip'), c, 'lstrip'))
            return wrap(k, chars_strip(p, term(v), c, which))
        return f

    def removeprefix(x):
        if it.truth(starts(it, v, same(x))):
            return wrap(k, sdrop(p, term(v), length(term(x))))
        return v

    def removesuffix(x):
        if it.truth(starts(it, v, same(x), True)):
            return wrap(k, stake(p, term(v), z3.simplify(length(term(v)) - length(term(x)))))
        return v

    def index(x):
        r = str_find(it, v, same(x))
        if r == -1 and not isinstance(r, S):
            it.throw(ValueError, 'substring not found')
        return r

    table = {
        'lower': lambda: wrap(k, casemap(p, f_lower, term(v))),
        'casefold': lambda: wrap(k, casemap(p, f_lower, term(v))),
        'upper': lambda: wrap(k, casemap(p, f_upper, term(v))),
        'strip': strip_m('strip'), 'rstrip': strip_m('rstrip'), 'lstrip': strip_m('lstrip'),
        'startswith': lambda x: starts(it, v, x), 'endswith': lambda x: starts(it, v, x, True),
        'split': lambda sep=None, maxsplit=-1: str_split(it, v, sep, maxsplit),
        'rsplit': lambda sep=None, maxsplit=-1: str_split(it, v, sep, maxsplit, True),
        'partition': partition(), 'rpartition': partition(True),
        'replace': lambda a, b, cnt=-1: str_replace_m(it, v, same(a), same(b), cnt),
        'encode': lambda encoding='utf-8', errors='strict': encode(it, v, encoding, errors),
        'decode': lambda encoding='utf-8', errors='strict': decode(it, v, encoding, errors),
        'join': lambda l: str_join(it, v, l),
        'find': lambda x, start=None: str_find(it, v, same(x), start),
        'index': index,
        'removeprefix': removeprefix, 'removesuffix': removesuffix,
        'isascii': lambda: wrap('bool', is_ascii_f(p, term(v))),
        'isdigit': lambda: wrap('bool', U('isdigit_' + k, SS, BB)(term(v))),
        '__len__': lambda: wrap('int', length(term(v))),
        'tobytes': lambda: v,
    }
    if name == 'encode' and k == 'bytes' or name == 'decode' and k == 'str':
        return None
    f = table.get(name)
    if f is None:
        return None

    def call(it_, args, kwargs):
        return f(*args, **kwargs)
    return Ext(k + '.' + name, call)


def list_methods(it, v, name):
    def append(x):
        v.segs = v.segs + [('e', x)]
        it.record(v, '*')

    def extend(x):
        it.list_extend(v, x)

    def pop(i=-1):
        x = it.getitem(v, i)
        it.delitem(v, i)
        return x

    def insert(i, x):
        if not isinstance(i, int):
            raise Unsupported('insert')
        segs = it.path.norm(v.segs)
        if i == 0 or all(isinstance(s, tuple) for s in segs[:max(i, 0)]) and i >= 0 and i <= len(segs):
            v.segs = segs[:i] + [('e', x)] + segs[i:]
        else:
            raise Unsupported('insert')
        it.record(v, '*')

    def clear():
        v.segs = []
        it.record(v, '*')

    def remove(x):
        if not v.concrete():
            raise Unsupported('remove from symbolic list')
        for i, y in enumerate(v.items()):
            if it.decide(it.eq_formula(y, x)):
                it.delitem(v, i)
                return
        it.throw(ValueError, 'not in list')

    def index(x):
        if not v.concrete():
            raise Unsupported('index in symbolic list')
        for i, y in enumerate(v.items()):
            if it.decide(it.eq_formula(y, x)):
                return i
        it.throw(ValueError, 'not in list')

    def reverse():
        if not v.concrete():
            raise Unsupported('reverse of symbolic list')
        v.segs = list(reversed(v.segs))
        it.record(v, '*')
    table = {'append': append, 'extend': extend, 'pop': pop, 'insert': insert, 'clear': clear,
             'copy': lambda: VList(v.segs), 'remove': remove, 'index': index, 'reverse': reverse,
             '__len__': lambda: wrap('int', it.path.rope_len(v.segs))}
    f = table.get(name)
    return Ext('list.' + name, lambda i, a, k: f(*a, **k)) if f else None


# symbolic dict of texts: its keys, and the value of a key
DKEY = Hom('dkey', z3.BoolSort(), z3.BoolVal(False), lambda ps, base=None: Or(*ps), lambda x, k: eq(S('str', term(x[0])), S('str', k)), (SS,))


def _dval(ps, base):
    path, h, keys, raw = base
    r = EMPTY
    for x, t in reversed(list(zip(raw, ps))):
        r = If(DKEY.elem(x, *keys) if isinstance(x, tuple) else DKEY.f(x, *keys), t, r)
    return r


DVAL = Hom('dval', SS, EMPTY, _dval, lambda x, k: term(x[1]), (SS,))


def pairs_has(it, d, k):
    if kind(k) != 'str':
        return z3.BoolVal(False)
    return it.path.hom(DKEY, d.pairs, term(k))


def pairs_get(it, d, k, default, must=False):
    if it.decide(pairs_has(it, d, k)):
        return wrap('str', it.path.hom(DVAL, d.pairs, term(k)))
    if must:
        it.throw(KeyError, k)
    return default


def pairs_set(it, d, k, x):
    if kind(k) != 'str' or kind(x) != 'str':
        raise Unsupported('symbolic dict store')
    if it.decide(pairs_has(it, d, k)):
        d.pairs = [it.path.new_atom('pair', 'stored')]
    else:
        d.pairs = list(d.pairs) + [('e', (k, x))]


def dict_methods(it, v, name):
    def need():
        if v.pairs is not None:
            raise Unsupported('dict method on symbolic mapping')

    def items():
        if v.pairs is not None:
            return VList(v.pairs)
        return VList.of([(k, x) for k, x in v.d.items()])

    def get(k, d=None):
        if v.pairs is not None:
            return pairs_get(it, v, k, d)
        return it.dict_get(v, k, d)

    def setdefault(k, d=None):
        need()
        if k not in v.d:
            it.setitem(v, k, d)
        return v.d[k]

    def update(*a, **kw):
        need()
        for x in a:
            if isinstance(x, VDict) and x.pairs is None:
                for k, y in x.d.items():
                    it.setitem(v, k, y)
            elif isinstance(x, VList) and x.concrete():
                for y in x.items():
                    it.setitem(v, y[0], y[1])
            else:
                raise Unsupported('dict.update')
        for k, y in kw.items():
            it.setitem(v, k, y)

    def pop(k, *d):
        need()
        if isinstance(k, S):
            raise Unsupported('symbolic key')
        if k in v.d:
            x = v.d[k]
            it.delitem(v, k)
            return x
        if d:
            return d[0]
        it.throw(KeyError, k)

    def keys():
        need()
        return VList.of(list(v.d))

    def copy():
        return VDict(dict(v.d), list(v.pairs) if v.pairs is not None else None)
    table = {'items': items, 'get': get, 'setdefault': setdefault, 'update': update, 'pop': pop, 'keys': keys,
             'values': lambda: (need(), VList.of(list(v.d.values())))[1], 'copy': copy,
             '__len__': lambda: len(v.d)}
    f = table.get(name)
    return Ext('dict.' + name, lambda i, a, k: f(*a, **k)) if f else None


def rx_methods(it, rx, name):
    """methods of compiled regular expressions"""
    def call(it_, args, kwargs):
        if is_concrete(tuple(args)) and not any(isinstance(a, (Func, Bound, Ext)) for a in args):
            r = getattr(rx, name)(*realize(tuple(args)), **kwargs)
            return unreal(r)
        h = RX_MODELS.get((rx.pattern, name))
        if h is not None:
            return h(it, rx, *args)
        s = args[-1]
        k = kind(s)
        if name in ('match', 'search', 'fullmatch') and k in ('str', 'bytes'):
            f = rx_formula(rx, name, term(s))
            if it.decide(f):
                return Obj(MATCH, {'s': s, 'rx': rx, 'name': name})
            return None
        if name == 'sub' and k == 'str' and len(args) == 2 and not kwargs:
            return rx_sub(it, rx, args[0], s)
        if name == 'split' and k in ('str', 'bytes') and len(args) == 1 and not kwargs:
            return rx_split(it, rx, s)
        if name in ('sub', 'split') and k in ('str', 'bytes'):
            raise Unsupported('regex %s on symbolic text' % name)
        raise Unsupported('regex method ' + name)
    return Ext('re.' + name, call)


RX_MODELS = {}


def rx_split(it, rx, s):
    """split at single characters that are no digits, of a text made of literals and digits"""
    import re._parser as sre
    k = kind(s)
    if rx.groups or sre.parse(rx.pattern).getwidth() != (1, 1):
        raise Unsupported('regex split')
    out, cur = [], []
    for x in flat(term(s)):
        if z3.is_string_value(x):
            ps = rx.split(const_of(x))
            for i, q in enumerate(ps):
                if i:
                    out.append(concat(*cur) if cur else EMPTY)
                    cur = []
                if q:
                    cur.append(strval(q))
        elif it.path.query(f_isdigits(x)) and not any(rx.search(d) for d in '0123456789'):
            cur.append(x)
        else:
            raise Unsupported('regex split')
    out.append(concat(*cur) if cur else EMPTY)
    return VList.of([wrap(k, x) for x in out])


SUBMATCH = MCls('submatch', {'group': lambda it, self, i=0: S('str', z3.Const('rx_group_%s' % (i,), SS))})


def f_rxsub(rx, repl):
    """substitution, a function of the text for each pattern and replacement (a term over the groups)"""
    import hashlib
    return U(rx_name(rx, 'sub') + '_' + hashlib.md5(repl.sexpr().encode()).hexdigest()[:8], SS, SS)


def rx_sub(it, rx, repl, s):
    if isinstance(repl, str):
        if '\\' in repl:
            raise Unsupported('regex sub')
        r = repl
    else:
        r = it.call(repl, [Obj(SUBMATCH)], {})
    return S('str', f_rxsub(rx, term(r))(term(s)))


def f_quote(safe):
    return U('quote_%s' % (''.join('%02x' % ord(c) for c in safe) if len(safe) < 20 else 'all_ascii' if set(map(chr, range(128))) <= set(safe) else 'x'), SS, SS)


def quote(it, v, safe='/', encoding=None, errors=None):
    if kind(v) != 'str' or isinstance(safe, S) or encoding not in (None, 'utf-8', 'UTF-8') or errors is not None:
        raise Unsupported('quote')
    t = term(v)
    f = f_quote(safe)
    if len(safe) >= 20 and 'all_ascii' not in f.name():
        raise Unsupported('quote safe=')
    quote_facts(it.path, f, t)
    return S('str', f(t))


def quote_facts(p, f, t):
    p.assume(f_isascii(f(t)))
    p.assume((f(t) == EMPTY) == (t == EMPTY))
    if 'all_ascii' in f.name():
        p.assume(Implies(f_isascii(t), f(t) == t))


def rx_name(rx, name):
    pat = rx.pattern if isinstance(rx.pattern, str) else rx.pattern.decode('latin-1')
    import hashlib
    return 'rx_%s_%s_%d' % (name, hashlib.md5(pat.encode()).hexdigest()[:8], rx.flags)


def rx_formula(rx, name, t):
    z = rx_to_z3(rx, name)
    if z is not None:
        return z3.InRe(t, z)
    return U(rx_name(rx, name), SS, BB)(t)


_rxz = {}


def rx_to_z3(rx, name):
    key = (rx.pattern, rx.flags, name)
    if key in _rxz:
        return _rxz[key]
    try:
        import re._parser as sp
        pat = rx.pattern if isinstance(rx.pattern, str) else rx.pattern.decode('latin-1')
        tree = sp.parse(pat, rx.flags & ~re.UNICODE if isinstance(rx.pattern, bytes) else rx.flags)
        isb = isinstance(rx.pattern, bytes)
        z, anchored = _rx_seq(list(tree), isb)
        if name == 'search':
            z = z3.Concat(z3.Full(z3.ReSort(SS)), z)
        if not anchored and name != 'fullmatch':
            z = z3.Concat(z, z3.Full(z3.ReSort(SS)))
        r = z
    except Exception:
        r = None
    _rxz[key] = r
    return r


def _rx_set(items, isb):
    from re import _constants as sc
    out, neg = [], False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append((av, av))
        elif op is sc.RANGE:
            out.append(av)
        elif op is sc.CATEGORY and av is sc.CATEGORY_DIGIT and isb:
            out.append((48, 57))
        else:
            raise ValueError
    if neg:
        mx = 255 if isb else 0x2ffff
        cov, cur = [], 0
        for a, b in sorted(out):
            if a > cur:
                cov.append((cur, a - 1))
            cur = max(cur, b + 1)
        if cur <= mx:
            cov.append((cur, mx))
        out = cov
    rs = [z3.Range(strval(chr(a)), strval(chr(b))) if a != b else z3.Re(strval(chr(a))) for a, b in out]
    return z3.Union(*rs) if len(rs) > 1 else rs[0]


def _rx_seq(items, isb):
    from re import _constants as sc
    parts, anchored = [], False
    for n, (op, av) in enumerate(items):
        if op is sc.LITERAL:
            parts.append(z3.Re(strval(chr(av))))
        elif op is sc.NOT_LITERAL:
            parts.append(_rx_set([(sc.NEGATE, None), (sc.LITERAL, av)], isb))
        elif op is sc.ANY:
            parts.append(_rx_set([(sc.NEGATE, None), (sc.LITERAL, 10)], isb))
        elif op is sc.IN:
            parts.append(_rx_set(av, isb))
        elif op is sc.MAX_REPEAT:
            lo, hi, sub = av
            z, a = _rx_seq(list(sub), isb)
            if a:
                raise ValueError
            if (lo, hi) == (0, 1):
                parts.append(z3.Option(z))
            elif hi is sc.MAXREPEAT and lo == 0:
                parts.append(z3.Star(z))
            elif hi is sc.MAXREPEAT and lo == 1:
                parts.append(z3.Plus(z))
            elif hi is not sc.MAXREPEAT:
                parts.append(z3.Loop(z, lo, hi))
            else:
                raise ValueError
        elif op is sc.SUBPATTERN:
            z, a = _rx_seq(list(av[3]), isb)
            if a:
                raise ValueError
            parts.append(z)
        elif op is sc.BRANCH:
            zs = []
            for b in av[1]:
                z, a = _rx_seq(list(b), isb)
                if a:
                    raise ValueError
                zs.append(z)
            parts.append(z3.Union(*zs))
        elif op is sc.AT and av is sc.AT_END_STRING and n == len(items) - 1:
            anchored = True
        elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and n == 0:
            pass
        else:
            raise ValueError
    if not parts:
        return z3.Re(EMPTY), anchored
    return (z3.Concat(*parts) if len(parts) > 1 else parts[0]), anchored


MATCH = MCls('re.Match')


# --- external objects ------------------------------------------------------------
def m_none(it, self, *a, **k):
    return None


def int_arg(it, n):
    """size argument: None -> None"""
    if n is None:
        return None
    return it.as_int(n)


def abs_read(it, self, n=-1):
    """read: nondeterministically short, empty only at the end or for size 0"""
    p = it.path
    if 'closed' in self.attrs and self.attrs['closed'] is True:
        it.throw(ValueError, 'closed')
    rest = term(self.attrs['rest'])
    n = int_arg(it, n)
    allread = n is None or it.decide(n < 0)
    if allread and 'noneg' in self.attrs:
        it.throw(ValueError, 'size')
    r, q = p.fresh('bytes', 'rd').t, p.fresh('bytes', 'rest').t
    p.assume(rest == concat(r, q))
    if allread:
        p.assume(q == EMPTY)
    else:
        p.assume(z3.Length(r) <= n)
        p.assume(z3.Implies(And(r == EMPTY, n > 0), rest == EMPTY))
        if self.attrs.get('full'):
            p.assume(z3.Or(z3.Length(r) == n, q == EMPTY))
    advance(it, self, r, q)
    return S('bytes', r)


def advance(it, self, r, q):
    self.attrs['rest'] = S('bytes', q)
    it.record(self, 'rest')
    if 'pos' in self.attrs:
        self.attrs['pos'] = S('int', term(self.attrs['pos']) + z3.Length(r))
        it.record(self, 'pos')


NL = strval('\n')


def line_facts(r, q, n):
    """r is the next line (n: limit term or None), q the rest after it"""
    body = [z3.Or(q == EMPTY, z3.SuffixOf(NL, r), *( [z3.Length(r) == n] if n is not None else [])),
            # no newline before the last byte
            is_line(r)]
    if n is not None:
        body.append(z3.Length(r) <= n)
    return And(*body)


def is_line(t):
    """t has no newline except possibly as its last byte (chop(t) is t without a final newline: def_line)"""
    x = U('chop', SS, SS)(t)
    return And(z3.Implies(z3.SuffixOf(NL, t), And(t == z3.Concat(x, NL), Not(z3.Contains(x, NL)))),
               z3.Implies(Not(z3.SuffixOf(NL, t)), Not(z3.Contains(t, NL))))


def def_line(p, t):
    """definition of chop, needed where is_line is to be shown"""
    p.assume(z3.Implies(z3.SuffixOf(NL, t), t == z3.Concat(U('chop', SS, SS)(t), NL)))
    return is_line(t)


def det_line(rest, n):
    return U('first_line', SS, II, SS)(rest, n), U('after_line', SS, II, SS)(rest, n)


def abs_readline(it, self, n=-1):
    p = it.path
    if 'closed' in self.attrs and self.attrs['closed'] is True:
        it.throw(ValueError, 'closed')
    rest = term(self.attrs['rest'])
    n = int_arg(it, n)
    lim = n is not None and not it.decide(n < 0)
    if 'det' in self.attrs:
        # the same stream content gives the same line
        r, q = det_line(rest, n if lim else z3.IntVal(-1))
    else:
        r, q = p.fresh('bytes', 'ln').t, p.fresh('bytes', 'rest').t
    h = p.ghost.get('on_readline')
    if h is not None:
        h(self, rest, n if lim else None, r, q)
    if lim:
        p.assume(And(rest == concat(r, q), line_facts(r, q, n), z3.Implies(And(n > 0, r == EMPTY), rest == EMPTY)))
    else:
        p.assume(And(rest == concat(r, q), line_facts(r, q, None), z3.Implies(r == EMPTY, rest == EMPTY)))
    advance(it, self, r, q)
    return S('bytes', r)


def abs_tell(it, self):
    if 'pos' not in self.attrs:
        it.throw(AttributeError, 'tell')
    return self.attrs['pos']


def abs_close(it, self):
    self.attrs['closed'] = True
    it.record(self, 'closed')


ABS = MCls('stream', {'read': abs_read, 'readline': abs_readline, 'tell': abs_tell, 'close': abs_close})


def new_stream(it, label='in', pos=True, **kw):
    p = it.path
    o = Obj(ABS, {'rest': p.fresh('bytes', label)})
    if pos:
        o.attrs['pos'] = p.fresh('int', label + '_pos')
        p.assume(o.attrs['pos'].t >= 0)
    o.attrs.update(kw)
    return o


# BytesIO / temporary files: content + position
def bio_rest(it, self):
    """(terms) content before / after the position"""
    p = it.path
    buf, pos = term(self.attrs['buf']), term(self.attrs['pos'])
    if p.query(pos >= length(buf)):
        return buf, EMPTY
    if p.query(pos == 0):
        return EMPTY, buf
    if not p.query(pos <= length(buf)):
        if it.decide(pos >= length(buf)):
            return buf, EMPTY
    return stake(p, buf, pos), sdrop(p, buf, pos)


def bio_chk(it, self):
    if self.attrs.get('closed') is True:
        it.throw(ValueError, 'I/O operation on closed file')


def setpos(it, self, t):
    self.attrs['pos'] = wrap('int', z3.simplify(t))
    it.record(self, 'pos')


def bio_read(it, self, n=-1):
    bio_chk(it, self)
    p = it.path
    pre, rest = bio_rest(it, self)
    n = int_arg(it, n)
    pos = term(self.attrs['pos'])
    if n is None or it.decide(n < 0):
        r = rest
    elif it.decide(n >= length(rest)):
        r = rest
    else:
        r = stake(p, rest, n)
        bio_adv(p, self, r, sdrop(p, rest, n))
    setpos(it, self, pos + length(r))
    return wrap('bytes', r)


def bio_adv(p, self, r, q):
    """r was read, q is left: lemma about the part after the new position"""
    pos = z3.simplify(term(self.attrs['pos']) + length(r))
    if not z3.is_int_value(pos):
        p.assume(f_drop(term(self.attrs['buf']), pos) == q)


def bio_readline(it, self, n=-1):
    bio_chk(it, self)
    p = it.path
    pre, rest = bio_rest(it, self)
    n = int_arg(it, n)
    pos = term(self.attrs['pos'])
    if it.decide(contains(it, wrap('bytes', rest), b'\n')):
        a, q = first_split(p, rest, '\n')
        r = concat(a, NL)
    else:
        r, q = rest, EMPTY
    if n is not None and not it.decide(n < 0):
        if it.decide(n < length(r)):
            q = concat(sdrop(p, r, n), q)
            r = stake(p, r, n)
            p.assume(Not(z3.Contains(r, NL)))
    p.assume(is_line(r))
    bio_adv(p, self, r, q)
    setpos(it, self, pos + length(r))
    return wrap('bytes', r)


def bio_write(it, self, data):
    bio_chk(it, self)
    p = it.path
    if isinstance(data, Obj) and 'bytes' in data.attrs:
        data = data.attrs['bytes']
    if kind(data) != 'bytes':
        it.throw(TypeError, 'bytes-like object required')
    buf, pos = term(self.attrs['buf']), term(self.attrs['pos'])
    if p.query(pos == length(buf)):
        self.attrs['buf'] = wrap('bytes', concat(buf, term(data)))
    else:
        raise Unsupported('overwrite in the middle')
    it.record(self, 'buf')
    setpos(it, self, pos + length(term(data)))
    return wrap('int', length(term(data)))


def bio_seek(it, self, pos, whence=0):
    bio_chk(it, self)
    if whence == 2 and not isinstance(pos, S) and pos == 0:
        setpos(it, self, length(term(self.attrs['buf'])))
        return self.attrs['pos']
    if whence != 0:
        raise Unsupported('seek whence')
    if it.decide(it.as_int(pos) < 0):
        it.throw(ValueError, 'negative seek')
    setpos(it, self, it.as_int(pos))
    return pos


def bio_close(it, self):
    self.attrs['closed'] = True
    it.record(self, 'closed')


def bio_getvalue(it, self):
    bio_chk(it, self)
    return self.attrs['buf']


def bio_enter(it, self):
    return self


def bio_exit(it, self, *a):
    bio_close(it, self)
    return None


def bio_iter(it, self):
    raise Unsupported('iteration over lines')


BIO_METHODS = {'read': bio_read, 'readline': bio_readline, 'write': bio_write, 'seek': bio_seek, 'close': bio_close,
               'tell': lambda it, self: (bio_chk(it, self), self.attrs['pos'])[1], 'getvalue': bio_getvalue,
               'flush': m_none, '__enter__': bio_enter, '__exit__': bio_exit, 'iter': bio_iter}
BIO = MCls('BytesIO', BIO_METHODS, real=io.BytesIO)
TMP = MCls('TemporaryFile', BIO_METHODS)


def new_bio(it, data=b'', cls=BIO):
    return Obj(cls, {'buf': data, 'pos': 0})


# output file: everything written, in order
def out_write(it, self, data):
    if isinstance(data, Obj) and 'bytes' in data.attrs:
        data = data.attrs['bytes']
    if kind(data) != self.attrs.get('k', 'bytes'):
        it.throw(TypeError, 'write argument')
    self.attrs['data'] = wrap(self.attrs.get('k', 'bytes'), concat(term(self.attrs['data']), term(data)))
    it.record(self, 'data')
    self.attrs['flushed'] = False
    it.record(self, 'flushed')
    return wrap('int', length(term(data)))


def out_flush(it, self):
    self.attrs['flushed'] = True
    it.record(self, 'flushed')


OUT = MCls('output', {'write': out_write, 'flush': out_flush, 'close': abs_close})


def new_out(it, k='bytes', label='out'):
    return Obj(OUT, {'data': it.path.fresh(k, label), 'k': k, 'flushed': it.path.fresh('bool', 'flushed')})


# zlib
f_out = U('dec_out', SS, SS, SS)        # type, raw -> output produced so far
f_unu = U('dec_unused', SS, SS, SS)     # type, raw -> unused data
f_err = U('dec_err', SS, SS, BB)        # type, raw -> feeding it fails
f_fut = U('dec_future', SS, SS, SS, SS)  # type, fed, more -> output still to come
f_ok = U('dec_valid', SS, SS, BB)       # type, all data -> no prefix fails
f_comp = U('gz_comp', SS, SS)           # one complete gzip member holding the data


def dec_facts(p, typ, h, t):
    """axioms of decompression, for fed data h, data to come t"""
    a = concat(h, t)
    p.assume(And(
        z3.Implies(f_ok(typ, a), And(Not(f_err(typ, h)),
                                     f_out(typ, a) == z3.Concat(f_out(typ, h), f_fut(typ, h, t)),
                                     z3.Implies(f_unu(typ, h) != EMPTY, f_fut(typ, h, t) == EMPTY))),
        z3.Implies(And(Not(f_ok(typ, a)), Not(f_err(typ, h))), And(f_out(typ, h) == EMPTY, f_unu(typ, h) == EMPTY))))
    p.assume(Implies(eq(t, EMPTY), And(f_fut(typ, h, t) == EMPTY, z3.Implies(Not(f_ok(typ, a)), f_err(typ, h)))))


def dc_decompress(it, self, data, max_length=0):
    p = it.path
    typ, h = term(self.attrs['typ']), term(self.attrs['fed'])
    if kind(data) != 'bytes':
        it.throw(TypeError, 'bytes')
    h2 = concat(h, term(data))
    hook = p.ghost.get('on_feed')
    if hook is not None:
        hook(it, self, h2)
    if it.decide(f_err(typ, h2)):
        it.throw(zlib.error, 'incorrect data')
    c = p.fresh('bytes', 'dec')
    p.assume(f_out(typ, h2) == concat(f_out(typ, h), c.t))
    self.attrs['fed'] = wrap('bytes', h2)
    it.record(self, 'fed')
    if not self.attrs.get('brotli'):
        self.attrs['unused_data'] = S('bytes', f_unu(typ, h2))
        it.record(self, 'unused_data')
    return c


DECOMP = MCls('decompressor', {'decompress': dc_decompress, 'flush': lambda it, self, *a: it.path.fresh('bytes', 'flushed')})


def new_decomp(it, typ, brotli=False):
    t = strval(typ)
    it.path.assume(And(f_out(t, EMPTY) == EMPTY, f_unu(t, EMPTY) == EMPTY, Not(f_err(t, EMPTY))))
    return Obj(DECOMP, {'typ': typ, 'fed': b'', 'unused_data': None if brotli else b'', 'brotli': brotli})


def cp_compress(it, self, data):
    p = it.path
    if kind(data) != 'bytes':
        it.throw(TypeError, 'bytes')
    c = p.fresh('bytes', 'gzpart')
    self.attrs['fed'] = wrap('bytes', concat(term(self.attrs['fed']), term(data)))
    self.attrs['out'] = wrap('bytes', concat(term(self.attrs['out']), c.t))
    it.record(self, 'fed')
    it.record(self, 'out')
    return c


def cp_flush(it, self, mode=None):
    p = it.path
    if mode is not None and mode != zlib.Z_FINISH:
        raise Unsupported('flush mode')
    c = p.fresh('bytes', 'gzend')
    # output of compress calls plus the final flush is one complete member
    p.assume(concat(term(self.attrs['out']), c.t) == f_comp(term(self.attrs['fed'])))
    self.attrs['finished'] = True
    it.record(self, 'finished')
    return c


COMP = MCls('compressor', {'compress': cp_compress, 'flush': cp_flush})

# hashlib
f_hash = U('hash', SS, SS, SS)
f_b32e = U('b32encode', SS, SS)
f_isalgo = U('is_hash_algorithm', SS, BB)


def h_update(it, self, data):
    if isinstance(data, Obj) and 'bytes' in data.attrs:
        data = data.attrs['bytes']
    if kind(data) != 'bytes':
        it.throw(TypeError, 'bytes')
    self.attrs['fed'] = wrap('bytes', concat(term(self.attrs['fed']), term(data)))
    it.record(self, 'fed')


HASH = MCls('hash', {'update': h_update,
                     'digest': lambda it, self: S('bytes', f_hash(term(self.attrs['algo']), term(self.attrs['fed']))),
                     'hexdigest': lambda it, self: S('str', U('hexhash', SS, SS, SS)(term(self.attrs['algo']), term(self.attrs['fed'])))})


def new_hash(it, name, data=b''):
    if kind(name) != 'str':
        it.throw(TypeError, 'name')
    if isinstance(name, S):
        if not it.decide(f_isalgo(name.t)):
            it.throw(ValueError, 'unsupported hash type')
    elif name not in hashlib.algorithms_available:
        it.throw(ValueError, 'unsupported hash type')
    else:
        it.path.assume(f_isalgo(strval(name)))
    return Obj(HASH, {'algo': name, 'fed': data})


LOCK = MCls('Lock', {'__enter__': lambda it, s: True, '__exit__': lambda it, s, *a: None, 'acquire': lambda it, s, *a: True, 'release': m_none})
NULLOUT = MCls('stderr', {'write': m_none, 'flush': m_none})


def std_stream(it, name):
    g = it.path.ghost if it.path is not None else {}
    return g.get(name) or Obj(NULLOUT)


LOGGER = MCls('logger', {n: m_none for n in ('warning', 'info', 'error', 'debug', 'exception')})


# --- the installation ---------------------------------------------------------
def base_attr(it, c, name):
    """attribute of a real base class of an interpreted class"""
    if isinstance(c, type) and issubclass(c, BaseException):
        if name == '__init__':
            def init(it_, a, k):
                a[0].attrs['args'] = tuple(a[1:])
                return None
            return Ext('Exception.__init__', init)
        if name == '__str__':
            return Ext('Exception.__str__', lambda it_, a, k: it_.to_str(a[0].attrs['args'][0]) if a[0].attrs.get('args') else '')
        return None
    if isinstance(c, MCls):
        f = c.methods.get(name)
        return Ext(c.name + '.' + name, lambda it_, a, k: f(it_, *a, **k)) if f else None
    h = it.base_models.get(c)
    if h is not None:
        return h(it, name)
    if c.__name__ == 'Iterator' and name == 'next':
        return None
    return None


def method(it, v, name):
    k = kind(v)
    if k in ('str', 'bytes'):
        if not isinstance(v, S):
            f = getattr(v, name, None)
            if f is None:
                return None

            def call(it_, args, kwargs):
                if name == 'format':
                    return str_format(it_, v, args, kwargs)
                if name == 'join':
                    return str_join(it_, v, *args)
                if is_concrete(tuple(args)) and is_concrete(VDict(kwargs)):
                    try:
                        return unreal(f(*realize(tuple(args)), **realize(VDict(kwargs))))
                    except Exception as e:
                        it_.throw(type(e), str(e))
                m = str_methods(it_, v, name)
                if m is None:
                    raise Unsupported('%s.%s' % (k, name))
                return m.fn(it_, args, kwargs)
            return Ext(k + '.' + name, call)
        m = str_methods(it, v, name)
        if m is None and hasattr('' if k == 'str' else b'', name):
            if name == 'format':
                raise Unsupported('symbolic format')
            return Ext(name, lambda i, a, kw: (_ for _ in ()).throw(Unsupported('%s.%s' % (k, name))))
        return m
    if isinstance(v, VList):
        return list_methods(it, v, name)
    if isinstance(v, VDict):
        return dict_methods(it, v, name)
    if isinstance(v, VSet):
        def add(x):
            raise Unsupported('set.add')
        return Ext('set.add', lambda i, a, kk: add(*a)) if name == 'add' else None
    if isinstance(v, re.Pattern):
        if name in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
            return rx_methods(it, v, name)
        return None
    if isinstance(v, GenV):
        if name == '__next__':
            def nx(i, a, kk):
                ok, x = i.gen_next(v)
                if not ok:
                    i.throw(StopIteration)
                return x
            return Ext('next', nx)
        if name == 'close':
            return Ext('close', m_none)
    if isinstance(v, Obj) and v.cls is MATCH:
        return None
    return None


def b_len(it, v):
    if isinstance(v, VList):
        return wrap('int', it.path.rope_len(v.segs))
    if kind(v) in ('str', 'bytes'):
        return wrap('int', length(term(v)))
    if isinstance(v, VDict):
        return len(v.d) if v.pairs is None else wrap('int', it.path.rope_len(v.pairs))
    if isinstance(v, VSet):
        return len(v.items)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        d, _ = it.find_attr(v.cls, '__len__')
        if d is not None:
            return it.call(Bound(d, v), [], {})
    if isinstance(v, Obj) and 'len' in getattr(v.cls, 'methods', {}):
        return v.cls.methods['len'](it, v)
    if isinstance(v, (tuple, list, dict, set, range)):
        return len(v)
    it.throw(TypeError, 'object has no len()')


def b_int(it, v=0, base=None):
    k = kind(v)
    if base is None and k in ('int', 'bool'):
        return v if k == 'int' else (wrap('int', it.as_int(v)))
    if k in ('str', 'bytes'):
        if not isinstance(v, S):
            try:
                return int(v) if base is None else int(v, base)
            except Exception as e:
                it.throw(type(e), str(e))
        if base not in (None, 10, 16):
            raise Unsupported('int base')
        ok, n = to_int(it.path, v.t, base or 10)
        if it.decide(ok):
            return wrap('int', n)
        it.throw(ValueError, 'invalid literal for int()')
    if isinstance(v, float):
        return int(v)
    it.throw(TypeError, 'int() argument')


def b_minmax(mx):
    def f(it, *args, **kw):
        if kw:
            raise Unsupported('min/max keywords')
        if len(args) == 1:
            args = list(it.iterate(args[0], None, None))
            if not args:
                it.throw(ValueError, 'empty sequence')
        r = args[0]
        for x in args[1:]:
            if r is None or x is None or kind(r) not in ('int', 'bool') or kind(x) not in ('int', 'bool'):
                if is_concrete(r) and is_concrete(x):
                    try:
                        r = max(r, x) if mx else min(r, x)
                        continue
                    except TypeError as e:
                        it.throw(TypeError, str(e))
                it.throw(TypeError, 'ordering')
            c = it.compare(ast.Gt() if mx else ast.Lt(), x, r)
            if isinstance(c, S):
                r = wrap('int', z3.If(c.t, it.as_int(x), it.as_int(r)))
            elif c:
                r = x
        return r
    return f


def b_isinstance(it, v, t):
    if isinstance(t, tuple):
        return any(b_isinstance(it, v, x) for x in t)
    if isinstance(t, VList):
        return any(b_isinstance(it, v, x) for x in t.items())
    c = it.class_of(v)
    if t is collections.abc.Mapping:
        return c is dict
    if t is collections.OrderedDict:
        return c is dict
    if isinstance(v, Obj) and isinstance(c, MCls):
        h = c.methods.get('isinstance')
        if h is not None:
            return h(it, v, t)
    return it.issub(c, t)


def b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if it.issub(it.class_of(e.value), AttributeError):
            return False
        raise


def b_getattr(it, o, name, *d):
    if isinstance(name, S):
        raise Unsupported('getattr with symbolic name')
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if d and it.issub(it.class_of(e.value), AttributeError):
            return d[0]
        raise


def b_str(it, v='', *a, **k):
    if a or k:
        return decode(it, v, *a, **k)
    return it.to_str(v)


def b_bytes(it, v=b'', *a):
    if a:
        return encode(it, v, *a)
    if kind(v) == 'bytes':
        return v
    if isinstance(v, Obj) and 'bytes' in v.attrs:
        return v.attrs['bytes']
    if is_concrete(v):
        try:
            return bytes(realize(v))
        except Exception as e:
            it.throw(type(e), str(e))
    raise Unsupported('bytes()')


def b_range(it, *a):
    if any(kind(x) != 'int' and kind(x) != 'bool' for x in a):
        it.throw(TypeError, 'range')
    if not any(isinstance(x, S) for x in a):
        return range(*a)
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


def b_iter(it, v):
    if isinstance(v, GenV) or isinstance(v, IterV):
        return v
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        d, _ = it.find_attr(v.cls, '__iter__')
        if d is not None:
            return it.call(Bound(d, v), [], {})
    if isinstance(v, Obj) and ('iter' in getattr(v.cls, 'methods', {}) or 'step' in getattr(v.cls, 'methods', {})):
        return v
    return IterV(list(it.iterate(v, None, None)))


def b_next(it, v, *d):
    if isinstance(v, GenV):
        ok, x = it.gen_next(v)
        if ok:
            return x
        if d:
            return d[0]
        it.throw(StopIteration)
    if isinstance(v, IterV):
        if v.i < len(v.items):
            v.i += 1
            return v.items[v.i - 1]
        if d:
            return d[0]
        it.throw(StopIteration)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        m, _ = it.find_attr(v.cls, '__next__')
        return it.call(Bound(m, v), [], {})
    if isinstance(v, Obj) and 'next' in getattr(v.cls, 'methods', {}):
        return v.cls.methods['next'](it, v)
    if isinstance(v, Obj) and 'step' in getattr(v.cls, 'methods', {}):
        ok, x = v.cls.methods['step'](it, v)
        if ok:
            return x
        if d:
            return d[0]
        it.throw(StopIteration)
    raise Unsupported('next()')


def b_zip(it, *a):
    if any(isinstance(x, VList) and not x.concrete() for x in a):
        raise Unsupported('zip of symbolic lists')
    ls = [list(it.iterate(x, None, None)) for x in a]
    return IterV(list(zip(*ls)))


ENUM = MCls('enumeration', {})


def b_enumerate(it, v, start=0):
    if isinstance(v, Obj):
        v = b_iter(it, v)
        if isinstance(v, Obj) and 'step' in getattr(v.cls, 'methods', {}):
            return Obj(ENUM, {'of': v, 'start': start})
    if isinstance(v, VList) and not v.concrete():
        raise Unsupported('enumerate of a symbolic list')
    return IterV([(i + start, x) for i, x in enumerate(it.iterate(v, None, None))])


def b_list(it, v=None):
    if v is None:
        return VList()
    if isinstance(v, VList):
        return VList(v.segs)
    if isinstance(v, VDict) and v.pairs is not None:
        raise Unsupported('list of symbolic mapping')
    return VList.of(list(it.iterate(v, None, None)))


def b_tuple(it, v=()):
    return tuple(it.iterate(v, None, None))


def b_dict(it, *a, **kw):
    d = VDict({})
    for x in a:
        if isinstance(x, VDict):
            if x.pairs is not None:
                return VDict({}, list(x.pairs))
            d.d.update(x.d)
        else:
            for y in it.iterate(x, None, None):
                if isinstance(y[0], S):
                    raise Unsupported('symbolic dict key')
                d.d[y[0]] = y[1]
    d.d.update(kw)
    return d


def b_any(all_):
    def f(it, v):
        for x in it.iterate(v, None, None):
            b = it.truth(x)
            if b != all_:
                return b
        return all_
    return f


def b_reversed(it, v):
    if isinstance(v, RangeV):
        if v.step == 1:
            return RangeV(wrap('int', z3.simplify(term(v.b) - 1)), wrap('int', z3.simplify(term(v.a) - 1)), -1)
        raise Unsupported('reversed range')
    if isinstance(v, range):
        return v[::-1]
    if isinstance(v, VList) and not v.concrete():
        raise Unsupported('reversed symbolic list')
    return IterV(list(reversed(list(it.iterate(v, None, None)))))


def b_sorted(it, v, **k):
    x = b_list(it, v)
    try:
        return VList.of(sorted(realize(x)))
    except SymIdx:
        raise Unsupported('sorted')


def b_print(it, *args, **kw):
    g = it.path.ghost.get('stdout')
    f = kw.get('file')
    if f is not None and not (isinstance(f, Obj) and f.cls is STDOUT):
        return None
    if g is None:
        return None
    sep, end = kw.get('sep', ' '), kw.get('end', '\n')
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(term(sep))
        parts.append(term(it.to_str(a)))
    parts.append(term(end))
    h = it.path.ghost.get('on_print')
    if h is not None:
        h(parts)
        return None
    g.attrs['data'] = wrap('str', concat(term(g.attrs['data']), *parts))
    it.record(g, 'data')
    return None


def stdout_write(it, self, s):
    return b_print(it, s, end='')


STDOUT = MCls('stdout', {'write': stdout_write, 'flush': m_none})


def b_copy(it, src, dst, n=None):
    h = it.path.ghost.get('on_copy')
    if h is None:
        raise Unsupported('copyfileobj')
    return h(src, dst)


def b_odict(it, *a, **k):
    if not a and not k and it.path is not None and 'new_dict' in it.path.ghost:
        return it.path.ghost['new_dict']()
    return b_dict(it, *a, **k)


def sys_exit(it, code=None):
    it.throw(SystemExit, code)


def b_open(it, name, mode='r', *a, **kw):
    h = it.path.ghost.get('on_open')
    if h is None:
        raise Unsupported('open')
    return h(name, kw.get('mode', mode))


def b_type(it, v):
    return it.class_of(v)


def b_memoryview(it, v):
    if kind(v) == 'bytes':
        return v
    if isinstance(v, Obj) and 'membuf' in v.attrs:
        return v
    raise Unsupported('memoryview')


def b_sum(it, v, start=0):
    r = start
    for x in it.iterate(v, None, None):
        r = it.binop(ast.Add, r, x)
    return r


def ident(it, v):
    return v


def b_abs(it, v):
    if isinstance(v, S):
        return wrap('int', z3.If(v.t >= 0, v.t, -v.t))
    return abs(v)


def b_callable(it, v):
    return isinstance(v, (Func, Bound, Ext, Cls, MCls, StaticV)) or callable(v)


def b_map(it, f, *ls):
    if any(isinstance(x, VList) and not x.concrete() for x in ls):
        raise Unsupported('map over symbolic list')
    return IterV([it.call(f, list(xs), {}) for xs in zip(*[list(it.iterate(l, None, None)) for l in ls])])


def b_filter(it, f, l):
    out = []
    for x in it.iterate(l, None, None):
        if it.truth(x if f is None else it.call(f, [x], {})):
            out.append(x)
    return IterV(out)


def b_divmod(it, a, b):
    return (it.binop(ast.FloorDiv, a, b), it.binop(ast.Mod, a, b))


def b_chr(it, v):
    if isinstance(v, S):
        return S('str', z3.StrFromCode(v.t))
    return chr(v)


def b_ord(it, v):
    if isinstance(v, S):
        return S('int', z3.StrToCode(v.t))
    return ord(v)


def zl_decompressobj(it, wbits=15, *a):
    if isinstance(wbits, S):
        raise Unsupported('wbits')
    typ = {31: 'gzip', 15: 'deflate', -15: 'deflate_alt', 47: 'auto'}.get(wbits, 'w%d' % wbits)
    return new_decomp(it, typ)


def zl_compressobj(it, level=-1, method=zlib.DEFLATED, wbits=15, *a):
    if wbits != 31:
        raise Unsupported('compression format')
    return Obj(COMP, {'fed': b'', 'out': b'', 'finished': False})


# RFC 4648 encodings, by their unpadded text (u32, u64std, u64url) and their
# inverses; decoding of text that is no canonical encoding is unspecified
f_u32, f_d32 = U('u32', SS, SS), U('d32', SS, SS)
f_is16, f_d16 = U('is_b16', SS, BB), U('d16', SS, SS)
f_is16u = U('is_b16_upper', SS, BB)
EQ = strval('=')


def f_u64(url):
    return U('u64url' if url else 'u64', SS, SS)


def b64_ok(url):
    return U('b64ok_url' if url else 'b64ok', SS, BB), U('d64url' if url else 'd64', SS, SS)


def pad64(u):
    m = z3.Length(u) % 4
    return If(m == 0, EMPTY, If(m == 3, EQ, If(m == 2, strval('=='), strval('==='))))


def enc32_facts(p, t):
    r = f_b32e(t)
    u = U('rstrip_3d', SS, SS)(r)
    p.assume(And(f_isascii(r), u == f_u32(t), f_d32(f_u32(t)) == t, z3.Length(f_u32(t)) == (8 * z3.Length(t) + 4) / 5, Not(z3.SuffixOf(EQ, f_u32(t)))))
    return r


def enc64_facts(p, t, url):
    u = f_u64(url)(t)
    ok, d = b64_ok(url)
    e = z3.Concat(u, pad64(u))
    s = U('b64encode_url' if url else 'b64encode', SS, SS)(t)
    p.assume(And(s == e, f_isascii(s), ok(s), d(s) == t, z3.Length(u) == (8 * z3.Length(t) + 5) / 6, Not(z3.SuffixOf(EQ, u))))
    if not url:
        p.assume(And(Not(z3.Contains(u, strval('-'))), Not(z3.Contains(u, strval('_')))))
    return s


def enc64_both(p, t):
    enc64_facts(p, t, False)
    enc64_facts(p, t, True)
    u, w = f_u64(False)(t), f_u64(True)(t)
    p.assume(Implies(And(Not(z3.Contains(w, strval('-'))), Not(z3.Contains(w, strval('_')))), u == w))


def altchars(a, k):
    x = k.get('altchars', a[0] if a else None)
    if x not in (None, b'-_'):
        raise Unsupported('altchars')
    return x is not None


def b32encode(it, v):
    return S('bytes', enc32_facts(it.path, term(v)))


def b64encode(it, v, *a, **k):
    url = altchars(a, k)
    return S('bytes', enc64_facts(it.path, term(v), url))


def b64decode(it, v, *a, **k):
    if set(k) - {'altchars'}:
        raise Unsupported('b64decode')
    ok, d = b64_ok(altchars(a, k))
    t = term(v)
    if not it.decide(ok(t)):
        it.throw(binascii.Error, 'Incorrect padding')
    return S('bytes', d(t))


def b16decode(it, v, casefold=False):
    t = term(v)
    p = it.path
    p.assume(And(Implies(f_is16u(t), f_is16(t)), Implies(f_is16(t), And(f_isascii(t), z3.Length(t) == 2 * z3.Length(f_d16(t))))))
    if not it.decide((f_is16 if casefold else f_is16u)(t)):
        it.throw(binascii.Error, 'Non-base16 digit found')
    return S('bytes', f_d16(t))


def new_uuid(it):
    u = it.path.fresh('str', 'uuid4')
    it.path.derived.setdefault('uuid', []).append(u)
    return u


def install(it):
    from . import dates
    it.base_models = {}
    b = builtins
    it.real_models = R = {
        b.len: b_len, b.int: b_int, b.min: b_minmax(False), b.max: b_minmax(True), b.isinstance: b_isinstance,
        b.hasattr: b_hasattr, b.getattr: b_getattr, b.str: b_str, b.bytes: b_bytes, b.range: b_range, b.iter: b_iter,
        b.next: b_next, b.zip: b_zip, b.enumerate: b_enumerate, b.list: b_list, b.tuple: b_tuple, b.dict: b_dict,
        b.any: b_any(False), b.all: b_any(True), b.reversed: b_reversed, b.sorted: b_sorted, b.print: b_print, b.open: b_open,
        b.type: b_type, b.memoryview: b_memoryview, b.sum: b_sum, b.abs: b_abs, b.callable: b_callable, b.map: b_map,
        b.filter: b_filter, b.divmod: b_divmod, b.chr: b_chr, b.ord: b_ord,
        b.bool: lambda it, v=False: wrap('bool', it.truth_formula(v)),
        b.repr: lambda it, v: it.path.fresh('str', 'repr') if not is_concrete(v) else repr(realize(v)),
        b.setattr: lambda it, o, n, v: it.setattr(o, n, v),
        b.issubclass: lambda it, c, t: it.issub(c, t),
        b.id: lambda it, v: it.path.fresh('int', 'id'),
        b.object: lambda it: Obj(MCls('object')),
        b.set: lambda it, v=(): VSet(list(it.iterate(v, None, None))),
        b.frozenset: lambda it, v=(): VSet(list(it.iterate(v, None, None))),
        collections.OrderedDict: b_odict,
        io.BytesIO: lambda it, data=b'': new_bio(it, data),
        tempfile.SpooledTemporaryFile: lambda it, *a, **k: new_bio(it, b'', TMP),
        shutil.copyfileobj: b_copy,
        tempfile.TemporaryFile: lambda it, *a, **k: new_bio(it, b'', TMP),
        zlib.decompressobj: zl_decompressobj, zlib.compressobj: zl_compressobj,
        hashlib.new: new_hash,
        base64.b32encode: b32encode, base64.b64encode: b64encode, base64.b64decode: b64decode, base64.b16decode: b16decode,
        logging.getLogger: lambda it, *a: Obj(LOGGER),
        threading.Lock: lambda it: Obj(LOCK),
        threading.local: lambda it: Obj(MCls('threading.local')),
        socket.gethostname: lambda it: S('str', z3.Const('hostname', SS)),
        uuid.uuid4: new_uuid,
        os.path.basename: lambda it, v: (S('str', U('basename', SS, SS)(term(v))) if isinstance(v, S) else os.path.basename(v)),
        traceback.print_exc: lambda it, *a: None,
    }
    R.update(dates.MODELS)
    try:
        import six
        it.six = six
        import urllib.parse
        R[urllib.parse.quote] = lambda it, v, safe='/', *a, **k: quote(it, v, safe, *a, **k) if isinstance(v, S) or isinstance(safe, S) else urllib.parse.quote(v, safe, *a, **k)
        R[six.iteritems] = lambda it, v: it.call(it.getattr(v, 'items'), [], {})
        R[six.next] = b_next
        R[__import__('sys').exit] = sys_exit
    except ImportError:
        pass
    try:
        import brotli
        R[brotli.Decompressor] = lambda it: new_decomp(it, 'br', True)
    except ImportError:
        pass


SAFE_PURE_MODULES = ('re', 'posixpath', 'builtins', '_operator', 'calendar', 'string', 'six', 'base64', 'binascii', 'zlib', 'math', 'datetime', 'email.utils', 'urllib.parse', 'threading', 'functools', 'logging')


def call_real(it, f, args, kwargs):
    try:
        m = it.real_models.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(it, *args, **kwargs)
    if isinstance(f, type) and issubclass(f, BaseException):
        return it.make_exc(f, *args)
    if getattr(f, '__name__', '') == '__init__' and isinstance(getattr(f, '__objclass__', None), type) and issubclass(f.__objclass__, BaseException):
        args[0].attrs['args'] = tuple(args[1:])
        return None
    if isinstance(f, (Obj, VList, VDict, S, int, str, bytes, tuple)) or f is None:
        it.throw(TypeError, 'not callable')
    mod = getattr(f, '__module__', None) or ''
    if is_concrete(tuple(args)) and is_concrete(VDict(kwargs)) and (mod in SAFE_PURE_MODULES or mod.startswith('six')):
        try:
            return unreal(f(*realize(tuple(args)), **realize(VDict(kwargs))))
        except Exception as e:
            it.throw(type(e), str(e))
    if mod.startswith('fsspec') and getattr(f, '__name__', '') == 'open':
        return b_open(it, *args, **kwargs)
    if mod == 'json' and getattr(f, '__name__', '') == 'dumps' and len(args) == 1 and not kwargs and isinstance(args[0], Obj) and 'json' in getattr(args[0].cls, 'methods', {}):
        return args[0].cls.methods['json'](it, args[0])
    raise Unsupported('call of %s.%s' % (mod, getattr(f, '__name__', f)))
