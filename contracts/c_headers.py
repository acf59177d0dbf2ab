"""StatusAndHeaders as ordered case-insensitive map (C06)"""
from pyvc.verify import *

SH = 'statusandheaders.StatusAndHeaders'
SS, II, BB = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def low(t):
    s = M.lit(t)
    return strval(s.lower()) if s is not None else M.f_lower(term(t))


def name_of(x):
    return x[0]


# a header of that (lower case) name is in the list
HAS = Hom('has', BB, z3.BoolVal(False), lambda ps, base=None: Or(*ps), lambda x, k: eq(S('str', low(x[0])), S('str', k)), (SS,))


def _first(ps, base):
    path, h, keys, raw = base
    r = EMPTY
    for x, t in reversed(list(zip(raw, ps))):
        c = HAS.elem(x, *keys) if isinstance(x, tuple) else HAS.f(x, *keys)
        r = If(c, t, r)
    return r


# value of the first header of the name
FIRST = Hom('first', SS, EMPTY, _first, lambda x, k: term(x[1]), (SS,))
# list without the headers of the name
RM = MapFn('rm', lambda p, x, keys: [] if p.decide(HAS.elem(x, *keys)) else [('e', x)], (SS,))
f_repl = M.U('repl', LS, SS, SS, LS)


def has(p, segs, key):
    derived(p, segs, key)
    return p.hom(HAS, segs, key)


def first(p, segs, key):
    derived(p, segs, key)
    p.hom(HAS, segs, key)
    return p.hom(FIRST, segs, key)


def derived(p, segs, key):
    """lemmas about lists after a removal or a replacement (by induction over the list)"""
    key = term(key)
    for s in p.norm(segs):
        if isinstance(s, tuple) or s.t.num_args() < 2:
            continue
        nm = s.t.decl().name()
        if nm not in ('rm', 'repl') or (s.t.get_id(), key.get_id()) in p.derived:
            continue
        p.derived[s.t.get_id(), key.get_id()] = (s, key)
        base, k = p.atom(s.t.arg(0), 'pair'), s.t.arg(1)
        h, f = p.hom(HAS, [s], key), p.hom(FIRST, [s], key)
        derived(p, [base], key)
        h0, f0 = p.hom(HAS, [base], key), p.hom(FIRST, [base], key)
        same = eq(key, k)
        if nm == 'rm':
            p.assume(If(same, Not(h), And(h == h0, f == f0)))
        else:
            p.assume(h == h0)
            p.assume(f == If(And(same, h0), s.t.arg(2), f0))


def repl(p, segs, key, value):
    """list with the value of the first header of that name replaced (there is one)"""
    out = []
    segs = p.norm(segs)
    for i, s in enumerate(segs):
        if isinstance(s, tuple):
            if p.decide(HAS.elem(s[1], key)):
                return out + [('e', (s[1][0], value))] + segs[i + 1:]
            out.append(s)
        else:
            if s.t.num_args() == 3 and s.t.decl().name() == 'repl' and s.t.arg(1).eq(term(key)):
                s = p.atom(s.t.arg(0), 'pair')      # replaced twice: the last value stays
            if p.decide(p.hom(HAS, [s], key)):
                return out + [p.atom(f_repl(s.t, key, term(value)), 'pair')] + segs[i + 1:]
            out.append(s)
    return out


def cut_at(p, lst, i):
    """(segs before i, segs from i) of a list with one symbolic part, else None"""
    segs = p.norm(lst)
    i = z3.simplify(term(i))
    if len(segs) == 0:
        return [], []
    b = set()
    lo, hi = None, None
    if all(not isinstance(s, tuple) for s in segs) and len(segs) == 1:
        a = segs[0]
    else:
        # parts of one list
        bases = [p._base(s)[0] for s in segs if not isinstance(s, tuple)]
        if not bases:
            return None
        a = bases[0]
        if not z3.is_true(p.rope_eq(segs, [a])):
            return None
    base, off = p._base(a)
    if not a.t.eq(base.t):
        return None
    p.assume(z3.Implies(And(i >= 0, i <= fLen(a.t)), And(fLen(fTake(a.t, i)) == i, fLen(fDrop(a.t, i)) == fLen(a.t) - i)))
    return [p.atom(fTake(a.t, i), a.ek)], [p.atom(fDrop(a.t, i), a.ek)]


def mk_headers(c, label='headers'):
    return VList([c.path.new_atom('pair', label)])


def mk_sh(c, label='h', **kw):
    o = c.obj(SH, statusline=c.str('statusline'), headers=mk_headers(c, label + 'eaders'), protocol=c.str('protocol'), total_len=c.int('total_len', 0), headers_buff=None)
    o.attrs.update(kw)
    return o


def hdrs(o):
    return o.attrs['headers'].segs


def str_locals(L):
    out = []
    for fr in (L.frame,) + ((L.frame.closure,) if L.frame.closure is not None else ()):
        for n, v in sorted(fr.locals.items()):
            if kind(v) == 'str':
                out.append((n, v))
    return out


def bool_locals(L):
    return L.roles('bool')


class Base(Contract):
    props = ('C06',)

    def key(self, c, a):
        return M.casemap(c.path, M.f_lower, term(a.name))

    def old(self, c, a):
        return list(hdrs(a.self))

    def header_invs(self, c, L, a, o):
        """facts every scan of the headers needs"""
        p, key = c.path, self.key(c, a)
        yield 'fact', 'no match so far (scan)', lambda: Not(has(p, L.done, key)) if L.done is not None else None
        for n, i in L.idxs():
            def pre(i=i, d=0):
                x = cut_at(p, o, term(i) + d)
                return Not(has(p, x[0], key)) if x else None
            yield 'fact', 'no match before ' + n, pre
            for d in (0, 1):
                for bn, b in bool_locals(L):
                    def f(i=i, d=d, b=b):
                        x = cut_at(p, o, term(i) + d)
                        return term(b) == has(p, x[1], key) if x else None
                    yield 'fact', '%s = match from %s+%d' % (bn, n, d), f
                    def f(i=i, d=d, b=b):
                        x = cut_at(p, o, term(i) + d)
                        return term(b) == has(p, x[0], key) if x else None
                    yield 'fact', '%s = match before %s+%d' % (bn, n, d), f


class GetHeader(Base):
    target = SH + '.get_header'

    def args(self, c):
        return {'self': mk_sh(c), 'name': c.str('name'), 'default_value': c.pick(None, lambda: c.str('dflt'))}

    def applies(self, c, a):
        return a.self.attrs.get('headers') is not None and not a.self.attrs['headers'].concrete()

    def inv(self, c, L, a, o):
        return self.header_invs(c, L, a, o)

    def result(self, c, a, o):
        p, key = c.path, self.key(c, a)
        if p.decide(has(p, o, key)):
            return wrap('str', first(p, o, key))
        return a.default_value

    def post(self, c, a, o, r):
        p, key = c.path, self.key(c, a)
        h = has(p, o, key)
        if kind(r) == 'str':
            same = c.interp.eq_formula(r, a.default_value) if r is not a.default_value else z3.BoolVal(True)
            yield 'value of the first header of that name, or the default', If(h, term(r) == first(p, o, key), same)
        else:
            yield 'value of the first header of that name, or the default', And(Not(h), z3.BoolVal(r is a.default_value))


class GetItem(GetHeader):
    target = SH + '.__getitem__'
    call_side = False
    name = SH + '.__getitem__'

    def args(self, c):
        return {'self': mk_sh(c), 'name': c.str('name'), 'default_value': None}


class Get(GetHeader):
    target = SH + '.get'
    call_side = False
    name = SH + '.get'


class Contains(Base):
    target = SH + '.__contains__'
    call_side = False

    def args(self, c):
        return {'self': mk_sh(c), 'key': c.str('name')}

    def key(self, c, a):
        return M.casemap(c.path, M.f_lower, term(a.key))

    def inv(self, c, L, a, o):
        return self.header_invs(c, L, a, o)

    def post(self, c, a, o, r):
        yield 'true exactly if a header of that name is there', c.interp.truth_formula(r) == has(c.path, o, self.key(c, a))


class AddHeader(Base):
    target = SH + '.add_header'
    call_side = False

    def args(self, c):
        return {'self': mk_sh(c), 'name': c.str('name'), 'value': c.str('value')}

    def mods(self, c, a):
        return [(a.self.attrs['headers'], '*', None)]

    def post(self, c, a, o, r):
        yield 'appended, nothing else changed', c.path.rope_eq(hdrs(a.self), list(o) + [('e', (a.name, a.value))])


class ReplaceHeader(Base):
    target = SH + '.replace_header'

    def args(self, c):
        return {'self': mk_sh(c), 'name': c.str('name'), 'value': c.str('value')}

    def applies(self, c, a):
        return a.self.attrs.get('headers') is not None and not a.self.attrs['headers'].concrete()

    def mods(self, c, a):
        return [(a.self.attrs['headers'], '*', lambda c, l: l)]

    def inv(self, c, L, a, o):
        for x in self.header_invs(c, L, a, o):
            yield x
        l = a.self.attrs['headers']
        yield 'list', 'headers unchanged', lambda: (l, o)

    def result(self, c, a, o):
        p, key = c.path, self.key(c, a)
        l = a.self.attrs['headers']
        c.interp.record(l, '*')
        if p.decide(has(p, o, key)):
            v = wrap('str', first(p, o, key))
            l.segs = repl(p, o, key, a.value)
            return v
        l.segs = list(o) + [('e', (a.name, a.value))]
        return None

    def post(self, c, a, o, r):
        p, key = c.path, self.key(c, a)
        if p.decide(has(p, o, key)):
            yield 'the first header of that name has the new value, all others are unchanged', p.rope_eq(hdrs(a.self), repl(p, o, key, a.value))
            yield 'returns the old value', term(r) == first(p, o, key) if kind(r) == 'str' else z3.BoolVal(False)
            yield 'get returns the new value', first(p, hdrs(a.self), key) == term(a.value)
        else:
            yield 'appended if there is none', p.rope_eq(hdrs(a.self), list(o) + [('e', (a.name, a.value))])
            yield 'returns None', z3.BoolVal(r is None)


class SetItem(ReplaceHeader):
    target = SH + '.__setitem__'
    call_side = False
    name = SH + '.__setitem__'


class RemoveHeader(Base):
    target = SH + '.remove_header'

    def args(self, c):
        return {'self': mk_sh(c), 'name': c.str('name')}

    def applies(self, c, a):
        return a.self.attrs.get('headers') is not None and not a.self.attrs['headers'].concrete()

    def mods(self, c, a):
        return [(a.self.attrs['headers'], '*', lambda c, l: l), (a.self, 'headers', lambda c, o: o.attrs['headers'])]

    def inv(self, c, L, a, o):
        p, key = c.path, self.key(c, a)
        for n, l in L.modlists():
            if L.done is not None:
                yield 'list', n + ' = kept so far', lambda l=l: (l, RM.apply(p, L.done, [key]))
            for m, i in L.idxs():
                for d in (1, 0):
                    def f(i=i, l=l, d=d):
                        x = cut_at(p, o, term(i) + d)
                        return (l, x[0] + RM.apply(p, x[1], [key])) if x else None
                    yield 'list', '%s = done from %s+%d on' % (n, m, d), f
                    def f(i=i, l=l, d=d):
                        x = cut_at(p, o, term(i) + d)
                        return (l, RM.apply(p, x[0], [key])) if x else None
                    yield 'list', '%s = kept before %s+%d' % (n, m, d), f
        for bn, b in bool_locals(L):
            if L.done is not None:
                yield 'fact', bn + ' = found so far', lambda b=b: term(b) == has(p, L.done, key)
        for x in self.header_invs(c, L, a, o):
            yield x

    def result(self, c, a, o):
        p, key = c.path, self.key(c, a)
        l = a.self.attrs['headers']
        l.segs = RM.apply(p, o, [key])
        return wrap('bool', has(p, o, key))

    def post(self, c, a, o, r):
        p, key = c.path, self.key(c, a)
        yield 'tells whether there was one', c.interp.truth_formula(r) == has(p, o, key)
        yield 'all others are left in order', p.rope_eq(hdrs(a.self), RM.apply(p, o, [key]))


class DelItem(RemoveHeader):
    target = SH + '.__delitem__'
    call_side = False
    name = SH + '.__delitem__'


STRS = MapFn('str_pairs', lambda p, x, keys: [('e', x)])


class Init(Base):
    """headers of any kind become a list of text pairs"""
    target = SH + '.__init__'
    call_side = False
    timeout = 60

    def args(self, c):
        def pairs():
            return mk_headers(c, 'given')
        def bpairs():
            return VList([('e', (c.bytes('n1'), c.bytes('v1'))), ('e', (c.str('n2'), c.bytes('v2'))), ('e', (c.bytes('n3'), c.str('v3')))])
        def mapping():
            return VDict(None, pairs=[c.path.new_atom('pair', 'items')])
        return {'self': c.obj(SH), 'statusline': c.str('status'), 'headers': c.pick(pairs, bpairs, mapping, lambda: VList()),
                'protocol': c.str('proto'), 'total_len': c.int('total', 0), 'is_http_request': False}

    def old(self, c, a):
        h = a.headers
        return list(h.pairs if isinstance(h, VDict) else h.segs)

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def inv(self, c, L, a, o):
        for n, l in L.modlists():
            yield 'list', n + ' = done', lambda l=l: (l, L.done)

    def post(self, c, a, o, r):
        want = []
        for s in o:
            if isinstance(s, tuple):
                want.append(('e', tuple(S('str', term(x)) for x in s[1])))
            else:
                want.append(s)
        yield 'the same pairs as text, in order', c.path.rope_eq(hdrs(a.self), want)
        yield 'a list of its own', z3.BoolVal(a.self.attrs['headers'] is not a.headers)
        yield 'status line', eq(a.self.attrs['statusline'], a.statusline)
        yield 'protocol', eq(a.self.attrs['protocol'], a.protocol)
        yield 'length', eq(a.self.attrs['total_len'], a.total_len)


CONTRACTS = [GetHeader(), GetItem(), Get(), Contains(), AddHeader(), ReplaceHeader(), SetItem(), RemoveHeader(), DelItem(), Init()]
