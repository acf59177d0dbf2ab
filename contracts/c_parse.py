"""the parser of status line and headers (C04)

The headers that follow a line are given by recursion over the lines to come,
unfolded wherever the code reads one:
  (t, R)    a line (decoded, trimmed), and the bytes after it
  CT, ET, ER   the text continued from t, the first line that does not continue, and what is after it
  HE, FR    the headers from t on (written with an uninterpreted function of name and value), and the bytes after the block
"""
from pyvc.verify import *
from . import c_headers as H, c_record as R

SHP = R.SHP
SS, II, BB = z3.StringSort(), z3.IntSort(), z3.BoolSort()
CT, ET, ER, HE, FR = [M.U(n, SS, SS, SS) for n in ('continued', 'cont_line', 'cont_rest', 'headers_from', 'block_rest')]
CC, CN = [M.U(n, SS, SS, II) for n in ('cont_chars', 'block_chars')]
f_pair = M.U('one_header', SS, SS, SS)
ENC = Hom('headers', SS, EMPTY, lambda ps, base=None: concat(*ps) if ps else EMPTY, lambda x: f_pair(term(x[0]), term(x[1])))


def is_cont(t):
    return Or(z3.PrefixOf(strval(' '), t), z3.PrefixOf(strval('\t'), t))


f_text = M.U('header_text', SS, SS)


def text_of(c, b):
    """a line decoded (as shown for decode_header)"""
    t = f_text(term(b))
    c.path.assume((t == EMPTY) == (term(b) == EMPTY))
    return t


def ends(p, t, R):
    """the definitions at a line that does not continue, and at a blank line"""
    k = ('ends', t.get_id(), R.get_id())
    for what, cond, eqs in (('cont', Not(is_cont(t)), (CT(t, R) == EMPTY, ET(t, R) == t, ER(t, R) == R, CC(t, R) == 0)),
                            ('blank', t == EMPTY, (HE(t, R) == EMPTY, FR(t, R) == R, CN(t, R) == 0))):
        st = p.derived.get(k + (what,))
        if st and st[0] == 'done':
            continue
        if st is None:
            p.assume(Implies(cond, And(*eqs)))
        if p.query(cond):
            for e in eqs:
                p.assume(e)
            st = 'done'
        elif p.query(Not(cond)):
            st = 'done'
        p.derived[k + (what,)] = (st if st == 'done' else 'open', t, R)


def unfold(c, t, R, t1, R1, n1):
    """the definitions at (t, R), where the next line is t1 (n1 characters before trimming)"""
    p = c.path
    ends(p, t, R)
    if p.query(t == EMPTY):
        return
    ends(p, t1, R1)
    eqs = (CT(t, R) == concat(t, CT(t1, R1)), ET(t, R) == ET(t1, R1), ER(t, R) == ER(t1, R1), CC(t, R) == n1 + CC(t1, R1))
    if p.query(is_cont(t)):
        for e in eqs:
            p.assume(e)
    else:
        p.assume(Implies(is_cont(t), And(*eqs)))
    if not p.query(t != EMPTY):
        return
    t2, R2 = ET(t1, R1), ER(t1, R1)
    p.assume(FR(t, R) == FR(t2, R2))
    p.assume(CN(t, R) == n1 + CC(t1, R1) + CN(t2, R2))
    if p.query(z3.Contains(t, strval(':'))):
        n, v = M.first_split(p, t, ':')
        n, v = term(c.call(wrap('str', n), 'rstrip', ' \t')), M.lstrip(p, v)
        p.assume(HE(t, R) == concat(f_pair(n, concat(v, CT(t1, R1))), HE(t2, R2)))
    elif p.query(Not(z3.Contains(t, strval(':')))):
        p.assume(HE(t, R) == HE(t2, R2))


class Decode(Contract):
    """as UTF-8 if it is valid, else as Latin-1"""
    target = SHP + '.decode_header'
    props = ('C04',)

    def args(self, c):
        return {'line': c.pick(lambda: c.bytes('line'), lambda: c.str('text'))}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Parse)

    def result(self, c, a, o):
        return a.line if kind(a.line) == 'str' else wrap('str', text_of(c, a.line))

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Decode):
            return
        yield 'text', z3.BoolVal(kind(r) == 'str')
        if kind(r) == 'str':
            if kind(a.line) == 'str':
                yield 'text as it is', eq(r, a.line)
            else:
                ok, d = M.dec8(c.path, term(a.line))
                yield 'decoded', term(r) == If(ok, d, term(a.line))
                yield 'empty only if nothing is there', (term(r) == EMPTY) == (term(a.line) == EMPTY)


def hooks(c, s):
    s.attrs['cur'] = ''
    s.attrs['det'] = True

    def on_line(stream, rest, n, r, q):
        if stream is not s:
            return
        p = c.path
        p.assume(And(rest == concat(r, q), M.line_facts(r, q, None), Implies(r == EMPTY, rest == EMPTY)))
        d = text_of(c, wrap('bytes', r))
        t1 = M.rstrip(p, d)
        unfold(c, term(s.attrs['cur']), rest, t1, q, length(d))
        s.attrs['cur'] = wrap('str', t1)
        c.interp.record(s, 'cur')
    c.path.ghost['on_readline'] = on_line


# ---- accepted prefixes
PRE = Hom('has_prefix', BB, z3.BoolVal(False), lambda ps, base=None: Or(*ps), lambda x, u: z3.PrefixOf(term(x), u), (SS,))


def _first(ps, base):
    path, h, keys, raw = base
    r = EMPTY
    for x, t in reversed(list(zip(raw, ps))):
        r = If(PRE.f(x, *keys) if z3.is_expr(x) else PRE.elem(x, *keys), t, r)
    return r


FPRE = Hom('first_prefix', SS, EMPTY, _first, lambda x, u: term(x), (SS,))


def pre_spec(c, prefixs, key):
    """(one of the prefixes starts the text in upper case, the first that does, what is after it)"""
    p = c.path
    segs = prefixs.segs
    u = term(c.call(key, 'upper'))
    k = p.hom(PRE, segs, u)
    x = p.hom(FPRE, segs, u)
    n = length(x)
    return k, x, If(n <= length(term(key)), M.f_drop(term(key), n), EMPTY), u


class SplitPrefix(Contract):
    """the first of the prefixes that starts the text, ignoring case, and the text after it"""
    target = SHP + '.split_prefix'
    props = ('C04',)

    def args(self, c):
        return {'key': c.str('key'), 'prefixs': c.list('str', 'prefixes')}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Parse) and isinstance(a.prefixs, VList) and kind(a.key) == 'str'

    def inv(self, c, L, a, o):
        if L.done is None:
            return
        u = term(c.call(a.key, 'upper'))
        yield 'fact', 'none so far', lambda: Not(c.path.hom(PRE, L.done, u))

    def result(self, c, a, o):
        ok, x, y, u = pre_spec(c, a.prefixs, a.key)
        if not c.path.decide(ok):
            return None
        return (wrap('str', x), wrap('str', y))

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, SplitPrefix):
            return
        ok, x, y, u = pre_spec(c, a.prefixs, a.key)
        if r is None:
            yield 'no prefix starts the text', Not(ok)
        else:
            good = isinstance(r, (tuple, VList)) and (len(r) if isinstance(r, tuple) else len(r.segs)) == 2
            yield 'a pair', z3.BoolVal(good)
            if good:
                v = r if isinstance(r, tuple) else r.items()
                yield 'one starts the text', ok
                yield 'the first', eq(v[0], x)
                yield 'the text after it', eq(v[1], y)


class Parse(Contract):
    """all headers of the block, and nothing of what follows it"""
    target = SHP + '.parse'
    props = ('C04',)
    call_side = False
    timeout = 300

    def __init__(self, verify, given):
        self.opts = verify, given
        self.name = '%s (%s, %s)' % (self.target, 'verifying' if verify else 'not verifying', 'line given' if given else 'line read')

    def args(self, c):
        verify, given = self.opts
        s = c.stream('in')
        hooks(c, s)
        return {'self': c.obj(SHP, statuslist=c.list('str', 'prefixes'), verify=verify), 'stream': s, 'full_statusline': c.str('line') if given else None}

    def old(self, c, a):
        verify, given = self.opts
        o = Args({})
        p = c.path
        rest = term(a.stream.attrs['rest'])
        if given:
            t = term(a.full_statusline)
        else:
            r, q = M.det_line(rest, z3.IntVal(-1))
            p.assume(And(rest == concat(r, q), M.line_facts(r, q, None), Implies(r == EMPTY, rest == EMPTY)))
            t, rest = text_of(c, wrap('bytes', r)), q
        o.len = length(t)
        o.eof = p.decide(t == EMPTY)
        o.status = st = M.rstrip(p, t)
        o.blank = not o.eof and p.decide(st == EMPTY)
        o.rest = rest
        o.bad = False
        if o.eof or o.blank:
            return o
        if verify:
            ok, x, y, u = pre_spec(c, a.self.attrs['statuslist'], wrap('str', st))
            o.bad = not p.decide(ok)
            o.proto, o.line = x, term(c.call(wrap('str', y), 'strip'))
        elif p.decide(z3.Contains(st, strval(' '))):
            x, y = M.first_split(p, st, ' ')
            o.proto, o.line = x, term(c.call(wrap('str', y), 'strip'))
        else:
            o.proto, o.line = st, EMPTY
        if not o.bad:
            # the block starts with the next line
            r, q = M.det_line(rest, z3.IntVal(-1))
            p.assume(And(rest == concat(r, q), M.line_facts(r, q, None), Implies(r == EMPTY, rest == EMPTY)))
            d = text_of(c, wrap('bytes', r))
            t1 = M.rstrip(p, d)
            ends(p, t1, q)
            o.headers, o.left, o.chars = HE(t1, q), FR(t1, q), length(d) + CN(t1, q)
        return o

    def mods(self, c, a):
        return [(a.stream, '**', None)]

    def inv(self, c, L, a, o):
        p = c.path
        if L.done is not None:
            for n, l in L.modlists():
                yield 'list', n + ' = done', lambda l=l: (l, L.done)
        t, R = term(a.stream.attrs['cur']), term(a.stream.attrs['rest'])
        ends(p, t, R)
        for n, v in L.roles('str'):
            yield 'fact', n + ' is the last line', lambda v=v: term(v) == t
            yield 'conserve', n + ' with continuation', lambda v=v: concat(term(v), CT(t, R))
        yield 'conserve', 'line after continuation', lambda: ET(t, R)
        yield 'conserve', 'rest after continuation', lambda: ER(t, R)
        yield 'conserve', 'rest after block', lambda: FR(t, R)
        for n, v in L.roles('int'):
            yield 'conserve', n + ' with the block', lambda v=v: term(v) + CN(t, R)
            yield 'conserve', n + ' with continuation', lambda v=v: term(v) + CC(t, R)
        for n, l in L.modlists():
            yield 'conserve', n + ' joined, with continuation', lambda l=l: concat(p.hom(M.cat_hom('str'), l.segs), CT(t, R))
            yield 'conserve', n + ' with the block', lambda l=l: concat(p.hom(ENC, l.segs), HE(t, R))

    def raises(self, c, a, o):
        return [(EOFError, z3.BoolVal(o.eof), None), (c.cls(R.SHE), z3.BoolVal(o.bad), None)]

    def post(self, c, a, o, r):
        p = c.path
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == H.SH and not o.eof and not o.bad
        yield 'headers', z3.BoolVal(ok)
        if not ok:
            return
        A = r.attrs
        got = p.hom(ENC, H.hdrs(r))
        rest = term(a.stream.attrs['rest'])
        if o.blank:
            yield 'nothing in a blank block', And(got == EMPTY, eq(A['statusline'], ''), eq(A['protocol'], ''), eq(A['total_len'], o.len))
            yield 'only the blank line is read', rest == o.rest
            return
        yield 'protocol', eq(A['protocol'], o.proto)
        yield 'status line', eq(A['statusline'], o.line)
        yield 'all headers in order', got == o.headers
        yield 'exactly the header block is read', rest == o.left
        yield 'length of the block', eq(A['total_len'], o.len + o.chars)


CONTRACTS = [Decode(), SplitPrefix()] + [Parse(v, g) for v in (True, False) for g in (False, True)]
