"""serialization of status line and headers (C05, C07)"""
import re
from pyvc.verify import *
from . import c_headers as H

SH = H.SH
SS, BB = z3.StringSort(), z3.BoolSort()
CRLF = strval('\r\n')
U = M.U
f_keep, f_fa, f_fb = U('filter_keeps', SS, SS, BB), U('filtered_name', SS, SS, SS), U('filtered_value', SS, SS, SS)


def cat(ps, base=None):
    return concat(*ps) if ps else EMPTY


def line(n, v):
    return concat(term(n), strval(': '), term(v), CRLF)


SER = Hom('serialized', SS, EMPTY, cat, lambda x: line(*x))
SERF = Hom('serialized_filtered', SS, EMPTY, cat,
           lambda x: If(f_keep(term(x[0]), term(x[1])), line(f_fa(term(x[0]), term(x[1])), f_fb(term(x[0]), term(x[1]))), EMPTY))


def _filter(it, self, h):
    if not isinstance(h, tuple) or len(h) != 2:
        raise Unsupported('argument of the filter')
    n, v = term(h[0]), term(h[1])
    if it.decide(f_keep(n, v)):
        return (wrap('str', f_fa(n, v)), wrap('str', f_fb(n, v)))
    return None


FILTER = MCls('filter', {'call': _filter})


def mk_filter(c):
    return Obj(FILTER)


f_head = U('head_line', SS, SS, SS)


def head(c, o):
    p, s = term(o.attrs['protocol']), term(o.attrs['statusline'])
    if not isinstance(c.ver.cur, _S):
        return f_head(p, s)      # callers need not know it
    hp, hs = c.path.decide(p != EMPTY), c.path.decide(s != EMPTY)
    return concat(p, strval(' '), s, CRLF) if hp and hs else concat(p, CRLF) if hp else concat(s, CRLF) if hs else EMPTY


def serialized(c, o, flt=None):
    """the text of the header block, without the empty line"""
    return concat(head(c, o), c.path.hom(SERF if flt is not None else SER, H.hdrs(o)))


class _S(Contract):
    props = ('C05',)
    timeout = 120

    def args(self, c):
        return {'self': H.mk_sh(c), 'filter_func': c.pick(None, lambda: mk_filter(c))}

    def applies(self, c, a):
        f = a.__dict__.get('filter_func')
        return (f is None or isinstance(f, Obj) and f.cls is FILTER) and isinstance(a.self.attrs['headers'], VList)

    def flt(self, a):
        return a.__dict__.get('filter_func')

    def old(self, c, a):
        return serialized(c, a.self, self.flt(a)), head(c, a.self)

    def inv(self, c, L, a, o):
        if L.done is None:
            return
        for n, s in H.str_locals(L):
            yield 'fact', n + ' = serialization so far', lambda s=s: term(s) == concat(o[1], c.path.hom(SERF if self.flt(a) is not None else SER, L.done))
        for n, l in L.modlists():
            yield 'fact', n + ' joined = serialization so far', lambda l=l: c.path.hom(M.cat_hom('str'), l.segs) == c.path.hom(SERF if self.flt(a) is not None else SER, L.done)
            yield 'fact', n + ' joined = serialization so far with the status line', lambda l=l: c.path.hom(M.cat_hom('str'), l.segs) == concat(o[1], c.path.hom(SERF if self.flt(a) is not None else SER, L.done))


class ToStr(_S):
    target = SH + '.to_str'

    def result(self, c, a, o):
        return wrap('str', o[0])

    def post(self, c, a, o, r):
        yield 'status line, then the headers as filtered, in order', term(r) == o[0] if kind(r) == 'str' else z3.BoolVal(False)


class ToBytes(_S):
    target = SH + '.to_bytes'

    def args(self, c):
        d = _S.args(self, c)
        e = c.pick('utf-8', 'none')
        if e != 'none':
            d['encoding'] = e
        return d

    def run(self, c, f, a):
        d = dict(a.__dict__)
        return c.interp.call(f, [d.pop('self')], d)

    def applies(self, c, a):
        return _S.applies(self, c, a) and a.__dict__.get('encoding', 'utf-8') == 'utf-8'

    def result(self, c, a, o):
        return wrap('bytes', concat(M.enc8(c.path, o[0]), CRLF))

    def post(self, c, a, o, r):
        yield 'serialization in UTF-8, then an empty line', term(r) == concat(M.enc8(c.path, o[0]), CRLF) if kind(r) == 'bytes' else z3.BoolVal(False)



# ---------------------------------------------------------------- C07
ALL = ''.join(map(chr, range(128)))
Q, QD = M.f_quote(ALL), M.f_quote('/')
SUB = M.f_rxsub(re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)'),
                concat(strval("*=UTF-8''"), QD(z3.Const('rx_group_1', SS))))
AA = Hom('all_ascii', BB, z3.BoolVal(True), lambda ps, base=None: And(*ps) if ps else z3.BoolVal(True),
         lambda x: And(M.f_isascii(term(x[0])), M.f_isascii(term(x[1]))))


def isascii(p, t):
    return p.decide(M.is_ascii_f(p, t))


def q(p, t):
    for f in (Q, QD):
        M.quote_facts(p, f, t)
    return Q(t)


def encode_header(p, x, keys):
    n, v = term(x[0]), term(x[1])
    name = q(p, n)
    q(p, v)
    if not isascii(p, v):
        if p.decide(z3.Contains(v, strval(';'))):
            e = SUB(v)
            q(p, e)
            v = e if p.decide(e == Q(e)) else QD(v)
        else:
            v = QD(v)
    return [('e', (wrap('str', name), wrap('str', v)))]


ENC = MapFn('percent_encoded', encode_header)


def lemmas(c, segs):
    """ASCII headers have an ASCII serialization (by induction; the step is an obligation of Ascii)"""
    for s in c.path.norm(segs):
        if not isinstance(s, tuple):
            c.path.assume(Implies(c.path.hom(AA, [s]), M.f_isascii(c.path.hom(SER, [s]))))
            c.path.assume(Implies(c.path.hom(AA, [s]), M.f_isascii(c.path.hom(SERF, [s]))))


def encoded_ascii(c, segs):
    """encoded headers are ASCII (by induction; the step is an obligation of Percent)"""
    for s in c.path.norm(segs):
        if not isinstance(s, tuple):
            c.path.assume(c.path.hom(AA, [s]))


class Percent(Contract):
    target = SH + '.percent_encode_non_ascii_headers'
    props = ('C07',)
    public = False
    timeout = 120

    def args(self, c):
        return {'self': H.mk_sh(c)}

    def applies(self, c, a):
        return a.__dict__.get('encoding', 'UTF-8') == 'UTF-8'

    def old(self, c, a):
        return list(H.hdrs(a.self)), term(a.self.attrs['protocol']), term(a.self.attrs['statusline'])

    def mods(self, c, a):
        l = a.self.attrs['headers']
        fr = lambda c, o: c.path.fresh('str', 'h')
        return [(l, '*', lambda c, l: l), (a.self, 'protocol', fr), (a.self, 'statusline', fr)]

    def inv(self, c, L, a, o):
        p = c.path
        l = a.self.attrs['headers']
        for m, i in L.idxs():
            for d in (1, 0):
                def f(i=i, d=d):
                    x = H.cut_at(p, o[0], term(i) + d)
                    return (l, x[0] + ENC.apply(p, x[1], [])) if x else None
                yield 'list', 'encoded from %s+%d on' % (m, d), f
                def f(i=i, d=d):
                    x = H.cut_at(p, o[0], term(i) + d)
                    return (l, ENC.apply(p, x[0], []) + x[1]) if x else None
                yield 'list', 'encoded before %s+%d' % (m, d), f
        for n, m in L.modlists():
            if L.done is not None:
                yield 'list', n + ' = encoded so far', lambda m=m: (m, ENC.apply(p, L.done, []))

    def result(self, c, a, o):
        segs = ENC.apply(c.path, o[0], [])
        a.self.attrs['headers'].segs = segs
        encoded_ascii(c, segs)
        lemmas(c, segs)

    def post(self, c, a, o, r):
        p = c.path
        s = a.self
        for t in o[1:]:
            q(p, t)
        yield 'protocol encoded', term(s.attrs['protocol']) == Q(o[1])
        yield 'status line encoded', term(s.attrs['statusline']) == Q(o[2])
        yield 'every header encoded, in order', p.rope_eq(H.hdrs(s), ENC.apply(p, o[0], []))
        if c.ver.cur is self:
            n, v = c.str('n'), c.str('v')
            (x,) = ENC.fn(p, (n, v), [])
            yield 'encoded headers are ASCII', AA.elem(x[1])
            yield 'ASCII values are kept', Implies(M.f_isascii(v.t), term(x[1][1]) == v.t)


class Ascii(_S):
    target = SH + '.to_ascii_bytes'
    props = ('C07',)

    def old(self, c, a):
        return list(H.hdrs(a.self)), term(a.self.attrs['protocol']), term(a.self.attrs['statusline']), serialized(c, a.self, self.flt(a))

    def mods(self, c, a):
        return Percent.mods(self, c, a)

    def inv(self, c, L, a, o):
        return ()

    def after(self, c, a, o):
        """(text, headers, protocol, status line) as they must be afterwards"""
        p = c.path
        if isascii(p, o[3]):
            return o[3], o[0], o[1], o[2]
        for t in o[1:3]:
            q(p, t)
        segs = ENC.apply(p, o[0], [])
        encoded_ascii(c, segs)
        lemmas(c, segs)
        n = Obj(None, {'protocol': S('str', Q(o[1])), 'statusline': S('str', Q(o[2])), 'headers': VList(segs)})
        return serialized(c, n, self.flt(a)), segs, Q(o[1]), Q(o[2])

    def result(self, c, a, o):
        t, h, p, s = self.after(c, a, o)
        a.self.attrs['headers'].segs = list(h)
        a.self.attrs['protocol'], a.self.attrs['statusline'] = S('str', p), S('str', s)
        return wrap('bytes', concat(t, CRLF))

    def post(self, c, a, o, r):
        p = c.path
        t, h, pr, st = self.after(c, a, o)
        s = a.self
        rt = term(r) if kind(r) == 'bytes' else strval('\u1234')
        yield 'the bytes are ASCII', M.is_ascii_f(p, rt)
        yield 'ASCII blocks are written unchanged, others as encoded', rt == concat(t, CRLF)
        yield 'headers kept in number and order', p.rope_eq(H.hdrs(s), h)
        yield 'protocol', term(s.attrs['protocol']) == pr
        yield 'status line', term(s.attrs['statusline']) == st
        if c.ver.cur is self:
            n, v = c.str('n'), c.str('v')
            yield 'lemma: ASCII headers serialize to ASCII', Implies(AA.elem((n, v)), M.is_ascii_f(p, SER.elem((n, v))))


class Compute(Ascii):
    target = SH + '.compute_headers_buffer'

    def args(self, c):
        d = _S.args(self, c)
        return {'self': d['self'], 'header_filter': d['filter_func']}

    def flt(self, a):
        return a.header_filter

    def applies(self, c, a):
        f = a.header_filter
        return f is None or isinstance(f, Obj) and f.cls is FILTER

    def old(self, c, a):
        return Ascii.old(self, c, a) if isinstance(c.ver.cur, _S) else None

    def mods(self, c, a):
        # callers only learn that there are ASCII bytes
        l = Percent.mods(self, c, a)
        return [(l[0][0], '*', lambda c, l: H.mk_headers(c, 'encoded'))] + l[1:] + [(a.self, 'headers_buff', lambda c, o: c.path.fresh('bytes', 'headers_buff'))]

    def result(self, c, a, o):
        pass

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, _S):
            t = term(a.self.attrs['headers_buff'])
            return [('ASCII bytes', And(M.f_isascii(t), t != EMPTY))]
        return list(Ascii.post(self, c, a, o, a.self.attrs['headers_buff'])) + [('not empty', term(a.self.attrs['headers_buff']) != EMPTY)]


CONTRACTS = [ToStr(), ToBytes(), Percent(), Ascii(), Compute()]
