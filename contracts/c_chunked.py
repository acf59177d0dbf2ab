"""ChunkedDataReader (C03): what is delivered is the decoded form of the stream

CH(s, begun) is the decoding of the raw bytes s (begun: a chunk was read
before), unfolded for one chunk wherever the code reads a size line."""
import re
from pyvc.verify import *
from . import c_readers as R
from .c_readers import BR, unread, view, inv_reader, is_abs, sh_buff, HIDDEN

CR = 'bufferedreaders.ChunkedDataReader'
SS, II, BB = z3.StringSort(), z3.IntSort(), z3.BoolSort()
CRLF = strval('\r\n')
U = M.U
CH = U('dechunked', SS, BB, SS)
TE = U('after_trailers', SS, SS)          # the line after the trailer fields
NB = U('chunks_well_ended', SS, BB)       # no chunk of which the data is not followed by CRLF (or by the end)
OK = U('chunks_valid', SS, BB)            # valid up to and including the last chunk
PARTIAL = re.compile(br'[0-9a-fA-F]+(;[^\n]*)?\r?\Z')

for n in ('all_chunks_read', 'not_chunked'):
    SHAPES[(CR, n)] = lambda c, o: c.choose('flag')
SHAPES[(CR, 'chunk_read')] = lambda c, o: c.bool('begun')
for n in ('buff', 'decomp_type', 'decompressor', 'starting_data'):
    SHAPES[(CR, n)] = SHAPES[(BR, n)]


def unfold(c, o, s):
    """the definitions of CH, NB, OK at s, split into cases"""
    p = c.path
    begun = term(o.attrs['chunk_read'])
    strict = o.attrs['raise_chunked_data_exceptions']
    b = term(begun)
    T1 = z3.BoolVal(True)
    L, s1 = M.det_line(s, z3.IntVal(64))

    def define(ch, nb=True, ok=False):
        if strict:
            p.assume(OK(s) == ok)
            if ok is not False:
                p.assume(Implies(OK(s), CH(s, b) == ch))
        else:
            p.assume(CH(s, b) == ch)
            p.assume(NB(s) == nb)

    def invalid():
        p.ghost['size'] = z3.IntVal(0)
        if not strict and p.decide(And(b, z3.Length(L) < 64, M.rx_formula(PARTIAL, 'match', L))):
            return define(EMPTY)
        define(s)
    n = z3.Length(L)
    if not p.decide(n >= 2):
        return invalid()
    H, E = M.f_take(L, n - 2), M.f_drop(L, n - 2)
    p.assume(And(L == z3.Concat(H, E), z3.Length(E) == 2))
    if not p.decide(E == CRLF):
        return invalid()
    X = H
    if p.decide(z3.Contains(H, strval(';'))):
        X = U('before_3b', SS, SS)(H)
    isint, v = M.f_isint(X, z3.IntVal(16)), M.f_toint(X, z3.IntVal(16))
    p.assume(Implies(isint, X != EMPTY))
    if not p.decide(And(isint, v >= 0, v <= 2 ** 31)):
        return invalid()
    p.ghost['size'] = v
    te = TE(s1)
    if p.decide(v == 0):
        if strict:
            return define(EMPTY, ok=te == CRLF)
        return define(EMPTY if p.decide(te == CRLF) or not p.decide(z3.SuffixOf(M.NL, te)) else s)
    if not p.decide(z3.Length(s1) >= v):
        return define(s1)
    kd, kr = M.f_take(s1, v), M.f_drop(s1, v)
    p.assume(And(s1 == z3.Concat(kd, kr), z3.Length(kd) == v))
    p.ghost['chunk'] = (s1, kr)
    T, s2 = M.det_line(kr, z3.IntVal(2))
    if p.decide(T == CRLF):
        return define(z3.Concat(kd, CH(s2, T1)), NB(s2), OK(s2))
    define(kd, Or(T == EMPTY, T == strval('\r')))


def cr_hooks(c, o):
    st = o.attrs['stream']

    def on_line(stream, s, n, r, q):
        if n is None:
            c.path.assume(TE(s) == If(z3.Contains(r, strval(':')), TE(q), r))
        elif z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 64:
            c.path.ghost['chunk'] = None
            b = o.attrs['buff']
            if b is not None:
                # lemma: there is nothing after the end of the buffer
                buf, pos = term(b.attrs['buf']), term(b.attrs['pos'])
                if c.path.query(pos >= length(buf), 150000):
                    c.path.assume(M.f_drop(buf, pos) == EMPTY)
            unfold(c, o, s)
        elif c.path.ghost.get('chunk'):
            # lemma: two suffixes of the same length are equal
            s1, kr = c.path.ghost['chunk']
            if c.path.query(z3.Length(s) == z3.Length(kr), 150000) and c.path.query(z3.SuffixOf(s, s1), 150000):
                c.path.assume(s == kr)
    c.path.ghost['on_readline'] = on_line

    def hook(it, dec, h2):
        M.dec_facts(c.path, term(dec.attrs['typ']), h2, R.to_come(o))
        M.dec_facts(c.path, term(dec.attrs['typ']), h2, term(st.attrs['rest']))
    c.path.ghost['on_feed'] = hook


def mk_chunked(c, typ, strict, raw):
    c.path.ghost['typ'] = typ
    o = R.mk_reader(c, CR, decs=(typ,), starting_data=None, raise_chunked_data_exceptions=strict, all_chunks_read=c.choose('all_read'),
                    not_chunked=raw, chunk_read=c.bool('begun'))
    o.attrs['stream'].attrs['det'] = True
    cr_hooks(c, o)
    return o


def mk_abs_chunked(c, strict=False):
    o = R.mk_abs_reader(c, CR, _ok=c.choose('ok'), raise_chunked_data_exceptions=strict)
    for n in ('all_chunks_read', 'not_chunked', 'chunk_read'):
        o.attrs[n] = Junk('hidden part of an abstract reader')
    return o


def ok(o):
    if is_abs(o):
        return term(o.attrs['_ok'])
    return Or(term(o.attrs['all_chunks_read']), OK(term(o.attrs['stream'].attrs['rest'])))


def inv_chunked(c, o):
    for x in inv_reader(c, o):
        yield x
    if not is_abs(o):
        a, n, b = [term(o.attrs[k]) for k in ('all_chunks_read', 'not_chunked', 'chunk_read')]
        s = term(o.attrs['stream'].attrs['rest'])
        strict = o.attrs['raise_chunked_data_exceptions']
        yield 'never raw in strict mode', Not(n) if strict else z3.BoolVal(True)
        yield 'chunks are ended', z3.BoolVal(True) if strict else Or(a, n, NB(s))
        yield 'no starting data', z3.BoolVal(o.attrs['starting_data'] is None)


def imp(a, b):
    return b if z3.is_true(a) else z3.BoolVal(True) if z3.is_false(a) else Implies(a, b)


class _C(R._R):
    props = ('C03',)

    def applies(self, c, a):
        return a.self.cls.qual == CR and is_abs(a.self) and a.self.attrs['raise_chunked_data_exceptions'] is self.strict

    strict = False

    def args(self, c):
        return {'self': mk_abs_chunked(c, self.strict)}

    def pre(self, c, a):
        for x in inv_chunked(c, a.self):
            yield x

    def old(self, c, a):
        return view(c, a.self), ok(a.self), a.self.attrs['raise_chunked_data_exceptions']

    def mods(self, c, a):
        l = R._R.mods(self, c, a)
        fr = lambda c, o: c.choose('flag')
        if is_abs(a.self):
            return l
        return l + [(a.self, n, fr) for n in ('all_chunks_read', 'not_chunked')] + [(a.self, 'chunk_read', lambda c, o: c.path.fresh('bool', 'h'))]

    def raises(self, c, a, o):
        return [(c.cls('bufferedreaders.ChunkedDataException'), And(z3.BoolVal(o[2]), Not(o[1])), None)]

    def inv(self, c, L, a, o):
        for x in R._R.inv(self, c, L, a, o):
            yield x
        r = a.self
        strict = r.attrs['raise_chunked_data_exceptions']
        for label, f in list(inv_chunked(c, r)):
            yield 'fact', 'c ' + label, f
        yield 'conserve', 'validity', lambda: ok(r)
        if strict:
            yield 'fact', 'view of valid data', lambda: imp(o[1], view(c, r) == o[0])
            for n, b in L.roles('bytes'):
                yield 'fact', 'valid data: ' + n + ' + view', lambda b=b: imp(o[1], concat(term(b), view(c, r)) == o[0])
            for n, l in L.modlists():
                yield 'fact', 'valid data: ' + n + ' joined + view', lambda l=l: imp(o[1], concat(c.path.hom(M.cat_hom('bytes'), l.segs), view(c, r)) == o[0])
        if is_abs(r):
            return
        rest = lambda: term(r.attrs['stream'].attrs['rest'])
        allr = lambda: term(r.attrs['all_chunks_read'])
        n0 = c.path.ghost.get('size', z3.IntVal(0))
        yield 'conserve', 'stream', rest
        yield 'conserve', 'flags', lambda: term(r.attrs['not_chunked'])
        yield 'fact', 'nothing read', lambda: Implies(Not(allr()), unread(c, r) == EMPTY)
        for n, b in L.roles('bytes'):
            yield 'conserve', n + ' + stream', lambda b=b: concat(term(b), rest())
            yield 'conserve', 'trailers after ' + n, lambda b=b: If(z3.Contains(term(b), strval(':')), TE(rest()), term(b))
            yield 'fact', n + ' short only at the end', lambda b=b: Implies(allr(), And(rest() == EMPTY, z3.Length(term(b)) < n0))
            yield 'fact', n + ' not longer than the chunk', lambda b=b: z3.Length(term(b)) <= n0
            for m, b2 in L.roles('bytes'):
                if n != m:
                    yield 'conserve', n + m + ' + stream', lambda b=b, b2=b2: concat(term(b), term(b2), rest())
            for m, i in L.roles('int'):
                yield 'fact', '%s is the length of %s' % (m, n), lambda b=b, i=i: term(i) == z3.Length(term(b))
                yield 'fact', '%s is the rest after %s' % (m, n), lambda b=b, i=i: term(i) + z3.Length(term(b)) == n0
                yield 'fact', '%s at least the length of %s' % (m, n), lambda b=b, i=i: term(i) >= z3.Length(term(b))
        for m, i in L.roles('int'):
            yield 'fact', '%s is the chunk size' % m, lambda i=i: Or(allr(), term(i) == n0)


class FillBuff(_C):
    target = CR + '._fillbuff'
    public = False
    assumed = True

    def __init__(self, strict):
        self.strict = strict

    def args(self, c):
        d = _C.args(self, c)
        d['block_size'] = None
        return d

    def post(self, c, a, o, r):
        for x in inv_chunked(c, a.self):
            yield x
        yield 'nothing lost, added or changed', imp(o[1], view(c, a.self) == o[0]) if o[2] else view(c, a.self) == o[0]
        yield 'buffer empty only at the end', Implies(unread(c, a.self) == EMPTY, imp(o[1], o[0] == EMPTY) if o[2] else o[0] == EMPTY)
        if o[2]:
            yield 'validity kept', ok(a.self) == o[1]
            yield 'end only of valid data', Implies(unread(c, a.self) == EMPTY, o[1])


class FillBuffC(FillBuff):
    call_side = False
    assumed = False
    public = True

    def __init__(self, typ, strict, raw, buff):
        self.typ, self.strict, self.raw, self.buff = typ, strict, raw, buff
        self.name = '%s [%s%s%s%s]' % (self.target, typ or 'no decompressor', ', strict' if strict else '', ', not chunked' if raw else '',
                                     ', buffer' if buff else '')

    def args(self, c):
        o = mk_chunked(c, self.typ, self.strict, self.raw)
        c.assume(z3.BoolVal((o.attrs['buff'] is not None) == self.buff))
        return {'self': o, 'block_size': None}



class Read(_C, R.Read):
    def args(self, c):
        d = _C.args(self, c)
        d['length'] = c.pick(None, lambda: c.int('length'))
        return d
    target = BR + '.read'

    def __init__(self, strict):
        self.strict = strict
        self.name = CR + '.read (inherited%s)' % (', strict' if strict else '')

    def post(self, c, a, o, r):
        for label, f in R.Read.post(self, c, a, o[0], r):
            yield label, imp(o[1], f) if o[2] else f
        if o[2]:
            yield 'validity kept', ok(a.self) == o[1]
            if a.length is None:
                yield 'end only of valid data', o[1]
            else:
                yield 'short only at the end of valid data', Or(z3.And(term(a.length) >= 0, z3.Length(term(r)) >= term(a.length)), o[1])


class ReadLine(_C, R.ReadLine):
    target = BR + '.readline'

    def __init__(self, strict):
        self.strict = strict
        self.name = CR + '.readline (inherited%s)' % (', strict' if strict else '')

    def args(self, c):
        d = _C.args(self, c)
        d['length'] = c.pick(None, lambda: c.int('length'))
        return d

    def inv(self, c, L, a, o):
        for x in _C.inv(self, c, L, a, o):
            yield x
        for n, b in L.roles('bytes'):
            yield 'fact', 'is a line ' + n, lambda b=b: M.def_line(c.path, term(b))
            if a.length is not None:
                yield 'fact', 'not too long ' + n, lambda b=b: Or(term(a.length) < 0, z3.Length(term(b)) <= term(a.length))
                for m, i in L.roles('int'):
                    yield 'fact', 'rem %s %s' % (m, n), lambda b=b, i=i: z3.Length(term(b)) + term(i) == term(a.length)

    def post(self, c, a, o, r):
        for label, f in R.ReadLine.post(self, c, a, o[0], r):
            yield label, imp(o[1], f) if o[2] else f
        if o[2]:
            yield 'validity kept', ok(a.self) == o[1]


class Init(R._R):
    """a new reader delivers the decoded stream"""
    props = ('C03',)
    call_side = False
    target = CR + '.__init__'

    def args(self, c):
        d = {'self': c.obj(CR), 'stream': c.stream('in')}
        d['stream'].attrs['det'] = True
        x = c.pick('none', False, True)
        if x != 'none':
            d['raise_exceptions'] = x
        t = c.pick('none', None, 'gzip', 'deflate')
        if t != 'none':
            d['decomp_type'] = t
        return d

    def pre(self, c, a):
        return ()

    def old(self, c, a):
        return term(a.stream.attrs['rest'])

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def post(self, c, a, o, r):
        for x in inv_reader(c, a.self):
            yield x
        t = a.__dict__.get('decomp_type')
        raw = CH(o, z3.BoolVal(False))
        yield 'nothing buffered', unread(c, a.self) == EMPTY
        yield 'delivers the decoded data of the stream', view(c, a.self) == (R.decoded(c, t, raw) if t else raw)
        yield 'position 0', term(a.self.attrs['num_read']) == 0
        yield 'strict as asked', z3.BoolVal(a.self.attrs['raise_chunked_data_exceptions'] is a.__dict__.get('raise_exceptions', False))

    def run(self, c, f, a):
        d = dict(a.__dict__)
        s = d.pop('self')
        st = d.pop('stream')
        return c.interp.call(f, [s, st], d)


CONTRACTS = [k(s) for k in (FillBuff, Read, ReadLine) for s in (False, True)] + [Init()] + [FillBuffC(None, *s) for s in (
    (False, False, False), (False, False, True), (False, True, False), (False, True, True), (True, False, False), (True, False, True))] + \
    [FillBuffC('gzip', False, True, False), FillBuffC('gzip', False, True, True)]
