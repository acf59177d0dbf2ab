"""BufferedReader (C02): everything still to be delivered is a function of the state"""
from pyvc.verify import *

BR = 'bufferedreaders.BufferedReader'
DR = 'bufferedreaders.DecompressingBufferedReader'
SS = z3.StringSort()


def mk_bio(c, label='buf'):
    b, p = c.bytes(label), c.int(label + '_pos', 0)
    return Obj(M.BIO, {'buf': b, 'pos': p})


def mk_dec(c, typ):
    """decompressor that was fed some data"""
    br = typ == 'br'
    t = strval(typ)
    h = c.bytes('fed')
    c.path.assume(Not(M.f_err(t, h.t)))
    if br:
        c.path.assume(M.f_unu(t, h.t) == EMPTY)
    return Obj(M.DECOMP, {'typ': typ, 'fed': h, 'unused_data': None if br else S('bytes', M.f_unu(t, h.t)), 'brotli': br})


def sh_buff(c, o):
    return None if c.choose('no_buff') else mk_bio(c)


def sh_dec(c, o):
    t = c.path.ghost.get('typ')
    for x in [t] + (['deflate_alt'] if t == 'deflate' else []) if t else []:
        if c.choose('dec_' + x):
            return mk_dec(c, x)
    return None


def sh_sd(c, o):
    return None if c.choose('no_sd') else c.bytes('sd')


def sh_typ(c, o):
    d = o.attrs.get('decompressor')
    return d.attrs['typ'] if isinstance(d, Obj) else None


SHAPES[(BR, 'buff')] = sh_buff
SHAPES[(BR, 'decomp_type')] = lambda c, o: None if c.choose('no_typ') else c.str('typ')
SHAPES[(BR, 'decompressor')] = sh_dec
SHAPES[(BR, 'starting_data')] = sh_sd


def mk_reader(c, cls=BR, decs=(None, 'gzip', 'deflate', 'deflate_alt', 'br'), **kw):
    d = c.pick(*decs)
    o = c.obj(cls, stream=c.stream('in'), block_size=c.int('block', 1), decomp_type=d, decompressor=mk_dec(c, d) if d else None,
              buff=sh_buff(c, None), buff_size=0, starting_data=None if 'starting_data' in kw else sh_sd(c, None), num_read=c.int('num_read', 0),
              num_block_read=c.int('num_block_read', 0), undecoded=c.bytes('undecoded'), read_all_members=False)
    if o.attrs['buff'] is not None:
        o.attrs['buff_size'] = wrap('int', length(term(o.attrs['buff'].attrs['buf'])))
    else:
        o.attrs['buff_size'] = c.int('buff_size', 0)
    o.attrs.update(kw)
    return o


def mk_abs_reader(c, cls=BR, **kw):
    """a reader of which only the buffer is known and, as one value, what comes after it
    (ghost _future, a function of the hidden fields, which must not be touched)"""
    o = c.obj(cls, buff=sh_buff(c, None), buff_size=0, _future=c.bytes('future'), read_all_members=False, num_read=c.int('num_read', 0))
    for n in HIDDEN:
        o.attrs[n] = Junk('hidden part of an abstract reader')
    if o.attrs['buff'] is not None:
        o.attrs['buff_size'] = wrap('int', length(term(o.attrs['buff'].attrs['buf'])))
    else:
        o.attrs['buff_size'] = c.int('buff_size', 0)
    o.attrs.update(kw)
    return o


HIDDEN = ('stream', 'decompressor', 'decomp_type', 'starting_data', 'num_block_read', 'undecoded', 'block_size')


def is_abs(o):
    return '_future' in o.attrs


def unread(c, o):
    b = o.attrs['buff']
    if b is None:
        return EMPTY
    buf, pos = term(b.attrs['buf']), term(b.attrs['pos'])
    if c.path.query(pos == 0):
        return buf
    if c.path.query(pos >= length(buf)):
        return EMPTY
    return M.sdrop(c.path, buf, pos)


def to_come(o):
    """raw bytes that were not given to the decompressor"""
    sd = o.attrs.get('starting_data')
    rest = term(o.attrs['stream'].attrs['rest'])
    raw = concat(term(sd) if sd is not None else EMPTY, rest)
    if 'all_chunks_read' in o.attrs:
        a, n, b = [o.attrs[k] for k in ('all_chunks_read', 'not_chunked', 'chunk_read')]
        return raw if n else EMPTY if a else M.U('dechunked', SS, z3.BoolSort(), SS)(rest, term(b))
    return raw


def decoded(c, typ, a):
    """data of the member at the start of a, or a itself if it is not compressed that way"""
    t = strval(typ)
    M.dec_facts(c.path, t, EMPTY, a)
    c.path.assume(And(M.f_out(t, EMPTY) == EMPTY, M.f_unu(t, EMPTY) == EMPTY, Not(M.f_err(t, EMPTY))))
    bad = decoded(c, 'deflate_alt', a) if typ == 'deflate' else a
    return If(M.f_ok(t, a), M.f_fut(t, EMPTY, a), bad)


def future(c, o):
    """what will be delivered after the buffer"""
    if is_abs(o):
        return term(o.attrs['_future'])
    t = to_come(o)
    d = o.attrs['decompressor']
    if d is None:
        return t
    typ = d.attrs['typ']
    ty, h = strval(typ), term(d.attrs['fed'])
    a = concat(h, t)
    M.dec_facts(c.path, ty, h, t)
    bad = decoded(c, 'deflate_alt', a) if typ == 'deflate' else a
    f = If(M.f_ok(ty, a), M.f_fut(ty, h, t), bad)
    u = d.attrs['unused_data']
    return f if u is None else If(term(u) != EMPTY, EMPTY, f)


def view(c, o):
    u = unread(c, o)
    f = future(c, o)
    return concat(u, f)


def inv_reader(c, o):
    """consistency of the state (the class invariant); always the same clauses"""
    T = z3.BoolVal(True)
    b = o.attrs['buff']
    yield 'num_read >= 0', term(o.attrs['num_read']) >= 0
    yield 'buff_size is the size of the buffer', T if b is None else term(o.attrs['buff_size']) == length(term(b.attrs['buf']))
    yield 'position inside the buffer', T if b is None else And(term(b.attrs['pos']) >= 0, term(b.attrs['pos']) <= length(term(b.attrs['buf'])))
    if is_abs(o):
        return
    yield 'block size', term(o.attrs['block_size']) >= 1
    d = o.attrs['decompressor']
    w = [T] * 5
    if d is not None:
        ty, h = strval(d.attrs['typ']), term(d.attrs['fed'])
        nb = term(o.attrs['num_block_read'])
        w = [eq(o.attrs['decomp_type'], d.attrs['typ']) if o.attrs['decomp_type'] is not None else z3.BoolVal(False),
             nb == z3.Length(M.f_out(ty, h)), Implies(nb == 0, term(o.attrs['undecoded']) == h), Not(M.f_err(ty, h)),
             term(d.attrs['unused_data']) == M.f_unu(ty, h) if d.attrs['unused_data'] is not None else T]
    yield 'type of the decompressor', w[0]
    yield 'num_block_read = bytes decoded', w[1]
    yield 'undecoded data is kept', w[2]
    yield 'decompressor did not fail', w[3]
    yield 'unused data', w[4]


def feed_hook(c, o):
    def hook(it, dec, h2):
        M.dec_facts(c.path, term(dec.attrs['typ']), h2, to_come(o))
    c.path.ghost['on_feed'] = hook


class _R(Contract):
    props = ('C02',)
    timeout = 300

    def args(self, c):
        return {'self': mk_abs_reader(c)}

    def applies(self, c, a):
        return a.self.cls.qual in (BR, DR) and is_abs(a.self)

    def pre(self, c, a):
        for x in inv_reader(c, a.self):
            yield x

    def old(self, c, a):
        return view(c, a.self)

    def mods(self, c, a):
        o = a.self
        fr = lambda k: (lambda c, o: c.path.fresh(k, 'h'))
        if is_abs(o):
            l = [(o, 'buff', sh_buff), (o, 'buff_size', fr('int')), (o, 'num_read', fr('int')), (o, '_future', fr('bytes'))]
            if o.attrs['buff'] is not None:
                l += [(o.attrs['buff'], 'pos', fr('int')), (o.attrs['buff'], 'buf', fr('bytes'))]
            return l
        s = o.attrs['stream']
        l = [(s, 'rest', fr('bytes')), (s, 'pos', fr('int')), (o, 'decompressor', sh_dec), (o, 'decomp_type', sh_typ),
             (o, 'buff', sh_buff), (o, 'starting_data', sh_sd),
             (o, 'buff_size', fr('int')), (o, 'num_read', fr('int')), (o, 'num_block_read', fr('int')), (o, 'undecoded', fr('bytes'))]
        if o.attrs['buff'] is not None:
            l += [(o.attrs['buff'], 'pos', fr('int')), (o.attrs['buff'], 'buf', fr('bytes'))]
        if o.attrs['decompressor'] is not None:
            l += [(o.attrs['decompressor'], 'fed', fr('bytes')), (o.attrs['decompressor'], 'unused_data', fr('bytes'))]
        return l

    def inv(self, c, L, a, o):
        r = a.self
        for label, f in inv_reader(c, r):
            yield 'fact', label, f
        if not is_abs(r):
            d, t = r.attrs['decompressor'], c.path.ghost.get('typ')
            yield 'check', 'kind of decompressor', d is None or d.attrs['typ'] == t or (t == 'deflate' and d.attrs['typ'] == 'deflate_alt')
        v = lambda: view(c, r)
        yield 'conserve', 'view', v
        for n, b in L.roles('bytes'):
            yield 'conserve', n + ' + view', lambda b=b: concat(term(b), view(c, r))
            if not is_abs(r):
                yield 'fact', n + ' not decompressed: in the buffer', lambda b=b: Or(r.attrs['decompressor'] is not None, term(b) == EMPTY, unread(c, r) != EMPTY)
                yield 'fact', n + ' empty only at the end', lambda b=b: Implies(term(b) == EMPTY, And(to_come(r) == EMPTY, z3.BoolVal(r.attrs['buff'] is None)))
        for n, l in L.modlists():
            def cat(l=l):
                return c.path.hom(M.cat_hom('bytes'), l.segs)
            yield 'conserve', n + ' joined + view', lambda cat=cat: concat(cat(), view(c, r))
            for m, i in L.idxs():
                yield 'conserve', '%s + bytes in %s' % (m, n), lambda cat=cat, i=i: term(i) + z3.Length(cat())
            if 'length' in a.__dict__ and a.length is not None:
                yield 'fact', 'no more than asked for in ' + n, lambda cat=cat: z3.Length(cat()) <= term(a.length)


class FillBuff(_R):
    """proved for every kind of decompressor (FillBuffC), used by read and readline"""
    target = BR + '._fillbuff'
    public = False
    assumed = True

    def args(self, c):
        d = _R.args(self, c)
        d['block_size'] = None
        return d

    def post(self, c, a, o, r):
        for x in inv_reader(c, a.self):
            yield x
        yield 'nothing lost, added or changed', view(c, a.self) == o
        yield 'buffer empty only at the end', Implies(unread(c, a.self) == EMPTY, o == EMPTY)


class FillBuffC(FillBuff):
    call_side = False
    assumed = False
    public = True

    def __init__(self, typ, sd=None, begun=None, buff=None):
        self.typ, self.sd, self.begun, self.buff = typ, sd, begun, buff
        self.name = '%s [%s%s%s%s]' % (self.target, typ or 'no decompressor', {None: '', True: ', starting data', False: ', no starting data'}[sd],
                                     {None: '', True: ', member begun', False: ', member not begun'}[begun],
                                       {None: '', True: ', buffer', False: ', no buffer'}[buff])

    def args(self, c):
        c.path.ghost['typ'] = self.typ
        o = mk_reader(c, decs=(self.typ,))
        if self.sd is not None:
            c.assume(z3.BoolVal((o.attrs['starting_data'] is not None) == self.sd))
        if self.buff is not None:
            c.assume(z3.BoolVal((o.attrs['buff'] is not None) == self.buff))
        if self.begun is not None:
            c.assume((term(o.attrs['num_block_read']) > 0) == self.begun)
        feed_hook(c, o)
        return {'self': o, 'block_size': None}


class Read(_R):
    target = BR + '.read'

    def args(self, c):
        d = _R.args(self, c)
        d['length'] = c.pick(None, lambda: c.int('length'))
        return d

    def result(self, c, a, o):
        return c.bytes('data')

    def post(self, c, a, o, r):
        for x in inv_reader(c, a.self):
            yield x
        rt = term(r)
        yield 'next bytes, none lost', o == concat(rt, view(c, a.self))
        if a.length is None:
            yield 'everything that remains', view(c, a.self) == EMPTY
        else:
            n = term(a.length)
            yield 'everything that remains (negative size)', Implies(n < 0, view(c, a.self) == EMPTY)
            yield 'exactly min(size, remaining) bytes', Implies(n >= 0, Or(z3.Length(rt) == n, And(z3.Length(rt) < n, view(c, a.self) == EMPTY)))


class ReadLine(_R):
    target = BR + '.readline'

    def args(self, c):
        d = _R.args(self, c)
        d['length'] = c.pick(None, lambda: c.int('length'))
        return d

    def inv(self, c, L, a, o):
        for x in _R.inv(self, c, L, a, o):
            yield x
        for n, b in L.roles('bytes'):
            yield 'fact', 'is a line ' + n, lambda b=b: M.def_line(c.path, term(b))
            if a.length is not None:
                yield 'fact', 'not too long ' + n, lambda b=b: Or(term(a.length) < 0, z3.Length(term(b)) <= term(a.length))
                for m, i in L.roles('int'):
                    yield 'fact', 'rem %s %s' % (m, n), lambda b=b, i=i: z3.Length(term(b)) + term(i) == term(a.length)

    def result(self, c, a, o):
        return c.bytes('line')

    def post(self, c, a, o, r):
        for x in inv_reader(c, a.self):
            yield x
        rt = term(r)
        v = view(c, a.self)
        yield 'next bytes, none lost', o == concat(rt, v)
        yield 'no newline inside', M.def_line(c.path, rt)
        full = [v == EMPTY, z3.SuffixOf(M.NL, rt)]
        if a.length is not None:
            n = term(a.length)
            full.append(z3.Length(rt) == n)
            yield 'at most the size', Implies(n >= 0, z3.Length(rt) <= n)
        yield 'ends at the newline, the size or the end', Or(*full)


class Init(_R):
    """a new reader delivers the data of the member at the start of the stream"""
    call_side = False

    def __init__(self, cls, default):
        self.target = cls + '.__init__'
        self.cls_, self.default = cls, default

    def args(self, c):
        d = {'self': c.obj(self.cls_), 'stream': c.stream('in')}
        d['block_size'] = c.pick(lambda: c.int('block', 1), 'dflt')
        if d['block_size'] == 'dflt':
            del d['block_size']
        t = c.pick('none given', None, 'gzip', 'deflate', 'GZip', 'DEFLATE')
        if t != 'none given':
            d['decomp_type'] = t
        return d

    def pre(self, c, a):
        return ()

    def old(self, c, a):
        return term(a.stream.attrs['rest'])

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def post(self, c, a, o, r):
        for x in inv_reader(c, a.self):
            yield x
        t = a.__dict__.get('decomp_type', self.default)
        yield 'nothing buffered', unread(c, a.self) == EMPTY
        yield 'delivers the decoded data of the stream', view(c, a.self) == (decoded(c, t.lower(), o) if t else o)
        yield 'position 0', term(a.self.attrs['num_read']) == 0
        yield 'one member', z3.BoolVal(a.self.attrs['read_all_members'] is False)

    def run(self, c, f, a):
        d = dict(a.__dict__)
        s = d.pop('self')
        st = d.pop('stream')
        return c.interp.call(f, [s, st], d)


CONTRACTS = [FillBuff()] + [FillBuffC(t) for t in (None, 'gzip', 'deflate_alt', 'br')] + \
    [FillBuffC('deflate', sd, b, u) for sd in (True, False) for b in (True, False) for u in (True, False)] + [Read(), ReadLine(), Init(BR, None), Init(DR, 'gzip')]
