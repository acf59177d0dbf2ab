"""creation of records (C19)"""
import itertools
from pyvc.verify import *
from pyvc import dates as D
from . import c_headers as H, c_writer as W, c_time as T, c_record as R

RB = 'recordbuilder.RecordBuilder'
low = lambda s: strval(s.lower())
TYPE, URI, ID, DATE, CT, PD = map(low, ('WARC-Type', 'WARC-Target-URI', 'WARC-Record-ID', 'WARC-Date', 'Content-Type', 'WARC-Payload-Digest'))
DEFAULTS = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response',
            'request': 'application/http; msgtype=request', 'metadata': 'application/warc-fields'}


def mk_builder(c):
    return c.obj(RB, warc_version=c.str('version'), header_filter=None)


def mk_dict(c, label='given'):
    return VDict(None, pairs=[c.path.new_atom('pair', label)])


def put(p, hs, key, name, v):
    return H.repl(p, hs, key, v) if p.decide(H.has(p, hs, key)) else list(hs) + [('e', (name, v))]


def missing(p, hs, key):
    return Not(And(H.has(p, hs, key), H.first(p, hs, key) != EMPTY))


def new_id(c):
    """the id made for the record"""
    us = R.log(c, 'uuid')
    return wrap('str', concat(strval('<urn:uuid:'), us[0].t, strval('>'))) if len(us) == 1 else None


def date_ok(c, version, d):
    """d is the time now, with microseconds only for WARC/1.1"""
    ns = R.log(c, 'now')
    if len(ns) != 1:
        return z3.BoolVal(False)
    fs = ns[0]
    v = term(version)
    plain, full = term(d) == T.iso(c, fs), term(d) == T.iso_micros(c, fs)
    return And(z3.Implies(v == strval('WARC/1.0'), plain), z3.Implies(v == strval('WARC/1.1'), full), Or(plain, full))


class Version(Contract):
    target = RB + '._parse_warc_version'
    props = ('C19',)
    call_side = False

    def args(self, c):
        return {'self': c.obj(RB), 'version': c.pick(None, lambda: c.str('version'))}

    def post(self, c, a, o, r):
        ok = kind(r) == 'str'
        yield 'text', z3.BoolVal(ok)
        if not ok:
            return
        if a.version is None:
            yield 'default', eq(r, 'WARC/1.0')
        else:
            v = term(a.version)
            yield 'the version asked for', term(r) == If(v == EMPTY, strval('WARC/1.0'), If(z3.PrefixOf(strval('WARC/'), v), v, concat(strval('WARC/'), v)))


class CurrDate(Contract):
    target = RB + '.curr_warc_date'
    props = ('C19',)

    def args(self, c):
        return {'self': mk_builder(c)}

    def applies(self, c, a):
        return isinstance(c.ver.cur, InitHeaders)

    def result(self, c, a, o):
        d = c.str('now')
        R.log(c, 'date').append((d, a.self))
        return d

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, CurrDate):
            yield 'the time now, with microseconds only for WARC 1.1', date_ok(c, a.self.attrs['warc_version'], r) if kind(r) == 'str' else z3.BoolVal(False)


class InitHeaders(Contract):
    """the headers of the caller, with type, id, URI and date"""
    target = RB + '._init_warc_headers'
    props = ('C19',)
    timeout = 200

    def __init__(self, uri=False, has_id=False, has_date=False):
        self.opts = uri, has_id, has_date
        self.name = '%s (%s, %s, %s)' % (self.target, 'URI' if uri else 'no URI', 'id given' if has_id else 'no id', 'date given' if has_date else 'no date')
        self.call_side = not any(self.opts)

    def args(self, c):
        uri, has_id, has_date = self.opts
        d = {'self': mk_builder(c), 'uri': c.str('uri') if uri else c.pick(None, lambda: ''), 'record_type': c.str('type'), 'warc_headers_dict': mk_dict(c)}
        hs = d['warc_headers_dict'].pairs
        if uri:
            c.assume(term(d['uri']) != EMPTY)
        for k, h in ((ID, has_id), (DATE, has_date)):
            c.assume(Not(missing(c.path, hs, k)) if h else missing(c.path, hs, k))
        return d

    def applies(self, c, a):
        return type(c.ver.cur).__module__ == __name__

    def old(self, c, a):
        d = a.warc_headers_dict
        return list(d.pairs) if d.pairs is not None else None

    def inv(self, c, L, a, o):
        if L.done is not None:
            for n, l in L.modlists():
                yield 'list', n + ' = done', lambda l=l: (l, L.done)

    def result(self, c, a, o):
        h = H.mk_sh(c, 'init', protocol=a.self.attrs['warc_version'])
        R.log(c, 'init').append((h, a, list(H.hdrs(h))))
        return h

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, InitHeaders):
            return
        p = c.path
        uri, has_id, has_date = self.opts
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == H.SH
        yield 'headers', z3.BoolVal(ok)
        if not ok:
            return
        yield 'WARC version', eq(r.attrs['protocol'], a.self.attrs['warc_version'])
        got = H.hdrs(r)
        ops = [lambda hs: put(p, hs, TYPE, 'WARC-Type', a.record_type)]
        if not has_id:
            i = new_id(c)
            yield 'one new id', z3.BoolVal(i is not None)
            if i is None:
                return
            ops.append(lambda hs: hs + [('e', ('WARC-Record-ID', i))])
        else:
            yield 'no id made', z3.BoolVal(not R.log(c, 'uuid'))
        if uri:
            ops.append(lambda hs: put(p, hs, URI, 'WARC-Target-URI', a.uri))
        if not has_date:
            # whatever the date is, it has to be right
            ds = [s[1][1] for s in p.norm(got) if isinstance(s, tuple) and lit_is(s[1][0], 'WARC-Date')]
            yield 'one date', z3.BoolVal(len(ds) == 1 and kind(ds[0]) == 'str')
            if len(ds) != 1 or kind(ds[0]) != 'str':
                return
            dl = R.log(c, 'date')
            yield 'the date is now, with microseconds only for WARC 1.1', And(eq(ds[0], dl[0][0]), z3.BoolVal(dl[0][1] is a.self)) if len(dl) == 1 else date_ok(c, a.self.attrs['warc_version'], ds[0])
            ops.append(lambda hs: hs + [('e', ('WARC-Date', ds[0]))])
        first = None
        for order in itertools.permutations(ops):
            hs = list(o)
            for f in order:
                hs = f(hs)
            e = z3.simplify(p.rope_eq(got, hs))
            if first is None:
                first = e
            if z3.is_true(e) or not z3.is_false(e) and p.query(e):
                first = e
                break
        yield 'the headers of the caller, with type, id, URI and date', first


def lit_is(v, s):
    return M.lit(v) == s if kind(v) == 'str' else False


class Create(Contract):
    """a record with these headers, this payload and the right content type"""
    target = RB + '.create_warc_record'
    props = ('C19',)
    call_side = False
    timeout = 200

    def __init__(self, payload, http, given):
        self.opts = payload, http, given
        self.name = '%s (%s, %s, %s)' % (self.target, 'payload ' + payload if payload else 'no payload', 'http headers' if http else 'no http headers', 'WARC headers given' if given else 'header dictionary')

    def args(self, c):
        payload, http, given = self.opts
        d = {'self': mk_builder(c), 'uri': c.pick(None, lambda: c.str('uri')), 'record_type': c.str('type'), 'payload': None, 'length': None, 'warc_content_type': c.str('ct'),
             'warc_headers_dict': c.pick(None, lambda: mk_dict(c)) if not given else None, 'warc_headers': H.mk_sh(c, 'warc') if given else None,
             'http_headers': H.mk_sh(c, 'http') if http else None}
        for h in (d['warc_headers'], d['http_headers']):
            if h is not None:
                c.assume(c.interp.truth_formula(h))
        if payload:
            d['payload'] = s = W.mk_payload(c, (payload,))
            c.assume(term(s.attrs['pos']) == 0)
            if c.pick(True, False):
                d['length'] = c.int('length', 0)
        return d

    def old(self, c, a):
        o = Args({})
        o.data = W.unread(c, a.payload) if a.payload is not None else EMPTY
        o.given = list(H.hdrs(a.warc_headers)) if a.warc_headers is not None else None
        o.http = a.payload is not None and a.http_headers is None and c.path.decide(R.http_wanted(c, a.record_type, a.uri, a.length))
        return o

    def mods(self, c, a):
        out = []
        if a.warc_headers is not None:
            out.append((a.warc_headers.attrs['headers'], '*', None))
        if a.payload is not None:
            out += [(a.payload, '**', None)]
        return out

    def raises(self, c, a, o):
        return [(c.cls(R.SHE), z3.BoolVal(o.http), None)]

    def post(self, c, a, o, r):
        p = c.path
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == W.REC
        yield 'a record', z3.BoolVal(ok)
        if not ok:
            return
        A = r.attrs
        yield 'of the type', And(eq(A['rec_type'], a.record_type), eq(A['format'], 'warc'))
        ins = R.log(c, 'init')
        if a.warc_headers is not None:
            yield 'with the headers given', z3.BoolVal(not ins and A['rec_headers'] is a.warc_headers)
            hs = o.given
        else:
            good = len(ins) == 1 and A['rec_headers'] is ins[0][0]
            yield 'with new headers', z3.BoolVal(good)
            if not good:
                return
            h, b, hs = ins[0]
            d = b.warc_headers_dict
            yield 'made of what the caller gave', And(R.same(c, b.uri, a.uri), eq(b.record_type, a.record_type),
                                                     z3.BoolVal(d is a.warc_headers_dict if a.warc_headers_dict is not None else isinstance(d, VDict) and d.pairs is None and not d.d))
        # http headers
        hl = R.log(c, 'http')
        yield 'http headers are parsed exactly where they apply', z3.BoolVal(len(hl) == (1 if o.http else 0))
        if len(hl) != (1 if o.http else 0):
            return
        used, hh = hl[0] if hl else (z3.IntVal(0), None)
        yield 'http headers', z3.BoolVal(A['http_headers'] is (a.http_headers if a.http_headers is not None else hh))
        # payload
        s = A['raw_stream']
        left = W.unread(c, s)
        if a.payload is None:
            yield 'no payload', And(left == EMPTY, eq(A['length'], 0), eq(A['payload_length'], 0))
        else:
            yield 'the payload', And(length(o.data) == length(left) + used, z3.SuffixOf(left, o.data))
            if a.length is not None:
                n = term(a.length) - (used if hh is not None else 0)
                yield 'its length as given', And(eq(A['length'], n), Or(eq(A['payload_length'], n), eq(A['payload_length'], length(left))))
            else:
                yield 'length is not known', z3.BoolVal(A['length'] is None)
        # digest
        want = list(hs)
        rt = term(a.record_type)
        if not p.decide(Or(Not(missing(p, hs, PD)), rt == strval('warcinfo'), rt == strval('revisit'))):
            want = want + [('e', ('WARC-Payload-Digest', wrap('str', W.digest(left))))]
        yield 'headers, with the payload digest', p.rope_eq(H.hdrs(A['rec_headers']), want)
        # content type
        ct = term(a.warc_content_type)
        if p.decide(ct == EMPTY):
            if p.decide(missing(p, hs, CT)):
                ct = strval('application/warc-record')
                for t, v in DEFAULTS.items():
                    if p.decide(rt == strval(t)):
                        ct = strval(v)
                        break
            else:
                ct = H.first(p, hs, CT)
        yield 'content type', eq(A['content_type'], ct) if kind(A['content_type']) == 'str' else z3.BoolVal(False)


LINES = Hom('info_lines', z3.StringSort(), EMPTY, lambda ps, base=None: concat(*ps) if ps else EMPTY,
            lambda x: If(term(x[1]) == EMPTY, EMPTY, concat(M.f_enc8(term(x[0])), strval(': '), M.f_enc8(term(x[1])), strval('\r\n'))))


class Warcinfo(Contract):
    """one line per item that is not empty, in order"""
    target = RB + '.create_warcinfo_record'
    props = ('C19',)
    call_side = False
    timeout = 200

    def args(self, c):
        return {'self': mk_builder(c), 'filename': c.pick(None, lambda: c.str('filename')), 'info': mk_dict(c, 'info')}

    def old(self, c, a):
        return list(a.info.pairs)

    def inv(self, c, L, a, o):
        if L.done is None:
            return
        for ob, ap in c.interp.access_paths().values():
            if isinstance(ob, Obj) and ob.cls is M.BIO:
                yield 'fact', 'lines so far', lambda ob=ob: And(term(ob.attrs['buf']) == c.path.hom(LINES, L.done), term(ob.attrs['pos']) == length(term(ob.attrs['buf'])))
        for n, v in L.roles('bytes'):
            yield 'fact', n + ' = lines so far', lambda v=v: term(v) == c.path.hom(LINES, L.done)
        for n, l in L.modlists():
            yield 'fact', n + ' joined = lines so far', lambda l=l: c.path.hom(M.cat_hom('bytes'), l.segs) == c.path.hom(LINES, L.done)

    def post(self, c, a, o, r):
        p = c.path
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == W.REC
        yield 'a record', z3.BoolVal(ok)
        if not ok:
            return
        A = r.attrs
        yield 'warcinfo', And(eq(A['rec_type'], 'warcinfo'), eq(A['format'], 'warc'), eq(A['content_type'], 'application/warc-fields'), z3.BoolVal(A['http_headers'] is None))
        h = A['rec_headers']
        yield 'WARC version', eq(h.attrs['protocol'], a.self.attrs['warc_version'])
        want = {'WARC-Type': 'warcinfo', 'WARC-Record-ID': new_id(c)}
        if a.filename is not None and p.decide(term(a.filename) != EMPTY):
            want['WARC-Filename'] = a.filename
        segs = p.norm(H.hdrs(h))
        es = [s[1] for s in segs if isinstance(s, tuple)]
        names = [M.lit(x[0]) for x in es]
        good = len(es) == len(segs) and sorted(map(str, names)) == sorted(list(want) + ['WARC-Date'])
        yield 'exactly type, id, date and file name', z3.BoolVal(good)
        if good:
            for n, v in es:
                n = M.lit(n)
                if n == 'WARC-Date':
                    yield 'the date is now, with microseconds only for WARC 1.1', date_ok(c, a.self.attrs['warc_version'], v)
                else:
                    yield n, eq(v, want[n]) if want[n] is not None else z3.BoolVal(False)
        block = W.unread(c, A['raw_stream'])
        yield 'one line per item that is not empty, in order', block == p.hom(LINES, o)
        yield 'length of the block', And(eq(A['length'], length(block)), eq(A['payload_length'], length(block)))


class Revisit(Contract):
    """profile, original URI, date and payload digest"""
    target = RB + '.create_revisit_record'
    props = ('C19',)
    call_side = False
    timeout = 200

    def args(self, c):
        h = H.mk_sh(c, 'http') if c.pick(False, True) else None
        if h is not None:
            c.assume(c.interp.truth_formula(h))
        return {'self': mk_builder(c), 'uri': c.str('uri'), 'digest': c.pick(None, lambda: c.str('digest')), 'refers_to_uri': c.str('orig_uri'), 'refers_to_date': c.str('orig_date'),
                'http_headers': h, 'warc_headers_dict': c.pick(None, lambda: mk_dict(c))}

    def raises(self, c, a, o):
        return [(AssertionError, z3.BoolVal(True) if a.digest is None else term(a.digest) == EMPTY, None)]

    def post(self, c, a, o, r):
        p = c.path
        ins = R.log(c, 'init')
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == W.REC and len(ins) == 1 and r.attrs['rec_headers'] is ins[0][0]
        yield 'a record with new headers', z3.BoolVal(ok)
        if not ok:
            return
        A = r.attrs
        h, b, hs = ins[0]
        d = b.warc_headers_dict
        yield 'a digest is required', z3.BoolVal(False) if a.digest is None else term(a.digest) != EMPTY
        yield 'made of what the caller gave', And(R.same(c, b.uri, a.uri), eq(b.record_type, 'revisit'),
                                                 z3.BoolVal(d is a.warc_headers_dict if a.warc_headers_dict is not None else isinstance(d, VDict) and d.pairs is None and not d.d))
        yield 'revisit', And(eq(A['rec_type'], 'revisit'), eq(A['format'], 'warc'), z3.BoolVal(A['http_headers'] is a.http_headers))
        yield 'no payload', And(W.unread(c, A['raw_stream']) == EMPTY, eq(A['length'], 0))
        prof = 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest'
        v = term(a.self.attrs['warc_version'])
        want = [('WARC-Profile', wrap('str', If(v == strval('WARC/1.1'), strval(prof % '1.1'), strval(prof % '1.0')))), ('WARC-Refers-To-Target-URI', a.refers_to_uri),
                ('WARC-Refers-To-Date', a.refers_to_date), ('WARC-Payload-Digest', a.digest)]
        got = p.norm(H.hdrs(h))
        tail = [s[1] for s in got[len(got) - 4:] if isinstance(s, tuple)]
        by = dict((M.lit(x[0]), x[1]) for x in tail)
        good = len(tail) == 4 and set(by) == set(n for n, _ in want)
        yield 'the headers of a revisit record are added', z3.BoolVal(good)
        if good:
            for n, x in want:
                yield n, eq(by[n], x)
            yield 'to those made of what the caller gave', p.rope_eq(got[:-4], hs)


CONTRACTS = [Version(), CurrDate(), Warcinfo(), Revisit()] + [InitHeaders(*x) for x in itertools.product((False, True), repeat=3)] + [
    Create(p, h, g) for p in (None, 'bytesio', 'stream') for h in (False, True) for g in (False, True)]
