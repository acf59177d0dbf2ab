"""the record loader (C12, choice of the digests for C10)"""
from pyvc.verify import *
from . import c_headers as H, c_limit as L

RL = 'recordloader.ArcWarcRecordLoader'
REC = 'recordloader.ArcWarcRecord'
SHP = 'statusandheaders.StatusAndHeadersParser'
SHE = 'statusandheaders.StatusAndHeadersParserException'
DVR = 'digestverifyingreader.DigestVerifyingReader'
ARCP = 'recordloader.ARCHeadersParser'
ALF = 'exceptions.ArchiveLoadFailed'
low = lambda s: strval(s.lower())
URI, TYPE, CL, CT = map(low, ('WARC-Target-URI', 'WARC-Type', 'Content-Length', 'Content-Type'))


def mk_loader(c, verify=None, arc2warc=None):
    v = c.pick(True, False) if verify is None else verify
    w = c.pick(True, False) if arc2warc is None else arc2warc
    return c.interp.call(c.cls(RL), [], {'verify_http': v, 'arc2warc': w})


def log(c, name):
    return c.path.derived.setdefault(name, [])


def consume(c, s, what='head'):
    """something was read from the stream; the number of bytes"""
    p = c.path
    k = c.int('used', 0).t
    o = s
    while o.cls is not M.ABS:
        if o.cls in (M.BIO, M.TMP):
            pos = term(o.attrs['pos'])
            p.assume(pos + k <= length(term(o.attrs['buf'])))
            o.attrs['pos'] = wrap('int', pos + k)
            c.interp.record(o, 'pos')
            return k
        p.assume(k <= term(o.attrs['limit']))
        o.attrs['limit'] = wrap('int', term(o.attrs['limit']) - k)
        c.interp.record(o, 'limit')
        o = o.attrs['stream']
    r, q = c.bytes(what).t, c.bytes('rest').t
    p.assume(And(term(o.attrs['rest']) == concat(r, q), length(r) == k))
    o.attrs['rest'] = wrap('bytes', q)
    c.interp.record(o, 'rest')
    if 'pos' in o.attrs:
        o.attrs['pos'] = wrap('int', term(o.attrs['pos']) + k)
        c.interp.record(o, 'pos')
    return k


def fresh_sh(c, label, least=1):
    o = H.mk_sh(c, label)
    c.assume(term(o.attrs["total_len"]) >= least)
    return o


class Parse(Contract):
    """the part of the parsers' contract that the loader needs"""
    target = SHP + '.parse'
    assumed = True
    kind = 'warc'

    def applies(self, c, a):
        return isinstance(a.stream, Obj)

    def raises(self, c, a, o):
        def failed(e, kind):
            e.attrs['statusline'] = c.str('statusline') if self.kind == 'warc' else c.list('str', 'parts')
            log(c, 'parses').append((a.self, a.stream, a.line(), kind, e))
            if kind != 'eof':       # nothing is left
                consume(c, a.stream)
            return ()
        # end of stream, or a line that is none of the expected ones
        return [(EOFError, z3.BoolVal(True), lambda e: failed(e, 'eof'))] + (
            [(c.cls(SHE), z3.BoolVal(True), lambda e: failed(e, 'bad'))] if a.self.attrs.get('verify', True) is not False else [])

    def old(self, c, a):
        a.line = lambda: a.full_statusline
        return None

    def result(self, c, a, o):
        consume(c, a.stream)
        r = fresh_sh(c, 'parsed', 1 if self.kind == 'warc' else 0)
        log(c, 'parses').append((a.self, a.stream, a.line(), 'ok', r))
        return r


class ArcParse(Parse):
    target = ARCP + '.parse'
    kind = 'arc'

    def old(self, c, a):
        a.line = lambda: a.headerline


VERBS = {'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH'}


def http_wanted(c, rec_type, uri, length):
    """an http block is there to be parsed"""
    if rec_type is None or uri is None:
        return z3.BoolVal(False)
    t, u = term(rec_type), term(uri)
    f = And(Or(*[t == strval(x) for x in ('response', 'request', 'revisit')]), Or(z3.PrefixOf(strval('http:'), u), z3.PrefixOf(strval('https:'), u)))
    return f if length is None else And(f, term(length) != 0)


class LoadHttp(Contract):
    """http headers are parsed exactly where they apply, with the parser of the record type"""
    target = RL + '.load_http_headers'
    props = ('C12',)

    def args(self, c):
        return {'self': mk_loader(c, arc2warc=True), 'rec_type': c.pick(None, lambda: c.str('type')), 'uri': c.pick(None, lambda: c.str('uri')),
                'stream': c.stream(), 'length': c.pick(None, lambda: c.int('length', 0))}

    def old(self, c, a):
        o = Args({})
        o.http = c.path.decide(http_wanted(c, a.rec_type, a.uri, a.length))
        return o

    def mods(self, c, a):
        s = a.stream
        keep = lambda n: (lambda c, o: o.attrs[n])
        out = []
        while s.cls is not M.ABS:
            if s.cls in (M.BIO, M.TMP):
                return [(s, 'pos', keep('pos'))]
            out.append((s, 'limit', keep('limit')))
            s = s.attrs['stream']
        return out + [(s, 'rest', keep('rest'))] + ([(s, 'pos', keep('pos'))] if 'pos' in s.attrs else [])

    def raises(self, c, a, o):
        def bad(e):
            if isinstance(c.ver.cur, LoadHttp):
                yield 'only a failed parse', z3.BoolVal(o.http and [x[3] for x in log(c, 'parses')] == ['bad'])
        if a.self.attrs['http_parser'].attrs['verify'] is not False:
            return [(c.cls(SHE), z3.BoolVal(o.http), bad)]
        return []

    def result(self, c, a, o):
        r = k = None
        if o.http:
            k = z3.IntVal(0)
            if not c.choose('eof'):
                k = consume(c, a.stream)
                r = fresh_sh(c, 'http')
            log(c, 'http').append((k, r))
        return r

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, LoadHttp):
            return
        ps = log(c, 'parses')
        yield 'parsed exactly where http headers can be', z3.BoolVal(len(ps) == (1 if o.http else 0))
        if not o.http or len(ps) != 1:
            yield 'none otherwise', z3.BoolVal(r is None)
            return
        parser, s, line, kind, v = ps[0]
        yield 'the given stream is parsed', z3.BoolVal(s is a.stream and line is None)
        sl = [x[1] for x in parser.attrs['statuslist'].segs] if isinstance(parser.attrs['statuslist'], VList) else []
        if c.path.decide(term(a.rec_type) == strval('request')):
            yield 'a request is parsed as request', z3.BoolVal(set(sl) == VERBS)
        else:
            yield 'a response is parsed as response', z3.BoolVal(set(sl) == {'HTTP/1.0', 'HTTP/1.1'})
        yield 'verified as asked for', z3.BoolVal(parser.attrs['verify'] is a.self.attrs['http_parser'].attrs['verify'])
        yield 'the headers, or none at the end', z3.BoolVal(r is (v if kind == 'ok' else None))


class Detect(Contract):
    """WARC or ARC headers, else the load error"""
    target = RL + '._detect_type_load_headers'
    props = ('C12',)

    def args(self, c):
        return {'self': mk_loader(c, verify=True), 'stream': c.stream(), 'statusline': c.pick(None, lambda: c.bytes('line')),
                'known_format': c.pick(None, 'warc', 'arc', lambda: c.str('known'))}

    def mods(self, c, a):
        keep = lambda n: (lambda c, o: o.attrs[n])
        return [(a.stream, 'rest', keep('rest'))] + ([(a.stream, 'pos', keep('pos'))] if 'pos' in a.stream.attrs else [])

    def parsers(self, a):
        return a.self.attrs['warc_parser'], a.self.attrs['arc_parser']

    def expected(self, c, a):
        """what the parses tell: ('warc', h), ('arc', h), 'eof' or 'bad' - or None if they are not the right ones"""
        ps = list(log(c, 'parses'))
        line = a.statusline
        k = a.known_format
        is_ = lambda s: k is not None and c.path.decide(c.interp.eq_formula(k, s))
        order = [1] if is_('arc') else [0] if is_('warc') else [0, 1]
        for i in order:
            if not ps:
                return None
            parser, s, l, kind, v = ps.pop(0)
            if parser is not self.parsers(a)[i] or s is not a.stream or l is not line:
                return None
            if kind == 'bad':
                line = v.attrs['statusline']
                continue
            if ps:
                return None
            return 'eof' if kind == 'eof' else (i, v)
        return None if ps else 'bad'

    def raises(self, c, a, o):
        def err(kind):
            def f(e):
                if isinstance(c.ver.cur, Detect):
                    yield 'error exactly if the header is neither', z3.BoolVal(self.expected(c, a) == kind)
            return f
        return [(c.cls(ALF), z3.BoolVal(True), err('bad')), (EOFError, z3.BoolVal(True), err('eof'))]

    def result(self, c, a, o):
        consume(c, a.stream)
        fmt = c.ver.cur.fmt
        h = fresh_sh(c, 'rec', 0)
        o = a.stream.attrs
        c.path.derived.setdefault('given', {})[h] = list(H.hdrs(h))
        log(c, 'detected').append((fmt, h, term(o['rest']), a))
        return (fmt, h)

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Detect):
            return
        e = self.expected(c, a)
        ok = isinstance(e, tuple) and isinstance(r, tuple) and len(r) == 2
        yield 'the headers of the format that fits', z3.BoolVal(ok and r[1] is e[1])
        if ok:
            arc = 'arc2warc' if a.self.attrs['arc_parser'].cls.name.startswith('ARC2WARC') else 'arc'
            yield 'the format', eq(r[0], ('warc', arc)[e[0]])


class EnsureUri(Contract):
    """target URI without angle brackets and spaces, also in the headers"""
    target = RL + '._ensure_target_uri_format'
    props = ('C12',)

    def args(self, c):
        return {'self': mk_loader(c, True, True), 'rec_headers': H.mk_sh(c)}

    def applies(self, c, a):
        return not a.rec_headers.attrs['headers'].concrete()

    def old(self, c, a):
        p = c.path
        o = Args({})
        o.headers = list(H.hdrs(a.rec_headers))
        o.given = c.path.decide(H.has(p, o.headers, URI))
        o.uri = None
        o.want = o.headers
        if not o.given:
            return o
        u = H.first(p, o.headers, URI)
        if isinstance(c.ver.cur, EnsureUri):
            if p.decide(And(z3.PrefixOf(strval('<'), u), z3.SuffixOf(strval('>'), u))):
                v = c.str('inner')      # what is between the brackets
                p.assume(u == concat(strval('<'), v.t, strval('>')))
                u = v.t
            if p.decide(z3.Contains(u, strval(' '))):
                u = term(M.str_replace_m(c.interp, wrap('str', u), ' ', '%20'))
            o.uri = u
        else:
            o.uri = f_norm(u)
        o.want = H.repl(p, o.headers, URI, wrap('str', o.uri))
        return o

    def mods(self, c, a):
        return [(a.rec_headers.attrs['headers'], '*', lambda c, l: l)]

    def result(self, c, a, o):
        a.rec_headers.attrs['headers'].segs = list(o.want)
        return None if o.uri is None else wrap('str', o.uri)

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, EnsureUri):
            return
        p = c.path
        if not o.given:
            yield 'none if there is none', z3.BoolVal(r is None)
            yield 'headers unchanged', p.rope_eq(H.hdrs(a.rec_headers), o.headers)
            return
        yield 'URI without brackets and spaces', eq(r, o.uri) if kind(r) == 'str' else z3.BoolVal(False)
        got = H.hdrs(a.rec_headers)
        yield 'the header has the URI', And(H.has(p, got, URI), H.first(p, got, URI) == o.uri)
        if p.decide(o.uri == H.first(p, o.headers, URI)):
            yield 'headers unchanged if it was fine', Or(p.rope_eq(got, o.headers), p.rope_eq(got, o.want))
        else:
            yield 'the other headers are unchanged', p.rope_eq(got, o.want)


f_norm = M.U('target_uri', z3.StringSort(), z3.StringSort())


def optional(p, hs, key):
    """value of a header, or none"""
    return wrap('str', H.first(p, hs, key)) if p.decide(H.has(p, hs, key)) else None


def same(c, v, w):
    return z3.BoolVal(v is None and w is None) if v is None or w is None else c.interp.eq_formula(v, w)


PD, BD, SEG = map(low, ('WARC-Payload-Digest', 'WARC-Block-Digest', 'WARC-Segment-Number'))
HERE = __name__


class DvrInit(Contract):
    """for the loader: what a verifying reader is made of"""
    target = DVR + '.__init__'
    assumed = True

    def applies(self, c, a):
        return type(c.ver.cur).__module__ == HERE

    def old(self, c, a):
        s = a.self
        s.attrs.update(stream=a.stream, limit=a.limit, _orig_limit=a.limit)
        log(c, 'dvr').append((s, a))

    def raises(self, c, a, o):
        return [(c.cls(ALF), z3.BoolVal(a.digest_checker.attrs['kind'] == 'raise'), None)]


class DvrBegin(Contract):
    target = DVR + '.begin_payload'
    assumed = True

    def applies(self, c, a):
        return type(c.ver.cur).__module__ == HERE

    def old(self, c, a):
        log(c, 'begin').append((a.self, term(a.self.attrs['limit'])))

    def raises(self, c, a, o):
        return [(c.cls(ALF), z3.BoolVal(any(x[0] is a.self and x[1].digest_checker.attrs['kind'] == 'raise' for x in log(c, 'dvr'))), None)]


def digests_in(p, hs):
    return Or(*[And(H.has(p, hs, k), H.first(p, hs, k) != EMPTY) for k in (PD, BD)])


class WrapDigest(Contract):
    """the digests that are declared are verified"""
    target = RL + '.wrap_digest_verifying_stream'
    props = ('C10', 'C12')

    def args(self, c):
        return {'self': mk_loader(c, True, True), 'stream': L.mk_limit(c), 'rec_type': c.pick(None, lambda: c.str('type')), 'rec_headers': H.mk_sh(c),
                'digest_checker': c.obj('digestverifyingreader.DigestChecker', kind=c.pick(None, 'raise', 'log'), _problem=VList([]), _passed=None), 'length': c.int('length', 0)}

    def old(self, c, a):
        p, hs = c.path, H.hdrs(a.rec_headers)
        o = Args({})
        if c.ver.cur is not self:
            o.any = p.decide(digests_in(p, hs))
            return o
        o.payload, o.block, o.seg = optional(p, hs, PD), optional(p, hs, BD), optional(p, hs, SEG)
        o.any = any(x is not None and p.decide(term(x) != EMPTY) for x in (o.payload, o.block))
        return o

    def raises(self, c, a, o):
        return [(c.cls(ALF), z3.BoolVal(o.any and a.digest_checker.attrs['kind'] == 'raise'), None)]

    def result(self, c, a, o):
        if not o.any:
            return (a.stream, False)
        s = c.obj(DVR, stream=a.stream, limit=a.length, _orig_limit=a.length)
        log(c, 'dvr').append((s, a))
        return (s, True)

    def post(self, c, a, o, r):
        if c.ver.cur is not self:
            return
        ok = isinstance(r, tuple) and len(r) == 2
        yield 'stream and whether it verifies', z3.BoolVal(ok)
        if not ok:
            return
        s, flag = r
        yield 'verifies exactly if there is a digest', eq(flag, o.any)
        if not o.any:
            yield 'the stream itself otherwise', z3.BoolVal(s is a.stream)
            return
        made = [x[1] for x in log(c, 'dvr') if x[0] is s]
        yield 'a verifying reader', z3.BoolVal(len(made) == 1 and made[0].stream is a.stream and made[0].digest_checker is a.digest_checker)
        if made:
            d = made[0]
            yield 'over the whole block', same(c, d.limit, a.length)
            yield 'of this type', same(c, d.record_type, a.rec_type)
            yield 'with the payload digest', same(c, d.payload_digest, o.payload)
            yield 'with the block digest', same(c, d.block_digest, o.block)
            yield 'segments have no payload digest', z3.BoolVal((d.segment_number is None) == (o.seg is None))


def made_headers(c, h, n, ct):
    p = c.path
    want = []
    if ct is not None and p.decide(term(ct) != EMPTY):
        want.append(('e', ('Content-Type', ct)))
    if n is not None and p.decide(term(n) >= 0):
        want.append(('e', ('Content-Length', c.interp.to_str(n))))
    yield 'made headers: type and length of the content', p.rope_eq(H.hdrs(h), want)
    yield 'made headers: status', And(eq(h.attrs['statusline'], '200 OK'), eq(h.attrs['protocol'], 'HTTP/1.0'))


class DefaultHttp(Contract):
    """headers that tell type and length of the content, as far as they are known"""
    target = RL + '.default_http_headers'
    props = ('C12',)
    call_side = False

    def args(self, c):
        return {'self': mk_loader(c, True, True), 'length': c.pick(None, lambda: c.int('length')), 'content_type': c.pick(None, lambda: c.str('ct'))}

    def post(self, c, a, o, r):
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == H.SH
        yield 'headers', z3.BoolVal(ok)
        if ok:
            for x in made_headers(c, r, a.length, a.content_type):
                yield x


class ParseRecord(Contract):
    """a record: its headers, its block limited to its length, and its http headers"""
    target = RL + '.parse_record_stream'
    props = ('C12', 'C10')
    timeout = 240

    def __init__(self, fmt, noparse, ensure, check):
        self.opts = noparse, ensure, check
        self.fmt = fmt
        self.name = '%s (%s, %s, %s, digests %s)' % (self.target, fmt, 'http not parsed' if noparse else 'http parsed', 'http headers made' if ensure else 'http headers optional', check)
        self.call_side = False

    def args(self, c):
        return {'self': mk_loader(c, True, self.fmt == 'arc2warc'), 'stream': c.stream(), 'statusline': c.bytes('line'), 'known_format': None,
                'no_record_parse': self.opts[0], 'ensure_http_headers': self.opts[1], 'check_digests': self.opts[2]}

    def mods(self, c, a):
        return [(a.stream, 'rest', None), (a.stream, 'pos', None)]

    def raises(self, c, a, o):
        verify = a.self.attrs['http_parser'].attrs['verify'] is not False
        def notfound(e):
            yield 'the load error is for a header that is none, or a digest', z3.BoolVal(self.opts[2] == 'raise' or not log(c, 'detected'))
        out = [(c.cls(ALF), z3.BoolVal(True), notfound), (EOFError, z3.BoolVal(True), lambda e: [('end of file only without a record', z3.BoolVal(not log(c, 'detected')))])]
        if verify and not self.opts[0]:
            out.append((c.cls(SHE), z3.BoolVal(True), lambda e: [('http that is none', z3.BoolVal(len(log(c, 'detected')) == 1))]))
        return out

    def spec(self, c, a):
        """what the record has to be, from the headers"""
        p = c.path
        noparse, ensure, check = self.opts
        fmt, h, start, call = log(c, 'detected')[0]
        o = Args({})
        o.fmt, o.h, o.start, o.call = fmt, h, start, call
        o.headers = hs = o.given = list(H_given(c, h))
        if fmt == 'arc':
            o.uri, o.length, o.ct = optional(p, hs, low('uri')), optional(p, hs, low('length')), optional(p, hs, low('content-type'))
            o.type = 'response'
            if o.uri is not None and p.decide(z3.PrefixOf(strval('filedesc://'), term(o.uri))):
                o.type = 'arc_header'
        else:
            o.type, o.uri, o.length, o.ct = (optional(p, hs, k) for k in (TYPE, URI, CL, CT))
            if o.uri is not None:
                o.uri = wrap('str', f_norm(term(o.uri)))
                o.headers = H.repl(p, hs, URI, o.uri)
        sub = z3.IntVal(0) if fmt == 'warc' else term(h.attrs['total_len'])
        o.limit = None
        if o.length is not None:
            ok, n = M.to_int(p, term(o.length))
            o.limit = wrap('int', n - sub) if p.decide(And(ok, n >= sub)) else 0
        o.http = not noparse and p.decide(http_wanted(c, o.type, o.uri, o.limit))
        return o

    def post(self, c, a, o, r):
        p = c.path
        noparse, ensure, check = self.opts
        yield 'one record', z3.BoolVal(len(log(c, 'detected')) == 1 and isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == REC)
        if len(log(c, 'detected')) != 1 or not isinstance(r, Obj):
            return
        w = self.spec(c, a)
        R = r.attrs
        yield 'the header line given is used', z3.BoolVal(w.call.stream is a.stream and w.call.statusline is a.statusline and w.call.known_format is None)
        yield 'format', eq(R['format'], 'arc' if w.fmt == 'arc' else 'warc')
        yield 'type', same(c, R['rec_type'], w.type)
        yield 'its headers', z3.BoolVal(R['rec_headers'] is w.h)
        yield 'with the target URI normalized, all else unchanged', p.rope_eq(H.hdrs(w.h), w.headers)
        yield 'content type', same(c, R['content_type'], w.ct)
        yield 'length', same(c, R['length'], w.limit)
        # http headers
        hl = log(c, 'http')
        yield 'http headers are parsed exactly where they apply', z3.BoolVal(len(hl) == (1 if w.http else 0))
        if len(hl) != (1 if w.http else 0):
            return
        used, hh = hl[0] if hl else (z3.IntVal(0), None)
        got = R['http_headers']
        have = hh is not None and (not ensure or p.decide(c.interp.truth_formula(hh)))
        if have or not ensure:
            yield 'http headers are those parsed', z3.BoolVal(got is hh)
        else:
            made = isinstance(got, Obj) and isinstance(got.cls, Cls) and got.cls.qual == H.SH
            yield 'http headers are made', z3.BoolVal(made)
            if made:
                for x in made_headers(c, got, w.limit, w.ct):
                    yield x
        # stream
        s = R['raw_stream']
        rest = term(a.stream.attrs['rest'])
        yield 'only http headers are read from the block', length(w.start) == length(rest) + used
        dv = log(c, 'dvr')
        if w.limit is None:
            yield 'without length the stream is not limited', z3.BoolVal(s is a.stream and not dv)
        else:
            n = term(w.limit)
            yield 'verified exactly if there are digests', z3.BoolVal(len(dv) == (1 if check and p.decide(digests_in(p, w.given)) else 0))
            lr = s
            if dv:
                yield 'the reader verifies', z3.BoolVal(s is dv[0][0])
                d = dv[0][1]
                yield 'the digests of the record', z3.BoolVal(d.rec_headers is w.h and d.digest_checker is R['digest_checker'] and d.digest_checker.attrs['kind'] == check)
                yield 'over the whole block', same(c, d.length, w.limit)
                yield 'of its type', same(c, d.rec_type, w.type)
                lr = s.attrs['stream']
                yield 'limit of the verifying reader', term(s.attrs['limit']) == n - used
                bg = log(c, 'begin')
                p_known = z3.BoolVal(True)
                if noparse and p.decide(And(n != 0, Or(*[same(c, w.type, x) for x in ('response', 'request', 'revisit')]))):
                    yield 'no payload digest where the payload is not known', z3.BoolVal(not bg)
                else:
                    yield 'the payload begins', z3.BoolVal(len(bg) == 1 and bg[0][0] is s)
                    if bg:
                        yield 'after the http headers', bg[0][1] == n - used
            ok = isinstance(lr, Obj) and isinstance(lr.cls, Cls) and lr.cls.qual == L.LR
            yield 'the block is limited', z3.BoolVal(ok and lr.attrs['stream'] is a.stream)
            if ok:
                yield 'to its length', term(lr.attrs['limit']) == n - used
        # payload
        pl = R['payload_length']
        if hh is not None and have and w.limit is not None and p.decide(term(w.limit) != 0):
            yield 'payload length is what is left after the http headers', eq(pl, term(w.limit) - used)
        elif hh is None and not ensure:
            yield 'payload length is not known', eq(pl, -1)
        elif hh is None:
            yield 'with headers made, the payload is the block', eq(pl, -1 if w.limit is None else w.limit)


def H_given(c, h):
    return c.path.derived['given'][h]


CONTRACTS = [Parse(), ArcParse(), DvrInit(), DvrBegin(), LoadHttp(), Detect(), EnsureUri(), WrapDigest(), DefaultHttp()] + [
    ParseRecord(f, n, e, k) for f in ('warc', 'arc2warc', 'arc') for n in (False, True) for e in (False, True) for k in (False, 'raise', 'log')]
