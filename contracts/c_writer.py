"""record writing: framing (C08), digests (C09), request/response pairs (C20)"""
from pyvc.verify import *
from . import c_headers as H, c_serial as Z

SS = z3.StringSort()
REC = 'recordloader.ArcWarcRecord'
WW = 'warcwriter.WARCWriter'
CRLF = strval('\r\n')
lowkey = lambda s: strval(s.lower())
BLOCK, PAYLOAD, CT, CL = map(lowkey, ('WARC-Block-Digest', 'WARC-Payload-Digest', 'Content-Type', 'Content-Length'))


def mk_writer(c, gzip=None, flt=None):
    return c.obj(WW, gzip=c.pick(False, True) if gzip is None else gzip, hostname='host', parser=None, warc_version=c.str('version'),
                 header_filter=flt, out=M.new_out(c.interp))


def mk_payload(c, kinds=('bytesio', 'stream')):
    if c.pick(*kinds) == 'bytesio':
        o = M.new_bio(c.interp, c.bytes('payload'))
        o.attrs['pos'] = c.int('pos', 0)
        c.assume(o.attrs['pos'].t <= length(term(o.attrs['buf'])))
        return o
    return c.stream('payload')


def unread(c, s):
    """what the stream still has to deliver"""
    if s.cls is M.ABS:
        return term(s.attrs['rest'])
    return M.bio_rest(c.interp, s)[1]


def mk_http(c, buff=True):
    return H.mk_sh(c, 'http_h', headers_buff=c.bytes('headers_buff') if buff else None)


def digest(data):
    return concat(strval('sha1:'), U32(M.f_hash(strval('sha1'), data)))


def U32(b):
    return M.f_b32e(b)


class Ensure(Contract):
    """digests are added where they are missing, the payload stays readable"""
    target = 'recordbuilder.RecordBuilder.ensure_digest'
    props = ('C09',)
    timeout = 200

    def __init__(self, http, stream, known):
        self.http, self.stream, self.known = http, stream, known
        self.name = '%s (%s, %s, length %s)' % (self.target, 'http headers' if http else 'no http headers', stream, 'known' if known else 'unknown')
        self.call_side = not (http or known) and stream == 'bytesio'

    def args(self, c):
        h = mk_http(c) if self.http else None
        rec = c.obj(REC, format='warc', rec_type=c.str('rec_type'), rec_headers=H.mk_sh(c), raw_stream=mk_payload(c, (self.stream,)), http_headers=h,
                    content_type=c.str('ct'), length=c.int('length') if self.known else None, payload_length=c.int('payload_length'), digest_checker=None)
        if h is not None:
            c.assume(term(h.attrs['headers_buff']) != EMPTY)
        return {'self': mk_writer(c, gzip=False), 'record': rec, 'block': c.pick(True, False), 'payload': True}

    def applies(self, c, a):
        return isinstance(a.block, bool) and isinstance(a.payload, bool) and not a.record.attrs['rec_headers'].attrs['headers'].concrete()

    def old(self, c, a):
        p, r = c.path, a.record
        o = Args({})
        hs = list(H.hdrs(r.attrs['rec_headers']))
        o.headers = hs
        o.data = unread(c, r.attrs['raw_stream'])
        o.stream = r.attrs['raw_stream']
        rt = term(r.attrs['rec_type'])
        o.revisit = rt == strval('revisit')
        hh = r.attrs['http_headers']
        ne = lambda k: And(H.has(p, hs, k), H.first(p, hs, k) != EMPTY)
        o.block = a.block and not p.decide(ne(BLOCK))
        o.payload = a.payload and not p.decide(Or(ne(PAYLOAD), rt == strval('warcinfo'), o.revisit))
        o.only = hh is not None and p.decide(o.revisit)
        if hh is None:
            o.content = o.data
        elif not o.block:
            o.content = None
        else:
            hb = term(hh.attrs['headers_buff'])
            o.content = hb if o.only else concat(hb, o.data)
        o.reads = o.block or o.payload or r.attrs['length'] is None
        o.temp = o.reads and (r.attrs['length'] is None or r.attrs['raw_stream'].cls is not M.BIO)
        return o

    def mods(self, c, a):
        r = a.record
        return [(r.attrs['rec_headers'].attrs['headers'], '*', lambda c, l: l), (r, 'raw_stream', lambda c, o: o.attrs['raw_stream']), (r, '_orig_stream', lambda c, o: None),
                (r, 'payload_length', lambda c, o: o.attrs['payload_length']), (r.attrs['raw_stream'], '**', lambda c, o: None)]

    def inv(self, c, L, a, o):
        p, r = c.path, a.record
        s = a.record.attrs['raw_stream']
        memo = []

        def left():
            if not memo:
                memo.append(unread(c, s))
            return memo[0]
        for ap, attr, v in c.ver.mod_scalars(L):
            if kind(v) == 'bytes':
                yield 'conserve', 'moved to %s.%s' % (ap, attr), lambda v=v, ap=ap, attr=attr: concat(term(v), left()) if not (o.only and attr == 'fed') else term(v)
        for ob, ap in c.interp.access_paths().values():
            if isinstance(ob, Obj) and ob.cls is M.TMP:
                yield 'fact', 'temporary file at its end', lambda ob=ob: eq(ob.attrs['pos'], length(term(ob.attrs['buf'])))
        if s.cls is M.BIO:
            yield 'fact', 'position in the payload', lambda: And(term(s.attrs['pos']) >= 0, term(s.attrs['pos']) <= length(term(s.attrs['buf'])))

    def added(self, o):
        out = []
        if o.payload:
            out.append(('e', ('WARC-Payload-Digest', wrap('str', digest(o.data)))))
        if o.block:
            out.append(('e', ('WARC-Block-Digest', wrap('str', digest(o.content)))))
        return out

    def result(self, c, a, o):
        r = a.record
        H_ = r.attrs['rec_headers'].attrs['headers']
        H_.segs = list(o.headers) + self.added(o)
        if o.temp:
            t = M.new_bio(c.interp, wrap('bytes', o.data), M.TMP)
            r.attrs['_orig_stream'] = o.stream
            r.attrs['raw_stream'] = t
            r.attrs['payload_length'] = wrap('int', length(o.data))
            if o.stream.cls is M.ABS:
                o.stream.attrs['rest'] = b''
            else:
                o.stream.attrs['pos'] = wrap('int', length(term(o.stream.attrs['buf'])))
        else:
            r.attrs.pop('_orig_stream', None)

    def post(self, c, a, o, r):
        p, rec = c.path, a.record
        s = rec.attrs['raw_stream']
        hs = H.hdrs(rec.attrs['rec_headers'])
        if isinstance(c.ver.cur, Ensure):
            yield 'the missing digests of the content are added, nothing else changes', p.rope_eq(hs, list(o.headers) + self.added(o))
            yield 'no payload byte is lost', unread(c, s) == o.data
            if o.temp:
                yield 'length of the payload', term(rec.attrs['payload_length']) == length(o.data)
                yield 'the original stream is kept', z3.BoolVal(rec.attrs.get('_orig_stream') is o.stream)
            else:
                yield 'payload stream is kept', z3.BoolVal(s is o.stream and '_orig_stream' not in rec.attrs)



class Write(Contract):
    """a record is written as headers, block and two line ends; its length and digests are those of the block"""
    target = 'warcwriter.BaseWARCWriter._write_warc_record'
    props = ('C08', 'C09')
    timeout = 240

    def __init__(self, http, stream, known, gzip):
        self.http, self.stream, self.known, self.gzip = http, stream, known, gzip
        self.name = '%s (%s, %s, length %s, %s)' % (self.target, 'http headers' if http else 'no http headers', stream, 'known' if known else 'unknown', 'gzip' if gzip else 'plain')
        self.call_side = not (http or known or gzip) and stream == 'bytesio'

    def args(self, c):
        flt = c.pick(None, lambda: Z.mk_filter(c)) if self.http else None
        h = mk_http(c, False) if self.http else None
        rec = c.obj(REC, format='warc', rec_type=c.str('rec_type'), rec_headers=H.mk_sh(c), raw_stream=mk_payload(c, (self.stream,)), http_headers=h,
                    content_type=c.pick(None, lambda: c.str('ct')), length=c.int('length') if self.known else None, payload_length=c.int('payload_length'), digest_checker=None)
        w = mk_writer(c, gzip=self.gzip, flt=flt)
        return {'self': w, 'out': w.attrs['out'], 'record': rec}

    def applies(self, c, a):
        return not a.record.attrs['rec_headers'].attrs['headers'].concrete() and a.out.cls is M.OUT

    def pre(self, c, a):
        r = a.record
        n = length(unread(c, r.attrs['raw_stream']))
        if r.attrs['length'] is None:
            return
        if r.attrs['http_headers'] is not None:
            yield 'the length given is that of the payload', term(r.attrs['payload_length']) == n
        else:
            yield 'the length given is that of the block', term(r.attrs['length']) == n

    def old(self, c, a):
        p, r = c.path, a.record
        o = Args({})
        o.out = term(a.out.attrs['data'])
        o.given = list(H.hdrs(r.attrs['rec_headers']))
        if not isinstance(c.ver.cur, Write):
            return o
        o.known = r.attrs['length'] is not None
        hs = list(H.hdrs(r.attrs['rec_headers']))
        rt = term(r.attrs['rec_type'])
        o.revisit = p.decide(rt == strval('revisit'))
        if not o.known:
            hs = H.RM.apply(p, hs, [BLOCK])
            if not o.revisit:
                hs = H.RM.apply(p, hs, [PAYLOAD])
            hs = H.RM.apply(p, hs, [CT])
        o.headers = hs
        o.data = unread(c, r.attrs['raw_stream'])
        ne = lambda k: And(H.has(p, hs, k), H.first(p, hs, k) != EMPTY)
        o.block = not p.decide(ne(BLOCK))
        o.payload = not p.decide(Or(ne(PAYLOAD), rt == strval('warcinfo'), z3.BoolVal(o.revisit)))
        o.http = r.attrs['http_headers'] is not None
        return o

    def mods(self, c, a):
        r = a.record
        keep = lambda c, l: l
        out = [(r.attrs['rec_headers'].attrs['headers'], '*', keep), (r.attrs['rec_headers'], 'headers', lambda c, o: o.attrs['headers']), (r, 'raw_stream', lambda c, o: o.attrs['raw_stream']), (r, '_orig_stream', lambda c, o: None),
               (r, 'payload_length', lambda c, o: o.attrs['payload_length']), (r, 'length', lambda c, o: c.path.fresh('int', 'length')), (r.attrs['raw_stream'], '**', lambda c, o: None),
               (a.out, 'data', lambda c, o: c.path.fresh('bytes', 'out')), (a.out, 'flushed', True)]
        if r.attrs['http_headers'] is not None:
            h = r.attrs['http_headers']
            fr = lambda c, o: c.path.fresh('str', 'h')
            out += [(h, 'headers_buff', lambda c, o: c.path.fresh('bytes', 'hb')), (h.attrs['headers'], '*', keep), (h, 'protocol', fr), (h, 'statusline', fr)]
        return out

    def inv(self, c, L, a, o):
        p, r = c.path, a.record
        s = r.attrs['raw_stream']
        memo = []

        def left():
            if not memo:
                memo.append(unread(c, s))
            return memo[0]
        for ap, attr, v in c.ver.mod_scalars(L):
            if kind(v) == 'bytes':
                yield 'conserve', 'moved to %s.%s' % (ap, attr), lambda v=v: concat(term(v), left())
        for ob, ap in c.interp.access_paths().values():
            if isinstance(ob, Obj) and ob.cls is M.COMP:
                yield 'fact', 'compressed data is written', lambda ob=ob: eq(a.out.attrs['data'], concat(o.out, term(ob.attrs['out'])))
        if s.cls in (M.BIO, M.TMP):
            yield 'fact', 'position in the payload', lambda: And(term(s.attrs['pos']) >= 0, term(s.attrs['pos']) <= length(term(s.attrs['buf'])))

    def want(self, c, a, o):
        """(headers, block)"""
        p, r = c.path, a.record
        hs = list(o.headers)
        hb = term(r.attrs['http_headers'].attrs['headers_buff']) if o.http else EMPTY
        block = hb if o.http and o.revisit else concat(hb, o.data)
        if o.payload:
            hs.append(('e', ('WARC-Payload-Digest', wrap('str', digest(o.data)))))
        if o.block:
            hs.append(('e', ('WARC-Block-Digest', wrap('str', digest(block)))))
        if r.attrs['content_type'] is not None:
            hs = self.put(p, hs, CT, 'Content-Type', r.attrs['content_type'])
        n = M.itos(p, length(block))
        hs = self.put(p, hs, CL, 'Content-Length', wrap('str', n))
        return hs, block, n

    def put(self, p, hs, key, name, v):
        return H.repl(p, hs, key, v) if p.decide(H.has(p, hs, key)) else hs + [('e', (name, v))]

    def form(self, c, a, hs, block):
        """the bytes of the record"""
        h = a.record.attrs['rec_headers']
        t = concat(Z.head(c, h), c.path.hom(Z.SER, hs))
        return concat(M.enc8(c.path, t), CRLF, block, CRLF, CRLF)

    def result(self, c, a, o):
        """callers learn that this record, as it was at the call, was written"""
        w = c.bytes('record_written')
        a.out.attrs['data'] = wrap('bytes', concat(o.out, w.t))
        a.record.attrs['rec_headers'].attrs['headers'].segs = [c.path.new_atom('pair', 'headers_written')]
        c.path.derived.setdefault('written', []).append((a.record, o.given, w.t, a.out))

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Write):
            return
        p, rec = c.path, a.record
        hs, block, n = self.want(c, a, o)
        got = H.hdrs(rec.attrs['rec_headers'])
        if o.http:
            yield 'there are header bytes', z3.BoolVal(kind(rec.attrs['http_headers'].attrs['headers_buff']) == 'bytes')
        yield 'the WARC headers are those given, with length and digests of the block', p.rope_eq(got, hs)
        yield 'Content-Length is the number of block bytes', H.first(p, got, CL) == n
        f = self.form(c, a, got, block)
        yield 'headers, block and two line ends are written, nothing else', term(a.out.attrs['data']) == concat(o.out, M.f_comp(f) if self.gzip else f)
        yield 'the output is flushed', term(a.out.attrs['flushed'])



def mk_rec(c, label):
    h = mk_http(c, False) if c.pick(False, True) else None
    return c.obj(REC, format='warc', rec_type=c.str(label + '_type'), rec_headers=H.mk_sh(c, label), raw_stream=M.new_bio(c.interp, c.bytes(label + '_payload')), http_headers=h,
                 content_type=c.str(label + '_ct'), length=c.int(label + '_length'), payload_length=c.int(label + '_plen'), digest_checker=None)


def written(c):
    return c.path.derived.get('written', [])


class WriteRecord(Contract):
    target = WW + '.write_record'
    props = ('C08',)
    call_side = False

    def args(self, c):
        return {'self': mk_writer(c, gzip=False), 'record': mk_rec(c, 'rec')}

    def _a(self, a, r):
        return Args({'self': a.self, 'record': r, 'out': a.self.attrs['out']})

    def recs(self, a):
        return [a.record]

    def pre(self, c, a):
        w = CONTRACTS_WRITE[0]
        for r in self.recs(a):
            for x in w.pre(c, self._a(a, r)):
                yield x

    def old(self, c, a):
        o = Args({})
        o.out = term(a.self.attrs['out'].attrs['data'])
        o.headers = [list(H.hdrs(r.attrs['rec_headers'])) for r in self.recs(a)]
        return o

    def mods(self, c, a):
        for r in self.recs(a):
            for x in CONTRACTS_WRITE[0].mods(c, self._a(a, r)):
                yield x

    def want(self, c, a, o):
        return list(zip(self.recs(a), o.headers))

    def post(self, c, a, o, r):
        p = c.path
        w = written(c)
        want = self.want(c, a, o)
        ok = len(w) == len(want) and all(x[0] is y[0] for x, y in zip(w, want))
        yield 'exactly these records are written, in this order', z3.BoolVal(ok)
        if ok:
            for (r, hs, t, out), (_, hs2) in zip(w, want):
                yield 'with their headers', p.rope_eq(hs, hs2)
                yield 'to the output', z3.BoolVal(out is a.self.attrs['out'])
            yield 'and nothing else', term(a.self.attrs['out'].attrs['data']) == concat(o.out, *[x[2] for x in w])
            yield 'flushed', term(a.self.attrs['out'].attrs['flushed'])


class Pair(WriteRecord):
    """response, then the request, which gets URI, date and id of the response"""
    target = 'warcwriter.BaseWARCWriter.write_request_response_pair'
    props = ('C20',)

    def args(self, c):
        return {'self': mk_writer(c, gzip=False), 'req': mk_rec(c, 'req'), 'resp': mk_rec(c, 'resp'), 'params': c.pick(None, lambda: c.obj(REC))}

    def recs(self, a):
        return [a.resp, a.req]

    def pre(self, c, a):
        for x in WriteRecord.pre(self, c, a):
            yield x
        hs = H.hdrs(a.resp.attrs['rec_headers'])
        for k in ('WARC-Target-URI', 'WARC-Date'):
            yield 'the response has ' + k, H.has(c.path, hs, lowkey(k))

    def want(self, c, a, o):
        p = c.path
        resp, req = o.headers
        for n in ('WARC-Target-URI', 'WARC-Date'):
            req = Write.put(None, p, req, lowkey(n), n, wrap('str', H.first(p, resp, lowkey(n))))
        k = lowkey('WARC-Record-ID')
        if p.decide(And(H.has(p, resp, k), H.first(p, resp, k) != EMPTY)):
            req = req + [('e', ('WARC-Concurrent-To', wrap('str', H.first(p, resp, k))))]
        return [(a.resp, resp), (a.req, req)]


CONTRACTS_WRITE = [Write(h, s, k, g) for h in (False, True) for s in ('bytesio', 'stream') for k in (True, False) for g in (False, True)]
CONTRACTS = [Ensure(h, s, k) for h in (False, True) for s in ('bytesio', 'stream') for k in (True, False)] + CONTRACTS_WRITE + [WriteRecord(), Pair()]
for w in CONTRACTS_WRITE:
    w.call_side = w is CONTRACTS_WRITE[0]
