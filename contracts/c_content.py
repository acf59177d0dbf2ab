"""ArcWarcRecord.content_stream (C26): the reader returned delivers the payload
with exactly the declared codings removed.  What a reader delivers is the view
of c_readers / c_chunked, of which the contracts are proved there."""
from pyvc.verify import *
from . import c_readers as R, c_chunked as K, c_headers as H

REC = 'recordloader.ArcWarcRecord'
SUPPORTED = ('gzip', 'deflate', 'br')


class ContentStream(Contract):
    target = REC + '.content_stream'
    props = ('C26',)
    timeout = 300

    def args(self, c):
        raw = c.stream('raw')
        raw.attrs['det'] = True
        hh = None if c.choose('no_http') else H.mk_sh(c)
        return {'self': c.obj(REC, raw_stream=raw, http_headers=hh, format='warc', rec_type=c.str('type'), rec_headers=H.mk_sh(c, 'w'),
                              content_type=c.str('ct'), length=c.int('length'), payload_length=c.int('plen'), digest_checker=None)}

    def old(self, c, a):
        return a.self.attrs['raw_stream'], term(a.self.attrs['raw_stream'].attrs['rest'])

    def mods(self, c, a):
        return []

    def post(self, c, a, o, r):
        p = c.path
        raw, rest = o
        hh = a.self.attrs['http_headers']
        chunked, coding = False, None
        if hh is not None:
            for x in H.hdrs(hh):
                if p.query(p.seg_len(x) == 0):      # nothing is in an empty list
                    p.assume(And(*[Not(H.has(p, [x], strval(n))) for n in ('content-encoding', 'transfer-encoding')]))
            ce, te = strval('content-encoding'), strval('transfer-encoding')
            if p.decide(H.has(p, H.hdrs(hh), te)):
                v = M.casemap(p, M.f_lower, H.first(p, H.hdrs(hh), te))
                chunked = p.decide(v == strval('chunked'))
            if p.decide(H.has(p, H.hdrs(hh), ce)):
                v = M.casemap(p, M.f_lower, H.first(p, H.hdrs(hh), ce))
                for s in SUPPORTED:
                    if p.decide(v == strval(s)):
                        coding = s
                if p.decide(v == strval('deflate_alt')):
                    coding = 'deflate_alt'      # not a registered coding; out of scope
        x = rest
        if chunked:
            x = K.CH(x, z3.BoolVal(False))
        if coding:
            x = R.decoded(c, coding, x)
        if r is raw:
            yield 'delivers the payload without the declared codings', rest == x
            for n in range(3):
                yield 'is a reader on the raw stream %d' % n, z3.BoolVal(True)
            return
        ok = isinstance(r, Obj) and r.cls.qual in (R.BR, R.DR, K.CR)
        if not ok:
            yield 'is a reader', z3.BoolVal(False)
            return
        yield 'is a reader on the raw stream 0', z3.BoolVal(r.attrs['stream'] is raw)
        for label, f in (K.inv_chunked if r.cls.qual == K.CR else R.inv_reader)(c, r):
            if label != 'chunks are ended':     # depends on the data, not on the code
                yield label, f
        yield 'delivers the payload without the declared codings', R.view(c, r) == x
        yield 'one member', z3.BoolVal(r.attrs['read_all_members'] is False)
        if r.cls.qual == K.CR:
            yield 'not strict', z3.BoolVal(r.attrs['raise_chunked_data_exceptions'] is False)


CONTRACTS = [ContentStream()]
