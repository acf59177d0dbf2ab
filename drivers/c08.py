"""C08/C09: written records"""
import hashlib
from lib import *
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.statusandheaders import StatusAndHeaders
from warcio.archiveiterator import ArchiveIterator
from warcio.recordloader import ArcWarcRecord

RULE = 'random sequences of records of all types, http headers given / parsed / absent, known or unknown length, payload streams of three kinds, header filter, gzip or not; non-trivial: not empty payload'

TYPES = ['response', 'request', 'revisit', 'warcinfo', 'metadata', 'resource', 'conversion', 'other']


class Out(object):
    """output that knows what was flushed"""
    def __init__(self):
        self.buf = []
        self.flushed = 0
        self.n = 0

    def write(self, b):
        assert isinstance(b, bytes)
        self.buf.append(b)
        self.n += len(b)
        return len(b)

    def flush(self):
        self.flushed = self.n

    def tell(self):
        return self.n


def gen_rec(rng, big=True):
    ty = rng.choice(TYPES)
    http = rng.choice(['none', 'given', 'given', 'parsed', 'empty', 'uni', 'noh'])
    p = rng.choice([(b'',), (b'x',), (spec(rng, 70000 if big else 2000),), (spec(rng, 300),), (b'abc\r\n\r\ndef',), (b'\r\n',), (('bin', rng.randrange(999), rng.choice([16383, 16384, 16385, 32768, 524288, 600000])),)])[0]
    if isinstance(p, tuple) and p[2] > 100000 and rng.random() < 0.7:
        p = b'small'
    dig = rng.choice(['', '', '', 'p', 'b', 'pb', 'bp'])
    return (ty, http, p, rng.choice(['known', 'known', 'unknown']), rng.choice(['bio', 'bio', 'short', 'unseek', 'tell']), dig, rng.choice(['', '', 'text/x']), rng.choice(['none', 'none', 'drop', 'change']), rng.choice(['create', 'create', 'direct']),
            rng.choice([0, 0, 0, 1, 5]))


def gen(rng, tier):
    for ty in ('response', 'request', 'revisit', 'resource', 'warcinfo'):
        for http in ('none', 'given', 'parsed', 'uni', 'noh'):
            for p in (b'', b'abc'):
                for ln in ('known', 'unknown'):
                    for kind in ('bio', 'unseek', 'tell'):
                        for dig in ('', 'pb', 'p'):
                            for via in ('create', 'direct'):
                                yield (('write', (ty, http, p, ln, kind, dig, '', 'none', via, 0)), ty < 'res')
    while True:
        n = rng.choice([1, 1, 2, 4])
        yield (('write',) + tuple(gen_rec(rng) for _ in range(n)), rng.random() < 0.5)


FILTERS = {'drop': lambda h: None if h[0].lower() == 'x-secret' else h,
           'change': lambda h: (h[0], 'masked') if h[0].lower() == 'x-secret' else h, 'none': None}
DIG_P = 'sha1:PAYLOADDIGESTGIVENBYTHECALLER000'
DIG_B = 'md5:00112233445566778899aabbccddeeff'


def dig(b):
    return 'sha1:' + b32sha1(b)


def check(case, digests=False):
    (op, *recs), gzip = case
    out = Out()
    flt = None
    for r in recs:
        flt = FILTERS[r[7]]
    w = WARCWriter(out, gzip=gzip, header_filter=flt)
    expect = []
    for (ty, http, p, ln, kind, dg, ct, f, via, skip) in recs:
        payload = mk(p)
        uri = 'http://example.com/'
        hh = None
        status, hl = '200 OK', [('Content-Type', 'text/plain'), ('X-Secret', 'abc'), ('X-Long', 'y' * 100)]
        if http == 'uni':
            hl = hl + [('X-Name', u'caf\u00e9')]
        if http == 'noh':
            hl = []
        proto = 'HTTP/1.1'
        if ty == 'request':
            status = '/ HTTP/1.1'
            proto = 'GET'
        if http in ('given', 'uni', 'noh'):
            hh = StatusAndHeaders(status, list(hl), protocol=proto)
        elif http == 'empty':
            hh = StatusAndHeaders('', [], protocol='')
        data_ = payload
        has_http = hh is not None
        if http == 'parsed' and ty in ('response', 'request', 'revisit'):
            if via == 'direct':
                hh = StatusAndHeaders(status, list(hl), protocol=proto)
            else:
                data_ = (proto + ' ' + status + '\r\n' + ''.join('%s: %s\r\n' % x for x in hl) + '\r\n').encode() + payload
            has_http = True
        if http == 'empty' and via == 'create':
            # empty header objects: not distinguished from none by create_warc_record
            hh = None
            has_http = False
        if has_http and via == 'create' and hh is None and not data_:
            return None
        if not has_http and via == 'create' and ty in ('response', 'request', 'revisit'):
            uri = 'urn:x'
        stream = {'bio': io.BytesIO, 'short': lambda d: Short(d, (1000, 7)), 'unseek': Unseek, 'tell': UnseekTell}[kind](data_)
        if http == 'parsed' and via == 'create' and kind in ('unseek',) and ln == 'known':
            return None      # the position after the headers is needed
        if kind == 'short':
            stream.seek = None
        if skip and kind == 'bio' and ln == 'known' and (via == 'direct' or http in ('given', 'uni', 'noh')):
            # a payload that does not begin at the start of its stream
            stream = io.BytesIO(b'z' * skip + data_)
            stream.seek(skip)
        hd = []
        if 'p' in dg:
            hd.append(('WARC-Payload-Digest', DIG_P))
        if 'b' in dg:
            hd.append(('WARC-Block-Digest', DIG_B))
        length = len(data_) if ln == 'known' else None
        if via == 'create':
            rec = w.create_warc_record(uri, ty, payload=stream, length=length, warc_content_type=ct, warc_headers_dict=dict(hd), http_headers=hh)
        else:
            rh = StatusAndHeaders('', [('WARC-Type', ty), ('WARC-Record-ID', '<urn:uuid:1>'), ('WARC-Target-URI', uri), ('WARC-Date', '2000-01-01T00:00:00Z')] + hd, protocol='WARC/1.0')
            rec = ArcWarcRecord('warc', ty, rh, stream, hh, ct or 'application/x', length, payload_length=length if length is not None else -1)
        before = list(rec.rec_headers.headers)
        w.write_record(rec)
        same(out.flushed, out.n, 'flushed bytes')
        hb = b''
        if has_http:
            h2 = StatusAndHeaders(status if http != 'empty' else '', list(hl) if http != 'empty' else [], protocol=proto if http != 'empty' else '')
            hb = h2.to_ascii_bytes(flt)
        block = hb if (ty == 'revisit' and has_http) else hb + payload
        expect.append((ty, uri, hb, payload, block, dg, ln, ct, has_http))
    raw = b''.join(out.buf)
    if gzip:
        ms = gz_members(raw)
        same(len(ms), len(recs), 'gzip members')
        parts = []
        for m, a, b in ms:
            rs = split_recs(m)
            same(len(rs), 1, 'records in a member')
            parts.append(rs[0])
        raw = b''.join(m for m, a, b in ms)
    else:
        parts = split_recs(raw)
    same(len(parts), len(expect), 'records written')
    for (ver, hs, blk, a, b), (ty, uri, hb, payload, block, dg, ln, ct, has_http) in zip(parts, expect):
        same(ver, 'WARC/1.0', 'version')
        same(blk, block, 'block')
        same(hall(hs, 'WARC-Type'), [ty], 'WARC-Type')
        same(hall(hs, 'WARC-Target-URI'), [uri], 'target')
        if ct:
            same(hall(hs, 'Content-Type'), [ct], 'Content-Type')
        same(len(hall(hs, 'Content-Type')), 1, 'Content-Type headers')
        if digests:
            check_digests(hs, ty, hb, payload, block, dg, ln)
    # the library reads it back the same
    n = 0
    for rec, (ty, uri, hb, payload, block, dg, ln, ct, has_http) in zip(ArchiveIterator(io.BytesIO(b''.join(out.buf)), no_record_parse=True), expect):
        same(drain(rec.raw_stream.read), block, 'block read back')
        n += 1
    same(n, len(expect), 'records read back')


def check_digests(hs, ty, hb, payload, block, dg, ln):
    bd, pd = hall(hs, 'WARC-Block-Digest'), hall(hs, 'WARC-Payload-Digest')
    keep = ln == 'known'
    if 'b' in dg and keep:
        same(bd, [DIG_B], 'block digest given by the caller')
    else:
        same(bd, [dig(block)], 'block digest')
    if 'p' in dg and (keep or ty == 'revisit'):
        same(pd, [DIG_P], 'payload digest given by the caller')
    elif ty in ('warcinfo', 'revisit'):
        same(pd, [], 'no payload digest')
    else:
        same(pd, [dig(payload)], 'payload digest')
