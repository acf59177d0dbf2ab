"""C15: records written are read back"""
from lib import *
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.statusandheaders import StatusAndHeaders
from warcio.archiveiterator import ArchiveIterator, WARCIterator

RULE = 'random sequences of records of all types with random headers and payloads, compressed or not, reader block sizes, versions; non-trivial: at least two records'
A = 'abcXYZ019-_/;=,"\'()%& .'


def val(rng, uni):
    s = ''.join(rng.choice(A + (u'éñ中' if uni else '')) for _ in range(rng.randrange(0, 20)))
    return s.strip() or 'v'


def gen(rng, tier):
    for ty in ('response', 'request', 'revisit', 'warcinfo', 'metadata', 'resource'):
        for http in (0, 1, 2):
            for p in (b'', b'body', b'\r\n\r\n', b'WARC/1.0\r\n'):
                for gzip in (True, False):
                    for bs in (3, 16384):
                        yield (gzip, bs, '1.0', ((ty, http, p, (('X-Custom', 'a b'),), (('H', 'v; w'),), 'known', 'bio'), ('resource', 0, b'last', (), (), 'known', 'bio')))
    while True:
        recs = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            recs.append((rng.choice(['response', 'response', 'request', 'revisit', 'warcinfo', 'metadata', 'resource', 'conversion']), rng.randrange(3), rng.choice([b'', b'x', b'HTTP/1.1 200 OK\r\n\r\nabc', spec(rng, 40000), spec(rng, 200)]),
                         tuple(('X-%d' % k, val(rng, True)) for k in range(rng.randrange(3))), tuple(('H%d' % k, val(rng, False)) for k in range(rng.randrange(5))), rng.choice(['known', 'known', 'unknown']), rng.choice(['bio', 'unseek'])))
        yield (rng.random() < 0.6, rng.choice([10, 100, 1000, 16384]), rng.choice(['1.0', '1.1', 'WARC/1.0']), tuple(recs))


def check(case):
    gzip, bs, ver, recs = case
    buf = io.BytesIO()
    w = WARCWriter(buf, gzip=gzip, warc_version=ver)
    exp = []
    for i, (ty, http, p, extra, hl, ln, kind) in enumerate(recs):
        p = mk(p)
        http = http if ty in ('response', 'request', 'revisit') else 0
        hh = None
        uri = 'http://e.com/%d?q=a' % i if http else 'urn:x:%d' % i
        if http:
            hh = StatusAndHeaders('/%d HTTP/1.1' % i if ty == 'request' else '200 OK %d' % i, list(hl), protocol='GET' if ty == 'request' else 'HTTP/1.1')
        pay = p
        if http == 2:
            pay = hh.to_bytes() + p
        stream = io.BytesIO(pay) if kind == 'bio' or (http == 2 and ln == 'known') else Unseek(pay)
        rec = w.create_warc_record(uri, ty, payload=stream, length=len(pay) if ln == 'known' else None, http_headers=hh if http == 1 else None, warc_headers_dict=dict(extra))
        before = list(rec.rec_headers.headers)
        w.write_record(rec)
        if ty == 'revisit' and http:
            p = b''
        exp.append((ty, uri, before, hh, p, ln))
    n = 0
    buf.seek(0)
    for rec, (ty, uri, before, hh, p, ln) in zip(ArchiveIterator(buf, block_size=bs, check_digests=True), exp):
        same(rec.rec_type, ty, 'type')
        same(rec.rec_headers.protocol, 'WARC/' + ver.replace('WARC/', ''), 'version')
        got = list(rec.rec_headers.headers)
        skip = ('content-length', 'content-type', 'warc-payload-digest', 'warc-block-digest')
        same([h for h in got if h[0].lower() not in skip], [h for h in before if h[0].lower() not in skip], 'WARC headers')
        if ln == 'known':
            for h in before:
                assert h in got, 'header %r lost' % (h,)
        if hh is not None and (hh.statusline or hh.headers):
            same(rec.http_headers and (rec.http_headers.protocol, rec.http_headers.statusline, rec.http_headers.headers), (hh.protocol, hh.statusline, hh.headers), 'HTTP headers')
        else:
            same(rec.http_headers, None, 'no HTTP headers')
        same(drain(rec.raw_stream.read), p, 'payload')
        if ty != 'revisit':
            same(rec.digest_checker.passed, True, 'digests verify: %r' % (rec.digest_checker.problems,))
        n += 1
    same(n, len(exp), 'number of records')
    same(len(list(WARCIterator(io.BytesIO(buf.getvalue()), no_record_parse=True))), len(exp), 'number of records read')
