"""C20: request/response pairs"""
from lib import *
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.statusandheaders import StatusAndHeaders

RULE = 'random pairs (with and without ids, dates, other headers, lengths), gzip or not; non-trivial: response id present'


def gen(rng, tier):
    for rid in (True, False, ''):
        for req_has in ((), ('WARC-Date',), ('WARC-Date', 'WARC-Target-URI'), ('WARC-Concurrent-To',), ('warc-date', 'warc-target-uri', 'X-A')):
            for gzip in (False, True):
                for p in (b'', b'body'):
                    for np in (1, 2):
                        yield (rid, req_has, gzip, p, b'', np, False)
    while True:
        yield (rng.random() < 0.8, tuple(rng.sample(['WARC-Date', 'WARC-Target-URI', 'WARC-Concurrent-To', 'X-A', 'warc-date'], rng.randrange(3))), rng.random() < 0.5,
               rng.choice([b'', b'x', spec(rng, 30000)]), rng.choice([b'', b'post', spec(rng, 2000)]), rng.choice([1, 1, 3]), rng.random() < 0.3)


def check(case):
    rid, req_has, gzip, p, q, n, unk = case
    p, q = mk(p), mk(q)
    buf = io.BytesIO()
    w = WARCWriter(buf, gzip=gzip)
    want = []
    for i in range(n):
        url = 'http://e.com/%d' % i
        resp = w.create_warc_record(url, 'response', payload=io.BytesIO(p), length=None if unk else len(p), http_headers=StatusAndHeaders('200 OK', [('R', str(i))], protocol='HTTP/1.1'),
                                    warc_headers_dict={'WARC-Date': '200%d-01-01T00:00:00Z' % i, 'X-Resp': 'r'})
        hd = {'WARC-Date': '1999-01-01T00:00:00Z', 'warc-date': '1999-01-01T00:00:01Z', 'WARC-Target-URI': 'http://other/', 'warc-target-uri': 'http://other2/', 'WARC-Concurrent-To': '<urn:old>', 'X-A': 'a'}
        req = w.create_warc_record('http://req/' if 'WARC-Target-URI' not in req_has else '', 'request', payload=io.BytesIO(q), length=len(q), http_headers=StatusAndHeaders('/ HTTP/1.1', [('Q', str(i))], protocol='POST'),
                                   warc_headers_dict=dict((k, hd[k]) for k in req_has))
        if rid is False:
            resp.rec_headers.remove_header('WARC-Record-ID')
        elif rid == '':
            resp.rec_headers.replace_header('WARC-Record-ID', '')
        rb, qb = list(resp.rec_headers.headers), list(req.rec_headers.headers)
        w.write_request_response_pair(req, resp)
        want.append((rb, qb, url, '200%d-01-01T00:00:00Z' % i))
    raw = buf.getvalue()
    if gzip:
        same(len(gz_members(raw)), 2 * n, 'members')
        raw = b''.join(m[0] for m in gz_members(raw))
    parts = split_recs(raw)
    same(len(parts), 2 * n, 'records')
    added = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
    for i, (rb, qb, url, date) in enumerate(want):
        (v, rh, rblk, _, _), (v2, qh, qblk, _, _) = parts[2 * i], parts[2 * i + 1]
        same((hget(rh, 'WARC-Type'), hget(qh, 'WARC-Type')), ('response', 'request'), 'order')
        same([h for h in rh if h[0].lower() not in added], [h for h in rb if h[0].lower() not in added], 'response headers')
        same(rblk, b'HTTP/1.1 200 OK\r\nR: %d\r\n\r\n' % i + p, 'response block')
        same(qblk, b'POST / HTTP/1.1\r\nQ: %d\r\n\r\n' % i + q, 'request block')
        same(hget(qh, 'WARC-Target-URI'), url, 'target URI of the request')
        same(hget(qh, 'WARC-Date'), date, 'date of the request')
        same(hget(qh, 'WARC-Record-ID'), hget(qb, 'WARC-Record-ID'), 'id of the request')
        conc = hall(qb, 'WARC-Concurrent-To')
        rid_ = hget(rb, 'WARC-Record-ID')
        same(hall(qh, 'WARC-Concurrent-To'), conc + ([rid_] if rid_ else []), 'WARC-Concurrent-To')
        other = lambda hs: sorted(h for h in hs if h[0].lower() not in added + ('warc-target-uri', 'warc-date', 'warc-concurrent-to'))
        same(other(qh), other(qb), 'other request headers')
