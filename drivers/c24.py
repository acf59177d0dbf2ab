"""C24: extract"""
import sys, os
from lib import *
from warcio.cli import main

RULE = 'random records (HTTP or not, encoded or not, sizes around the read size) between other records, gzip or not, three modes; non-trivial: not empty'


def gen(rng, tier):
    for gzip in (True, False):
        for mode in ('', '--headers', '--payload'):
            for ty in ('response', 'resource', 'request', 'warcinfo', 'revisit'):
                for body in (b'', b'abc', b'\r\n\r\n', b'\nx', b'a body of some forty\nbytes, for short chunks'):
                    for enc in ('', 'gzip', 'chunked', 'both', 'icy'):
                        for pos in (0, 1, 2):
                            yield gzip, mode, ty, body, enc, pos
            for body in (b'a\nb', ('bin', 3, 65536), ('bin', 4, 65537), ('text', 5, 200000)):
                for enc in ('', 'gzip', 'both'):
                    yield gzip, mode, 'response', body, enc, 1
    while True:
        yield rng.random() < 0.5, rng.choice(['', '--headers', '--payload']), rng.choice(['response', 'response', 'resource', 'request', 'revisit']), rng.choice([b'', b'\n', spec(rng, 70000), spec(rng, 200)]), rng.choice(['', 'gzip', 'chunked', 'both', 'br']), rng.randrange(3)


class Out(io.TextIOWrapper):
    pass


def chunk(b, n=777):
    out = b''
    for i in range(0, len(b), n):
        c = b[i:i + n]
        out += b'%x\r\n' % len(c) + c + b'\r\n'
    return out + b'0\r\n\r\n'


def check(case):
    gzip, mode, ty, body, enc, pos = case
    body = mk(body)
    http = ty in ('response', 'request', 'revisit')
    wire = body
    hs = [(b'A', b'b')]
    if http:
        if enc in ('gzip', 'both'):
            wire = gz(wire)
            hs.append((b'Content-Encoding', b'gzip'))
        if enc == 'br':
            import brotli
            wire = brotli.compress(wire)
            hs.append((b'Content-Encoding', b'br'))
        if enc in ('chunked', 'both'):
            wire = chunk(wire, 7 if len(wire) < 100 else 777)
            hs.append((b'Transfer-Encoding', b'chunked'))
        hs.append((b'X-Last', b'1'))
    hb = http_block(b'GET / HTTP/1.1' if ty == 'request' else b'ICY 200 OK' if enc == 'icy' else b'HTTP/1.1 200 OK', hs, b'') if http else b''
    wh = [('WARC-Type', ty), ('WARC-Record-ID', '<urn:1>'), ('WARC-Target-URI', 'http://e.com/'), ('X-Own', u'v')]
    raw = warc_rec(wh, hb + wire)
    other = lambda k: warc_rec([('WARC-Type', 'response'), ('WARC-Target-URI', 'http://other/%d' % k)], b'HTTP/1.1 200 OK\r\nO: %d\r\n\r\nother' % k)
    recs = [other(0), other(1)]
    recs.insert(pos, raw)
    data = b''
    for i, r in enumerate(recs):
        if i == pos:
            off = len(data)
        data += gz(r) if gzip else r
    open('x.warc', 'wb').write(data)
    buf = io.BytesIO()
    old, sys.stdout = sys.stdout, io.TextIOWrapper(buf, write_through=True)
    try:
        main(['extract'] + ([mode] if mode else []) + ['x.warc', str(off)])
        sys.stdout.flush()
        got = buf.getvalue()
    finally:
        sys.stdout = old
    head = raw[:raw.index(b'\r\n\r\n') + 4]
    want = {'': head + hb + wire, '--headers': head + hb, '--payload': body}[mode]
    same(got, want, 'output')
