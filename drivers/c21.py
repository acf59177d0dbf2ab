"""C21: index"""
import json, sys, os
from collections import OrderedDict
from lib import *
from warcio.cli import main
import c14

RULE = 'random WARC and ARC files, gzip or not, random field lists (any order, repeated, unknown), several inputs, to a file or standard output; non-trivial: at least one record'
FIELDS = ['offset', 'length', 'filename', 'http:status', 'http:a', 'http:content-type', 'http:nothere', 'warc-type', 'WARC-Target-URI', 'content-length', 'warc-date', 'x-nothere', 'x-empty', 'warc-ip-address', 'http:empty']


def gen(rng, tier):
    base = (('response', b'abc'), ('resource', b''), ('revisit', b''), ('request', b'q'), ('warcinfo', b'a: b\r\n'))
    for fmt in ('warc', 'arc'):
        for gzip in (True, False):
            for fields in (None, 'offset', 'length,offset', 'http:status,offset', 'filename,http:a,warc-type', ','.join(FIELDS), ','.join(reversed(FIELDS)), ','.join(['offset'] * 30 + ['http:a'])):
                for out in (True, False):
                    yield ((fmt, gzip, base),), fields, out
    while True:
        files = tuple((rng.choice(['warc', 'warc', 'arc']), rng.random() < 0.5,
                       tuple((rng.choice(['response', 'response', 'request', 'revisit', 'warcinfo', 'resource']), rng.choice([b'', b'x', spec(rng, 3000)])) for _ in range(rng.randrange(0, 5)))) for _ in range(rng.randrange(1, 4)))
        yield files, ','.join(rng.choice(FIELDS) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 12, 20]))), rng.random() < 0.5


def make(files):
    res = []
    for k, (fmt, gzip, recs) in enumerate(files):
        parts, data, spans = [], b'', []
        for i, (ty, b) in enumerate(recs):
            body = mk(b)
            uri = 'http://e.com/%d' % i
            if fmt == 'arc':
                h = [('A', 'arc%d' % i), ('Empty', '')]
                blk = http_block(b'HTTP/1.0 404 Not Found', [(a.encode(), c.encode()) for a, c in h], body)
                raw = ('%s 1.2.3.4 20140102030405 text/html %d\n' % (uri, len(blk))).encode() + blk + b'\n'
                wh = [('WARC-Type', 'response'), ('WARC-Target-URI', uri), ('WARC-Date', '2014-01-02T03:04:05Z'), ('Content-Length', str(len(blk))), ('WARC-IP-Address', '1.2.3.4')]
                status = '404'
                ty = 'response'
            else:
                h = None
                status = None
                blk = body
                if ty in ('response', 'revisit', 'request'):
                    h = [('A', 'w%d' % i), ('Content-Type', 'text/x'), ('a', 'second')]
                    status = str(200 + i)
                    blk = http_block(b'GET / HTTP/1.1' if ty == 'request' else b'HTTP/1.1 %d OK' % (200 + i), [(a.encode(), c.encode()) for a, c in h], body)
                wh = [('WARC-Type', ty), ('WARC-Target-URI', uri), ('WARC-Date', '2020-01-01T00:00:00Z'), ('X-Empty', '')]
                raw = warc_rec(wh, blk)
                wh = wh + [('Content-Length', str(len(blk)))]
            if gzip:
                raw = gz(raw)
            spans.append((len(data), len(raw)))
            data += raw
            parts.append((ty, wh, h, status))
        res.append((data, parts, spans))
    return res


def check(case):
    files, fields, to_file = case
    if fields is None:
        fl = ['offset', 'warc-type', 'warc-target-uri']
        args = ['index']
    else:
        fl = fields.split(',')
        args = ['index', '-f', fields]
    names = []
    made = make(files)
    os.makedirs('in', exist_ok=True)
    for k, (data, parts, spans) in enumerate(made):
        n = 'in/f%d.warc.gz' % k
        open(n, 'wb').write(data)
        names.append(n)
    if to_file:
        if os.path.exists('out.cdxj'):
            os.remove('out.cdxj')
        main(args + ['-o', 'out.cdxj'] + names)
        text = open('out.cdxj').read()
    else:
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            main(args + names)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = old
    lines = text.split('\n')
    same(lines[-1], '', 'end of the output')
    lines = lines[:-1]
    want = []
    for n, (data, parts, spans), (fmt, gzip, recs) in zip(names, made, files):
        for (ty, wh, h, status), (off, ln) in zip(parts, spans):
            d = OrderedDict()
            for f in fl:
                if f == 'offset':
                    v = str(off)
                elif f == 'length':
                    v = ('len', n, ln, off) if gzip else ('len', n, None, off)
                elif f == 'filename':
                    v = os.path.basename(n)
                elif f == 'http:status':
                    v = status if ty in ('response', 'revisit') else None
                elif f.startswith('http:'):
                    v = hget(h, f[5:]) if h is not None else None
                else:
                    v = hget(wh, f)
                if v is not None:
                    d[f] = v
            want.append(d)
    same(len(lines), len(want), 'lines')
    for l, w in zip(lines, want):
        pairs = json.loads(l, object_pairs_hook=list) if l != '{}' else []
        same([k for k, v in pairs], list(w), 'fields of %s' % l)
        for k, v in pairs:
            x = w[k]
            assert isinstance(v, str), 'value of %s is not a string: %r' % (k, v)
            if isinstance(x, tuple):
                _, n, ln, off = x
                if ln is not None:
                    same(int(v), ln, 'length')
                else:
                    chunk = open(n, 'rb').read()[off:off + int(v)]
                    same(sum(1 for _ in c14.read_all(chunk, True)), 1, 'records at offset %d, length %s' % (off, v))
            else:
                same(v, x, 'value of %s' % k)
