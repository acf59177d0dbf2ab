"""C23: recompress"""
import sys, os
from lib import *
from warcio.cli import main
from warcio.archiveiterator import ArchiveIterator

RULE = 'random WARC and ARC files (uncompressed, per record, one gzip stream, groups), records of all types with digests; non-trivial: at least two records'


def gen(rng, tier):
    base = (('response', b'abc', 1, 1), ('resource', b'', 1, 0), ('request', b'', 0, 1), ('revisit', b'', 0, 0), ('warcinfo', b'a: b\r\n', 0, 0), ('metadata', b'x', 1, 1), ('response', b'', 1, 1))
    for fmt in ('warc', 'arc', 'same', 'proto'):
        for comp in ('no', 'rec', 'one', 'pairs', 'empty'):
            for v in (False, True):
                yield fmt, comp, base, v
                yield fmt, comp, base[:1], v
    yield 'odd', 'rec', b'HTTP/1.1 200 OK\r\nServer:x\r\n\r\nbody', False
    for j in (b'junk\n', b'\x1f\x8bjunk', b'no archive'):
        yield 'junk', 'no', j, False
    yield 'junk', 'missing', b'', False
    while True:
        recs = tuple((rng.choice(['response', 'response', 'request', 'revisit', 'warcinfo', 'resource', 'metadata']), rng.choice([b'', b'x', b'\r\n', b'\r\n\r\nWARC/1.0\r\n', spec(rng, 40000), spec(rng, 300)]), rng.randrange(2), rng.randrange(2)) for _ in range(rng.randrange(1, 7)))
        yield rng.choice(['warc', 'warc', 'warc', 'arc', 'arc', 'same', 'proto']), rng.choice(['no', 'rec', 'one', 'pairs', 'empty']), recs, rng.random() < 0.2


def run(args):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        code = 0
        try:
            main(args)
        except SystemExit as e:
            code = e.code
        return code, sys.stdout.getvalue()
    finally:
        sys.stdout = old


def check(case):
    fmt, comp, recs, verbose = case
    for n in ('in.warc', 'out.warc.gz'):
        if os.path.exists(n):
            os.remove(n)
    if fmt == 'junk':
        if comp != 'missing':
            open('in.warc', 'wb').write(recs)
        code, text = run(['recompress', 'in.warc', 'out.warc.gz'])
        assert code, 'exit status %r for a file that cannot be read: %s' % (code, text)
        return
    if fmt == 'odd':
        open('in.warc', 'wb').write(gz(warc_rec([('WARC-Type', 'response'), ('WARC-Target-URI', 'http://e/'), ('WARC-Block-Digest', 'sha1:' + b32sha1(recs))], recs)))
        code, text = run(['recompress', 'in.warc', 'out.warc.gz'])
        assert not code, text
        code, text = run(['check', 'out.warc.gz'])
        if code:
            return ('noncanonical-http-headers', 'the block digest of a record whose HTTP header block is not in the form warcio writes fails after recompressing')
        return None
    raws, exp = [], []
    first = b'ICY 200 OK' if fmt == 'proto' else b'HTTP/1.1 200 OK'
    for i, (ty, b, bd, pd) in enumerate(recs):
        if fmt == 'same':
            i = 0
        body = mk(b)
        uri = 'http://e.com/%d' % i
        if fmt == 'arc':
            hl = [('A', 'x%d' % i), ('B', 'v: w')]
            hb = http_block(b'HTTP/1.1 200 OK', [(a.encode(), c.encode()) for a, c in hl], b'')
            raws.append(('%s 1.2.3.%d 20140102030405 text/html %d\n' % (uri, i, len(hb) + len(body))).encode() + hb + body + b'\n')
            exp.append(('response', uri, '2014-01-02T03:04:05Z', [('WARC-IP-Address', '1.2.3.%d' % i)], hb, body, 0, 0))
            continue
        hb = b''
        if ty in ('response', 'request', 'revisit'):
            hb = http_block(b'GET / HTTP/1.1' if ty == 'request' else first, [(b'A', b'x%d' % i), (b'a', b'second')], b'')
        if ty == 'revisit':
            body = b''
        hs = [('WARC-Type', ty), ('WARC-Record-ID', '<urn:%d>' % i), ('WARC-Target-URI', uri), ('WARC-Date', '2020-01-01T00:00:0%dZ' % (i % 10)), ('X-Own', 'v%d' % i), ('Content-Type', 'ty/%d' % i)]
        if bd:
            hs.append(('WARC-Block-Digest', 'sha1:' + b32sha1(hb + body)))
        if pd:
            hs.append(('WARC-Payload-Digest', 'sha1:' + b32sha1(body)))
        raws.append(warc_rec(hs, hb + body))
        exp.append((ty, uri, hs[3][1], hs, hb, body, bd, pd))
    if comp == 'no':
        data = b''.join(raws)
    elif comp == 'rec':
        data = b''.join(gz(r) for r in raws)
    elif comp == 'empty':
        data = gz(b'') + gz(b'').join(gz(r) for r in raws) + gz(b'')
    elif comp == 'one':
        data = gz(b''.join(raws))
    else:
        data = b''.join(gz(b''.join(raws[i:i + 2])) for i in range(0, len(raws), 2))
    open('in.warc', 'wb').write(data)
    code, text = run(['recompress'] + (['-v'] if verbose else []) + ['in.warc', 'out.warc.gz'])
    assert not code, 'exit status %r: %s' % (code, text)
    assert '%d records read and recompressed' % len(recs) in text, 'report: %s' % text
    if comp in ('no', 'rec') or (comp == 'pairs' and len(recs) == 1):
        assert 'No Errors Found' in text, text
    assert open('in.warc', 'rb').read() == data, 'input changed'
    ms = gz_members(open('out.warc.gz', 'rb').read())
    same(len(ms), len(exp), 'gzip members')
    for (m, a, b), (ty, uri, date, hs, hb, body, bd, pd) in zip(ms, exp):
        parts = split_recs(m)
        same(len(parts), 1, 'records in a member')
        ver, gh, blk, _, _ = parts[0]
        same(blk, hb + body, 'block')
        same(hall(gh, 'WARC-Type'), [ty], 'type')
        same(hall(gh, 'WARC-Target-URI'), [uri], 'target')
        same(hall(gh, 'WARC-Date'), [date], 'date')
        for k, v in hs:
            same(hall(gh, k), [v], 'header ' + k)
        if fmt != 'arc' and ty != 'warcinfo':
            same([h for h in gh if h in hs], hs, 'order of the headers')
        for d, content in (('WARC-Block-Digest', hb + body), ('WARC-Payload-Digest', body)):
            for x in hall(gh, d):
                same(x, 'sha1:' + b32sha1(content), d)
    code, text = run(['check', 'out.warc.gz'])
    assert not code, 'output does not check: %s' % text
