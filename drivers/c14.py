"""C14: iteration"""
from lib import *
from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator

RULE = 'random WARC and ARC files (types, block sizes around buffer limits, blank lines in blocks, empty gzip members), gzip or not, block sizes, ways of consuming, offset queries; non-trivial: at least two records'
HOW = ['none', 'full', 'part', 'line', 'offset', 'offsetpart', 'content', 'fulloffset']


def make(recs, fmt):
    """list of (bytes with trailing separator, block, header id)"""
    out = []
    for i, (ty, b) in enumerate(recs):
        block = mk(b)
        uri = 'http://e.com/%d' % i
        if fmt == 'arc':
            if ty == 'warcinfo':
                extra = b'1 0 IA\nURL IP-address Archive-date Content-type Archive-length\n'
                l = 'filedesc://x%d.arc 0.0.0.0 20140101000000 text/plain %d\n' % (i, len(block) + len(extra))
                uri = 'filedesc://x%d.arc' % i
                out.append((l.encode() + extra + block + b'\n', block, uri))
                continue
            block = HTTP + block
            l = '%s 1.2.3.4 20140101000000 text/html %d\n' % (uri, len(block))
            out.append((l.encode() + block + b'\n', block, uri))
            continue
        if ty in ('response', 'revisit'):
            block = HTTP + block
        if ty == 'request':
            block = b'GET / HTTP/1.1\r\nHost: x\r\n\r\n' + block
        out.append((warc_rec([('WARC-Type', ty), ('WARC-Record-ID', '<urn:%d>' % i), ('WARC-Target-URI', uri)], block), block, uri))
    return out


HTTP = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n'


def gen(rng, tier):
    base = (('response', b'abc'), ('resource', b''), ('metadata', b'x: y\r\n'), ('request', b''), ('warcinfo', b'software: x\r\n'))
    for fmt in ('warc', 'arc'):
        for gzip in (False, True):
            for how in HOW:
                for bs in (1, 7, 50, 16384):
                    for np in (True, False):
                        for empt in ((), (0,), (2,), (2, 3, 9), (0, 9)):
                            if empt and not gzip:
                                continue
                            yield (fmt, gzip, base, (how,), bs, np, empt, 0, False)
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8])
        big = rng.random() < 0.5
        recs = tuple((rng.choice(['response', 'resource', 'request', 'warcinfo', 'metadata', 'revisit', 'conversion']),
                      rng.choice([b'', b'\r\n\r\n', b'a', b'WARC/1.0\r\nWARC-Type: response\r\n\r\n', b'\n', spec(rng, 40000 if big else 300), spec(rng, 300)])) for _ in range(n))
        gzip = rng.random() < 0.6
        yield (rng.choice(['warc', 'warc', 'arc']), gzip, recs, tuple(rng.choice(HOW) for _ in range(3)), rng.choice([512, 1000, 4096, 16384, 16384]) if big else rng.choice([1, 2, 10, 100, 1000, 16384]), rng.random() < 0.5,
               tuple(rng.randrange(0, 10) for _ in range(rng.choice([0, 0, 1, 3]))) if gzip else (), rng.choice([0, 0, 0, 1, 37]), rng.random() < 0.2)


def build(fmt, gzip, recs, empt):
    parts = make(recs, fmt)
    data = b''
    spans = []
    e = gz(b'')
    for i, (r, block, uri) in enumerate(parts):
        data += e * empt.count(i)
        a = len(data)
        data += gz(r) if gzip else r
        spans.append((a, len(data)))
    for k in empt:
        if k >= len(parts) and parts:
            data += e
    return parts, data, spans


def check(case):
    fmt, gzip, recs, hows, bs, noparse, empt, lead, unseek = case
    if not recs:
        empt = ()
    parts, data, spans = build(fmt, gzip, recs, empt)
    if lead and not unseek:
        fh = io.BytesIO(b'#' * lead + data)
        fh.seek(lead)
    elif unseek:
        lead = 0
        fh = Unseek(data, (1000, 16384))
    else:
        lead = 0
        fh = io.BytesIO(data)
    it = ArchiveIterator(fh, block_size=bs, no_record_parse=noparse)
    i = 0
    last = -1
    places = []
    for rec in it:
        assert i < len(parts), 'more records than in the file (%d)' % len(parts)
        raw, block, uri = parts[i]
        how = hows[i % len(hows)]
        key = 'uri' if fmt == 'arc' else 'WARC-Target-URI'
        same(rec.rec_headers.get_header(key), uri, 'record %d: URI' % i)
        if fmt == 'warc':
            same(rec.rec_type, recs[i][0], 'record %d: type' % i)
        is_http = rec.http_headers is not None
        want = block
        if is_http:
            assert not noparse
            want = block[block.index(b'\r\n\r\n') + 4:]
        elif not noparse and uri.startswith('http:') and block and recs[i][0] in ('response', 'revisit', 'request') and fmt == 'warc':
            return 'record %d: HTTP headers not parsed' % i
        if how in ('full', 'fulloffset'):
            same(drain(rec.raw_stream.read, 1000), want, 'record %d: content' % i)
        elif how == 'content':
            same(drain(rec.content_stream().read), want, 'record %d: content' % i)
        elif how == 'part':
            k = len(want) // 2
            got = b''
            while len(got) < k:
                b = rec.raw_stream.read(k - len(got))
                assert b
                got += b
            same(got, want[:k], 'record %d: first half' % i)
        elif how == 'line':
            j = want.find(b'\n')
            w = want if j < 0 else want[:j + 1]
            same(rec.raw_stream.readline(), w, 'record %d: first line' % i)
        elif how == 'offsetpart':
            rec.raw_stream.read(2)
        if 'offset' in how:
            o, l = it.get_record_offset(), it.get_record_length()
            places.append((i, o, l))
        i += 1
    same(i, len(parts), 'number of records')
    prev = -1
    end = lead
    if lead and not gzip and False:
        return None
    for i, o, l in places:
        assert o >= end, 'record %d: offset %d before the end %d of the one before' % (i, o, end)
        assert o > prev
        prev = o
        end = o + l
        a, b = spans[i]
        if not unseek:
            assert o <= lead + a or not gzip, 'record %d: offset %d, is at %d' % (i, o, lead + a)
        if not empt:
            same(o, lead + a, 'record %d: offset' % i)
            if gzip:
                same(l, b - a, 'record %d: length' % i)
        chunk = (b'#' * lead + data)[o:o + l]
        got = list(read_all(chunk, noparse))
        raw, block, uri = parts[i]
        if fmt == 'arc':
            same(len(got), 1, 'record %d: records at offset %d, length %d' % (i, o, l))
        same([g[0] for g in got], [uri], 'record %d: records at its place (offset %d, length %d)' % (i, o, l))
        same(got[0][1], block if noparse or got[0][2] is None else block[block.index(b'\r\n\r\n') + 4:], 'record %d: content at its place' % i)


def read_all(data, noparse):
    for r in ArchiveIterator(io.BytesIO(data), no_record_parse=noparse):
        yield (r.rec_headers.get_header('uri') or r.rec_headers.get_header('WARC-Target-URI'), drain(r.raw_stream.read), r.http_headers)
