"""C26: content stream"""
from lib import *
from warcio.archiveiterator import ArchiveIterator
from warcio.recordloader import ArcWarcRecord
from warcio.statusandheaders import StatusAndHeaders

RULE = 'random payloads with declared and actual transfer/content codings (right, wrong, unsupported, any letter case), read in several ways from iterated records; non-trivial: a coding is declared'
CE = ['gzip', 'deflate', 'br', 'GZip', 'BR', 'Deflate', 'identity', 'compress', 'gzip, br', '', None]
TE = ['chunked', 'Chunked', 'CHUNKED', 'identity', '', None]


def gen(rng, tier):
    for te in TE:
        for ce in CE:
            for body in (b'', b'abc', ('text', 1, 20000)):
                for actual in ('as', 'plain', 'chunkonly', 'codeonly'):
                    for how in ('read', 'small'):
                        yield te, ce, body, actual, how, True
    for ce in ('gzip', 'br', 'deflate'):
        for rawd in (True,):
            yield None, ce, b'abc', 'raw', 'read', True
    yield None, 'gzip', b'x', 'plain', 'read', False
    yield None, 'gzip', b'x', 'plain', 'read', True
    yield 'chunked', 'deflate', b'x', 'chunkonly', 'read', True
    while True:
        yield rng.choice(TE), rng.choice(CE), rng.choice([b'', b'x', b'\n', spec(rng, 40000), spec(rng, 300)]), rng.choice(['as', 'as', 'as', 'plain', 'chunkonly', 'codeonly', 'raw']), rng.choice(['read', 'small', 'lines', 'mix']), rng.random() < 0.95


def code(ce, b, raw=False):
    ce = (ce or '').lower()
    if ce == 'gzip':
        return gz(b)
    if ce == 'deflate':
        return gz(b, wbits=-15 if raw else 15)
    if ce == 'br':
        import brotli
        return brotli.compress(b)
    return b


def chunk(b, n=777):
    out = b''
    for i in range(0, len(b), n):
        c = b[i:i + n]
        out += b'%x\r\n' % len(c) + c + b'\r\n'
    return out + b'0\r\n\r\n'


def check(case):
    te, ce, body, actual, how, http = case
    body = mk(body)
    chunked = (te or '').lower() == 'chunked'
    coded = (ce or '').lower() in ('gzip', 'deflate', 'br')
    wire = body
    if actual in ('as', 'codeonly', 'raw') and coded:
        wire = code(ce, wire, actual == 'raw')
    inner = wire
    if actual in ('as', 'chunkonly', 'raw') and chunked:
        wire = chunk(wire)
    if not http:
        te = ce = None
        chunked = coded = False
    # what is to be returned
    want = wire
    if chunked:
        if actual in ('as', 'chunkonly', 'raw'):
            want = inner
        elif wire == b'':
            want = b''
        elif valid_size_line(wire):
            return None      # looks chunked by chance
    if coded:
        if actual in ('as', 'codeonly', 'raw'):
            want = body
        elif (ce or '').lower() in ('br', 'deflate') and body:
            # plain text may be valid by chance
            if looks((ce or '').lower(), want):
                return None
        elif body[:2] == b'\x1f\x8b':
            return None
    hs = []
    if te is not None:
        hs.append((b'Transfer-Encoding', te.encode()))
    if ce is not None:
        hs.append((b'Content-encoding', ce.encode()))
    hs.append((b'X', b'y'))
    hb = http_block(b'HTTP/1.1 200 OK', hs, b'')
    ty = 'response' if http else 'resource'
    raw = warc_rec([('WARC-Type', ty), ('WARC-Target-URI', 'http://e/')], (hb if http else b'') + wire)
    it = ArchiveIterator(io.BytesIO(raw + warc_rec([('WARC-Type', 'resource'), ('WARC-Target-URI', 'urn:2')], b'2nd')))
    rec = next(it)
    s = rec.content_stream()
    if how == 'read':
        got = s.read()
        got += drain(s.read)
    elif how == 'small':
        got = drain(s.read, 100 if len(body) > 500 else 1)
    elif how == 'lines':
        got = drain(lambda n: s.readline())
    else:
        out = []
        i = 0
        while True:
            b = s.readline(50) if i % 2 else s.read(33)
            if not b:
                break
            out.append(b)
            i += 1
        got = b''.join(out)
    if got == b'' and len(want) == 1 and coded and (ce or '').lower() != 'br':
        return ('one-byte-not-compressed', 'content of one byte, declared %r but not compressed: got nothing, expected %r' % (ce, want))
    same(got, want, 'content')
    nxt = next(it)
    same(nxt.rec_headers.get_header('WARC-Target-URI'), 'urn:2', 'next record')
    same(nxt.raw_stream.read(), b'2nd', 'next record')


def valid_size_line(b):
    import re
    l = b[:64].split(b'\n')[0]
    try:
        return int(l.split(b';')[0], 16) >= 0
    except ValueError:
        return False


def looks(ce, b):
    """not bad from the start"""
    if ce == 'br':
        import brotli
        d = brotli.Decompressor()
        f = getattr(d, 'process', None) or d.decompress
        for i in range(min(len(b), 400)):
            try:
                if f(b[i:i + 1]):
                    return True
            except brotli.error:
                return False
        return True
    for w in (15, -15):
        d = zlib.decompressobj(w)
        ok = True
        for i in range(len(b)):
            try:
                if d.decompress(b[i:i + 1]):
                    return True
            except zlib.error:
                ok = False
                break
        if ok:
            return True
    return False
