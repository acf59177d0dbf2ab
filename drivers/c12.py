"""C12: ArcWarcRecordLoader"""
from lib import *
from warcio.recordloader import ArcWarcRecordLoader
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
from warcio.limitreader import LimitReader
from warcio.exceptions import ArchiveLoadFailed

RULE = 'random record headers (type, length forms, target URI forms), blocks with and without HTTP headers, stream kinds, options; non-trivial: non-empty block'
TYPES = ['response', 'request', 'revisit', 'warcinfo', 'metadata', 'resource', 'conversion', 'continuation', 'RESPONSE', None]
URIS = ['http://e.com/', 'https://e.com/', 'HTTP://e.com/', 'urn:x', 'dns:e.com', 'ftp://e', None, '<http://e.com/x>', '<urn:y>', 'http://e.com/a b c', '<http://e.com/a b>', ' http://e.com/', 'httpx://e', '<http://e', 'http://e>', '', '<>',
        'whois://x', 'file:///tmp/a b']
LENGTHS = ['right', 'right', 'right', 'zero', 'neg', 'text', 'empty', 'missing', 'short', 'long', 'spaces', 'float', 'plus', 'under']
BLOCKS = ['http', 'httpnohdr', 'req', 'text', 'empty', 'httpcut', 'blankfirst', 'headeronly']


def gen(rng, tier):
    for ty in TYPES:
        for uri in URIS:
            for b in ('http', 'text', 'empty'):
                yield (ty, uri, 'right', b, 'bio', False, False, b'')
    for ln in LENGTHS:
        for b in BLOCKS:
            for ty in ('response', 'request', 'resource'):
                for np in (False, True):
                    for eh in (False, True):
                        yield (ty, 'http://e.com/', ln, b, 'br', np, eh, b'body')
    for first in (b'', b'WARC/1.0', b'WARC/1.1', b'WARC/0.17', b'WARC/0.18', b'warc/1.0', b'WARC/2.0', b'HTTP/1.1 200 OK', b'garbage', b'http://x 1.2.3.4 20000101000000 text/html 5', b'http://x 1.2.3.4 text/html 5', b'\xff\xfe\x00', b'WARC', b'\x1f\x8b\x08'):
        for known in (None, 'warc', 'arc'):
            yield ('first', first, known)
    for uri in ('http://e.com/', 'filedesc://f.arc', 'http://a/?u=filedesc://x', 'ftp://e/', 'dns:e', 'HTTP://e/', 'http://a/a b', 'xfiledesc://'):
        for conv in (False, True):
            for block in (b'HTTP/1.0 200 OK\r\nA: b\r\n\r\nxyz', b'', b'plain', b'HTTP/1.0 200 OK\r\nA: b\r\n\r\n'):
                for ln in ('right', 'short', 'neg', 'text'):
                    for np in (False, True):
                        yield ('arc', uri, conv, block, ln, np)
    while True:
        yield (rng.choice(TYPES), rng.choice(URIS), rng.choice(LENGTHS), rng.choice(BLOCKS), rng.choice(['bio', 'br', 'gz', 'lim', 'short']), rng.random() < 0.25, rng.random() < 0.25,
               rng.choice([b'', b'x', data(rng, rng.randrange(1, 60)), ('bin', rng.randrange(999), rng.choice([100, 16384, 40000]))]))


def dec(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('iso-8859-1')


def check(case):
    if case[0] == 'first':
        return check_first(case)
    if case[0] == 'arc':
        return check_arc(case)
    ty, uri, ln, bk, kind, noparse, ensure, body = case
    body = mk(body)
    hb = b''
    http = None
    if bk in ('http', 'httpcut', 'headeronly'):
        hb = http_block(b'HTTP/1.1 200 OK', [(b'A', b'b'), (b'Content-Length', b'7')], b'')
        if bk == 'httpcut':
            body = b''
            hb = hb[:-2]
        if bk == 'headeronly':
            body = b''
        http = ('HTTP/1.1', '200 OK', [('A', 'b'), ('Content-Length', '7')])
    elif bk == 'httpnohdr':
        hb = b'HTTP/1.0 404\r\n\r\n'
        http = ('HTTP/1.0', '404', [])
    elif bk == 'req':
        hb = b'POST /x HTTP/1.1\r\nHost: e\r\n\r\n'
        http = ('POST', '/x HTTP/1.1', [('Host', 'e')])
    elif bk == 'blankfirst':
        hb = b'\r\n'
        http = ('', '', [])
    elif bk == 'empty':
        body = b''
    block = hb + body
    n = len(block)
    val = {'right': str(n), 'zero': '0', 'neg': '-%d' % (n + 1), 'text': 'abc', 'empty': '', 'missing': False, 'short': str(max(n - 3, 0)), 'long': str(n + 10), 'spaces': ' %d ' % n, 'float': '%d.0' % n, 'plus': '+%d' % n, 'under': '1_0'}[ln]
    exp = {'right': n, 'zero': 0, 'neg': 0, 'text': 0, 'empty': 0, 'missing': None, 'short': max(n - 3, 0), 'long': n + 10, 'spaces': n, 'float': 0, 'plus': n, 'under': 10}[ln]
    if ln == 'under':
        return None
    hs = []
    if ty is not None:
        hs.append(('WARC-Type', ty))
    if uri is not None:
        hs.append(('WARC-Target-URI', uri))
    hs += [('WARC-Record-ID', '<urn:1>'), ('Content-Type', 'application/http')]
    raw = warc_rec(hs, b'', length=val, end=b'')
    tail = b'\r\n\r\nWARC/1.0\r\nnext record'
    if ln == 'long':
        tail = b''
    full = raw + block + tail
    s = {'bio': lambda: io.BytesIO(full), 'br': lambda: BufferedReader(io.BytesIO(full), block_size=50), 'gz': lambda: DecompressingBufferedReader(io.BytesIO(gz(full))),
         'lim': lambda: LimitReader(io.BytesIO(full), len(full)), 'short': lambda: Short(full, (3, 1000))}[kind]()
    ld = ArcWarcRecordLoader(verify_http=False)
    rec = ld.parse_record_stream(s, no_record_parse=noparse, ensure_http_headers=ensure)
    same(rec.format, 'warc', 'format')
    same(rec.rec_type, ty, 'type')
    same(rec.length, exp, 'length')
    same(rec.content_type, 'application/http', 'content type')
    u = uri
    if u is not None:
        u = u.strip() if u.strip() else u.strip()
        if u.startswith('<') and u.endswith('>'):
            u = u[1:-1]
        u = u.replace(' ', '%20')
    same(rec.rec_headers.get_header('WARC-Target-URI'), u, 'target URI')
    avail = block + tail if exp is None else (block + tail)[:exp]
    is_http = ty in ('response', 'request', 'revisit') and (u or '').startswith(('http:', 'https:')) and exp != 0 and not noparse and avail != b''
    got = drain(rec.raw_stream.read)
    if not is_http:
        if not ensure:
            same(rec.http_headers, None, 'no HTTP headers')
        else:
            assert rec.http_headers is not None
            same(rec.http_headers.get_header('Content-Type'), 'application/http', 'default headers: Content-Type')
            same(rec.http_headers.get_header('Content-Length'), None if exp is None else str(exp), 'default headers: Content-Length')
            if exp is not None:
                same(rec.payload_length, exp, 'payload length')
        same(got, avail, 'block')
    else:
        assert rec.http_headers is not None, 'HTTP headers expected'
        # an independent split of the header block
        pos = 0
        while pos < len(avail):
            i = avail.find(b'\n', pos)
            i = len(avail) if i < 0 else i + 1
            line = avail[pos:i]
            pos = i
            if not dec(line).strip():
                break
        same(got, avail[pos:], 'payload')
        if exp is not None and http is not None and not (ensure and bk == 'blankfirst'):
            same(rec.payload_length, exp - pos, 'payload length')
        if http and ln in ('right', 'long', 'missing', 'spaces', 'plus') and not (ensure and bk == 'blankfirst'):
            same((rec.http_headers.protocol, rec.http_headers.statusline, rec.http_headers.headers), http, 'HTTP headers')
    if exp is not None:
        same(rec.raw_stream.read(), b'', 'end')
        if kind in ('bio', 'short'):
            same(drain(s.read), (block + tail)[exp:], 'rest of the stream')


def check_first(case):
    _, first, known = case
    raw = first + b'\r\nContent-Length: 3\r\n\r\nabc\r\n\r\n' if first else b''
    ld = ArcWarcRecordLoader()
    warc = first.upper()[:8] in (b'WARC/1.0', b'WARC/1.1') or first.upper()[:9] in (b'WARC/0.17', b'WARC/0.18')
    arc = len(first.split(b' ')) == 5
    try:
        rec = ld.parse_record_stream(io.BytesIO(raw), known_format=known, no_record_parse=True)
    except EOFError:
        assert not first
        return None
    except ArchiveLoadFailed:
        assert not (warc and known != 'arc') and not (arc and known != 'warc'), 'rejected'
        return None
    assert first
    assert (warc and known != 'arc') or (arc and known != 'warc'), 'accepted as %s' % rec.format


def check_arc(case):
    _, uri, conv, block, ln, np = case
    head = uri.startswith('filedesc://')
    lines = b'1 0 IA\nURL IP-address Archive-date Content-type Archive-length\n' if head else b''
    n = len(block)
    val = {'right': n + len(lines), 'short': max(n - 2, 0) + len(lines), 'neg': -5, 'text': 'x'}[ln]
    exp = {'right': n, 'short': max(n - 2, 0), 'neg': 0, 'text': 0}[ln]
    rest = b'\nnext'
    s = io.BytesIO(('%s 1.2.3.4 20200101000000 text/html %s\n' % (uri, val)).encode() + lines + block + rest)
    rec = ArcWarcRecordLoader(verify_http=False, arc2warc=conv).parse_record_stream(s, no_record_parse=np)
    same(rec.format, 'warc' if conv else 'arc', 'format')
    same(rec.rec_type, ('warcinfo' if conv else 'arc_header') if head else 'response', 'type')
    same(rec.length, exp, 'length')
    http = not np and not head and uri.startswith(('http:', 'https:')) and exp > 0
    body = block[:exp]
    if http and body:
        assert rec.http_headers is not None, 'HTTP headers expected'
        i = body.find(b'\r\n\r\n')
        body = body[i + 4:] if i >= 0 else b''
    else:
        same(rec.http_headers, None, 'no HTTP headers')
    same(drain(rec.raw_stream.read), body, 'payload')
    same(s.read(), (block + rest)[exp:], 'rest of the stream')
