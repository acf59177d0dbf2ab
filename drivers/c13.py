"""C13: ARC records"""
from lib import *
from warcio.recordloader import ArcWarcRecordLoader
from warcio.archiveiterator import ArchiveIterator, ARCIterator
from warcio.exceptions import ArchiveLoadFailed
import datetime

RULE = 'random ARC lines (URLs with spaces, filedesc, non-ASCII, wrong field counts), blocks, conversion on and off; non-trivial: non-empty block'


def line(uri, ip, date, ct, n):
    return ('%s %s %s %s %d' % (uri, ip, date, ct, n)).encode('utf-8')


def gen(rng, tier):
    uris = ['http://e.com/', 'http://e.com/a b', 'http://e.com/a b c d e f', 'filedesc://my.arc', 'filedesc:///dir/my file.arc', 'dns:e.com', 'https://e.com/?q=1 2', u'http://e.com/é', 'filedesc://', 'http://filedesc://', 'urn:x']
    for u in uris:
        for conv in (True, False):
            for block in (b'', b'HTTP/1.0 200 OK\r\nA: b\r\n\r\nbody', b'plain', b'\r\n'):
                for date in ('20140401000000', '19961231235959', '2014', '20140230121314'):
                    for eol in (b'\n', b'\r\n'):
                        yield (u, '1.2.3.4', date, 'text/html', block, conv, eol, b'1 0 InternetArchive', b'URL IP-address Archive-date Content-type Archive-length')
    for bad in (b'', b'one', b'a b c d', b'http://x 1.2.3.4 20140401000000 5', b'a  b', b'filedesc://x 1.2 3'):
        for conv in (True, False):
            yield ('bad', bad, conv)
    while True:
        u = rng.choice(uris) + ''.join(rng.choice(['', ' ', 'x', '%20', u'ü', '/']) for _ in range(rng.randrange(4)))
        u = u.strip()
        d = datetime.datetime(rng.randrange(1900, 3000), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        yield (u, rng.choice(['1.2.3.4', '0.0.0.0', '::1', '-']), '%04d%02d%02d%02d%02d%02d' % (d.year, d.month, d.day, d.hour, d.minute, d.second), rng.choice(['text/html', 'no-type', 'text/html;charset=x', '-']),
               rng.choice([b'', b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\nx']) + data(rng, rng.choice([0, 1, 50])), rng.random() < 0.6, rng.choice([b'\n', b'\r\n']),
               rng.choice([b'1 0 IA', u'1 0 é中'.encode('utf-8'), b'\xff\xfe', b'']), rng.choice([b'URL IP', u'ü'.encode('utf-8'), b'']))


def check(case):
    if case[0] == 'bad':
        bad, conv = case[1:]
        if not bad:
            return None
        try:
            ArcWarcRecordLoader(arc2warc=conv).parse_record_stream(io.BytesIO(bad + b'\nblock'), known_format='arc')
        except ArchiveLoadFailed:
            pass
        else:
            return 'line with a wrong number of fields accepted'
        try:
            ArcWarcRecordLoader(arc2warc=conv).parse_record_stream(io.BytesIO(bad + b'\nblock'))
        except ArchiveLoadFailed:
            return None
        return 'line with a wrong number of fields accepted'
    uri, ip, date, ct, block, conv, eol, v1, v2 = case
    fd = uri.startswith('filedesc://')
    extra = b''
    if fd:
        extra = v1 + eol + v2 + eol
    n = len(extra) + len(block)
    first = line(uri, ip, date, ct, n)
    nxt = line('http://next/', '9.9.9.9', '20150101000000', 'text/plain', 4) + eol + b'NEXT' + b'\n'
    full = first + eol + extra + block + b'\n' + nxt
    it = iter(ArchiveIterator(io.BytesIO(full), arc2warc=conv, no_record_parse=True))
    rec = next(it)
    h = rec.rec_headers
    if conv:
        same(rec.format, 'warc', 'format')
        same(rec.rec_type, 'warcinfo' if fd else 'response', 'type')
        same(h.protocol, 'WARC/1.0', 'protocol')
        same(h.get_header('WARC-Type'), rec.rec_type, 'WARC-Type')
        i = h.get_header('WARC-Record-ID')
        assert i.startswith('<urn:uuid:') and i.endswith('>') and len(i) == 47, 'record id %r' % i
        if fd:
            same(h.get_header('WARC-Filename'), uri[len('filedesc://'):], 'file name')
            same(h.get_header('WARC-Target-URI'), None, 'no target')
            same(h.get_header('Content-Type'), ct, 'content type')
        else:
            same(h.get_header('WARC-Target-URI'), uri.replace(' ', '%20'), 'target URI')
            same(h.get_header('Content-Type'), 'application/http;msgtype=response', 'content type')
        same(h.get_header('WARC-IP-Address'), ip, 'IP')
        iso = {'2014': '2014-12-31T23:59:59Z', '20140230121314': '2014-02-28T12:13:14Z'}.get(date) or '%s-%s-%sT%s:%s:%sZ' % (date[:4], date[4:6], date[6:8], date[8:10], date[10:12], date[12:])
        same(h.get_header('WARC-Date'), iso, 'date')
        same(h.get_header('Content-Length'), str(n), 'declared length')
        same(len(h.headers), 7, 'number of headers')
    else:
        same(rec.format, 'arc', 'format')
        same(rec.rec_type, 'arc_header' if fd else 'response', 'type')
        same(h.headers, [('uri', uri), ('ip-address', ip), ('archive-date', date), ('content-type', ct), ('length', str(n))], 'ARC fields')
    same(rec.length, len(block), 'length')
    same(drain(rec.raw_stream.read), block, 'content')
    r2 = next(it)
    same(r2.rec_headers.get_header('WARC-Target-URI' if conv else 'uri'), 'http://next/', 'next record')
    same(drain(r2.raw_stream.read), b'NEXT', 'content of the next record')
    if conv:
        assert r2.rec_headers.get_header('WARC-Record-ID') != h.get_header('WARC-Record-ID')
    # with HTTP parsing
    it = iter(ArchiveIterator(io.BytesIO(full), arc2warc=conv))
    rec = next(it)
    if uri.startswith(('http:', 'https:')) and block.startswith(b'HTTP/'):
        assert rec.http_headers is not None and rec.http_headers.protocol == block[:8].decode()
        same(drain(rec.raw_stream.read), block[block.index(b'\r\n\r\n') + 4:], 'payload')
        same(rec.payload_length, len(block) - block.index(b'\r\n\r\n') - 4, 'payload length')
    r2 = next(it)
    same(r2.rec_headers.get_header('WARC-Target-URI' if conv else 'uri'), 'http://next/', 'next record')
