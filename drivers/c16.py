"""C16: non-chunked gzip is reported"""
from lib import *
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed
import c14

RULE = 'gzip files whose members hold random numbers of WARC or ARC records, read with all block sizes and ways of consuming; non-trivial: a member with two records'


def gen(rng, tier):
    for fmt in ('warc', 'arc'):
        for groups in ((1,), (2,), (1, 2), (2, 1), (1, 1), (3,), (1, 1, 3, 1), (0, 1), (0, 2), (1, 0, 2), (1, 0, 1), (2, 0)):
            for how in ('none', 'full', 'part', 'offset'):
                for bs in (1, 10, 16384):
                    for np in (True, False):
                        yield (fmt, groups, tuple([('response', b'x%d' % i) for i in range(sum(groups))]), (how,), bs, np)
    while True:
        groups = tuple(rng.choice([0, 1, 1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3, 5])))
        recs = tuple((rng.choice(['response', 'resource', 'request', 'warcinfo', 'metadata']), rng.choice([b'', b'a', b'\r\n\r\n', spec(rng, 40000), spec(rng, 200)])) for _ in range(sum(groups)))
        yield (rng.choice(['warc', 'warc', 'arc']), groups, recs, tuple(rng.choice(['none', 'full', 'part', 'offset', 'line']) for _ in range(2)), rng.choice([100, 1000, 16384]), rng.random() < 0.5)


def check(case):
    fmt, groups, recs, hows, bs, noparse = case
    parts = c14.make(recs, fmt)
    data = b''
    i = 0
    ok = 0          # records that may be returned
    bad = False
    for g in groups:
        data += gz(b''.join(r for r, b, u in parts[i:i + g]))
        if not bad:
            ok += min(g, 1)
        if g > 1:
            bad = True
        i += g
    it = ArchiveIterator(io.BytesIO(data), block_size=bs, no_record_parse=noparse)
    got = []
    err = None
    key = 'uri' if fmt == 'arc' else 'WARC-Target-URI'
    try:
        for rec in it:
            u = rec.rec_headers.get_header(key)
            how = hows[len(got) % len(hows)]
            if how == 'full':
                drain(rec.raw_stream.read)
            elif how == 'part':
                rec.raw_stream.read(3)
            elif how == 'line':
                rec.raw_stream.readline()
            elif how == 'offset':
                it.get_record_offset()
            got.append(u)
    except ArchiveLoadFailed as e:
        err = e
        assert 'gzip' in str(e), 'message: %s' % e
    same(got, [u for r, b, u in parts][:ok] if not bad else expect(groups, parts), 'records returned (error: %s)' % (err is not None))
    same(err is not None, bad, 'archive load error raised')
    # the same records uncompressed: never raised
    n = sum(1 for r in ArchiveIterator(io.BytesIO(b''.join(r for r, b, u in parts)), block_size=bs, no_record_parse=noparse))
    same(n, len(parts), 'uncompressed records')


def expect(groups, parts):
    out = []
    i = 0
    for g in groups:
        if g:
            out.append(parts[i][2])
        if g > 1:
            return out
        i += g
    return out
