"""C10: digest verification while reading"""
import hashlib, sys
from lib import *
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed

RULE = 'records with right, wrong, unknown and missing digests of several algorithms and encodings, whole or cut off, all ways of consuming, modes True/log/raise; non-trivial: at least one digest'


def declared(kind, content, enc='b32', algo='sha1'):
    """header value and whether it is right"""
    if kind == 'none':
        return None, None
    if kind == 'unknown':
        return 'nosuchalgo:AAAA', False
    if kind == 'nocolon':
        return 'AAAABBBB', False
    d = hashlib.new(algo, content).digest()
    if kind == 'wrong':
        d = bytes([d[0] ^ 1]) + d[1:]
    if kind == 'wrongend':
        d = d[:-1] + bytes([d[-1] ^ 0x80])
    f = {'b32': lambda x: base64.b32encode(x), 'b16': base64.b16encode, 'hex': lambda x: base64.b16encode(x).lower(), 'b64': base64.b64encode, 'url': base64.urlsafe_b64encode,
         'b32n': lambda x: base64.b32encode(x).rstrip(b'='), 'b64n': lambda x: base64.b64encode(x).rstrip(b'=')}[enc]
    return algo + ':' + f(d).decode(), kind == 'right'


KINDS = ['right', 'wrong', 'none', 'unknown', 'wrongend', 'nocolon']


def gen(rng, tier):
    for b in KINDS:
        for p in KINDS:
            for ty in ('response', 'request', 'revisit', 'resource'):
                for body in (b'', b'abc'):
                    for how in ('none', 'all', 'stream'):
                        yield (ty, True, b, p, 'b32', 'sha1', body, how, 0, True, False, 0)
    for how in ('none', 'read1', 'lines', 'all', 'stream', 'part', 'offset'):
        for mode in (True, 'log', 'raise'):
            for b, p in (('right', 'wrong'), ('wrong', 'right'), ('wrong', 'wrong'), ('right', 'right'), ('none', 'wrong'), ('unknown', 'right'), ('wrong', 'none')):
                for cut in (0, 1, 5):
                    yield ('response', True, b, p, 'b32', 'sha1', b'hello\nworld', how, cut, mode, False, 0)
    while True:
        body = rng.choice([b'', b'x', b'\n', spec(rng, 40000), spec(rng, 200)])
        yield (rng.choice(['response', 'response', 'request', 'revisit', 'resource', 'warcinfo', 'metadata']), rng.random() < 0.7,
               rng.choice(KINDS[:3] + KINDS), rng.choice(KINDS[:3] + KINDS), rng.choice(['b32', 'b16', 'hex', 'b64', 'url', 'b32n', 'b64n']), rng.choice(['sha1', 'md5', 'sha256', 'sha512', 'sha224']),
               body, rng.choice(['none', 'read1', 'lines', 'all', 'stream', 'part', 'offset']), rng.choice([0, 0, 0, 1, 3, 100]), rng.choice([True, True, 'log', 'raise']), rng.random() < 0.15,
               rng.choice([0, 0, 0, 0, 1, 2]))


def check(case):
    ty, http, b, p, enc, algo, body, how, cut, mode, noparse, seg = case
    body = mk(body)
    if how == 'read1' and len(body) > 3000:
        how = 'all'
    http = http and ty in ('response', 'request', 'revisit')
    hb = b''
    if http:
        first = b'GET / HTTP/1.1' if ty == 'request' else b'HTTP/1.1 200 OK'
        hb = http_block(first, [(b'A', b'b'), (b'Content-Type', b'text/x')], b'')
    block = hb + body
    bd, bok = declared(b, block, enc, algo)
    pd, pok = declared(p, body, enc, algo)
    hs = [('WARC-Type', ty), ('WARC-Record-ID', '<urn:x:1>'), ('WARC-Date', '2000-01-01T00:00:00Z'), ('WARC-Target-URI', 'http://e.com/' if http else 'urn:e')]
    if bd:
        hs.append(('WARC-Block-Digest', bd))
    if pd:
        hs.append(('WARC-Payload-Digest', pd))
    if seg:
        hs.append(('WARC-Segment-Number', str(seg)))
    raw = warc_rec(hs, block)
    is_cut = False
    if cut and block:
        k = min(cut, len(body)) if http else min(cut, len(block))
        if k:
            is_cut = True
            raw = raw[:-4 - k]
            block = block[:-k]
            body = body[:len(body) - k]
    if is_cut and (not block):
        return None     # nothing of the block is there
    else:
        nxt = b'' if is_cut else warc_rec([('WARC-Type', 'resource'), ('WARC-Target-URI', 'urn:2')], b'second')
    # what is to be checked
    checks = []
    und = ty == 'revisit'
    if not und:
        if bd:
            checks.append(('block', bok and not is_cut))
        if pd and not seg:
            if noparse and block and ty in ('response', 'request', 'revisit'):
                if p in ('unknown', 'nocolon'):
                    checks.append(('payload', False))
            else:
                checks.append(('payload', pok and not is_cut))
    probs = [c for c in checks if not c[1]]
    want = None
    if checks:
        want = not probs
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        return body_(case, raw, nxt, mode, noparse, how, block, body, hb, probs, want, checks, is_cut)
    finally:
        sys.stderr = err


def body_(case, raw, nxt, mode, noparse, how, block, body, hb, probs, want, checks, is_cut):
    it = ArchiveIterator(io.BytesIO(raw + nxt), check_digests=mode, no_record_parse=noparse)
    raised = False
    rec = None
    got = None
    try:
        rec = next(it)
        s = rec.raw_stream
        if how == 'read1':
            got = drain(lambda n: s.read(1))
        elif how == 'lines':
            got = drain(lambda n: s.readline())
        elif how == 'all':
            got = drain(s.read)
        elif how == 'stream':
            got = drain(rec.content_stream().read, 100)
        elif how == 'part':
            s.read(3)
            it.read_to_end()
        elif how == 'offset':
            it.get_record_offset()
        else:
            it.read_to_end()
        if how in ('read1', 'lines', 'all', 'stream'):
            it.read_to_end()
    except ArchiveLoadFailed as e:
        raised = True
        assert mode == 'raise', 'raised %s' % e
        assert probs, 'raised %s though all digests are right' % e
    if mode == 'raise':
        assert raised == bool(probs), 'mode raise: raised %s, wrong digests %r' % (raised, probs)
        if raised:
            return None
    full = block if noparse else body
    if got is not None:
        same(got, full, 'data with digest checking')
    ck = rec.digest_checker
    same(ck.passed, want, 'check result (digests to check: %r)' % (checks,))
    same(len(ck.problems), len(probs), 'number of problems: %r' % (ck.problems,))
    msgs = [x.lower() for x in ck.problems]
    for x, ok in probs:
        assert any(x in m for m in msgs), 'no problem about the %s digest in %r' % (x, msgs)
    text = sys.stderr.getvalue()
    if mode == 'log':
        for m in ck.problems:
            assert m in text, 'problem not written to standard error: %r' % m
    else:
        for m in ck.problems:
            assert m not in text
    # without checking: the same data
    r2 = next(ArchiveIterator(io.BytesIO(raw + nxt), no_record_parse=noparse))
    same(drain(r2.raw_stream.read), full, 'data without digest checking')
    same(r2.digest_checker.passed, None, 'not checked')
    if nxt:
        try:
            n2 = next(it)
        except StopIteration:
            return 'second record not found'
        same(drain(n2.raw_stream.read), b'second', 'next record')
        same(n2.digest_checker.passed, None, 'next record: nothing to check')
