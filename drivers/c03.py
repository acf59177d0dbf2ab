"""C03: ChunkedDataReader"""
import brotli
from lib import *
from warcio.bufferedreaders import ChunkedDataReader, ChunkedDataException

RULE = 'random payload, chunk layout, compression, cut position, malformations, strict or not, call mix; non-trivial: at least one chunk'


def encode(payload, sizes, form, trailers):
    out = []
    marks = []
    pos = 0
    i = 0
    first = None
    while pos < len(payload):
        k = sizes[i % len(sizes)]
        c = payload[pos:pos + k]
        out.append(line(len(c), form, i))
        if first is None:
            first = len(out[0])
        out.append(c + b'\r\n')
        pos += len(c)
        i += 1
    out.append(line(0, form, i))
    if first is None:
        first = len(out[0])
    for t in trailers:
        out.append(t + b'\r\n')
    out.append(b'\r\n')
    return b''.join(out), first


def line(n, form, i):
    h = '%x' % n
    if 'X' in form:
        h = h.upper()
    if '0' in form:
        h = '0' * ((i % 3) + 1) + h
    if ';' in form:
        h += [';a', ';name=value', '; x="y z"'][i % 3]
    return h.encode() + b'\r\n'


def comp(t, d):
    if t == 'gzip':
        return gz(d)
    if t == 'deflate':
        return gz(d, 9, 15)
    if t == 'raw':
        return gz(d, 9, -15)
    if t == 'br':
        return brotli.compress(d, quality=3)
    return d


ALLOPS = ((('r', None),), (('r', 1), ('l', None)), (('l', 2), ('l', None), ('r', 3)), (('r', 0), ('l', 0), ('l', -1), ('r', -1)))


def gen(rng, tier):
    for p in (b'', b'a', b'ab\ncd', b'hello world\r\n', b'\r\n', b'0\r\n\r\n'):
        for sizes in ((1,), (2, 3), (100,)):
            for form in ('', 'X0', ';'):
                for tr in ((), (b'A: b', b'C: d')):
                    for ops in ALLOPS:
                        yield ('good', p, sizes, form, tr, None, (1 << 30,), ops, False, 0)
    for cut in range(0, 40):
        yield ('cut', b'hello\nworld', (3, 5), ';0', (b'A: b',), None, (1 << 30,), (('r', None),), False, cut)
        yield ('cut', b'hello\nworld', (3, 5), '', (), None, (1,), (('l', 3),), True, cut)
        yield ('cut', b'hello\nworld', (30,), '', (), 'gzip', (2,), (('r', 3),), False, cut)
    for b in BAD:
        for ops in ALLOPS:
            for strict in (False, True):
                yield ('bad', b, (5,), '', (), None, (1 << 30,), ops, strict, 0)
    while True:
        p = spec(rng, 40000)
        kind = rng.choice(['good', 'good', 'cut', 'cut', 'bad'])
        sizes = tuple(rng.choice([1, 2, 3, 9, 10, 15, 16, 17, 100, 255, 256, 4096, 16384, 20000, 65536]) if p[2] < 2000 else rng.choice([1000, 4096, 16383, 16384, 20000, 65536]) for _ in range(rng.randrange(1, 4)))
        t = rng.choice([None, None, 'gzip', 'deflate', 'raw', 'br'])
        ops = tuple((rng.choice('rrll'), rng.choice([None, 0, 1, 2, 5, 79, 1000, 16384, 100000, -1])) for _ in range(rng.randrange(1, 8)))
        st = tuple(rng.choice([1, 2, 3, 7, 1 << 30] if p[2] < 2000 else [1000, 5000, 1 << 30]) for _ in range(3))
        if kind == 'bad':
            n = rng.randrange(0, 30)
            b = rng.choice(BAD) if rng.random() < 0.4 else bytes(rng.choice(b'ghxyz<-_.') for _ in range(1)) + data(rng, n, b'0123af\r\n; xyz')
            yield ('bad', b, sizes, '', (), None, st, ops, rng.random() < 0.4, 0)
        else:
            yield (kind, p, sizes, ''.join(c for c in 'X0;' if rng.random() < 0.4), tuple((b'Trailer%d: v' % i for i in range(rng.choice([0, 0, 1, 3])))), t, st, ops,
                   rng.random() < 0.3, rng.randrange(0, 60) if rng.random() < 0.5 else rng.randrange(0, 45000))


BAD = [b'xyz123\r\nabc', b'this is not chunked\r\nat all', b'', b'5', b'5\r', b'5\n', b'5\nabcde\r\n0\r\n\r\n', b'-1\r\nabc\r\n', b'-5\r\n', b'g\r\nabc', b'\r\n', b'\n\n',
       b'<html>\r\n<body>', b';a\r\nabc', b'+\r\nx', b'plain', b'0', b'0x\r\nabc', b'1 2\r\nab', b'\x00\x01\r\n', b'99999999999\r\nabc\r\n0\r\n\r\n', b'80000001\r\nabc']


def run(r, ops, want, exact=True):
    pos = 0
    got = b''
    for op, n in list(ops):
        rest = want[pos:]
        b = (r.read if op == 'r' else r.readline)(*(() if n is None else (n,)))
        if exact:
            w = rest if n is None or n < 0 else rest[:n]
            if op == 'l':
                i = w.find(b'\n')
                if i >= 0:
                    w = w[:i + 1]
            same(b, w, '%s(%r) at %d of %d' % (op, n, pos, len(want)))
        pos += len(b)
        got += b
    while True:
        b = r.read(1000)
        if not b:
            break
        got += b
    return got


def check(case):
    kind, p, sizes, form, trailers, t, st, ops, strict, cut = case
    if kind == 'bad':
        r = ChunkedDataReader(Short(p, st), raise_exceptions=strict)
        if strict:
            try:
                drain(r.read)
            except ChunkedDataException:
                return None
            assert not p, 'malformed chunked body accepted in strict mode'
            return 'an empty body (no last chunk) is accepted in strict mode'
        got = run(r, ops, p)
        same(got, p, 'not chunked: returned unchanged')
        return None
    payload = mk(p)
    c = comp(t, payload)
    if t == 'raw':
        t = 'deflate'
    body, first = encode(c, sizes, form, trailers)
    full = body
    if kind == 'cut':
        if cut >= len(body):
            cut = cut % len(body)
        body = body[:cut]
    kw = dict(decomp_type=t) if t else {}
    s = Short(body + (b'' if kind == 'cut' else b'NEXT'), st)
    if kind == 'good':
        r = ChunkedDataReader(s, raise_exceptions=strict, **kw)
        got = run(r, ops, payload)
        same(got, payload, 'payload')
        same(r.read(), b'', 'at the end')
        return None
    r = ChunkedDataReader(s, raise_exceptions=strict, **kw)
    if strict:
        try:
            got = drain(r.read)
        except ChunkedDataException:
            return None
        return 'cut off at %d of %d accepted in strict mode (%d bytes)' % (cut, len(full), len(got))
    if cut < first:
        if t:
            return None
        got = run(r, ops, body)
        same(got, body, 'cut in the first size line: unchanged')
        return None
    got = run(r, ops, b'', False)
    assert payload.startswith(got), 'cut at %d of %d: not a prefix: %s of %s' % (cut, len(full), clip(got), clip(payload))
    if not t:
        # everything that arrived of the chunk data
        n = 0
        pos = 0
        i = 0
        off = 0
        while off < len(payload):
            k = min(sizes[i % len(sizes)], len(payload) - off)
            pos += len(line(k, form, i))
            n += max(0, min(k, cut - pos))
            pos += k + 2
            off += k
            i += 1
        same(len(got), n, 'cut at %d: bytes of the payload delivered' % cut)
