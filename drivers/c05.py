"""C05: serialization and parsing of headers"""
from lib import *
from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser

RULE = 'random protocols, status lines, headers (any non-empty names without colon, any values), filters; non-trivial: at least one header'
ALPHA = u'abcXYZ019-_/;=,"\'()%&é中\U0001F600 \t'


def tok(rng, n, no=''):
    s = ''.join(rng.choice(ALPHA) for _ in range(n)).replace('\t', ' ')
    for c in no:
        s = s.replace(c, '')
    return s.strip()


def gen(rng, tier):
    for proto, st in (('HTTP/1.1', '200 OK'), ('HTTP/1.0', '404 Not Found'), ('WARC/1.0', ''), ('HTTP/1.1', '200'), ('GET', '/path?q HTTP/1.1')):
        for hs in ((), (('A', 'b'),), (('A', ''),), (('A', ':'), ('B', 'x: y')), (('a', '1'), ('A', '2'), ('b', '')), (('X', 'é中'),), (('n m', 'v  w'),)):
            for f in ('none', 'drop', 'change', 'empty', 'all'):
                yield (proto, st, hs, f)
    while True:
        hs = []
        for _ in range(rng.choice([0, 1, 2, 5, 30])):
            n = tok(rng, rng.randrange(1, 10), ':') or 'N'
            v = tok(rng, rng.randrange(0, 30)) + rng.choice(['', ':', ': x', ' x'])
            hs.append((n, v.strip()))
        yield (rng.choice(['HTTP/1.1', 'WARC/1.0', 'HTTP/1.0', 'GET', 'X' + tok(rng, 3).replace(' ', '')]), tok(rng, rng.randrange(0, 12)), tuple(hs), rng.choice(['none', 'none', 'drop', 'change', 'empty', 'all']))


FILTERS = {
    'drop': lambda h: h if h[0].lower() != 'a' else None,
    'change': lambda h: (h[0] + 'x', 'y' + h[1]),
    'empty': lambda h: (h[0], ''),
    'all': lambda h: None,
}


def check(case):
    proto, st, hs, f = case
    hs = list(hs)
    h = StatusAndHeaders(st, list(hs), protocol=proto)
    flt = FILTERS.get(f)
    out = [flt(x) for x in hs] if flt else hs
    out = [x for x in out if x]
    first = proto + (' ' + st if st else '')
    want = first + '\r\n' + ''.join('%s: %s\r\n' % x for x in out)
    args = (flt,) if flt else ()
    same(h.to_str(*args), want, 'to_str')
    same(h.to_bytes(*args), want.encode('utf-8') + b'\r\n', 'to_bytes')
    if not flt:
        same(str(h), want, 'str')
    same(h.headers, hs, 'headers after serializing')
    for stream in (io.BytesIO(h.to_bytes(*args) + b'BODY'),):
        if st.split(' ')[0:1] == [''] and st:
            break
        p = StatusAndHeadersParser([proto.upper()], verify=False).parse(stream)
        if ' ' in proto:
            break
        same((p.protocol, p.statusline, p.headers), (proto, st, out), 'parsed back')
        same(stream.read(), b'BODY', 'rest')
        if not flt:
            assert not (st or hs) or (p == h and not (p != h)), 'parsed back is not equal'
    if proto == proto.upper() and not (' ' in proto):
        stream = io.BytesIO(h.to_bytes(*args) + b'BODY')
        p = StatusAndHeadersParser([proto]).parse(stream)
        same((p.protocol, p.statusline, p.headers), (proto, st, out), 'parsed back (verified)')
