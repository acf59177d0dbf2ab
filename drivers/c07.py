"""C07: ASCII form of HTTP headers"""
from lib import *
from urllib.parse import quote, unquote
from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser

RULE = 'random status lines and headers with ASCII and non-ASCII text; non-trivial: some non-ASCII text'
A = 'abcXYZ019-_/;=,"\'()%& :<>#?[]{}|\\^`~!@$*+.'
U = u'éñü中文\U0001F600ß\xff\u20ac'


def txt(rng, n, p):
    return ''.join(rng.choice(U) if rng.random() < p else rng.choice(A) for _ in range(n)).strip()


def gen(rng, tier):
    vals = ['plain', 'café', 'a b é', 'attachment; filename="é.txt"', 'attachment; filename=é.txt; x=1', "a; f='é'", 'é; a="b"', ';é', 'x;y=é;z="ü"', '', 'a=é', '"é"', 'ab%20é', 'a;é=b', 'http://x/é?q=ü&a=b', '中; n=文',
            'text; a="é"; b="c"', 'a;b="é', 'a; b = "é"', '; =é']
    for v in vals:
        for st in ('200 OK', '404 Nöt', '200'):
            for n in ('A', 'Bé'):
                for proto in ('HTTP/1.1', 'HTTP/é'):
                    for f in (0, 1):
                        yield (proto, st, (('Content-Type', 'text/html; charset="utf-8"'), (n, v), ('Z', 'last; a="b c"')), f)
    while True:
        p = rng.choice([0, 0.05, 0.3, 1])
        hs = tuple((txt(rng, rng.randrange(1, 6), rng.choice([0, 0, 0.3])).replace(':', '') or 'N', txt(rng, rng.randrange(0, 20), rng.choice([0, p]))) for _ in range(rng.randrange(0, 6)))
        yield (rng.choice(['HTTP/1.1', 'HTTP/1.0', 'GET', 'é']), txt(rng, rng.randrange(0, 10), rng.choice([0, 0.2])), hs, rng.choice([0, 0, 1]))


def asc(s):
    return all(ord(c) < 128 for c in s)


def pct(s):
    return ''.join(c if ord(c) < 128 else quote(c) for c in s)


def check(case):
    proto, st, hs, f = case
    h = StatusAndHeaders(st, list(hs), protocol=proto)
    flt = (lambda x: None if x[0] == 'Z' else x) if f else None
    plain = h.to_str(flt)
    b = h.to_ascii_bytes(flt)
    b.decode('ascii')
    vis = [x for x in hs if not (f and x[0] == 'Z')]
    if asc(plain):
        same(b, plain.encode('ascii') + b'\r\n', 'ASCII block unchanged')
        same(h.headers, list(hs), 'headers unchanged')
        return None
    same(b, h.to_str(flt).encode('ascii') + b'\r\n', 'serialization of the encoded headers')
    lines = b.decode('ascii').split('\r\n')
    assert lines[-2:] == ['', '']
    first = proto + (' ' if proto and st else '') + st
    got = lines[:-2]
    if first:
        same(got[0], pct(first), 'status line')
        got = got[1:]
    same(len(got), len(vis), 'number of headers')
    for g, (n, v) in zip(got, vis):
        n2 = pct(n)
        assert g.startswith(n2 + ': '), '%r for header %r' % (g, n)
        w = g[len(n2) + 2:]
        if asc(v):
            same(w, v, 'ASCII value of %r' % n)
            continue
        enc = [quote(c) for c in v if ord(c) >= 128]
        i = 0
        for e in enc:
            i = w.find(e, i)
            assert i >= 0, 'value %r: %r not found in %r' % (v, e, w)
            i += len(e)
        if ';' not in v:
            same(unquote(w), v, 'encoded value')
        elif "*=UTF-8''" not in w:
            same(unquote(w), v, 'encoded value')
        else:
            # parameters name="value": name*=UTF-8''value, all else unchanged
            import re
            parts = re.split(r'([=]["\']?[^;"]+["\']?(?=[;]?))', v)
            want = ''
            for j, x in enumerate(parts):
                if j % 2:
                    m = re.match(r'[=]["\']?([^;"]+)["\']?(?=[;]?)', x)
                    want += "*=UTF-8''" + quote(m.group(1))
                else:
                    want += x
            same(w, want, 'value with parameters')
        if re_simple(v):
            a, q, c = re_simple(v)
            same(w, a + "*=UTF-8''" + quote(q) + c, 'extended parameter')
    # the headers stay a header block
    h2 = StatusAndHeaders(st, list(hs), protocol=proto)
    h2.compute_headers_buffer(flt)
    same(h2.headers_buff, b, 'compute_headers_buffer')


def re_simple(v):
    """token; name="value" with all non-ASCII text in the value"""
    import re
    m = re.match(r'^([a-z]+; ?[a-z]+)="([^";\'=]+)"()$', v)
    return m.groups() if m else None
