"""C04: StatusAndHeadersParser.parse"""
from lib import *
from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeadersParserException
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader

RULE = 'random status line, header lines (continuations, no colon, extra spaces, non UTF-8), body, stream kind; non-trivial: at least one header line'
PREF = (('HTTP/1.0', 'HTTP/1.1'), ('WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18'), ('GET', 'HEAD', 'POST', 'PUT'))


def gen(rng, tier):
    st = [b'HTTP/1.1 200 OK', b'http/1.0 404 Not Found', b'HTTP/1.1', b'HTTP/1.0  spaced  ', b'HTTP/1.1\t302', b'WARC/1.0', b'GET / HTTP/1.1', b'xHTTP/1.1 200 OK', b'HTTP/2 200', b'nonsense', b'HTTP/1.', b'HTTP/1.12 200 OK',
          b' HTTP/1.1 200 OK', b'', b'get /x HTTP/1.0', b'HTTP/1.1 200 caf\xc3\xa9', b'HTTP/1.1 200 caf\xe9', b'HTTP/1.1 200 OK: fine']
    hl = [b'A: b', b'A:b', b'A : b', b'A:  b  ', b'A:', b'A: b:c: d', b':v', b'no colon', b'A: \xc3\xa9', b'A: \xe9\xff', b'\xe9: x', b'Name-With-Dash: value with spaces', b'X: \xe2\x80', b'A:\tb\t', b'a: 1', b'A\t: b', b'http://x: y']
    cont = [b' more', b'\tmore', b'  two  ', b' has: colon', b'\t\xe9', b' \xc3\xa9x']
    for s in st:
        for p in PREF:
            for v in (True, False):
                for ls in ((), (b'A: b',), (b'A: b', b'C: d:e')):
                    for fin in ('blank', 'eof'):
                        yield (s, ls, p, v, b'\r\n', fin, b'body\r\n\r\nmore', 'bio')
    for h in hl:
        for c in [None] + cont:
            for e in (b'\r\n', b'\n'):
                yield (b'HTTP/1.1 200 OK', (b'First: 1', h) + ((c,) if c else ()) + (b'Last: 2',), PREF[0], True, e, 'blank', b'body: x\n', 'bio')
    for body in (b'', b'\r\n', b' x', b'A: b\r\n\r\n'):
        for fin in ('blank', 'eof', 'noline', 'spaces'):
            yield (b'HTTP/1.1 200 OK', (b'A: b', b' c'), PREF[0], True, b'\r\n', fin, body, 'bio')
    while True:
        s = rng.choice(st) if rng.random() < 0.7 else rng.choice(PREF[rng.randrange(3)]).encode() + rng.choice([b' ', b'', b'  ']) + data(rng, rng.randrange(0, 10), b'ab 0:\xc3\xa9')
        ls = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 20])):
            k = rng.random()
            if k < 0.5:
                ls.append(rng.choice(hl))
            elif k < 0.7 and ls:
                ls.append(rng.choice(cont))
            elif k < 0.9:
                ls.append(data(rng, rng.randrange(1, 8), b'abcXYZ-') + rng.choice([b':', b': ', b' : ', b'']) + data(rng, rng.randrange(0, 12), b'ab: ;=\t\xc3\xa9\xff'))
            else:
                ls.append(b'Long: ' + b'x' * rng.choice([100, 4000, 20000]))
        if ls and ls[0][:1] in b' \t':
            ls = ls[1:]
        ls = [l for l in ls if l.strip()]
        if ls and ls[0][:1] in b' \t':
            ls = []
        yield (s, tuple(ls), rng.choice(PREF), rng.random() < 0.7, rng.choice([b'\r\n', b'\n']), rng.choice(['blank', 'blank', 'eof', 'noline', 'spaces']),
               data(rng, rng.randrange(0, 40)), rng.choice(['bio', 'br', 'br1', 'gz', 'first']))


def dec(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('iso-8859-1')


def check(case):
    status, lines, pref, verify, eol, fin, body, kind = case
    raw = status + eol + b''.join(l + eol for l in lines)
    if fin == 'blank':
        raw += eol
    elif fin == 'spaces':
        raw += b' \t' + eol
    elif fin == 'noline' and lines:
        raw = raw[:-len(eol)]
    if fin in ('eof', 'noline'):
        body = b''
    if not status.strip():
        # an empty status line is all that is read
        body = raw[len(status + eol):] + body
        raw = status + eol
        lines = ()
    # an independent reading of the lines
    want = []
    cur = None
    for l in lines:
        t = dec(l).rstrip()
        if l[:1] in (b' ', b'\t'):
            if cur is not None:
                cur[1] += t
            continue
        k, sep, v = t.partition(':')
        if not sep:
            cur = None
            continue
        cur = [k.rstrip(' \t'), v.lstrip()]
        want.append(cur)
    want = [tuple(x) for x in want]
    full = raw + body
    if kind == 'bio' or kind == 'first':
        s = io.BytesIO(full)
    elif kind == 'br':
        s = BufferedReader(io.BytesIO(full))
    elif kind == 'br1':
        s = BufferedReader(Short(full, (1, 3, 50)), block_size=7)
    else:
        s = DecompressingBufferedReader(io.BytesIO(gz(full)))
    p = StatusAndHeadersParser(list(pref), verify)
    first = None
    if kind == 'first':
        first = s.readline()
        if not first:
            first = None
    st = dec(status).rstrip()
    ok = None
    for x in pref:
        if st.upper().startswith(x):
            ok = (st.upper()[:len(x)], st[len(x):].strip())
            break
    try:
        h = p.parse(s, first)
    except EOFError:
        assert not full, 'end of file on %r' % full[:60]
        return None
    except StatusAndHeadersParserException as e:
        assert verify and st and ok is None, 'rejected %r' % st
        same(s.read(), raw[len(status + eol):] + body, 'stream after a rejected line')
        return None
    assert full
    if not st:
        same((h.protocol, h.statusline, h.headers), ('', '', []), 'empty status line')
    else:
        if verify:
            assert ok is not None, 'accepted %r' % st
            same((h.protocol, h.statusline), ok, 'protocol and status')
        else:
            a, _, b = st.partition(' ')
            same((h.protocol, h.statusline), (a, b.strip()), 'protocol and status')
        same(h.headers, want, 'headers')
    same(s.read(), body, 'stream after the header')
    try:
        p.parse(io.BytesIO(b''))
    except EOFError:
        return None
    return 'no end of file condition'
