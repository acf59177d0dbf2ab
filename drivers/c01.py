"""C01: LimitReader"""
from lib import *
from warcio.limitreader import LimitReader

RULE = 'random content, limits, sequences of read/readline/wrap calls with any size; non-trivial: at least two calls'


def gen(rng, tier):
    # all short call sequences over a small stream
    for content in (b'', b'a', b'ab\ncd\n', b'\n\n', b'abc'):
        for limit in (0, 1, 2, 3, 5, 9):
            for a in (('r', None), ('r', 0), ('r', 1), ('r', -1), ('r', 4), ('l', None), ('l', 0), ('l', 1), ('l', -1), ('l', -7), ('l', 4)):
                for b in (('r', None), ('l', 2), ('l', None), ('r', -3), ('w', 1), ('w', 0), ('w', 7)):
                    yield (content, limit, (3,), (a, b, ('r', None), ('l', None)))
    while True:
        n = rng.randrange(0, 40)
        content = data(rng, n)
        ops = []
        for _ in range(rng.randrange(1, 9)):
            k = rng.choice('rrrlllw')
            if k == 'w':
                ops.append(('w', rng.choice([0, 1, 2, 5, 10, 30, 100, -1, -5, None, 'x', '3', '', '-2', b'4', ' 7 ', '1.5'])))
            else:
                ops.append((k, rng.choice([None, 0, 1, 2, 3, 5, 8, 50, -1, -2, -10])))
        yield (content, rng.choice([0, 1, 5, 10, n, n + 1, n + 10, rng.randrange(0, 40)]),
               tuple(rng.randrange(1, 6) for _ in range(3)), tuple(ops))


def lim(m):
    try:
        m = int(m)
    except (ValueError, TypeError):
        return None
    return m if m >= 0 else None


def check(case):
    content, limit, sizes, ops = case
    s = Short(content, sizes)
    r = LimitReader.wrap_stream(s, limit)
    assert r is not s
    left = limit
    pos = 0
    for op, n in ops:
        same(r.tell(), pos, 'position')
        if op == 'w':
            r2 = LimitReader.wrap_stream(r, n)
            m = lim(n)
            same(r2.tell(), pos, 'position after narrowing to %r' % (n,))
            if m is None:
                assert r2 is r
            else:
                left = min(left, m)
            r = r2
            s2 = Short(b'zz')
            w = LimitReader.wrap_stream(s2, n)
            if m is None:
                assert w is s2, 'invalid limit %r must leave the stream' % (n,)
            else:
                assert w is not s2 and w.tell() == 0
                got = b''
                while True:
                    b = w.read()
                    if not b:
                        break
                    got += b
                same(got, b'zz'[:m], 'wrapped stream')
            continue
        avail = content[pos:pos + left]
        if op == 'r':
            b = r.read(n) if n is not None else r.read()
            want = avail
            if n is not None and n >= 0:
                assert len(b) <= n
            same(b, avail[:len(b)], 'read(%r)' % (n,))
        else:
            b = r.readline(n) if n is not None else r.readline()
            want = avail
            if n is not None and n >= 0:
                want = want[:n]
            i = want.find(b'\n')
            if i >= 0:
                want = want[:i + 1]
            same(b, want, 'readline(%r)' % (n,))
        if not b:
            assert not avail or n == 0, 'empty result before the limit'
        pos += len(b)
        left -= len(b)
        same(s.pos, pos, 'position of the wrapped stream')
        same(r.tell(), pos, 'position')
        assert s.pos <= limit
