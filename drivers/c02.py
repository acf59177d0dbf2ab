"""C02: BufferedReader"""
import brotli
from lib import *
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader

RULE = 'random content (0..70000 bytes), compression, block size, short reads, read/readline calls; non-trivial: content not empty'


def comp(t, d, level=9):
    if t is None:
        return d
    if t == 'gzip':
        return gz(d, level)
    if t == 'deflate':
        return gz(d, level, 15)
    if t == 'raw':
        return gz(d, level, -15)
    return brotli.compress(d, quality=3)


def member(t, d):
    """what the decoder gives for raw data d, None if broken later than its start"""
    if t == 'deflate':
        for w in (15, -15):
            r = feed(zlib.decompressobj(w), d)
            if r is not False:
                return r
        return d
    dec = zlib.decompressobj(31) if t == 'gzip' else brotli.Decompressor()
    r = feed(dec, d)
    return d if r is False else r


def feed(dec, d):
    out = b''
    for i in range(len(d)):
        if getattr(dec, 'eof', False):
            break
        try:
            f = dec.decompress if hasattr(dec, 'decompress') else dec.process
            out += f(d[i:i + 1])
        except Exception:
            return None if out else False
    return out


def gen(rng, tier):
    ops1 = (('r', 1), ('l', None), ('r', None))
    small = [b'', b'a', b'\n', b'ab\ncd', b'hello\nworld\n\nfoo', b'\x1f\x8b', b'\x1f', b'\x78', b'\x78\x9c', b'\x78\x9cabc', b'plain text here\n']
    for c in small:
        for t in (None, 'gzip', 'deflate', 'raw', 'br'):
            for enc in (True, False):
                for bs in (1, 2, 3, 7, 16384):
                    for ops in (ops1, (('l', 1), ('l', 2), ('l', 4), ('r', 2)), (('r', 3), ('l', 3), ('l', None)), (('r', -1),), (('l', -1), ('r', 0), ('l', 0), ('r', -5))):
                        yield (c, t, enc, bs, (bs,), ops, None, 0)
    while True:
        s = spec(rng)
        t = rng.choice([None, 'gzip', 'gzip', 'deflate', 'raw', 'br'])
        enc = rng.random() < 0.8
        bs = rng.choice([1, 2, 3, 10, 100, 1000, 4096, 16384, 16384, 32768])
        if s[2] > 3000:
            bs = max(bs, 100)
        ops = []
        for _ in range(rng.randrange(1, 12)):
            ops.append((rng.choice('rrll'), rng.choice([None, None, 0, 1, 2, 3, 10, 79, 100, 1000, 5000, 16384, 20000, 40000, 100000, -1, -3])))
        extra = rng.choice([None, None, None, b'', b'a', 'member', 'members'])
        yield (s, t, enc, bs, tuple(rng.choice([1, 2, 5, 100, 1000, 16384, 1 << 30]) if s[2] < 3000 else rng.choice([100, 1000, 16384, 1 << 30]) for _ in range(3)), tuple(ops),
               extra, rng.choice([0, 0, 0, 1, 5, 100]))


def check(case):
    s, t, enc, bs, sizes, ops, extra, cut = case
    content = mk(s)
    raw = comp(t, content) if enc else content
    if cut and enc:
        raw = raw[:-cut] if cut < len(raw) else raw
    ty = 'deflate' if t == 'raw' else t
    if ty and bs % 3 == 0:
        ty = ty.capitalize()
    all_members = False
    tail = b''
    if t == 'gzip' and enc and not cut and extra in ('member', 'members'):
        more = gz(b'next\nmember\n') + gz(b'') + gz(b'last')
        raw = raw + more
        want = content
        if extra == 'members':
            all_members = True
            want = content + b'next\nmember\nlast'
    elif ty is None:
        want = raw
    elif enc and not cut:
        want = content
    elif len(raw) < 5000 and not (enc and ty.lower() == 'br'):
        want = member(ty.lower(), raw)
        if want is None:
            return None
    elif not enc:
        return None
    else:
        want = None
    sd = None
    r2 = raw
    if extra in (b'', b'a') or cut == 5:
        k = min(3, len(raw))
        sd, r2 = raw[:k], raw[k:]
    kw = {}
    if ty is not None:
        kw['decomp_type'] = ty
    if all_members:
        kw['read_all_members'] = True
    st = Short(r2, sizes)
    r = BufferedReader(st, block_size=bs, starting_data=sd, **kw)
    pos = 0
    if want is None:
        got = drain(r.read, 1000)
        assert content.startswith(got), 'cut compressed data must give a prefix'
        return None
    ops = list(ops) + [('r', 1000), ('l', None), ('r', None)]
    for op, n in ops:
        rest = want[pos:]
        if op == 'r':
            b = r.read(n) if n is not None else r.read()
            w = rest if n is None or n < 0 else rest[:n]
        else:
            b = r.readline(n) if n is not None else r.readline()
            w = rest if n is None or n < 0 else rest[:n]
            i = w.find(b'\n')
            if i >= 0:
                w = w[:i + 1]
        same(b, w, '%s(%r) at %d of %d' % ('read' if op == 'r' else 'readline', n, pos, len(want)))
        pos += len(b)
    same(r.read(), b'', 'read after the end')
    same(r.readline(), b'', 'readline after the end')
