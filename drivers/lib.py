"""helpers shared by the drivers"""
import io, random, zlib, base64, hashlib


class Short(object):
    """stream with short reads, following the io protocol"""
    def __init__(self, data, sizes=(1,), tell=True):
        self.data = data
        self.pos = 0
        self.sizes = list(sizes) or [1 << 30]
        self.n = 0
        self.log = []
        if not tell:
            self.tell = None

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        else:
            k = self.sizes[self.n % len(self.sizes)]
            self.n += 1
            n = min(n, k)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        r = self.data[self.pos:min(end, self.pos + n)]
        self.pos += len(r)
        return r

    def tell(self):
        return self.pos

    def close(self):
        pass


def text(rng, n, alpha):
    return ''.join(rng.choice(alpha) for _ in range(n))


def data(rng, n, alpha=b'ab\n\r:; 01'):
    return bytes(rng.choice(alpha) for _ in range(n))


def blob(rng, n):
    """bytes of length n, varied"""
    k = rng.randrange(4)
    if k == 0:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if k == 1:
        return data(rng, n)
    if k == 2:
        return (b'line of text %d\r\n' % rng.randrange(1000) * (n // 14 + 1))[:n]
    return b'\x00' * n


SIZES = [0, 1, 2, 3, 5, 8, 16, 33, 64, 100, 255, 256, 257, 1000, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32768, 40000, 70000]


def size(rng, mx=70000):
    if rng.random() < 0.5:
        return rng.randrange(0, min(mx, 60) + 1)
    return min(mx, rng.choice(SIZES))


def gz(data, level=9, wbits=31):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits)
    return c.compress(data) + c.flush()


def same(got, want, what):
    assert got == want, '%s: got %s, expected %s' % (what, clip(got), clip(want))


def clip(x):
    r = repr(x)
    return r if len(r) < 700 else r[:500] + '...(%d)' % len(r)


def b32sha1(b):
    return base64.b32encode(hashlib.sha1(b).digest()).decode()


def mk(spec):
    """content from (kind, seed, n) or bytes"""
    if isinstance(spec, (bytes, str)):
        return spec
    kind, seed, n = spec
    r = random.Random(seed)
    if kind == 'text':
        out = []
        left = n
        while left > 0:
            k = min(left, r.choice([1, 2, 7, 40, 80, 300]))
            out.append(bytes(r.choice(b'abcdefgh ') for _ in range(max(k - 1, 0))) + b'\n')
            left -= k
        return b''.join(out)[:n]
    if kind == 'bin':
        return r.randbytes(n)
    if kind == 'nl':
        return b'\n' * n
    if kind == 'long':
        return (b'x' * 1021 * (n // 1021 + 1))[:n]
    raise ValueError(kind)


def spec(rng, mx=70000):
    return (rng.choice(['text', 'text', 'bin', 'nl', 'long']), rng.randrange(10 ** 6), size(rng, mx))


def drain(read, n=4096):
    out = []
    while True:
        b = read(n)
        if not b:
            return b''.join(out)
        out.append(b)


def warc_rec(headers, block=b'', version=b'WARC/1.0', length=None, end=b'\r\n\r\n'):
    """an independent serializer: headers is a list of (str, str)"""
    out = [version, b'\r\n']
    for k, v in headers:
        out.append(k.encode('utf-8') + b': ' + v.encode('utf-8') + b'\r\n')
    if length is None:
        length = len(block)
    if length is not False:
        out.append(b'Content-Length: ' + str(length).encode() + b'\r\n')
    out.append(b'\r\n')
    return b''.join(out) + block + end


def split_recs(data):
    """an independent reader of well-formed uncompressed WARC data:
    list of (version, [(name, value)], block, start, end)"""
    out = []
    pos = 0
    while pos < len(data):
        h = data.index(b'\r\n\r\n', pos)
        lines = data[pos:h].decode('utf-8').split('\r\n')
        hs = []
        for l in lines[1:]:
            k, sep, v = l.partition(': ')
            assert sep, 'header line %r' % l
            hs.append((k, v))
        n = [v for k, v in hs if k.lower() == 'content-length']
        assert len(n) == 1, 'Content-Length headers: %r' % n
        n = int(n[0])
        b = h + 4
        assert b + n + 4 <= len(data), 'record at %d: block of %d bytes and CRLFCRLF go beyond the end (%d)' % (pos, n, len(data))
        assert data[b + n:b + n + 4] == b'\r\n\r\n', 'record at %d: block is not followed by CRLFCRLF but %r' % (pos, data[b + n:b + n + 4])
        out.append((lines[0], hs, data[b:b + n], pos, b + n + 4))
        pos = b + n + 4
    return out


def gz_members(data):
    """list of (decompressed, start, end)"""
    out = []
    pos = 0
    while pos < len(data):
        d = zlib.decompressobj(31)
        r = d.decompress(data[pos:]) + d.flush()
        assert d.eof, 'gzip member at %d is not complete' % pos
        end = len(data) - len(d.unused_data)
        out.append((r, pos, end))
        pos = end
    return out


def hget(headers, name, default=None):
    for k, v in headers:
        if k.lower() == name.lower():
            return v
    return default


def hall(headers, name):
    return [v for k, v in headers if k.lower() == name.lower()]


class Unseek(object):
    """readable only"""
    def __init__(self, data, sizes=(1 << 30,)):
        self.s = Short(data, sizes)

    def read(self, n=-1):
        return self.s.read(n)

    def readline(self, n=-1):
        return self.s.readline(n)


class UnseekTell(Unseek):
    def tell(self):
        return self.s.pos


def http_block(status, headers, body, line_end=b'\r\n'):
    return status + line_end + b''.join(k + b': ' + v + line_end for k, v in headers) + line_end + body
