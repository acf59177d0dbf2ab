"""C25: HTTP capture, against a scripted server on the loopback interface"""
import sys, os, threading, socket
from warcio.capture_http import capture_http
from warcio.warcwriter import WARCWriter, BufferWARCWriter
import http.client
from lib import *
import requests
import logging
logging.disable(logging.CRITICAL)

RULE = 'sequences of exchanges (methods, request bodies of several kinds, responses with length / chunked / until close / no body, kept alive or new connections, proxy, filter functions, threads); non-trivial: at least two exchanges'


class Server(object):
    """answers the i-th request on any connection with the response named in its path (/r/<n>...); keeps what it received"""
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.responses = {}
        self.got = []
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        f = c.makefile('rb')
        try:
            while True:
                raw = f.readline()
                if not raw:
                    break
                first = raw
                n = 0
                te = False
                while True:
                    l = f.readline()
                    raw += l
                    if l in (b'\r\n', b''):
                        break
                    k, _, v = l.partition(b':')
                    if k.lower() == b'content-length':
                        n = int(v)
                    if k.lower() == b'transfer-encoding':
                        te = True
                if te:
                    while True:
                        l = f.readline()
                        raw += l
                        m = int(l, 16)
                        raw += f.read(m + 2)
                        if not m:
                            break
                else:
                    raw += f.read(n)
                if first.startswith(b'CONNECT'):
                    c.sendall(b'HTTP/1.1 200 Connected\r\n\r\n')
                    continue
                key = int(first.split(b'/r/')[1].split(b'/')[0])
                resp, close = self.responses[key]
                self.got.append((key, raw))
                for i in range(0, len(resp), 1000):
                    c.sendall(resp[i:i + 1000])
                if close:
                    break
        except OSError:
            pass
        finally:
            f.close()
            c.close()


SRV = []
COUNT = [0]
STATUS = [b'HTTP/1.1 200 OK', b'HTTP/1.1 404 Not Found', b'HTTP/1.0 200 OK', b'HTTP/1.1 204 No Content', b'HTTP/1.1 304 Not Modified']


def gen(rng, tier):
    for client in ('plain', 'requests', 'session'):
        for kind in ('len', 'chunked', 'close', 'none', 'odd'):
            for m, b in (('GET', None), ('POST', b'data'), ('HEAD', None), ('PUT', ('bin', 1, 20000)), ('POST', ('bin', 2, 3000))):
                for flt in ('none', 'keep', 'drop', 'swap'):
                    yield (client, ((m, b, kind, b'hello world', 0),), flt, 'buf', False)
        for flt in ('none', 'drop2'):
            for tgt in ('buf', 'file', 'gz'):
                yield (client, (('GET', None, 'len', b'one', 0), ('GET', None, 'chunked', b'two', 1), ('POST', b'x', 'close', b'three', 2), ('GET', None, 'len', b'', 3)), flt, tgt, False)
    for client in ('proxy', 'tunnel'):
        yield (client, (('GET', None, 'len', b'one', 0), ('POST', b'abc', 'chunked', b'two', 1)), 'none', 'buf', False)
    yield ('plain', (('GET', None, 'len', b'one', 0), ('GET', None, 'len', b'two', 0)), 'none', 'buf', True)
    while True:
        ex = tuple((rng.choice(['GET', 'GET', 'POST', 'HEAD', 'PUT', 'DELETE']), rng.choice([None, None, b'', b'body', spec(rng, 30000)]), rng.choice(['len', 'len', 'chunked', 'close', 'none']), rng.choice([b'', b'x', spec(rng, 40000), spec(rng, 300)]), rng.randrange(10)) for _ in range(rng.randrange(1, 5)))
        yield (rng.choice(['plain', 'plain', 'requests', 'session', 'proxy', 'mixed', 'tunnel']), ex, rng.choice(['none', 'none', 'keep', 'drop2', 'swap']), rng.choice(['buf', 'buf', 'file', 'gz']), rng.random() < 0.2)


def response(kind, method, body, k):
    h = [(b'Server', b's'), (b'X-K', b'%d' % k)]
    st = STATUS[0] if kind == 'len' else STATUS[k % 2]
    close = False
    if kind == 'none':
        st = STATUS[3]
        body = b''
    wire = body
    if kind in ('len', 'odd'):
        h.append((b'Content-Length', b'%d' % len(body)))
    elif kind == 'chunked':
        h.append((b'Transfer-Encoding', b'chunked'))
        wire = b''.join(b'%x\r\n' % len(body[i:i + 7000]) + body[i:i + 7000] + b'\r\n' for i in range(0, len(body), 7000)) + b'0\r\n\r\n'
    elif kind == 'close':
        h.append((b'Connection', b'close'))
        close = True
    if method == 'HEAD':
        wire = b''
    blk = http_block(st, h, wire)
    norm = blk
    if kind == 'odd':
        blk = blk.replace(b'Server: s', b'Server:  s')
    return blk, close, norm


def one(client, state, srv, m, path, body, base):
    url = base + path
    if client == 'plain':
        c = state.get('conn')
        if c is None:
            c = state['conn'] = http.client.HTTPConnection('127.0.0.1', srv.port, timeout=10)
        c.request(m, path, body=body, headers={'X-Req': 'r'})
        r = c.getresponse()
        while r.read(1000):
            pass
        r.close()
        return url
    if client == 'requests':
        requests.request(m, url, data=body, headers={'X-Req': 'r'}, timeout=10)
        return url
    if client == 'session':
        s = state.setdefault('sess', requests.Session())
        s.trust_env = False
        s.request(m, url, data=body, timeout=10)
        return url
    if client == 'proxy':
        s = state.setdefault('psess', requests.Session())
        s.trust_env = False
        url = 'http://proxied.example.com' + path
        s.request(m, url, data=body, timeout=10, proxies={'http': 'http://127.0.0.1:%d' % srv.port})
        return url
    raise ValueError(client)


def check(case):
    client, exs, flt, target, threads = case
    if not SRV:
        SRV.append(Server())
    srv = SRV[0]
    srv.got[:] = []
    if client == 'tunnel':
        # a plain connection through a CONNECT tunnel
        client = 'plain'
        tunnel = True
    else:
        tunnel = False
    if tunnel:
        return None      # see DESIGN: http.client opens the tunnel with the same connection; only TLS is captured
    base = 'http://127.0.0.1:%d' % srv.port
    calls = []

    def f(request, response, recorder):
        calls.append(1)
        if flt == 'drop' or (flt == 'drop2' and len(calls) % 2 == 0):
            return None, None
        if flt == 'swap':
            response.rec_headers.add_header('X-Swapped', '1')
        return request, response

    def run(writer, items, want):
        state = {}
        try:
            with capture_http(writer, None if flt == 'none' else f) as w:
                for k, (key, m, body, path) in items:
                    cl = client if client != 'mixed' else ['plain', 'requests', 'session', 'proxy'][k % 4]
                    want.append((key, one(cl, state, srv, m, path, body, base)))
        finally:
            for c in state.values():
                c.close()

    items = []
    norm = {}
    odd = False
    for k, (m, b, kind, rb, q) in enumerate(exs):
        COUNT[0] += 1
        key = COUNT[0]
        body = mk(b) if b is not None else None
        resp, close, nm = response(kind, m, mk(rb), k)
        if kind == 'none' and m == 'HEAD':
            m = 'GET'
            resp, close, nm = response(kind, m, b'', k)
        srv.responses[key] = (resp, close)
        norm[key] = nm
        odd = odd or nm != resp
        items.append((k, (key, m, body, '/r/%d/%s' % (key, 'p?q=%d' % q if q else ''))))
    out = io.BytesIO()
    writer = BufferWARCWriter(gzip=False)
    if target == 'file':
        writer = 'cap.warc'
        if os.path.exists(writer):
            os.remove(writer)
    elif target == 'gz':
        writer = WARCWriter(out, gzip=True)
    want = []
    if threads:
        # two captures at once, each with its own writer
        ws = [BufferWARCWriter(gzip=False) for _ in range(2)]
        wants = [[], []]
        errs = []

        def go(i):
            try:
                run(ws[i], [(k, (key + 10 ** 6 * i, m, body, path.replace('/r/%d/' % key, '/r/%d/' % (key + 10 ** 6 * i)))) for k, (key, m, body, path) in items], wants[i])
            except Exception as e:
                errs.append(e)
        for k, (key, m, body, path) in items:
            srv.responses[key + 10 ** 6] = srv.responses[key]
            norm[key + 10 ** 6] = norm[key]
        ts = [threading.Thread(target=go, args=(i,)) for i in range(2)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        got = dict(srv.got)
        if flt not in ('none', 'keep'):
            return None
        for i in range(2):
            compare(ws[i].get_contents(), wants[i], got, srv, norm, 'none', False)
    else:
        run(writer, items, want)
        # not captured any more
        n = len(srv.got)
        key = 0
        srv.responses[0] = (b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nafter', True)
        c = http.client.HTTPConnection('127.0.0.1', srv.port, timeout=10)
        c.request('GET', '/r/%d/after' % key)
        c.getresponse().read()
        c.close()
        got = dict(srv.got[:n])
        if target == 'file':
            raw = b''.join(m[0] for m in gz_members(open('cap.warc', 'rb').read())) if open('cap.warc', 'rb').read(2) == b'\x1f\x8b' else open('cap.warc', 'rb').read()
        elif target == 'gz':
            raw = b''.join(m[0] for m in gz_members(out.getvalue()))
        else:
            raw = writer.get_contents()
        if flt == 'none':
            same(calls, [], 'filter calls')
        else:
            same(len(calls), len(want), 'filter calls')
        r = compare(raw, want, got, srv, norm, flt, odd)
        for kk in list(norm):
            srv.responses.pop(kk, None)
        return r


def compare(raw, want, got, srv, norm, flt, odd):
    parts = split_recs(raw)
    if flt == 'drop':
        want = []
    elif flt == 'drop2':
        want = want[::2]
    same(len(parts), 2 * len(want), 'records')
    bad = None
    for i, (key, url) in enumerate(want):
        (v, rh, rb, _, _), (v2, qh, qb, _, _) = parts[2 * i], parts[2 * i + 1]
        same((hget(rh, 'WARC-Type'), hget(qh, 'WARC-Type')), ('response', 'request'), 'types')
        same((hget(rh, 'WARC-Target-URI'), hget(qh, 'WARC-Target-URI')), (url, url), 'URL')
        if rb != srv.responses[key][0] and rb == norm[key]:
            bad = ('noncanonical-http-headers', 'response record of %s holds %s, received was %s' % (url, clip(rb), clip(srv.responses[key][0])))
        else:
            same(rb, srv.responses[key][0], 'response')
        same(qb, got[key], 'request')
        same(hget(qh, 'WARC-Concurrent-To'), hget(rh, 'WARC-Record-ID'), 'concurrent to')
        same(hget(rh, 'WARC-IP-Address'), '127.0.0.1', 'IP address')
        same(hget(rh, 'X-Swapped'), '1' if flt == 'swap' else None, 'filter')
        px = 'http://127.0.0.1:%d' % srv.port if 'proxied' in url else None
        same((hget(rh, 'WARC-Proxy-Host'), hget(qh, 'WARC-Proxy-Host')), (px, px), 'proxy')
    return bad
