"""C11: digest comparison"""
import hashlib
from lib import *
from warcio.digestverifyingreader import DigestVerifyingReader, DigestChecker

RULE = 'digests of all fixed-length algorithms in all encodings, exact and perturbed; non-trivial: value not empty'
ALGOS = ['sha1', 'md5', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s', 'sha3_256', 'sha3_512']
ENC = {'b16': lambda d: base64.b16encode(d).decode(), 'hex': lambda d: d.hex(), 'b32': lambda d: base64.b32encode(d).decode(),
       'b64': lambda d: base64.b64encode(d).decode(), 'url': lambda d: base64.urlsafe_b64encode(d).decode()}
PERT = ['', 'unpad', 'pad', 'case', 'swap', 'cut', 'add', 'flip', 'garbage', 'space', 'empty', 'bits', 'mixhex', 'otheralgo', 'morepad', 'nonascii']


def gen(rng, tier):
    for i in range(3):
        for a in ALGOS:
            for e in ENC:
                for p in PERT:
                    yield (a, e, p, i, 'content %d' % i)
    while True:
        yield (rng.choice(ALGOS), rng.choice(list(ENC)), rng.choice(PERT), rng.randrange(10 ** 6), 'c%d' % rng.randrange(10 ** 9))


def valid(v, d):
    """the encodings of the digest, with or without padding"""
    ok = set()
    for x in (base64.b16encode(d).decode(), base64.b32encode(d).decode(), base64.b64encode(d).decode(), base64.urlsafe_b64encode(d).decode()):
        ok.add(x.rstrip('='))
    v2 = v.rstrip('=')
    if len(v2) == 2 * len(d):
        return v2.upper() in ok
    return v2 in ok


def check(case):
    algo, enc, pert, n, content = case
    content = content.encode()
    d = hashlib.new(algo, content).digest()
    r = random.Random(n)
    v = ENC[enc](d)
    decl = algo
    if pert == 'unpad':
        v = v.rstrip('=')
    elif pert == 'pad':
        v = v.rstrip('=')
        v += '=' * (-len(v) % (8 if enc == 'b32' else 4))
    elif pert == 'case':
        v = v.swapcase()
    elif pert == 'mixhex':
        v = ''.join(r.choice([c.upper(), c.lower()]) for c in d.hex())
    elif pert == 'swap':
        i, j = r.randrange(len(v)), r.randrange(len(v))
        l = list(v)
        l[i], l[j] = l[j], l[i]
        v = ''.join(l)
    elif pert == 'cut':
        v = v[:r.randrange(len(v))]
    elif pert == 'add':
        i = r.randrange(len(v) + 1)
        v = v[:i] + r.choice('A=a0+-_/ :') + v[i:]
    elif pert == 'flip':
        i = r.randrange(len(v))
        v = v[:i] + r.choice('ABCDabcd0123456789+/-_=!\n ') + v[i + 1:]
    elif pert == 'garbage':
        v = ''.join(r.choice('ABCabc0189+/-_= :;!') for _ in range(r.choice([1, len(v), r.randrange(1, 150)])))
    elif pert == 'space':
        v = r.choice([' ' + v, v + ' ', v[:3] + ' ' + v[3:], v + '\n'])
    elif pert == 'empty':
        v = ''
    elif pert == 'bits':
        b = bytearray(d)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        v = ENC[enc](bytes(b))
    elif pert == 'morepad':
        v = v + '='
        return None
    elif pert == 'nonascii':
        v = v[:-1] + u'\xe9'
    elif pert == 'otheralgo':
        decl = 'md5' if algo != 'md5' else 'sha1'
    want = valid(v, hashlib.new(decl, content).digest())
    if '=' in v and pert not in ('', 'pad'):
        # padding that is neither complete nor absent is not decided
        if v.rstrip('=') != v and want:
            return None
        if '=' in v.rstrip('='):
            want = False
    hdr = decl + ':' + v
    ck = DigestChecker()
    rd = DigestVerifyingReader(io.BytesIO(content), len(content), ck, record_type='resource', block_digest=hdr)
    rd.begin_payload()
    same(drain(rd.read), content, 'content')
    same(ck.passed, want, 'block digest %r against %s' % (hdr, d.hex()))
    same(len(ck.problems), 0 if want else 1, 'problems')
    ck = DigestChecker()
    rd = DigestVerifyingReader(io.BytesIO(content), len(content), ck, record_type='resource', payload_digest=hdr)
    rd.begin_payload()
    drain(rd.read)
    same(ck.passed, want, 'payload digest %r' % hdr)
    ck = DigestChecker()
    rd = DigestVerifyingReader(io.BytesIO(content), len(content), ck, record_type='resource')
    rd.begin_payload()
    drain(rd.read)
    same(ck.passed, None, 'no declared digest')
