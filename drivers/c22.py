"""C22: check"""
import sys, os, hashlib
from lib import *
from warcio.cli import main
import c10

RULE = 'random lists of files with good, wrong, missing, unknown digests, cut off records, non-archives and broken gzip, verbose or not; non-trivial: both good and bad'
G = [('right', 'right'), ('none', 'none'), ('right', 'none'), ('none', 'right')]
B = [('wrong', 'right'), ('right', 'wrong'), ('wrong', 'wrong'), ('none', 'unknown'), ('unknown', 'none'), ('none', 'wrong')]


def gen(rng, tier):
    for v in (False, True):
        for x in G + B:
            for ty in ('response', 'resource', 'revisit', 'request'):
                yield ((((ty,) + x + (0,),), False, ''),), v
        for a in B[:3]:
            for order in (0, 1, 2):
                rs = [('response', 'right', 'right', 0), ('resource', 'right', 'none', 0)]
                rs.insert(order, ('response',) + a + (0,))
                yield ((tuple(rs), True, ''),), v
                yield ((tuple(rs), False, ''), ((('response', 'right', 'right', 0),), True, '')), v
                yield (((('response', 'right', 'right', 0),), True, ''), (tuple(rs), False, '')), v
        for j in ('junk', 'nogz', 'multi'):
            yield (((('response', 'right', 'right', 0),), True, ''), ((('response', 'right', 'right', 0),), True, j), ((('response', 'wrong', 'right', 0),), True, '')), v
            yield (((('response', 'right', 'right', 0),), True, j), ((('response', 'right', 'right', 0),), True, '')), v
    while True:
        fs = []
        for _ in range(rng.randrange(1, 4)):
            rs = []
            for _ in range(rng.randrange(1, 5)):
                rs.append((rng.choice(['response', 'resource', 'revisit', 'request', 'warcinfo']),) + (rng.choice(B) if rng.random() < 0.2 else rng.choice(G)) + (0,))
            if rng.random() < 0.1:
                rs[-1] = rs[-1][:3] + (rng.choice([1, 3]),)
            fs.append((tuple(rs), rng.random() < 0.5, rng.choice(['', '', '', '', '', 'junk', 'multi', 'nogz'])))
        yield tuple(fs), rng.random() < 0.5


def check(case):
    files, verbose = case
    os.makedirs('in', exist_ok=True)
    names = []
    want_bad = []       # (file, offset, id, type)
    unreadable = []
    for k, (recs, gzip, junk) in enumerate(files):
        n = 'in/c%d.warc' % k
        data = b''
        plain = b''
        for i, (ty, b, p, cut) in enumerate(recs):
            http = ty in ('response', 'request', 'revisit')
            body = b'body %d of the record' % i
            hb = http_block(b'GET / HTTP/1.1' if ty == 'request' else b'HTTP/1.1 200 OK', [(b'A', b'b')], b'') if http else b''
            bd, bok = c10.declared(b, hb + body)
            pd, pok = c10.declared(p, body)
            hs = [('WARC-Type', ty), ('WARC-Record-ID', '<urn:%d:%d>' % (k, i)), ('WARC-Target-URI', 'http://e/%d' % i)]
            if bd:
                hs.append(('WARC-Block-Digest', bd))
            if pd:
                hs.append(('WARC-Payload-Digest', pd))
            raw = warc_rec(hs, hb + body)
            if cut:
                raw = raw[:-4 - cut]
            bad = ty != 'revisit' and (bok is False or pok is False or (cut and (bd or pd)))
            if bad:
                want_bad.append((n, len(data), '<urn:%d:%d>' % (k, i), ty))
            plain += raw
            data += gz(raw) if gzip else raw
        if junk:
            want_bad = [x for x in want_bad if x[0] != n]
            unreadable.append(n)
        if junk == 'junk':
            data = b'this is no archive\nat all\n'
        elif junk == 'nogz':
            data = gz(b'this is no archive\r\n')
        elif junk == 'multi':
            data = gz(warc_rec([('WARC-Type', 'resource')], b'1') + warc_rec([('WARC-Type', 'resource')], b'2'))
        open(n, 'wb').write(data)
        names.append(n)
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        code = 0
        try:
            main(['check'] + (['-v'] if verbose else []) + names)
        except SystemExit as e:
            code = e.code
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    same(bool(code), bool(want_bad or unreadable), 'exit status %r (bad: %r, unreadable: %r), output %s' % (code, want_bad, unreadable, text))
    lines = text.split('\n')
    got = []
    cur = None
    probs = {}
    for l in lines:
        if l in names:
            cur = l
        elif l.startswith('  offset '):
            f = l.split()
            rec = (cur, int(f[1]), f[3], f[4])
            got.append(rec)
        elif l.startswith('    ') and got:
            probs.setdefault(got[-1], []).append(l.strip())
        elif l.startswith('  saw exception'):
            assert cur in unreadable, 'exception for %s' % cur
    for r in want_bad:
        assert r in got, 'failing record %r is not reported in %s' % (r, text)
        assert [x for x in probs.get(r, []) if 'pass' not in x], 'no problem told for %r' % (r,)
    if not verbose:
        same([g for g in got if g[0] not in unreadable], want_bad, 'reported records')
        for n in names:
            if n not in [w[0] for w in want_bad] + unreadable:
                assert n not in lines
    else:
        nrec = sum(len(f[0]) for f, n in zip(files, names) if n not in unreadable)
        same(len([g for g in got if g[0] not in unreadable]), nrec, 'records named in verbose mode')
        for r, ps in probs.items():
            if r not in want_bad and r[0] not in unreadable:
                for x in ps:
                    assert 'fail' not in x.lower(), '%r: %s' % (r, x)
    for n in unreadable:
        assert n in lines, 'unreadable input %s is not reported' % n
