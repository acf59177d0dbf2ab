"""C06: StatusAndHeaders as ordered case-insensitive map"""
from lib import *
from collections import OrderedDict
from warcio.statusandheaders import StatusAndHeaders

RULE = 'random operation sequences against a list model; non-trivial: names repeat in different case'
NAMES = ['A', 'A ', ' a', 'A:', 'a-', '-a', 'A', 'a', 'a', 'b', 'B', 'Content-Type', 'content-type', 'CONTENT-TYPE', 'X', 'É', 'é', 'ss', '']
VALS = ['', '1', '2', 'x', 'y: z', '0']


def gen(rng, tier):
    base = [(), (('A', '1'),), (('a', '1'), ('A', '2')), (('A', ''), ('b', '2'), ('a', '3'), ('B', '')), (('x', '1'), ('A', '1'), ('y', '1'), ('A', '1'), ('a', '1'))]
    for hs in base:
        for form in ('list', 'bytes', 'dict', 'tuple', 'ordered', 'mixed'):
            for op in (('get', 'A'), ('getd', 'a', 'dflt'), ('add', 'A', 'n'), ('replace', 'a', 'n'), ('replace', 'q', ''), ('remove', 'a'), ('remove', 'q'), ('in', 'A'), ('in', 'b'), ('item', 'B'), ('set', 'b', 'z'), ('del', 'A'), ('gett', 'a')):
                yield (form, hs, (op, ('in', 'a'), ('get', 'A'), ('remove', 'A'), ('get', 'a')))
    while True:
        hs = tuple((rng.choice(NAMES), rng.choice(VALS)) for _ in range(rng.randrange(0, 7)))
        ops = []
        for _ in range(rng.randrange(1, 14)):
            k = rng.choice(['get', 'getd', 'add', 'replace', 'remove', 'in', 'item', 'set', 'del', 'gett'])
            o = (k, rng.choice(NAMES))
            if k in ('add', 'replace', 'set'):
                o += (rng.choice(VALS),)
            elif k == 'getd':
                o += (rng.choice([None, 'd', '']),)
            ops.append(o)
        yield (rng.choice(['list', 'bytes', 'dict', 'tuple', 'ordered', 'mixed']), hs, tuple(ops))


def check(case):
    form, hs, ops = case
    lat = lambda s: s.encode('iso-8859-1')
    if form == 'list':
        h, m = list(hs), list(hs)
    elif form == 'tuple':
        h, m = tuple(hs), list(hs)
    elif form == 'bytes':
        h, m = [(lat(a), lat(b)) for a, b in hs], list(hs)
    elif form == 'mixed':
        h, m = [(lat(a), b) if i % 2 else (a, lat(b)) for i, (a, b) in enumerate(hs)], list(hs)
    elif form == 'dict':
        h = dict(hs)
        m = list(h.items())
    else:
        h = OrderedDict((lat(a), lat(b)) for a, b in hs)
        m = [(a.decode('latin-1'), b.decode('latin-1')) for a, b in h.items()]
    inp = repr(h)
    s = StatusAndHeaders('200 OK', h, protocol='HTTP/1.1')
    same(s.headers, m, 'headers given as ' + form)
    for op in ops:
        k, name = op[0], op[1]
        ix = [i for i, x in enumerate(m) if x[0].lower() == name.lower()]
        first = m[ix[0]][1] if ix else None
        if k == 'get':
            same(s.get_header(name), first, 'get %r' % name)
        elif k == 'gett':
            same(s.get(name), first, 'get %r' % name)
        elif k == 'item':
            same(s[name], first, 'item %r' % name)
        elif k == 'getd':
            same(s.get_header(name, op[2]), first if ix else op[2], 'get %r default' % name)
        elif k == 'in':
            same(name in s, bool(ix), 'in %r' % name)
        elif k == 'add':
            s.add_header(name, op[2])
            m.append((name, op[2]))
        elif k in ('replace', 'set'):
            if k == 'set':
                s[name] = op[2]
            else:
                same(s.replace_header(name, op[2]), first, 'replace returns the old value')
            if ix:
                m[ix[0]] = (m[ix[0]][0], op[2])
            else:
                m.append((name, op[2]))
        elif k in ('remove', 'del'):
            if k == 'del':
                del s[name]
            else:
                same(bool(s.remove_header(name)), bool(ix), 'remove tells')
            m = [x for x in m if x[0].lower() != name.lower()]
        same([tuple(x) for x in s.headers], m, 'headers after %r' % (op,))
    same(repr(h), inp, 'the headers passed in')
