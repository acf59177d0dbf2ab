"""the extract command (C24)

The record read at an offset is a function of the file and the offset (and of how it is parsed);
so are its header blocks, its raw block data and its payload.
"""
from pyvc.verify import *

EX = 'extractor.Extractor'
AI = 'archiveiterator.ArchiveIterator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
SS, II = z3.StringSort(), z3.IntSort()
PARTS = {n: M.U('record_' + n, SS, II, SS, SS) for n in ('warc_headers', 'http_headers', 'block', 'payload')}
HAS = M.U('record_has_http_headers', SS, II, SS, z3.BoolSort())
DEFAULT = (False, False, False, False)


def seek(it, self, n, whence=0):
    if whence != 0:
        raise Unsupported('seek whence')
    self.attrs['pos'] = n
    it.record(self, 'pos')
    return n


def at(rec, name):
    return PARTS[name](*rec)


FILE = MCls('file', {'seek': seek, 'tell': lambda it, self: self.attrs['pos'], 'close': M.m_none,
                     '__enter__': lambda it, self: self, '__exit__': lambda it, self, *a: None})


def to_bytes(it, self, filter_func=None, encoding='utf-8'):
    if filter_func is not None or encoding.lower() not in ('utf-8', 'utf8'):
        return it.path.fresh('bytes', 'otherwise')
    return wrap('bytes', self.attrs['bytes'])


HEADERS = MCls('headers', {'to_bytes': to_bytes, 'to_ascii_bytes': lambda it, self: it.path.fresh('bytes', 'ascii')})


def content_stream(it, self):
    """(after some of the block was read: not specified)"""
    if self.attrs['content'] is None:
        s = M.new_stream(it, 'content')
        raw = self.attrs['raw_stream'].attrs['rest']
        if isinstance(raw, S) and raw.t.eq(self.attrs['block']):
            s.attrs['rest'] = wrap('bytes', at(self.attrs['rec'], 'payload'))
        self.attrs['content'] = s
        it.path.ghost['content'] = s
    return self.attrs['content']


RECORD = MCls('record', {'content_stream': content_stream})


def step(it, self):
    p = it.path
    if self.attrs['stepped'] or p.choose('no record'):
        p.derived['outcome'] = 'end'
        return False, None
    if p.choose('unreadable'):
        raise PyRaise(Obj(it.lookup_func('exceptions.ArchiveLoadFailed'), {'args': (p.fresh('str', 'reason'),)}))
    self.attrs['stepped'] = True
    f = self.attrs['file']
    rec = (term(f.attrs['name']), term(f.attrs['pos']), strval(repr(self.attrs['opts'])))
    raw = M.new_stream(it, 'block')
    block = at(rec, 'block')
    raw.attrs['rest'] = wrap('bytes', block)
    p.ghost['raw'] = raw
    http = Obj(HEADERS, {'bytes': at(rec, 'http_headers')}) if it.decide(HAS(*rec)) else None
    return True, Obj(RECORD, {'rec': rec, 'rec_headers': Obj(HEADERS, {'bytes': at(rec, 'warc_headers')}), 'http_headers': http,
                              'raw_stream': raw, 'content': None, 'block': block})


ITER = MCls('iterator', {'step': step})


class Iterate(Contract):
    """the archive iterator (the record at a position is a function of the file and the position)"""
    target = AI + '.__init__'
    props = ('C24',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Extract)

    def result(self, c, a, o):
        opts = tuple(bool(getattr(a, n)) for n in ('no_record_parse', 'verify_http', 'arc2warc', 'ensure_http_headers'))
        a.self.attrs['the_iter'] = Obj(ITER, {'file': a.fileobj, 'opts': opts, 'stepped': False})
        return None


def raw_write(it, self, b):
    self.attrs['data'] = wrap('bytes', concat(term(self.attrs['data']), term(b)))
    it.record(self, 'data')
    return None


RAW = MCls('stdout.buffer', {'write': raw_write, 'flush': M.m_none})


class Extract(Contract):
    """the parts of the record that starts at the offset, and nothing else"""
    target = EX + '.extract'
    props = ('C24',)
    call_side = False

    def __init__(self, mode):
        self.mode = mode
        self.name = '%s (%s)' % (self.target, mode)
        self.call_side = mode == 'all'

    def applies(self, c, a):
        return isinstance(c.ver.cur, Command)

    def result(self, c, a, o):
        c.path.derived.setdefault('calls', []).append((a.self.attrs['filename'], a.self.attrs['offset'], a.payload_only, a.headers_only))
        return None

    def args(self, c):
        p = c.path
        raw = Obj(RAW, {'data': c.bytes('before')})
        p.ghost['out'] = raw
        p.ghost['stdout'] = Obj(M.STDOUT, {'data': '', 'buffer': raw})
        p.ghost['on_open'] = lambda name, mode: Obj(FILE, {'name': name, 'pos': 0})
        ex = c.interp.call(c.cls(EX), [c.str('filename'), c.pick(lambda: c.int('offset', 0), lambda: c.str('offset'))], {})
        ex.attrs['READ_SIZE'] = c.int('read_size', 1)
        return {'self': ex,
                'payload_only': self.mode == 'payload', 'headers_only': self.mode == 'headers'}

    def pre(self, c, a):
        if isinstance(c.ver.cur, Extract):
            yield 'a file', And(term(a.self.attrs['filename']) != EMPTY, term(a.self.attrs['filename']) != strval('-'))

    def old(self, c, a):
        if isinstance(c.ver.cur, Command):
            return
        o = Args({'before': term(c.path.ghost['out'].attrs['data'])})
        x = a.self.attrs['offset']
        o.ok, o.n = (TRUE, term(x)) if kind(x) == 'int' else M.to_int(c.path, term(x))
        return o

    def mods(self, c, a):
        g = c.path.ghost
        return [] if isinstance(c.ver.cur, Command) else [(g['out'], 'data', None)]

    def inv(self, c, L, a, o):
        g = c.path.ghost
        out = term(g['out'].attrs['data'])
        for n in ('raw', 'content'):
            if n in g:
                rest = term(g[n].attrs['rest'])
                yield 'conserve', 'out + ' + n, lambda rest=rest: concat(out, rest)
                for m, b in L.roles('bytes'):
                    yield 'conserve', 'out + %s + %s' % (m, n), lambda b=b, rest=rest: concat(out, term(b), rest)
                    yield 'fact', '%s: nothing only at the end of %s' % (m, n), lambda b=b, rest=rest: Implies(term(b) == EMPTY, rest == EMPTY)

    def raises(self, c, a, o):
        if isinstance(c.ver.cur, Command):
            return
        out = lambda e: [('nothing is output', term(c.path.ghost['out'].attrs['data']) == o.before)]
        yield c.cls('exceptions.ArchiveLoadFailed'), TRUE, out
        yield StopIteration, z3.BoolVal(c.path.derived.get('outcome') == 'end'), out
        yield ValueError, Not(o.ok), out

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, Command):
            return
        g = c.path.ghost
        rec = (term(a.self.attrs['filename']), o.n, strval(repr(DEFAULT)))
        if self.mode == 'payload':
            want = [at(rec, 'payload')]
        else:
            want = [at(rec, 'warc_headers')]
            if c.path.decide(HAS(*rec)):
                want.append(at(rec, 'http_headers'))
            if self.mode == 'all':
                want.append(at(rec, 'block'))
        yield 'the parts asked for, and nothing else', term(g['out'].attrs['data']) == concat(o.before, *want)
        yield 'no other text', eq(g['stdout'].attrs['data'], '')



class Command(Contract):
    """the file, the offset and the mode asked for"""
    target = 'cli.extractor'
    props = ('C24',)
    call_side = False

    def args(self, c):
        return {'cmd': Obj(MCls('cmd'), {'filename': c.str('filename'), 'offset': c.str('offset'), 'payload': c.bool('payload'), 'headers': c.bool('headers')})}

    def post(self, c, a, o, r):
        calls = c.path.derived.get('calls', [])
        yield 'once', z3.BoolVal(len(calls) == 1)
        if len(calls) == 1:
            for n, x, y in zip(('file', 'offset', 'payload', 'headers'), calls[0], [a.cmd.attrs[k] for k in ('filename', 'offset', 'payload', 'headers')]):
                yield n, eq(x, y)


CONTRACTS = [Iterate(), Extract('all'), Extract('headers'), Extract('payload'), Command()]
