"""the recompress command (C23)

Over an abstract archive iterator and the contract of write_record (C08): every record that is
read is written, once and in order, gzip compressed, to the output; a file that is not compressed
per record is decompressed as a whole and read again; what cannot be read ends with status 1.
"""
from pyvc.verify import *
from . import c_check as K, c_index as X

RC = 'recompressor.Recompressor'
AI = 'archiveiterator.ArchiveIterator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
SS, II = z3.StringSort(), z3.IntSort()
PLAIN = M.U('decompressed', SS, II, SS)
DATA = M.U('file_data', SS, II, SS)
WRITTEN = M.U('written', II, SS)


def seek(it, self, n, whence=0):
    if whence != 0:
        raise Unsupported('seek whence')
    self.attrs['pos'] = n
    it.record(self, 'pos')
    return n


def file_write(it, self, b):
    self.attrs['data'] = wrap('bytes', concat(term(self.attrs['data']), term(b)))
    it.record(self, 'data')
    self.attrs['pos'] = wrap('int', z3.simplify(term(self.attrs['pos']) + length(b)))
    it.record(self, 'pos')
    return wrap('int', length(b))


def length(b):
    return z3.Length(term(b))


INPUT = MCls('input file', {'seek': seek, 'tell': lambda it, self: self.attrs['pos'], 'close': M.m_none,
                            '__enter__': lambda it, self: self, '__exit__': lambda it, self, *a: None})
FILE = MCls('file', {'write': file_write, 'seek': seek, 'tell': lambda it, self: self.attrs['pos'], 'flush': M.m_none, 'close': M.m_none,
                     '__enter__': lambda it, self: self, '__exit__': lambda it, self, *a: None})


def mk_input(c, label='filename', pos=0):
    return Obj(INPUT, {'name': c.str(label), 'pos': pos})


def mk_rc(c):
    return c.interp.call(c.cls(RC), [c.str('filename'), c.str('output'), c.bool('verbose')], {})


def step(it, self):
    p = it.path
    g = self.attrs['g']
    if p.choose('no more records'):
        K.setg(it, g, 'ended', True)
        return False, None
    if p.choose('unreadable'):
        fail(it)
    i = p.fresh('int', 'record').t
    g.attrs['want'] = wrap('bytes', concat(term(g.attrs['want']), WRITTEN(i)))
    g.attrs['n'] = wrap('int', z3.simplify(term(g.attrs['n']) + 1))
    it.record(g, 'want')
    it.record(g, 'n')
    rec = {'rec_type': p.fresh('str', 'type'), 'rec_headers': X.mk_headers('warc'), 'http_headers': None if p.choose('no HTTP headers') else X.mk_headers('http')}
    return True, Obj(X.REC, dict(rec, id=i, read=rec))


def fail(it):
    p = it.path
    if p.choose('not an archive'):
        raise PyRaise(Obj(it.lookup_func('exceptions.ArchiveLoadFailed'), {'args': (p.fresh('str', 'reason'),)}))
    it.throw(RuntimeError, 'something else')


STEPS = MCls('records', {'step': step})


class Iterate(Contract):
    """the archive iterator (its records are abstract)"""
    target = AI + '.__init__'
    props = ('C23',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Load)

    def result(self, c, a, o):
        g = c.path.ghost['g']
        c.prove('the input asked for', z3.BoolVal(a.fileobj is g.attrs['input']))
        c.prove('from where it stands', eq(a.fileobj.attrs['pos'], g.attrs['pos']) if a.fileobj is g.attrs['input'] else FALSE)
        c.prove('ARC records are converted', z3.BoolVal(a.arc2warc is True))
        c.prove('HTTP headers of any protocol are accepted', z3.BoolVal(a.verify_http is False))
        c.prove('digests do not stop it', z3.BoolVal(a.check_digests is False or a.check_digests is True or a.check_digests == 'log'))
        a.self.attrs['the_iter'] = Obj(STEPS, {'g': g})
        return None


class Write(Contract):
    """a record is written as one gzip member (C08)"""
    target = 'warcwriter.WARCWriter.write_record'
    props = ('C23',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Load)

    def result(self, c, a, o):
        out = a.self.attrs['out']
        ok = isinstance(out, Obj) and out.cls is FILE
        c.prove('one gzip member per record', z3.BoolVal(a.self.attrs.get('gzip') is True))
        c.prove('to the output', z3.BoolVal(ok))
        rec = a.record.attrs
        c.prove('the record as it was read', z3.BoolVal(all(rec.get(k) is v for k, v in rec['read'].items())))
        if ok:
            file_write(c.interp, out, wrap('bytes', WRITTEN(a.record.attrs['id'])))
        return None


class Load(Contract):
    """every record is written, once and in order; their number"""
    target = RC + '.load_and_write'
    props = ('C23',)

    def args(self, c):
        p = c.path
        d = {'self': mk_rc(c), 'stream': mk_input(c, pos=c.int('pos', 0)), 'output': c.str('output')}
        p.ghost['g'] = Obj(K.GHOST, {'want': b'', 'n': 0, 'ended': False, 'input': d['stream'], 'pos': d['stream'].attrs['pos']})

        def opened(name, mode):
            c.prove('the output asked for', And(eq(name, d['output']), z3.BoolVal(mode == 'wb')))
            p.ghost['out'] = f = Obj(FILE, {'data': b'', 'pos': 0, 'name': name})
            return f
        p.ghost['on_open'] = opened
        return d

    def pre(self, c, a):
        if isinstance(c.ver.cur, Load):
            yield 'a file', And(term(a.output) != EMPTY, term(a.output) != strval('-'))

    def applies(self, c, a):
        return isinstance(c.ver.cur, (Again, Recompress))

    def mods(self, c, a):
        return [(c.path.ghost['g'], '**', None)] if isinstance(c.ver.cur, Load) else []

    def inv(self, c, L, a, o):
        g = c.path.ghost['g'].attrs
        if 'out' in c.path.ghost:
            yield 'fact', 'written so far', lambda: term(c.path.ghost['out'].attrs['data']) == term(g['want'])
        for n, v in L.roles('int'):
            yield 'fact', n + ' = number of records', lambda v=v: term(v) == term(g['n'])
            yield 'fact', n + ' = number of the next record', lambda v=v: term(v) == term(g['n']) + 1

    def raises(self, c, a, o):
        if isinstance(c.ver.cur, Load):
            yield c.cls('exceptions.ArchiveLoadFailed'), TRUE, None
            yield RuntimeError, TRUE, None

    def result(self, c, a, o):
        log = c.path.derived.setdefault('loads', [])
        log.append((a.stream, a.stream.attrs.get('buf'), a.stream.attrs['pos'], a.output))
        if c.path.choose('cannot be read'):
            fail(c.interp)
        c.path.derived['count'] = r = c.int('count', 0)
        return r

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Load):
            return
        g = c.path.ghost['g'].attrs
        yield 'all records', K.tf(g['ended'])
        yield 'written once and in order', term(c.path.ghost['out'].attrs['data']) == term(g['want']) if 'out' in c.path.ghost else FALSE
        yield 'their number', term(r) == term(g['n']) if kind(r) == 'int' else FALSE


# ---- a file that is one gzip stream
def plain_of(it, self):
    """what is still to be read of the decompressed data"""
    it.ver.obligation('read from the start of the file', eq(self.attrs['stream'].attrs['pos'], 0))
    return self.attrs['src'].attrs['rest']


def plain_read(it, self, n=-1):
    plain_of(it, self)
    r = M.abs_read(it, self.attrs['src'], n)
    if kind(n) == 'int':
        it.path.assume(Or(term(n) < 0, length(r) == term(n), term(self.attrs['src'].attrs['rest']) == EMPTY))
    return r


DECOMP = MCls('decompressed', {'read': plain_read})


class Decompress(Contract):
    """what is read from it is the decompressed data of all members (C02)"""
    target = 'bufferedreaders.BufferedReader.__init__'
    props = ('C23',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Again)

    def result(self, c, a, o):
        ok = a.read_all_members is True and a.decomp_type == 'gzip' and a.starting_data is None
        f = PLAIN if ok else M.U('decompressed_member', SS, II, SS)
        src = M.new_stream(c.interp, 'plain')
        src.attrs['rest'] = wrap('bytes', f(term(a.stream.attrs['name']), z3.IntVal(0)))
        c.path.ghost['src'] = src
        a.self.attrs['source'] = Obj(DECOMP, {'stream': a.stream, 'src': src})
        return None


class DecompressRead(Contract):
    target = 'bufferedreaders.BufferedReader.read'
    props = ('C23',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Again)

    def result(self, c, a, o):
        return plain_read(c.interp, a.self.attrs['source'], -1 if a.length is None else a.length)


class Again(Contract):
    """the decompressed data of the whole file is read as an archive"""
    target = RC + '.decompress_and_recompress'
    props = ('C23',)

    def args(self, c):
        p = c.path

        def copy(src, dst):
            x = src.attrs['source']
            c.call(dst, 'write', plain_of(c.interp, x))
            x.attrs['src'].attrs['rest'] = b''
            c.interp.record(x.attrs['src'], 'rest')
        p.ghost['on_copy'] = copy
        return {'self': mk_rc(c), 'stream': mk_input(c, pos=c.int('pos', 0)), 'output': c.str('output')}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Recompress)

    def mods(self, c, a):
        return [(a.stream, 'pos', lambda c, ob: c.int('pos', 0))]

    def raises(self, c, a, o):
        if isinstance(c.ver.cur, Again):
            yield c.cls('exceptions.ArchiveLoadFailed'), TRUE, None
            yield RuntimeError, TRUE, None

    def inv(self, c, L, a, o):
        src = c.path.ghost.get('src')
        if src is not None:
            for q in c.interp.access_paths().values():
                x = q[0]
                if isinstance(x, Obj) and x.cls is M.TMP:
                    yield 'fact', 'written to at its end', lambda x=x: term(x.attrs['pos']) == z3.Length(term(x.attrs['buf']))
                    for n, b in [('', b'')] + L.roles('bytes'):
                        yield 'conserve', 'copied + %s + rest' % n, lambda x=x, b=b: concat(term(x.attrs['buf']), term(b), term(src.attrs['rest']))
                        yield 'fact', '%s: nothing only at the end' % n, lambda b=b: Implies(term(b) == EMPTY, term(src.attrs['rest']) == EMPTY)

    def result(self, c, a, o):
        c.path.derived.setdefault('again', []).append((a.stream, a.output))
        if c.path.choose('cannot be read at all'):
            fail(c.interp)
        c.path.derived['count'] = r = c.int('count', 0)
        return r

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Again):
            return
        loads = c.path.derived.get('loads', [])
        yield 'read once', z3.BoolVal(len(loads) == 1)
        if len(loads) == 1:
            s, data, pos, out = loads[0]
            yield 'all of the decompressed data', term(data) == PLAIN(term(a.stream.attrs['name']), z3.IntVal(0)) if data is not None else FALSE
            yield 'from its start', eq(pos, 0)
            yield 'to the output', eq(out, a.output)
            yield 'the number of records', eq(r, c.path.derived['count'])


class Main(Contract):
    """(only prints)"""
    target = 'cli.main'
    props = ('C23',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Recompress)


class Recompress(Contract):
    """reports the number of records; ends with status 1 if the file cannot be read"""
    target = RC + '.recompress'
    props = ('C23',)

    def applies(self, c, a):
        return isinstance(c.ver.cur, Command)

    def result(self, c, a, o):
        c.path.derived.setdefault('calls', []).append(a.self)
        return None

    def args(self, c):
        p = c.path
        rc = mk_rc(c)
        p.ghost['g'] = g = Obj(K.GHOST, {'said': False})
        p.ghost['stdout'] = Obj(M.STDOUT, {'data': ''})

        def printed(parts):
            n = p.derived.get('count')
            if n is not None:
                t = term(c.interp.to_str(n))
                K.setg(c.interp, g, 'said', Or(K.tf(g.attrs['said']), TRUE if any(x.eq(t) for x in parts) else z3.Contains(concat(*parts), t)))
        p.ghost['on_print'] = printed
        p.ghost['on_open'] = lambda name, mode: Obj(INPUT, {'name': name, 'pos': 0})
        return {'self': rc}

    def pre(self, c, a):
        if isinstance(c.ver.cur, Command):
            return
        yield 'a file', And(term(a.self.attrs['filename']) != EMPTY, term(a.self.attrs['filename']) != strval('-'))

    def mods(self, c, a):
        return [] if isinstance(c.ver.cur, Command) else [(c.path.ghost['g'], '**', None)]

    def raises(self, c, a, o):
        if isinstance(c.ver.cur, Command):
            return
        d = c.path.derived
        yield SystemExit, z3.BoolVal(len(d.get('again', ())) == 1 and 'count' not in d), \
            lambda e: [('status 1', eq(e.attrs['args'][0], 1))]

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, Command):
            return
        d = c.path.derived
        loads, again = d.get('loads', []), d.get('again', [])
        yield 'the file was read', z3.BoolVal('count' in d and len(loads) == 1 and len(again) <= 1)
        if len(loads) == 1:
            s, data, pos, out = loads[0]
            yield 'from its start', And(eq(pos, 0), eq(s.attrs['name'], a.self.attrs['filename']))
            for t, x in [('output', out)] + [('output again', y[1]) for y in again]:
                yield t, eq(x, a.self.attrs['output'])
            yield 'the same file again', z3.BoolVal(all(y[0] is s for y in again))
        yield 'the number of records is reported', K.tf(c.path.ghost['g'].attrs['said'])


class Command(Contract):
    """the file and the output asked for"""
    target = 'cli.recompressor'
    props = ('C23',)
    call_side = False

    def args(self, c):
        return {'cmd': Obj(MCls('cmd'), {'filename': c.str('filename'), 'output': c.str('output'), 'verbose': c.bool('verbose')})}

    def post(self, c, a, o, r):
        calls = c.path.derived.get('calls', [])
        yield 'once', z3.BoolVal(len(calls) == 1)
        if len(calls) == 1:
            yield 'file', eq(calls[0].attrs['filename'], a.cmd.attrs['filename'])
            yield 'output', eq(calls[0].attrs['output'], a.cmd.attrs['output'])


CONTRACTS = [Iterate(), Write(), Load(), Decompress(), DecompressRead(), Again(), Main(), Recompress(), Command()]
