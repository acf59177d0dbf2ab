"""the iteration over an archive (C14, C16)

An archive is a sequence of gzip members, each with a number of records (or one plain stream of
records).  The loader reads one record or finds the end of the member (C12); the reader goes to
the next member (C02).
"""
from pyvc.verify import *
from pyvc.verify import CLASS_SHAPES
from . import c_check as K

AI = 'archiveiterator.ArchiveIterator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
setg, tf = K.setg, K.tf


def setn(it, o, name, t):
    o.attrs[name] = wrap('int', z3.simplify(t)) if z3.is_expr(t) else t
    it.record(o, name)


def put(it, o, name, v):
    o.attrs[name] = v
    it.record(o, name)


def num(o, name):
    return term(o.attrs[name])


DEC = MCls('decompressor of the archive', {})
RAW = MCls('rest of the record', {})
REC = MCls('loaded record', {})
CLASS_SHAPES[DEC.name] = lambda c: Obj(DEC)
CLASS_SHAPES[REC.name] = lambda c: Obj(REC, {'format': c.str('format'), 'raw_stream': Obj(RAW)})


def next_member(it, self):
    """(C02) goes to the next member, if there is one"""
    p, g = it.path, self.attrs['g']
    if self.attrs['decompressor'] is None:
        return False
    it.ver.obligation('no record of the member is left when the next one is begun', num(g, 'left') == 0)
    it.ver.obligation('the last record was read to its end before the next member', tf(g.attrs['settled']))
    if it.decide(Or(tf(g.attrs['plain']), tf(g.attrs['ended']))) or p.choose('last member'):
        setg(it, g, 'ended', True)
        return False
    n = p.fresh('int', 'records_of_member')
    p.assume(n.t >= 0)
    put(it, g, 'left', n)
    setn(it, g, 'read', z3.IntVal(0))
    return True


READER = MCls('archive reader', {'read_next_member': next_member, 'close_decompressor': M.m_none, 'close': M.m_none})
FILE = MCls('archive file', {'tell': lambda it, self: self.attrs['pos'], 'read': lambda it, self, n=-1: it.path.fresh('bytes', 'raw')})


class Reader(Contract):
    """the reader over the file is abstract"""
    target = 'bufferedreaders.BufferedReader.__init__'
    props = ('C14', 'C16')
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, _I)

    def result(self, c, a, o):
        return None


def mk_iterator(c, reader):
    """an iterator as the constructor makes it, over the abstract reader"""
    f = Obj(FILE, {'pos': c.int('pos', 0)})
    s = c.interp.call(c.cls(AI), [f], {})
    found = [n for n, v in s.attrs.items() if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.qual.startswith('bufferedreaders.')]
    if len(found) != 1:
        raise Unsupported('the reader of the iterator')
    s.attrs[found[0]] = reader
    s.attrs['known_format'] = c.pick(None, lambda: c.str('known_format'))
    return s, f


class _I(Contract):
    props = ('C14', 'C16')
    call_side = False
    no_frame = True


class Load(Contract):
    """reads the next record of the member, or finds its end (C12)"""
    target = 'recordloader.ArcWarcRecordLoader.parse_record_stream'
    props = ('C14', 'C16')
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Iterate)

    def result(self, c, a, o):
        it, p, g = c.interp, c.path, c.path.ghost['g']
        rd = p.ghost['reader']
        c.prove('reads from the archive', z3.BoolVal(a.stream is rd))
        c.prove('the last record was read to its end', tf(g.attrs['settled']))
        c.prove('the last record was handed out', tf(g.attrs['out']))
        line = a.__dict__.get('statusline')
        c.prove('a line that was already read is passed on, and no other', truth(line) == tf(g.attrs['pending']))
        if it.decide(num(g, 'left') == 0):
            raise PyRaise(Obj(EOFError, {'args': ()}))
        if it.decide(tf(g.attrs['plain'])):
            put(it, rd, 'decompressor', None)
        setn(it, g, 'left', num(g, 'left') - 1)
        setn(it, g, 'read', num(g, 'read') + 1)
        setg(it, g, 'pending', False)
        setg(it, g, 'settled', False)
        setg(it, g, 'out', False)
        r = CLASS_SHAPES[REC.name](c)
        p.derived['last'] = r
        return r


def truth(v):
    if v is None or v is False or v == b'' or v == '':
        return FALSE
    if isinstance(v, S):
        return term(v) != EMPTY
    return TRUE


class Iterate(_I):
    """every record is handed out once and in order; the second record of a gzip member is an error"""
    target = AI + '._iterate_records'

    def args(self, c):
        p = c.path
        g = Obj(K.GHOST, {'plain': c.bool('plain'), 'left': c.int('records', 0), 'read': 0, 'ended': False, 'pending': False, 'settled': True, 'out': True})
        p.ghost['g'] = g
        p.ghost['reader'] = rd = Obj(READER, {'g': g, 'decompressor': Obj(DEC)})
        s, f = mk_iterator(c, rd)
        return {'self': s, 'fh': f}

    def run(self, c, f, a):
        it, p, g = c.interp, c.path, c.path.ghost['g']
        s = a.self
        gen = it.call(f, [s], {})
        while True:
            ok, x = it.gen_next(gen)
            if not ok:
                return True
            c.prove('the record that was read', z3.BoolVal(x is p.derived.get('last')))
            c.prove('not a second record of a gzip member', Or(tf(g.attrs['plain']), num(g, 'read') == 1))
            c.prove('handed out once', Not(tf(g.attrs['out'])))
            setg(it, g, 'out', True)
            if c.choose('asks for the offset'):
                c.call(s, 'get_record_offset')
            if c.choose('asks for the length'):
                c.call(s, 'get_record_length')

    def inv(self, c, L, a, o):
        g = c.path.ghost['g']
        at = g.attrs
        s = a.self.attrs
        rd = c.path.ghost['reader']
        D = z3.BoolVal(rd.attrs['decompressor'] is not None)
        left, read = num(g, 'left'), num(g, 'read')
        T = lambda n: tf(at[n])
        yield 'fact', 'counts', lambda: And(left >= 0, read >= 0)
        yield 'fact', 'one record of a member', lambda: Implies(D, read <= 1)
        yield 'fact', 'handed out', lambda: T('out')
        yield 'fact', 'read to its end', lambda: T('settled')
        yield 'fact', 'plain files are recognized by the first record', lambda: And(Implies(Not(D), T('plain')), Implies(And(D, T('plain')), read == 0))
        yield 'fact', 'line that was read', lambda: T('pending') == truth(s['next_line'])
        yield 'fact', 'line of a further record', lambda: Implies(T('pending'), And(left > 0, read >= 1))
        yield 'fact', 'record state', lambda: z3.BoolVal(s['record'] is None or s['member_info'] is not None)
        yield 'fact', 'further records have a line', lambda: Implies(And(read >= 1, left > 0), T('pending'))
        for n, v in L.roles('bool'):
            b = tf(v)
            yield 'fact', n + ': new member', lambda b=b: Implies(And(D, Not(b)), read == 0)
            yield 'fact', n + ': second record', lambda b=b: Implies(b, And(D, read >= 1))
            yield 'fact', n + ': or the end', lambda b=b: Implies(And(b, left == 0), T('ended'))

    def raises(self, c, a, o):
        g = c.path.ghost['g']
        yield c.cls('exceptions.ArchiveLoadFailed'), And(Not(tf(g.attrs['plain'])), num(g, 'read') >= 2), None

    def post(self, c, a, o, r):
        g = c.path.ghost['g']
        yield 'no record is left', num(g, 'left') == 0
        yield 'no member is left', Or(tf(g.attrs['plain']), tf(g.attrs['ended']))
        yield 'every record read was handed out', tf(g.attrs['out'])


# ---- the end of a record
def moved(it, rd):
    """how much of what was read from the file is not used yet"""
    x = it.path.fresh('int', 'unused')
    it.path.assume(x.t >= 0)
    put(it, rd, 'unused', x)


def lines_readline(it, self, n=-1):
    moved(it, self)
    return M.abs_readline(it, self, n)


LINES = MCls('lines of a member', {'readline': lines_readline, 'rem_length': lambda it, self: self.attrs['unused'], 'read_next_member': M.m_none})
AT = MCls('file of a member', {'tell': lambda it, self: wrap('int', z3.simplify(num(self.attrs['of'], 'pos') + num(self.attrs['of'], 'unused')))})


def mk_at_end(c):
    """an iterator in a member or plain file, somewhere; pos is the place in the file of what is read next
    (of a plain file)"""
    rd = Obj(LINES, {'rest': c.bytes('member'), 'pos': c.int('pos', 0), 'unused': c.int('unused', 0), 'decompressor': c.pick(None, lambda: Obj(DEC))})
    s, f = mk_iterator(c, rd)
    names = [n for n, v in s.attrs.items() if v is f]
    fh = Obj(AT, {'of': rd})
    for n in names:
        s.attrs[n] = fh
    return s, rd


class BlankLines(_I):
    """skips blank lines (and a first line that should be blank), nothing else"""
    target = AI + '._consume_blanklines'
    call_side = True

    def args(self, c):
        p = c.path
        s, rd = mk_at_end(c)
        g = Obj(K.GHOST, {'n': 0, 'content': False, 'skipped': False, 'line': b''})
        p.ghost.update(g=g, reader=rd, stderr=Obj(M.STDOUT, {'data': ''}))

        def line(st, rest, n, r, q):
            it = c.interp
            setg(it, g, 'skipped', Or(tf(g.attrs['skipped']), tf(g.attrs['content'])))
            t = term(it.call(it.getattr(wrap('bytes', r), 'rstrip'), [], {}))
            setg(it, g, 'content', And(num(g, 'n') > 0, t != EMPTY))
            put(it, g, 'line', wrap('bytes', r))
            setn(it, g, 'n', num(g, 'n') + 1)
        p.ghost['on_readline'] = line
        return {'self': s}

    def old(self, c, a):
        if isinstance(c.ver.cur, BlankLines):
            return term(c.path.ghost['reader'].attrs['rest'])

    def applies(self, c, a):
        return isinstance(c.ver.cur, ReadToEnd)

    def inv(self, c, L, a, o):
        g, rd = c.path.ghost['g'], c.path.ghost['reader']
        yield 'fact', 'nothing with content is skipped', lambda: And(Not(tf(g.attrs['skipped'])), Not(tf(g.attrs['content'])))
        yield 'fact', 'lines', lambda: num(g, 'n') >= 0
        for n, v in L.roles('int'):
            yield 'fact', n + ' = skipped', lambda v=v: term(v) + z3.Length(term(rd.attrs['rest'])) == z3.Length(o)
        for n, v in L.roles('bool'):
            yield 'fact', n + ' = first', lambda v=v: tf(v) == (num(g, 'n') == 0)
            yield 'fact', n + ' = not first', lambda v=v: tf(v) == (num(g, 'n') != 0)

    def result(self, c, a, o):
        it, p, g, rd = c.interp, c.path, c.path.ghost['g'], c.path.ghost['reader']
        c.prove('the content was read before the lines after it', term(rd.attrs['record'].attrs['rest']) == EMPTY)
        c.prove('once', Not(tf(g.attrs['lines'])))
        n = c.int('blank', 0)
        line = c.pick(None, lambda: c.bytes('line'))
        put(it, g, 'lines', True)
        put(it, g, 'next', line)
        put(it, g, 'blank', n)
        put(it, g, 'end', rd.attrs['pos'])
        k = 0
        if line is not None:
            c.assume(line.t != EMPTY)
            k = z3.Length(line.t)
        if rd.attrs['decompressor'] is None:
            setn(it, rd, 'pos', num(rd, 'pos') + n.t + k)
        else:
            x = c.int('pos', 0)
            c.assume(x.t >= num(rd, 'pos'))
            put(it, rd, 'pos', x)
        moved(it, rd)
        return (line, n)

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, BlankLines):
            return
        g, rd = c.path.ghost['g'], c.path.ghost['reader']
        rest = z3.Length(term(rd.attrs['rest']))
        ok = isinstance(r, tuple) and len(r) == 2
        yield 'line and size', z3.BoolVal(ok)
        if not ok:
            return
        line, n = r
        yield 'nothing with content is skipped', Not(tf(g.attrs['skipped']))
        if line is None:
            yield 'the end', And(rest == 0, Not(tf(g.attrs['content'])))
            yield 'size of all', term(n) == z3.Length(o)
        else:
            yield 'the line after the blank lines', And(eq(line, g.attrs['line']), term(line) != EMPTY, tf(g.attrs['content']))
            yield 'size of the blank lines', term(n) + z3.Length(term(line)) + rest == z3.Length(o)


def raw_read(it, self, n=-1):
    rd = self.attrs['reader']
    r = M.abs_read(it, self, n)
    x = it.path.fresh('int', 'pos')
    it.path.assume(x.t >= num(rd, 'pos'))
    put(it, rd, 'pos', x)
    moved(it, rd)
    return r


REST = MCls('content of the record', {'read': raw_read})


class ReadToEnd(_I):
    """goes to the end of the record; its offset and length"""
    target = AI + '.read_to_end'
    call_side = True

    def args(self, c):
        p = c.path
        s, rd = mk_at_end(c)
        p.ghost.update(reader=rd, g=Obj(K.GHOST, {'lines': False, 'next': None, 'blank': 0, 'end': 0}))
        rec = Obj(REST, {'rest': c.bytes('content'), 'reader': rd})
        rd.attrs['record'] = rec
        s.attrs['record'] = c.pick(None, lambda: Obj(REC, {'format': c.str('format'), 'raw_stream': rec}))
        s.attrs['member_info'] = c.pick(None, lambda: (c.int('start', 0), c.int('length', 0)))
        s.attrs['next_line'] = c.pick(None, lambda: c.bytes('line'))
        s.attrs['offset'] = c.int('offset', 0)
        return {'self': s}

    def old(self, c, a):
        return dict(a.self.attrs)

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, Iterate):
            return
        g, rd, s = c.path.ghost['g'], c.path.ghost['reader'], a.self.attrs
        if o['record'] is None or o['member_info'] is not None:
            for n in ('member_info', 'next_line', 'offset', 'record'):
                yield 'nothing to do: %s unchanged' % n, z3.BoolVal(s[n] is o[n])
            yield 'nothing is read', Not(tf(g.attrs['lines']))
            return
        at = g.attrs
        yield 'the content and the lines after it are read', tf(at['lines'])
        yield 'the line of the next record', Not(truth(s['next_line'])) if at['next'] is None else eq(s['next_line'], at['next']) if s['next_line'] is not None else FALSE
        m = s['member_info']
        ok = isinstance(m, tuple) and len(m) == 2
        yield 'offset and length', z3.BoolVal(ok)
        if not ok:
            return
        k = 0 if at['next'] is None else z3.Length(term(at['next']))
        yield 'offset of the record', eq(m[0], o['offset'])
        yield 'offset of what follows', term(s['offset']) == num(rd, 'pos') - k
        if rd.attrs['decompressor'] is None:
            yield 'length up to the end of the content', term(m[1]) == num(g, 'end') - term(o['offset'])
        else:
            yield 'length up to what follows', term(m[1]) == term(s['offset']) - term(o['offset'])

    def applies(self, c, a):
        return isinstance(c.ver.cur, Iterate)

    def result(self, c, a, o):
        if not isinstance(c.ver.cur, Iterate):
            return None
        it, g, s = c.interp, c.path.ghost['g'], a.self
        if s.attrs['record'] is None or s.attrs['member_info'] is not None:
            return None
        more = it.decide(num(g, 'left') > 0)
        if more:
            line = c.bytes('line')
            c.assume(line.t != EMPTY)
        else:
            line = None
        put(it, s, 'next_line', line)
        setg(it, g, 'pending', more)
        setg(it, g, 'settled', True)
        put(it, s, 'offset', c.int('offset', 0))
        put(it, s, 'member_info', (c.int('start', 0), c.int('length', 0)))
        return None


CONTRACTS = [Reader(), Load(), Iterate(), ReadToEnd(), BlankLines()]
