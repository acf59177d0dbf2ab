"""the index command (C21)

The value of a field for a record (VAL, with HAS: whether there is one) is shown for get_field.
The dictionary of a line is the history of what was stored in it; its JSON text is a function of that history.
"""
from pyvc.verify import *
from . import c_check as K

IX = 'indexer.Indexer'
AI = 'archiveiterator.ArchiveIterator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
SS, II, BB = z3.StringSort(), z3.IntSort(), z3.BoolSort()
HAS, VAL = M.U('field_has', SS, BB), M.U('field_value', SS, SS)
f_pair = M.U('json_pair', SS, SS, SS)
f_json = M.U('json_text', SS, SS)
LINE = M.U('index_line', II, SS, SS)
STORED = Hom('stored', SS, EMPTY, lambda ps, base=None: concat(*ps) if ps else EMPTY, lambda x: f_pair(term(x[0]), term(x[1])))
WANTED = Hom('wanted', SS, EMPTY, lambda ps, base=None: concat(*ps) if ps else EMPTY, lambda x: z3.If(HAS(term(x)), f_pair(term(x), VAL(term(x))), EMPTY))
ANYHTTP = Hom('any_http', BB, FALSE, lambda ps, base=None: Or(*ps), lambda x: z3.PrefixOf(strval('http:'), term(x)))


def d_set(it, self, k, v):
    if kind(k) != 'str' or kind(v) != 'str':
        raise Unsupported('store')
    it.call(it.getattr(self.attrs['h'], 'append'), [(k, v)], {})


HIST = MCls('ordered dictionary', {'__setitem__': d_set, 'json': lambda it, self: wrap('str', f_json(it.path.hom(STORED, self.attrs['h'].segs)))})


def out_write(it, self, s):
    self.attrs['data'] = wrap('str', concat(term(self.attrs['data']), term(s)))
    it.record(self, 'data')


OUT = MCls('text file', {'write': out_write, 'flush': M.m_none, '__enter__': lambda it, self: self, '__exit__': lambda it, self, *a: None})


def hget(it, self, name, default=None):
    h = self.attrs['h']
    key = term(it.call(it.getattr(name, 'lower'), [], {}))
    if it.decide(self.attrs['has'](key)):
        return wrap('str', self.attrs['val'](key))
    return default


def mk_headers(tag):
    has, val = M.U(tag + '_has', SS, BB), M.U(tag + '_value', SS, SS)
    return Obj(HDRS, {'h': tag, 'has': has, 'val': val, 'status': z3.String(tag + '_status')})


def mk_record(c, **kw):
    return Obj(REC, dict(dict(rec_type=c.str('type'), rec_headers=mk_headers('warc'), http_headers=c.pick(None, lambda: mk_headers('http'))), **kw))


HDRS = MCls('headers', {'get_header': hget, 'get': hget, 'get_statuscode': lambda it, self: wrap('str', self.attrs['status'])})
REC = MCls('record', {})
ITER = MCls('iterator', {})


class Offset(Contract):
    target = AI + '.get_record_offset'
    props = ('C21',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, Field)

    def result(self, c, a, o):
        return a.self.attrs['g_offset']


class Length(Offset):
    target = AI + '.get_record_length'

    def result(self, c, a, o):
        return a.self.attrs['g_length']


class Field(Contract):
    """the value of a field"""
    target = IX + '.get_field'
    props = ('C21',)

    def args(self, c):
        it = c.obj(AI)
        it.attrs['g_offset'], it.attrs['g_length'] = c.int('offset', 0), c.int('length', 0)
        rec = mk_record(c)
        ix = c.interp.call(c.cls(IX), [VList(), VList(), None], {})
        return {'self': ix, 'record': rec, 'name': c.str('name'), 'it': it, 'filename': c.str('filename')}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Entry)

    def result(self, c, a, o):
        g = c.path.derived['entry']
        ok = a.record is g.record and a.it is g.it and a.filename is g.filename
        c.prove('the values of this record', z3.BoolVal(ok))
        n = term(a.name)
        return wrap('str', VAL(n)) if c.path.decide(HAS(n)) else None

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, Field):
            return
        p = c.path
        n = term(a.name)
        rec = a.record.attrs
        want = None
        if p.decide(n == strval('offset')):
            want = a.it.attrs['g_offset']
            want = term(c.interp.to_str(want))
        elif p.decide(n == strval('length')):
            want = term(c.interp.to_str(a.it.attrs['g_length']))
        elif p.decide(n == strval('filename')):
            want = M.U('basename', SS, SS)(term(a.filename))
        elif p.decide(n == strval('http:status')):
            if rec['http_headers'] is not None and p.decide(Or(term(rec['rec_type']) == strval('response'), term(rec['rec_type']) == strval('revisit'))):
                want = rec['http_headers'].attrs['status']
        elif p.decide(z3.PrefixOf(strval('http:'), n)):
            if rec['http_headers'] is not None:
                x = hget(c.interp, rec['http_headers'], wrap('str', M.f_drop(n, z3.IntVal(5))))
                want = None if x is None else term(x)
        else:
            x = hget(c.interp, rec['rec_headers'], a.name)
            want = None if x is None else term(x)
        if want is None:
            yield 'no value', z3.BoolVal(r is None)
        else:
            yield 'the value', z3.BoolVal(False) if kind(r) != 'str' else term(r) == want


def fields_shape(c):
    return c.list('str', 'fields')


def mk_indexer(c):
    ix = c.interp.call(c.cls(IX), [VList(), c.list('str', 'inputs'), c.str('output')], {})
    ix.attrs['fields'] = fields_shape(c)
    ix.attrs['record_parse'] = wrap('bool', c.path.hom(ANYHTTP, ix.attrs['fields'].segs))
    return ix


class New(Contract):
    """HTTP headers are parsed if a field asks for them"""
    target = IX + '.__init__'
    props = ('C21',)
    call_side = False

    def args(self, c):
        return {'self': c.obj(IX), 'fields': fields_shape(c), 'inputs': c.list('str', 'inputs'), 'output': c.str('output')}

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def inv(self, c, L, a, o):
        if L.done is not None:
            yield 'fact', 'none so far', lambda: Not(c.path.hom(ANYHTTP, L.done))

    def post(self, c, a, o, r):
        x = a.self.attrs
        p = c.path
        yield 'fields', K.rope(c, x.get('fields'), a.fields)
        yield 'inputs', K.rope(c, x.get('inputs'), a.inputs)
        yield 'output', eq(x.get('output'), a.output)
        yield 'HTTP headers wanted', z3.BoolVal(False) if kind(x.get('record_parse')) != 'bool' else K.tf(x['record_parse']) == p.hom(ANYHTTP, a.fields.segs)


class Entry(Contract):
    """one line with the fields asked for, in order, that have a value"""
    target = IX + '.process_index_entry'
    props = ('C21',)

    def args(self, c):
        p = c.path
        p.ghost['new_dict'] = lambda: Obj(HIST, {'h': VList()})
        d = {'self': mk_indexer(c), 'it': Obj(ITER), 'record': mk_record(c), 'filename': c.str('filename'), 'output': Obj(OUT, {'data': c.str('before')})}
        p.derived['entry'] = Args(d)
        return d

    def applies(self, c, a):
        return isinstance(c.ver.cur, One)

    def old(self, c, a):
        return term(a.output.attrs['data'])

    def mods(self, c, a):
        return [(a.output, 'data', None)]

    def inv(self, c, L, a, o):
        if L.done is None:
            return
        for q in c.interp.access_paths().values():
            x = q[0]
            if isinstance(x, Obj) and x.cls is HIST:
                yield 'fact', 'stored ' + q[1], lambda x=x: c.path.hom(STORED, x.attrs['h'].segs) == c.path.hom(WANTED, L.done)

    def result(self, c, a, o):
        g = c.path.ghost['g']
        c.prove('the record at hand', z3.BoolVal(a.record is g.attrs['record'] and a.it is not None))
        a.output.attrs['data'] = wrap('str', concat(o, LINE(a.record.attrs['id'], term(a.filename))))
        return None

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, Entry):
            w = c.path.hom(WANTED, a.self.attrs['fields'].segs)
            yield 'one line', term(a.output.attrs['data']) == concat(o, f_json(w), strval('\n'))


def step(it, self):
    p = it.path
    g = self.attrs['g']
    if p.choose('no more records'):
        K.setg(it, g, 'ended', True)
        return False, None
    if p.choose('unreadable'):
        raise PyRaise(Obj(it.lookup_func('exceptions.ArchiveLoadFailed'), {'args': (p.fresh('str', 'reason'),)}))
    i = p.fresh('int', 'record').t
    rec = mk_record(it.ver.ctx, id=i)
    g.attrs['record'] = rec
    g.attrs['want'] = wrap('str', concat(term(g.attrs['want']), LINE(i, term(g.attrs['filename']))))
    it.record(g, 'want')
    return True, rec


STEPS = MCls('records', {'step': step})


class Iterate(Contract):
    """the archive iterator (its records are abstract)"""
    target = AI + '.__init__'
    props = ('C21',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, One)

    def result(self, c, a, o):
        g = c.path.ghost['g']
        c.prove('the input asked for', z3.BoolVal(a.fileobj is g.attrs['input']))
        c.prove('ARC records are read as WARC', z3.BoolVal(a.arc2warc is True))
        ix = g.attrs['indexer']
        c.prove('HTTP headers are parsed where a field asks for them',
                Implies(c.path.hom(ANYHTTP, ix.attrs['fields'].segs), Not(K.tf(a.no_record_parse))))
        a.self.attrs['the_iter'] = Obj(STEPS, {'g': g})
        return None


class One(Contract):
    """one line for each record, in order"""
    target = IX + '.process_one'
    props = ('C21',)

    def args(self, c):
        p = c.path
        ix = mk_indexer(c)
        d = {'self': ix, 'input_': Obj(K.FILE, {'name': 'x'}), 'output': Obj(OUT, {'data': c.str('before')}), 'filename': c.str('filename')}
        p.ghost['g'] = Obj(K.GHOST, {'want': d['output'].attrs['data'], 'ended': False, 'filename': d['filename'], 'input': d['input_'], 'indexer': ix, 'record': None})
        return d

    def applies(self, c, a):
        return isinstance(c.ver.cur, All)

    def mods(self, c, a):
        return [(a.output, 'data', None), (c.path.ghost['g'], '**', None)] if isinstance(c.ver.cur, One) else []

    def inv(self, c, L, a, o):
        if isinstance(c.ver.cur, One):
            yield 'fact', 'lines so far', lambda: term(a.output.attrs['data']) == term(c.path.ghost['g'].attrs['want'])

    def raises(self, c, a, o):
        if isinstance(c.ver.cur, One):
            yield c.cls('exceptions.ArchiveLoadFailed'), TRUE, lambda e: [('lines of the records before', term(a.output.attrs['data']) == term(c.path.ghost['g'].attrs['want']))]

    def result(self, c, a, o):
        g = c.path.ghost['run']
        ok = isinstance(a.input_, Obj) and a.input_.cls is K.FILE and a.output is g.attrs['out']
        c.prove('the file of this name, to the output', Or(eq(a.input_.attrs['name'], a.filename), And(eq(a.input_.attrs['name'], '-'), term(a.filename) == EMPTY)) if ok else FALSE)
        c.interp.call(c.interp.getattr(g.attrs['files'], 'append'), [a.filename], {})
        return None

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, One):
            g = c.path.ghost['g'].attrs
            yield 'all records', K.tf(g['ended'])
            yield 'their lines and nothing else', term(a.output.attrs['data']) == term(g['want'])


class All(Contract):
    """the lines of each input, in order"""
    target = IX + '.process_all'
    props = ('C21',)

    def applies(self, c, a):
        return isinstance(c.ver.cur, Command)

    def result(self, c, a, o):
        c.path.derived.setdefault('calls', []).append(a.self)
        return None

    def args(self, c):
        p = c.path
        ix = mk_indexer(c)
        out = Obj(OUT, {'data': '', 'name': ix.attrs['output']})
        stdin = Obj(K.FILE, {'name': '-'})
        p.ghost['run'] = Obj(K.GHOST, {'files': VList(), 'out': out})
        p.ghost['stdout'] = out
        p.ghost['stdin'] = Obj(K.FILE, {'name': '-', 'buffer': stdin})

        def opened(name, mode):
            if mode in ('wt', 'w'):
                c.prove('the output asked for', eq(name, ix.attrs['output']))
                return out
            return Obj(K.FILE, {'name': name})
        p.ghost['on_open'] = opened
        return {'self': ix}

    def old(self, c, a):
        return None if isinstance(c.ver.cur, Command) else VList(list(a.self.attrs['inputs'].segs))

    def mods(self, c, a):
        if isinstance(c.ver.cur, Command):
            return []
        g = c.path.ghost['run']
        return [(g, '**', None), (g.attrs['files'], '*', None)]

    def inv(self, c, L, a, o):
        if L.done is not None:
            yield 'list', 'done so far', lambda: (c.path.ghost['run'].attrs['files'], L.done)

    def post(self, c, a, o, r):
        if isinstance(c.ver.cur, Command):
            return
        g = c.path.ghost['run'].attrs
        yield 'all inputs, in order', K.rope(c, g['files'], o)
        yield 'nothing else is written', eq(g['out'].attrs['data'], '')



class Command(Contract):
    """the fields, inputs and output asked for"""
    target = 'cli.indexer'
    props = ('C21',)
    call_side = False

    def args(self, c):
        return {'cmd': Obj(MCls('cmd'), {'fields': fields_shape(c), 'inputs': c.pick(lambda: c.list('str', 'inputs'), lambda: VList()), 'output': c.str('output')})}

    def inv(self, c, L, a, o):
        if L.done is not None:
            yield 'fact', 'none so far', lambda: Not(c.path.hom(ANYHTTP, L.done))

    def post(self, c, a, o, r):
        calls = c.path.derived.get('calls', [])
        yield 'once', z3.BoolVal(len(calls) == 1)
        if len(calls) == 1:
            x, cmd = calls[0].attrs, a.cmd.attrs
            yield 'fields', K.rope(c, x['fields'], cmd['fields'])
            yield 'output', eq(x['output'], cmd['output'])
            if c.path.decide(term(c.path.rope_len(cmd['inputs'].segs)) > 0):
                yield 'inputs', K.rope(c, x['inputs'], cmd['inputs'])
            else:
                yield 'standard input', z3.BoolVal(x['inputs'] == ('-',) or (isinstance(x['inputs'], VList) and x['inputs'].concrete() and x['inputs'].items() == ['-']))


CONTRACTS = [Offset(), Length(), Field(), New(), Entry(), Iterate(), One(), All(), Command()]
