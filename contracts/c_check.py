"""the check command (C22)

The archive iterator is abstract: at every step there is a record, the end, or
ArchiveLoadFailed.  A record has a verdict (the digests are wrong, right, or there is
nothing to check) that is known once its content is read to the end.
Ghost state (g): `bad`, some record so far has a wrong digest; `ok`, every record with a
wrong digest, but the one at hand, was reported; `failed`, the one at hand has a wrong
digest; `seen_*`, what was printed since it came; `ended`, the end was reached.
"""
from pyvc.verify import *

CK = 'checker.Checker'
AI = 'archiveiterator.ArchiveIterator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def tf(x):
    return x.t if isinstance(x, S) else z3.BoolVal(bool(x))


def setg(it, g, name, f):
    """ghost truth value"""
    if z3.is_expr(f):
        f = z3.simplify(f)
        f = True if z3.is_true(f) else False if z3.is_false(f) else S('bool', f)
    g.attrs[name] = f
    it.record(g, name)


GHOST = MCls('ghost')
SEEN = ('file', 'offset', 'id', 'type')


def reported(g):
    return And(*[tf(g.attrs['seen_' + n]) for n in SEEN])


def settle(it, g):
    """the record at hand is done with"""
    setg(it, g, 'ok', And(tf(g.attrs['ok']), Or(Not(tf(g.attrs['failed'])), reported(g))))
    setg(it, g, 'failed', False)


def on_print(c, g):
    def f(parts):
        for n in SEEN:
            t = g.attrs['text_' + n]
            t = term(t)
            hit = TRUE if any(x is t or x.eq(t) for x in parts) else z3.Contains(concat(*parts), t)
            setg(c.interp, g, 'seen_' + n, Or(tf(g.attrs['seen_' + n]), hit))
    return f


# ---- the content of a record
def content_read(it, self, n=None):
    p = it.path
    n = int_arg_(it, n)
    if n is not None and it.decide(n == 0):
        return b''
    if (n is None or it.decide(n < 0)) or p.choose('end of content'):
        rec = self.attrs['record']
        d = rec.attrs['digest_checker']
        v = rec.attrs['verdict']
        d.attrs['passed'] = v
        it.record(d, 'passed')
        if v is False:
            a = p.new_atom('str', 'problems')
            p.assume(fLen(a.t) > 0)
            d.attrs['problems'] = VList([a])
            it.record(d, 'problems')
        return p.fresh('bytes', 'all') if n is None else b''
    r = p.fresh('bytes', 'piece')
    p.assume(r.t != EMPTY)
    return r


def int_arg_(it, n):
    return M.int_arg(it, n)


CONTENT = MCls('content', {'read': content_read})


def get_header(it, self, name, default=None):
    known = self.attrs['known']
    key = name.lower()
    if key not in known:
        known[key] = it.path.fresh('str', 'header') if it.path.choose('has ' + key) else None
    return known[key] if known[key] is not None else default


HEADERS = MCls('record headers', {'get_header': get_header, 'get': get_header})
RECORD = MCls('record', {'content_stream': lambda it, self: self.attrs['content']})
DIGEST = MCls('digest checker')


def step(it, self):
    p = it.path
    g = self.attrs['g']
    settle(it, g)
    if p.choose('no more records'):
        setg(it, g, 'ended', True)
        return False, None
    if p.choose('unreadable'):
        raise PyRaise(Obj(it.lookup_func('exceptions.ArchiveLoadFailed'), {'args': (p.fresh('str', 'reason'),)}))
    v = None if p.choose('nothing to check') else False if p.choose('wrong digest') else True
    if self.attrs['checking'] is not True:
        checked = None
    else:
        checked = v
    off = p.fresh('int', 'offset')
    p.assume(off.t >= 0)
    known = {}
    hs = Obj(HEADERS, {'known': known})
    i, t = get_header(it, hs, 'WARC-Record-ID'), get_header(it, hs, 'WARC-Type')
    rec = Obj(RECORD, {'rec_headers': hs, 'rec_type': t, 'verdict': checked, 'digest_checker': Obj(DIGEST, {'passed': None, 'problems': VList()})})
    for n in ('content', 'raw_stream'):
        rec.attrs[n] = Obj(CONTENT, {'record': rec})
    setg(it, g, 'bad', Or(tf(g.attrs['bad']), z3.BoolVal(v is False)))
    setg(it, g, 'failed', v is False)
    for n, x in (('offset', off), ('id', i), ('type', t)):
        g.attrs['text_' + n] = it.to_str(x)
        it.record(g, 'text_' + n)
        setg(it, g, 'seen_' + n, False)
    self.attrs['offset'] = off
    it.record(self, 'offset')
    return True, rec


ITER = MCls('iterator', {'step': step})


class Iterate(Contract):
    """the archive iterator (its records are abstract)"""
    target = AI + '.__init__'
    props = ('C22',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, One)

    def result(self, c, a, o):
        g = c.path.ghost['g']
        a.self.attrs['the_iter'] = Obj(ITER, {'g': g, 'checking': a.check_digests, 'offset': None})
        return None


class Offset(Contract):
    """the offset of the record at hand"""
    target = AI + '.get_record_offset'
    props = ('C22',)
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, One)

    def result(self, c, a, o):
        return a.self.attrs['the_iter'].attrs['offset']


FILE = MCls('file', {'__enter__': lambda it, self: self, '__exit__': lambda it, self, *a: None, 'close': M.m_none})


class New(Contract):
    """all inputs, nothing wrong yet"""
    target = CK + '.__init__'
    props = ('C22',)
    call_side = False

    def args(self, c):
        return {'self': c.obj(CK), 'cmd': Obj(MCls('cmd'), {'inputs': c.list('str', 'inputs'), 'verbose': c.bool('verbose')})}

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def post(self, c, a, o, r):
        x = a.self.attrs
        yield 'all inputs', rope(c, x.get('inputs'), a.cmd.attrs['inputs'])
        yield 'nothing wrong yet', z3.BoolVal('exit_value' in x and kind(x['exit_value']) in ('int', 'bool')) if 'exit_value' not in x or kind(x['exit_value']) != 'int' else term(x['exit_value']) == 0


def rope(c, x, y):
    return c.path.rope_eq(x.segs, y.segs) if isinstance(x, VList) and isinstance(y, VList) else z3.BoolVal(x is y)


def mk_checker(c, **kw):
    cmd = Obj(MCls('cmd'), {'inputs': c.list('str', 'inputs'), 'verbose': kw['verbose'] if 'verbose' in kw else c.bool('verbose')})
    ck = c.interp.call(c.cls(CK), [cmd], {})
    ck.attrs['exit_value'] = c.int('exit', 0)
    return ck


class One(Contract):
    """every record of the file is checked and reported if wrong"""
    target = CK + '.process_one'
    props = ('C22',)
    timeout = 300

    def __init__(self, verbose):
        self.verbose = verbose
        self.name = '%s (%s)' % (self.target, 'verbose' if verbose else 'not verbose')
        self.call_side = not verbose

    def args(self, c):
        p = c.path
        d = {'self': mk_checker(c, verbose=self.verbose), 'filename': c.str('filename')}
        g = Obj(GHOST, {'bad': False, 'ok': True, 'failed': False, 'ended': False})
        for n in SEEN:
            g.attrs['seen_' + n] = False
            g.attrs['text_' + n] = 'None'
        g.attrs['text_file'] = d['filename']
        p.ghost['g'] = g
        p.ghost['stdout'] = Obj(M.STDOUT, {'data': ''})
        p.ghost['on_print'] = on_print(c, g)
        p.ghost['on_open'] = lambda name, mode: Obj(FILE, {'name': name})
        return d

    def applies(self, c, a):
        return isinstance(c.ver.cur, All)

    def run(self, c, f, a):
        if set(a.self.attrs) - {'inputs', 'verbose', 'exit_value'}:
            # it keeps something else: after another file
            g = c.path.ghost['g']
            g.attrs['text_file'] = c.str('other_file')
            try:
                c.interp.call(f, [a.self, g.attrs['text_file']], {})
            except PyRaise:
                pass
            a.self.attrs['exit_value'] = wrap('int', c.ver.cur_old)
            for n, x in (('bad', False), ('ok', True), ('failed', False), ('ended', False), ('seen_file', False), ('text_file', a.filename)):
                g.attrs[n] = x
            c.ver.root_func = f
        return c.interp.call(f, [a.self, a.filename], {})

    def old(self, c, a):
        return term(a.self.attrs['exit_value'])

    def raises(self, c, a, o):
        ver = isinstance(c.ver.cur, One)

        def clauses(e):
            if ver:
                yield 'nothing is forgotten', Implies(Or(o != 0, tf(c.path.ghost['g'].attrs['bad'])), term(a.self.attrs['exit_value']) != 0)
                yield 'those before are reported', tf(c.path.ghost['g'].attrs['ok'])
            else:
                note(c, a, o, True)
        yield c.cls('exceptions.ArchiveLoadFailed'), TRUE, clauses

    def mods(self, c, a):
        l = [(a.self, 'exit_value', lambda c, ob: c.int('exit', 0))]
        if isinstance(c.ver.cur, One):
            l.append((c.path.ghost['g'], '**', None))
        return l

    def result(self, c, a, o):
        bad = c.path.choose('bad record')
        c.assume((term(a.self.attrs['exit_value']) != 0) == Or(o != 0, z3.BoolVal(bool(bad))))
        note(c, a, o, bad)
        return None

    def inv(self, c, L, a, o):
        g = c.path.ghost['g'].attrs
        yield 'fact', 'all reported', lambda: tf(g['ok'])
        for n in SEEN:
            yield 'fact', 'reported ' + n, lambda n=n: Implies(tf(g['failed']), tf(g['seen_' + n]))
            yield 'fact', 'seen ' + n, lambda n=n: tf(g['seen_' + n])
        yield 'fact', 'exit value', lambda: (term(a.self.attrs['exit_value']) != 0) == Or(o != 0, tf(g['bad']))
        yield 'fact', 'exit value so far', lambda: (term(a.self.attrs['exit_value']) != 0) == Or(o != 0, And(tf(g['bad']), Not(tf(g['failed']))))
        for n, v in L.roles('bool'):
            yield 'fact', n + ': the file is named', lambda v=v: Implies(tf(v), tf(g['seen_file']))
            yield 'fact', 'not ' + n + ': the file is named', lambda v=v: Implies(Not(tf(v)), tf(g['seen_file']))

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, One):
            return
        g = c.path.ghost['g'].attrs
        yield 'all records', tf(g['ended'])
        yield 'each failing record is reported with file, offset, id and type', tf(g['ok'])
        yield 'exit value: whether a digest is wrong', (term(a.self.attrs['exit_value']) != 0) == Or(o != 0, tf(g['bad']))


def note(c, a, o, bad):
    """(call side) the file is bad: has an unreadable part, or a record with a wrong digest"""
    g = c.path.ghost['run']
    e = term(a.self.attrs['exit_value'])
    c.assume(Implies(o != 0, e != 0))
    c.interp.call(c.interp.getattr(g.attrs['files'], 'append'), [a.filename], {})
    setg(c.interp, g, 'bad', Or(tf(g.attrs['bad']), z3.BoolVal(bool(bad))))
    return g


class All(Contract):
    """every input is checked, whatever the others are"""
    target = CK + '.process_all'
    props = ('C22',)

    def args(self, c):
        c.path.ghost['run'] = Obj(GHOST, {'bad': False, 'files': VList()})
        return {'self': mk_checker(c)}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Command)

    def old(self, c, a):
        return term(a.self.attrs['exit_value']), VList(list(a.self.attrs['inputs'].segs))

    def inv(self, c, L, a, o):
        g = c.path.ghost['run'].attrs
        if L.done is not None:
            yield 'list', 'checked so far', lambda: (g['files'], L.done)
            for n, l in L.modlists():
                yield 'list', n + ' = done', lambda l=l: (l, L.done)
        yield 'fact', 'exit value', lambda: (term(a.self.attrs['exit_value']) != 0) == Or(o[0] != 0, tf(g['bad']))

    def mods(self, c, a):
        l = [(a.self, 'exit_value', lambda c, ob: c.int('exit', 0))]
        if isinstance(c.ver.cur, All):
            g = c.path.ghost['run']
            l += [(g, '**', None), (g.attrs['files'], '*', None)]
        return l

    def result(self, c, a, o):
        c.path.derived['code'] = r = c.int('code', 0)
        return r

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, All):
            return
        g = c.path.ghost['run'].attrs
        yield 'all inputs, in order', rope(c, g['files'], o[1])
        yield 'a number', z3.BoolVal(kind(r) in ('int', 'bool'))
        if kind(r) == 'int':
            yield 'non-zero exactly if an input is bad', (term(r) != 0) == Or(o[0] != 0, tf(g['bad']))


class Command(Contract):
    """the exit status is that of the checks"""
    target = 'cli.checker'
    only_raises = True
    props = ('C22',)
    call_side = False

    def args(self, c):
        return {'cmd': Obj(MCls('cmd'), {'inputs': c.list('str', 'inputs'), 'verbose': c.bool('verbose')})}

    def raises(self, c, a, o):
        yield SystemExit, TRUE, lambda e: [('exit status', eq(e.attrs['args'][0], c.path.derived['code']))]

    def post(self, c, a, o, r):
        yield 'exits with a status', FALSE


CONTRACTS = [Iterate(), Offset(), New(), One(False), One(True), All(), Command()]

