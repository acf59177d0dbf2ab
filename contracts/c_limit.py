"""LimitReader"""
from pyvc.verify import *

LR = 'limitreader.LimitReader'


def mk_limit(c, cls=LR, **kw):
    s = c.stream('in')
    o = c.obj(cls, stream=s, limit=c.int('limit', 0), _orig_limit=c.int('orig', 0))
    o.attrs.update(kw)
    return o


def size_arg(c):
    return c.pick(None, lambda: c.int('length'))


def lim(o):
    return term(o.attrs['limit'])


def rest(o):
    return term(o.attrs['rest'])


def asked(a):
    """the size asked for, None for everything"""
    return None if a.length is None else term(a.length)


class _Read(Contract):
    props = ('C01',)

    def args(self, c):
        return {'self': mk_limit(c), 'length': size_arg(c)}

    def pre(self, c, a):
        yield 'limit >= 0', lim(a.self) >= 0

    def old(self, c, a):
        s = a.self.attrs['stream']
        return (lim(a.self), rest(s), term(a.self.attrs['_orig_limit']), term(c.call(a.self, 'tell')))

    def mods(self, c, a):
        s = a.self.attrs['stream']
        fr = lambda k: (lambda c, o: c.path.fresh(k, 'h'))
        return [(a.self, 'limit', fr('int')), (s, 'rest', fr('bytes')), (s, 'pos', fr('int'))]

    def applies(self, c, a):
        return isinstance(a.self.attrs.get('stream'), Obj) and a.self.attrs['stream'].cls is M.ABS and a.self.cls.qual == LR

    def result(self, c, a, o):
        return c.bytes('r')

    def post(self, c, a, o, r):
        lim0, rest0, orig0, tell0 = o
        rt = term(r)
        s = a.self.attrs['stream']
        yield 'returns the next bytes of the stream', rest0 == concat(rt, rest(s))
        yield 'limit accounting', lim(a.self) == lim0 - z3.Length(rt)
        yield 'never beyond the limit', lim(a.self) >= 0
        n = asked(a)
        if n is not None:
            yield 'at most the size asked for', z3.Implies(n >= 0, z3.Length(rt) <= n)
            yield 'empty only at limit, end or size 0', z3.Implies(rt == EMPTY, Or(lim0 == 0, rest0 == EMPTY, n == 0))
        else:
            yield 'empty only at limit, end or size 0', z3.Implies(rt == EMPTY, Or(lim0 == 0, rest0 == EMPTY))
        if not isinstance(c.ver.cur, Contract) or True:
            yield 'position = bytes returned', term(c.call(a.self, 'tell')) == tell0 + z3.Length(rt)


class Read(_Read):
    target = LR + '.read'


class ReadLine(_Read):
    target = LR + '.readline'

    def post(self, c, a, o, r):
        for x in _Read.post(self, c, a, o, r):
            yield x
        lim0, rest0, orig0, tell0 = o
        rt = term(r)
        n = asked(a)
        full = [lim(a.self) == 0, rest(a.self.attrs['stream']) == EMPTY, z3.SuffixOf(M.NL, rt)]
        if n is not None:
            full.append(z3.Length(rt) == n)
        yield 'ends at the newline, the size, the limit or the end', Or(*full)
        yield 'no newline inside', M.def_line(c.path, rt)


class Tell(Contract):
    target = LR + '.tell'
    props = ('C01',)
    call_side = False

    def args(self, c):
        return {'self': mk_limit(c)}

    def post(self, c, a, o, r):
        yield 'position', term(r) == term(a.self.attrs['_orig_limit']) - lim(a.self)


class Init(Contract):
    target = LR + '.__init__'
    props = ('C01',)
    call_side = False

    def args(self, c):
        return {'self': c.obj(LR), 'stream': c.stream(), 'limit': c.int('limit', 0)}

    def mods(self, c, a):
        return [(a.self, '**', None)]

    def post(self, c, a, o, r):
        yield 'limit set', term(a.self.attrs['limit']) == term(a.limit)
        yield 'position 0', term(c.call(a.self, 'tell')) == 0
        yield 'stream kept', z3.BoolVal(a.self.attrs['stream'] is a.stream)


class Wrap(Contract):
    target = LR + '.wrap_stream'
    props = ('C01',)
    call_side = False

    def args(self, c):
        return {'stream': c.pick(lambda: mk_limit(c), lambda: c.stream('raw')),
                'content_length': c.pick(lambda: c.int('m'), lambda: c.str('ms'), None, lambda: c.bytes('mb'))}

    def pre(self, c, a):
        if isinstance(a.stream.cls, Cls):
            yield 'limit >= 0', lim(a.stream) >= 0

    def run(self, c, f, a):
        c.ver.root_func = f.f if isinstance(f, StaticV) else f
        return c.interp.call(f, [a.stream, a.content_length], {})

    def old(self, c, a):
        if isinstance(a.stream.cls, Cls):
            return lim(a.stream), term(c.call(a.stream, 'tell')), a.stream.attrs['stream']

    def mods(self, c, a):
        return [(a.stream, 'limit', None), (a.stream, '_orig_limit', None)] if isinstance(a.stream.cls, Cls) else []

    def post(self, c, a, o, r):
        m = a.content_length
        if m is None:
            ok, n = z3.BoolVal(False), z3.IntVal(0)
        elif kind(m) == 'int':
            ok, n = z3.BoolVal(True), term(m)
        else:
            ok, n = M.to_int(c.path, term(m))
        good = And(ok, n >= 0)
        if isinstance(a.stream.cls, Cls):
            lim0, tell0, s0 = o
            yield 'same reader', z3.BoolVal(r is a.stream)
            yield 'same stream', z3.BoolVal(r.attrs['stream'] is s0)
            yield 'smaller limit in force', Implies(good, lim(r) == z3.If(n < lim0, n, lim0))
            yield 'position unchanged', term(c.call(r, 'tell')) == tell0
            yield 'invalid limit: unchanged', Implies(Not(good), lim(r) == lim0)
        else:
            wrapped = isinstance(r, Obj) and isinstance(r.cls, Cls)
            yield 'wrapped exactly for a valid limit', good if wrapped else Not(good)
            if wrapped:
                yield 'over the stream', z3.BoolVal(r.attrs['stream'] is a.stream)
                yield 'limit', lim(r) == n
                yield 'position 0', term(c.call(r, 'tell')) == 0
            else:
                yield 'unchanged stream', z3.BoolVal(r is a.stream)


CONTRACTS = [Read(), ReadLine(), Tell(), Init(), Wrap()]
