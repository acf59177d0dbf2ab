"""digest comparison (C11) and verification (C10)"""
from pyvc.verify import *
from . import c_limit as L

DV = 'digestverifyingreader.'
DIG = 'utils.Digester'
COLON = strval(':')


def mk_digester(c, label='d'):
    algo = c.str(label + '_algo')
    c.path.assume(M.f_isalgo(algo.t))
    c.path.assume(Not(z3.Contains(algo.t, COLON)))
    return c.obj(DIG, type_=algo, digester=Obj(M.HASH, {'algo': algo, 'fed': c.bytes(label + '_fed')}))


def mk_declared(c, label='declared'):
    d = c.str(label)
    c.path.assume(z3.Contains(d.t, COLON))
    return d


def digest_of(c, dig):
    """the bytes of the digest, with what holds of every fixed-length digest"""
    h = dig.attrs['digester']
    b = M.f_hash(term(h.attrs['algo']), term(h.attrs['fed']))
    p = c.path
    p.assume(And(z3.Length(b) >= 16, z3.Length(b) <= 64))
    M.enc32_facts(p, b)
    M.enc64_both(p, b)
    return b


def match(c, dig, declared):
    """the declared value is an encoding of the digest"""
    p = c.path
    b = digest_of(c, dig)
    _, v = M.first_split(p, term(declared), ':')
    w = M.chars_strip(p, v, '=', 'rstrip')
    p.assume(Implies(M.f_is16(w), z3.Length(w) == 2 * z3.Length(M.f_d16(w))))
    return Or(w == M.f_u32(b), And(M.f_is16(w), M.f_d16(w) == b), w == M.f_u64(False)(b), w == M.f_u64(True)(b))


f_match = M.U('digest_matches', z3.StringSort(), z3.StringSort(), z3.BoolSort())


def matches(dig, declared):
    """name of the formula match(), for callers of the comparison"""
    h = dig.attrs['digester']
    return f_match(M.f_hash(term(h.attrs['algo']), term(h.attrs['fed'])), term(declared))


class Compare(Contract):
    target = DV + '_compare_digest_rfc_3548'
    props = ('C11', 'C10')
    timeout = 240

    def args(self, c):
        return {'digester': c.pick(None, lambda: mk_digester(c)), 'digest': c.pick(None, lambda: mk_declared(c))}

    def pre(self, c, a):
        if a.digest is not None and a.digester is not None:
            yield 'declared digest has an algorithm', z3.Contains(term(a.digest), COLON)

    def old(self, c, a):
        if a.digester is not None and a.digest is not None:
            return match(c, a.digester, a.digest) if c.ver.cur is self else matches(a.digester, a.digest)

    def result(self, c, a, o):
        if o is None or not c.path.decide(term(a.digest) != EMPTY):
            return None
        return c.path.decide(o)

    def post(self, c, a, o, r):
        if o is None or not c.path.decide(term(a.digest) != EMPTY):
            yield 'nothing to compare: undecided', z3.BoolVal(r is None)
        elif kind(r) != 'bool':
            yield 'true or false', z3.BoolVal(False)
        else:
            yield 'equal exactly for an encoding of the digest', term(r) == o



# ---------------------------------------------------------------- C10
DVR = DV + 'DigestVerifyingReader'


def _err_write(it, self, t):
    self.attrs['text'] = wrap('str', concat(term(self.attrs['text']), term(t)))
    it.record(self, 'text')


ERR = MCls('stderr', {'write': _err_write, 'flush': M.m_none})


def mk_checker(c, kinds=(None, 'raise', 'log')):
    if 'stderr' not in c.path.ghost:
        c.path.ghost['stderr'] = Obj(ERR, {'text': ''})
    return c.obj(DV + 'DigestChecker', _problem=c.list('str', 'problems'),
                 _passed=c.pick(None, True, False), kind=c.pick(*kinds))


def verdict(c, dig, declared):
    if dig is None or declared is None or not c.path.decide(term(declared) != EMPTY):
        return None
    return c.path.decide(matches(dig, declared))


def problems(o):
    return o.attrs['digest_checker'].attrs['_problem']


def passed(o):
    return o.attrs['digest_checker'].attrs['_passed']


def err(c):
    return term(c.path.ghost['stderr'].attrs['text'])


class _D(Contract):
    props = ('C10',)
    call_side = False
    timeout = 300

    def state(self, c, o):
        return passed(o), list(problems(o).segs), err(c)

    def chmods(self, c, o):
        return [(o.attrs['digest_checker'], '_passed', None), (problems(o), '*', None), (c.path.ghost['stderr'], 'text', None)]

    def kind(self, a):
        return a.self.attrs['digest_checker'].attrs['kind']

    def raises(self, c, a, o):
        return [(c.cls('exceptions.ArchiveLoadFailed'), z3.BoolVal(self.kind(a) == 'raise'), lambda e: self.on_raise(c, a, o))]

    def on_raise(self, c, a, o):
        yield 'raises only for a wrong digest', z3.BoolVal(False in self.verdicts(c, a, o))
        yield 'the problem is recorded', c.path.rope_len(problems(a.self).segs) >= c.path.rope_len(self.before(o)[1]) + 1

    def check_post(self, c, a, o, vs):
        """verdicts are recorded as they should be"""
        p = c.path
        p0, l0, e0 = self.before(o)
        wrong = [v for v in vs if v is False]
        want = False if wrong else True if True in vs and p0 is not False else p0
        yield 'check result', z3.BoolVal(passed(a.self) is want)
        segs = problems(a.self).segs
        yield 'one problem per wrong digest', p.rope_len(segs) == p.rope_len(l0) + len(wrong)
        new = p.norm(segs)[len(p.norm(l0)):]
        yield 'earlier problems are kept', p.rope_eq(p.norm(segs)[:len(p.norm(l0))], l0)
        if self.kind(a) == 'raise':
            yield 'raise mode raises for a wrong digest', z3.BoolVal(not wrong)
        else:
            yield 'raise mode raises for a wrong digest', z3.BoolVal(True)
        if self.kind(a) == 'log':
            t = [e0]
            for s in new:
                t += [term(s[1]), strval('\n')] if isinstance(s, tuple) else [None]
            yield 'problems are written to standard error', err(c) == concat(*t)
        else:
            yield 'problems are written to standard error', err(c) == e0


class DInit(_D):
    target = DVR + '.__init__'

    def args(self, c):
        return {'self': c.obj(DVR), 'stream': c.stream(), 'limit': c.int('limit', 0), 'digest_checker': mk_checker(c),
                'record_type': c.pick(None, 'revisit', lambda: c.str('rtype')), 'payload_digest': c.pick(None, lambda: c.str('pd')),
                'block_digest': c.pick(None, lambda: c.str('bd')), 'segment_number': c.pick(None, lambda: c.str('seg'))}

    def run(self, c, f, a):
        d = dict(a.__dict__)
        return c.interp.call(f, [d.pop('self'), d.pop('stream'), d.pop('limit'), d.pop('digest_checker')], d)

    def kind(self, a):
        return a.digest_checker.attrs['kind']

    def before(self, o):
        return o

    def old(self, c, a):
        k = a.digest_checker
        return k.attrs['_passed'], list(k.attrs['_problem'].segs), err(c)

    def mods(self, c, a):
        return [(a.self, '**', None), (a.digest_checker, '_passed', None), (a.digest_checker.attrs['_problem'], '*', None), (c.path.ghost['stderr'], 'text', None)]

    def effective(self, c, a):
        rev = a.record_type is not None and c.path.decide(term(a.record_type) == strval('revisit'))
        out = []
        for d, skip in ((a.block_digest, rev), (a.payload_digest, rev or a.segment_number is not None)):
            if d is None or skip or not c.path.decide(term(d) != EMPTY):
                out.append((None, None))
            elif c.path.decide(z3.Contains(term(d), COLON)):
                algo, _ = M.first_split(c.path, term(d), ':')
                out.append((d, algo if c.path.decide(M.f_isalgo(algo)) else None))
            else:
                out.append((d, None))
        return out

    def verdicts(self, c, a, o):
        return [False if d is not None and algo is None else None for d, algo in self.effective(c, a)]

    def on_raise(self, c, a, o):
        yield 'raises only for a wrong digest', z3.BoolVal(False in self.verdicts(c, a, o))

    def post(self, c, a, o, r):
        s = a.self
        (b, ba), (q, qa) = self.effective(c, a)
        yield 'the checker is used', z3.BoolVal(s.attrs['digest_checker'] is a.digest_checker)
        yield 'limit', term(s.attrs['limit']) == term(a.limit)
        yield 'stream', z3.BoolVal(s.attrs['stream'] is a.stream)
        yield 'position 0', term(c.call(s, 'tell')) == 0
        for label, x, algo, d, y in (('block', s.attrs['block_digester'], ba, b, s.attrs['block_digest']), ('payload', s.attrs['payload_digester_obj'], qa, q, s.attrs['payload_digest'])):
            yield label + ' digest is checked exactly if declared and of a known algorithm', z3.BoolVal((x is not None) == (algo is not None))
            if x is not None and algo is not None:
                h = x.attrs['digester']
                yield label + ' digest: declared algorithm, nothing read', And(term(h.attrs['algo']) == algo, term(h.attrs['fed']) == EMPTY)
                yield label + ' digest as declared', eq(y, d) if y is not None else z3.BoolVal(False)
            else:
                yield label + ' digest: declared algorithm, nothing read', z3.BoolVal(True)
                yield label + ' digest as declared', z3.BoolVal(True)
        yield 'two digesters', z3.BoolVal(s.attrs['block_digester'] is None or s.attrs['block_digester'] is not s.attrs['payload_digester_obj'])
        yield 'payload has not begun', z3.BoolVal(s.attrs['payload_digester'] is None)
        yield 'not ended', z3.BoolVal(s.attrs['ended'] is False)
        for x in self.check_post(c, a, o, self.verdicts(c, a, o)):
            yield x


def mk_dvr(c, kinds):
    pd = c.pick(None, lambda: mk_digester(c, 'p'))
    bd = c.pick(None, lambda: mk_digester(c, 'b'))
    return L.mk_limit(c, DVR, digest_checker=mk_checker(c, kinds), payload_digest=mk_declared(c, 'pdecl') if pd else c.pick(None, lambda: c.str('pdecl')),
                      block_digest=mk_declared(c, 'bdecl') if bd else c.pick(None, lambda: c.str('bdecl')),
                      payload_digester_obj=pd, payload_digester=pd if pd is not None and c.choose('begun') else None, block_digester=bd, ended=c.choose('ended'))


class _K(_D):
    def __init__(self, k):
        self.k = k
        self.name = '%s [%s]' % (self.title, k or 'record')


class _DRead(_K):
    base = L.Read

    def args(self, c):
        return {'self': mk_dvr(c, (self.k,)), 'length': L.size_arg(c)}

    def pre(self, c, a):
        return self.base.pre(self, c, a)

    def old(self, c, a):
        s = a.self
        fed = [term(d.attrs['digester'].attrs['fed']) if d is not None else None for d in (s.attrs['block_digester'], s.attrs['payload_digester'])]
        return self.base.old(self, c, a), self.state(c, s), fed, s.attrs['ended'], s.attrs['payload_digester']

    def before(self, o):
        return o[1]

    def mods(self, c, a):
        m = self.base.mods(self, c, a) + self.chmods(c, a.self) + [(a.self, 'ended', None)]
        for d in (a.self.attrs['block_digester'], a.self.attrs['payload_digester']):
            if d is not None:
                m.append((d.attrs['digester'], 'fed', None))
        return m

    def attempted(self, c, a, o):
        lim0 = o[0][0]
        n = L.asked(a)
        return And(lim0 > 0, z3.BoolVal(True) if n is None else n != 0)

    def verdicts(self, c, a, o):
        s = a.self
        return [verdict(c, s.attrs['block_digester'], s.attrs['block_digest']), verdict(c, o[4], s.attrs['payload_digest'])]

    def on_raise(self, c, a, o):
        yield 'raises at the end only', And(z3.BoolVal(not o[3]), self.attempted(c, a, o),
                                           Or(L.lim(a.self) == 0, L.rest(a.self.attrs['stream']) == EMPTY))
        for x in _D.on_raise(self, c, a, o):
            yield x

    def post(self, c, a, o, r):
        for x in self.base.post(self, c, a, o[0], r):
            yield x
        s = a.self
        for label, d, f0 in zip(('block', 'payload'), (s.attrs['block_digester'], o[4]), o[2]):
            if d is not None:
                yield label + ' digest covers what was returned', term(d.attrs['digester'].attrs['fed']) == concat(f0, term(r))
        yield 'payload goes on', z3.BoolVal(s.attrs['payload_digester'] is o[4])
        fin = False
        if not o[3]:
            fin = c.path.decide(And(self.attempted(c, a, o), Or(L.lim(s) == 0, term(r) == EMPTY)))
        yield 'ended at the limit or the end of the stream', z3.BoolVal(s.attrs['ended'] is (o[3] or fin))
        for x in self.check_post(c, a, o, self.verdicts(c, a, o) if fin else []):
            yield x


class DRead(_DRead):
    target = L.LR + '.read'
    title = DVR + '.read (inherited)'


class DReadLine(_DRead):
    target = L.LR + '.readline'
    title = DVR + '.readline (inherited)'
    base = L.ReadLine


class Begin(_K):
    target = title = DVR + '.begin_payload'

    def args(self, c):
        s = mk_dvr(c, (self.k,))
        s.attrs['payload_digester'] = None
        return {'self': s}

    def pre(self, c, a):
        yield 'limit >= 0', L.lim(a.self) >= 0

    def old(self, c, a):
        return self.state(c, a.self), a.self.attrs['ended']

    def before(self, o):
        return o[0]

    def mods(self, c, a):
        return self.chmods(c, a.self) + [(a.self, 'ended', None), (a.self, 'payload_digester', None)]

    def verdicts(self, c, a, o):
        s = a.self
        pv = lambda: verdict(c, s.attrs['payload_digester_obj'], s.attrs['payload_digest'])
        if o[1]:
            return [pv()]
        if c.path.decide(L.lim(s) == 0):
            return [verdict(c, s.attrs['block_digester'], s.attrs['block_digest']), pv()]
        return []

    def post(self, c, a, o, r):
        s = a.self
        vs = self.verdicts(c, a, o)
        for x in self.check_post(c, a, o, vs):
            yield x
        yield 'ended if there is nothing to read', z3.BoolVal(s.attrs['ended'] is (o[1] or bool(c.path.query(L.lim(s) == 0))))
        if not s.attrs['ended']:
            yield 'what is read from now on is payload', z3.BoolVal(s.attrs['payload_digester'] is s.attrs['payload_digester_obj'])


CONTRACTS = [Compare(), DInit()] + [x(k) for x in (DRead, DReadLine, Begin) for k in (None, 'raise', 'log')]
