"""timestamps and dates (C17, C18)"""
from pyvc.verify import *
from pyvc import dates as D
import datetime

T = 'timeutils.'
UTC = datetime.timezone.utc


def mk_fields(c, lo=1900, hi=2999, micros=False):
    fs = [c.int(n).t for n in D.FIELDS[:6]] + [c.int('us').t if micros else z3.IntVal(0)]
    c.assume(And(D.valid(*fs), fs[0] >= lo, fs[0] <= hi))
    return fs


def dg(c, v, n):
    return M.dig(c.path, v, n)


def ts14(c, fs):
    return concat(*[dg(c, v, 2 if i else 4) for i, v in enumerate(fs[:6])])


def iso(c, fs, frac=None, z='Z'):
    out = []
    for i, v in enumerate(fs[:6]):
        out += [strval(('', '-', '-', 'T', ':', ':')[i]), dg(c, v, 2 if i else 4)]
    if frac is not None:
        out += [strval('.'), frac]
    return concat(*(out + [strval(z)]))


def is_time(r, fs, tz=None):
    """the result is this time"""
    if not (isinstance(r, Obj) and r.cls is D.DT):
        return z3.BoolVal(False)
    if (r.attrs['tzinfo'] is UTC if tz else r.attrs['tzinfo'] is None) is not True:
        return z3.BoolVal(False)
    return And(*[x == y for x, y in zip(D.fields(r), fs)])


class _T(Contract):
    call_side = False
    timeout = 120

    def f(self, c, name):
        return c.cls(T + name)


def clamp(v, lo, hi):
    return If(v < lo, lo, If(v > hi, hi, v))


class Parse(_T):
    """timestamp_to_datetime for texts of n characters (n None: 14 or more)"""
    target = T + 'timestamp_to_datetime'
    props = ('C17',)

    def __init__(self, what, n):
        self.what, self.n = what, n
        self.name = '%s (%s, %s)' % (self.target, what, '14 or more' if n is None else '%d characters' % n)

    def args(self, c):
        n = 14 if self.n is None else self.n
        aware = c.pick(False, True)
        if self.what == 'any text':
            x = z3.Const('text', z3.IntSort())
            chars = [M.U('ch1', z3.IntSort(), z3.StringSort())(z3.IntVal(i)) for i in range(n)]
            for ch in chars:
                c.assume(z3.Length(ch) == 1)
            self.fs = None
            t = concat(*chars) if chars else EMPTY
        elif self.n is None:
            fs = mk_fields(c)
            t = ts14(c, fs)
            c.path.derived['fs'] = fs
        else:
            # the first n digits of the timestamp of a valid time
            fs = [c.int(x).t for x in D.FIELDS[:6]]
            ds, out, left = [], [], n
            c.path.derived['fs'] = want = []
            for i, v in enumerate(fs):
                w = 2 if i else 4
                k = min(w, left)
                left -= k
                if k == w:
                    out.append(dg(c, v, w))
                    lo, hi = ((1900, 2999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59))[i]
                    c.assume(And(v >= lo, v <= hi))
                    want.append(v)
                elif k:
                    d = [c.int('digit').t for _ in range(k)]
                    for x in d:
                        c.assume(And(x >= 0, x <= 9))
                        out.append(dg(c, x, 1))
                    if i == 0:
                        # first digits of a year from 1900 to 2999
                        v = z3.IntVal(0)
                        for x in d:
                            v = v * 10 + x
                        c.assume(And(v >= 1900 // 10 ** (4 - k), v <= 2999 // 10 ** (4 - k)))
                        want.append(If(v == 2999 // 10 ** (4 - k), 2999, v * 10 ** (4 - k) + 10 ** (4 - k) - 1))
                        want.append(z3.IntVal(12))
                    elif i == 1:
                        c.assume(d[0] <= 1)
                        want.append(clamp(d[0] * 10 + 2, 1, 12))
            if not want:
                want += [z3.IntVal(2999), z3.IntVal(12)]
            if len(want) >= 3:
                c.assume(want[2] <= D.mdays(want[0], want[1]))
            mx = [None, z3.IntVal(12), None, z3.IntVal(23), z3.IntVal(59), z3.IntVal(59)]
            while len(want) < 6:
                want.append(D.mdays(want[0], want[1]) if len(want) == 2 else mx[len(want)])
            want.append(z3.IntVal(0))
            t = concat(*out) if out else EMPTY
        if self.n is None:
            t = concat(t, c.str('more').t)
        return {'string': wrap('str', t), 'tz_aware': aware}

    def post(self, c, a, o, r):
        ok = isinstance(r, Obj) and r.cls is D.DT
        yield 'a time', z3.BoolVal(ok)
        if not ok:
            return
        if self.what == 'any text':
            y, mo, d, h, mi, s, us = D.fields(r)
            yield 'valid and from 1900 to 2999', And(D.valid(y, mo, d, h, mi, s, us), y >= 1900, y <= 2999, us == 0)
            yield 'aware as asked for', z3.BoolVal(r.attrs['tzinfo'] is UTC if a.tz_aware else r.attrs['tzinfo'] is None)
            # fields that are there are moved into range
            t = term(a.string)
            parts = flat(t)
            n = 14 if self.n is None else self.n
            for i, (v, at, lo, hi) in enumerate(((y, 0, 1900, 2999), (mo, 4, 1, 12), (d, 6, 1, D.mdays(y, mo)), (h, 8, 0, 23), (mi, 10, 0, 59), (s, 12, 0, 59))):
                e = at + (2 if i else 4)
                if n >= e:
                    ok, x = M.to_int(c.path, concat(*parts[at:e]))
                    yield D.FIELDS[i] + ' moved into range', v == If(ok, clamp(x, lo, hi), hi)
                elif i > 1:
                    yield D.FIELDS[i] + ' is the latest', v == hi
        else:
            yield 'the time', is_time(r, c.path.derived['fs'], a.tz_aware)


def mk_dt(c, fs, tz=None):
    return D.make(fs, tz)


class Fmt(_T):
    """a function from a time"""

    def __init__(self, fn, props, want, lo=1900, hi=2999, micros=False, kw={}):
        self.target, self.props, self.want, self.lo, self.hi, self.micros, self.kw = T + fn, props, want, lo, hi, micros, kw
        self.name = self.target + (' ' + str(kw) if kw else '')

    def args(self, c):
        fs = mk_fields(c, self.lo, self.hi, self.micros)
        c.path.derived['fs'] = fs
        return dict(self.kw, the_datetime=mk_dt(c, fs))

    def post(self, c, a, o, r):
        yield 'the text of the time', eq(r, self.want(c, c.path.derived['fs'])) if kind(r) == 'str' else z3.BoolVal(False)


def iso_micros(c, fs):
    return If(fs[6] == 0, iso(c, fs), iso(c, fs, dg(c, fs[6], 6)))


class IsoParse(_T):
    """ISO dates with n fraction digits (None: none, 7: seven or more)"""
    target = T + 'iso_date_to_datetime'
    props = ('C18', 'C17')

    def __init__(self, n):
        self.n = n
        self.name = '%s (%s fraction digits)' % (self.target, 'no' if n is None else n if n < 7 else '7 or more')

    def args(self, c):
        fs = mk_fields(c, 1000, 9999)
        frac = None
        us = z3.IntVal(0)
        if self.n is not None:
            v = c.int('frac').t
            k = min(self.n, 6)
            c.assume(And(v >= 0, v < 10 ** k))
            frac = dg(c, v, k)
            us = v * 10 ** (6 - k)
            if self.n == 7:
                tail = c.str('tail').t
                c.assume(M.f_isdigits(tail))
                c.assume(z3.Length(tail) > 0)
                frac = concat(frac, tail)
        c.path.derived['fs'] = fs[:6] + [us]
        return {'string': wrap('str', iso(c, fs, frac, c.pick('Z', ''))), 'tz_aware': c.pick(False, True)}

    def post(self, c, a, o, r):
        yield 'the time', is_time(r, c.path.derived['fs'], a.tz_aware)


class Round(_T):
    """compositions give the time or the text back"""
    target = None

    def __init__(self, name, props, go, **kw):
        self.name, self.props, self.go, self.kw = 'round trip: ' + name, props, go, kw
        self.target = T + kw.pop('first')

    def args(self, c):
        fs = mk_fields(c, **self.kw)
        c.path.derived['fs'] = fs
        return {}

    def run(self, c, f, a):
        c.ver.root_func = None
        fs = c.path.derived['fs']
        call = lambda n, *x, **kw: c.interp.call(c.cls(T + n), list(x), kw)
        for label, g in self.go(c, fs, call):
            c.prove(label, g)


def via_iso(c, fs, call):
    ts = wrap('str', ts14(c, fs))
    i = call('timestamp_to_iso_date', ts)
    yield 'ISO date of the timestamp', eq(i, iso(c, fs))
    yield 'and back', eq(call('iso_date_to_timestamp', i), ts)


def via_http(c, fs, call):
    ts = wrap('str', ts14(c, fs))
    h = call('timestamp_to_http_date', ts)
    yield 'and back', eq(call('http_date_to_timestamp', h), ts)
    yield 'the time', is_time(call('http_date_to_datetime', h), fs)
    yield 'the time, aware', is_time(call('http_date_to_datetime', h, tz_aware=True), fs, True)
    yield 'http date of the time', eq(call('datetime_to_http_date', mk_dt(c, fs)), h)


def via_secs(c, fs, call):
    ts = wrap('str', ts14(c, fs))
    s = call('timestamp_to_sec', ts)
    yield 'seconds of the time', eq(s, D.f_secs(*fs[:6]))
    yield 'and back', eq(call('sec_to_timestamp', s), ts)


def via_dt(c, fs, call):
    ts = wrap('str', ts14(c, fs))
    yield 'and back', eq(call('datetime_to_timestamp', call('timestamp_to_datetime', ts)), ts)


def iso_secs(c, fs, call):
    d = call('iso_date_to_datetime', call('datetime_to_iso_date', mk_dt(c, fs)))
    yield 'cut to the second', is_time(d, fs[:6] + [z3.IntVal(0)])


def iso_us(c, fs, call):
    t = call('datetime_to_iso_date', mk_dt(c, fs), use_micros=True)
    yield 'the same time', is_time(call('iso_date_to_datetime', t), fs)
    yield 'the same time, aware', is_time(call('iso_date_to_datetime', t, tz_aware=True), fs, True)


CONTRACTS = [Parse('a valid time', n) for n in list(range(14)) + [None]] + [Parse('any text', n) for n in list(range(14)) + [None]] + [
    Fmt('datetime_to_timestamp', ('C17',), ts14),
    Fmt('datetime_to_iso_date', ('C18', 'C17'), iso, 1000, 9999, True),
    Fmt('datetime_to_iso_date', ('C18',), iso_micros, 1000, 9999, True, {'use_micros': True})] + [
    IsoParse(n) for n in (None, 1, 2, 3, 4, 5, 6, 7)] + [
    Round('timestamp, time', ('C17',), via_dt, first='timestamp_to_datetime'),
    Round('timestamp, ISO date', ('C17', 'C13'), via_iso, first='timestamp_to_iso_date'),
    Round('timestamp, HTTP date', ('C17',), via_http, first='timestamp_to_http_date'),
    Round('timestamp, seconds', ('C17',), via_secs, first='timestamp_to_sec'),
    Round('time, ISO date', ('C18',), iso_secs, first='datetime_to_iso_date', lo=1000, hi=9999, micros=True),
    Round('time, ISO date with microseconds', ('C18',), iso_us, first='datetime_to_iso_date', lo=1000, hi=9999, micros=True)]
