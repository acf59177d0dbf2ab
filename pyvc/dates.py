"""models of datetime, calendar and email.utils dates"""
import calendar, datetime, email.utils, time
import z3
from .core import *
from .heap import *
from .engine import *
from . import models as M

II, SS = z3.IntSort(), z3.StringSort()
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def mdays(y, m):
    leap = And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))
    return If(m == 2, If(leap, z3.IntVal(29), z3.IntVal(28)), If(Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def valid(y, m, d, h, mi, s, us):
    return And(1 <= y, y <= 9999, 1 <= m, m <= 12, 1 <= d, d <= mdays(y, m), 0 <= h, h <= 23, 0 <= mi, mi <= 59, 0 <= s, s <= 59, 0 <= us, us <= 999999)


def fields(o):
    return [term(o.attrs[n]) for n in FIELDS]


def make(fs, tz):
    o = Obj(DT, {n: wrap('int', f) for n, f in zip(FIELDS, fs)})
    o.attrs['tzinfo'] = tz
    return o


def construct(it, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **kw):
    fs = [year, month, day, hour, minute, second, microsecond]
    if kw:
        raise Unsupported('datetime arguments')
    if any(kind(x) not in ('int', 'bool') for x in fs):
        it.throw(TypeError, 'datetime arguments')
    fs = [it.as_int(x) for x in fs]
    fs = [z3.IntVal(x) if isinstance(x, int) else x for x in fs]
    if not it.decide(valid(*fs)):
        it.throw(ValueError, 'out of range')
    return make(fs, tzinfo)


def year4(it, y):
    """%Y: not padded for years before 1000"""
    p = it.path
    if it.decide(y >= 1000):
        return M.dig(p, y, 4)
    return M.itos(p, y)


def strftime(it, self, fmt):
    if isinstance(fmt, S):
        raise Unsupported('strftime')
    y, mo, d, h, mi, s, us = fields(self)
    p, out, i = it.path, [], 0
    while i < len(fmt):
        if fmt[i] != '%':
            out.append(strval(fmt[i]))
            i += 1
            continue
        c = fmt[i + 1:i + 2]
        i += 2
        if c == 'Y':
            out.append(year4(it, y))
        elif c in 'mdHMS' and c:
            out.append(M.dig(p, {'m': mo, 'd': d, 'H': h, 'M': mi, 'S': s}[c], 2))
        elif c == 'f':
            out.append(M.dig(p, us, 6))
        elif c == '%':
            out.append(strval('%'))
        else:
            raise Unsupported('strftime')
    return wrap('str', concat(*out) if out else EMPTY)


def isoformat(it, self, sep='T', timespec='auto'):
    if timespec != 'auto' or isinstance(sep, S):
        raise Unsupported('isoformat')
    y, mo, d, h, mi, s, us = fields(self)
    p = it.path
    D = lambda v, n=2: M.dig(p, v, n)
    out = [D(y, 4), strval('-'), D(mo), strval('-'), D(d), strval(sep), D(h), strval(':'), D(mi), strval(':'), D(s)]
    if it.decide(us != 0):
        out += [strval('.'), D(us, 6)]
    if self.attrs['tzinfo'] is not None:
        out.append(strval('+00:00'))
    return wrap('str', concat(*out))


def replace(it, self, **kw):
    a = dict((n, self.attrs[n]) for n in FIELDS)
    a['tzinfo'] = self.attrs['tzinfo']
    a.update(kw)
    return construct(it, **a)


def now(it, tz=None):
    p = it.path
    fs = [p.fresh('int', 'now_' + n).t for n in FIELDS]
    p.assume(And(valid(*fs), fs[0] >= 1970))
    o = make(fs, tz)
    p.derived.setdefault('now', []).append(fs)
    return o


f_secs = M.U('timegm', II, II, II, II, II, II, II)
f_of = [M.U('utc_' + n, II, II) for n in FIELDS[:6]]
f_http = M.U('http_date', II, SS)
f_unhttp = M.U('from_http_date', SS, II)
f_ishttp = M.U('is_http_date', SS, z3.BoolSort())


def utctimetuple(it, self):
    return Obj(TT, {'dt': self})


def timegm(it, tt):
    if not isinstance(tt, Obj) or tt.cls is not TT:
        raise Unsupported('timegm')
    fs = fields(tt.attrs['dt'])[:6]
    r = f_secs(*fs)
    it.path.assume(And(*[f(r) == x for f, x in zip(f_of, fs)]))
    return wrap('int', r)


def of_secs(it, secs, tz):
    t = term(secs)
    fs = [f(t) for f in f_of]
    it.path.assume(And(valid(*(fs + [z3.IntVal(0)])), f_secs(*fs) == t))
    return make(fs + [z3.IntVal(0)], tz)


def fromtimestamp(it, secs, tz=None):
    if tz is None or kind(secs) != 'int':
        raise Unsupported('local time')
    return of_secs(it, secs, tz)


def formatdate(it, timeval=None, localtime=False, usegmt=False):
    if localtime or not usegmt or timeval is None:
        raise Unsupported('formatdate')
    r = f_http(term(timeval))
    it.path.assume(And(f_unhttp(r) == term(timeval), f_ishttp(r), M.f_isascii(r), r != EMPTY))
    return wrap('str', r)


def parsedate(it, s):
    t = term(s)
    if not it.decide(f_ishttp(t)):
        return None
    o = of_secs(it, wrap('int', f_unhttp(t)), None)
    return tuple(o.attrs[n] for n in FIELDS[:6]) + (0, 1, -1)


def monthrange(it, y, m):
    y, m = term(y), term(m)
    if not it.decide(And(m >= 1, m <= 12)):
        it.throw(calendar.IllegalMonthError, 'month')
    w = it.path.fresh('int', 'weekday')
    it.path.assume(And(w.t >= 0, w.t <= 6))
    return (w, wrap('int', mdays(y, m)))


def same_time(it, a, b):
    if not (isinstance(b, Obj) and b.cls is DT):
        return z3.BoolVal(False)
    return And(*([x == y for x, y in zip(fields(a), fields(b))] + [z3.BoolVal((a.attrs['tzinfo'] is None) == (b.attrs['tzinfo'] is None))]))


DT = MCls('datetime', {'strftime': strftime, 'isoformat': isoformat, 'replace': replace, 'utctimetuple': utctimetuple, 'timetuple': utctimetuple}, real=datetime.datetime)
TT = MCls('struct_time')

MODELS = {
    datetime.datetime: construct, datetime.datetime.now: now, datetime.datetime.fromtimestamp: fromtimestamp,
    calendar.timegm: timegm, calendar.monthrange: monthrange, email.utils.formatdate: formatdate, email.utils.parsedate: parsedate,
}
