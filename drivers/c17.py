"""C17: timestamps"""
import calendar, datetime
from lib import *
from warcio import timeutils as T

RULE = 'all field boundaries and random valid times 1900..2999, prefixes, extra digits, arbitrary strings; non-trivial: string not empty'


def ok_time(rng):
    y = rng.randrange(1900, 3000)
    m = rng.randrange(1, 13)
    d = rng.randrange(1, calendar.monthrange(y, m)[1] + 1)
    return (y, m, d, rng.randrange(24), rng.randrange(60), rng.randrange(60))


def gen(rng, tier):
    for y in (1900, 1969, 1970, 1999, 2000, 2004, 2014, 2038, 2100, 2400, 2999):
        for m in range(1, 13):
            for d in (1, 9, 10, 28, calendar.monthrange(y, m)[1]):
                for h, mi, s in ((0, 0, 0), (23, 59, 59), (12, 30, 1), (9, 9, 9)):
                    yield ('ok', (y, m, d, h, mi, s))
    for y in (1900, 1970, 2000, 2014, 2024, 2999):
        for m in (1, 2, 6, 12):
            for n in range(0, 21):
                yield ('pre', (y, m, 28 if m == 2 else 30, 23, 5, 9), n)
    for s in ('', '2010abc', '40001965252477', '20131709005601', '3', '0', 'abc', '-1', '2010-1-1', '99999999999999', '00000000000000', '20140230', '20150229000000', '  2014', '20 4', '2014 1', '+201', '20_4', '1899', '3000', '19000229',
              '٢٠١٤', '20140٣', '\x00', '2014-12-26T10:11:12Z', '२०१४१२'):
        yield ('any', s)
    while True:
        k = rng.random()
        if k < 0.4:
            yield ('ok', ok_time(rng))
        elif k < 0.6:
            yield ('pre', ok_time(rng), rng.randrange(0, 25))
        elif k < 0.8:
            yield ('any', ''.join(rng.choice('0123456789') for _ in range(rng.randrange(0, 20))))
        else:
            yield ('any', ''.join(rng.choice(u'0123456789-+_ abcT:Z.\n٣½²') for _ in range(rng.randrange(0, 20))))


WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MN = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def check(case):
    kind = case[0]
    if kind == 'ok':
        t = case[1]
        ts = '%04d%02d%02d%02d%02d%02d' % t
        dt = datetime.datetime(*t)
        same(T.timestamp_to_datetime(ts), dt, 'timestamp_to_datetime %s' % ts)
        a = T.timestamp_to_datetime(ts, tz_aware=True)
        same((a.replace(tzinfo=None), a.utcoffset()), (dt, datetime.timedelta(0)), 'aware')
        same(T.datetime_to_timestamp(dt), ts, 'datetime_to_timestamp')
        iso = '%04d-%02d-%02dT%02d:%02d:%02dZ' % t
        same(T.timestamp_to_iso_date(ts), iso, 'iso')
        same(T.iso_date_to_timestamp(iso), ts, 'back from iso')
        http = '%s, %02d %s %04d %02d:%02d:%02d GMT' % (WD[dt.weekday()], t[2], MN[t[1] - 1], t[0], t[3], t[4], t[5])
        same(T.timestamp_to_http_date(ts), http, 'http date')
        same(T.http_date_to_timestamp(http), ts, 'back from http date')
        same(T.http_date_to_datetime(http), dt, 'http_date_to_datetime')
        same(T.datetime_to_http_date(dt), http, 'datetime_to_http_date')
        h = T.http_date_to_datetime(http, tz_aware=True)
        same((h.replace(tzinfo=None), h.utcoffset()), (dt, datetime.timedelta(0)), 'http date aware')
        sec = int((dt - datetime.datetime(1970, 1, 1)).total_seconds())
        same(T.timestamp_to_sec(ts), sec, 'seconds')
        same(T.sec_to_timestamp(sec), ts, 'back from seconds')
        same(T.pad_timestamp(ts), ts, 'pad')
        for p in (T.PAD_14_DOWN, T.PAD_14_UP):
            same(T.pad_timestamp(ts[:8], p), ts[:8] + p[8:], 'pad')
        return None
    if kind == 'pre':
        t, n = case[1:]
        ts = '%04d%02d%02d%02d%02d%02d' % t
        s = (ts + '987654321098')[:n]
        if n >= 14:
            same(T.timestamp_to_datetime(s), datetime.datetime(*t), s)
            return None
        y = int(s[:4] + '2999'[len(s[:4]):])
        y = min(y, 2999)
        f = [y, 12, 31, 23, 59, 59]
        for i, k in enumerate((6, 8, 10, 12)):
            if n >= k:
                f[i + 1] = t[i + 1]
        if n < 6:
            f[1] = 12
            if n == 5:
                f[1] = int(s[4] + '2')
                f[1] = max(1, min(12, f[1]))
        if n < 8:
            f[2] = calendar.monthrange(f[0], f[1])[1]
        same(T.timestamp_to_datetime(s), datetime.datetime(*f), 'timestamp_to_datetime %r' % s)
        return None
    s = case[1]
    d = T.timestamp_to_datetime(s)
    assert isinstance(d, datetime.datetime) and d.tzinfo is None
    assert 1900 <= d.year <= 2999, '%r gives %s' % (s, d)
    same(d.microsecond, 0, 'microseconds')
    a = T.timestamp_to_datetime(s, tz_aware=True)
    same(a.replace(tzinfo=None), d, 'aware')
    T.timestamp_to_iso_date(s), T.timestamp_to_sec(s), T.timestamp_to_http_date(s)
    if s.isdigit() and s.isascii() and len(s) >= 14:
        y = min(2999, max(1900, int(s[:4])))
        m = min(12, max(1, int(s[4:6])))
        e = (y, m, min(calendar.monthrange(y, m)[1], max(1, int(s[6:8]))), min(23, int(s[8:10])), min(59, int(s[10:12])), min(59, int(s[12:14])))
        same(d, datetime.datetime(*e), 'fields moved into range: %s' % s)
