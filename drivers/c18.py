"""C18: ISO dates"""
import calendar, datetime
from lib import *
from warcio import timeutils as T

RULE = 'boundary and random datetimes of years 1000..9999 with microseconds, fraction digits 0..12, with and without Z; non-trivial: microseconds not 0'


def gen(rng, tier):
    for y in (1000, 1582, 1899, 1999, 2000, 2014, 9999):
        for mo, d in ((1, 1), (2, 28), (12, 31), (9, 9)):
            for h, mi, s in ((0, 0, 0), (23, 59, 59), (1, 2, 3)):
                for us in (0, 1, 9, 10, 99, 100, 1000, 99999, 100000, 500000, 999999, 120000):
                    yield ('dt', (y, mo, d, h, mi, s, us))
    for f in ('', '0', '1', '9', '00', '01', '30', '00001', '000001', '0000001', '999999', '9999999', '99999999999', '123456789', '1234567', '000000', '0000000000000'):
        for z in ('Z', ''):
            yield ('str', (2013, 12, 26, 10, 11, 12), f, z)
            yield ('str', (1000, 1, 1, 0, 0, 0), f, z)
    while True:
        y = rng.randrange(1000, 10000)
        m = rng.randrange(1, 13)
        t = (y, m, rng.randrange(1, calendar.monthrange(y, m)[1] + 1), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        if rng.random() < 0.5:
            yield ('dt', t + (rng.choice([rng.randrange(10 ** 6), rng.randrange(1000), rng.randrange(1000) * 1000]),))
        else:
            yield ('str', t, ''.join(rng.choice('0123456789') for _ in range(rng.randrange(0, 15))), rng.choice(['Z', '']))


def check(case):
    if case[0] == 'dt':
        dt = datetime.datetime(*case[1])
        cut = dt.replace(microsecond=0)
        a = T.datetime_to_iso_date(dt)
        same(a, '%04d-%02d-%02dT%02d:%02d:%02dZ' % case[1][:6], 'without microseconds')
        same(T.iso_date_to_datetime(a), cut, 'round trip')
        b = T.datetime_to_iso_date(dt, use_micros=True)
        same(T.iso_date_to_datetime(b), dt, 'round trip with microseconds (%s)' % b)
        assert b.startswith(a[:-1]) and b.endswith('Z')
        u = T.iso_date_to_datetime(b, tz_aware=True)
        same((u.replace(tzinfo=None), u.utcoffset()), (dt, datetime.timedelta(0)), 'aware')
        same(T.datetime_to_iso_date(u.replace(tzinfo=None)), a, 'aware')
        return None
    _, t, f, z = case
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % t + ('.' + f if f else '') + z
    want = datetime.datetime(*t, int((f + '000000')[:6]))
    same(T.iso_date_to_datetime(s), want, s)
    a = T.iso_date_to_datetime(s, tz_aware=True)
    same((a.replace(tzinfo=None), a.utcoffset()), (want, datetime.timedelta(0)), s)
    if 1900 <= t[0] < 3000:
        same(T.iso_date_to_timestamp(s), '%04d%02d%02d%02d%02d%02d' % t, 'timestamp')
