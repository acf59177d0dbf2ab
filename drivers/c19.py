"""C19: created records"""
import datetime
from lib import *
from collections import OrderedDict
from warcio.recordbuilder import RecordBuilder
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.statusandheaders import StatusAndHeaders
from warcio.timeutils import iso_date_to_datetime

RULE = 'random record types, versions, caller headers in any case, content types, info dictionaries; non-trivial: caller headers given'
HN = ['WARC-Date', 'warc-date', 'WARC-Record-ID', 'warc-record-id', 'WARC-Type', 'warc-type', 'WARC-Target-URI', 'Content-Type', 'content-type', 'X-Custom', 'WARC-Concurrent-To', 'WARC-Block-Digest', 'WARC-Payload-Digest', 'WARC-Refers-To']
HV = {'warc-date': '2001-02-03T04:05:06Z', 'warc-record-id': '<urn:my:id>', 'warc-type': 'response', 'warc-target-uri': 'http://caller/', 'content-type': 'text/mine'}
TYPES = ['response', 'request', 'revisit', 'warcinfo', 'metadata', 'resource', 'conversion', 'odd']
DEF = {'warcinfo': 'application/warc-fields', 'metadata': 'application/warc-fields', 'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response', 'request': 'application/http; msgtype=request'}


def gen(rng, tier):
    for ty in TYPES:
        for ver in (None, '1.0', '1.1', 'WARC/1.1', '1.2', 1.1, ''):
            for hs in ((), ('X-Custom',), ('WARC-Date',), ('warc-date', 'X-Custom'), ('WARC-Record-ID',), ('warc-record-id', 'warc-type'), ('Content-Type',), ('content-type',), ('WARC-Target-URI',), ('WARC-Type',)):
                for ct in ('', 'text/given'):
                    yield ('rec', ty, ver, hs, ct, 'http://e.com/', b'abc', 0)
    for items in ((), (('software', 'x'),), (('a', 'b'), ('empty', ''), ('none', None), ('n', 5), ('zero', 0), (u'é', u'中')), (('z', '1'), ('a', '2'), ('m', '3'))):
        for fn in ('', None, 'name.warc.gz', u'é.warc'):
            for ver in (None, '1.1'):
                yield ('info', items, fn, ver)
    for dg in ('sha1:ABC', '', None, 'md5:x'):
        for ver in (None, '1.1', '1.0'):
            for http in (0, 1):
                for hs in ((), ('X-Custom', 'WARC-Date')):
                    yield ('revisit', dg, ver, http, hs)
    while True:
        hs = tuple(dict((n.lower(), n) for n in rng.sample(HN, rng.randrange(0, 6))).values())
        yield ('rec', rng.choice(TYPES), rng.choice([None, '1.0', '1.1', 'WARC/1.0']), hs, rng.choice(['', '', 'text/x']), rng.choice(['http://e.com/', '', 'urn:x', u'http://é/']), data(rng, rng.randrange(0, 30)), rng.randrange(3))


def vstr(ver):
    if not ver:
        return 'WARC/1.0'
    ver = str(ver)
    return ver if ver.startswith('WARC/') else 'WARC/' + ver


def check_date(d, ver):
    dt = iso_date_to_datetime(d)
    now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    assert abs((now - dt).total_seconds()) < 30, 'date %r, now %s' % (d, now)
    assert d.endswith('Z')
    if vstr(ver) < 'WARC/1.1':
        assert '.' not in d, 'microseconds in %s: %r' % (vstr(ver), d)
        same(len(d), 20, 'date')


def check_id(i):
    assert i.startswith('<urn:uuid:') and i.endswith('>') and len(i) == 47, 'record id %r' % i


def check(case):
    if case[0] == 'info':
        _, items, fn, ver = case
        b = RecordBuilder(warc_version=ver)
        info = OrderedDict(items)
        rec = b.create_warcinfo_record(fn, info)
        same(list(info.items()), list(items), 'info unchanged')
        h = rec.rec_headers
        same(rec.rec_type, 'warcinfo', 'type')
        same(hall(h.headers, 'WARC-Type'), ['warcinfo'], 'WARC-Type')
        same(hall(h.headers, 'WARC-Filename'), [fn] if fn else [], 'file name')
        same(len(hall(h.headers, 'WARC-Record-ID')), 1, 'ids')
        check_id(h.get_header('WARC-Record-ID'))
        check_date(h.get_header('WARC-Date'), ver)
        same(h.protocol, vstr(ver), 'version')
        want = b''.join(('%s: %s\r\n' % (k, v)).encode('utf-8') for k, v in items if v)
        same(drain(rec.raw_stream.read), want, 'block')
        same(rec.length, len(want), 'length')
        same(rec.content_type, 'application/warc-fields', 'content type')
        return None
    if case[0] == 'revisit':
        _, dg, ver, http, hs = case
        b = RecordBuilder(warc_version=ver)
        hd = dict((n, HV.get(n.lower(), 'v')) for n in hs)
        before = dict(hd)
        hh = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1') if http else None
        try:
            rec = b.create_revisit_record('http://e.com/', dg, 'http://orig/', '2000-01-01T00:00:00Z', http_headers=hh, warc_headers_dict=hd)
        except AssertionError:
            assert not dg
            return None
        assert dg, 'empty digest accepted'
        same(hd, before, 'caller headers')
        h = rec.rec_headers
        p = 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest' % ('1.1' if vstr(ver) == 'WARC/1.1' else '1.0')
        same(h.get_header('WARC-Profile'), p, 'profile')
        same(h.get_header('WARC-Refers-To-Target-URI'), 'http://orig/', 'original URI')
        same(h.get_header('WARC-Refers-To-Date'), '2000-01-01T00:00:00Z', 'original date')
        same(hall(h.headers, 'WARC-Payload-Digest'), [dg], 'digest')
        same(hall(h.headers, 'WARC-Type'), ['revisit'], 'type')
        same(h.get_header('WARC-Target-URI'), 'http://e.com/', 'target')
        assert rec.http_headers is hh
        r2 = b.create_revisit_record('http://e.com/', dg, 'http://orig2/', '2001-01-01T00:00:00Z')
        same(r2.rec_headers.get_header('WARC-Refers-To-Target-URI'), 'http://orig2/', 'second revisit record')
        same(len(hall(r2.rec_headers.headers, 'WARC-Profile')), 1, 'profiles of the second revisit record')
        assert 'X-Custom' not in r2.rec_headers
        return None
    _, ty, ver, hs, ct, uri, payload, k = case
    b = RecordBuilder(warc_version=ver) if k != 1 else BufferWARCWriter(warc_version=ver)
    hd = OrderedDict((n, HV.get(n.lower(), 'v;' + n)) for n in hs)
    before = list(hd.items())
    recs = []
    for j in range(2):
        kw = dict(warc_headers_dict=hd) if hd or k == 2 else {}
        if ty in ('response', 'request', 'revisit') and uri.startswith('http'):
            # the payload is not a HTTP block: give the headers
            kw['http_headers'] = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
        rec = b.create_warc_record(uri, ty, payload=io.BytesIO(payload) if payload or k else None, length=len(payload), warc_content_type=ct, **kw)
        recs.append(rec)
        same(list(hd.items()), before, 'caller headers')
        if j == 0:
            rec.rec_headers.add_header('X-Later', '1')
            rec.rec_headers.replace_header('WARC-Date', 'changed')
        else:
            assert 'X-Later' not in rec.rec_headers, 'headers shared between records'
    r0, rec = recs
    h = rec.rec_headers
    low = dict((n.lower(), v) for n, v in before)
    same(hall(h.headers, 'WARC-Type'), [ty], 'WARC-Type')
    same(rec.rec_type, ty, 'type')
    same(h.protocol, vstr(ver), 'version')
    same(rec.format, 'warc', 'format')
    ids = hall(h.headers, 'WARC-Record-ID')
    same(len(ids), 1, 'record ids')
    if 'warc-record-id' in low:
        same(ids[0], low['warc-record-id'], 'record id of the caller')
    else:
        check_id(ids[0])
        assert ids[0] != r0.rec_headers.get_header('WARC-Record-ID'), 'same id twice'
    ds = hall(h.headers, 'WARC-Date')
    same(len(ds), 1, 'dates')
    if 'warc-date' in low:
        same(ds[0], low['warc-date'], 'date of the caller')
    else:
        check_date(ds[0], ver)
    if uri:
        same(hall(h.headers, 'WARC-Target-URI'), [uri], 'target URI')
    else:
        same(h.get_header('WARC-Target-URI'), low.get('warc-target-uri'), 'target URI')
    for n, v in before:
        if n.lower() not in ('warc-type', 'warc-target-uri'):
            same(hall(h.headers, n), [v], 'caller header %s' % n)
    same(rec.content_type, ct or low.get('content-type') or DEF.get(ty, 'application/warc-record'), 'content type')
    same(drain(rec.raw_stream.read), payload, 'payload')
