"""ARC header lines and their conversion (C13)"""
from pyvc.verify import *
from pyvc import dates as D
from . import c_headers as H, c_record as R, c_time as T, c_create as C

ARC, A2W = 'recordloader.ARCHeadersParser', 'recordloader.ARC2WARCHeadersParser'
NAMES = {ARC: ['uri', 'ip-address', 'archive-date', 'content-type', 'length'],
         A2W: ['WARC-Target-URI', 'WARC-IP-Address', 'WARC-Date', 'Content-Type', 'Content-Length']}
f_tsiso = M.U('ts_iso', z3.StringSort(), z3.StringSort())
FD = strval('filedesc://')


def text_of(c, b):
    """a line decoded: as UTF-8, else as Latin-1"""
    if kind(b) == 'str':
        return term(b)
    ok, d = M.dec8(c.path, term(b))
    return d if c.path.decide(ok) else term(b)


def fields(c, h, n):
    """the text split at its last n-1 spaces; None if there are less"""
    out = []
    for _ in range(n - 1):
        if not c.path.decide(z3.Contains(h, strval(' '))):
            return None
        h, x = M.last_split(c.path, h, ' ')
        out.insert(0, x)
    return [h] + out


class TsToDt(Contract):
    """call side of timestamp_to_datetime (proved for any text in c_time)"""
    target = T.T + 'timestamp_to_datetime'
    assumed = True

    def applies(self, c, a):
        return isinstance(c.ver.cur, TsToIso) and kind(a.string) == 'str' and a.tz_aware is False

    def result(self, c, a, o):
        fs = T.mk_fields(c)
        R.log(c, 'dt').append((a.string, fs))
        return D.make(fs, None)


class TsToIso(Contract):
    """the ISO date of the time of any text: a function of the text"""
    target = T.T + 'timestamp_to_iso_date'
    props = ('C13', 'C17')

    def args(self, c):
        return {'string': c.str('ts')}

    def applies(self, c, a):
        return isinstance(c.ver.cur, Parse) and kind(a.string) == 'str'

    def result(self, c, a, o):
        return wrap('str', f_tsiso(term(a.string)))

    def post(self, c, a, o, r):
        if not isinstance(c.ver.cur, TsToIso):
            return
        l = R.log(c, 'dt')
        yield 'one time', z3.BoolVal(len(l) == 1 and kind(r) == 'str')
        if len(l) == 1 and kind(r) == 'str':
            yield 'its ISO date', And(eq(l[0][0], a.string), term(r) == T.iso(c, l[0][1]))


class Parse(Contract):
    """an ARC line gives its five fields, or the WARC headers made of them"""
    props = ('C13',)
    call_side = False
    timeout = 200

    def __init__(self, cls, given):
        self.arccls, self.given = cls, given
        self.target = ARC + '.parse'
        self.name = '%s (%s, %s)' % (self.target, 'converted' if cls == A2W else 'as it is', 'line given' if given else 'line read')

    def args(self, c):
        s = c.stream('in')
        s.attrs['det'] = True
        return {'self': c.interp.call(c.cls(self.arccls), [], {}), 'stream': s, 'headerline': c.str('line') if self.given else None}

    def old(self, c, a):
        o = Args({})
        p = c.path
        rest = o.rest = term(a.stream.attrs['rest'])
        o.lines = []

        def line(rest):
            r, q = M.det_line(rest, z3.IntVal(-1))
            # what the line is: as abs_readline has it
            p.assume(And(rest == concat(r, q), M.line_facts(r, q, None), z3.Implies(r == EMPTY, rest == EMPTY)))
            o.lines.append(r)
            return r, q
        if self.given:
            t = term(a.headerline)
        else:
            r, rest = line(rest)
            t = text_of(c, wrap('bytes', r))
        o.eof = t == EMPTY
        o.fields = None
        o.head = False
        if not p.decide(o.eof):
            o.h = M.rstrip(p, t)
            o.head = p.decide(z3.PrefixOf(FD, o.h))
            o.extra = z3.IntVal(0)
            if o.head:
                for _ in range(2):
                    r, rest = line(rest)
                    o.extra = o.extra + length(r)
            o.fields = fields(c, o.h, 5)
            o.eof = z3.BoolVal(False)
        else:
            o.eof = z3.BoolVal(True)
        o.left = rest
        return o

    def mods(self, c, a):
        return [(a.stream, '**', None)]

    def raises(self, c, a, o):
        return [(EOFError, o.eof, None), (c.cls(R.SHE), And(Not(o.eof), z3.BoolVal(o.fields is None)), None)]

    def post(self, c, a, o, r):
        p = c.path
        ok = isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.qual == H.SH and o.fields is not None
        yield 'headers', z3.BoolVal(ok)
        if not ok:
            return
        yield 'the line and, for filedesc, two more lines are read', term(a.stream.attrs['rest']) == o.left
        yield 'length of the two lines', eq(r.attrs['total_len'], o.extra)
        yield 'no status line', eq(r.attrs['statusline'], '')
        f = list(o.fields)
        names = list(NAMES[self.arccls])
        want = []
        if self.arccls == A2W:
            yield 'WARC version', eq(r.attrs['protocol'], 'WARC/1.0')
            i = C.new_id(c)
            yield 'one new id', z3.BoolVal(i is not None)
            if i is None:
                return
            want = [('WARC-Type', strval('warcinfo' if o.head else 'response')), ('WARC-Record-ID', term(i))]
            f[2] = f_tsiso(f[2])
            if o.head:
                names[0] = 'WARC-Filename'
                x = c.str('name').t
                p.assume(If(z3.PrefixOf(FD, f[0]), f[0] == concat(FD, x), x == EMPTY))
                f[0] = x
            else:
                f[3] = strval('application/http;msgtype=response')
        want += list(zip(names, f))
        segs = p.norm(H.hdrs(r))
        es = [s[1] for s in segs if isinstance(s, tuple)]
        by = [(M.lit(n), v) for n, v in es]
        good = len(es) == len(segs) and sorted(str(n) for n, _ in by) == sorted(n for n, _ in want)
        yield 'exactly these headers', z3.BoolVal(good)
        if good:
            by = dict(by)
            for n, v in want:
                yield n, eq(by[n], v)


class Block(R.ParseRecord):
    """the content of a record is as long as declared, the lines of a filedesc record counted"""
    props = ('C13',)

    def __init__(self, fmt):
        R.ParseRecord.__init__(self, fmt, True, False, False)
        self.name = '%s (length of %s records)' % (self.target, fmt)

    def post(self, c, a, o, r):
        for l, f in R.ParseRecord.post(self, c, a, o, r):
            if l in ('one record', 'its headers', 'length', 'the block is limited', 'to its length', 'only http headers are read from the block', 'without length the stream is not limited'):
                yield l, f


CONTRACTS = [Block('arc'), Block('arc2warc')] + [TsToDt(), TsToIso()] + [Parse(k, g) for k in (ARC, A2W) for g in (False, True)]
