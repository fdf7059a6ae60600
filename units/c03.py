"""C03: timestamps survive binary and text round trips."""
import datetime
from pyvc import dt as D
from pyvc import proxies as P
from pyvc import terms as T
from pyvc.rt import vc_call
from pyvc.contract import Contract, Unit, resolve
from units import binio as B
from units import fields as F
from units import textio as X

C = T.const
CORE = 'amazon.ion.core'
WT = 'amazon.ion.writer_text'
RT = 'amazon.ion.reader_text'


class TimestampNew(Contract):
    """Timestamp(…, fractional_seconds=…): a fraction in [0, 1) is kept digit for digit; any other is a ValueError."""
    target = CORE + ':Timestamp'
    proved = 'C14.Timestamp[fraction, *]'

    def call(self, c, f, args, kw):
        fs = kw.get('fractional_seconds')
        if type(fs) is not D.VDecimal or len(args) > 6 and args[6] is not None or kw.get('microsecond') is not None or \
                kw.get('fractional_precision') is not None:
            return f(*args, **kw)
        c.result.assumed.add(self.target)
        s, co, e = fs.s, fs.co, fs.e
        if not c.decide(T.or_(T.eq(co, C(0)), T.and_(T.eq(s, C(0)), T.lt(e, C(0)), T.lt(co, D.pow10(T.neg(e)))))):
            raise ValueError('fractional_seconds')
        if c.decide(T.lt(C(0), e)):
            fs = D.VDecimal(C(0), C(0), C(0))
            e = C(0)
        us = T.app('microseconds_of', (co, e))
        c.assume(T.and_(T.le(C(0), us), T.lt(us, C(D.US)), T.implies(T.eq(co, C(0)), T.eq(us, C(0)))))
        for k in range(7):
            c.assume(T.implies(T.eq(e, C(-k)), T.eq(us, T.scale(co, 10 ** (6 - k)))))
        vals = dict(zip(D.FIELDS, args))
        vals.update((k, v) for k, v in kw.items() if k in D.FIELDS)
        fields = [P.term(vals.get(n) if vals.get(n) is not None else 0) for n in D.FIELDS[:6]] + [us]
        if not c.decide(D.in_range(fields)):
            raise ValueError('datetime field out of range')
        t = D.make(f, fields, args[7] if len(args) > 7 else kw.get('tzinfo'))
        t.precision, t.fractional_seconds = kw.get('precision'), fs
        t.fractional_precision = P.mkint(T.ite(T.lt(e, C(-6)), C(6), T.neg(e)))
        return t


def precisions():
    TP = resolve(CORE + ':TimestampPrecision')
    return [TP.YEAR, TP.MONTH, TP.DAY, TP.MINUTE, TP.SECOND]


def calendar_fields(c, rank):
    """Arbitrary calendar fields that a timestamp of the given precision can have (year … second)."""
    lo, hi = (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59)
    n = (1, 2, 3, 5, 6)[rank]
    f = []
    for i, name in enumerate(D.FIELDS[:6]):
        f.append(c.int(name, lo[i], hi[i]) if i < n else lo[i])
    if c.concrete:
        try:
            datetime.datetime(*f)
        except ValueError:
            from pyvc.conc import Skip
            raise Skip()
    else:
        c.assume(D.in_range([P.term(x) for x in f] + [C(0)]))
    return f


def offset_input(c, how=None):
    """(tzinfo, minutes); minutes is None for an unknown offset."""
    if (how or c.choice('offset', ['unknown', 'known'])) == 'unknown':
        return None, None
    m = c.int('offset_minutes', 0 if how == 'east' else -1439, -1 if how == 'west' else 1439)
    Offset = resolve(CORE + ':OffsetTZInfo')
    return Offset(datetime.timedelta(minutes=m) if c.concrete else D.VDelta(T.scale(P.term(m), 60 * D.US))), m


def fraction_input(c):
    """(decimal, coefficient, exponent) in [0, 1)."""
    fs = D.decimal_input(c, 'fraction', -40 if c.concrete else None, 0)
    s, co, e = D.dec_parts(c, fs)
    c.assume(s == 0)
    if c.concrete:
        c.assume(co == 0 or e < 0 and co < 10 ** -e)
    else:
        c.assume(T.or_(T.eq(P.term(co), C(0)), T.and_(T.lt(P.term(e), C(0)), T.lt(P.term(co), D.pow10(T.neg(P.term(e)))))))
    return fs, co, e


def minutes_of(c, ts):
    """The offset of a timestamp in minutes; None when unknown."""
    if ts.tzinfo is None:
        return None
    off = ts.tzinfo.utcoffset(ts)
    if c.concrete:
        return off.days * 1440 + off.seconds // 60
    us = D.us_of(off)
    c.prove(T.eq(T.mod(us, 60 * D.US), C(0)), 'the offset is a whole number of minutes')
    return P.mkint(T.div(us, 60 * D.US))


def utc_ok(c, ts):
    """UTC years 1 to 9999."""
    if c.concrete:
        try:
            if ts.tzinfo is not None:
                ts - ts.tzinfo.utcoffset(ts)
        except OverflowError:
            from pyvc.conc import Skip
            raise Skip()
    else:
        c.ghost['shift_in_range'] = True


def same(c, r, fields, minutes, precision, co, e):
    Timestamp = resolve(CORE + ':Timestamp')
    c.prove(isinstance(r, Timestamp), 'a timestamp is read')
    c.prove(r.precision is precision, 'the same precision')
    for n, v in zip(D.FIELDS, fields):
        c.prove(getattr(r, n) == v, 'the same ' + n)
    m = minutes_of(c, r)
    if minutes is None:
        c.prove(m is None, 'the offset stays unknown')
    else:
        c.prove(m is not None and m == minutes, 'the same offset')
    _, co2, e2 = D.dec_parts(c, r.fractional_seconds)
    c.prove(co2 == co, 'the same fractional digits')
    c.prove(e2 == e, 'the same number of fractional digits')


def timestamp_input(c, rank=None, offset=None, fraction=None):
    """(timestamp, fields, offset minutes, precision, coefficient, exponent)."""
    Timestamp = resolve(CORE + ':Timestamp')
    ps = precisions()
    rank = c.choice('precision', list(range(5))) if rank is None else rank
    f = calendar_fields(c, rank)
    tz, m = offset_input(c, offset) if rank >= 3 else (None, None)
    kw, co, e = {}, 0, 0
    if rank == 4 and (fraction or c.choice('fraction', ['some', 'none'])) == 'some':
        kw['fractional_seconds'], co, e = fraction_input(c)
    args = f + [None, tz]
    kw['precision'] = ps[rank]
    ts = Timestamp(*args, **kw) if c.concrete else vc_call(Timestamp, *args, **kw)
    utc_ok(c, ts)
    return ts, f, m, ps[rank], co, e


def binary_trip(c, value):
    from amazon.ion.core import IonEventType, IonType
    data = B.write(c, [B.scalar(IonType.TIMESTAMP, value), B.scalar(IonType.BOOL, True)])
    evs, end = B.read(c, B.concat(c, [B.IVM, data]))
    c.prove(len(evs) == 3 and end, 'one value is read, and what follows it')
    c.prove(evs[1].event_type is IonEventType.SCALAR and evs[1].ion_type is IonType.TIMESTAMP, 'a timestamp is read')
    c.prove(evs[2].ion_type is IonType.BOOL and evs[2].value is True, 'the value after it is read')
    return evs[1].value


def binary(c):
    ts, f, m, p, co, e = timestamp_input(c)
    same(c, binary_trip(c, ts), f, m, p, co, e)


def datetime_input(c):
    f = calendar_fields(c, 4)
    us = c.int('microsecond', 0, 999999)
    tz, m = offset_input(c)
    if c.concrete:
        v = datetime.datetime(*(f + [us, tz]))
    else:
        v = D.make(datetime.datetime, [P.term(x) for x in f] + [P.term(us)], tz)
    utc_ok(c, v)
    return v, f, m, us


def binary_datetime(c):
    """A plain datetime is a timestamp of second precision with six fractional digits."""
    v, f, m, us = datetime_input(c)
    same(c, binary_trip(c, v), f, m, precisions()[4], us, -6)


# ---------------------------------------------------------------------------------------------------------------
# text

def text_of(c, value):
    from amazon.ion.core import IonType
    return resolve(WT + ':_serialize_timestamp')(B.scalar(IonType.TIMESTAMP, value))


def text_trip(c, value):
    from amazon.ion.core import IonEventType, IonType
    data = text_of(c, value)
    if not c.concrete:
        data = spelled(c, data)
    data = B.concat(c, [data, b' true '])
    evs, end = X.events(X.text_reader(False), [data])
    c.prove(len(evs) == 2 and end, 'one value is read, and what follows it')
    c.prove(evs[0].event_type is IonEventType.SCALAR and evs[0].ion_type is IonType.TIMESTAMP, 'a timestamp is read')
    c.prove(evs[1].ion_type is IonType.BOOL and evs[1].value is True, 'the value after it is read')
    return evs[0].value


def spelled(c, data):
    """The zeros and digits of a fraction as one digit string: it has their length, and the value of the digits."""
    from pyvc import digits as G
    ps = G.merge(P.pieces_of(data))
    out, run = [], []
    for p in ps + [None]:
        if isinstance(p, P.View) and G.is_digits(p.arr) and p.arr not in c.ghost.get('elements', ()):
            run.append(p)
            continue
        if len(run) > 1:
            a, n = G.digit_array('spelled'), P.total(run)
            c.assume(T.eq(G.fold(a, C(0), n), G.value(run)))
            run = [P.View(a, C(0), n)]
        out += run
        run = []
        if p is not None:
            out.append(p)
    return P.VBytes(out)


def text(*how):
    def unit(c):
        ts, f, m, p, co, e = timestamp_input(c, *how)
        same(c, text_trip(c, ts), f, m, p, co, e)
    return unit


def text_datetime(c):
    v, f, m, us = datetime_input(c)
    same(c, text_trip(c, v), f, m, precisions()[4], us, -6)


WRITE = ['_serialize_timestamp', '_write_timestamp_fractional_seconds', '_write_decimal_value', '_write_length']
UNITS = [
    Unit('C03.binary', binary, contracts=B.CONTRACTS + [TimestampNew], loops=B.LOOPS, of=[B.RAW + ':' + x for x in WRITE] +
         [B.READER + ':_timestamp_factory'], seconds=300),
    Unit('C03.binary[datetime]', binary_datetime, contracts=B.CONTRACTS + [TimestampNew], loops=B.LOOPS,
         of=[B.RAW + ':_serialize_timestamp', B.READER + ':_timestamp_factory'], seconds=300),
    Unit('C03.text[datetime]', text_datetime, contracts=[TimestampNew], loops=X.SCANS, of=[WT + ':_bytes_datetime', RT + ':_parse_timestamp'], seconds=300),
]
for _k in [(0,), (1,), (2,)] + [(3, o) for o in ('unknown', 'known')] + [
        (4, 'unknown', 'none'), (4, 'known', 'none'), (4, 'unknown', 'some'), (4, 'east', 'some'), (4, 'west', 'some')]:
    _n = ('year', 'month', 'day', 'minute', 'second')[_k[0]]
    _n += ''.join(', %s %s' % x for x in zip(('offset', 'fraction'), _k[1:]))
    UNITS.append(Unit('C03.text[%s]' % _n, text(*_k), contracts=[TimestampNew], loops=X.SCANS, of=[
        WT + ':_bytes_datetime', WT + ':_bytes_utc_offset', RT + ':_timestamp_handler', RT + ':_parse_timestamp'], seconds=330))
UNITS.reverse()         # the longest first

ASSUMPTIONS = ['datetime and timedelta arithmetic behave as modelled in pyvc/dt.py (the proleptic Gregorian calendar)']
