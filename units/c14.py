"""C14: the fractional fields of a Timestamp agree with each other."""
import datetime
from decimal import Decimal
from pyvc import terms as T
from pyvc import proxies as P
from pyvc import dt
from pyvc.contract import Unit, resolve

CORE = 'amazon.ion.core'
C = T.const
NEW = CORE + ':Timestamp.__new__'


def T0():
    return resolve(CORE + ':Timestamp')


def calendar(c):
    """Arbitrary date and time fields of the datetime constructor, or the ones of one instant."""
    return [2000, 1, 1, 0, 0, 0]


def attempt(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except ValueError:
        return None


def frac(c, co, e):
    """floor(co * 10^e * 10^6) for a value in [0, 1)."""
    if c.concrete:
        return co * 10 ** 6 * 10 ** e if e >= 0 else co * 10 ** 6 // 10 ** -e
    co, e = P.term(co), P.term(e)
    d = T.sub(C(-6), e)
    if T.is_const(d):
        return P.mkint(T.div(co, 10 ** d.val) if d.val > 0 else T.scale(co, 10 ** -d.val))
    if c.decide(T.lt(C(0), d)):
        return P.mkint(dt.floordiv10(co, d))
    for k in range(7):
        if c.decide(T.eq(d, C(-k))):
            return P.mkint(T.scale(co, 10 ** k))
    return 0


def result_fields(c, t, us, prec, parts, what):
    c.prove(t.microsecond == us, what + ': microsecond')
    c.prove(t.fractional_precision == prec, what + ': fractional_precision')
    s, co, e = dt.dec_parts(c, t.fractional_seconds)
    # a sign on a zero fraction is not observable
    c.prove(both(c, co == parts[0], e == parts[1]), what + ': fractional_seconds has exactly these digits')


def both(c, a, b):
    if c.concrete:
        return a and b
    from pyvc.engine import as_cond
    return T.and_(as_cond(a), as_cond(b))


def from_fraction(how):
    def unit(c):
        Timestamp = T0()
        fs = dt.decimal_input(c, 'fraction')
        s, co, e = dt.dec_parts(c, fs)
        args, kw = calendar(c), {'fractional_seconds': fs}
        prec = c.opaque('precision')
        if how == 'positional None':
            args.append(None)
        elif how == 'keyword None':
            kw['microsecond'] = None
            kw['fractional_precision'] = None
        if c.choice('with precision', [1, 0]):
            kw['precision'] = prec
        else:
            prec = None
        t = attempt(Timestamp, *args, **kw)
        if c.concrete:
            ok = not (s and co) and (co == 0 if e >= 0 else co < 10 ** -e)
        else:
            co_, e_ = P.term(co), P.term(e)
            ok = T.or_(T.eq(co_, C(0)), T.and_(T.eq(P.term(s), C(0)), T.lt(e_, C(0)), T.lt(co_, dt.pow10(T.neg(e_)))))
            ok = c.decide(ok)
        if t is None:
            c.prove(not ok, 'a fraction in [0, 1) is accepted')
            return
        c.prove(ok, 'a fraction outside [0, 1) is rejected')
        if e > 0:
            want = (0, 0)                    # zero with a positive exponent has no digits
        else:
            want = (co, e)
        digits = -want[1]
        c.prove(t.precision is prec, 'precision is kept')
        result_fields(c, t, frac(c, *want), 6 if digits > 6 else digits, want, 'from a fraction')
    return unit


def from_micro(how):
    def unit(c):
        Timestamp = T0()
        us = c.int('microsecond', -10 ** 20, 10 ** 20)
        args, kw = calendar(c), {}
        if how == 'positional':
            args.append(us)
        else:
            kw['microsecond'] = us
        fp = None
        k = c.choice('fractional_precision', ['absent', 'None', 'given'])
        if k == 'None':
            kw['fractional_precision'] = None
        elif k == 'given':
            fp = kw['fractional_precision'] = c.int('fp', -3, 9)
        if c.choice('fraction argument', ['absent', 'None']) == 'None':
            kw['fractional_seconds'] = None
        t = attempt(Timestamp, *args, **kw)
        ok = False
        if us >= 0 and us <= 999999:
            if fp is None:
                ok, fp = True, 6
            elif fp >= 0 and fp <= 6:
                for p in range(7):
                    if fp == p:
                        fp = p
                        ok = bool(us % 10 ** (6 - p) == 0)
                        break
        if t is None:
            c.prove(not ok, 'a microsecond value expressible in the precision is accepted')
            return
        c.prove(ok, 'an out of range or inexpressible microsecond value is rejected')
        result_fields(c, t, us, fp, (us // 10 ** (6 - fp), -fp), 'from microseconds')
    return unit


def neither(c):
    Timestamp = T0()
    args, kw = calendar(c), {}
    k = c.choice('how', ['absent', 'positional None', 'keyword None'])
    if k == 'positional None':
        args.append(None)
    elif k == 'keyword None':
        kw['microsecond'] = None
    if c.choice('fraction argument', ['absent', 'None']) == 'None':
        kw['fractional_seconds'] = None
    fp = c.choice('fp', ['absent', 'None', 'given'])
    if fp == 'None':
        kw['fractional_precision'] = None
    if fp == 'given':
        kw['fractional_precision'] = c.int('fractional_precision', -3, 9)
        c.prove(attempt(Timestamp, *args, **kw) is None, 'a precision of nothing is rejected')
        return
    t = attempt(Timestamp, *args, **kw)
    c.prove(t is not None, 'no sub-second argument is fine')
    result_fields(c, t, 0, 0, (0, 0), 'without sub-second arguments')


def contradiction(c):
    Timestamp = T0()
    fs = dt.decimal_input(c, 'fraction')
    args, kw = calendar(c), {'fractional_seconds': fs}
    k = c.choice('with', ['precision', 'positional', 'keyword', 'both'])
    if k in ('precision', 'both'):
        kw['fractional_precision'] = c.int('fp', -3, 9)
    if k == 'positional':
        args.append(c.int('us', 0, 999999))
    elif k in ('keyword', 'both'):
        kw['microsecond'] = c.int('us', 0, 999999)
    c.prove(attempt(Timestamp, *args, **kw) is None, 'a fraction with microseconds or a precision is rejected')


def delta_input(c, name):
    us = c.int(name, -2 * dt.DAY_US, 2 * dt.DAY_US)
    return (datetime.timedelta(microseconds=us) if c.concrete else dt.VDelta(us.t)), us


def offset(c):
    Offset = resolve(CORE + ':OffsetTZInfo')
    d, us = delta_input(c, 'delta_us')
    ok = bool(us > -dt.DAY_US) and bool(us < dt.DAY_US)
    t = attempt(Offset, d)
    if t is None:
        c.prove(not ok, 'an offset strictly between -24h and +24h is accepted')
        return
    c.prove(ok, 'an offset of 24h or more is rejected')
    c.prove(t.utcoffset(None) == d, 'the offset is the one given')


def shorthand(c):
    """timestamp(): hour and minute offsets, with the fractional arguments passed on."""
    fn = resolve(CORE + ':timestamp')
    kw = {}
    h = m = None
    if c.choice('hours', [1, 0]):
        h = kw['off_hours'] = c.int('off_hours', -100, 100)
    if c.choice('minutes', [1, 0]):
        m = kw['off_minutes'] = c.int('off_minutes', -100, 100)
    prec = kw['precision'] = c.opaque('precision')
    us = None
    if c.choice('microsecond', [0, 1]):
        us = c.int('us', 0, 999999)
    t = attempt(fn, 2000, 2, 3, 4, 5, 6, us, **kw)
    ok = True
    if h is not None and not (h >= -23 and h <= 23):
        ok = False
    if m is not None and not (m >= -59 and m <= 59):
        ok = False
    # hour and minute parts of opposite sign are added; the sum is always within the day
    if t is None:
        c.prove(not ok, 'offsets in range are accepted')
        return
    c.prove(ok, 'offsets out of range are rejected')
    if h is None and m is None:
        c.prove(t.tzinfo is None, 'no offset: a naive timestamp')
    else:
        total = (0 if h is None else h * 60) + (0 if m is None else m)
        off = t.tzinfo.utcoffset(t)
        if c.concrete:
            c.prove(off == datetime.timedelta(minutes=total), 'the offset is the sum of its parts')
        else:
            c.prove(off == dt.VDelta(T.scale(P.term(total), 60 * dt.US)), 'the offset is the sum of its parts')
    c.prove((t.year, t.month, t.day, t.hour, t.minute, t.second) == (2000, 2, 3, 4, 5, 6), 'calendar fields are kept')
    c.prove(t.precision is prec, 'precision is kept')
    if us is None:
        result_fields(c, t, 0, 0, (0, 0), 'timestamp()')
    else:
        result_fields(c, t, us, 6, (us, -6), 'timestamp()')


def adjust(c):
    """adjust_from_utc_fields keeps every fractional digit, the offset and the precision."""
    fn = resolve(CORE + ':Timestamp.adjust_from_utc_fields')
    Offset = resolve(CORE + ':OffsetTZInfo')
    TP = resolve(CORE + ':TimestampPrecision')
    fs = dt.decimal_input(c, 'fraction', -30 if c.concrete else None, 0)
    s, co, e = dt.dec_parts(c, fs)
    c.assume(s == 0)
    if c.concrete:
        c.assume(e < 0 and co < 10 ** -e or co == 0)
    else:
        c.assume(T.or_(T.eq(co.t, C(0)) if P.is_sym(co) else T.TRUE, T.and_(T.lt(P.term(e), C(0)), T.lt(P.term(co), dt.pow10(T.neg(P.term(e)))))))
    if c.choice('offset', ['none', 'some']) == 'none':
        tz, m = None, None
    else:
        m = c.int('offset_minutes', -1439, 1439)
        tz = Offset(datetime.timedelta(minutes=m) if c.concrete else dt.VDelta(T.scale(P.term(m), 60 * dt.US)))
    prec = c.choice('precision', [TP.SECOND, TP.MINUTE])
    try:
        t = fn(2000, 1, 1, 0, 0, 0, None, tz, precision=prec, fractional_precision=None, fractional_seconds=fs)
    except OverflowError:
        return
    c.prove(t.tzinfo is tz, 'the offset is kept')
    c.prove(t.precision is prec, 'the precision is kept')
    result_fields(c, t, frac(c, co, e), 6 if e < -6 else -e, (co, e), 'adjusted')
    if m is not None and m == 0:
        c.prove((t.year, t.month, t.day, t.hour, t.minute, t.second) == (2000, 1, 1, 0, 0, 0), 'zero offset: same fields')


def rejects_calendar(c):
    """Impossible calendar fields are rejected."""
    Timestamp = T0()
    f = [c.int(n, -1, 10000 if n == 'year' else 70) for n in ('year', 'month', 'day', 'hour', 'minute', 'second')]
    t = attempt(Timestamp, *f)
    if c.concrete:
        try:
            datetime.datetime(*f)
            ok = True
        except ValueError:
            ok = False
    else:
        ok = c.decide(dt.in_range([P.term(x) for x in f] + [C(0)]))
    if t is None:
        c.prove(not ok, 'a real date is accepted')
        return
    c.prove(ok, 'an impossible date is rejected')
    for n, v in zip(dt.FIELDS, f):
        c.prove(getattr(t, n) == v, n + ' is kept')


ASSUMPTIONS = ['decimal.Decimal and datetime.datetime behave as modelled in pyvc/dt.py (quantize, scaleb, comparison with '
               '0 and 1, field ranges, the inverse law of calendar shifts)']
UNITS = [Unit('C14.Timestamp[fraction, %s]' % h, from_fraction(h), of=[NEW], seconds=200)
         for h in ('alone', 'positional None', 'keyword None')]
UNITS += [Unit('C14.Timestamp[microsecond, %s]' % h, from_micro(h), of=[NEW], seconds=200) for h in ('positional', 'keyword')]
UNITS += [
    Unit('C14.Timestamp[neither]', neither, of=[NEW]),
    Unit('C14.Timestamp[contradiction]', contradiction, of=[NEW]),
    Unit('C14.Timestamp[calendar]', rejects_calendar, of=[NEW]),
    Unit('C14.OffsetTZInfo', offset, of=[CORE + ':OffsetTZInfo.__init__', CORE + ':OffsetTZInfo.utcoffset']),
    Unit('C14.timestamp', shorthand, of=[CORE + ':timestamp', NEW]),
    Unit('C14.adjust_from_utc_fields', adjust, of=[CORE + ':Timestamp.adjust_from_utc_fields', NEW]),
]
