from datetime import timedelta
from decimal import Decimal
from . import lib
from amazon.ion.core import Timestamp, TimestampPrecision, OffsetTZInfo, timestamp


def run(r):
    r.bound = 'fractions of up to 60 digits; sampled, with all fractional precisions and boundary offsets'
    r.rule = 'random constructor arguments against the stated consistency rule, including contradictory ones; distinct by arguments'
    rng = r.rng
    for i in r.loop(r.scale(60000)):
        k = rng.randrange(4)
        kw = {'precision': TimestampPrecision.SECOND}
        args = [2000, 1, 1, 0, 0, 0]
        expect = None
        if k == 0:
            d = rng.choice([0, 1, 3, 6, 7, 27, 28, 29, 60, rng.randrange(61)])
            co = rng.choice([0, 1, 10 ** d - 1, 10 ** d, 5, rng.randrange(10 ** d + 1)])
            e = -d if rng.random() < 0.9 else rng.randrange(0, 4)
            neg = rng.random() < 0.05
            kw['fractional_seconds'] = lib.dec(int(neg), co, e)
            val = co * (10 ** e if e >= 0 else 1)
            if (neg and co) or (val >= 10 ** d if e < 0 else val >= 1):
                expect = ValueError
            else:
                digits = -e if e < 0 else 0
                expect = (co * 10 ** 6 // 10 ** digits if digits else 0, min(digits, 6), (co if digits else 0, digits))
        elif k in (1, 2):
            us = rng.choice([0, 1, 999999, 1000000, -1, 500000, 100, 120000, rng.randrange(10 ** 6)])
            fp = rng.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, -1])
            if rng.random() < 0.5:
                args.append(us)
            else:
                kw['microsecond'] = us
            if fp is not None or rng.random() < 0.5:
                kw['fractional_precision'] = fp
            p = 6 if fp is None else fp
            if not 0 <= us <= 999999 or not 0 <= p <= 6 or us % 10 ** (6 - p):
                expect = ValueError
            else:
                expect = (us, p, (us // 10 ** (6 - p), p))
            if k == 2 and rng.random() < 0.3:
                kw['fractional_seconds'] = Decimal('0.5')
                expect = ValueError
        else:
            if rng.random() < 0.3:
                kw['fractional_precision'] = rng.choice([0, 3])
                expect = ValueError
            elif rng.random() < 0.5:
                kw['fractional_precision'] = rng.choice([1, 6])
                kw['fractional_seconds'] = Decimal('0.25')
                expect = ValueError
            else:
                expect = (0, 0, (0, 0))
        key = (tuple(args), tuple(sorted((a, str(b)) for a, b in kw.items())))
        r.count('construct', key)
        kw0 = dict(kw)
        try:
            t = Timestamp(*args, **kw)
            fs = t.fractional_seconds
            s, dg, e = fs.as_tuple()
            co = int(''.join(map(str, dg)))
            got = (t.microsecond, t.fractional_precision, (co, -e))
            if s and co:
                got = 'negative fraction'
        except ValueError:
            got = ValueError
        except Exception as x:
            got = repr(x)
        if got != expect:
            r.fail('construct', 'got %r expected %r' % (got, expect), args=args, kwargs=kw0)
        if expect is not ValueError and i % 3 == 0:
            t2 = lib.st.IonPyTimestamp.from_value(lib.IonType.TIMESTAMP, t)
            if (t2.microsecond, t2.fractional_precision, t2.fractional_seconds) != (
                    t.microsecond, t.fractional_precision, t.fractional_seconds) or t2.precision is not t.precision:
                r.fail('copy', 'fields %r' % ((t2.microsecond, t2.fractional_precision, t2.fractional_seconds),),
                       args=args, kwargs=kw0)
            off = rng.randrange(-1439, 1440)
            a = Timestamp.adjust_from_utc_fields(2000, 1, 1, 0, 0, 0, None, OffsetTZInfo(timedelta(minutes=off)),
                                                 precision=TimestampPrecision.SECOND, fractional_seconds=t.fractional_seconds)
            if a.fractional_seconds != t.fractional_seconds or a.microsecond != t.microsecond \
                    or a.fractional_seconds.as_tuple() != t.fractional_seconds.as_tuple() \
                    or a.fractional_precision != t.fractional_precision:
                r.fail('adjust', 'fraction %r' % (a.fractional_seconds,), args=args, kwargs=kw0, offset=off)
        if i < 2:
            r.sample(args=args, kwargs=kw0, result=got)
    us_day = 24 * 3600 * 10 ** 6
    for d in r.share([-us_day - 1, -us_day, -us_day + 1, us_day - 1, us_day, us_day + 1, 0, 10 ** 15, -10 ** 15]):
        delta = timedelta(microseconds=d)
        r.count('offset', d)
        try:
            OffsetTZInfo(delta)
            ok = True
        except ValueError:
            ok = False
        if ok != (-us_day < d < us_day):
            r.fail('offset', 'accepted' if ok else 'rejected', delta=delta)
    for h in r.share(range(-26, 27)):
        for m in (None, -61, -60, -59, -1, 0, 1, 59, 60, 61):
            r.count('timestamp()', (h, m))
            try:
                t = timestamp(2000, 1, 1, off_hours=h, off_minutes=m)
                got = t.utcoffset()
            except ValueError:
                got = None
            want = timedelta(hours=h, minutes=m or 0) if abs(h) <= 23 and abs(m or 0) <= 59 else None
            if got != want:
                r.fail('timestamp()', 'offset %r' % (got,), hours=h, minutes=m)
