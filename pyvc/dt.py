"""Models of decimal.Decimal, datetime.datetime and datetime.timedelta over symbolic components.

A decimal is (sign, coefficient, exponent) with mathematical components.  A datetime is a real instance of the real class
whose slots hold symbolic fields.  The arithmetic facts assumed of these library types are the ones written here; they
are part of the trusted base.
"""
import datetime as _dt
import decimal as _dec

from . import terms as T
from . import proxies as P
from . import rt
from .engine import ctx, Unsupported, as_cond

C = T.const


def pow10(k):
    """10^k for k >= 0 as a term."""
    if T.is_const(k):
        return C(10 ** k.val)
    c = ctx()
    t = c.family('pow10', (), k, base=C(1), step=lambda cur, at: T.scale(cur, 10))
    key = ('pow10', t.id)
    if key not in c.ghost:
        c.ghost[key] = 1
        c.assume(T.le(C(1), t))
        for j in range(8):
            c.assume(T.implies(T.eq(k, C(j)), T.eq(t, C(10 ** j))))
    return t


def floordiv10(co, k):
    """floor(co / 10^k) for co, k >= 0: the spec function of truncating a decimal."""
    if T.is_const(k):
        return T.div(co, 10 ** k.val)
    c = ctx()
    q = T.app('floordiv10', (co, k))
    key = ('fd10', q.id)
    if key not in c.ghost:
        c.ghost[key] = 1
        p = pow10(k)
        c.assume(T.and_(T.le(C(0), q), T.le(q, co)))
        c.assume(T.implies(T.eq(k, C(0)), T.eq(q, co)))
        c.assume(T.implies(T.lt(co, p), T.eq(q, C(0))))
        # co < 10^(k+m) implies q < 10^m
        for m in (6,):
            c.assume(T.implies(T.lt(co, T.app('pow10', (T.add(k, C(m)),))), T.lt(q, C(10 ** m))))
            pow10(T.add(k, C(m)))
    return q


class Digits(P.Sym):
    """The tuple of decimal digits of a non-negative integer, most significant first."""
    _vc_class = tuple

    def __init__(self, co):
        self.co = co

    @property
    def __class__(self):
        return tuple

    def __eq__(self, o):
        if isinstance(o, Digits):
            return P.mkbool(T.eq(self.co, o.co))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(as_cond(r)))
    __hash__ = P.Sym.__hash__


class DecTuple(P.Sym):
    _vc_class = _dec.DecimalTuple

    def __init__(self, s, co, e):
        self.sign, self.digits, self.exponent = P.mkint(s), Digits(co), P.mkint(e)
        self.parts = (s, co, e)

    def __iter__(self):
        return iter((self.sign, self.digits, self.exponent))

    def vc_getitem(self, k):
        return (self.sign, self.digits, self.exponent)[k]

    def __eq__(self, o):
        if isinstance(o, DecTuple):
            return P.mkbool(T.and_(*[T.eq(a, b) for a, b in zip(self.parts, o.parts)]))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(as_cond(r)))
    __hash__ = P.Sym.__hash__


def parts(x):
    """(sign, coefficient, exponent) terms of a decimal or integer; None for special values."""
    if type(x) is VDecimal or isinstance(x, VDecimal):
        return x.s, x.co, x.e
    if P.intlike(x):
        t = P.term(x)
        neg = T.lt(t, C(0))
        return T.ite(neg, C(1), C(0)), T.ite(neg, T.neg(t), t), C(0)
    if isinstance(x, _dec.Decimal):
        s, d, e = x.as_tuple()
        if not isinstance(e, int):
            return None
        return C(s), C(int(''.join(map(str, d)) or '0')), C(e)
    return None


class VDecimal(P.Sym):
    _vc_class = _dec.Decimal

    def __init__(self, s, co, e):
        self.s, self.co, self.e = s, co, e

    @property
    def __class__(self):
        return _dec.Decimal

    def as_tuple(self):
        return DecTuple(self.s, self.co, self.e)

    def is_nan(self):
        return False

    is_infinite = is_snan = is_qnan = is_nan

    def is_finite(self):
        return True

    def is_signed(self):
        return P.mkbool(T.eq(self.s, C(1)))

    def is_zero(self):
        return P.mkbool(T.eq(self.co, C(0)))

    def _vc_bool(self):
        return T.not_(T.eq(self.co, C(0)))

    def __bool__(self):
        return ctx().decide(self._vc_bool())

    # -- comparison ---------------------------------------------------------------------------------------------
    def _cmp0(self):
        """(negative, zero, positive) as conditions."""
        z = T.eq(self.co, C(0))
        return T.and_(T.not_(z), T.eq(self.s, C(1))), z, T.and_(T.not_(z), T.eq(self.s, C(0)))

    def _lt_int(self, n):
        """self < n for a constant integer n in {0, 1}."""
        neg, z, pos = self._cmp0()
        if n == 0:
            return neg
        if n == 1:
            # co * 10^e < 1: with e >= 0 only when co = 0; with e < 0 when co < 10^-e
            frac = T.and_(T.lt(self.e, C(0)), T.lt(self.co, pow10(T.neg(self.e))))
            return T.or_(neg, z, frac)
        raise Unsupported('comparison of a symbolic decimal with %r' % (n,))

    def _gt_int(self, n):
        neg, z, pos = self._cmp0()
        if n == 0:
            return pos
        if n == 1:
            one = T.and_(T.eq(self.s, C(0)), T.le(self.e, C(0)), T.eq(self.co, pow10(T.neg(self.e))))
            return T.and_(T.not_(self._lt_int(1)), T.not_(one))
        raise Unsupported('comparison of a symbolic decimal with %r' % (n,))

    def _const(self, o):
        p = parts(o)
        if p is None or not all(T.is_const(x) for x in p):
            return None
        s, co, e = [x.val for x in p]
        v = _dec.Decimal((s, tuple(int(ch) for ch in str(co)), e))
        return int(v) if v == int(v) else v

    def _bin(self, o, f):
        n = self._const(o)
        if n is None:
            if parts(o) is None:
                return NotImplemented
            raise Unsupported('order of two symbolic decimals')
        return P.mkbool(f(n))

    def __lt__(self, o):
        return self._bin(o, self._lt_int)

    def __ge__(self, o):
        return self._bin(o, lambda n: T.not_(self._lt_int(n)))

    def __gt__(self, o):
        return self._bin(o, self._gt_int)

    def __le__(self, o):
        return self._bin(o, lambda n: T.not_(self._gt_int(n)))

    def __eq__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        s, co, e = p
        if T.is_const(co) and co.val == 0:
            return P.mkbool(T.eq(self.co, C(0)))
        if o is self:
            return True
        # Numeric equality: decided here from the components when they agree, an uninterpreted relation otherwise.
        c = ctx()
        same = T.and_(T.eq(self.s, s), T.eq(self.co, co), T.eq(self.e, e))
        r = T.app('dec_eq', (self.s, self.co, self.e, s, co, e), T.BOOL)
        bothz = T.and_(T.eq(self.co, C(0)), T.eq(co, C(0)))
        onez = T.not_(T.eq(T.eq(self.co, C(0)), T.eq(co, C(0))))
        c.assume(T.implies(same, r))
        c.assume(T.implies(bothz, r))
        c.assume(T.implies(onez, T.not_(r)))
        c.assume(T.implies(T.and_(T.not_(bothz), T.not_(T.eq(self.s, s))), T.not_(r)))
        # with the same exponent, equal values have equal coefficients
        c.assume(T.implies(T.and_(r, T.not_(bothz), T.eq(self.e, e)), T.eq(self.co, co)))
        return P.mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(as_cond(r)))
    __hash__ = P.Sym.__hash__

    def canonical(self):
        return self

    def compare_total(self, o, context=None):
        p = parts(o)
        if p is None:
            raise Unsupported('total order of %r' % (o,))
        r = ctx().fresh('compare_total')
        same = T.and_(*[T.eq(x, y) for x, y in zip((self.s, self.co, self.e), p)])
        ctx().assume(T.and_(T.eq(T.eq(r, C(0)), same), T.le(C(-1), r), T.le(r, C(1))))
        return P.mkint(r)

    # -- arithmetic ---------------------------------------------------------------------------------------------
    def scaleb(self, n, context=None):
        prec = (context or _dec.getcontext()).prec
        if not ctx().decide(T.lt(self.co, C(10 ** prec))):
            raise Unsupported('a decimal operation that rounds')
        return VDecimal(self.s, self.co, T.add(self.e, P.term(n)))

    def quantize(self, q, rounding=None, context=None):
        context = context or _dec.getcontext()
        rounding = rounding or context.rounding
        p = parts(q)
        if p is None or not T.is_const(p[2]):
            raise Unsupported('quantize to a symbolic exponent')
        qe = p[2]
        c = ctx()
        d = T.sub(qe, self.e)            # digits to drop
        if T.is_const(d) or not c.decide(T.lt(C(0), d)):
            if T.is_const(d) and d.val > 0:
                r = T.div(self.co, 10 ** d.val)
                exact = T.eq(T.mod(self.co, 10 ** d.val), C(0))
            elif T.is_const(d):
                r, exact = T.scale(self.co, 10 ** -d.val), T.TRUE
            else:
                if c.decide(T.eq(self.co, C(0))):
                    return VDecimal(self.s, C(0), qe)
                for k in range(0, 13):
                    if c.decide(T.eq(d, C(-k))):
                        r, exact = T.scale(self.co, 10 ** k), T.TRUE
                        break
                else:
                    raise Unsupported('quantize adds many digits')
        else:
            r = floordiv10(self.co, d)
            exact = T.eq(self.co, T.mul(r, pow10(d))) if T.is_const(pow10(d)) else None
        if not c.decide(T.lt(r, C(10 ** context.prec))):
            if context.traps[_dec.InvalidOperation]:
                raise _dec.InvalidOperation()
            raise Unsupported('quantize without enough precision')
        if exact is not None and c.decide(exact):
            return VDecimal(self.s, r, qe)
        if context.traps[_dec.Inexact]:
            if exact is None:
                raise Unsupported('exactness of a symbolic quantize')
            raise _dec.Inexact()
        if rounding == _dec.ROUND_DOWN or rounding == _dec.ROUND_FLOOR and c.decide(
                T.or_(T.eq(self.s, C(0)), T.eq(self.co, C(0)))):
            return VDecimal(self.s, r, qe)
        raise Unsupported('rounding %s' % rounding)

    def __mul__(self, o):
        p = parts(o)
        if p is None or not all(T.is_const(x) for x in p):
            return NotImplemented if p is None else self._no('multiplication by a symbolic number')
        s, co, e = p
        r = T.scale(self.co, co.val)
        if not ctx().decide(T.lt(r, C(10 ** _dec.getcontext().prec))):
            raise Unsupported('a decimal operation that rounds')
        sg = self.s if s.val == 0 else T.sub(C(1), self.s)
        return VDecimal(sg, r, T.add(self.e, e))
    __rmul__ = __mul__

    def vc_int(self, base=None):
        c = ctx()
        if T.is_const(self.e):
            m = T.div(self.co, 10 ** -self.e.val) if self.e.val < 0 else T.scale(self.co, 10 ** self.e.val)
        elif c.decide(T.lt(self.e, C(0))):
            m = floordiv10(self.co, T.neg(self.e))
        else:
            raise Unsupported('integer value of a decimal with a symbolic positive exponent')
        return P.mkint(T.ite(T.eq(self.s, C(1)), T.neg(m), m))


@rt.model(_dec.Decimal)
def m_decimal(*args, **kw):
    if not args or kw:
        return NotImplemented
    x = args[0]
    if isinstance(x, VDecimal):
        return x
    if P.is_sym(x) and P.intlike(x):
        s, co, e = parts(x)
        return VDecimal(s, co, e)
    if isinstance(x, DecTuple):
        return VDecimal(*x.parts)
    if type(x) in (tuple, list) and rt.has_sym((x,)) and len(x) == 3:
        s, d, e = x
        if isinstance(d, Digits):
            co = d.co
        elif type(d) is tuple and all(type(i) is int for i in d):
            co = C(int(''.join(map(str, d)) or '0'))
        else:
            raise Unsupported('digits of a decimal')
        return VDecimal(P.term(s), co, P.term(e))
    f = getattr(type(x), 'vc_decimal', None)
    if f is not None:
        return f(x)
    return NotImplemented if not P.is_sym(x) else P.Sym._no(x, 'Decimal()')


@rt.model(str)
def m_str(*args, **kw):
    if len(args) == 1 and not kw and P.is_sym(args[0]) and ctx().msg:
        return '<symbolic>'
    return NotImplemented if not (args and isinstance(args[0], VDecimal)) else _dec_str(args[0])


def _dec_str(self, *a):
    if P.is_sym(self):
        f = STR_HOOK.get('decimal')
        if f is None:
            raise Unsupported('text of a symbolic decimal')
        return f(self)
    return NotImplemented


STR_HOOK = {}
rt.MODELS[id(_dec.Decimal.__str__)] = (_dec.Decimal.__str__, _dec_str)


def decimal_input(c, name, lo_e=None, hi_e=None):
    """An arbitrary finite decimal."""
    if c.concrete:
        def gen():
            r = c.rng
            if r is None:
                return ['dec', 0, 0, 0]
            d = r.choice([0, 1, 2, 5, 6, 7, 9, 18, 27, 28, 29, 30, 45])
            co = r.choice([0, 0, 1, 5, 10 ** d, max(0, 10 ** d - 1), r.randrange(10 ** d + 1), 12 * 10 ** d])
            e = r.choice([-d, -d, -d, 0, 1, -1, -6, -7, 3, r.randrange(-40, 12), -d - 2])
            return ['dec', r.choice([0, 0, 0, 1]), co, e]
        s = c.int(name + '_sign', 0, 1)
        _, _, co, e = c._get(name, gen)
        if c.given is not None and c.given.get(name + '_coefficient') is not None:
            co, e = c.given[name + '_coefficient'], c.given[name + '_exponent']
        c.used[name + '_coefficient'], c.used[name + '_exponent'] = co, e
        if abs(e) > 4000 or co.bit_length() > 40000:
            from .conc import Skip
            raise Skip()
        if lo_e is not None and e < lo_e or hi_e is not None and e > hi_e:
            from .conc import Skip
            raise Skip()
        return _dec.Decimal((s, tuple(int(ch) for ch in str(co)), e))
    s = c.int(name + '_sign', 0, 1)
    co = c.int(name + '_coefficient', 0)
    e = c.int(name + '_exponent', lo_e, hi_e)
    return VDecimal(s.t, co.t, P.term(e))


def dec_parts(c, d):
    """(sign, coefficient, exponent) of a decimal result, as values the unit can state facts about."""
    if isinstance(d, VDecimal):
        return P.mkint(d.s), P.mkint(d.co), P.mkint(d.e)
    s, dg, e = d.as_tuple()
    return s, int(''.join(map(str, dg)) or '0'), e


# ---------------------------------------------------------------------------------------------------------------
# timedelta, tzinfo, datetime

US = 1000000
DAY_US = 86400 * US


class Ratio(P.Sym):
    """num / den, den a positive constant."""
    _vc_class = float

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return Ratio(T.div(self.num, self.den * o), 1)
        self._no('division')

    def __truediv__(self, o):
        if type(o) is int and o > 0:
            return Ratio(self.num, self.den * o)
        self._no('division')

    def vc_int(self, base=None):
        c = ctx()
        if c.decide(T.le(C(0), self.num)):
            return P.mkint(T.div(self.num, self.den))
        return P.mkint(T.neg(T.div(T.neg(self.num), self.den)))


def us_of(x):
    if isinstance(x, VDelta):
        return x.us
    if isinstance(x, _dt.timedelta):
        return C(x.days * DAY_US + x.seconds * US + x.microseconds)
    return None


class VDelta(P.Sym):
    """A timedelta of ``us`` microseconds.  Its real class is not claimed to the library, so that its arithmetic with
    real datetimes reaches the reflected methods here."""
    _vc_class = _dt.timedelta

    def __init__(self, us):
        self.us = us

    def _c(self, o, f):
        t = us_of(o)
        if t is None:
            return NotImplemented
        return P.mkbool(f(self.us, t))

    def __lt__(self, o):
        return self._c(o, T.lt)

    def __le__(self, o):
        return self._c(o, T.le)

    def __gt__(self, o):
        return self._c(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        return self._c(o, T.eq)

    def __ne__(self, o):
        return self._c(o, lambda a, b: T.not_(T.eq(a, b)))
    __hash__ = P.Sym.__hash__

    def __neg__(self):
        return VDelta(T.neg(self.us))

    def _vc_bool(self):
        return T.not_(T.eq(self.us, C(0)))

    def __bool__(self):
        return ctx().decide(self._vc_bool())

    def __add__(self, o):
        t = us_of(o)
        return NotImplemented if t is None else VDelta(T.add(self.us, t))

    def __sub__(self, o):
        t = us_of(o)
        return NotImplemented if t is None else VDelta(T.sub(self.us, t))

    def __radd__(self, o):
        if isinstance(o, _dt.datetime):
            return shift(o, self.us)
        return self.__add__(o)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return shift(o, T.neg(self.us))
        t = us_of(o)
        return NotImplemented if t is None else VDelta(T.sub(t, self.us))

    def __abs__(self):
        return self if ctx().decide(T.le(C(0), self.us)) else -self

    def total_seconds(self):
        return Ratio(self.us, US)

    @property
    def days(self):
        return P.mkint(T.div(self.us, DAY_US))

    @property
    def seconds(self):
        return P.mkint(T.div(T.mod(self.us, DAY_US), US))

    @property
    def microseconds(self):
        return P.mkint(T.mod(self.us, US))

    def __floordiv__(self, o):
        t = us_of(o)
        if t is not None and T.is_const(t) and t.val > 0:
            return P.mkint(T.div(self.us, t.val))
        self._no('division')


_UNITS = {'days': DAY_US, 'seconds': US, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * US,
          'hours': 3600 * US, 'weeks': 7 * DAY_US}


@rt.model(_dt.timedelta)
def m_timedelta(*args, **kw):
    if not rt.has_sym(args, kw):
        return NotImplemented
    t = C(0)
    for name, x in list(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), args)) + \
            list(kw.items()):
        t = T.add(t, T.scale(P.term(x), _UNITS[name]))
    lim = 999999999 * DAY_US
    if not ctx().decide(T.and_(T.le(C(-lim), t), T.lt(t, C(lim + DAY_US)))):
        raise OverflowError('timedelta out of range')
    return VDelta(t)


FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def days_in_month(y, m):
    leap = T.and_(T.eq(T.mod(y, 4), C(0)), T.or_(T.not_(T.eq(T.mod(y, 100), C(0))), T.eq(T.mod(y, 400), C(0))))
    r = C(31)
    for k in (4, 6, 9, 11):
        r = T.ite(T.eq(m, C(k)), C(30), r)
    return T.ite(T.eq(m, C(2)), T.ite(leap, C(29), C(28)), r)


def in_range(f):
    y, mo, d, h, mi, s, us = f
    return T.and_(T.le(C(1), y), T.le(y, C(9999)), T.le(C(1), mo), T.le(mo, C(12)), T.le(C(1), d),
                  T.le(d, days_in_month(y, mo)), T.le(C(0), h), T.lt(h, C(24)), T.le(C(0), mi), T.lt(mi, C(60)),
                  T.le(C(0), s), T.lt(s, C(60)), T.le(C(0), us), T.lt(us, C(US)))


def make(cls, fields, tz, fold=0):
    """A real instance of a datetime class with the given (possibly symbolic) fields."""
    o = _dt.datetime.__new__(cls, 2000, 1, 1, 0, 0, 0, 0, None) if cls is _dt.datetime else \
        _dt.datetime.__new__(cls, 2000, 1, 1)
    for n, v in zip(FIELDS, fields):
        setattr(o, '_' + n, P.mkint(v) if isinstance(v, T.Term) else v)
    o._tzinfo = tz
    o._hashcode = -1
    return o


@rt.model(_dt.datetime.__new__)
def m_datetime_new(cls, *args, **kw):
    vals = dict(year=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0)
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
    if not rt.has_sym(args, kw) and not any(getattr(a, '_vc_symbolic', False) or P.is_sym(getattr(a, 'delta', None))
                                            for a in list(args) + list(kw.values())):
        return NotImplemented
    vals.update(zip(names, args))
    vals.update(kw)
    for n in FIELDS:
        if not P.intlike(vals[n]):
            raise TypeError('an integer is required')
    f = [P.term(vals[n]) for n in FIELDS]
    if not ctx().decide(in_range(f)):
        raise ValueError('datetime field out of range')
    return make(cls, f, vals['tzinfo'])


@rt.model(_dt.datetime.utcoffset)
def m_utcoffset(self):
    tz = self._tzinfo
    if tz is None:
        return None
    return rt.vc_call(tz.utcoffset, self)


def fields_of(o):
    return [P.term(getattr(o, '_' + n)) for n in FIELDS]


def ordinal(y, m, d):
    """Days since 1 January of year 0 or so: the proleptic Gregorian calendar."""
    y1 = T.sub(y, C(1))
    n = T.add(T.add(T.scale(y1, 365), T.div(y1, 4)), T.sub(T.div(y1, 400), T.div(y1, 100)))
    leap = T.sub(days_in_month(y, C(2)), C(28))
    before = C(0)
    for k, n_days in zip(range(12, 1, -1), (334, 304, 273, 243, 212, 181, 151, 120, 90, 59, 31)):
        before = T.ite(T.eq(m, C(k)), C(n_days), before)
    return T.add(T.add(n, before), T.add(T.ite(T.lt(C(2), m), leap, C(0)), d))


def instant(f, off):
    """Microseconds of calendar fields at an offset (in microseconds)."""
    y, m, d, h, mi, s, us = f
    t = T.add(T.scale(ordinal(y, m, d), 24), h)
    t = T.add(T.scale(T.add(T.scale(t, 60), mi), 60), s)
    return T.sub(T.add(T.scale(t, US), us), off)


def dt_eq(self, o):
    """datetime.__eq__, from the documentation: the same fields when both offsets are the same or unknown, the same
    instant when both are known, otherwise different."""
    if not isinstance(o, _dt.datetime):
        return NotImplemented if not isinstance(o, _dt.date) else False
    a, b = fields_of(self), fields_of(o)
    same = T.and_(*[T.eq(x, y) for x, y in zip(a, b)])
    za, zb = m_utcoffset(self), m_utcoffset(o)
    if za is None and zb is None or self._tzinfo is o._tzinfo:
        return P.mkbool(same)
    if za is None or zb is None:
        return False
    za, zb = us_of(za), us_of(zb)
    return P.mkbool(T.ite(T.eq(za, zb), same, T.eq(instant(a, za), instant(b, zb))))


_plain_eq = _dt.datetime.__eq__


def _eq(self, o):
    if rt._current[0] is not None and isinstance(o, _dt.datetime) and (symbolic(self) or symbolic(o)):
        return dt_eq(self, o)
    return _plain_eq(self, o)


_dt.datetime.__eq__ = _eq


def symbolic(o):
    tz = o._tzinfo
    return any(P.is_sym(getattr(o, '_' + n)) for n in FIELDS) or tz is not None and any(
        P.is_sym(x) for x in getattr(tz, '__dict__', {}).values())


def shift(o, us):
    """datetime + timedelta: some in-range fields, or OverflowError; whole minutes keep seconds; inverse of the opposite
    shift.  (Trusted: calendar arithmetic of the datetime library.)"""
    c = ctx()
    f = fields_of(o)
    log = c.ghost.setdefault('shifts', [])
    for f0, us0, f1 in log:
        if c.valid(T.eq(us, T.neg(us0))) and all(c.valid(T.eq(a, b)) for a, b in zip(f, f1)):
            return _result(o, f0)
    new = [c.fresh('shifted_' + n) for n in FIELDS]
    if c.ghost.get('shift_in_range'):
        pass
    elif not c.decide(c.fresh('shift_fits', T.BOOL)):
        raise OverflowError('date value out of range')
    c.assume(in_range(new))
    c.assume(T.implies(T.eq(T.mod(us, 60 * US), C(0)), T.and_(T.eq(new[5], f[5]), T.eq(new[6], f[6]))))
    c.assume(T.implies(T.eq(us, C(0)), T.and_(*[T.eq(a, b) for a, b in zip(f, new)])))
    log.append((f, us, new))
    return _result(o, new)


def _result(o, f):
    """datetime arithmetic builds its result through the class of the operand, without its extra fields."""
    r = make(type(o), f, o._tzinfo)
    if hasattr(type(o), 'fractional_seconds'):
        r.precision, r.fractional_precision, r.fractional_seconds = None, 0, _dec.Decimal(0)
    return r


from . import digits as _digits      # noqa: registers its models
