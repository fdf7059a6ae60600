"""Decimal notation: digit strings of unknown length, their value, and the text forms of int, Decimal and datetime.

Assumed here (the meaning of decimal notation): the digit string of a non-negative integer n has value n, at least one
digit, and a leading zero only when n is 0; leading zeros do not change a value.
"""
import datetime as _dt
import decimal as _dec
import re

import six

from . import dt as D
from . import proxies as P
from . import rt
from . import terms as T
from . import text as X
from .engine import ctx, Unsupported

C = T.const


RANGES = {16: ((48, 57), (65, 70), (97, 102)), 64: ((48, 57), (65, 90), (97, 122), (43, 43), (47, 47))}


def digit_in(t, base):
    """Whether a character is a digit of the base."""
    if base in RANGES:
        return T.or_(*[T.and_(T.le(C(a), t), T.le(t, C(b))) for a, b in RANGES[base]])
    return T.and_(T.le(C(48), t), T.le(t, C(47 + base)))


def digit_value(t, base):
    v = T.sub(t, C(48))
    if base == 16:
        return T.ite(T.le(C(97), t), T.sub(t, C(87)), T.ite(T.le(C(65), t), T.sub(t, C(55)), v))
    return v


def digit_array(name, base=10):
    """An array of ASCII digits of the base."""
    c = ctx()
    a = c.fresh(name, T.ARR)
    c.forall(a, C(-(1 << 200)), None, lambda i, s: digit_in(s, base))
    c.ghost[('digits', a.id)] = base
    return a


def is_digits(arr):
    """The base of a digit array; None for other arrays."""
    return ctx().ghost.get(('digits', arr.id))


def fold(arr, off, n):
    """The value of the digits arr[off .. off+n)."""
    c = ctx()
    base = is_digits(arr)
    return c.family('value', (arr, off), n, base=C(0), step=lambda cur, at: T.add(
        T.scale(cur, base), digit_value(c.select(arr, T.add(off, at)), base)))


def zeros():
    c = ctx()
    a = c.ghost.get('zeros')
    if a is None:
        a = digit_array('zeros')
        c.ghost['zeros'] = a
        c.forall(a, C(-(1 << 200)), None, lambda i, s: T.eq(s, C(48)))
    return a


class DigitRun(X.Run):
    """A run of text that is a stretch of a digit array."""
    __slots__ = ('view',)

    def __init__(self, view):
        self.view, self.len = view, view.len
        self.token = view.arr


def digits_of(co):
    """The digit string of a non-negative integer: a view on its array."""
    c = ctx()
    if T.is_const(co):
        raise Unsupported('digits of a constant')
    v = c.ghost.get(('digits_of', co.id))
    if v is None:
        a = digit_array('digits')
        n = c.fresh('digit_count')
        c.assume(T.le(C(1), n))
        f = fold(a, C(0), n)
        c.assume(T.eq(f, co))
        c.assume(T.implies(T.and_(T.eq(c.select(a, C(0)), C(48))), T.and_(T.eq(n, C(1)), T.eq(co, C(0)))))
        # 10^(n-1) <= co < 10^n, or co = 0
        p = D.pow10(n)
        q = D.pow10(T.sub(n, C(1)))
        c.assume(T.and_(T.lt(co, p), T.or_(T.eq(co, C(0)), T.le(q, co)), T.implies(T.eq(co, C(0)), T.eq(n, C(1)))))
        v = c.ghost[('digits_of', co.id)] = P.View(a, C(0), n)
    return v


def count(co):
    """The number of digits, with the monotonicity of powers of ten against the powers already mentioned."""
    if T.is_const(co):
        return C(len(str(co.val)))
    c = ctx()
    n = digits_of(co).len
    m = T.sub(n, C(1))
    q = D.pow10(m)
    for k in list(c.families.get(('pow10',), {}).values()):
        key = ('monotone', m.id, k.id)
        if key not in c.ghost:
            c.ghost[key] = 1
            p = T.app('pow10', (k,))
            c.assume(T.implies(T.and_(T.le(C(0), k), T.lt(q, p)), T.lt(m, k)))
    return n


def fixed(t, n):
    """n digit characters of a value known to lie in 0 .. 10^n - 1."""
    if T.is_const(t):
        return [C(ord(ch)) for ch in '%0*d' % (n, t.val)]
    c = ctx()
    key = ('fixed', t.id, n)
    if key not in c.ghost:
        ds = [c.fresh('digit') for _ in range(n)]
        s = C(0)
        for d in ds:
            c.assume(T.and_(T.le(C(0), d), T.le(d, C(9))))
            s = T.add(T.scale(s, 10), d)
        c.assume(T.implies(T.and_(T.le(C(0), t), T.lt(t, C(10 ** n))), T.eq(s, t)))
        c.ghost[key] = [T.add(d, C(48)) for d in ds]
        if c.valid(T.and_(T.le(C(0), t), T.lt(t, C(10 ** n)))):
            c.ghost[('spells',) + tuple(x.id for x in c.ghost[key])] = t
    return list(c.ghost[key])


def int_text(x):
    """str(int): a sign and the digits."""
    c = ctx()
    t = P.term(x)
    if T.is_const(t):
        return X.VText([C(ord(ch)) for ch in str(t.val)])
    if c.valid(T.and_(T.le(C(0), t), T.lt(t, C(10 ** 6)))):
        n = 1
        while not c.decide(T.lt(t, C(10 ** n))):
            n += 1
        return X.VText(fixed(t, n))
    neg = c.decide(T.lt(t, C(0)))
    m = T.neg(t) if neg else t
    return X.VText(([C(45)] if neg else []) + [DigitRun(digits_of(m))])


X.TEXT_OF['d'] = int_text


def m_str(*args, **kw):
    if len(args) == 1 and not kw and type(args[0]) is P.SymInt and not ctx().msg:
        return int_text(args[0])
    return D.m_str(*args, **kw)


rt.model(str)(m_str)


def iterate(self):
    """The decimal digits of a coefficient, for ''.join(str(x) for x in digits)."""
    c = ctx()
    d = c.fresh('a_digit')
    c.assume(T.and_(T.le(C(0), d), T.le(d, C(9))))
    s = P.AbstractSeq('digits', P.SymInt(d), digits_of(self.co).len)
    s.of = self
    return s._walk()


D.Digits.__iter__ = iterate
D.Digits.vc_len = lambda self: P.mkint(count(self.co))


@rt.native(str, 'join')
def join(owner, items):
    c = ctx()
    saved, rec = c.ghost.get('map'), []
    c.ghost['map'] = rec
    try:
        items = list(items)
    finally:
        c.ghost['map'] = saved
    if rec:
        if len(rec) != 1 or len(items) != 1 or owner != '' or getattr(rec[0], 'of', None) is None:
            raise Unsupported('join of a symbolic sequence')
        got = X.VText.of(items[0])
        if len(got) != 1 or isinstance(got[0], X.Run) or not c.valid(T.eq(got[0], T.add(rec[0].elem.t, C(48)))):
            raise Unsupported('join of something other than the digits themselves')
        return X.VText([DigitRun(digits_of(rec[0].of.co))])
    if not any(P.is_sym(i) for i in items):
        return owner.join(items)
    out = []
    for n, i in enumerate(items):
        if n:
            out += X.VText.of(owner)
        out += X.VText.of(i)
    return X.VText(out)


def repeat(s, n):
    """A one-character string repeated a symbolic number of times."""
    if s not in ('0', b'0'):
        raise Unsupported('repetition')
    c = ctx()
    if not c.decide(T.lt(C(0), n)):
        return s[:0]
    v = P.View(zeros(), C(0), n)
    return X.VText([DigitRun(v)]) if s == '0' else P.VBytes([v])


_mul, _rmul = P.SymInt.__mul__, P.SymInt.__rmul__


def times(self, o):
    if type(o) in (str, bytes):
        return repeat(o, self.t)
    return _mul(self, o)


P.SymInt.__mul__ = P.SymInt.__rmul__ = times


# ---------------------------------------------------------------------------------------------------------------
# between text and octets

_encode = X.VText.encode


def encode(self, enc='utf-8', errors='strict'):
    if any(type(p) is DigitRun for p in self.pieces):
        out = []
        for p in self.pieces:
            out += [p.view] if type(p) is DigitRun else P.pieces_of(_encode(X.VText([p]), enc, errors))
        return P.VBytes(out)
    return _encode(self, enc, errors)


X.VText.encode = encode
_decode = P.VBytes.decode


def decode(self, enc='utf-8', errors='strict'):
    if any(isinstance(p, P.View) and is_digits(p.arr) for p in self.pieces):
        out = []
        for p in self.pieces:
            if isinstance(p, P.View):
                if not is_digits(p.arr):
                    self._no('decode')
                out.append(DigitRun(p))
            else:
                out += X.VText.of(_decode(P.VBytes([p]), enc, errors))
        return X.VText(out)
    return _decode(self, enc, errors)


P.VBytes.decode = decode
if 'decode' in P.VBuf.__dict__:
    P.VBuf.decode = decode
else:
    P._BytesBase.decode = decode


# ---------------------------------------------------------------------------------------------------------------
# reading decimal notation

def merge(pieces):
    """Adjacent stretches of one digit array joined; zero-length stretches dropped."""
    c = ctx()
    out = []
    for p in pieces:
        if isinstance(p, P.View):
            if T.is_const(p.len) and p.len.val == 0:
                continue
            if c.valid(T.eq(p.len, C(0))):
                continue
        if out:
            q = out[-1]
            if isinstance(p, P.View) and isinstance(q, P.View) and p.arr is q.arr and same(T.add(q.off, q.len), p.off):
                out[-1] = P.View(q.arr, q.off, T.add(q.len, p.len))
                continue
            if isinstance(q, P.View) and isinstance(p, P.Elem) and at_end(q, p):
                out[-1] = P.View(q.arr, q.off, T.add(q.len, C(1)))
                continue
        if isinstance(p, P.Elem) and p.t.op == 'select' and is_digits(p.t.args[0]):
            p = P.View(p.t.args[0], p.t.args[1], C(1))
            if out and isinstance(out[-1], P.View) and out[-1].arr is p.arr and same(T.add(out[-1].off, out[-1].len), p.off):
                out[-1] = P.View(p.arr, out[-1].off, T.add(out[-1].len, C(1)))
                continue
        out.append(p)
    return out


def same(a, b):
    return a is b or ctx().valid(T.eq(a, b))


def at_end(v, e):
    t = e.t
    return t.op == 'select' and t.args[0] is v.arr and same(T.add(v.off, v.len), t.args[1])


def octet_pieces(x):
    if type(x) is X.VText:
        return [P.View(p.view.arr, p.view.off, p.view.len) if type(p) is DigitRun else P.Elem(p) for p in x.pieces]
    if isinstance(x, str) and not P.is_sym(x):
        return [P.Elem(C(ord(ch))) for ch in x]
    return P.pieces_of(x)


class Number(object):
    """sign, coefficient, number of fractional digits and exponent of decimal text."""


def parse(x, bad=ValueError):
    """[sign] digits [. digits] [e [sign] digits]; raises ``bad`` for other text."""
    c = ctx()
    ps = merge(octet_pieces(x))

    def const(p, chars):
        if not isinstance(p, P.Elem):
            return None
        for ch in chars:
            k = T.eq(p.t, C(ord(ch)))
            if k.val if T.is_const(k) else c.decide(k):
                return ch
        return None

    def digit(p):
        if isinstance(p, P.View):
            if (is_digits(p.arr) or 99) > 10:
                raise Unsupported("digits of another base")
            return True
        k = T.and_(T.le(C(48), p.t), T.le(p.t, C(57)))
        return k.val if T.is_const(k) else c.decide(k)

    def sign():
        if ps and const(ps[0], '+-'):
            return const(ps.pop(0), '-') is not None
        return False

    def digits():
        out = []
        while ps and digit(ps[0]):
            out.append(ps.pop(0))
        return out
    n = Number()
    n.neg = sign()
    n.whole = digits()
    n.frac, n.dot = [], False
    if ps and const(ps[0], '.'):
        ps.pop(0)
        n.dot = True
        n.frac = digits()
    if not n.whole and not n.frac:
        raise bad('not a number')
    n.eneg, n.exp = False, None
    if ps and const(ps[0], 'eE'):
        ps.pop(0)
        n.eneg = sign()
        n.exp = digits()
        if not n.exp:
            raise bad('no exponent digits')
    if ps:
        raise bad('not a number')
    n.nfrac = P.total(n.frac)
    n.co = value(n.whole + n.frac)
    n.e = C(0) if n.exp is None else value(n.exp)
    return n


def value(pieces, base=10):
    """The integer a digit string denotes."""
    c = ctx()
    known = c.ghost.get(('spells',) + tuple(p.t.id for p in pieces if isinstance(p, P.Elem))) if base == 10 else None
    if known is not None and all(isinstance(p, P.Elem) for p in pieces):
        return known
    ps = merge(pieces)
    out = C(0)
    i = 0
    while ps:
        p = ps.pop(0)
        if isinstance(p, P.Elem):
            out = T.add(T.scale(out, base), digit_value(p.t, base))
            continue
        if p.arr is c.ghost.get('zeros') and T.is_const(out) and out.val == 0:
            continue
        if is_digits(p.arr) != base:
            raise Unsupported('digits of another base')
        f = fold(p.arr, p.off, p.len)
        if T.is_const(p.len):
            out = T.add(T.scale(out, base ** p.len.val), f)
        elif T.is_const(out) and out.val == 0 or c.valid(T.eq(out, C(0))):
            out = f
        else:
            raise Unsupported('value of several digit strings')
    return out


_int0 = X._vc_int


def vc_int(x, base=10):
    ps = merge(octet_pieces(x))
    if base == 10 and any(isinstance(p, P.View) and is_digits(p.arr) for p in ps):
        n = parse(x)
        if n.dot or n.exp is not None:
            raise ValueError('invalid literal for int()')
        return P.mkint(T.neg(n.co) if n.neg else n.co)
    if base in (2, 16) and any(isinstance(p, P.View) and is_digits(p.arr) for p in ps):
        return radix(ps, base)
    if base == 10 and x.vc_finite():
        es = octet_pieces(x)
        known = ctx().ghost.get(('spells',) + tuple(p.t.id for p in es))
        if known is not None:
            return P.mkint(known)
        if es and T.is_const(es[0].t) and es[0].t.val in (43, 45):
            known = ctx().ghost.get(('spells',) + tuple(p.t.id for p in es[1:]))
            if known is not None:
                return P.mkint(T.neg(known) if es[0].t.val == 45 else known)
    return _int0(x, base)


def radix(ps, base):
    """[sign] [prefix] digits, as int() reads them."""
    c = ctx()

    def const(p, chars):
        if not isinstance(p, P.Elem):
            return False
        k = T.or_(*[T.eq(p.t, C(ord(ch))) for ch in chars])
        return k.val if T.is_const(k) else c.decide(k)
    neg = False
    if ps and const(ps[0], '+-'):
        neg = const(ps.pop(0), '-')
    if len(ps) > 1 and const(ps[0], '0') and const(ps[1], 'xX' if base == 16 else 'bB'):
        ps = ps[2:]
        if ps and const(ps[0], '_'):
            ps.pop(0)
    for p in ps:
        if isinstance(p, P.View):
            if (is_digits(p.arr) or 99) > base:
                raise Unsupported('digits of another base')
        else:
            k = digit_in(p.t, base)
            if not (k.val if T.is_const(k) else c.decide(k)):
                raise ValueError('invalid literal for int()')
    if not ps:
        raise ValueError('invalid literal for int()')
    v = value(ps, base)
    return P.mkint(T.neg(v) if neg else v)


X.VText.vc_int = vc_int
P._BytesBase.vc_int = vc_int


def vc_decimal(x):
    n = parse(x, _dec.InvalidOperation)
    e = T.sub(T.neg(n.e) if n.eneg else n.e, n.nfrac)
    return D.VDecimal(C(1 if n.neg else 0), n.co, e)


X.VText.vc_decimal = vc_decimal


# ---------------------------------------------------------------------------------------------------------------
# datetime

def two(t):
    return fixed(t, 2)


def strftime(self, fmt):
    f = D.fields_of(self)
    if not any(not T.is_const(x) for x in f) and not P.is_sym(getattr(self._tzinfo, 'delta', None)):
        return NotImplemented
    c = ctx()
    out = []
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        i += 1
        if ch != '%' or i == len(fmt):
            out.append(C(ord(ch)))
            continue
        ch = fmt[i]
        i += 1
        k = 'mdHMS'.find(ch)
        if k >= 0:
            out += two(f[k + 1])
        elif ch == 'f':
            out += fixed(f[6], 6)
        elif ch == 'Y':
            if not c.decide(T.le(C(1000), f[0])):
                raise Unsupported('%Y of a year before 1000')      # platform dependent padding
            out += fixed(f[0], 4)
        elif ch == 'y':
            out += two(T.mod(f[0], 100))
        elif ch == 'z':
            off = rt.vc_call(self.utcoffset)
            if off is None:
                continue
            us = D.us_of(off)
            neg = c.decide(T.lt(us, C(0)))
            m = T.neg(us) if neg else us
            if not c.valid(T.eq(T.mod(m, 60 * D.US), C(0))):
                raise Unsupported('an offset with seconds')
            mins = T.div(m, 60 * D.US)
            h = T.div(mins, 60)
            out += [C(45 if neg else 43)] + two(h) + two(T.sub(mins, T.scale(h, 60)))
        elif ch == '%':
            out.append(C(37))
        else:
            raise Unsupported('strftime %%%s' % ch)
    return X.VText(out)


rt.model(_dt.datetime.strftime)(strftime)


@rt.model(_dt.datetime.replace)
def replace(self, *args, **kw):
    f = D.fields_of(self)
    if not any(not T.is_const(x) for x in f) and not rt.has_sym(args, kw):
        return NotImplemented
    tz = self._tzinfo
    names = list(D.FIELDS) + ['tzinfo']
    vals = dict(zip(names, args))
    vals.update(kw)
    for k, v in vals.items():
        if k == 'tzinfo':
            tz = v
        elif k in D.FIELDS:
            if v is not None:
                f[D.FIELDS.index(k)] = P.term(v)
        else:
            raise Unsupported('replace(%s)' % k)
    if not ctx().decide(D.in_range(f)):
        raise ValueError('datetime field out of range')
    r = D.make(type(self), f, tz)
    if hasattr(type(self), 'fractional_seconds'):
        r.precision, r.fractional_precision, r.fractional_seconds = None, 0, _dec.Decimal(0)
    return r


# ---------------------------------------------------------------------------------------------------------------
# the text of a decimal and of a float

def decimal_text(d):
    """Decimal.__str__, from the documentation: plain notation when the exponent is not positive and the adjusted exponent
    is at least -6, and scientific notation otherwise."""
    c = ctx()
    if T.is_const(d.co):
        raise Unsupported('text of a constant coefficient')
    v = digits_of(d.co)
    n, e = v.len, d.e
    sign = [C(45)] if c.decide(T.eq(d.s, C(1))) else []
    if c.decide(T.eq(e, C(0))):
        return X.VText(sign + [DigitRun(v)])
    adjusted = T.sub(T.add(e, n), C(1))
    if c.decide(T.and_(T.lt(e, C(0)), T.le(C(-6), adjusted))):
        if c.decide(T.lt(T.neg(e), n)):
            w = T.add(n, e)
            return X.VText(sign + [DigitRun(P.View(v.arr, C(0), w)), C(46), DigitRun(P.View(v.arr, w, T.neg(e)))])
        k = 0
        while not c.decide(T.eq(T.sub(T.neg(e), n), C(k))):
            k += 1
        return X.VText(sign + [C(48), C(46)] + [C(48)] * k + [DigitRun(v)])
    if c.decide(T.eq(n, C(1))):
        co = [c.select(v.arr, C(0))]
    else:
        co = [DigitRun(P.View(v.arr, C(0), C(1))), C(46), DigitRun(P.View(v.arr, C(1), T.sub(n, C(1))))]
    neg = c.decide(T.lt(adjusted, C(0)))
    x = int_text(P.mkint(T.neg(adjusted) if neg else adjusted)).pieces
    return X.VText(sign + co + [C(69), C(45 if neg else 43)] + x)


D.STR_HOOK['decimal'] = decimal_text


def float_repr(x):
    """float.__repr__ of a finite float: [-] digits . digits [e sign digits], or [-] digit e sign digits; no digit string
    has an insignificant leading zero except in the exponent and the fraction.  Trusted: float() of this text is x."""
    from . import floats
    if not isinstance(x, floats.VFloat):
        return NotImplemented
    c = ctx()
    if c.decide(floats.special(x.o)):
        raise Unsupported('text of a special float')
    key = ('float_repr',) + tuple(t.id for t in x.o)
    if key in c.ghost:
        return c.ghost[key]

    def run(name, lead=True):
        a, n = digit_array(name), c.fresh('n')
        c.assume(T.le(C(1), n))
        if not lead:
            c.assume(T.or_(T.eq(n, C(1)), T.not_(T.eq(c.select(a, C(0)), C(48)))))
        return DigitRun(P.View(a, C(0), n))
    out = [C(45)] if c.decide(T.le(C(128), x.o[0])) else []
    dot = c.decide(T.eq(c.fresh('has_point'), C(1)))
    exp = not dot or c.decide(T.eq(c.fresh('has_exponent'), C(1)))
    if c.decide(T.eq(c.fresh('whole_is_zero'), C(1))):
        out += [C(48)]
    else:
        w = run('whole', False)
        c.assume(T.not_(T.eq(c.select(w.view.arr, C(0)), C(48))))
        out += [w]
    out += [C(46), run('frac')] if dot else []
    if exp:
        out += [C(101), C(45 if c.decide(T.eq(c.fresh('negative_exponent'), C(1))) else 43), run('exp')]
    c.ghost[key] = X.VText(out)
    return c.ghost[key]


rt.MODELS[id(float.__repr__)] = (float.__repr__, float_repr)


def one_char(pattern):
    """The characters a regular expression that matches single characters matches (ASCII)."""
    import sre_parse
    if sre_parse.parse(pattern.pattern).getwidth() != (1, 1):
        raise Unsupported('regular expression on symbolic text')
    return [ch for ch in map(chr, range(128)) if pattern.match(ch)]


def matches(c, p, chars):
    if type(p) is DigitRun:
        if any(ch.isdigit() for ch in chars):
            raise Unsupported('regular expression on digits')
        return False
    if isinstance(p, X.Run):
        raise Unsupported('regular expression on opaque text')
    k = T.or_(*[T.eq(p, C(ord(ch))) for ch in chars])
    return k.val if T.is_const(k) else c.decide(k)


def re_search(pattern, x, *a):
    if type(x) is not X.VText or a or not any(type(p) is DigitRun for p in x.pieces):
        return NotImplemented
    c, chars = ctx(), one_char(pattern)
    return next((True for p in x.pieces if matches(c, p, chars)), None)


def re_sub(pattern, repl, x, *a):
    if type(x) is not X.VText or a or not isinstance(repl, str) or '\\' in repl:
        return NotImplemented
    c, chars = ctx(), one_char(pattern)
    out = []
    for p in x.pieces:
        out += [C(ord(ch)) for ch in repl] if matches(c, p, chars) else [p]
    return X.VText(out)


def text_find(self, sub, *a):
    c = ctx()
    if a or not isinstance(sub, str) or P.is_sym(sub) or len(sub) != 1:
        self._no('find')
    n = C(0)
    for p in self.pieces:
        if matches(c, p, [sub]):
            return P.mkint(n)
        n = T.add(n, p.len if isinstance(p, X.Run) else C(1))
    return -1


X.VText.find = text_find
from . import regex      # noqa: its hooks come first
_text_eq = X.VText.__eq__


def text_eq(self, o):
    if isinstance(o, str) and any(type(p) is DigitRun for x in (self, o) if type(x) is X.VText for p in x.pieces):
        a, b = merge(octet_pieces(self)), merge(octet_pieces(o))
        if len(a) == len(b) and all(type(p) is type(q) and (p.arr is q.arr if isinstance(p, P.View) else True)
                                    for p, q in zip(a, b)):
            return P.mkbool(T.and_(*[T.and_(T.eq(p.off, q.off), T.eq(p.len, q.len)) if isinstance(p, P.View) else
                                     T.eq(p.t, q.t) for p, q in zip(a, b)]))
        return P.mkbool(P.seq_eq(a, b))
    return _text_eq(self, o)


X.VText.__eq__ = text_eq
for _how, _f in (('search', re_search), ('sub', re_sub)):
    def _wrap(owner, *args, _f=_f, _g=rt.NATIVE_METHODS.get((re.Pattern, _how)), **kw):
        r = _f(owner, *args, **kw)
        return r if r is not NotImplemented or _g is None else _g(owner, *args, **kw)
    rt.NATIVE_METHODS[(re.Pattern, _how)] = _wrap
