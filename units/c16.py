"""C16: text numbers, timestamps and lobs decode to their exact value; malformed ones are rejected.

Three families: whole tokens whose digit strings have any length (by the loop invariants of units/textio.py), one step
of the number grammar from every one of its states over all octets, and timestamps of every shape with every digit
symbolic.  The oracle is the Ion 1.0 grammar, written here as regular expressions, and place-value notation.
"""
import re
import decimal
from pyvc import digits as G
from pyvc import dt as D
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve
from units import textio as X
from units.c03 import TimestampNew, minutes_of

C = T.const
RT = 'amazon.ion.reader_text'
CORE = 'amazon.ion.core'
SPACE = ' \t\n\r\x0b\x0c'
DIGITS = {10: '0123456789', 16: '0123456789abcdefABCDEF', 2: '01'}


class FloatText(P.Sym):
    """float(text): the text that Python's float() was given (the conversion itself is trusted)."""
    _vc_class = float

    def __init__(self, pieces):
        self.pieces = pieces

    @property
    def __class__(self):
        return float


@rt.model(float)
def m_float(*args):
    if len(args) == 1 and not isinstance(args[0], P.SymInt) and P.is_sym(args[0]) and hasattr(args[0], 'pieces'):
        return FloatText(G.merge(G.octet_pieces(args[0])))
    return NotImplemented


def cat(*parts):
    out = None
    for p in parts:
        out = p if out is None else out + p
    return out


def digit_string(c, name, base=10, least=1, first=None):
    """Digits of the base; ``first`` = 'nonzero' forbids a leading zero."""
    if c.concrete:
        def gen():
            n = c.rng.choice([least, least + 1, 3, 7, 16, 20, 40]) if c.rng else least
            s = ''.join(c.rng.choice(DIGITS[base]) if c.rng else '1' for _ in range(max(n, least)))
            return s.encode()
        s = bytes(c._get(name, gen))
        ok = DIGITS[base].encode()
        s = bytes(bytearray(x if x in ok else 48 for x in bytearray(s)))
        if len(s) < least or first and s[:1] == b'0':
            from pyvc.conc import Skip
            raise Skip()
        return s
    b = c.bytes(name, least)
    v = b.pieces[0]
    c.ghost[('digits', v.arr.id)] = base
    c.forall(v.arr, C(-(1 << 200)), None, lambda i, s: G.digit_in(s, base))
    if first:
        c.assume(T.not_(T.eq(c.select(v.arr, v.off), C(48))))
    return b


def split(c, s, name):
    """The string cut in two non-empty parts somewhere."""
    k = c.int(name, 1)
    n = len(s) if c.concrete else P.mkint(P.total(s.pieces))
    if c.concrete:
        if not 1 <= k < n:
            from pyvc.conc import Skip
            raise Skip()
        return s[:k], s[k:]
    c.assume(T.and_(T.le(C(1), P.term(k)), T.lt(P.term(k), P.term(n))))
    v = s.pieces[0]
    k = P.term(k)
    return P.VBytes([P.View(v.arr, v.off, k)]), P.VBytes([P.View(v.arr, T.add(v.off, k), T.sub(v.len, k))])


def number(c, s, base=10):
    if c.concrete:
        return int(s, base)
    return P.mkint(G.value(P.pieces_of(s), base))


def length(c, s):
    return len(s) if c.concrete else P.mkint(P.total(P.pieces_of(s)))


ENDS = {'space': (b' ', b'true '), 'end of input': (b'', b''), 'comment': (b'//', b'\ntrue '), 'comment, block': (b'/**/', b'true '),
        'list': (b',', b'true]'), 'list end': (b']', b' true '), 'struct end': (b'}', b' true '), 'sexp end': (b')', b'true '),
        'string': (b'"', b'" true '), 'lob': (b'{{}}', b' true ')}
OPEN = {'list': b'[', 'list end': b'[', 'struct end': b'{a:', 'sexp end': b'('}


class Rejected(object):
    def __init__(self, e):
        self.e = e


def read_token(c, token, end=None):
    """(type, value) of a token that is followed by something else; Rejected when the reader raises."""
    from amazon.ion.core import IonEventType
    from amazon.ion.exceptions import IonException
    end = end or c.choice('followed by', sorted(x for x in ENDS if x != 'end of input'))
    before, (stop, rest) = OPEN.get(end, b''), ENDS[end]
    data = cat(b'' + before, token, stop + rest) if before or stop + rest else token
    scalars = []
    try:
        evs, at_end = X.events(X.text_reader(False), [data])
        for e in evs:
            if e.event_type is IonEventType.SCALAR:
                scalars.append((e.ion_type, e.value))
    except (IonException, ValueError, decimal.InvalidOperation) as e:
        return Rejected(e)
    if not at_end:
        return Rejected('incomplete')
    want = {'string': 3, 'lob': 3, 'end of input': 1}.get(end, 2)
    c.prove(len(scalars) == want, 'the token is one value, and what follows it is read')
    return scalars[0]


def accepted(c, r, ion_type):
    from amazon.ion.core import IonType
    c.prove(not isinstance(r, Rejected), 'the token is accepted')
    c.prove(r[0] is getattr(IonType, ion_type), 'its type is ' + ion_type.lower())
    return r[1]


def signed(c, n, neg):
    return -n if neg else n


def sign_of(c):
    return c.choice('sign', [False, True])


def whole(c):
    """A whole part without underscores: one digit, or digits that do not start with zero."""
    if c.choice('whole', ['zero', 'digits']) == 'zero':
        return b'0'
    return digit_string(c, 'digits', first='nonzero')


def int_decimal(end):
    def unit(c):
        neg, d = sign_of(c), whole(c)
        if c.choice('underscore', [False, True]) and len_at_least_two(c, d):
            a, b = split(c, d, 'underscore at')
            t = cat(a, b'_', b)
        else:
            t = d
        if end == 'end of input':
            d, t = cat(d, b'7'), cat(t, b'7')
            c.assume(len(d) > 2 if c.concrete else T.lt(C(2), P.term(length(c, d))))
        v = accepted(c, read_token(c, cat(b'-', t) if neg else t, end), 'INT')
        c.prove(v == signed(c, number(c, d), neg), 'the integer the digits denote')
    return unit


def len_at_least_two(c, d):
    return d != b'0'


def int_radix(base, end):
    def unit(c):
        neg = sign_of(c)
        d = digit_string(c, 'digits', base)
        t = d
        if c.choice('underscore', [False, True]):
            a, b = split(c, d, 'underscore at')
            t = cat(a, b'_', b)
        r = c.choice('radix', [b'x', b'X'] if base == 16 else [b'b', b'B'])
        if end == 'end of input':
            d, t = cat(d, b'1'), cat(t, b'1')
        v = accepted(c, read_token(c, cat(b'-0' if neg else b'0', r, t), end), 'INT')
        c.prove(v == signed(c, number(c, d, base), neg), 'the integer the digits denote')
    return unit


def coefficient(c, dot):
    """(text, all its digits, number of fractional digits); dot: the forms D, D., D.F and D.F_F."""
    if dot == 'none':
        d = whole(c)
        return d, d, 0
    if dot == 'dot':
        d = whole(c)
        return cat(d, b'.'), d, 0
    how = c.choice('whole', ['zero', 'digits'])
    if how == 'zero':
        f = digit_string(c, 'fraction')
        w, d = b'0', f
    else:
        d = digit_string(c, 'digits', first='nonzero')
        w, f = split(c, d, 'point at')
    n = length(c, f)
    if dot == 'fraction, underscore':
        a, b = split(c, f, 'underscore at')
        f = cat(a, b'_', b)
    return cat(w, b'.', f), d, n


def decimals(dot, exponent, end):
    def unit(c):
        neg = sign_of(c)
        t, d, n = coefficient(c, dot)
        e = 0
        if exponent is not None:
            x = digit_string(c, 'exponent')
            e = number(c, x)
            if c.concrete:
                c.assume(e < 10 ** 6)
            if exponent == '-':
                e = -e
            t = cat(t, c.choice('marker', [b'd', b'D']), exponent.encode(), x) if exponent else \
                cat(t, c.choice('marker', [b'd', b'D']), x)
        v = accepted(c, read_token(c, cat(b'-', t) if neg else t, end), 'DECIMAL')
        s, co, ex = dec_parts(c, v)
        c.prove(s == (1 if neg else 0), 'the sign')
        c.prove(co == number(c, d), 'the coefficient')
        c.prove(ex == e - n, 'the exponent')
    return unit


dec_parts = D.dec_parts


def floats(dot, sign, end):
    def unit(c):
        neg = sign_of(c)
        t, d, n = coefficient(c, dot)
        m = c.choice('marker', [b'e', b'E'])
        x = digit_string(c, 'exponent')
        tail = cat(m, sign.encode(), x) if sign else cat(m, x)
        full = cat(b'-', t, tail) if neg else cat(t, tail)
        v = accepted(c, read_token(c, full, end), 'FLOAT')
        if c.concrete:
            w = float(full.replace(b'_', b''))
            c.prove(isinstance(v, float) and (v == w or v != v and w != w) and str(v) == str(w), 'the double nearest to the number')
            return
        want = [p for p in G.merge(G.octet_pieces(full)) if not (isinstance(p, P.Elem) and T.is_const(p.t) and p.t.val == 95)]
        c.prove(isinstance(v, FloatText), 'the number is converted by float()')
        c.prove(X.equal(G.merge(v.pieces), G.merge(want)), 'from exactly the text read, without underscores')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# the grammar of numbers, one step from each state

INT_RE = re.compile(r'-?(0|[1-9][0-9]*(_[0-9]+)*|0[xX][0-9a-fA-F]+(_[0-9a-fA-F]+)*|0[bB][01]+(_[01]+)*)$')
DEC_RE = re.compile(r'-?(0|[1-9][0-9]*(_[0-9]+)*)((\.([0-9]+(_[0-9]+)*)?)([dD][+-]?[0-9]+)?|[dD][+-]?[0-9]+)$')
FLO_RE = re.compile(r'-?(0|[1-9][0-9]*(_[0-9]+)*)(\.([0-9]+(_[0-9]+)*)?)?[eE][+-]?[0-9]+$')
TS_RE = re.compile(r'[0-9]{4}(T|-[0-9]{2}(T|-[0-9]{2}(T([0-9]{2}:[0-9]{2}(:[0-9]{2}(\.[0-9]+)?)?(Z|[+-][0-9]{2}:[0-9]{2}))?)?))$')
STOP = '{}[](),"\'/' + SPACE
# Octets that behave alike in every state of the grammar.
CLASSES = [[48], [49], list(range(50, 58))] + [[ord(ch)] for ch in '_-+.TZ:eEdDbBxX'] + [[ord(ch) for ch in 'acfACF']]
CLASSES.append([x for x in range(256) if chr(x) not in STOP and not any(x in k for k in CLASSES)])
PREFIXES = ['-', '0', '-0', '7', '-7', '12', '1_2', '-12', '201', '-2019', '20191', '2_', '-2_', '0.', '1.', '-1.', '0.5', '1.05', '-1_0.5', '1.2_3', '1.2_',
            '0d', '1d', '-1.5D', '1d+', '1d-', '1.5D0', '1d12', '1d-0', '0e', '1e', '-1.5E', '1e+', '1e-', '1.5E0', '1e12', '1e-0',
            '0x', '-0X', '0xA', '0xa_', '0x1_F', '0b', '-0B', '0b1', '0b1_', '0b1_0', '00', '01']


def classify(s):
    for t, r in (('INT', INT_RE), ('DECIMAL', DEC_RE), ('FLOAT', FLO_RE), ('TIMESTAMP', TS_RE)):
        if r.match(s):
            return t
    return None


def member(c, octets, name='next'):
    """Any one of the octets."""
    if len(octets) == 1:
        return octets[0]
    if c.concrete:
        x = c._get(name, lambda: c.rng.choice(octets) if c.rng else octets[0])
        c.assume(x in octets)
    else:
        x = c.int(name, 0, 255)
        c.assume(T.or_(*[T.eq(P.term(x), C(o)) for o in octets]))
    return x


def one(c, x):
    if c.concrete or not P.is_sym(x):
        return bytes(bytearray([x]))
    return P.VBytes([P.Elem(P.term(x))])


def reference(c, kind, parts):
    """The value of a token given as octets (constants, and perhaps one symbolic digit)."""
    xs = [x for x in parts if not (type(x) is int and x == 95)]
    neg = type(xs[0]) is int and xs[0] == 45
    if neg:
        xs = xs[1:]
    if kind == 'FLOAT':
        return xs, neg
    base = 10
    if len(xs) > 1 and type(xs[1]) is int and chr(xs[1]) in 'xXbB':
        base = 16 if chr(xs[1]) in 'xX' else 2
        xs = xs[2:]
    co, frac, e, eneg, where = 0, 0, 0, False, 0
    for x in xs:
        ch = chr(x) if type(x) is int else '5'
        if where == 0 and base == 10 and ch == '.':
            where = 1
        elif base == 10 and ch in 'dD':
            where = 2
        elif where == 2 and ch in '+-':
            eneg = ch == '-'
        else:
            d = int(ch, base) if type(x) is int else hexdigit(x)
            if where < 2:
                co = co * base + d
                frac += where
            else:
                e = e * 10 + d
    if kind == 'INT':
        return -co if neg else co
    return (1 if neg else 0), co, (-e if eneg else e) - frac


def hexdigit(x):
    return P.mkint(G.digit_value(P.term(x), 16))


def step(prefix):
    def unit(c):
        i = c.choice('class', list(range(len(CLASSES))))
        octs = CLASSES[i]
        x = member(c, octs)
        more = c.choice('then', ['', '0', '1', '-01T'])
        like = prefix + chr(octs[0]) + more
        kind = classify(like)
        if not kind and prefix == '-' and (octs[0] == ord('i') or i == len(CLASSES) - 1):
            # -inf: a float, when complete; anything else after the minus is no number
            c.assume(x != ord('i'))
        r = read_token(c, cat(prefix.encode(), one(c, x), more.encode()) if more else cat(prefix.encode(), one(c, x)),
                       'space' if kind != 'TIMESTAMP' else 'space')
        if kind is None:
            c.prove(isinstance(r, Rejected), 'text that is no number is rejected')
            return
        if kind == 'TIMESTAMP':
            if isinstance(r, Rejected):
                return              # decided by the units for timestamps
            c.prove(r[0].name == kind, 'a timestamp')
            return
        v = accepted(c, r, kind)
        parts = [ord(ch) for ch in prefix] + [x if P.is_sym(x) else int(x)] + [ord(ch) for ch in more]
        if kind == 'FLOAT':
            if not isinstance(v, FloatText):
                text = ''.join(chr(p) for p in parts if not p == 95)
                c.prove(v == float(text) and str(v) == str(float(text)), 'the double the text denotes')
            else:
                want = [P.Elem(p if isinstance(p, T.Term) else P.term(p)) for p in parts if not (type(p) is int and p == 95)]
                c.prove(isinstance(v, FloatText) and X.equal(G.merge(v.pieces), G.merge(want)), 'float() of the text read')
            return
        w = reference(c, kind, parts)
        if kind == 'INT':
            c.prove(v == w, 'the integer the text denotes')
        else:
            s, co, e = D.dec_parts(c, v)
            c.prove(s == w[0], 'the sign')
            c.prove(co == w[1], 'the coefficient')
            c.prove(e == w[2], 'the exponent')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# timestamps

SHAPES = ['dddd', 'dddd-dd', 'dddd-dd-dd', 'dddd-dd-ddTdd:dd', 'dddd-dd-ddTdd:dd:dd', 'dddd-dd-ddTdd:dd:dd.f']
MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def digit(c, name):
    return c.int(name, 48, 57)


def ascii_number(c, xs):
    n = 0
    for x in xs:
        n = n * 10 + (x - 48)
    return n


def legal_date(c, f):
    """The fields are a date and time of the calendar."""
    y, mo, d, h, mi, s = f
    if c.concrete:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        return 1 <= y and 1 <= mo <= 12 and 1 <= d <= MONTHS[mo - 1] + (leap and mo == 2) and h < 24 and mi < 60 and s < 60
    y, mo, d, h, mi, s = [P.term(x) for x in f]
    leap = T.and_(T.eq(T.mod(y, 4), C(0)), T.or_(T.not_(T.eq(T.mod(y, 100), C(0))), T.eq(T.mod(y, 400), C(0))))
    last = T.add(C(31), C(0))
    for m, n in enumerate(MONTHS):
        v = C(n) if m != 1 else T.ite(leap, C(29), C(28))
        last = T.ite(T.eq(mo, C(m + 1)), v, last)
    return T.and_(T.le(C(1), y), T.le(C(1), mo), T.le(mo, C(12)), T.le(C(1), d), T.le(d, last),
                  T.lt(h, C(24)), T.lt(mi, C(60)), T.lt(s, C(60)))


def timestamps(rank, offset, end, tee=False):
    def unit(c):
        Timestamp = resolve(CORE + ':Timestamp')
        TP = resolve(CORE + ':TimestampPrecision')
        parts, groups = [], []
        fs = None
        for i, ch in enumerate(SHAPES[rank]):
            if ch == 'd':
                x = digit(c, 'digit%d' % i)
                if i and SHAPES[rank][i - 1] == 'd':
                    groups[-1].append(x)
                else:
                    groups.append([x])
                parts.append(one(c, x))
            elif ch == 'f':
                fs = digit_string(c, 'fraction')
                if not c.concrete:
                    c.assume(T.lt(P.term(number(c, fs)), D.pow10(P.term(length(c, fs)))))       # the lemma below
                parts.append(fs)
            else:
                parts.append(ch.encode())
        off = None
        if rank < 3:
            if rank < 2 or tee:
                parts.append(b'T')
        elif offset == 'Z':
            parts.append(b'Z')
            off = 0
        else:
            o = [digit(c, 'offset%d' % i) for i in range(4)]
            parts.append(offset.encode())
            parts += [one(c, o[0]), one(c, o[1]), b':', one(c, o[2]), one(c, o[3])]
            oh, om = ascii_number(c, o[:2]), ascii_number(c, o[2:])
        r = read_token(c, cat(*parts), end)
        f = [ascii_number(c, g) for g in groups]
        f += [1, 1, 1, 0, 0, 0][len(f):]
        legal = legal_date(c, f)
        if rank >= 3 and offset != 'Z':
            ok = oh < 24 and om < 60 if c.concrete else T.and_(T.lt(P.term(oh), C(24)), T.lt(P.term(om), C(60)))
            legal = legal and ok if c.concrete else T.and_(legal, ok)
            m = oh * 60 + om
            off = -m if offset == '-' else m
        if isinstance(r, Rejected):
            c.prove(not legal if c.concrete else T.not_(legal), 'only impossible dates, times and offsets are rejected')
            return
        c.prove(legal, 'impossible dates, times and offsets are rejected')
        v = accepted(c, r, 'TIMESTAMP')
        c.prove(isinstance(v, Timestamp), 'a timestamp is read')
        c.prove(v.precision is (TP.YEAR, TP.MONTH, TP.DAY, TP.MINUTE, TP.SECOND, TP.SECOND)[rank], 'the precision')
        for n, w in zip(D.FIELDS, f):
            c.prove(getattr(v, n) == w, 'the ' + n)
        got = minutes_of(c, v)
        if got is None:
            c.prove(rank < 3 or (offset == '-' and (off == 0)), 'an unknown offset is spelled -00:00')
        else:
            c.prove(off is not None and got == off, 'the offset')
            if offset == '-':
                c.prove(off != 0, '-00:00 is the unknown offset')
        s, co, e = D.dec_parts(c, v.fractional_seconds)
        c.prove(s == 0, 'the fraction is not negative')
        c.prove(co == (number(c, fs) if fs is not None else 0), 'the fractional digits')
        c.prove(e == (-length(c, fs) if fs is not None else 0), 'the number of fractional digits')
    return unit


def digits_bound(c):
    """Lemma: n digits denote a number below 10 to the n."""
    s = digit_string(c, 'digits', least=0)
    if c.concrete:
        c.prove(int(s or b'0') < 10 ** len(s), 'n digits denote less than 10 to the n')
        return
    v = s.pieces[0]
    c.prove(T.lt(G.fold(v.arr, v.off, C(0)), D.pow10(C(0))), 'no digit denotes zero')
    k = c.fresh('k')
    c.assume(T.and_(T.le(C(0), k), T.lt(k, v.len), T.lt(G.fold(v.arr, v.off, k), D.pow10(k))))
    k1 = T.add(k, C(1))
    c.prove(T.lt(G.fold(v.arr, v.off, k1), D.pow10(k1)), 'one digit more denotes less than ten times as much')


TS = ['2019T', '2019-11T', '2019-11-30', '2019-11-30T', '2019-11-30T12:34Z', '2019-11-30T12:34:56+10:20', '2019-11-30T12:34:56.789-00:00',
      '0001-02-03T04:05:06.0Z']


def ts_step(base, how):
    """One octet of a timestamp replaced, inserted or its rest cut off."""
    def unit(c):
        i = c.choice('position', list(range(len(base))))
        k = c.choice('class', list(range(len(CLASSES))))
        octs = CLASSES[k]
        pre, post = base[:i], base[i + (how == 'replace'):]
        like = pre + chr(octs[0]) + post
        if classify(like) == 'TIMESTAMP':
            return                      # every digit is symbolic in the units above
        x = member(c, octs)
        kind = classify(like)
        if i == 0 and not ('0' <= chr(octs[0]) <= '9' or chr(octs[0]) == '-'):
            return                      # no number at all
        r = read_token(c, cat(*[p for p in (pre.encode(), one(c, x), post.encode()) if p is not None and not p == b'']), 'space')
        if kind is None:
            c.prove(isinstance(r, Rejected), 'text that is no timestamp is rejected')
        else:
            accepted(c, r, kind)
    return unit


# ---------------------------------------------------------------------------------------------------------------
# blobs

import base64
import binascii


class Decoded(P.Sym):
    """b64decode(text): the base-64 text it was given (the conversion itself is trusted)."""
    _vc_class = bytes

    def __init__(self, pieces):
        self.pieces = pieces

    @property
    def __class__(self):
        return bytes


@rt.model(base64.b64decode)
def m_b64decode(x, *args):
    if not P.is_sym(x) or not hasattr(x, 'pieces') or args:
        return NotImplemented
    c = P.ctx()
    ps = G.merge(G.octet_pieces(x))
    pads = 0
    while ps and isinstance(ps[-1], P.Elem) and T.is_const(ps[-1].t) and ps[-1].t.val == 61:
        ps.pop()
        pads += 1
    n = P.total(ps)
    r = T.mod(n, 4)
    if not c.decide(T.or_(*[T.and_(T.eq(r, C(a)), T.le(C(b), C(pads))) for a, b in ((0, 0), (2, 2), (3, 1))])):
        raise binascii.Error('Incorrect padding')
    return Decoded(ps)


def blobs(how, end):
    def unit(c):
        d = base64_digits(c) if how != 'empty' else b''
        pads = c.choice('pads', [0, 1, 2, 3, 4, 5])
        parts = [b'{{']
        if how == 'spaces':
            x, y, z = [member(c, [ord(k) for k in SPACE], n) for n in ('space1', 'space2', 'space3')]
            a, b = split(c, d, 'space at')
            parts += [one(c, x), a, one(c, y), b] + [b'='] * pads + [one(c, z)]
        else:
            parts += ([d] if d != b'' else []) + [b'='] * pads
        parts.append(b'}}')
        n = length(c, d)
        legal = P.term(n + pads) if not c.concrete else n + pads
        if c.concrete:
            legal = (n + pads) % 4 == 0 and pads < 3 and (n > 0 or not pads)
        else:
            legal = T.and_(T.eq(T.mod(P.term(n + pads), 4), C(0)), C(pads < 3), C(how != 'empty' or not pads))
            legal = T.and_(T.eq(T.mod(P.term(n + pads), 4), C(0)), T.const(pads < 3 and (how != 'empty' or not pads)))
        r = read_token(c, cat(*parts), end)
        if isinstance(r, Rejected):
            c.prove(not legal if c.concrete else T.not_(legal), 'only text that is not base 64 is rejected')
            return
        c.prove(legal, 'text that is not base 64 is rejected')
        v = accepted(c, r, 'BLOB')
        if c.concrete:
            c.prove(v == base64.b64decode(d + b'=' * pads), 'the octets the text denotes')
        elif how == 'empty':
            c.prove(not v.pieces if isinstance(v, Decoded) else v == b'', 'no octets')
        else:
            c.prove(isinstance(v, Decoded) and X.equal(G.merge(v.pieces), G.merge(P.pieces_of(d))), 'the octets the text denotes')
    return unit


def base64_digits(c):
    if c.concrete:
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
        def gen():
            return ''.join(c.rng.choice(al) if c.rng else 'A' for _ in range(c.rng.choice([2, 3, 4, 7, 8, 20]) if c.rng else 4)).encode()
        s = bytes(c._get('digits', gen))
        return bytes(bytearray(x if chr(x) in al else 65 for x in bytearray(s))) or b'A'
    b = c.bytes('digits', 1)
    v = b.pieces[0]
    c.ghost[('digits', v.arr.id)] = 64
    c.forall(v.arr, C(-(1 << 200)), None, lambda i, s: G.digit_in(s, 64))
    return b


def blob_step(base):
    def unit(c):
        i = c.choice('position', list(range(2, len(base))))
        k = c.choice('class', list(range(len(BLOB_CLASSES))))
        x = member(c, BLOB_CLASSES[k])
        like = base[:i] + chr(BLOB_CLASSES[k][0]) + base[i:]
        if '"' in like or "'" in like:
            return                                  # clobs: C18
        r = read_token(c, cat(*[p for p in (base[:i].encode(), one(c, x), base[i:].encode()) if not p == b'']), 'list')
        m = BLOB_RE.match(like)
        n = len(re.sub('[^A-Za-z0-9+/=]', '', like))
        ok = m and n % 4 == 0 and (n != 1)
        c.prove(isinstance(r, Rejected) == (not ok), 'accepted exactly when base 64 inside {{ and }}')
    return unit


BLOB_RE = re.compile(r'\{\{[ \t\n\r\x0b\x0c]*([A-Za-z0-9+/][ \t\n\r\x0b\x0c]*)*(=[ \t\n\r\x0b\x0c]*){0,2}\}\}$')
B64 = [ord(ch) for ch in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']
BLOB_CLASSES = [B64, [61], [125], [ord(ch) for ch in SPACE]]
BLOB_CLASSES.append([x for x in range(256) if not any(x in k for k in BLOB_CLASSES) and x not in (34, 39)])

LEX = ['_number_or_timestamp_handler', '_numeric_handler_factory', '_coefficient_handler_factory', '_exponent_handler_factory']
ASSUMPTIONS = ['float(text) and base64.b64decode(text) convert correctly: proved is which text they are given',
               'int(text) and Decimal(text) denote what place-value notation says, for exponents of any size',
               'datetime accepts exactly the dates and times of the proleptic Gregorian calendar, years 1 to 9999']
UNITS = []


def add(name, fn, of, **kw):
    UNITS.append(Unit('C16.' + name, fn, contracts=[TimestampNew], loops=X.SCANS + [X.ScanBlob], of=[RT + ':' + x for x in of], **kw))


add('int', int_decimal(None), LEX[:2] + ['_number_negative_start_handler', '_number_zero_start_handler'])
add('int[hexadecimal]', int_radix(16, None), ['_radix_int_handler_factory', '_base_n'])
add('int[at the end]', int_decimal('end of input'), LEX[:2])
add('int[hexadecimal, at the end]', int_radix(16, 'end of input'), LEX[:2])
add('int[binary]', int_radix(2, None), ['_radix_int_handler_factory', '_base_n'])
for _d in ('none', 'dot', 'fraction', 'fraction, underscore'):
    for _e in (None, '', '+', '-'):
        if _d != 'none' or _e is not None:
            add('decimal[%s, exponent %r]' % (_d, _e), decimals(_d, _e, None if _d == 'none' and not _e else 'comment'),
                LEX + ['_base_10'])
    for _e in ('', '+', '-'):
        add('float[%s, exponent %r]' % (_d, _e), floats(_d, _e, 'space'), LEX + ['_base_10'])
for _p in PREFIXES:
    add('number step[%s]' % _p, step(_p), LEX)
for _r in range(6):
    for _o in (['Z', '+', '-'] if _r > 2 else [None]):
        add('timestamp[%s%s]' % (SHAPES[_r], _o or ''), timestamps(_r, _o, 'space'), ['_timestamp_handler', '_parse_timestamp'])
add('lemma: n digits denote a number below 10 to the n', digits_bound, [])
add('timestamp[dddd-dd-ddT]', timestamps(2, None, 'space', True), ['_timestamp_handler', '_parse_timestamp'])
add('timestamp[ends]', timestamps(1, None, None, True), ['_timestamp_handler', '_parse_timestamp'])
for _t in TS:
    for _h in ('replace', 'insert'):
        add('timestamp step[%s, %s]' % (_t, _h), ts_step(_t, _h), ['_timestamp_handler', '_timestamp_zero_start_handler'])
for _h in ('digits', 'spaces', 'empty'):
    add('blob[%s]' % _h, blobs(_h, None if _h == 'empty' else 'list'), ['_lob_start_handler', '_blob_end_handler_factory', '_lob_end_handler_factory', '_parse_lob'])
for _b in ('{{}}', '{{aa==}}', '{{abcd}}', '{{abcdefg=}}', '{{ ab cd }}'):
    add('blob step[%s]' % _b, blob_step(_b), ['_lob_start_handler', '_blob_end_handler_factory', '_lob_end_handler_factory'])
