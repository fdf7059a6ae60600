"""Symbolic text: ropes of code points, hexadecimal formatting and escape decoding; output streams."""
import operator
import re

import six

from . import terms as T
from . import proxies as P
from . import rt
from .engine import ctx, Unsupported


class Run(object):
    """An opaque stretch of text (or octets) of non-negative length, identified by its token."""
    __slots__ = ('token', 'len')

    def __init__(self, token, ln):
        self.token, self.len = token, ln


class VText(P.Sym):
    """A str: code point terms and opaque runs."""
    _vc_class = str

    def __init__(self, pieces):
        self.pieces = list(pieces)

    @property
    def __class__(self):
        return str

    @staticmethod
    def of(x):
        if type(x) is VText:
            return list(x.pieces)
        if isinstance(x, str) and not P.is_sym(x):
            return [T.const(ord(ch)) for ch in x]
        raise Unsupported('text of %s' % type(x).__name__)

    def vc_len(self):
        n = T.const(0)
        for p in self.pieces:
            n = T.add(n, p.len if isinstance(p, Run) else T.const(1))
        return P.mkint(n)

    def __bool__(self):
        return bool(self.vc_len() != 0)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return VText(self.pieces + VText.of(o))

    def __radd__(self, o):
        return VText(VText.of(o) + self.pieces)

    def __iter__(self):
        for p in self.pieces:
            if type(p) is Run:
                self._no('iteration over an opaque run')
            yield VText([p])

    def vc_finite(self):
        return not any(isinstance(p, Run) for p in self.pieces)

    def vc_ord(self):
        if len(self.pieces) != 1 or isinstance(self.pieces[0], Run):
            self._no('ord')
        return P.mkint(self.pieces[0])

    def vc_getitem(self, k):
        if any(type(p) is Run for p in self.pieces) or P.is_sym(k):
            self._no('index')
        if isinstance(k, slice):
            return VText(self.pieces[k])
        return VText([self.pieces[k]])

    def encode(self, enc='utf-8', errors='strict'):
        out = []
        c = ctx()
        for p in self.pieces:
            if type(p) is Run:
                if enc.lower().replace('_', '-') != 'utf-8':
                    self._no('encode')
                out.append(blob_of(p))
                continue
            if not c.decide(T.and_(T.le(T.const(0), p), T.lt(p, T.const(128)))):
                self._no('encode of a non-ASCII code point')
            out.append(P.Elem(p))
        return P.VBytes(out)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = list(self.pieces), VText.of(o)
        conds = []
        while a and b:
            x, y = a.pop(0), b.pop(0)
            if type(x) is Run or type(y) is Run:
                if type(x) is Run and type(y) is Run and x.token is y.token:
                    continue
                raise Unsupported('comparison of opaque text')
            conds.append(T.eq(x, y))
        for p in a + b:
            conds.append(T.eq(p.len, T.const(0)) if type(p) is Run else T.FALSE)
        return P.mkbool(T.and_(*conds))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(P.as_cond(r)))
    __hash__ = P.Sym.__hash__


def blob_of(run):
    """The UTF-8 octets of an opaque run of text: an uninterpreted octet string, decoded back to the same run."""
    c = ctx()
    b = c.ghost.get(('utf8', run.token.id))
    if b is None:
        n = T.app('utf8_length', (run.token,))
        c.assume(T.and_(T.le(run.len, n), T.implies(T.eq(run.len, T.const(0)), T.eq(n, T.const(0)))))
        b = c.ghost[('utf8', run.token.id)] = P.Blob(run.token, n)
        c.ghost[('run', run.token.id)] = run
    return b


def text_input(c, name):
    """Arbitrary text (no lone surrogates)."""
    if c.concrete:
        pool = ['', 'a', '\u00e9', '\u4e2d', '\U0001f600', '"', "'", '\\', '\n', '\0', 'name', 'x' * 13, 'x' * 14, '\u00e9' * 7, 'y' * 130]
        return c._get(name, lambda: ''.join(c.rng.choice(pool) for _ in range(c.rng.randrange(3))) if c.rng else '')
    tok, n = c.fresh('text_' + name), c.fresh('len_' + name)
    c.assume(T.le(T.const(0), n))
    c._input(name, 'opaque', type('Hidden', (), {'null': False})())
    return VText([Run(tok, n)])


def chr_model(x):
    if not P.intlike(x) or not P.is_sym(x):
        return NotImplemented
    t = P.term(x)
    c = ctx()
    if not c.decide(T.and_(T.le(T.const(0), t), T.le(t, T.const(0x10ffff)))):
        raise ValueError('chr() arg not in range')
    return VText([t])


rt.model(chr)(chr_model)
if six.unichr is not chr:
    rt.model(six.unichr)(chr_model)


def int2byte(x):
    if not P.is_sym(x):
        return NotImplemented
    t = P.term(x)
    if not ctx().decide(T.and_(T.le(T.const(0), t), T.lt(t, T.const(256)))):
        raise ValueError('octet out of range')
    return P.VBytes([P.Elem(t)])


rt.model(six.int2byte)(int2byte)
_PACK = getattr(six.int2byte, '__func__', None)      # Struct('>B').pack
if _PACK is not None:
    rt.model(_PACK)(lambda self, x: int2byte(x) if self.format in ('>B', b'>B') else NotImplemented)


def hexdigit(d, upper=False):
    return T.ite(T.lt(d, T.const(10)), T.add(d, T.const(48)), T.add(d, T.const(55 if upper else 87)))


def hexvalue(e):
    """(value, is a hexadecimal digit)"""
    known = ctx().ghost.get(('hex', e.id))
    if known is not None:
        return known, T.TRUE            # hexvalue(hexdigit(d)) = d for 0 <= d < 16, checked below
    def rng(a, b):
        return T.and_(T.le(T.const(ord(a)), e), T.le(e, T.const(ord(b))))
    v = T.ite(rng('0', '9'), T.sub(e, T.const(48)), T.ite(rng('a', 'f'), T.sub(e, T.const(87)), T.sub(e, T.const(55))))
    return v, T.or_(rng('0', '9'), rng('a', 'f'), rng('A', 'F'))


def _hex_lemma():
    for d in range(16):
        for up in (False, True):
            e = hexdigit(T.const(d), up)
            assert e.val == ord(('%X' if up else '%x') % d)

    class Ctx(object):
        ghost = {}
    global ctx
    real, ctx = ctx, Ctx
    try:
        for d in range(16):
            for up in (False, True):
                v, ok = hexvalue(hexdigit(T.const(d), up))
                assert ok.val and v.val == d
        assert not any(hexvalue(T.const(x))[1].val for x in range(256) if chr(x) not in '0123456789abcdefABCDEF')
    finally:
        ctx = real


_hex_lemma()
_SPEC = re.compile(r'%(?:(0?)(\d*)([dxXs])|%)')


def percent(fmt, arg):
    """str % one symbolic integer."""
    if isinstance(fmt, bytes):
        r = percent(fmt.decode('latin-1'), arg)
        return r if r is NotImplemented else r.encode()
    args = list(arg) if type(arg) is tuple else [arg]
    out, at = [], 0
    c = ctx()
    if '%' in _SPEC.sub('', fmt):
        raise Unsupported('formatting %r' % fmt)
    for m in _SPEC.finditer(fmt):
        out += VText.of(fmt[at:m.start()])
        at = m.end()
        if m.group(0) == '%%':
            out.append(T.const(37))
            continue
        if not args:
            raise TypeError('not enough arguments for format string')
        a = args.pop(0)
        if not P.is_sym(a):
            out += VText.of(m.group(0) % (a,))
            continue
        zero, width, conv = m.group(1), int(m.group(2) or 0), m.group(3)
        if conv in 'xX' and P.intlike(a):
            t = P.term(a)
            if not c.decide(T.le(T.const(0), t)):
                raise Unsupported('hexadecimal text of a negative integer')
            n = 1
            while not c.decide(T.lt(t, T.const(16 ** n))):
                n += 1
                if n > 16:
                    raise Unsupported('hexadecimal text of a large integer')
            pad = max(0, width - n)
            out += [T.const(48 if zero else 32)] * pad
            q = [t]
            for i in range(1, n):
                q.append(T.div(q[-1], 16))
            q.append(T.const(0))        # t < 16 ** n
            for i in range(n - 1, -1, -1):
                d = T.sub(q[i], T.scale(q[i + 1], 16))
                e = hexdigit(d, conv == 'X')
                c.ghost[('hex', e.id)] = d
                out.append(e)
            continue
        if conv == 's' and type(a) is VText and not width:
            out += a.pieces
            continue
        f = TEXT_OF.get(conv)
        if f is not None and not width:
            out += VText.of(f(a))
            continue
        raise Unsupported('formatting %s of a symbolic value' % m.group(0))
    out += VText.of(fmt[at:])
    if args:
        raise TypeError('not all arguments converted')
    return VText(out)


TEXT_OF = {}
rt.FORMAT['%'] = percent


_SIMPLE = {ord(a): ord(b) for a, b in zip('abtnfrv\'"\\', '\a\b\t\n\f\r\v\'"\\')}


def unescape(elems):
    """bytes.decode('unicode-escape') of a sequence of octet terms."""
    c = ctx()
    out, i = [], 0

    def const(t, what):
        if T.is_const(t):
            return t.val
        for v in what:
            if c.decide(T.eq(t, T.const(v))):
                return v
        return None
    while i < len(elems):
        e = elems[i]
        if const(e, (92,)) != 92:
            out.append(e)
            i += 1
            continue
        if i + 1 >= len(elems):
            raise UnicodeDecodeError('unicodeescape', b'', 0, 1, '\\ at end of string')
        k = const(elems[i + 1], list(_SIMPLE) + [ord(x) for x in 'xuU\n01234567N'])
        i += 2
        if k in _SIMPLE:
            out.append(T.const(_SIMPLE[k]))
        elif k == 10:
            pass
        elif k in (ord('x'), ord('u'), ord('U')):
            n = {ord('x'): 2, ord('u'): 4, ord('U'): 8}[k]
            t = T.const(0)
            for j in range(n):
                if i + j >= len(elems):
                    raise UnicodeDecodeError('unicodeescape', b'', 0, 1, 'truncated escape')
                v, ok = hexvalue(elems[i + j])
                if not c.decide(ok):
                    raise UnicodeDecodeError('unicodeescape', b'', 0, 1, 'truncated escape')
                t = T.add(T.scale(t, 16), v)
            i += n
            if n == 8 and not c.decide(T.le(t, T.const(0x10ffff))):
                raise UnicodeDecodeError('unicodeescape', b'', 0, 1, 'illegal Unicode character')
            out.append(t)
        elif k is not None and 48 <= k <= 55:
            v = 0
            for j in range(3):
                if j and i - 1 + j >= len(elems):
                    break
                d = k if j == 0 else const(elems[i - 1 + j], [ord(x) for x in '01234567'])
                if d is None or not 48 <= d <= 55:
                    break
                v = v * 8 + d - 48
            i += j - 1 if j < 2 or d is None or not 48 <= d <= 55 else j
            out.append(T.const(v))
        else:
            raise Unsupported('unicode-escape decoding of an unknown escape')
    return VText(out)


C = T.const


def utf8(elems):
    """bytes.decode('utf-8') of octet terms."""
    c = ctx()
    out, i = [], 0

    def within(t, lo, hi):
        return T.and_(T.le(C(lo), t), T.le(t, C(hi)))

    while i < len(elems):
        e = elems[i]
        if c.decide(within(e, 0, 127)):
            out.append(e)
            i += 1
            continue
        n = 1 if c.decide(within(e, 0xc2, 0xdf)) else 2 if c.decide(within(e, 0xe0, 0xef)) else 3 if c.decide(within(e, 0xf0, 0xf4)) else 0
        bad = UnicodeDecodeError('utf-8', b'', 0, 1, 'invalid sequence')
        tail = elems[i + 1:i + 1 + n]
        if not n or len(tail) < n:
            raise bad
        v = T.sub(e, C({1: 0xc0, 2: 0xe0, 3: 0xf0}[n]))
        for x in tail:
            if not c.decide(within(x, 0x80, 0xbf)):
                raise bad
            v = T.add(T.scale(v, 64), T.sub(x, C(0x80)))
        ok = {1: lambda: within(v, 0x80, 0x7ff),
              2: lambda: T.and_(within(v, 0x800, 0xffff), T.not_(within(v, 0xd800, 0xdfff))),
              3: lambda: within(v, 0x10000, 0x10ffff)}[n]()
        if not c.decide(ok):
            raise bad
        out.append(v)
        i += 1 + n
    return VText(out)


_decode = P.VBytes.decode


def decode(self, enc='utf-8', errors='strict'):
    name = enc.lower().replace('_', '-')
    if all(isinstance(p, P.Elem) for p in self.pieces):
        el = [p.t for p in self.pieces]
        if name == 'unicode-escape':
            return unescape(el)
        if name in ('utf-8', 'ascii') :
            return utf8(el)
        if name in ('latin-1', 'iso-8859-1'):
            return VText(el)
    elif name == 'utf-8' and all(isinstance(p, (P.Elem, P.Blob)) for p in self.pieces):
        out = []
        for p in self.pieces:
            if isinstance(p, P.Blob):
                out.append(ctx().ghost[('run', p.token.id)])
            else:
                out += utf8([p.t]).pieces
        return VText(out)
    return _decode(self, enc, errors)


P.VBytes.decode = decode
P._BytesBase.decode = decode


class VOut(P.Sym):
    """io.BytesIO opened for writing at its end."""
    from io import BytesIO as _vc_class

    def __init__(self):
        self.buf = P.VBuf()
        self.serial = self.buf.serial

    def write(self, x):
        P.ctx_write(self)
        self.buf.pieces.extend(P.pieces_of(x))
        return P.mkint(P.total(P.pieces_of(x)))

    def getvalue(self):
        ps = self.buf.pieces
        if all(isinstance(p, P.Elem) and T.is_const(p.t) for p in ps):
            return bytes(bytearray(p.t.val for p in ps))
        return P.VBytes(ps)

    def tell(self):
        return P.mkint(P.total(self.buf.pieces))

    def close(self):
        pass


class IntSub(P.SymInt):
    """An instance of a subclass of int defined by the code under verification (CodePoint, for one)."""

    def __init__(self, cls, t):
        self.__dict__['t'] = t
        self.__dict__['cls'] = cls

    @property
    def __class__(self):
        return self.__dict__['cls']

    def __getattr__(self, name):
        if name.startswith('_vc'):
            raise AttributeError(name)
        if hasattr(self.__dict__['cls'], name):
            raise Unsupported('attribute %s of a symbolic %s' % (name, self.__dict__['cls'].__name__))
        raise AttributeError(name)

    __hash__ = P.Sym.__hash__


def int_subclass(cls, args, kw):
    o = IntSub(cls, P.term(args[0]))
    init = cls.__dict__.get('__init__')
    if init is not None:
        init(o, *args, **kw)
    return o


def parse_int(terms, base):
    """int(text, base) for symbolic characters: an optional sign and prefix, digits, single underscores between them."""
    c = ctx()

    def is_(t, chars):
        k = T.or_(*[T.eq(t, T.const(ord(x))) for x in chars])
        return k.val if T.is_const(k) else c.decide(k)
    ts = list(terms)
    while ts and is_(ts[0], ' \t\n\r\x0b\x0c'):
        ts.pop(0)
    while ts and is_(ts[-1], ' \t\n\r\x0b\x0c'):
        ts.pop()
    neg = False
    if ts and is_(ts[0], '+-'):
        neg = is_(ts.pop(0), '-')
    pre = {16: 'xX', 2: 'bB', 8: 'oO'}.get(base)
    if pre and len(ts) > 1 and is_(ts[0], '0') and is_(ts[1], pre):
        ts = ts[2:]
        if ts and is_(ts[0], '_'):
            ts.pop(0)
    out, last = T.const(0), False
    if not ts:
        raise ValueError('invalid literal for int()')
    for t in ts:
        if base == 16:
            v, ok = hexvalue(t)
        else:
            v = T.sub(t, T.const(48))
            ok = T.and_(T.le(T.const(0), v), T.lt(v, T.const(base)))
        if ok.val if T.is_const(ok) else c.decide(ok):
            out = T.add(T.scale(out, base), v)
            last = True
        elif last and is_(t, '_'):
            last = False
        else:
            raise ValueError('invalid literal for int()')
    if not last:
        raise ValueError('invalid literal for int()')
    return P.mkint(T.neg(out) if neg else out)


def _vc_int(x, base=10):
    if base not in (2, 8, 10, 16):
        raise Unsupported('int() of base %s' % (base,))
    if type(x) is VText:
        if not x.vc_finite():
            x._no('int')
        return parse_int(x.pieces, base)
    if not x.vc_finite():
        x._no('int')
    return parse_int([p.t for p in x.pieces], base)


VText.vc_int = _vc_int
P._BytesBase.vc_int = _vc_int
