"""Symbolic stand-ins for int, bool, bytes, bytearray, BytesIO that record the operations of the real code as terms."""
from . import terms as T
from .engine import ctx, Unsupported, as_cond


def term(x):
    """The Int term of an int-like value."""
    if type(x) is SymBool:
        return T.ite(x.t, T.const(1), T.const(0))
    if isinstance(x, bool):
        return T.const(int(x))
    if type(x) is SymInt or isinstance(x, SymInt) and is_sym(x):
        return x.t
    if type(x) is int:
        return T.const(x)
    if isinstance(x, int):
        return T.const(int(x))
    raise Unsupported('not an integer: %s' % type(x).__name__)


def is_sym(x):
    return getattr(type(x), '_vc_sym', False)


def mkint(t):
    return t.val if T.is_const(t) else SymInt(t)


def mkbool(t):
    return t.val if T.is_const(t) else SymBool(t)


def intlike(x):
    ty = type(x)
    return ty is int or ty is SymInt or ty is bool or ty is SymBool or issubclass(ty, SymInt) or \
        (not is_sym(x) and isinstance(x, int))


class Sym(object):
    """Base of all proxies. Anything not modelled leaves the subset."""
    _vc_sym = True
    __hash__ = None

    def _no(self, what):
        raise Unsupported('%s on a symbolic %s' % (what, type(self).__name__))

    def __hash__(self):
        self._no('hash')

    def __getattr__(self, name):
        cls = getattr(type(self), '_vc_class', None)
        if cls is not None and not hasattr(cls, name):
            raise AttributeError(name)
        raise Unsupported('attribute %s of a symbolic %s' % (name, type(self).__name__))

    def __str__(self):
        return self._text()

    def __repr__(self):
        return self._text()

    def __format__(self, spec):
        return self._text()

    def _text(self):
        c = ctx()
        if c is not None and not c.msg:
            self._no('text of')
        return '<symbolic>'

    def __index__(self):
        self._no('index')

    def __int__(self):
        self._no('int()')

    def __iter__(self):
        self._no('iteration')

    def __len__(self):
        self._no('len()')


def _arith(name):
    def op(self, other):
        if not intlike(other):
            return NotImplemented
        return mkint(getattr(T, name)(term(self), term(other)))

    def rop(self, other):
        if not intlike(other):
            return NotImplemented
        return mkint(getattr(T, name)(term(other), term(self)))
    return op, rop


def _cmp(fn):
    def op(self, other):
        if isinstance(other, float) or type(other).__name__ == 'Decimal' and not is_sym(other):
            other = _num_bound(other)
            if other is None:
                return NotImplemented
            if not intlike(other):
                return getattr(_Inf, fn.__name__)(other)
        if not intlike(other):
            return NotImplemented
        return mkbool(fn(term(self), term(other)))
    return op


def _num_bound(x):
    """A Decimal/float that is an integer or infinite; None when it is neither."""
    try:
        if x == float('inf') or x == float('-inf'):
            return _Inf(x > 0)
        if x == int(x):
            return int(x)
    except (OverflowError, ValueError):
        pass
    return None


class _Inf(object):
    def __init__(self, pos):
        self.pos = pos

    def _lt(self):
        return self.pos
    _le = _lt

    def _gt(self):
        return not self.pos
    _ge = _gt

    def _eq(self):
        return False

    def _ne(self):
        return True


def _lt(a, b):
    return T.lt(a, b)


def _le(a, b):
    return T.le(a, b)


def _gt(a, b):
    return T.lt(b, a)


def _ge(a, b):
    return T.le(b, a)


def _eq(a, b):
    return T.eq(a, b)


def _ne(a, b):
    return T.not_(T.eq(a, b))


def _pow2(n):
    return n > 0 and n & (n - 1) == 0


def band_const(t, c):
    """t & c for a constant c >= 0, as a sum over the runs of set bits of c."""
    out = T.const(0)
    i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            run = T.mod(T.div(t, 1 << i), 1 << (j - i))
            out = T.add(out, T.scale(run, 1 << i))
            i = j
        else:
            i += 1
    return out


def band(a, b):
    ta, tb = term(a), term(b)
    if T.is_const(ta) and T.is_const(tb):
        return ta.val & tb.val
    if T.is_const(ta):
        ta, tb = tb, ta
    if T.is_const(tb):
        if tb.val >= 0:
            return mkint(band_const(ta, tb.val))
        # t & -2^k : clear the low bits
        if _pow2(-tb.val):
            return mkint(T.scale(T.div(ta, -tb.val), -tb.val))
    return _bits('band', ta, tb)


def _low_zero_bits(t):
    d, c = T._lin(t)
    vs = list(d.values()) + ([c] if c else [])
    k = 0
    while vs and all(v % (1 << (k + 1)) == 0 for v in vs) and k < 4096:
        k += 1
    return k


def bor(a, b):
    ta, tb = term(a), term(b)
    if T.is_const(ta) and T.is_const(tb):
        return ta.val | tb.val
    if T.is_const(ta):
        ta, tb = tb, ta
    if T.is_const(tb) and tb.val >= 0:
        if tb.val == 0:
            return mkint(ta)
        return mkint(T.sub(T.add(ta, tb), band_const(ta, tb.val)))
    for x, y in ((ta, tb), (tb, ta)):
        k = _low_zero_bits(x)
        if k and ctx().valid(T.and_(T.le(T.const(0), y), T.lt(y, T.const(1 << k)))):
            return mkint(T.add(x, y))
    return _bits('bor', ta, tb)


def _bits(name, ta, tb):
    """Bitwise combination of two non-negative symbolic integers: uninterpreted but for its bounds."""
    c = ctx()
    if not c.valid(T.and_(T.le(T.const(0), ta), T.le(T.const(0), tb))):
        raise Unsupported('bitwise operation on possibly negative symbolic integers')
    if ta.id > tb.id:
        ta, tb = tb, ta
    r = T.app(name, (ta, tb))
    if name == 'bor':
        c.assume(T.and_(T.le(ta, r), T.le(tb, r), T.le(r, T.add(ta, tb))))
    else:
        c.assume(T.and_(T.le(T.const(0), r), T.le(r, ta), T.le(r, tb)))
    return SymInt(r)


def bit_length_term(t):
    """bl(t) for t >= 0, with its defining facts in terms of shr."""
    if T.is_const(t):
        return T.const(t.val.bit_length())
    c = ctx()
    b = T.app('bit_length', (t,))
    if ('bl', t.id) not in c.ghost:
        c.ghost[('bl', t.id)] = b
        one = T.const(1)
        c.assume(T.implies(T.le(one, t), T.le(one, b)))
        c.assume(T.implies(T.eq(t, T.const(0)), T.eq(b, T.const(0))))
        c.assume(T.le(T.const(0), b))
        for k in (1, 6, 7, 8):
            # t < 2^k exactly when bl(t) <= k
            c.assume(T.eq(T.and_(T.le(T.const(0), t), T.lt(t, T.const(1 << k))),
                          T.and_(T.le(T.const(0), t), T.le(b, T.const(k)))))
    return b


def shr_term(t, k):
    """floor(t / 2^k) for t >= 0 and a symbolic k >= 0."""
    if T.is_const(k):
        return T.div(t, 1 << k.val)
    c = ctx()

    def step(cur, at):
        return T.div(cur, 2)
    key = ('shr', t.id, k.id)
    s = T.app('shr', (t, k))
    if key in c.ghost:
        return s
    c.ghost[key] = s
    b = bit_length_term(t)
    zero = T.const(0)
    c.assume(T.le(zero, s))
    c.assume(T.le(s, t))
    c.assume(T.implies(T.eq(k, zero), T.eq(s, t)))
    c.assume(T.implies(T.le(b, k), T.eq(s, zero)))
    c.assume(T.implies(T.and_(T.lt(k, b), T.le(zero, k)), T.le(T.const(1), s)))
    for n in (6, 7, 8):
        c.assume(T.implies(T.and_(T.le(T.sub(b, k), T.const(n)), T.le(zero, k)), T.lt(s, T.const(1 << n))))
    known = c.ghost.setdefault(('shrs', t.id), [])
    for k2, s2 in known:
        d = T.sub(k, k2)
        if T.is_const(d) and 0 < abs(d.val) <= 64:
            if d.val > 0:
                c.assume(T.implies(T.le(zero, k2), T.eq(s, T.div(s2, 1 << d.val))))
            else:
                c.assume(T.implies(T.le(zero, k), T.eq(s2, T.div(s, 1 << -d.val))))
    known.append((k, s))
    return s


class SymInt(Sym):
    _vc_class = int

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    __add__, __radd__ = _arith('add')
    __sub__, __rsub__ = _arith('sub')
    __mul__, __rmul__ = _arith('mul')
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = [_cmp(f) for f in (_lt, _le, _gt, _ge, _eq, _ne)]
    __hash__ = Sym.__hash__

    def _vc_bool(self):
        return T.not_(T.eq(self.t, T.const(0)))

    def __bool__(self):
        return ctx().decide(self._vc_bool())

    def __neg__(self):
        return mkint(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if ctx().decide(T.le(T.const(0), self.t)) else -self

    def __invert__(self):
        return mkint(T.sub(T.const(-1), self.t))

    def __floordiv__(self, o):
        if not intlike(o):
            return NotImplemented
        n = term(o)
        if T.is_const(n) and n.val > 0:
            return mkint(T.div(self.t, n.val))
        self._no('division by a non-constant')

    def __mod__(self, o):
        if not intlike(o):
            return NotImplemented
        n = term(o)
        if T.is_const(n) and n.val > 0:
            return mkint(T.mod(self.t, n.val))
        self._no('modulus by a non-constant')

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        self._no('true division')

    def __rfloordiv__(self, o):
        self._no('division by a non-constant')

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        self._no('modulus by a non-constant')

    def __and__(self, o):
        return band(self, o) if intlike(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o) if intlike(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        self._no('^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        k = term(o)
        if T.is_const(k):
            if k.val < 0:
                raise ValueError('negative shift count')
            return mkint(T.scale(self.t, 1 << k.val))
        self._no('shift by a symbolic count')

    def __rlshift__(self, o):
        self._no('shift by a symbolic count')

    def __rshift__(self, o):
        k = term(o)
        if T.is_const(k):
            if k.val < 0:
                raise ValueError('negative shift count')
            return mkint(T.div(self.t, 1 << k.val))
        if ctx().decide(T.lt(k, T.const(0))):
            raise ValueError('negative shift count')
        if not ctx().valid(T.le(T.const(0), self.t)):
            self._no('shift of a possibly negative integer by a symbolic count')
        return mkint(shr_term(self.t, k))

    def __rrshift__(self, o):
        k = self.t
        if ctx().decide(T.lt(k, T.const(0))):
            raise ValueError('negative shift count')
        return mkint(shr_term(term(o), k))

    def __pow__(self, o, m=None):
        self._no('power')
    __rpow__ = __pow__

    def bit_length(self):
        if not ctx().valid(T.le(T.const(0), self.t)):
            return abs(self).bit_length()
        return mkint(bit_length_term(self.t))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    _vc_class = bool

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def _vc_bool(self):
        return self.t

    def __bool__(self):
        return ctx().decide(self.t)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(T.eq(self.t, as_cond(o)))
        if intlike(o):
            return mkbool(T.eq(term(self), term(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(T.not_(as_cond(r)))
    __hash__ = Sym.__hash__

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(T.and_(self.t, as_cond(o)))
        return mkint(term(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(T.or_(self.t, as_cond(o)))
        return mkint(term(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(T.not_(T.eq(self.t, as_cond(o))))
        return mkint(term(self)) ^ o
    __rxor__ = __xor__

    def _i(self):
        return mkint(term(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o


# ---------------------------------------------------------------------------------------------------------------
# byte sequences: ropes of single octets and views into symbolic arrays

class Elem(object):
    """One octet."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    length = property(lambda self: T.const(1))


class View(object):
    """arr[off .. off+length)."""
    __slots__ = ('arr', 'off', 'len', 'tag')

    def __init__(self, arr, off, ln, tag=None):
        self.arr, self.off, self.len, self.tag = arr, off, ln, tag

    length = property(lambda self: self.len)


class Blob(object):
    """An uninterpreted byte string identified by a token term (e.g. the UTF-8 octets of an opaque text)."""
    __slots__ = ('token', 'len')

    def __init__(self, token, ln):
        self.token, self.len = token, ln

    length = property(lambda self: self.len)


def fresh_array(name):
    c = ctx()
    a = c.fresh(name, T.ARR)
    c.forall(a, T.const(-(1 << 200)), None, lambda i, s: T.and_(T.le(T.const(0), s), T.lt(s, T.const(256))))
    return a


def byte_range(arr):
    c = ctx()
    if not c.foralls.get(arr.id):
        c.forall(arr, T.const(-(1 << 200)), None, lambda i, s: T.and_(T.le(T.const(0), s), T.lt(s, T.const(256))))


def total(pieces):
    t = T.const(0)
    for p in pieces:
        t = T.add(t, p.length)
    return t


def pieces_of(x):
    """Pieces of anything bytes-like."""
    if isinstance(x, (VBytes, VBuf)):
        return list(x.pieces)
    if isinstance(x, (bytes, bytearray, memoryview)) and not is_sym(x):
        return [Elem(T.const(b)) for b in bytearray(x)]
    raise Unsupported('bytes of %s' % type(x).__name__)


def cut(pieces, at):
    """Splits pieces at the (term) offset; returns (left, right)."""
    c = ctx()
    left, rest = [], list(pieces)
    at = T.sub(at, T.const(0))
    while True:
        if T.is_const(at) and at.val == 0:
            return left, rest
        if not rest:
            if c.valid(T.eq(at, T.const(0))):
                return left, rest
            raise Unsupported('split past the end of a byte sequence')
        p = rest[0]
        d = T.sub(at, p.length)
        if T.is_const(d):
            whole = d.val >= 0
        elif c.valid(T.le(T.const(0), d)):
            whole = True
        elif c.valid(T.eq(at, T.const(0))):
            return left, rest
        elif c.valid(T.lt(d, T.const(0))):
            whole = False
        else:
            whole = c.decide(T.le(T.const(0), d))
        if whole:
            left.append(p)
            rest.pop(0)
            at = d
            continue
        if isinstance(p, View):
            left.append(View(p.arr, p.off, at))
            rest[0] = View(p.arr, T.add(p.off, at), T.sub(p.len, at))
            return left, rest
        raise Unsupported('split inside an atomic byte piece')


class _BytesBase(Sym):
    def __init__(self, pieces):
        self.pieces = list(pieces)
        c = ctx()
        self.serial = c.next_serial() if c else 0

    def vc_len(self):
        return mkint(total(self.pieces))

    def __bool__(self):
        return ctx().decide(T.lt(T.const(0), total(self.pieces)))

    def _vc_bool(self):
        return T.lt(T.const(0), total(self.pieces))

    def vc_finite(self):
        return all(isinstance(p, Elem) for p in self.pieces)

    def __iter__(self):
        if not self.vc_finite():
            self._no('iteration')
        return iter([mkint(p.t) for p in self.pieces])

    def vc_getitem(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                self._no('slice step')
            n = total(self.pieces)
            lo = self._bound(k.start, T.const(0), n)
            hi = self._bound(k.stop, n, n)
            c = ctx()
            d = T.sub(hi, lo)
            if not c.valid(T.le(T.const(0), d)):
                if not c.decide(T.le(T.const(0), d)):
                    return self._make([])
            a, b = cut(self.pieces, lo)
            m, _ = cut(b, d)
            return self._make(m)
        i = term(k)
        n = total(self.pieces)
        c = ctx()
        if c.decide(T.lt(i, T.const(0))):
            i = T.add(n, i)
        if not c.decide(T.and_(T.le(T.const(0), i), T.lt(i, n))):
            raise IndexError('index out of range')
        return mkint(self.octet(i))

    def _bound(self, b, default, n):
        if b is None:
            return default
        t = term(b)
        c = ctx()
        if c.decide(T.lt(t, T.const(0))):
            t = T.add(t, n)
            if c.decide(T.lt(t, T.const(0))):
                return T.const(0)
            return t
        return t if c.decide(T.le(t, n)) else n

    def octet(self, i):
        _, rest = cut(self.pieces, i)
        while len(rest) > 1 and not isinstance(rest[0], Elem) and not ctx().decide(T.lt(T.const(0), rest[0].length)):
            rest.pop(0)
        p = rest[0]
        if isinstance(p, Elem):
            return p.t
        if isinstance(p, View):
            return ctx().select(p.arr, p.off)
        self._no('octet of an uninterpreted byte string')

    def __add__(self, o):
        return self._make(self.pieces + pieces_of(o))

    def __radd__(self, o):
        return VBytes(pieces_of(o) + self.pieces)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mkbool(seq_eq(self.pieces, pieces_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(T.not_(as_cond(r)))
    __hash__ = Sym.__hash__


def seq_eq(a, b):
    """Equality of two ropes as a condition; unsupported shapes leave the subset."""
    a, b = list(a), list(b)
    conds = [T.eq(total(a), total(b))]
    if T.is_const(conds[0]) and not conds[0].val:
        return T.FALSE
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, View) and isinstance(y, View) and x.arr is y.arr and x.off is y.off and x.len is y.len:
            a.pop(0), b.pop(0)
            continue
        if isinstance(x, Blob) and isinstance(y, Blob):
            if x.token is y.token:
                a.pop(0), b.pop(0)
                continue
            if len(a) == 1 and len(b) == 1:
                conds.append(T.eq(x.token, y.token))
                a.pop(0), b.pop(0)
                continue
            raise Unsupported('comparison of uninterpreted byte strings')
        if isinstance(x, Elem) and isinstance(y, Elem):
            conds.append(T.eq(x.t, y.t))
            a.pop(0), b.pop(0)
            continue
        if isinstance(x, Elem) and isinstance(y, View):
            x, y, a, b = y, x, b, a
        if isinstance(x, View) and isinstance(y, Elem):
            if not ctx().decide(T.lt(T.const(0), x.len)):
                a.pop(0)
                continue
            conds.append(T.eq(ctx().select(x.arr, x.off), y.t))
            a[0] = View(x.arr, T.add(x.off, T.const(1)), T.sub(x.len, T.const(1)))
            if T.is_const(a[0].len) and a[0].len.val == 0:
                a.pop(0)
            b.pop(0)
            continue
        raise Unsupported('comparison of symbolic byte sequences')
    return T.and_(*conds)


class VBytes(_BytesBase):
    _vc_class = bytes

    @property
    def __class__(self):
        return bytes

    def _make(self, pieces):
        return VBytes(pieces)

    def join(self, items):
        self._no('join')

    def decode(self, enc='utf-8', errors='strict'):
        if len(self.pieces) == 1 and isinstance(self.pieces[0], Blob) and enc.lower().replace('_', '-') == 'utf-8':
            tok = self.pieces[0].token
            return ctx().ghost[('text', tok.id)]
        self._no('decode')


class VBuf(_BytesBase):
    _vc_class = bytearray

    @property
    def __class__(self):
        return bytearray

    def __init__(self, pieces=(), label='bytearray'):
        _BytesBase.__init__(self, pieces)
        self.open = None       # a View whose next octets are still unconstrained

    def _make(self, pieces):
        return VBuf(pieces)

    def append(self, x):
        ctx_write(self)
        t = term(x)
        c = ctx()
        if not c.decide(T.and_(T.le(T.const(0), t), T.lt(t, T.const(256)))):
            raise ValueError('byte must be in range(0, 256)')
        if self.open is not None and self.pieces and self.pieces[-1] is self.open:
            # The array behind an open view is unconstrained past its end, so its next octet may be named.
            v = self.open
            at = T.add(v.off, v.len)
            c.assume(T.eq(c.select(v.arr, at), t))
            self.open = View(v.arr, v.off, T.add(v.len, T.const(1)))
            self.pieces[-1] = self.open
        else:
            self.pieces.append(Elem(t))

    def extend(self, xs):
        ctx_write(self)
        self.pieces.extend(pieces_of(xs))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def clear(self):
        ctx_write(self)
        self.pieces = []

    def mark(self):
        return len(self.pieces)

    def since(self, mark):
        return VBytes(self.pieces[mark:])


class VBytesIO(Sym):
    """io.BytesIO over a symbolic byte string, positioned between pieces."""
    from io import BytesIO as _vc_class

    def __init__(self, data):
        self.rest = pieces_of(data)
        self.pos = T.const(0)
        self.size = total(self.rest)
        c = ctx()
        self.serial = c.next_serial() if c else 0

    def read(self, n=-1):
        ctx_write(self)
        c = ctx()
        if n is None or (type(n) is int and n < 0):
            out, self.rest = self.rest, []
            self.pos = self.size
            return VBytes(out)
        t = term(n)
        left = T.sub(self.size, self.pos)
        if not c.decide(T.le(t, left)):
            out, self.rest = self.rest, []
            self.pos = self.size
            return VBytes(out) if not (T.is_const(left) and left.val == 0) else b''
        out, self.rest = cut(self.rest, t)
        self.pos = T.add(self.pos, t)
        return VBytes(out)

    def tell(self):
        return mkint(self.pos)

    def getvalue(self):
        self._no('getvalue')


def ctx_write(obj):
    """Records a mutation, for the frame condition of the enclosing cut loop."""
    c = ctx()
    for L in c.loops:
        L.on_write(obj)


# ---------------------------------------------------------------------------------------------------------------
# values the code may only pass on

class Opaque(Sym):
    """An arbitrary value of any type.  The only thing the code may do with it is move it and compare its identity, so
    what is proved for it holds for every value."""
    _vc_class = None

    def __init__(self, name, nonnull=False):
        self.__dict__['name'] = name
        self.__dict__['null'] = False if nonnull else None      # None: not yet decided on this path

    def vc_is(self, o):
        if o is None:
            if self.null is None:
                c = ctx()
                self.__dict__['null'] = c.decide(c.fresh('null_' + self.name, T.BOOL))
            return self.null
        raise Unsupported('identity of the opaque value %s' % self.name)

    def __getattribute__(self, k):
        if k in ('name', '_no', '__dict__', '_text', 'null', 'vc_is') or k.startswith('_vc'):
            return object.__getattribute__(self, k)
        raise Unsupported('%s of the opaque value %s' % (k, object.__getattribute__(self, 'name')))

    def __bool__(self):
        raise Unsupported('truth of the opaque value %s' % self.name)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of the opaque value %s' % self.name)

    def __ne__(self, o):
        if o is self:
            return False
        raise Unsupported('comparison of the opaque value %s' % self.name)
    __hash__ = Sym.__hash__


class AbstractSeq(Sym):
    """A sequence of arbitrary length, represented by one arbitrary element.  Iterating it is supported only inside
    tuple(<generator expression>) and list(...), where the result is the sequence of images (map rule)."""
    _vc_class = tuple

    def __init__(self, name, elem, n=None):
        self.name, self.elem = name, elem
        self.n = n if n is not None else ctx().int('len_' + name, 0).t if False else n

    @property
    def __class__(self):
        return tuple

    def __iter__(self):
        return self._walk()

    def __getitem__(self, i):
        self._no('indexing')

    def _walk(self):
        c = ctx()
        rec = c.ghost.get('map')
        if rec is None:
            self._no('iteration')
        rec.append(self)
        yield self.elem

    def vc_len(self):
        if self.n is None:
            self.n = ctx().fresh('len_' + self.name)
            ctx().assume(T.le(T.const(0), self.n))
        return mkint(self.n)
