"""float as its eight IEEE-754 binary64 octets, most significant first.  Trusted: struct packs and unpacks exactly."""
import math
import struct

from . import terms as T
from . import proxies as P
from . import rt
from .engine import ctx, Unsupported, as_cond

C = T.const


def octets_of(x):
    if isinstance(x, VFloat):
        return list(x.o)
    if isinstance(x, float) and not P.is_sym(x):
        return [C(b) for b in bytearray(struct.pack('>d', x))]
    if type(x) is int or type(x) is bool:
        return [C(b) for b in bytearray(struct.pack('>d', float(x)))] if int(float(x)) == x else None
    return None


def zero_bits(o):
    return T.and_(T.eq(T.mod(o[0], 128), C(0)), *[T.eq(b, C(0)) for b in o[1:]])


def special(o):
    return T.and_(T.eq(T.mod(o[0], 128), C(127)), T.le(C(240), o[1]))


def inf_bits(o):
    return T.and_(T.eq(T.mod(o[0], 128), C(127)), T.eq(o[1], C(240)), *[T.eq(b, C(0)) for b in o[2:]])


def nan_bits(o):
    return T.and_(special(o), T.not_(inf_bits(o)))


def same_bits(a, b):
    return T.and_(*[T.eq(x, y) for x, y in zip(a, b)])


class VFloat(P.Sym):
    _vc_class = float

    def __init__(self, o):
        self.o = list(o)

    @property
    def __class__(self):
        return float

    def __eq__(self, x):
        o = octets_of(x)
        if o is None:
            if P.intlike(x):
                raise Unsupported('comparison of a symbolic float with an integer')
            return NotImplemented
        return P.mkbool(T.and_(T.not_(nan_bits(self.o)), T.not_(nan_bits(o)),
                               T.or_(same_bits(self.o, o), T.and_(zero_bits(self.o), zero_bits(o)))))

    def __ne__(self, x):
        r = self.__eq__(x)
        return r if r is NotImplemented else P.mkbool(T.not_(as_cond(r)))
    __hash__ = P.Sym.__hash__

    def _vc_bool(self):
        return T.not_(zero_bits(self.o))

    def __bool__(self):
        return ctx().decide(self._vc_bool())

    def is_integer(self):
        c = ctx()
        r = T.app('float_is_integer', tuple(self.o), T.BOOL)
        c.assume(T.implies(zero_bits(self.o), r))
        c.assume(T.implies(special(self.o), T.not_(r)))
        return P.mkbool(r)

    def __neg__(self):
        return VFloat([T.ite(T.lt(self.o[0], C(128)), T.add(self.o[0], C(128)), T.sub(self.o[0], C(128)))] + self.o[1:])

    def _order(self, x, what):
        o = octets_of(x)
        if o is None or not all(T.is_const(b) for b in o):
            raise Unsupported('order of symbolic floats')
        v = float(x)
        if v != 0:
            raise Unsupported('order of symbolic floats')
        pos = T.and_(T.lt(self.o[0], C(128)), T.not_(nan_bits(self.o)), T.not_(zero_bits(self.o)))
        neg = T.and_(T.le(C(128), self.o[0]), T.not_(nan_bits(self.o)), T.not_(zero_bits(self.o)))
        z = zero_bits(self.o)
        return P.mkbool({'<': neg, '>': pos, '<=': T.or_(neg, z), '>=': T.or_(pos, z)}[what])

    def __lt__(self, x):
        return self._order(x, '<')

    def __gt__(self, x):
        return self._order(x, '>')

    def __le__(self, x):
        return self._order(x, '<=')

    def __ge__(self, x):
        return self._order(x, '>=')


@rt.model(struct.pack)
def m_pack(fmt, *args):
    if len(args) == 1 and isinstance(args[0], VFloat) and P.is_sym(args[0]):
        if fmt == '>d':
            return P.VBytes([P.Elem(b) for b in args[0].o])
        raise Unsupported('pack %s' % fmt)
    if rt.has_sym(args):
        raise Unsupported('pack of a symbolic value')
    return NotImplemented


def unpack_d(data):
    c = ctx()
    if not c.decide(T.eq(P.total(data.pieces), C(8))):
        raise struct.error('unpack requires a buffer of 8 bytes')
    return (VFloat([data.octet(C(i)) for i in range(8)]),)


def unpack_f(data):
    c = ctx()
    if not c.decide(T.eq(P.total(data.pieces), C(4))):
        raise struct.error('unpack requires a buffer of 4 bytes')
    return (widen([data.octet(C(i)) for i in range(4)]),)


def widen(o4):
    """The double equal to a single-precision number (an uninterpreted function of its four octets)."""
    c = ctx()
    o = [T.app('widen%d' % i, tuple(o4)) for i in range(8)]
    for b in o:
        c.assume(T.and_(T.le(C(0), b), T.lt(b, C(256))))
    return VFloat(o)


rt.UNPACK_HOOK['>d'] = unpack_d
rt.UNPACK_HOOK['>f'] = unpack_f


@rt.model(math.isnan)
def m_isnan(x):
    return P.mkbool(nan_bits(x.o)) if isinstance(x, VFloat) and P.is_sym(x) else NotImplemented


@rt.model(math.isinf)
def m_isinf(x):
    return P.mkbool(inf_bits(x.o)) if isinstance(x, VFloat) and P.is_sym(x) else NotImplemented


@rt.model(math.copysign)
def m_copysign(a, b):
    if not (isinstance(b, VFloat) and P.is_sym(b)) or P.is_sym(a):
        return NotImplemented
    return -abs(a) if ctx().decide(T.le(C(128), b.o[0])) else abs(a)


def float_input(c, name):
    """An arbitrary double, by its octets."""
    if c.concrete:
        pool = [0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 1.5, 5e-324, 1e308, 2.0 ** 53, .1]
        def gen():
            r = c.rng
            return struct.pack('>d', r.choice(pool)) if r is None or r.random() < .6 else \
                bytes(bytearray(r.randrange(256) for _ in range(8)))
        o = c._get(name, gen) if c.rng or c.given else struct.pack('>d', 0.0)
        if len(o) != 8:
            from .conc import Skip
            raise Skip()
        return struct.unpack('>d', o)[0]
    b = c.bytes(name, 8, 8)
    return VFloat([b.octet(C(i)) for i in range(8)])


def same(c, a, b):
    """Identical under the data model: the same bits, or both nan."""
    if c.concrete:
        return struct.pack('>d', a) == struct.pack('>d', b) or a != a and b != b
    if not isinstance(a, VFloat) or not isinstance(b, VFloat):
        a, b = octets_of(a), octets_of(b)
        if a is None or b is None:
            return False
    else:
        a, b = a.o, b.o
    return P.mkbool(T.or_(same_bits(a, b), T.and_(nan_bits(a), nan_bits(b))))
