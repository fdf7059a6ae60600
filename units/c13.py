"""C13: Ion equivalence."""
import datetime
from pyvc import dt as D
from pyvc import floats as FL
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Contract, Unit, resolve
from units import c03

C = T.const
EQ, CORE, ST, SYM = 'amazon.ion.equivalence', 'amazon.ion.core', 'amazon.ion.simple_types', 'amazon.ion.symbols'
DATA, INSTANTS = EQ + ':_ion_equals_timestamps_data_model', EQ + ':_ion_equals_timestamps_instants'


def R(name, mod=ST):
    return resolve(mod + ':' + name)


def conj(c, *xs):
    if c.concrete:
        return all(xs)
    return T.and_(*[P.as_cond(x) for x in xs])


def disj(c, *xs):
    if c.concrete:
        return any(xs)
    return T.or_(*[P.as_cond(x) for x in xs])


def neg(c, x):
    return not x if c.concrete else T.not_(P.as_cond(x))


def holds(c, cond):
    return bool(cond) if c.concrete else c.decide(P.as_cond(cond))


def nat(base, cls):
    """A symbolic scalar that is an instance of one of the classes with Ion type metadata."""
    d = {'__class__': property(lambda s: cls), '_vc_class': cls}
    for k in cls.__mro__:
        if k.__module__ == ST:
            for n, f in vars(k).items():
                if not n.startswith('__') and (callable(f) or isinstance(f, (staticmethod, classmethod))):
                    d.setdefault(n, f)
    return type('Nat' + cls.__name__, (base,), d)


class Lob(P.Sym):
    """Octets of any number, known by whether they are the same as other octets."""
    _vc_class = bytes

    def __init__(self, name, n):
        self.name, self.n = name, n
        P.ctx().assume(T.le(C(0), n))

    @property
    def __class__(self):
        return bytes

    def vc_len(self):
        return P.mkint(self.n)

    def __eq__(self, o):
        if not isinstance(o, Lob):
            return NotImplemented if not isinstance(o, bytes) else self._no('comparison')
        if self.name == o.name:
            return True
        r = P.ctx().ghost.setdefault('octets', {})
        if 'same' not in r:
            r['same'] = P.ctx().fresh('same_octets', T.BOOL)
            P.ctx().assume(T.implies(r['same'], T.eq(self.n, o.n)))
        return P.mkbool(r['same'])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(P.as_cond(r)))
    __hash__ = P.Sym.__hash__


class Val(object):
    """A value: the object given to the code, and what it denotes."""

    def __init__(self, obj, types, data, natured=False, anns=()):
        self.obj, self.types, self.data, self.natured, self.anns = obj, types, data, natured, anns


def dress(c, obj, cls, ion_type, anns):
    obj.ion_type, obj.ion_annotations = ion_type, anns
    return obj


# ---------------------------------------------------------------------------------------------------------------
# symbols

class Sy(object):
    def __init__(self, text, sid, loc):
        self.text, self.sid, self.loc = text, sid, loc


def symbol(c, n, plain=False):
    """(a symbol token or a text, what it is)."""
    how = c.choice(n + ' is', ['text a', 'text b', 'token a', 'token a without sid', 'unknown', 'unknown, imported'] if not plain else
                   ['token a', 'token b', 'unknown', 'unknown, imported'])
    Token, Loc = R('SymbolToken', SYM), R('ImportLocation', SYM)
    if how.startswith('text'):
        return how[-1], Sy(how[-1], None, None)
    sid = c.int(n + '_sid', 0) if how != 'token a without sid' else None
    loc = None
    if how.endswith('imported'):
        loc = Loc(c.choice(n + ' imported from', [u'x', u'y']), c.int(n + '_position', 1))
    text = how[6] if how.startswith('token') else None
    return Token(text, sid, loc), Sy(text, sid, loc)


def same_symbol(c, a, b):
    if a.text is not None or b.text is not None:
        return a.text == b.text
    zero = (a.sid == 0) == (b.sid == 0) if c.concrete else T.eq(P.as_cond(a.sid == 0), P.as_cond(b.sid == 0))
    if (a.loc is None) != (b.loc is None):
        return False
    if a.loc is None:
        return zero
    return conj(c, a.loc.name == b.loc.name, a.loc.position == b.loc.position, zero)


def same_symbols(c, a, b):
    return len(a) == len(b) and conj(c, *[same_symbol(c, x, y) for x, y in zip(a, b)])


# ---------------------------------------------------------------------------------------------------------------
# members of containers: any values, by an equivalence relation

class Item(object):
    def __init__(self, c, i):
        self.c, self.i = c, i

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Item):
            return NotImplemented
        return P.mkbool(relation(self.c, 'python', self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.mkbool(T.not_(P.as_cond(r)))
    __hash__ = object.__hash__


def relation(c, what, x, y):
    """An arbitrary relation between items; equivalence is one for each mode."""
    i, j = sorted((x.i, y.i))
    if i == j:
        return T.TRUE
    k = (what, i, j)
    g = c.ghost.setdefault('relations', {})
    if k not in g:
        g[k] = c.fresh('%s_eq_%d_%d' % (what, i, j), T.BOOL)
    return g[k]


def items(c, names):
    """Members by name; in a concrete run, floats that Python's equality does not compare as Ion does."""
    if c.concrete:
        pool = [0.0, -0.0, float('nan'), 1.0]
        return [pool[c._get(n, lambda: c.rng.randrange(4) if c.rng else 0) % 4] for n in names]
    xs = [Item(c, i) for i, n in enumerate(names)]
    for x in xs:
        for y in xs:
            for z in xs:
                if x.i < y.i and len(set((x.i, y.i, z.i))) == 3:
                    for what in (DATA, INSTANTS):
                        c.assume(T.implies(T.and_(relation(c, what, x, z), relation(c, what, z, y)), relation(c, what, x, y)))
    return xs


def same_item(c, what, x, y):
    return FL.same(c, x, y) if c.concrete else relation(c, what, x, y)


class Recursive(Contract):
    """Comparison of two members, of smaller depth (induction)."""
    proved = 'C13.*'

    def call(self, c, f, args, kw):
        if not any(isinstance(x, Item) for x in list(args) + list(kw.values())):
            return f(*args, **kw)
        c.result.assumed.add(self.target)
        a, b = args
        if not isinstance(a, Item) or not isinstance(b, Item):
            raise P.Unsupported('comparison of a member with something else')
        return P.mkbool(relation(c, self.target, a, b))


class RecursiveData(Recursive):
    target = DATA


class RecursiveInstants(Recursive):
    target = INSTANTS


RECURSIVE = [RecursiveData, RecursiveInstants]


# ---------------------------------------------------------------------------------------------------------------
# timestamps

class Ts(object):
    """kind: 'datetime' or 'Timestamp'; rank of the precision; fields (year … second), microsecond, offset in minutes or
    None, and the coefficient and exponent of the fraction."""


def timestamp(c, n, cls, natured=False, coarse=True):
    t = Ts()
    t.plain = cls is datetime.datetime
    t.rank = 4 if t.plain or not coarse else c.choice(n + ' precision', [4, 3, 2, 0])
    c2 = Prefixed(c, n)
    t.fields = c03.calendar_fields(c2, t.rank)
    off = None
    t.off = None
    if t.rank >= 3:
        off, t.off = c03.offset_input(c2)
    if t.plain:
        us = c.int(n + '_microsecond', 0, 999999)
        t.co, t.e, t.us = us, -6, us
        if c.concrete:
            return cls(*(list(t.fields) + [us, off])), t
        return D.make(cls, [P.term(x) for x in t.fields] + [P.term(us)], off), t
    if c.concrete:
        fs = None
        t.co = t.e = 0
        if t.rank == 4:
            k = c.int(n + '_digits', 0, 9)
            t.co = c.int(n + '_coefficient', 0, 999999999) % 10 ** k
            t.e = -k
            if k:
                from decimal import Decimal
                fs = Decimal((0, tuple(int(x) for x in str(t.co)), t.e))
        t.us = t.co * 10 ** 6 // 10 ** -t.e
        kw = {'precision': c03.precisions()[t.rank]}
        if fs is not None:
            kw['fractional_seconds'] = fs
        return cls(*(list(t.fields) + [None, off]), **kw), t
    if t.rank == 4:
        k = c.int(n + '_digits', 0, None)
        t.co, t.e = c.int(n + '_coefficient', 0, None), P.mkint(T.neg(P.term(k)))
        c.assume(T.lt(P.term(t.co), D.pow10(P.term(k))))
    else:
        t.co = t.e = 0
    us = T.app('microseconds_of', (P.term(t.co), P.term(t.e)))
    c.assume(T.and_(T.le(C(0), us), T.lt(us, C(D.US)), T.implies(T.eq(P.term(t.co), C(0)), T.eq(us, C(0)))))
    for k in range(7):
        c.assume(T.implies(T.eq(P.term(t.e), C(-k)), T.eq(us, T.scale(P.term(t.co), 10 ** (6 - k)))))
    t.us = P.mkint(us)
    o = D.make(cls, [P.term(x) for x in t.fields] + [us], off)
    o.precision = c03.precisions()[t.rank]
    e = P.term(t.e)
    o.fractional_seconds = D.VDecimal(C(0), P.term(t.co), e)
    o.fractional_precision = P.mkint(T.ite(T.lt(e, C(-6)), C(6), T.neg(e)))
    return o, t


class Prefixed(object):
    """A context whose inputs are named after one of several values."""

    def __init__(self, c, n):
        self.__dict__.update(_c=c, _n=n)

    def int(self, name, *a):
        return self._c.int('%s_%s' % (self._n, name), *a)

    def choice(self, name, xs):
        return self._c.choice('%s %s' % (self._n, name), xs)

    def __getattr__(self, k):
        return getattr(self._c, k)


def same_timestamp(c, a, b):
    if a.rank != b.rank or (a.off is None) != (b.off is None):
        return False
    fs = conj(c, *[x == y for x, y in zip(a.fields, b.fields)])
    return conj(c, fs, True if a.off is None else a.off == b.off, a.co == b.co, a.e == b.e)


def same_instant(c, a, b):
    if c.concrete:
        def at(t):
            return datetime.datetime(*t.fields) - datetime.timedelta(minutes=t.off or 0), t.us
        try:
            return at(a) == at(b)
        except OverflowError:
            from pyvc.conc import Skip
            raise Skip()

    def at(t, off):
        return D.instant([P.term(x) for x in t.fields] + [P.term(t.us)], T.scale(P.term(off), 60 * D.US))
    oa, ob = a.off or 0, b.off or 0
    if a.off is None:
        oa = 0
    if b.off is None:
        ob = 0
    fs = T.and_(*[T.eq(P.term(x), P.term(y)) for x, y in zip(list(a.fields) + [a.us], list(b.fields) + [b.us])])
    return T.ite(T.eq(P.term(oa), P.term(ob)), fs, T.eq(at(a, oa), at(b, ob)))


# ---------------------------------------------------------------------------------------------------------------
# every kind of value

def build(c, n, kind, anns=()):
    IT = R('IonType', CORE)
    natured = not kind.startswith('native')
    k = kind[7:] if not natured else kind
    if natured:
        nodes, toks = tuple(x for x, _ in anns), tuple(s for _, s in anns)
    else:
        nodes = toks = ()

    def done(obj, types, data, ion_type=None):
        if natured:
            obj.ion_type, obj.ion_annotations = ion_type or getattr(IT, types[0]), nodes
        return Val(obj, [(ion_type.name if ion_type is not None else types[0])] if natured else types, data, natured, toks)
    if k == 'null':
        if not natured:
            return Val(None, ['NULL'], None)
        t = c.choice(n + ' null of', [IT.NULL, IT.BOOL, IT.INT, IT.STRUCT])
        return done(R('IonPyNull')(), ['NULL'], None, t)
    if k == 'bool':
        if natured:
            v = c.int(n + '_bool', 0, 1)
            return done(integer(c, v), ['BOOL'], v)
        v = c.bool(n + '_bool')
        return done(v, ['BOOL'], v)
    if k == 'int':
        v = c.int(n + '_int')
        return done(integer(c, v) if natured else v, ['INT'], v)
    if k == 'float':
        v = FL.float_input(c, n + '_float')
        if natured:
            v = R('IonPyFloat')(v) if c.concrete else nat(FL.VFloat, R('IonPyFloat'))(v.o)
        return done(v, ['FLOAT'], v)
    if k == 'decimal':
        v = D.decimal_input(c, n + '_decimal')
        data = D.dec_parts(c, v)
        if natured:
            v = R('IonPyDecimal')(v) if c.concrete else nat(D.VDecimal, R('IonPyDecimal'))(v.s, v.co, v.e)
        return done(v, ['DECIMAL'], data)
    if k in ('timestamp', 'datetime'):
        cls = R('IonPyTimestamp') if natured else datetime.datetime if k == 'datetime' else R('Timestamp', CORE)
        v, t = timestamp(c, n, cls)
        return done(v, ['TIMESTAMP'], t)
    if k == 'string':
        v = c.choice(n + '_text', [u'a', u'b', u''])
        return done(R('IonPyText')(v) if natured else v, ['STRING'] if natured else ['STRING', 'SYMBOL'], Sy(v, None, None))
    if k == 'symbol':
        v, s = symbol(c, n, plain=not natured)
        if natured:
            v = R('IonPyText')(v) if isinstance(v, str) else R('IonPySymbol')(*v)
        return done(v, ['SYMBOL'], s)
    if k in ('clob', 'blob', 'bytes'):
        v = c.bytes(n + '_octets') if c.concrete else Lob(n, c.fresh('length_' + n))
        if natured:
            w = R('IonPyBytes')(v) if c.concrete else nat(Lob, R('IonPyBytes'))(v.name, v.n)
            return done(w, [k.upper()], v)
        return done(v, ['CLOB', 'BLOB'], v)
    if k in ('list', 'sexp', 'tuple'):
        xs = c.ghost['members'][n]
        v = R('IonPyList')(xs) if natured else list(xs) if k == 'list' else tuple(xs)
        return done(v, [k.upper()] if natured else ['LIST', 'SEXP'], xs)
    if k in ('struct', 'dict'):
        xs = c.ghost['members'][n]
        names = c.choice(n + ' fields', [[u'a', u'b'][:len(xs)], [u'b', u'a'][:len(xs)], [u'a'] * len(xs), [u'c', u'a'][:len(xs)]]
                         if len(xs) < 3 else [[u'a', u'a', u'b'], [u'a', u'b', u'a'], [u'a'] * 3])
        v = R('IonPyDict')() if natured else {}
        data = []
        for name, x in zip(names, xs):
            if k == 'dict':
                v[name] = x
                data = [(m, y) for m, y in data if m != name]
            else:
                v.add_item(name, x)
            data.append((name, x))
        return done(v, ['STRUCT'], data)
    raise AssertionError(kind)


def integer(c, v):
    cls = R('IonPyInt')
    return cls(v) if c.concrete or not P.is_sym(v) else nat(P.SymInt, cls)(v.t)


def same(c, a, b, instants):
    return conj(c, same_symbols(c, a.anns, b.anns), same_data(c, a, b, instants))


def same_data(c, a, b, instants):
    what = INSTANTS if instants else DATA
    if a.natured and b.natured:
        if a.types != b.types:
            return False
    types = set(a.types) & set(b.types)
    if not types:
        return False
    if isinstance(a.obj, R('IonPyNull')) or isinstance(b.obj, R('IonPyNull')) or a.obj is None or b.obj is None:
        def null(v):
            return v.obj is None or isinstance(v.obj, R('IonPyNull'))
        return null(a) and null(b)
    t = sorted(types)[0]
    if t in ('BOOL', 'INT'):
        return a.data == b.data
    if t == 'FLOAT':
        return FL.same(c, a.data, b.data)
    if t == 'DECIMAL':
        return conj(c, *[x == y for x, y in zip(a.data, b.data)])
    if t == 'TIMESTAMP':
        return same_instant(c, a.data, b.data) if instants else same_timestamp(c, a.data, b.data)
    if t in ('STRING', 'SYMBOL'):
        return same_symbol(c, a.data, b.data)
    if t in ('CLOB', 'BLOB'):
        return a.data == b.data
    if t in ('LIST', 'SEXP'):
        return len(a.data) == len(b.data) and conj(c, *[same_item(c, what, x, y) for x, y in zip(a.data, b.data)])
    if t == 'STRUCT':
        return same_struct(c, what, a.data, b.data)
    raise AssertionError(t)


def same_struct(c, what, a, b):
    """The fields match one to one, in some order."""
    from itertools import permutations
    if sorted(n for n, _ in a) != sorted(n for n, _ in b):
        return False
    ways = [conj(c, *[same_item(c, what, x, y) for (_, x), (_, y) in zip(a, p)]) for p in permutations(b)
            if all(m == k for (m, _), (k, _) in zip(a, p))]
    return disj(c, *ways)


NATURED = ['null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'string', 'symbol', 'clob', 'blob', 'list', 'sexp', 'struct']
NATIVE = ['native null', 'native bool', 'native int', 'native float', 'native decimal', 'native datetime', 'native timestamp',
          'native string', 'native symbol', 'native bytes', 'native list', 'native tuple', 'native dict']
GROUPS = {'clob': 'lob', 'blob': 'lob', 'bytes': 'lob', 'list': 'seq', 'sexp': 'seq', 'tuple': 'seq', 'struct': 'struct', 'dict': 'struct',
          'datetime': 'timestamp', 'symbol': 'text', 'string': 'text'}


def group(kind):
    k = kind.split(' ')[-1]
    return GROUPS.get(k, k)


def annotations(c, n, rich):
    if not rich:
        return []
    if rich != 'any':
        return [(x, Sy(x, None, None)) for x in c.choice('annotations of ' + n, [[], [u'a'], [u'b', u'a']])]
    how = c.choice('annotations of ' + n, [[], ['x'], ['x', 'y']])
    return [symbol(c, '%s annotation %s' % (n, w)) if w == 'x' else (u'a', Sy(u'a', None, None)) for w in how]


def equals(c, a, b, instants):
    f = resolve(EQ + ':ion_equals')
    return rt.vc_call(f, a, b, timestamps_instants_only=True) if instants else rt.vc_call(f, a, b)


def prepare(c, ka, kb):
    """Members for the containers of the two values."""
    def size(k, n):
        if group(k) not in ('seq', 'struct'):
            return 0
        return c.choice('members of ' + n, [0, 1, 2])
    na = size(ka, 'first')
    nb = size(kb, 'second')
    if not c.concrete and group(ka) != group(kb) and (na > 1 or nb > 1):
        c.assume(False)
    xs = items(c, ['a%d' % i for i in range(na)] + ['b%d' % i for i in range(nb)])
    c.ghost['members'] = {'a': xs[:na], 'b': xs[na:]}


def compare(ka, kbs, rich=False, modes=(False, True)):
    def unit(c):
        kb = c.choice('second', kbs)
        instants = c.choice('instants only', list(modes))
        prepare(c, ka, kb)
        a = build(c, 'a', ka, annotations(c, 'a', rich and not ka.startswith('native')))
        b = build(c, 'b', kb, annotations(c, 'b', rich and not kb.startswith('native')))
        want = same(c, a, b, instants)
        what = '%s and %s' % (ka, kb)
        if c.concrete:
            c.prove(bool(equals(c, a.obj, b.obj, instants)) == want, what + ': equal exactly when they are the same value')
            c.prove(bool(equals(c, b.obj, a.obj, instants)) == want, what + ': the order of the operands does not matter')
            return
        w = P.as_cond(want)
        c.prove(T.eq(P.as_cond(equals(c, a.obj, b.obj, instants)), w), what + ': equal exactly when they are the same value')
        c.prove(T.eq(P.as_cond(equals(c, b.obj, a.obj, instants)), w), what + ': the order of the operands does not matter')
    return unit


def three_fields(fields):
    def unit(c):
        xs = items(c, ['a0', 'a1', 'a2', 'b0', 'b1', 'b2'])
        IT, (na, nb) = R('IonType', CORE), fields

        def make(names, vs):
            v = R('IonPyDict')()
            v.ion_type = IT.STRUCT
            for name, x in zip(names, vs):
                v.add_item(name, x)
            return v
        instants = c.choice('instants only', [False, True])
        want = same_struct(c, INSTANTS if instants else DATA, list(zip(na, xs[:3])), list(zip(nb, xs[3:])))
        r = equals(c, make(na, xs[:3]), make(nb, xs[3:]), instants)
        if c.concrete:
            c.prove(bool(r) == want, 'structs are equal exactly when their fields match one to one')
        else:
            c.prove(T.eq(P.as_cond(r), P.as_cond(want)), 'structs are equal exactly when their fields match one to one')
    return unit


def itself(c):
    k = c.choice('kind', NATURED + NATIVE)
    prepare(c, k, 'native int')
    a = build(c, 'a', k, annotations(c, 'a', not k.startswith('native')))
    r = equals(c, a.obj, a.obj, c.choice('instants only', [False, True]))
    c.prove(bool(r) if c.concrete else P.as_cond(r), 'every value is equal to itself')


# ---------------------------------------------------------------------------------------------------------------
# sequences of any length: the first position at which they differ decides

class Long(P.Sym):
    def __init__(self, side, n, cls):
        self.side, self.n, self.cls = side, n, cls

    @property
    def __class__(self):
        return self.cls

    def __iter__(self):
        raise P.Unsupported('iteration over a sequence of any length')

    def vc_len(self):
        return P.mkint(self.n)

    def __len__(self):
        raise P.Unsupported('length')

    def vc_getitem(self, i):
        if not P.intlike(i):
            raise P.Unsupported('part of a sequence of any length')
        i = P.term(i)
        if not P.ctx().decide(T.and_(T.le(C(0), i), T.lt(i, self.n))):
            raise IndexError('list index out of range')
        return Member(self.side, i)
    __getitem__ = vc_getitem


class Member(object):
    def __init__(self, side, i):
        self.side, self.i = side, i


class Members(Contract):
    proved = 'C13.*'

    def call(self, c, f, args, kw):
        if not any(isinstance(x, Member) for x in args):
            return f(*args, **kw)
        c.result.assumed.add(self.target)
        a, b = args
        if not isinstance(a, Member) or not isinstance(b, Member) or a.side == b.side:
            raise P.Unsupported('members of another sequence')
        c.prove(T.eq(a.i, b.i), 'members at the same position are compared')
        m = c.ghost['differ']
        return P.mkbool(T.or_(T.lt(a.i, m), T.and_(T.lt(m, a.i), c.fresh('beyond', T.BOOL))))


class MembersData(Members):
    target = DATA


class MembersInstants(Members):
    target = INSTANTS


class SequenceLoop(rt.LoopSpec):
    key = EQ + '._sequences_eq#0'

    def applies(self, c, S, it):
        return isinstance(it, rt.SymRange)

    def inv(self, c, S):
        yield 'no difference so far', T.le(P.term(S.index), c.ghost['differ']) if 'differ' in c.ghost else T.TRUE


def long_sequences(c):
    IT = R('IonType', CORE)
    ka, kb = c.choice('first', ['list', 'natured']), c.choice('second', ['list', 'tuple', 'natured'])
    if c.concrete:
        n, m = c.int('length_a', 0, 6), c.int('length_b', 0, 6)
        xs = [c.choice('x%d' % i, [0.0, -0.0, float('nan'), 1]) for i in range(n)]
        d = c.int('differ', 0, 8)
        ys = [x if i != d else u'other' for i, x in enumerate(xs)][:m] + [2] * (m - n)

        def make(k, v):
            return R('IonPyList').from_value(IT.LIST, v) if k == 'natured' else list(v) if k == 'list' else tuple(v)
        r = equals(c, make(ka, xs), make(kb, ys), c.choice('instants only', [False, True]))
        c.prove(r == (n == m and d >= n), 'equal exactly when of one length and the same at every position')
        return

    def make(k, side, n):
        v = Long(side, n, R('IonPyList') if k == 'natured' else list if k == 'list' else tuple)
        if k == 'natured':
            v.ion_type, v.ion_annotations = IT.LIST, ()
        return v
    n, m = c.int('length_a', 0), c.int('length_b', 0)
    d = c.int('differ', 0)
    c.ghost['differ'] = P.term(d)
    c.assume(P.as_cond(d <= n))
    r = equals(c, make(ka, 0, P.term(n)), make(kb, 1, P.term(m)), c.choice('instants only', [False, True]))
    c.prove(T.eq(P.as_cond(r), T.and_(T.eq(P.term(n), P.term(m)), T.eq(P.term(d), P.term(n)))),
            'equal exactly when of one length and the same at every position')


# ---------------------------------------------------------------------------------------------------------------
# one nesting, without the induction hypothesis: the mode and the comparison go down to the members

def nested(c):
    instants = c.choice('instants only', [False, True])
    leaf = c.choice('leaf', ['native float', 'instant', 'native decimal', 'symbol', 'native dict'])
    c.ghost['members'] = {'a': [], 'b': []}
    if leaf == 'instant':
        # the same instant at two offsets, and another one
        Offset, pool = R('OffsetTZInfo', CORE), []
        for h, m in ((12, 0), (13, 60), (12, 60)):
            pool.append(Val(datetime.datetime(2000, 1, 1, h, 0, 0, 0, Offset(datetime.timedelta(minutes=m))), h, m))
        a, b = c.choice('a', pool), c.choice('b', pool)
        want = a is b or instants and a.types * 60 - a.data == b.types * 60 - b.data
    else:
        a, b = build(c, 'a', leaf), build(c, 'b', leaf)
        want = same(c, a, b, instants)
    how = c.choice('inside', ['list', 'tuple', 'natured list', 'dict', 'natured struct', 'list in a list', 'repeated'])
    IT = R('IonType', CORE)

    def wrap(x):
        if how == 'list':
            return [x]
        if how == 'tuple':
            return (x,)
        if how == 'natured list':
            return R('IonPyList').from_value(IT.LIST, [x])
        if how == 'dict':
            return {u'k': x}
        if how == 'list in a list':
            return [[], [x]]
        m = R('IonPyDict')()
        m.ion_type = IT.STRUCT
        m.add_item(u'k', x)
        if how == 'repeated':
            m.add_item(u'k', u'text')
        return m
    r = equals(c, wrap(a.obj), wrap(b.obj), instants)
    if c.concrete:
        c.prove(bool(r) == want, 'members are compared in the same way')
    else:
        c.prove(T.eq(P.as_cond(r), P.as_cond(want)), 'members are compared in the same way')


UNITS = []


def unit(name, fn, of, contracts=RECURSIVE, **kw):
    UNITS.append(Unit('C13.' + name, fn, of=[EQ + ':' + x for x in of], contracts=contracts, **kw))


DISPATCH = ['ion_equals', '_ion_equals']
OWN = {'float': ['_floats_eq', '_is_float_negative_zero'], 'decimal': ['_decimals_eq'], 'timestamp': ['_timestamps_eq', '_timestamp_instants_eq'],
       'text': ['_symbols_eq'], 'seq': ['_sequences_eq'], 'struct': ['_structs_eq'], 'int': ['_integers_eq'], 'bool': ['_integers_eq']}
ALL = NATURED + NATIVE
for _k in ALL:
    _g = group(_k)
    _same = [k for k in ALL if group(k) == _g]
    unit('%s and values of other kinds' % _k, compare(_k, [k for k in ALL if group(k) != _g], modes=(False,)), DISPATCH)
    for _o in _same:
        unit('%s and %s' % (_k, _o), compare(_k, [_o]), DISPATCH + OWN.get(_g, []))
for _k in ('null', 'int', 'string', 'symbol', 'list', 'struct', 'timestamp', 'blob'):
    unit('%s with annotations' % _k, compare(_k, [_k, 'native ' + {'blob': 'bytes', 'struct': 'dict'}.get(_k, _k)], rich='any' if _k == 'int' else True, modes=(False,)),
         DISPATCH + ['_annotations_eq', '_symbols_eq', '_sequences_eq'])
for _f in (('aaa', 'aaa'), ('aab', 'aba'), ('aab', 'abb'), ('abc', 'cab'), ('aab', 'aac')):
    unit('three fields %s and %s' % _f, three_fields(_f), ['_structs_eq'], note='bounded: structs of three fields')
unit('a value and itself', itself, DISPATCH)
unit('sequences of any length', long_sequences, ['_sequences_eq'], contracts=[MembersData, MembersInstants], loops=[SequenceLoop])
unit('one nesting', nested, ['_ion_equals_timestamps_data_model', '_ion_equals_timestamps_instants', '_structs_eq', '_sequences_eq'], contracts=[])

ASSUMPTIONS = ['float, Decimal (canonical, compare_total, comparison) and datetime (==, replace, utcoffset) behave as documented',
               'members of containers are compared by induction on the nesting depth; structs hold at most three fields in the units (bounded), sequences any '
               'number of members', 'a Timestamp has a precision, and fractional fields that agree with each other (C14)']
