"""C17: native values and Ion values convert without loss."""
import datetime
import enum
from collections import OrderedDict
from contextlib import contextmanager
from decimal import Decimal

from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Contract, Unit, resolve

from . import c13

C = T.const
SI, ST, CORE, SYM = 'amazon.ion.simpleion', 'amazon.ion.simple_types', 'amazon.ion.core', 'amazon.ion.symbols'


def R(name, mod=CORE):
    return resolve(mod + ':' + name)


def unsupported(c, why):
    if c.concrete:
        from pyvc.conc import Skip
        raise Skip()
    raise P.Unsupported(why)


# ---------------------------------------------------------------------------------------------------------------
# what dump and load build on, by contract: a writer that takes events (C01 to C05, C12, C16), a reader that gives
# events (C06, C07, C11, C19)

class Writer(object):
    def __init__(self, c):
        self.c, self.log = c, []

    def send(self, e):
        self.log.append(e)
        return R('WriteEventType', 'amazon.ion.writer').COMPLETE


class Reader(object):
    def __init__(self, c, events):
        self.c, self.events, self.i = c, events, 0

    def send(self, e):
        self.c.prove(e is R('NEXT_EVENT', 'amazon.ion.reader') or e == R('NEXT_EVENT', 'amazon.ion.reader'), 'every event is read')
        if self.i >= len(self.events):
            return R('ION_STREAM_END_EVENT')
        self.i += 1
        return self.events[self.i - 1]


@contextmanager
def patched(c, **names):
    import importlib
    m = importlib.import_module(SI)
    for n in names:
        if n not in vars(m):
            unsupported(c, 'simpleion is built in another way')
    real = dict((n, getattr(m, n)) for n in names)
    for n, v in names.items():
        setattr(m, n, v)
    try:
        yield
    finally:
        for n, v in real.items():
            setattr(m, n, v)


# ---------------------------------------------------------------------------------------------------------------
# values: what is given to dump, and what it is

class V(object):
    """kind: a scalar (obj), or a container with members [(name, V)]."""

    def __init__(self, obj, ion_type, anns=None, members=None):
        self.obj, self.type, self.anns, self.members = obj, ion_type, anns, members

    natured = property(lambda s: s.anns is not None)


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDecimal(Decimal):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MyDate(datetime.datetime):
    pass


class Mix(object):
    pass


class MixInt(Mix, int):
    pass


class MyInt2(MixInt):
    pass


class Num(enum.IntEnum):
    A = 7
    Z = 0


def samples():
    """Values of exact native types and of classes that derive from them (empty and false ones too), and their Ion types."""
    Tok, TS = R('SymbolToken', SYM), R('Timestamp')
    D = datetime.datetime(2000, 1, 1)
    class MyTok(Tok):
        pass

    class MyTS(TS):
        pass
    return [('NULL', [None]), ('BOOL', [True, False]), ('INT', [0, 5, -10 ** 20, MyInt(0), MyInt(3), MixInt(3), MyInt2(0), Num.A, Num.Z]),
            ('FLOAT', [0.0, 1.5, MyFloat(0), MyFloat(2.5)]), ('DECIMAL', [Decimal(0), Decimal('1.50'), MyDecimal('0.0'), MyDecimal(1)]),
            ('TIMESTAMP', [D, MyDate(2000, 1, 1), TS(2000, 1, 1), MyTS(2000, 1, 1)]), ('STRING', [u'', u'a', MyStr(u''), MyStr(u'a')]),
            ('BLOB', [b'', b'a', MyBytes(b''), MyBytes(b'a')]), ('SYMBOL', [Tok(u'a', None), Tok(None, 0), Tok(u'', 3), MyTok(u'a', None)])]


def annotations(c, n):
    Tok = R('SymbolToken', SYM)
    return c.choice('annotations ' + n, [(), (u'a',), (Tok(u'a', None), Tok(None, 0), u'')])


LEAVES = ['native int', 'int', 'null']


def leaf(c, n, kinds):
    """A small value: contents do not matter (see the scalar units)."""
    IT = R('IonType')
    k = c.choice('leaf ' + n, kinds)
    if k == 'native int':
        return V(c.int('int ' + n), IT.INT)
    if k == 'native null':
        return V(None, IT.NULL)
    if k == 'null':
        o = R('IonPyNull', ST)()
        o.ion_type, o.ion_annotations = c.choice('null of ' + n, [IT.NULL, IT.STRUCT]), (u'q',)
        return V(o, o.ion_type, o.ion_annotations)
    o = R('IonPyText', ST)(u'v' + n)
    o.ion_type, o.ion_annotations = c.choice('text of ' + n, [IT.STRING, IT.SYMBOL]), (u'x',)
    return V(o, o.ion_type, o.ion_annotations)


NATIVE = {'list': [list, MyList], 'tuple': [tuple, MyTuple], 'dict': [dict, OrderedDict, MyDict]}


def container(c, n, kind, sexp, members):
    """A container of given members [(name, V)]."""
    IT = R('IonType')
    objs = [m.obj for _, m in members]
    if kind in NATIVE:
        cls = c.choice('class ' + n, NATIVE[kind] if n != 'in' else NATIVE[kind][-1:])
        if kind == 'dict':
            o, ms = cls(), OrderedDict()
            for k, m in members:
                o[k] = m.obj
                ms[k] = m
            return V(o, IT.STRUCT, None, list(ms.items()))
        return V(cls(objs), IT.SEXP if kind == 'tuple' and sexp else IT.LIST, None, [(None, m) for _, m in members])
    anns = annotations(c, n)
    if kind == 'IonPyDict':
        o = R('IonPyDict', ST)()
        order = OrderedDict()
        for k, m in members:
            o.add_item(k, m.obj)
            order.setdefault(k, []).append((k, m))
        t, ms = IT.STRUCT, [x for xs in order.values() for x in xs]
    else:
        o, t, ms = R('IonPyList', ST)(objs), IT.LIST if kind == 'IonPyList' else IT.SEXP, [(None, m) for _, m in members]
    o.ion_type, o.ion_annotations = t, anns
    return V(o, t, anns, ms)


KINDS = ['list', 'tuple', 'dict', 'IonPyList', 'IonPySexp', 'IonPyDict']


def expected(v, name=None, in_struct=False):
    """The events that write a value: (event type, Ion type, value, field, annotations)."""
    ET = R('IonEventType')
    anns = tuple(v.anns or ())
    field = (name,) if in_struct else None
    if v.members is None:
        null = v.obj is None or isinstance(v.obj, R('IonPyNull', ST))
        return [(ET.SCALAR, v.type, None if null else v.obj, field, anns)]
    out = [(ET.CONTAINER_START, v.type, None, field, anns)]
    for k, m in v.members:
        out += expected(m, k, v.type is R('IonType').STRUCT)
    return out + [(ET.CONTAINER_END, None, None, None, ())]


def judge(c, log, want, what=''):
    ET, Tok = R('IonEventType'), R('SymbolToken', SYM)
    c.prove(len(log) == len(want), what + 'every value is written once')
    for e, (et, it, v, field, anns) in zip(log, want):
        c.prove(e.event_type is et, what + 'the kind of event')
        if et is ET.CONTAINER_END:
            continue
        c.prove(e.ion_type is it, what + 'the documented type')
        if et is ET.SCALAR:
            c.prove(e.value is v, what + 'the value itself')
        c.prove(tuple(e.annotations) == anns and all(type(a) is type(b) for a, b in zip(e.annotations, anns)), what + 'its annotations, in order')
        if field is None:
            c.prove(e.field_name is None, what + 'no field name')
        else:
            f = e.field_name
            if field[0] is None:
                c.prove(f is not None and not isinstance(f, str) and f.text is None and f.sid == 0, what + 'a field without text')
            elif isinstance(field[0], Tok):
                c.prove(f is field[0] or f == field[0], what + 'the field name')
            else:
                c.prove(f is not None and (f if isinstance(f, str) else f.text) == field[0] and (isinstance(f, str) or f.sid is None), what + 'the field name')


def dumped(c, obj, **options):
    """The events dump sends, without version marker and end."""
    ET = R('IonEventType')
    w, made = Writer(c), []
    fp = object()

    def make(kind):
        return lambda *a, **kw: made.append((kind, a, kw)) or (kind,)

    def blocking(raw, out):
        c.prove(out is fp and raw == made[-1][:1], 'the output is written to the file')
        return w
    with patched(c, blocking_writer=blocking, binary_writer=make('binary'), text_writer=make('text')):
        try:
            R('dump', SI)(obj, fp, **options)
        except TypeError as e:
            raise Refused('%s' % e)
    c.prove(len(made) == 1, 'there is one writer')
    binary = options.get('binary', True)
    kind, a, kw = made[0]
    c.prove(kind == ('binary' if binary else 'text'), 'the format that was asked for')
    if binary:
        c.prove((a[0] if a else kw.get('imports')) is options.get('imports'), 'the imports that were given')
    else:
        c.prove((a[0] if a else kw.get('indent')) == options.get('indent'), 'the indentation that was given')
    log = w.log
    c.prove(len(log) >= 1 and log[-1].event_type is ET.STREAM_END, 'the stream is ended')
    log = log[:-1]
    marker = bool(log) and log[0].event_type is ET.VERSION_MARKER
    c.prove(marker or not binary and bool(options.get('omit_version_marker')), 'a version marker, unless it is to be left out of text')
    if not binary and options.get('omit_version_marker'):
        c.prove(not marker, 'no version marker')
    return log[1:] if marker else log


class Refused(Exception):
    pass


def options(c, sexp=None):
    o = {}
    if not c.choice('binary', [True, False]):
        o['binary'] = False
    if sexp is not None:
        o['tuple_as_sexp'] = sexp
    return o


# ---------------------------------------------------------------------------------------------------------------
# dump

def all_options(c):
    IT = R('IonType')
    o = {'binary': c.choice('binary', [True, False])}
    imports = c.opaque('imports') if c.choice('imports', [0, 1]) else None
    o['imports'] = imports
    o['indent'] = c.choice('indent', [None, u'', u'  '])
    o['omit_version_marker'] = c.choice('omit', [False, True])
    o['tuple_as_sexp'] = c.choice('sexp', [False, True])
    o['sequence_as_stream'] = c.choice('stream', [False, True])
    kind = c.choice('kind', ['int', 'list', 'tuple', 'dict', 'IonPyList', 'IonPySexp', 'IonPyNull'])
    if kind == 'int':
        v = V(c.int('n'), IT.INT)
    elif kind == 'IonPyNull':
        x = R('IonPyNull', ST)()
        x.ion_type = IT.LIST
        v = V(x, IT.LIST, ())
    else:
        members = [(u'f%d' % i, V(i, IT.INT)) for i in range(c.choice('members', [0, 1, 2]))]
        v = container(c, 'top', kind, o['tuple_as_sexp'], members)
    log = dumped(c, v.obj, **o)
    if o['sequence_as_stream'] and kind in ('list', 'tuple', 'IonPyList', 'IonPySexp'):
        want = [x for _, m in v.members for x in expected(m)]
    else:
        want = expected(v)
    judge(c, log, want)


def native_samples(c):
    IT = R('IonType')
    for t, xs in samples():
        for x in xs:
            v = V(x, getattr(IT, t))
            judge(c, dumped(c, x, tuple_as_sexp=c.choice('sexp', [False, True]) if t == 'NULL' else False), expected(v), '%s %r: ' % (type(x).__name__, x))
            judge(c, dumped(c, {u'f': [x]}), expected(V(None, IT.STRUCT, None, [(u'f', V(None, IT.LIST, None, [(None, v)]))])), 'in a container, %s %r: ' % (type(x).__name__, x))


def any_scalar(kind):
    """Every value of a kind."""
    def unit(c):
        IT = R('IonType')
        if kind.startswith('native'):
            v = c13.build(c, 'v', kind)
            t = {'native symbol': IT.SYMBOL, 'native string': IT.STRING, 'native bytes': IT.BLOB}.get(kind) or getattr(IT, v.types[0])
            v = V(v.obj, t)
        else:
            anns = annotations(c, 'v')
            v = c13.build(c, 'v', kind)
            v.obj.ion_annotations = anns
            v = V(v.obj, v.obj.ion_type, anns)
        judge(c, dumped(c, v.obj, **options(c, c.choice('sexp', [False, True]))), expected(v))
        IT = R('IonType')
        d = R('IonPyDict', ST)()
        d.add_item(u'f', v.obj)
        d.ion_type = IT.STRUCT
        judge(c, dumped(c, d), expected(V(d, IT.STRUCT, (), [(u'f', v)])), 'in a struct: ')
    return unit


def containers(kind, inner):
    """Containers of up to three members, one of them a container."""
    def unit(c):
        sexp = c.choice('sexp', [False, True])
        n = c.choice('members', [0, 1, 2, 3] if inner is None else [0, 1])
        kinds = ['native int'] if inner is not None else ['native int', 'native null', 'null', 'text'] if n <= 2 else ['native int', 'text']
        names = [u'a', u'b', u'c'] if inner is not None else c.choice('names', [[u'a', u'b', u'c'], [u'a', u'a', u'b'], [u'a', u'b', u'a'], [u'', u'x', u'']]) if kind in ('dict', 'IonPyDict') else [u'a', u'b', u'c']
        members = []
        if inner is not None:
            ms = [(u'i%d' % i, leaf(c, 'in%d' % i, ['native int', 'text'][i:i + 1])) for i in range(c.choice('inner members', [0, 2]))]
            members.append((u'in', container(c, 'in', inner, sexp, ms)))
        members += [(names[i], leaf(c, str(i), kinds)) for i in range(n)]
        if inner is not None and c.choice('last', [0, 1]):
            members.reverse()
        v = container(c, 'out', kind, sexp, members)
        judge(c, dumped(c, v.obj, **options(c, sexp)), expected(v))
    return unit


def no_text_field(c):
    """A field without text, of a loaded struct."""
    IT = R('IonType')
    d = R('IonPyDict', ST)()
    d.ion_type = IT.STRUCT
    v = leaf(c, 'v', ['null', 'text'])
    d.add_item(None, v.obj)
    judge(c, dumped(c, d, **options(c)), expected(V(d, IT.STRUCT, (), [(None, v)])))


class Other(object):
    pass


class Sub(Other):
    pass


def unsupported_values(c):
    bad = [Other(), Sub(), {1}, frozenset(), bytearray(b'a'), 1j, range(3), datetime.date(2000, 1, 1), datetime.time(1), len, Other, memoryview(b'a'),
           datetime.timedelta(1), iter([]), NotImplemented, Ellipsis, object()]
    for b in bad:
        for where, o in (('itself', b), ('in a list', [1, b]), ('in a tuple', (b,)), ('in a struct', {u'a': b}), ('deep', [[{u'a': (b,)}]])):
            try:
                dumped(c, o, **({'tuple_as_sexp': True} if where == 'in a tuple' else {}))
            except Refused:
                continue
            c.prove(False, 'a value of type %s (%s) is rejected' % (type(b).__name__, where))
    c.prove(True, 'values of other types are rejected')


# ---------------------------------------------------------------------------------------------------------------
# the type of a value: any hierarchy of classes

TABLE = [('NULL', type(None)), ('BOOL', bool), ('INT', int), ('FLOAT', float), ('STRING', str), ('DECIMAL', Decimal), ('TIMESTAMP', datetime.datetime),
         ('BLOB', bytes), ('LIST', list), ('STRUCT', dict), ('TIMESTAMP', 'Timestamp'), ('SYMBOL', 'SymbolToken'), ('LIST', tuple)]


class AnyClass(object):
    """A class that is not in the table; ``good``: it derives from one that is."""

    def __init__(self, good):
        self.good = good
        self.__bases__ = Bases(good)


class Bases(object):
    def __init__(self, good):
        self.good = good


class Pool(object):
    """Classes still to be visited: any number of them; ``good``: one of them is, or derives from, a class of the table."""

    def __init__(self, c, good, keys):
        self.c, self.good, self.keys = c, good, keys

    def __bool__(self):
        return True if self.good else self.c.decide(self.c.fresh('more classes', T.BOOL))

    def pop(self, *a):
        P.ctx_write(self)
        if self.good and self.c.decide(self.c.fresh('a good one', T.BOOL)):
            self.good = self.c.decide(self.c.fresh('another good one', T.BOOL))
            k = self.c.choice('class', [None] + self.keys)
            return AnyClass(True) if k is None else k
        return AnyClass(False)
    popleft = pop

    def extend(self, bases):
        P.ctx_write(self)
        if not isinstance(bases, Bases):
            raise P.Unsupported('other classes')
        self.good = self.good or bases.good

    def __getattr__(self, k):
        raise P.Unsupported('another use of the classes to visit')


class Visit(rt.LoopSpec):
    """As long as a class of the table is to be found, one that leads to it is still to be visited."""
    key = SI + '._ion_type#0'

    def applies(self, c, S, it):
        return 'hierarchy' in c.ghost

    def setup(self, c, S):
        self.good, self.keys = c.ghost['hierarchy']
        if type(S.types) is not list:
            raise P.Unsupported('the classes to visit')
        self.pool = Pool(c, self.good, self.keys)
        self.writes = (self.pool,)

    def havoc(self, c, S):
        S.types = self.pool

    def inv(self, c, S):
        if self.good:
            yield 'a class that leads to the table is to be visited', (S.types.good if type(S.types) is Pool else any(type(x) is AnyClass and x.good for x in S.types))


def hierarchy(supported):
    def unit(c):
        if c.concrete:
            unsupported(c, 'no such class')
        IT = R('IonType')
        f, sexp = R('_ion_type', SI), c.choice('sexp', [False, True])
        name = c.choice('type', sorted(set(t for t, _ in TABLE)) + ['SEXP']) if supported else 'NULL'
        keys = []
        for t, k in TABLE:
            if k is tuple and sexp:
                t = 'SEXP'
            if t == name:
                keys.append({'Timestamp': R('Timestamp'), 'SymbolToken': R('SymbolToken', SYM)}.get(k, k) if isinstance(k, str) else k)
        if supported and not keys:
            c.prove(True, 'no class has this type')
            return
        c.ghost['hierarchy'] = (supported, keys)
        obj = type('AnyObject', (P.Sym,), {'__class__': property(lambda s: AnyClass(supported))})()
        table = R('_FROM_TYPE_TUPLE_AS_SEXP' if sexp else '_FROM_TYPE', SI)
        try:
            got = f(obj, table)
        except TypeError:
            c.prove(not supported, 'a value whose class derives from a supported one is not rejected')
            return
        c.prove(supported and got is getattr(IT, name), 'the type documented for the class that it derives from')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# containers of any size and depth: members by contract (induction on depth), loops by invariants

class Elem(object):
    """An arbitrary member."""

    def __init__(self, i):
        self.i = i


class AnyList(list):
    def __init__(self, c):
        self.n = c.fresh('length')
        c.assume(T.le(C(0), self.n))

    def __len__(self):
        raise P.Unsupported('length of a sequence of any length')
    __iter__ = __bool__ = __getitem__ = __len__


class AnyItems(object):
    def __init__(self, d):
        self.d, self.n = d, d.n

    def __iter__(self):
        return self

    def __next__(self):
        raise P.Unsupported('iteration over a struct of any size')


class AnyDict(dict):
    def __init__(self, c):
        self.n = c.fresh('size')
        c.assume(T.le(C(0), self.n))

    def items(self):
        return AnyItems(self)

    def __len__(self):
        raise P.Unsupported('size of a struct of any size')
    __iter__ = __bool__ = __getitem__ = keys = values = __len__


class DumpMember(Contract):
    """Writes a member (of smaller depth)."""
    target = SI + ':_dump'
    proved = 'C17.*'

    def call(self, c, f, args, kw):
        if not isinstance(args[0], Elem):
            return f(*args, **kw)
        import inspect
        a = inspect.signature(f).bind(*args, **kw)
        a.apply_defaults()
        a = a.arguments
        c.result.assumed.add(self.target)
        try:
            w, t, field, st = a['writer'], a['from_type'], a['field'], a['in_struct']
        except KeyError:
            raise P.Unsupported('other parameters')
        c.prove(w is c.ghost['writer'] and t is c.ghost['table'], 'a member is written by the same writer and table')
        P.ctx_write(w)
        w.log.append(('member', args[0], field, bool(st)))


class Members(rt.LoopSpec):
    def applies(self, c, S, it):
        return isinstance(it, (AnyList, AnyItems))

    def setup(self, c, S):
        self.w, self.n = c.ghost['writer'], self.iter.n
        self.before = list(self.w.log)
        self.writes = (self.w,)
        self.at, self.now = None, None

    def length(self, c):
        return P.mkint(self.n)

    def item(self, c, i):
        self.now = Elem(i)
        if isinstance(self.iter, AnyItems):
            self.name = c.opaque('name', nonnull=True)
            return self.name, self.now
        return self.now

    def havoc(self, c, S):
        self.at = P.term(S.index)
        self.w.log = self.before + [('members', self.at)]

    def inv(self, c, S):
        log, k = self.w.log, len(self.before)
        if self.now is None:
            yield 'nothing is written before the first member', self.at is not None or log == self.before
            return
        ok = len(log) == k + 2 and log[:k] == self.before and log[k] == ('members', self.at) and log[k + 1][0] == 'member' and log[k + 1][1] is self.now
        if ok:
            ok = (log[k + 1][2] is self.name and log[k + 1][3]) if isinstance(self.iter, AnyItems) else not log[k + 1][3]
        yield 'every member is written once, in order', ok

    def leave(self, c):
        c.ghost['all'] = T.eq(self.at, self.n)


class ListMembers(Members):
    key = SI + '._dump#1'


class DictMembers(Members):
    key = SI + '._dump#0'


def any_size(kind):
    def unit(c):
        if c.concrete:
            unsupported(c, 'a container of any size')
        IT, ET = R('IonType'), R('IonEventType')
        w = Writer(c)
        c.ghost['writer'] = w
        sexp = c.choice('sexp', [False, True])
        c.ghost['table'] = table = R('_FROM_TYPE_TUPLE_AS_SEXP' if sexp else '_FROM_TYPE', SI)
        o = AnyDict(c) if kind == 'dict' else AnyList(c)
        R('_dump', SI)(o, w, table)
        log = w.log
        c.prove(len(log) == 3 and log[0].event_type is ET.CONTAINER_START and log[0].ion_type is (IT.STRUCT if kind == 'dict' else IT.LIST) and
                log[2].event_type is ET.CONTAINER_END and log[1][0] == 'members', 'a container is its start, its members and its end', kind='shape')
        c.prove(c.ghost.get('all', False), 'all members are written', kind='shape')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# load

def install():
    """Trusted: a class that derives from a number, text or octets keeps the value that it is made from."""
    for base, name in ((P.SymInt, 'IonPyInt'), (c13.FL.VFloat, 'IonPyFloat'), (c13.D.VDecimal, 'IonPyDecimal'), (c13.Lob, 'IonPyBytes')):
        cls = resolve(ST + ':' + name)

        def make(*args, _base=base, _cls=cls):
            if len(args) != 1 or not P.is_sym(args[0]):
                return NotImplemented
            v = args[0]
            n = c13.nat(_base, _cls)
            if _base is P.SymInt:
                o = n(P.term(v) if not isinstance(v, P.SymBool) else T.ite(P.as_cond(v), C(1), C(0)))
            elif _base is c13.FL.VFloat:
                o = n(v.o)
            elif _base is c13.D.VDecimal:
                o = n(v.s, v.co, v.e)
            else:
                o = n(v.name, v.n)
            o.source, o.ion_type, o.ion_annotations = v, None, ()
            return o
        rt.model(cls)(make)


install()


class N(object):
    """A value in a stream."""

    def __init__(self, ion_type, value=None, members=None, field=None, anns=(), check=None):
        self.type, self.value, self.members, self.field, self.anns, self.check = ion_type, value, members, field, anns, check


def events(nodes, depth=0):
    ET, Ev = R('IonEventType'), R('IonEvent')
    out = []
    for n in nodes:
        if n.members is None:
            out.append(Ev(ET.SCALAR, n.type, n.value, n.field, n.anns, depth))
        else:
            out.append(Ev(ET.CONTAINER_START, n.type, None, n.field, n.anns, depth))
            out += events(n.members, depth + 1)
            out.append(Ev(ET.CONTAINER_END, n.type, None, None, (), depth))
    return out


CLASSES = {'BOOL': 'IonPyBool', 'INT': 'IonPyInt', 'FLOAT': 'IonPyFloat', 'DECIMAL': 'IonPyDecimal', 'TIMESTAMP': 'IonPyTimestamp', 'SYMBOL': 'IonPySymbol',
           'STRING': 'IonPyText', 'CLOB': 'IonPyBytes', 'BLOB': 'IonPyBytes', 'LIST': 'IonPyList', 'SEXP': 'IonPyList', 'STRUCT': 'IonPyDict', 'NULL': 'IonPyNull'}


def agree(c, o, n, what=''):
    IT = R('IonType')
    null = n.members is None and n.value is None
    cls = R('IonPyNull' if null else CLASSES[n.type.name], ST)
    c.prove(o.__class__ is cls, what + 'the documented class')
    c.prove(o.ion_type is n.type, what + 'the type')
    c.prove(tuple(o.ion_annotations) == tuple(n.anns), what + 'the annotations')
    if null:
        return
    if n.members is None:
        same_value(c, o, n, what)
        return
    if n.type is IT.STRUCT:
        order = OrderedDict()
        for m in n.members:
            order.setdefault(m.field.text, []).append(m)
        want = [(k, m) for k, ms in order.items() for m in ms]
        got = list(o.items())
        c.prove(len(got) == len(want), what + 'every field')
        for (k, x), (k2, m) in zip(got, want):
            c.prove(k == k2, what + 'the field name')
            agree(c, x, m, what)
    else:
        got = list(o)
        c.prove(len(got) == len(n.members), what + 'every member')
        for x, m in zip(got, n.members):
            agree(c, x, m, what)


def same_value(c, o, n, what):
    v, IT = n.value, R('IonType')
    t = n.type
    if t is IT.SYMBOL:
        c.prove(o.text == v.text and o.location == v.location, what + 'the symbol')
        c.prove(o.sid is None if v.sid is None else o.sid == v.sid, what + 'the symbol ID')
    elif t is IT.TIMESTAMP:
        # Of a timestamp with a fraction, the microseconds are those of the fraction (C03, C14).
        for a in ('year', 'month', 'day', 'hour', 'minute', 'second') + (('microsecond',) if c.concrete else ()):
            c.prove(getattr(o, a) == getattr(v, a), what + 'the %s' % a)
        c.prove(o.precision is v.precision, what + 'the precision')
        a, b = o.tzinfo, v.tzinfo
        c.prove(a is b or (a is not None and b is not None and o.utcoffset() == v.utcoffset()), what + 'the offset')
        fa, fb = getattr(o, 'fractional_seconds', None), getattr(v, 'fractional_seconds', None)
        c.prove((fa is None) == (fb is None), what + 'the fraction')
        if fa is not None:
            pa, pb = c13.D.dec_parts(c, fa), c13.D.dec_parts(c, fb)
            for x, y in zip(pa, pb):
                c.prove(x == y, what + 'the fraction')
    elif c.concrete or not P.is_sym(v):
        c.prove(base(o, t) == base(v, t) and (t.name != 'FLOAT' or repr(float(o)) == repr(v)) and (t.name != 'DECIMAL' or Decimal(o).as_tuple() == v.as_tuple()), what + 'the value')
    else:
        c.prove(getattr(o, 'source', None) is v, what + 'the value')


def base(v, t):
    return {'BOOL': int, 'INT': int, 'FLOAT': repr, 'DECIMAL': repr, 'STRING': str, 'CLOB': bytes, 'BLOB': bytes}[t.name](
        {'FLOAT': float, 'DECIMAL': Decimal}.get(t.name, lambda x: x)(v))


class File(object):
    """A file of octets."""

    def __init__(self, c, data):
        self.c, self.data, self.pos = c, data, 0

    def read(self, n=-1):
        if not isinstance(n, int):
            unsupported(self.c, 'a symbolic count')
        d = self.data[self.pos:] if n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def seek(self, n, whence=0):
        self.c.prove(whence == 0 and n == 0, 'the file is read from its start')
        self.pos = 0
        return 0


def loaded(c, nodes, fp=None, catalog=None, kind=None, call='load', **options):
    """What load returns for a stream of these values; the raw reader that it chose is checked."""
    fp = File(c, b'\xe0\x01\x00\xea') if fp is None else fp
    evs = events(nodes)
    made = []

    def make(name):
        return lambda *a, **kw: made.append((name, a, kw)) or (name,)

    def managed(raw, cat=None):
        c.prove(raw == made[-1][:1] and cat is catalog, 'symbols are resolved with the catalog that was given')
        return ('managed',)

    def blocking(reader, f, *a):
        c.prove(reader == ('managed',), 'the input is read from the file')
        if call == 'load':
            c.prove(f is fp and getattr(f, 'pos', 0) == 0, 'the file is read from its start')
        made.append(('file', f))
        return Reader(c, evs)
    with patched(c, blocking_reader=blocking, managed_reader=managed, binary_reader=make('binary'), text_reader=make('text')):
        try:
            out = R(call, SI)(fp, catalog=catalog, **options) if catalog is not None else R(call, SI)(fp, **options)
        finally:
            c.ghost['made'] = made
    c.prove(len(made) == 2, 'there is one reader')
    if kind is not None:
        c.prove(made[0][0] == kind[0] and (bool(made[0][1] and made[0][1][0]) or bool(made[0][2].get('is_unicode'))) == kind[1], 'the reader for the format of the input')
    return out


def tokens(c, n):
    return annotations_of(c, n)


def annotations_of(c, n):
    Tok = R('SymbolToken', SYM)
    return c.choice('annotations ' + n, [(), (Tok(u'a', None),), (Tok(u'a', 10), Tok(None, 0), Tok(u'', None))])


def scalar_node(c, n, kind, **kw):
    IT, Tok = R('IonType'), R('SymbolToken', SYM)
    t = getattr(IT, kind)
    if kind == 'BOOL':
        v = c.bool('bool ' + n)
    elif kind == 'INT':
        v = c.int('int ' + n)
    elif kind == 'FLOAT':
        v = c13.FL.float_input(c, 'float ' + n)
    elif kind == 'DECIMAL':
        v = c13.D.decimal_input(c, 'decimal_' + n)
    elif kind == 'TIMESTAMP':
        v, _ = c13.timestamp(c, n, R('Timestamp'))
    elif kind == 'SYMBOL':
        v, _ = c13.symbol(c, n, plain=True)
    elif kind == 'STRING':
        v = c.choice('text ' + n, [u'', u'a', u'$10'])
    else:
        v = c.bytes('octets ' + n) if c.concrete else c13.Lob(n, c.fresh('length_' + n))
    return N(t, v, **kw)


SCALARS = ['BOOL', 'INT', 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB', 'BLOB']


def load_scalar(kind):
    """Every value of a type, and its null, at the top level and in a struct."""
    def unit(c):
        IT, Tok = R('IonType'), R('SymbolToken', SYM)
        where = c.choice('where', ['top', 'struct', 'list'])
        f = Tok(u'f', None) if where == 'struct' else None
        if kind in SCALARS and c.choice('null', [0, 1]) == 0:
            n = scalar_node(c, 'v', kind, field=f, anns=annotations_of(c, 'v'))
        else:
            n = N(getattr(IT, kind), None, field=f, anns=annotations_of(c, 'v'))
        top = n if where == 'top' else N(IT.STRUCT if where == 'struct' else IT.LIST, members=[n])
        o = loaded(c, [top])
        agree(c, o, top)
        again(c, o, top)
    return unit


def again(c, o, n):
    """A loaded value is dumped as the same events."""
    ET, Tok = R('IonEventType'), R('SymbolToken', SYM)
    log = dumped(c, o, **options(c))
    want = events([grouped(n)])
    c.prove(len(log) == len(want), 'again: every value is written once')
    for e, x in zip(log, want):
        c.prove(e.event_type is x.event_type, 'again: the kind of event')
        if x.event_type is ET.CONTAINER_END:
            continue
        c.prove(e.ion_type is x.ion_type, 'again: the type')
        c.prove(tuple(e.annotations) == tuple(x.annotations), 'again: the annotations')
        c.prove((e.field_name is None) == (x.field_name is None), 'again: a field name')
        if x.field_name is not None:
            text = e.field_name if isinstance(e.field_name, str) else e.field_name.text
            c.prove(text == x.field_name.text, 'again: the field name')
            if text is None:
                c.prove(e.field_name.sid == 0, 'again: a field without text')
        c.prove((e.value is None) == (x.value is None), 'again: a null')
        if x.value is not None:
            same_value(c, e.value, N(x.ion_type, x.value), 'again: ')


def grouped(n):
    """Fields of one name come together."""
    if n.members is None:
        return n
    ms = [grouped(m) for m in n.members]
    if n.type is R('IonType').STRUCT:
        order = OrderedDict()
        for m in ms:
            order.setdefault(m.field.text, []).append(m)
        ms = [m for x in order.values() for m in x]
    return N(n.type, n.value, ms, n.field, n.anns)


def load_container(kind, inner):
    def unit(c):
        IT, Tok = R('IonType'), R('SymbolToken', SYM)
        st = kind == 'STRUCT'
        n = c.choice('members', [0, 1, 2, 3] if inner is None else [0, 1])
        names = c.choice('names', [u'abc', u'aab', u'aba', (None, u'', u'a'), (None, u'a', None)]) if st else u'abc'

        def field(i):
            return Tok(names[i], 0 if names[i] is None else None) if st else None
        ms = []
        if inner is not None:
            inn = c.choice('inner members', [0, 2])
            ms.append(N(getattr(IT, inner), members=[N(IT.STRING, u'in%d' % i, field=Tok(u'x', None) if inner == 'STRUCT' else None) for i in range(inn)],
                        field=Tok(u'in', 12) if st else None, anns=annotations_of(c, 'in')))
        for i in range(n):
            k = c.choice('member %d' % i, ['int', 'null', 'null list'])
            ms.append(N(IT.INT, c.int('int %d' % i), field=field(i)) if k == 'int' else
                      N(IT.NULL if k == 'null' else IT.LIST, None, field=field(i), anns=(Tok(u'q', None),)))
        if inner is not None and c.choice('last', [0, 1]):
            ms.reverse()
        top = N(getattr(IT, kind), members=ms, anns=annotations_of(c, 'out'))
        o = loaded(c, [top])
        agree(c, o, top)
        again(c, o, top)
    return unit


def single(c):
    """The values of a stream, in order; one alone only if there is exactly one."""
    IT, Exc = R('IonType'), R('IonException', 'amazon.ion.exceptions')
    n = c.choice('values', [0, 1, 2, 3])
    nodes = [N(IT.LIST, members=[N(IT.INT, 3)]) if c.choice('value %d' % i, [0, 1]) else N(IT.INT, None if i == 1 else i) for i in range(n)]
    one = c.choice('single', [None, True, False])
    kw = {} if one is None else {'single_value': one}
    try:
        o = loaded(c, nodes, **kw)
    except Exc:
        c.prove(one is not False and n != 1, 'only a stream of no or many values is not a single value')
        return
    if one is False:
        c.prove(type(o) is list and len(o) == n, 'the values of the stream')
        for x, m in zip(o, nodes):
            agree(c, x, m)
    else:
        c.prove(n == 1, 'a single value is returned only if there is exactly one')
        agree(c, o, nodes[0])


def formats(c):
    """The reader is chosen by the input."""
    from io import BytesIO, StringIO, TextIOWrapper
    IT = R('IonType')
    how = c.choice('input', ['octets', 'text', 'text file'])
    cat = c.opaque('catalog', nonnull=True) if c.choice('catalog', [0, 1]) else None
    nodes = [N(IT.INT, 1)]
    if how == 'text':
        agree(c, loaded(c, nodes, StringIO(u'\xe0\x01\x00\xea'), cat, ('text', True)), nodes[0])
        return
    if how == 'text file':
        agree(c, loaded(c, nodes, TextIOWrapper(BytesIO(b'1')), cat, ('text', True)), nodes[0])
        return
    data = c.choice('data', [b'\xe0\x01\x00\xea', b'\xe0\x01\x00\xea\x0f', b'\xe0\x01\x00', b'', b'\xe0\x01\x01\xea', b'$ion_1_0 1', b' \xe0\x01\x00\xea', b'1', b'\xea\x00\x01\xe0'])
    binary = data[:4] == b'\xe0\x01\x00\xea'
    agree(c, loaded(c, nodes, File(c, data), cat, ('binary' if binary else 'text', False)), nodes[0])
    # loads: the same, from a value
    for x, k in ((data, ('binary' if binary else 'text', False)), (u'1 2', ('text', True))):
        agree(c, loaded(c, nodes, x, cat, k, 'loads'), nodes[0])
        f = c.ghost['made'][1][1]
        f.seek(0)
        c.prove(f.read() == x, 'loads reads what it is given')
    try:
        R('loads', SI)(5)
        c.prove(False, 'loads rejects what is neither octets nor text')
    except TypeError:
        pass
    c.prove([x for x in loaded(c, nodes + nodes, data, None, None, 'loads', single_value=False)] == [1, 1], 'loads returns a stream')


def dumps_(c):
    """dumps is dump into octets, or text."""
    import importlib
    m = importlib.import_module(SI)
    o = {'imports': c.opaque('imports', nonnull=True), 'binary': c.choice('binary', [True, False]), 'sequence_as_stream': c.choice('stream', [True, False]),
         'indent': c.choice('indent', [None, u' ']), 'tuple_as_sexp': c.choice('sexp', [True, False]), 'omit_version_marker': c.choice('omit', [True, False])}
    got, real, obj = {}, m.dump, object()

    def dump(x, fp, *a, **kw):
        if a:
            unsupported(c, 'positional options')
        got.update(kw)
        c.prove(x is obj, 'dumps writes the value')
        fp.write(b'ab')
        fp.write(b'\xc3\xa9')
    m.dump = dump
    try:
        r = R('dumps', SI)(obj, **o)
    finally:
        m.dump = real
    c.prove(r == (b'ab\xc3\xa9' if o['binary'] else u'ab\xe9'), 'dumps returns what dump writes')
    for k in o:
        c.prove(got.get(k) is o[k], 'dumps passes %s on' % k)


def copies(kind):
    """from_value gives the value the type and annotations; a copy keeps them."""
    def unit(c):
        IT, Tok = R('IonType'), R('SymbolToken', SYM)
        null = kind not in SCALARS
        n = N(getattr(IT, kind), None) if null else scalar_node(c, 'v', kind)
        anns = annotations_of(c, 'v')
        cls = R(CLASSES[kind], ST)
        o = cls.from_value(n.type, n.value, anns)
        n.anns = anns
        agree(c, o, n)
        o2 = o._copy()
        if o2.__class__ is not o.__class__ or not P.is_sym(o2):
            agree(c, o2, n, 'a copy: ')
        else:
            c.prove(getattr(o2, 'source', None) is o and o2.ion_type is n.type and tuple(o2.ion_annotations) == anns, 'a copy is of the value')
    return unit


def native_datetimes(c):
    """A native datetime becomes a timestamp of the same fields."""
    IT, cls = R('IonType'), R('IonPyTimestamp', ST)
    v, t = c13.timestamp(c, 'v', datetime.datetime)
    o = cls.from_value(IT.TIMESTAMP, v)
    for a in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
        c.prove(getattr(o, a) == getattr(v, a), 'the %s' % a)
    c.prove((o.tzinfo is None) == (v.tzinfo is None), 'the offset')


UNITS = []
DUMP = [SI + ':' + x for x in ('dump', '_dump', '_ion_type')] + [ST + ':_IonNature.to_event']
LOAD = [SI + ':' + x for x in ('load', '_load')] + [ST + ':_IonNature.from_event']


def unit(name, fn, of=DUMP, **kw):
    UNITS.append(Unit('C17.' + name, fn, of=of, **kw))


unit('options', all_options)
unit('native values', native_samples)
for _k in c13.NATURED + c13.NATIVE:
    if _k.split()[-1] not in ('list', 'sexp', 'tuple', 'struct', 'dict'):
        unit('dump of any %s' % _k, any_scalar(_k))
for _k in KINDS:
    for _i in [None] + KINDS:
        unit('dump of %s%s' % (_k, ' with %s' % _i if _i else ''), containers(_k, _i))
unit('field without text', no_text_field)
unit('unsupported values', unsupported_values)
unit('_ion_type[supported]', hierarchy(True), [SI + ':_ion_type'], loops=[Visit])
unit('_ion_type[unsupported]', hierarchy(False), [SI + ':_ion_type'], loops=[Visit])
for _k in ('list', 'dict'):
    unit('%s of any size' % _k, any_size(_k), [SI + ':_dump'], loops=[ListMembers, DictMembers], contracts=[DumpMember])
for _k in SCALARS + ['NULL', 'LIST', 'SEXP', 'STRUCT']:
    unit('load %s' % _k, load_scalar(_k), LOAD + DUMP)
for _k in ('LIST', 'SEXP', 'STRUCT'):
    for _i in (None, 'LIST', 'SEXP', 'STRUCT'):
        unit('load %s%s' % (_k, ' with %s' % _i if _i else ''), load_container(_k, _i), LOAD + DUMP)
unit('single value', single, LOAD)
unit('formats', formats, LOAD + [SI + ':loads'])
unit('dumps', dumps_, [SI + ':dumps'])
for _k in SCALARS + ['NULL']:
    unit('from_value %s' % _k, copies(_k), [ST + ':_IonNature.from_value', ST + ':_IonNature._copy'])
unit('from_value of a datetime', native_datetimes, [ST + ':_IonNature.from_value', ST + ':IonPyTimestamp._to_constructor_args'])

ASSUMPTIONS = ['the writers write the events they are sent and the readers give the events of the stream (C01 to C08, C11, C12, C16, C19), by contract',
               'a class that derives from int, float, Decimal, str or bytes keeps the value it is made from (trusted)',
               'namedtuple is the known finding']
