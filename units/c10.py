"""C10: import resolution honours name, version and declared maximum ID."""
from itertools import chain, islice, repeat

from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Contract, Unit, resolve

C = T.const
SYM = 'amazon.ion.symbols'


def holds(c, cond):
    return bool(cond) if c.concrete else c.decide(P.as_cond(cond))


# ---------------------------------------------------------------------------------------------------------------
# sequences of any length: the texts of a table, unknown texts, the first of them, one after another

class Texts(object):
    """parts: (table, k): the texts of its first k symbols;  (None, k): k unknown texts."""

    def __init__(self, parts, tokens=False):
        self.parts, self.tokens = parts, tokens

    def __iter__(self):
        rec = P.ctx().ghost.get('texts')
        if rec is None:
            raise P.Unsupported('iteration over a sequence of any length')
        rec.append(self)
        if self.tokens:
            yield Token(self)
        else:
            yield Text(self)


class Token(object):
    """An arbitrary symbol of the sequence."""

    def __init__(self, seq):
        self.seq, self.sid, self.location = seq, Text(None), Text(None)

    @property
    def text(self):
        return Text(self.seq)


class Text(object):
    def __init__(self, seq):
        self.seq = seq


def parts_of(c, symbols):
    """What an iterable of texts consists of."""
    if type(symbols) is Texts and not symbols.tokens:
        return symbols.parts
    if isinstance(symbols, (list, tuple)) and not symbols:
        return []
    if isinstance(symbols, Chain):
        return [p for s in symbols.seqs for p in parts_of(c, s)]
    # a generator (or list) of the images of one sequence's elements
    c.ghost['texts'] = rec = []
    try:
        out = list(symbols)
    finally:
        c.ghost['texts'] = None
    if len(rec) == 1 and len(out) == 1 and isinstance(out[0], Text) and out[0].seq is rec[0]:
        return rec[0].parts
    if not rec and not out:
        return []
    raise P.Unsupported('texts made in an unknown way')


class Chain(object):
    def __init__(self, seqs):
        self.seqs = seqs


def install():
    @rt.model(repeat)
    def _repeat(x, n=None):
        if n is None or not P.is_sym(n):
            return NotImplemented
        if x is not None:
            raise P.Unsupported('repeated text')
        # the length of repeat(None, n) for n < 0 is 0
        n = P.term(n)
        return Texts([(None, T.ite(T.lt(n, C(0)), C(0), n))])

    @rt.model(islice)
    def _islice(it, *a):
        if not isinstance(it, (Table, Texts)):
            return NotImplemented
        if len(a) != 1:
            raise P.Unsupported('slice of a table')
        if isinstance(it, Texts) and len(it.parts) != 1:
            raise P.Unsupported('slice of several sequences')
        t, n = (it, it.n) if isinstance(it, Table) else it.parts[0]
        k = P.term(a[0])
        c = P.ctx()
        if not c.decide(T.le(C(0), k)):
            raise ValueError('Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.')
        return Texts([(t, T.ite(T.lt(k, n), k, n))], tokens=isinstance(it, Table) or it.tokens)

    @rt.model(chain)
    def _chain(*seqs):
        if not any(isinstance(s, (Texts, Chain)) for s in seqs):
            return NotImplemented
        return Chain(seqs)


install()


class Table(object):
    """A registered shared table with any number of symbols."""
    is_substitute = False

    def __init__(self, c, name, version):
        self.name, self.version, self.table_type = name, version, resolve(SYM + ':SHARED_TABLE_TYPE')
        self.n = c.fresh('symbols_%d' % version)
        c.assume(T.le(C(0), self.n))
        self.max_id = P.mkint(self.n)
        self.imports = None

    def vc_len(self):
        return self.max_id

    def __len__(self):
        raise P.Unsupported('length of a table')

    def __iter__(self):
        return iter(Texts([(self, self.n)], tokens=True))


class Built(object):
    """A table as its constructor is asked for it."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def constructor(c):
    """SymbolTable(...): the symbols it is given, in order (what C09 proves of the constructor)."""
    def make(table_type, symbols, name=None, version=None, imports=None, is_substitute=False):
        if table_type.is_shared and (name is None or version is None or version <= 0):
            raise ValueError('Shared symbol tables must have a name and >= 1 version')
        if imports is not None:
            raise P.Unsupported('a resolved table with imports')
        parts = [(t, k) for t, k in parts_of(c, symbols)]
        n = C(0)
        for _, k in parts:
            n = T.add(n, k)
        return Built(table_type=table_type, parts=parts, name=name, version=version, is_substitute=is_substitute, max_id=P.mkint(n))
    return make


def with_constructor(c, f, *a):
    """Calls f with the constructor replaced by its contract."""
    import sys
    m = sys.modules[SYM]
    if c.concrete:
        return f(*a)
    real, m.SymbolTable = m.SymbolTable, constructor(c)
    try:
        return rt.vc_call(f, *a)
    finally:
        m.SymbolTable = real


def registered(c, catalog, name, version):
    if c.concrete:
        texts = c._get('symbols of version %d' % version, lambda: [c.rng.choice([None, 'x', 'y', 'z%d' % version]) for _ in range(c.rng.randrange(5))]
                       if hasattr(c, 'rng') else ['x', None, 'y'])
        t = resolve(SYM + ':shared_symbol_table')(name, version, texts)
    else:
        t = Table(c, name, version)
    catalog.register(t)
    return t


def size(c, t):
    return len(t) if c.concrete else t.max_id


def is_prefix(c, got, t, k, what):
    """got is the texts of the first symbols of t, followed by unknown ones, k in all."""
    n = size(c, t) if t is not None else 0
    if c.concrete:
        want = [x.text for x in t][:k] if t is not None else []
        c.prove([x.text for x in got] == want + [None] * (k - len(want)), what)
        return
    known = T.ite(T.lt(P.term(k), P.term(n)), P.term(k), P.term(n))
    if isinstance(got, Table):
        got_parts = [(got, got.n)]
    else:
        got_parts = got.parts
    lead, rest, ok = C(0), C(0), True
    for p, m in got_parts:
        if p is t and t is not None:
            ok = ok and c.valid(T.eq(lead, C(0))) and c.valid(T.eq(rest, C(0)))
            lead = T.add(lead, m)
        elif p is None:
            rest = T.add(rest, m)
        else:
            ok = ok and c.valid(T.eq(m, C(0)))
    c.prove(ok, what + ' (from the best table)')
    c.prove(T.eq(lead, known), what + ' (its leading symbols)')
    c.prove(T.eq(T.add(lead, rest), P.term(k)), what + ' (as many as requested)')


VERSIONS = [(), (1,), (2,), (3,), (1, 3), (3, 1), (2, 3), (3, 2), (1, 2, 4), (4, 2, 1), (2, 4, 1)]


def resolution(c):
    name, other = u'tbl', u'other'
    catalog = resolve(SYM + ':SymbolTableCatalog')()
    vs = c.choice('registered', VERSIONS)
    tables = dict((v, registered(c, catalog, name, v)) for v in vs)
    if c.choice('another table', [False, True]):
        registered(c, catalog, other, 5)
    version = c.choice('version', [1, 2, 3, 4, 5])
    max_id = c.int('max_id', 0, 9 if c.concrete else None) if c.choice('with max_id', [True, False]) else None
    E = resolve(SYM + ':CannotSubstituteTable') if hasattr(__import__(SYM, fromlist=['x']), 'CannotSubstituteTable') else \
        resolve('amazon.ion.exceptions:CannotSubstituteTable')
    exact = tables.get(version)
    best = exact if exact is not None else tables[max(vs)] if vs else None
    try:
        t = with_constructor(c, catalog.resolve, name, version, max_id)
    except E:
        c.prove(exact is None and max_id is None, 'resolution fails only without an exact match and without a maximum ID')
        return
    c.prove(exact is not None or max_id is not None, 'without an exact match and without a maximum ID resolution fails')
    c.prove(t.name == name and t.version == version, 'the result has the requested name and version')
    if exact is not None and (max_id is None or holds(c, size(c, exact) == max_id)):
        c.prove(t is exact, 'an exact match is returned')
        return
    c.prove(t is not exact, 'the result has the requested maximum ID')
    c.prove(t.max_id == max_id, 'the result has the requested maximum ID')
    c.prove(t.table_type is resolve(SYM + ':SHARED_TABLE_TYPE'), 'the result is a shared table')
    is_prefix(c, t, best, max_id, 'symbols of the best table, then unknown ones')


def again(c):
    """Resolving changes nothing: the same request later, or another in between, gives the same."""
    name = u'tbl'
    catalog = resolve(SYM + ':SymbolTableCatalog')()
    vs = c.choice('registered', [(1,), (1, 3), (3, 1)])
    tables = dict((v, registered(c, catalog, name, v)) for v in vs)
    k = c.int('max_id', 0, 9 if c.concrete else None)
    first = c.choice('first', [1, 2, 3, 4])
    with_constructor(c, catalog.resolve, name, first, k)
    version = c.choice('version', [1, 2, 3, 4])
    m = c.int('then', 0, 9 if c.concrete else None)
    t = with_constructor(c, catalog.resolve, name, version, m)
    best = tables.get(version, tables[max(vs)])
    c.prove(t.name == name and t.version == version and t.max_id == m, 'the later request is honoured')
    is_prefix(c, t, best, m, 'symbols of the best table, then unknown ones')
    # a table registered later is found
    late = registered(c, catalog, name, 4)
    t = with_constructor(c, catalog.resolve, name, 4, None)
    c.prove(t is late, 'a table registered later is found')
    t = with_constructor(c, catalog.resolve, name, 7, m)
    is_prefix(c, t, late, m, 'the highest version is the best')


def refused(c):
    catalog = resolve(SYM + ':SymbolTableCatalog')()
    registered(c, catalog, u'tbl', 1)
    name = c.choice('name', [u'tbl', u'none'])
    bad = c.choice('bad', ['version', 'max_id', 'name', 'not a version'])
    v, m = 1, 3
    if bad == 'version':
        v = c.int('version', -4 if c.concrete else None, 0)
    elif bad == 'max_id':
        m = c.int('max', -4 if c.concrete else None, -1)
    elif bad == 'name':
        name = b'tbl'
    else:
        v = u'1'
    try:
        with_constructor(c, catalog.resolve, name, v, m)
    except (ValueError, TypeError):
        c.prove(True, 'impossible requests are rejected')
        return
    c.prove(False, 'impossible requests are rejected')


def placeholder(c):
    v, k = c.choice('version', [1, 9]), c.int('max_id', 0, 12 if c.concrete else None)
    t = with_constructor(c, resolve(SYM + ':placeholder_symbol_table'), u'tbl', v, k)
    c.prove(t.name == u'tbl' and t.version == v and t.max_id == k and t.is_substitute, 'a placeholder as requested')
    is_prefix(c, t, None, k, 'unknown symbols only')


def no_placeholder(c):
    v, k = c.int('version', -9 if c.concrete else None, 9 if c.concrete else None), c.int('max_id', -9 if c.concrete else None, 9 if c.concrete else None)
    c.require(T.or_(T.lt(P.term(v), T.const(1)), T.lt(P.term(k), T.const(0))))
    try:
        with_constructor(c, resolve(SYM + ':placeholder_symbol_table'), u'tbl', v, k)
    except ValueError:
        c.prove(True, 'versions below 1 and negative maximum IDs are rejected')
        return
    c.prove(False, 'versions below 1 and negative maximum IDs are rejected')


def registering(c):
    """Only shared tables that are no substitutes can be registered."""
    catalog = resolve(SYM + ':SymbolTableCatalog')()
    Sh, Lo = resolve(SYM + ':shared_symbol_table'), resolve(SYM + ':local_symbol_table')
    t = c.choice('table', [lambda: Lo(), lambda: resolve(SYM + ':SYSTEM_SYMBOL_TABLE'), lambda: resolve(SYM + ':placeholder_symbol_table')(u'tbl', 1, 3),
                           lambda: resolve(SYM + ':substitute_symbol_table')(Sh(u'tbl', 1, [u'a']), 2, 3)])()
    try:
        catalog.register(t)
        c.prove(False, 'only a shared table is registered')
    except ValueError:
        c.prove(True, 'only a shared table is registered')


UNITS = []


def unit(name, fn, of, **kw):
    UNITS.append(Unit('C10.' + name, fn, of=of, **kw))


CAT = SYM + ':SymbolTableCatalog.'
OF = [CAT + 'resolve', CAT + 'register', SYM + ':substitute_symbol_table', SYM + ':placeholder_symbol_table']
unit('resolution', resolution, OF)
unit('again', again, OF)
unit('refused', refused, [CAT + 'resolve'])
unit('placeholder', placeholder, [SYM + ':placeholder_symbol_table'])
unit('no placeholder', no_placeholder, [SYM + ':placeholder_symbol_table'])
unit('registering', registering, [CAT + 'register'])

ASSUMPTIONS = ['the constructor of a symbol table keeps the symbols it is given, in order (proved as C09)', 'up to three versions of a table are registered; the '
               'code only compares version numbers', 'itertools.repeat, islice and chain behave as documented']
