"""C12: binary output declares exactly the symbols its IDs refer to."""
from contextlib import contextmanager

from pyvc import frames
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve

C = T.const
WB, SYM, CORE, W = 'amazon.ion.writer_binary', 'amazon.ion.symbols', 'amazon.ion.core', 'amazon.ion.writer'
IVM = b'\xe0\x01\x00\xea'


def R(name, mod=CORE):
    return resolve(mod + ':' + name)


def unsupported(c, why):
    if c.concrete:
        from pyvc.conc import Skip
        raise Skip()
    raise P.Unsupported(why)


# ---------------------------------------------------------------------------------------------------------------
# what the writer builds on, by contract: the raw writer (C04) records events and gives its octets at the end of the
# stream; the local symbol table (C09) knows some texts and gives the next ID to any other

class Raw(object):
    """The raw binary writer: what it was sent, and the octets (here: a name for them) that encode it."""

    def __init__(self, c, world, n):
        self.c, self.world, self.n, self.log, self.rest, self.ended = c, world, n, [], [], False

    def send(self, e):
        D, WET = R('DataEvent'), R('WriteEventType', W)
        if e is None:
            if not self.rest:
                unsupported(self.c, 'the raw writer is asked for more than it has')
            d = self.rest.pop(0)
            return D(WET.HAS_PENDING if self.rest else WET.COMPLETE, d)
        if self.rest or self.ended:
            unsupported(self.c, 'the raw writer is sent an event out of turn')
        if e.event_type is R('IonEventType').STREAM_END:
            self.ended = True
            pieces = [b'<%d.%d>' % (self.n, i) for i in range(2)]
            self.rest = pieces[1:]
            return D(WET.HAS_PENDING, pieces[0])
        self.log.append(e)
        return D(WET.NEEDS_INPUT, b'')


class Table(object):
    """A local symbol table with N symbols from the system and the imports, which provide some of the texts."""

    def __init__(self, c, world, imports):
        self.c, self.world, self.imports, self.local = c, world, imports, []

    def token(self, text, sid):
        loc = R('ImportLocation', SYM)(u'shared', 1) if text not in self.local else None
        return R('SymbolToken', SYM)(text, sid, loc)

    def get(self, key, default=None):
        w = self.world
        if isinstance(key, str):
            if key in w.provided:
                return self.token(key, w.provided[key])
            if key in self.local:
                return self.token(key, w.n + 1 + self.local.index(key))
            return None
        if not P.intlike(key) or isinstance(key, bool):
            raise TypeError('Key must be int or Unicode sequence.')
        if not w.c.concrete:
            if w.c.decide(T.eq(P.term(key), C(0))):
                return R('SYMBOL_ZERO_TOKEN', SYM)
            if not w.c.decide(T.and_(T.lt(C(0), P.term(key)), T.le(P.term(key), P.term(w.n + len(self.local))))):
                return default
        elif key == 0:
            return R('SYMBOL_ZERO_TOKEN', SYM)
        elif not 0 < key <= w.n + len(self.local):
            return default
        return R('SymbolToken', SYM)(u'whatever text', key, None)

    def __getitem__(self, key):
        t = self.get(key)
        if t is None:
            raise KeyError(key)
        return t
    vc_getitem = __getitem__

    def intern(self, text):
        if not isinstance(text, str):
            raise TypeError('not a text')
        t = self.get(text)
        if t is None:
            self.local.append(text)
            t = self.get(text)
        return t

    @property
    def max_id(self):
        return self.world.n + len(self.local)

    def __contains__(self, k):
        return self.get(k) is not None

    def __getattr__(self, k):
        unsupported(self.__dict__['c'], 'a use of the symbol table that its contract does not describe')


class Imported(object):
    """A shared table given to the writer."""

    def __init__(self, c, n, shared=True):
        self.table_type = R('SHARED_TABLE_TYPE' if shared else 'LOCAL_TABLE_TYPE', SYM)
        self.name, self.version, self.max_id = u'import %s' % n, c.int('version of import %s' % n, 1), c.int('max_id of import %s' % n, 0)


class World(object):
    """One writer, and everything it makes and emits."""

    def __init__(self, c, imports, texts=(u'x', u'y'), provided=None):
        self.c, self.imports, self.raws, self.tables, self.out = c, imports, [], [], []
        self.n = c.int('symbols provided', 9)
        self.provided = {}
        for t in texts:
            if c.choice('%s is provided' % t, [False, True]) if provided is None else provided[t]:
                sid = self.provided[t] = c.int('sid of %s' % t, 1)
                c.assume(sid <= self.n)

    @contextmanager
    def made(self):
        import importlib
        m = importlib.import_module(WB)
        c = self.c
        for name in ('_raw_binary_writer', 'SymbolTable', 'LOCAL_TABLE_TYPE'):
            if name not in vars(m):
                unsupported(c, 'the writer is built in another way')
        real = m._raw_binary_writer, m.SymbolTable

        def raw(*args, **kw):
            self.raws.append(Raw(c, self, len(self.raws)))
            return self.raws[-1]

        def table(table_type, symbols, name=None, version=None, imports=None, **kw):
            if kw or list(symbols) or table_type is not m.LOCAL_TABLE_TYPE:
                unsupported(c, 'another kind of table')
            c.prove(imports is self.imports or not imports and not self.imports, 'the local table imports what the writer is configured with')
            self.tables.append(Table(c, self, imports))
            return self.tables[-1]
        m._raw_binary_writer, m.SymbolTable = raw, table
        try:
            yield
        finally:
            m._raw_binary_writer, m.SymbolTable = real

    def send(self, writer, e):
        """Everything that is emitted for an event."""
        HAS = R('WriteEventType', W).HAS_PENDING
        out = []
        for _ in range(20):
            r = writer.send(e)
            if r.data:
                out.append(r.data)
            if r.type is not HAS:
                return b''.join(out), r.type
            e = None
        unsupported(self.c, 'very many pieces')


# ---------------------------------------------------------------------------------------------------------------
# what was written

def tree(c, log):
    """The values an event log denotes: (type, field, annotations, value or members)."""
    ET = R('IonEventType')
    top, stack = [], []
    for e in log:
        if e.event_type is ET.CONTAINER_END:
            if not stack:
                return None
            stack.pop()
            continue
        members = []
        node = (e.ion_type, e.field_name, e.annotations, members if e.event_type is ET.CONTAINER_START else e.value)
        (stack[-1] if stack else top).append(node)
        if e.event_type is ET.CONTAINER_START:
            stack.append(members)
    return None if stack else top


def named(c, tok, text):
    """A token of the system symbol with that text."""
    from amazon.ion.symbols import SYSTEM_SYMBOL_TABLE
    sid = [t.text for t in SYSTEM_SYMBOL_TABLE].index(text) + 1
    return tok is not None and tok.sid == sid


def declared(c, w, raw, what):
    """The texts of the local symbol table that was written; its imports are checked."""
    IT = R('IonType')
    top = tree(c, raw.log)
    c.prove(top is not None and len(top) == 1, what + ': one value')
    t, field, anns, members = top[0]
    c.prove(t is IT.STRUCT and field is None and len(anns) == 1 and named(c, anns[0], '$ion_symbol_table'), what + ': a struct annotated $ion_symbol_table')
    by = {}
    for m in members:
        for k in ('imports', 'symbols'):
            if named(c, m[1], k):
                c.prove(k not in by, what + ': %s once' % k)
                by[k] = m
    c.prove(len(by) == len(members), what + ': imports and symbols only')
    if 'imports' in by or w.imports:
        c.prove('imports' in by and by['imports'][0] is IT.LIST and not by['imports'][2], what + ': a list of imports')
        check_imports(c, w, by['imports'][3], what)
    if 'symbols' not in by:
        return []
    t, _, anns, texts = by['symbols']
    c.prove(t is IT.LIST and not anns, what + ': a list of symbols')
    c.prove(all(x[0] is IT.STRING and x[1] is None and not x[2] and isinstance(x[3], str) for x in texts), what + ': symbols are strings')
    return [x[3] for x in texts]


def check_imports(c, w, got, what):
    IT = R('IonType')
    c.prove(len(got) == len(w.imports or ()), what + ': every import is named')
    for g, t in zip(got, w.imports or ()):
        ok = g[0] is IT.STRUCT and g[1] is None and not g[2] and len(g[3]) == 3
        c.prove(ok, what + ': an import is a struct of three fields')
        for k, kind in (('name', IT.STRING), ('version', IT.INT), ('max_id', IT.INT)):
            fs = [f for f in g[3] if named(c, f[1], k)]
            c.prove(len(fs) == 1 and fs[0][0] is kind and not fs[0][2], what + ': an import has one %s' % k)
            c.prove(fs[0][3] == getattr(t, k), what + ': the %s of an import' % k)


def resolves(c, w, tok, sym, texts, what):
    """The ID of a token in the output stands for the symbol the application wrote."""
    text = sym if isinstance(sym, str) else sym.text
    c.prove(tok is not None and not isinstance(tok, str) and tok.sid is not None, what + ': written by its ID')
    if text is None:
        c.prove(tok.sid == sym.sid, what + ': the ID the application gave')
        return
    if text in w.provided:
        c.prove(tok.sid == w.provided[text], what + ': the ID that the system or an import provides')
        c.prove(text not in texts, what + ': a provided text is not declared again')
    else:
        c.prove(texts.count(text) == 1, what + ': declared once')
        c.prove(tok.sid == w.n + 1 + texts.index(text), what + ': the ID of its declaration')


def agree(c, w, sent, raw, texts, what):
    """The raw writer was sent the application's events, with IDs for symbols."""
    c.prove(len(raw.log) == len(sent), what + ': every value is written once')
    IT = R('IonType')
    for e, g in zip(sent, raw.log):
        c.prove(g.event_type is e.event_type and g.ion_type is e.ion_type and g.depth == e.depth, what + ': the same kind of event')
        if e.ion_type is IT.SYMBOL and e.value is not None:
            resolves(c, w, g.value, e.value, texts, what + ': a symbol')
        else:
            c.prove(g.value is e.value, what + ': the value')
        c.prove((g.field_name is None) == (e.field_name is None), what + ': a field name')
        if e.field_name is not None:
            resolves(c, w, g.field_name, e.field_name, texts, what + ': a field name')
        c.prove(len(g.annotations) == len(e.annotations), what + ': every annotation')
        for a, b in zip(g.annotations, e.annotations):
            resolves(c, w, a, b, texts, what + ': an annotation')


def used(sent):
    IT, out = R('IonType'), []
    for e in sent:
        if e.ion_type is IT.SYMBOL and e.value is not None:
            out.append(e.value)
        if e.field_name is not None:
            out.append(e.field_name)
        out += list(e.annotations)
    return set(s if isinstance(s, str) else s.text for s in out)


# ---------------------------------------------------------------------------------------------------------------
# events of an application

def symbol(c, n, w):
    """A symbol, in every form in which an application can give it."""
    Tok = R('SymbolToken', SYM)
    how = c.choice(n, ['x', 'token x', 'token x with sid', 'y', 'unknown', 'sid'])
    if how == 'unknown':
        return Tok(None, 0)
    if how == 'sid':
        s = c.int(n + ' sid', 1)
        c.assume(s <= w.n)
        return Tok(None, s)
    if how == 'token x':
        return Tok(u'x', None)
    if how == 'token x with sid':
        return Tok(u'x', c.int(n + ' sid', 0))
    return u'' + how


def event(c, n, w, kinds=None):
    ET, IT, Ev = R('IonEventType'), R('IonType'), R('IonEvent')
    kind = c.choice('event %s' % n, kinds or ['plain', 'symbol', 'null symbol', 'field', 'annotation', 'two annotations', 'all', 'container', 'end'])
    v = c.opaque('value %s' % n, nonnull=True)
    if kind == 'plain':
        return Ev(ET.SCALAR, IT.INT, v, None, (), 0)
    if kind == 'symbol':
        return Ev(ET.SCALAR, IT.SYMBOL, symbol(c, 'symbol %s' % n, w), None, (), 0)
    if kind == 'null symbol':
        return Ev(ET.SCALAR, IT.SYMBOL, None, None, (), 0)
    if kind == 'field':
        return Ev(ET.SCALAR, IT.INT, v, symbol(c, 'field %s' % n, w), (), 1)
    if kind == 'annotation':
        return Ev(ET.SCALAR, IT.STRING, v, None, (symbol(c, 'annotation %s' % n, w),), 0)
    if kind == 'two annotations':
        return Ev(ET.SCALAR, IT.FLOAT, v, None, (symbol(c, 'annotation %s' % n, w), u'y'), 0)
    if kind == 'all':
        return Ev(ET.SCALAR, IT.SYMBOL, u'x', u'y', (symbol(c, 'annotation %s' % n, w), u'z', u'x'), 1)
    if kind == 'container':
        return Ev(ET.CONTAINER_START, c.choice('container %s' % n, [IT.LIST, IT.STRUCT]), None, u'x', (u'y',), 1)
    return Ev(ET.CONTAINER_END, None, None, None, (), 0)


def imports_of(c, most=2):
    n = c.choice('imports', [None] + list(range(most + 1)))
    return None if n is None else [Imported(c, i) for i in range(n)]


def judge(c, w, sent, data, raws, what):
    """One segment: marker, symbol table, values."""
    if not sent:
        c.prove(not data, what + ': nothing is written for no values')
        return
    c.prove(data[:4] == IVM, what + ': a version marker first')
    rest = data[4:]
    texts, table, values = [], None, None
    for r in raws:
        own = b'<%d.0><%d.1>' % (r.n, r.n)
        if rest.startswith(own):
            rest = rest[len(own):]
            if table is None and values is None and (len(tree(c, r.log) or []) == 1 and len(tree(c, r.log)[0][2]) == 1 and
                                                     not isinstance(tree(c, r.log)[0][2][0], str) and named(c, tree(c, r.log)[0][2][0], '$ion_symbol_table')):
                table = r
            elif values is None:
                values = r
    c.prove(not rest, what + ': the symbol table, the values, and nothing else')
    c.prove(values is not None, what + ': the values are written')
    if table is not None:
        texts = declared(c, w, table, what + ' table')
    else:
        c.prove(not w.imports, what + ': imports are named')
    c.prove(set(texts) <= used(sent), what + ': only what the segment uses is declared')
    c.prove(len(texts) == len(set(texts)), what + ': nothing is declared twice')
    agree(c, w, sent, values, texts, what)


def order(raws):
    """Raw writers in the order in which they can come out."""
    return sorted(raws, key=lambda r: r.n)


def segments(k, kinds=None, second=None, imports=1):
    def unit(c):
        END, MARK = R('ION_STREAM_END_EVENT'), R('ION_VERSION_MARKER_EVENT')
        w = World(c, imports_of(c, imports) if imports else None)
        with w.made():
            writer = R('binary_writer', WB)(w.imports) if c.choice('imports are given', [1, 0] if w.imports is None else [1]) else R('binary_writer', WB)()
            for s, n in enumerate([k] if second is None else [k, second]):
                before = len(w.raws)
                data, sent = b'', []
                # raw writers of this segment: those not yet ended
                if c.choice('marker %d' % s, [False, True] if s == 0 else [False]):
                    out, _ = w.send(writer, MARK)
                    c.prove(out == IVM, 'a version marker is written when asked for')
                    data += out
                for i in range(n):
                    e = event(c, '%d.%d' % (s, i), w, kinds if s == 0 else ['symbol', 'annotation'])
                    sent.append(e)
                    out, _ = w.send(writer, e)
                    data += out
                alive = [r for r in w.raws if not r.ended]
                out, t = w.send(writer, END)
                data += out
                c.prove(t is R('WriteEventType', W).COMPLETE, 'the segment is complete')
                if data == IVM and not sent:
                    continue
                used_raws = [r for r in alive if r.ended]
                # the table may have been created before or after the values
                judge(c, w, sent, data, sorted(used_raws, key=lambda r: data.find(b'<%d.0>' % r.n)), 'segment %d' % (s + 1))
    return unit


# ---------------------------------------------------------------------------------------------------------------
# any number of events, any number of segments: the writer keeps nothing else

def start(c, w):
    return R('binary_writer', WB)(w.imports)


def alike(c, a, b, what):
    def equal(x, y):
        if isinstance(x, (Raw, Table)) and type(x) is type(y):
            return True
        if isinstance(x, (Raw, Table)) or isinstance(y, (Raw, Table)):
            return False
        if type(x) is not type(y):
            return None
        if type(x).__name__ in ('IonEvent', 'DataEvent', 'BufferTree'):
            return True             # the last event and its result; buffers belong to the raw writers
        return None
    d = frames.same_state(a, b, equal)
    c.prove(d is None, '%s (%s)' % (what, d), kind='shape')


def state(c, how, imports):
    """A writer after a history."""
    ET, IT, Ev = R('IonEventType'), R('IonType'), R('IonEvent')
    w = World(c, imports, provided={u'x': False, u'y': False})
    evs = {'v': Ev(ET.SCALAR, IT.INT, 1, None, (), 0), 'x': Ev(ET.SCALAR, IT.SYMBOL, u'x', None, (), 0),
           'f': Ev(ET.SCALAR, IT.INT, 1, u'y', (u'x',), 0), '.': R('ION_STREAM_END_EVENT'), 'c': Ev(ET.CONTAINER_START, IT.LIST, None, None, (), 0),
           'e': Ev(ET.CONTAINER_END, None, None, None, (), 0), 'm': R('ION_VERSION_MARKER_EVENT')}
    with w.made():
        writer = start(c, w)
        for h in how:
            w.send(writer, evs[h])
    return writer


HISTORIES = [('a segment leaves nothing behind', ['v.', 'x.', 'vxfcxe.', 'v.x.', 'mv.', '.v.']),
             ('after values without local symbols', ['v', 'vv', 'vce', 'x.v', 'mv', 'vf.vv', '.v']),
             ('after values with local symbols', ['x', 'xx', 'vx', 'fxv', 'x.x', 'f.vvx', 'xvce'])]


def histories(c):
    what, hs = c.choice('state', HISTORIES)
    imports = imports_of(c, 1)
    for h in hs[1:]:
        alike(c, state(c, hs[0], imports), state(c, h, imports), '%s: after %s as after %s' % (what, hs[0], h))


def misuse(c):
    """A version marker among values, and tables that cannot be imported."""
    MARK, Exc = R('ION_VERSION_MARKER_EVENT'), R('IonException', 'amazon.ion.exceptions')
    what = c.choice('what', ['marker', 'import'])
    if what == 'marker':
        w = World(c, imports_of(c, 1))
        with w.made():
            writer = start(c, w)
            w.send(writer, event(c, 'first', w))
            try:
                out, _ = w.send(writer, MARK)
                c.prove(False, 'a version marker among the values of a segment is rejected')
            except Exc:
                pass
    else:
        n = c.choice('local table at', [0, 1, 2])
        w = World(c, [Imported(c, i, shared=i != n) for i in range(3)])
        with w.made():
            writer = start(c, w)
            try:
                w.send(writer, event(c, 'first', w))
                w.send(writer, R('ION_STREAM_END_EVENT'))
                c.prove(False, 'a table that is not shared cannot be imported')
            except Exc:
                pass


UNITS = []
COROS = [WB + ':_symbol_table_coroutine', WB + ':_managed_binary_writer_coroutine', WB + ':_raw_symbol_writer', WB + ':binary_writer']


def unit(name, fn, **kw):
    UNITS.append(Unit('C12.' + name, fn, of=COROS, **kw))


KINDS = ['plain', 'symbol', 'null symbol', 'field', 'annotation', 'two annotations', 'all', 'container', 'end']
unit('no event', segments(0))
unit('one event', segments(1))
for _k in KINDS:
    unit('two events, first %s' % _k, (lambda k: lambda c: two(c, k))(_k))
for _k in ['symbol', 'all', 'plain']:
    unit('two segments, first %s' % _k, segments(1, [_k], 1))
unit('empty segment between', segments(0, None, 1))
unit('histories', histories)
unit('misuse', misuse)


def two(c, k):
    first = [True]

    class Ctx(object):
        def choice(self, name, xs):
            if name == 'event 0.0':
                return k
            return c.choice(name, xs)

        def __getattr__(self, a):
            return getattr(c, a)
    segments(2, None, None, 0)(Ctx())


ASSUMPTIONS = ['the raw binary writer encodes the events it is sent (C01 to C04); SymbolTable assigns and finds IDs as C09 proves: both by contract',
               'texts in play are two or three arbitrary ones, each provided by a table or not']
