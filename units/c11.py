"""C11: readers resolve symbol IDs against the symbol table in force."""
from contextlib import contextmanager

from pyvc import frames
from pyvc import proxies as P
from pyvc import terms as T
from pyvc.contract import Unit, resolve

C = T.const
MR, SYM, CORE = 'amazon.ion.reader_managed', 'amazon.ion.symbols', 'amazon.ion.core'
SYSTEM = ('$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table')
SID = dict((t, i + 1) for i, t in enumerate(SYSTEM))


def R(name, mod=CORE):
    return resolve(mod + ':' + name)


def unsupported(c, why):
    if c.concrete:
        from pyvc.conc import Skip
        raise Skip()
    raise P.Unsupported(why)


def holds(c, cond):
    return bool(cond) if c.concrete else c.decide(P.as_cond(cond))


class Beyond(Exception):
    """An ID that the table in force does not have, or an import that cannot be resolved."""


# ---------------------------------------------------------------------------------------------------------------
# what the reader builds on, by contract: a raw reader (C06, C07), symbol tables (C09), a catalog (C10)

class System(object):
    """The system symbols."""
    system = True

    def __init__(self, c):
        self.c = c

    def lookup(self, sid):
        if isinstance(sid, int) and not 0 <= sid <= len(SYSTEM):
            raise Beyond()
        if isinstance(sid, int):
            return R('SYMBOL_ZERO_TOKEN', SYM) if sid == 0 else R('SymbolToken', SYM)(SYSTEM[sid - 1], sid, R('ImportLocation', SYM)('$ion', sid))
        raise Beyond()              # symbolic IDs are those beyond the system symbols


class Tab(object):
    """The k-th local symbol table: N symbols, the system symbols first; any other may have any text, or none."""
    system = False

    def __init__(self, c, k):
        self.c, self.k, self.n, self.known, self.made = c, k, c.int('symbols of table %d' % k, 9), [], None
        self.max_id = self.n
        self.table_type = R('LOCAL_TABLE_TYPE', SYM)

    def lookup(self, sid):
        c = self.c
        if isinstance(sid, int) and sid <= 9:
            return System(c).lookup(sid)
        if not holds(c, sid <= self.n):
            raise Beyond()
        for s, t in self.known:
            if holds(c, s == sid):
                return t
        text = c.choice('text %d of table %d' % (len(self.known), self.k), [u'some text', None] + ([u'$ion_symbol_table'] if c.ghost.get('special') == 'lst' else
                                                                          [u'$ion_1_0'] if c.ghost.get('special') == 'ivm' else []))
        t = R('SymbolToken', SYM)(text, sid, c.choice('%d of table %d is imported' % (len(self.known), self.k), [None, R('ImportLocation', SYM)(u'p', 1)])
                                  if text is None else None)
        self.known.append((sid, t))
        return t

    def get(self, key, default=None):
        if not P.intlike(key) or isinstance(key, bool):
            unsupported(self.c, 'a lookup by text')
        if not holds(self.c, key >= 0):
            return default
        try:
            return self.lookup(key)
        except Beyond:
            return default

    def __getitem__(self, k):
        t = self.get(k)
        if t is None:
            raise KeyError(k)
        return t
    vc_getitem = __getitem__

    def __getattr__(self, k):
        unsupported(self.__dict__['c'], 'a use of the symbol table that its contract does not describe')


class Shared(object):
    """A table from the catalog."""

    def __init__(self, k):
        self.k = k


class Catalog(object):
    """Resolves every import, or refuses one without a maximum."""

    def __init__(self, c):
        self.c, self.calls, self.answers = c, [], {}

    def answer(self, i, max_id):
        if i not in self.answers:
            self.answers[i] = Shared(i)
            if max_id is None and self.c.choice('import %d cannot be resolved' % i, [0, 1]):
                self.answers[i] = None
        if self.answers[i] is None:
            raise Beyond()
        return self.answers[i]

    def resolve(self, name, version, max_id):
        self.calls.append((name, version, max_id))
        try:
            return self.answer(len(self.calls) - 1, max_id)
        except Beyond:
            raise R('CannotSubstituteTable', 'amazon.ion.exceptions')('no such table')


class World(object):
    def __init__(self, c):
        self.c, self.tables, self.made, self.catalog, self.system = c, {}, 0, Catalog(c), System(c)

    def table(self, k):
        if k not in self.tables:
            self.tables[k] = Tab(self.c, k)
        return self.tables[k]

    @contextmanager
    def building(self):
        import importlib
        m = importlib.import_module(MR)
        if 'SymbolTable' not in vars(m):
            unsupported(self.c, 'tables are built in another way')
        real = m.SymbolTable

        def table(table_type, symbols, name=None, version=None, imports=None, **kw):
            if kw or table_type is not m.LOCAL_TABLE_TYPE or name is not None or version is not None:
                unsupported(self.c, 'another kind of table')
            t = self.table(self.made)
            self.made += 1
            t.made = (list(symbols), list(imports or ()))
            return t
        m.SymbolTable = table
        try:
            yield
        finally:
            m.SymbolTable = real


class Raw(object):
    """The raw reader: it gives the events of a stream, whole containers are skipped when asked, and it may run out of
    input before any of them."""

    def __init__(self, c, events, pause=()):
        self.c, self.events, self.i, self.pause, self.waiting, self.log = c, events, 0, set(pause), False, []

    def send(self, de):
        RT = R('ReadEventType', 'amazon.ion.reader')
        t = RT.NEXT if de is None else de.type
        self.log.append(t)
        if self.waiting:
            self.c.prove(t is RT.DATA, 'only more input lets a reader go on')
            self.waiting = False
        elif t is RT.DATA:
            self.c.prove(False, 'no input was given')
        if t is RT.SKIP:
            e = self.events[self.i - 1] if self.i else None
            ET = R('IonEventType')
            ok = e is not None and (e.event_type is ET.CONTAINER_START or e.depth > 0)
            self.c.prove(ok, 'only a container can be skipped')
            d = e.depth if e.event_type is ET.CONTAINER_START else e.depth - 1
            while not (self.events[self.i].event_type is ET.CONTAINER_END and self.events[self.i].depth == d):
                self.i += 1
        if self.i in self.pause:
            self.pause.discard(self.i)
            self.waiting = True
            return R('ION_STREAM_INCOMPLETE_EVENT')
        if self.i >= len(self.events):
            return R('ION_STREAM_END_EVENT')
        self.i += 1
        return self.events[self.i - 1]

    def __getattr__(self, k):
        unsupported(self.__dict__['c'], 'a use of the raw reader that its contract does not describe')


# ---------------------------------------------------------------------------------------------------------------
# streams, and what they denote

class N(object):
    """A value in a stream (or a version marker) with raw symbols."""

    def __init__(self, kind, ion_type=None, value=None, field=None, anns=(), members=()):
        self.kind, self.ion_type, self.value, self.field, self.anns, self.members = kind, ion_type, value, field, tuple(anns), list(members)


def events(nodes, depth=0):
    ET, Ev = R('IonEventType'), R('IonEvent')
    out = []
    for n in nodes:
        if n.kind == 'ivm':
            out.append(R('ION_VERSION_MARKER_EVENT'))
        elif n.kind == 'scalar':
            out.append(Ev(ET.SCALAR, n.ion_type, n.value, n.field, n.anns, depth))
        else:
            out.append(Ev(ET.CONTAINER_START, n.ion_type, None, n.field, n.anns, depth))
            out += events(n.members, depth + 1)
            out.append(Ev(ET.CONTAINER_END, n.ion_type, None, None, (), depth))
    return out


def token(force, tok):
    return tok if tok.text is not None else force.lookup(tok.sid)


def text_of(force, tok):
    return token(force, tok).text


def attempt(f, *a):
    """The result, or the error."""
    try:
        return f(*a)
    except Beyond as e:
        return e


def denote(c, w, nodes):
    """The user's events, in order: (raw event, its table, last event of it), 'error', and what each local table is."""
    IT = R('IonType')
    force, out, descriptions = w.system, [], []
    calls = []
    for n in nodes:
        if n.kind == 'ivm':
            force = w.system
            continue
        try:
            if n.kind == 'scalar' and n.ion_type is IT.SYMBOL and not n.anns and n.value is not None and text_of(force, n.value) == u'$ion_1_0':
                continue
            if n.kind == 'container' and n.ion_type is IT.STRUCT and n.anns and text_of(force, n.anns[0]) == u'$ion_symbol_table':
                descriptions.append(describe(c, w, force, n, calls))
                force = w.table(len(descriptions) - 1)
                continue
        except Beyond:
            out.append('error')
            break
        for e in events([n]):
            out.append((e, force))
    return out, descriptions, calls


def describe(c, w, force, n, calls):
    """(texts, tables imported) of a local symbol table."""
    IT = R('IonType')
    texts, imports = [], []
    for m in n.members:
        f = text_of(force, m.field)
        if f == u'symbols' and m.kind == 'container' and m.ion_type is IT.LIST:
            texts += [x.value if x.kind == 'scalar' and x.ion_type is IT.STRING else None for x in m.members]
        elif f == u'imports' and m.kind == 'scalar' and m.ion_type is IT.SYMBOL and m.value is not None:
            if text_of(force, m.value) == u'$ion_symbol_table':
                imports = [] if force.system else [force]
        elif f == u'imports' and m.kind == 'container' and m.ion_type is IT.LIST:
            for im in m.members:
                if im.kind == 'container' and im.ion_type is IT.STRUCT:
                    got = {}
                    for x in im.members:
                        fx = text_of(force, x.field)
                        if x.kind == 'scalar' and x.ion_type is {u'name': IT.STRING, u'version': IT.INT, u'max_id': IT.INT}.get(fx):
                            got[fx] = x.value
                    if not got.get(u'name') or got[u'name'] == u'$ion':
                        continue
                    ver, mx = got.get(u'version'), got.get(u'max_id')
                    if ver is None or not holds(c, ver >= 1):
                        ver = 1
                    if mx is not None and not holds(c, mx >= 0):
                        mx = None
                    calls.append((got[u'name'], ver, mx))
                    imports.append(w.catalog.answer(len(calls) - 1, mx))
    return texts, imports


# ---------------------------------------------------------------------------------------------------------------
# judging

def same(a, b):
    """Whether two tokens are the same (and whether two IDs are)."""
    return a is b or type(a) is type(b) and a.text == b.text and a.location == b.location and (a.sid is b.sid or T_eq(a.sid, b.sid))


def T_eq(a, b):
    if a is None or b is None:
        return a is b
    c = P.ctx()
    return bool(a == b) if c is None or c.concrete else c.valid(P.as_cond(a == b))


def attribute(c, e, name, want, what):
    """An attribute is the tokens expected, or it is an error."""
    Exc = R('IonException', 'amazon.ion.exceptions')
    try:
        got = getattr(e, name)
    except Exc:
        got = 'error'
    many = name == 'annotations'
    wants = want if many else (want,)
    if any(isinstance(x, Beyond) for x in wants):
        c.prove(got == 'error' if isinstance(got, str) else False, what + ': an ID beyond the table is an error')
        return False
    c.prove(not isinstance(got, str), what + ': an ID of the table is no error')
    gots = got if many else (got,)
    c.prove(len(gots) == len(wants), what + ': all of them')
    for g, x in zip(gots, wants):
        if x is None:
            c.prove(g is None, what + ': there is none')
        else:
            c.prove(g is not None and type(g) is type(x) and same(g, x), what + ': the token of the table in force')
    return True


def reported(c, e, raw, force, what):
    IT = R('IonType')
    c.prove(e.event_type is raw.event_type and e.ion_type is raw.ion_type and e.depth == raw.depth, what + ': the kind of event')
    attribute(c, e, 'field_name', None if raw.field_name is None else attempt(token, force, raw.field_name), what + ' field name')
    attribute(c, e, 'annotations', tuple(attempt(token, force, a) for a in raw.annotations), what + ' annotations')
    if raw.ion_type is IT.SYMBOL and raw.value is not None:
        attribute(c, e, 'value', attempt(token, force, raw.value), what + ' value')
    else:
        c.prove(e.value is raw.value, what + ': the value')


def read(c, nodes, pause=(), skip=False, catalog=True):
    """Reads a stream, and compares everything with what it denotes."""
    ET, RD = R('IonEventType'), resolve('amazon.ion.reader:read_data_event')
    NEXT, SKIP = R('NEXT_EVENT', 'amazon.ion.reader'), R('SKIP_EVENT', 'amazon.ion.reader')
    Exc = R('IonException', 'amazon.ion.exceptions')
    w = World(c)
    want, descriptions, calls = denote(c, w, nodes)
    evs = events(nodes)
    with w.building():
        raw = Raw(c, evs, pause)
        reader = R('managed_reader', MR)(raw, w.catalog)
        ask, pauses = NEXT, 0
        i = 0
        while True:
            try:
                e = reader.send(ask)
            except Exc:
                c.prove(i < len(want) and want[i] == 'error', 'an error is only reported for an ID or an import that there is not')
                break
            if e.event_type is ET.INCOMPLETE:
                pauses += 1
                if pauses > len(evs) + 1:
                    c.prove(False, 'input is asked for again and again')
                ask = RD(b'more')
                continue
            if i >= len(want):
                c.prove(e.event_type is ET.STREAM_END, 'nothing but the values of the stream is reported')
                break
            c.prove(want[i] != 'error', 'an ID or an import that there is not is an error')
            c.prove(e.event_type is not ET.STREAM_END, 'every value is reported')
            r, force = want[i]
            reported(c, e, r, force, 'event')
            i += 1
            ask = NEXT
            if skip and r.event_type is ET.CONTAINER_START and c.choice('skip %d' % i, [0, 1]):
                ask = SKIP
                while not (want[i][0].event_type is ET.CONTAINER_END and want[i][0].depth == r.depth):
                    i += 1
    if i >= len(want):
        c.prove(w.made == len(descriptions), 'every symbol table is processed')
    for k in range(min(w.made, len(descriptions))):
        texts, imports = w.tables[k].made
        c.prove(len(texts) == len(descriptions[k][0]) and all(a is b or a == b for a, b in zip(texts, descriptions[k][0])), 'the symbols of a table, in order')
        c.prove(len(imports) == len(descriptions[k][1]) and all(a is b for a, b in zip(imports, descriptions[k][1])), 'the imports of a table, in order')
    c.prove(len(w.catalog.calls) <= len(calls), 'nothing else is imported')
    for a, b in zip(w.catalog.calls, calls):
        c.prove(a[0] == b[0] and T_eq(a[1], b[1]) and T_eq(a[2], b[2]), 'an import is resolved by its name, version and maximum')


# ---------------------------------------------------------------------------------------------------------------
# ingredients

def tok(x):
    """A token by text, or by ID."""
    Tok = R('SymbolToken', SYM)
    return Tok(x, None) if isinstance(x, str) else Tok(None, x)


def known(c, n, text):
    """A system symbol, by text or by ID."""
    return tok(text) if c.choice(n + ' by', ['text', 'sid']) == 'text' else tok(SID[text])


def any_token(c, n, more=()):
    k = c.choice(n, ['sid', 'zero', 'system', 'text', 'empty text'] + list(more))
    if k == 'sid':
        return tok(c.int(n + ' sid', 10))
    if k == 'zero':
        return tok(0)
    if k == 'system':
        return tok(4)
    if k == 'text':
        return tok(u'x')
    if k == 'empty text':
        return tok(u'')
    return known(c, n, k)


def scalar(c, t=None, v=None, **kw):
    return N('scalar', R('IonType').INT if t is None else t, v, **kw)


VALUES = ['plain', 'symbol', 'null symbol', 'annotated', 'annotated symbol', 'list', 'struct', 'sexp']


def value(c, n, field=None, special=None, kind=None):
    """Any user value (or, at the top level, one that only looks like another thing)."""
    IT = R('IonType')
    kw = dict(field=field)
    v = c.opaque('contents %s' % n, nonnull=True)
    more = [special] if special else []
    if kind == 'plain':
        return N('scalar', IT.STRING, v, **kw)
    if kind == 'symbol':
        return N('scalar', IT.SYMBOL, any_token(c, 'symbol %s' % n, more), **kw)
    if kind == 'null symbol':
        return N('scalar', IT.SYMBOL, None, **kw)
    if kind == 'annotated':
        return N('scalar', IT.INT, v, anns=[any_token(c, 'annotation %s' % n, more), tok(c.int('second %s' % n, 10))], **kw)
    if kind == 'annotated symbol':
        return N('scalar', IT.SYMBOL, any_token(c, 'symbol %s' % n, more), anns=[tok(u'a')], **kw)
    t = {'list': IT.LIST, 'struct': IT.STRUCT, 'sexp': IT.SEXP}[kind]
    anns = [[], ['ann'], ['ann', 'x']][c.choice('annotations %s' % n, [0, 1, 2])]
    anns = [any_token(c, 'annotation %s' % n, more) if a == 'ann' else tok(u'second') if kind == 'struct' else tok(c.int('second %s' % n, 10)) for a in anns]
    f = tok(c.int('field %s' % n, 10)) if kind == 'struct' else None
    members = [N('scalar', IT.SYMBOL, tok(u'in') if kind == 'struct' else tok(c.int('inner symbol %s' % n, 10)), field=f),
               N('scalar', IT.SYMBOL, tok(2), field=tok(SID['symbols']) if kind == 'struct' else None),
               N('container', IT.STRUCT, anns=[tok(SID['$ion_symbol_table'])], field=f, members=[N('container', IT.LIST, field=tok(u'symbols'))])]
    return N('container', t, members=members, anns=anns, **kw)


def lst(c, members, ann=None):
    return N('container', R('IonType').STRUCT, anns=[ann or tok(u'$ion_symbol_table')], members=members)


def symbols(c, xs, field=None):
    return N('container', R('IonType').LIST, members=xs, field=field or tok(u'symbols'))


def use(c):
    """A value that uses IDs of the table in force."""
    IT = R('IonType')
    return N('scalar', IT.SYMBOL, tok(c.int('used sid', 10)))


def element(c, n):
    """An element of a symbols list."""
    IT = R('IonType')
    k = c.choice('element %s' % n, ['text', 'null string', 'symbol', 'int', 'list', 'struct'])
    if k == 'text':
        return N('scalar', IT.STRING, u'text %s' % n)
    if k == 'null string':
        return N('scalar', IT.STRING, None)
    if k == 'symbol':
        return N('scalar', IT.SYMBOL, tok(u'x'))
    if k == 'int':
        return N('scalar', IT.INT, c.opaque('int %s' % n, nonnull=True))
    inner = N('scalar', IT.STRING, u'inner', field=tok(u'symbols') if k == 'struct' else None)
    return N('container', IT.LIST if k == 'list' else IT.STRUCT, members=[inner])


def import_field(c, n, kinds=None):
    IT = R('IonType')
    k = c.choice('field %s' % n, kinds or ['name', 'version', 'max_id', 'other'])
    f = known(c, 'field %s' % n, k) if k != 'other' else any_token(c, 'field %s' % n)
    how = c.choice('how %s' % n, ['right', 'null', 'wrong', 'container'])
    t = IT.STRING if k == 'name' else IT.INT
    if how == 'container':          # its field name need not be resolved
        return N('container', IT.LIST, field=f if k != 'other' else tok(4), members=[N('scalar', t, u'inner' if k == 'name' else 5)])
    if how == 'wrong':
        t = IT.SYMBOL if t is IT.STRING else IT.DECIMAL
        return N('scalar', t, tok(u'p') if t is IT.SYMBOL else c.opaque('wrong %s' % n, nonnull=True), field=f)
    if how == 'null':
        return N('scalar', t, None, field=f)
    if k == 'name':
        return N('scalar', t, c.choice('name %s' % n, [u'p', u'', u'$ion']), field=f)
    return N('scalar', t, c.int('number %s' % n), field=f)


def an_import(c, members, kind='struct'):
    return N('container', R('IonType').STRUCT, members=members)


def name_field():
    return N('scalar', R('IonType').STRING, u'p', field=tok(u'name'))


def imports(c, xs):
    return N('container', R('IonType').LIST, members=xs, field=tok(u'imports'))


def prefix(c):
    """A stream that leaves the system symbols, or a local table, in force."""
    k = c.ghost.get('before') or c.choice('before', ['nothing', 'table', 'marker'])
    if k == 'nothing':
        return []
    out = [lst(c, [symbols(c, [])])]
    return out + [N('ivm')] if k == 'marker' else out


# ---------------------------------------------------------------------------------------------------------------
# units

def user_value(special, kind):
    def unit(c):
        c.ghost['special'] = {'$ion_symbol_table': 'lst', '$ion_1_0': 'ivm'}.get(special)
        read(c, prefix(c) + [value(c, 'v', special=special, kind=kind)] + [use(c)])
    return unit


def in_symbols(n):
    def unit(c):
        k = c.choice('elements', list(range(n + 1)))
        read(c, prefix(c) + [lst(c, [symbols(c, [element(c, i) for i in range(k)])])] + [use(c)])
    return unit


def one_import(kinds):
    def unit(c):
        ms = [import_field(c, i, [k] if k else None) for i, k in enumerate(kinds)]
        read(c, prefix(c) + [lst(c, [imports(c, [an_import(c, ms)]), symbols(c, [])]), use(c)])
    return unit


def import_list(c):
    IT = R('IonType')

    def item(n):
        k = c.choice('item %s' % n, ['import', 'nameless', 'named with max', 'list', 'null struct', 'symbol'])
        if k == 'import':
            return an_import(c, [name_field()])
        if k == 'nameless':
            return an_import(c, [])
        if k == 'named with max':
            return an_import(c, [N('scalar', IT.INT, c.int('max %s' % n), field=tok(u'max_id')), name_field()])
        if k == 'list':
            return N('container', IT.LIST, members=[an_import(c, [name_field()])])
        if k == 'null struct':
            return N('scalar', IT.STRUCT, None)
        return N('scalar', IT.SYMBOL, tok(SID['$ion_symbol_table']))
    k = c.choice('items', [0, 1, 2])
    read(c, prefix(c) + [lst(c, [imports(c, [item(i) for i in range(k)])]), use(c)])


def table_field(c, n, k):
    """A field of a symbol table."""
    IT = R('IonType')
    f = known(c, 'field %s' % n, 'imports' if k.startswith('imports') else 'symbols') if k != 'other' else any_token(c, 'field %s' % n)
    if k == 'symbols':
        return symbols(c, [N('scalar', IT.STRING, u'text %s' % n)], f)
    if k == 'imports':
        return N('container', IT.LIST, field=f, members=[an_import(c, [name_field()])])
    if k == 'imports of the current table':
        return N('scalar', IT.SYMBOL, any_token(c, 'imported %s' % n, ['$ion_symbol_table']), field=f)
    how = c.choice('how %s' % n, ['struct', 'scalar'] if k == 'other' and c.ghost.get('special') else ['null', 'sexp', 'struct', 'scalar', 'null symbol'])
    if how == 'null':
        return N('scalar', IT.LIST, None, field=f)
    if how == 'null symbol':
        return N('scalar', IT.SYMBOL, None, field=f)
    if how == 'scalar':
        return N('scalar', IT.STRING, u'$ion_symbol_table', field=f)
    inner = [N('container', IT.LIST, field=tok(u'symbols') if how == 'struct' else None, members=[N('scalar', IT.STRING, u'inner')])]
    return N('container', IT.SEXP if how == 'sexp' else IT.STRUCT, field=f, members=inner)


FIELDS = ['symbols', 'imports', 'imports of the current table', 'imports of another kind', 'symbols of another kind', 'other']


def table_fields(a, b):
    def unit(c):
        c.ghost['special'] = 'lst' if 'imports of the current table' in (a, b) else None
        fields = [table_field(c, 'a', a)] + ([table_field(c, 'b', b)] if b else [])
        read(c, prefix(c) + [lst(c, fields, known(c, 'annotation', '$ion_symbol_table') if b is None else None), use(c)])
    return unit


def item(c, n, k):
    IT = R('IonType')
    if k == 'marker':
        return N('ivm')
    if k == 'symbol like a marker':
        return N('scalar', IT.SYMBOL, tok(2))
    if k == 'table':
        return lst(c, [symbols(c, [N('scalar', IT.STRING, u'text %s' % n)])])
    if k == 'extension':
        return lst(c, [N('scalar', IT.SYMBOL, tok(3), field=tok(6)), symbols(c, [N('scalar', IT.STRING, u'text %s' % n)])])
    if k == 'import':
        return lst(c, [imports(c, [an_import(c, [name_field(), N('scalar', IT.INT, 3, field=tok(u'max_id'))])])])
    if k == 'value':
        return N('scalar', IT.SYMBOL, tok(c.int('sid %s' % n, 10)))
    return N('container', IT.STRUCT, members=[N('scalar', IT.INT, 1, field=tok(c.int('sid %s' % n, 10)))])


ITEMS = ['marker', 'symbol like a marker', 'table', 'extension', 'import', 'value', 'container']


def stream(first, second):
    def unit(c):
        ks = [first]
        if second:
            ks += [second] + [x for x in [c.choice('item 2', [None] + ITEMS)] if x]
        read(c, [item(c, i, k) for i, k in enumerate(ks)] + [use(c)])
    return unit


def paused(c):
    """Input may run out anywhere."""
    IT = R('IonType')
    nodes = [N('ivm'), lst(c, [imports(c, [an_import(c, [name_field(), N('container', IT.LIST, field=tok(5)), N('scalar', IT.INT, 3, field=tok(8))]),
                                           N('container', IT.SEXP, members=[N('scalar', IT.INT, 1)])]),
                               N('container', IT.STRUCT, field=tok(u'x'), members=[N('scalar', IT.INT, 1, field=tok(u'x'))]),
                               symbols(c, [N('scalar', IT.STRING, u'a'), N('container', IT.LIST, members=[N('scalar', IT.INT, 1)])])]),
             N('container', IT.LIST, members=[N('scalar', IT.INT, 1)]), item(c, 0, 'extension'), use(c)]
    n = len(events(nodes))
    at = c.choice('pause', list(range(n + 1)))
    more = c.choice('also before', [None, 'next', 'all'])
    read(c, nodes, [at] if more is None else [at, at + 1] if more == 'next' else range(n + 1))


def skipped(kind):
    """Containers that the user skips."""
    def unit(c):
        table = c.choice('table', [0, 1])
        read(c, ([item(c, 0, 'table')] if table else []) + [value(c, 'v', kind=kind)] + [item(c, 1, 'table')], skip=True)
    return unit


def wrong_marker(c):
    ET, Ev, Exc = R('IonEventType'), R('IonEvent'), R('IonException', 'amazon.ion.exceptions')
    major, minor = c.int('major', 0), c.int('minor', 0)
    bad = major != 1 if c.choice('which', ['major', 'minor']) == 'major' else minor != 0
    c.assume(bad)
    w = World(c)
    reader = R('managed_reader', MR)(Raw(c, [Ev(ET.VERSION_MARKER, None, (major, minor), None, (), 0)]), w.catalog)
    try:
        reader.send(R('NEXT_EVENT', 'amazon.ion.reader'))
    except Exc:
        c.prove(True, 'a marker of another version is an error')
        return
    c.prove(False, 'a marker of another version is an error')


def no_catalog(c):
    """Without a catalog, every import is of unknown symbols."""
    Exc = R('IonException', 'amazon.ion.exceptions')
    IT = R('IonType')
    k = c.choice('maximum', [None, 0, 3])
    m = [] if k is None else [N('scalar', IT.INT, k, field=tok(u'max_id'))]
    nodes = [lst(c, [imports(c, [an_import(c, [name_field()] + m)]), symbols(c, [N('scalar', IT.STRING, u'a')])]),
             N('scalar', IT.SYMBOL, tok(10 + (k or 0)))]
    reader = R('managed_reader', MR)(Raw(c, events(nodes)))
    try:
        v = reader.send(R('NEXT_EVENT', 'amazon.ion.reader')).value
    except Exc:
        c.prove(k is None, 'an import of known extent is no error')
        return
    c.prove(k is not None and v.text == u'a', 'symbols follow the unknown ones')


# ---------------------------------------------------------------------------------------------------------------
# any number of elements, imports, fields, values: the reader keeps nothing but the table and what it has collected

def state(c, nodes, stop):
    """A reader after a history; it is stopped by the raw reader running out of input at the end."""
    w = World(c)
    evs = events(nodes)
    n = len(evs) - stop
    with w.building():
        reader = R('managed_reader', MR)(Raw(c, evs, [n]), w.catalog)
        NEXT, ET = R('NEXT_EVENT', 'amazon.ion.reader'), R('IonEventType')
        for _ in range(n + 1):
            e = reader.send(NEXT)
            if e.event_type is ET.INCOMPLETE:
                return reader
    unsupported(c, 'the reader does not report that input ran out')


COLLECTED = ('symbols', 'imports')


def alike(c, a, b, what):
    def equal(x, y):
        if isinstance(x, (Raw, Tab, Catalog, Shared)) and type(x) is type(y):
            return True
        if type(x) is not type(y):
            return None
        if type(x).__name__ in ('IonEvent', '_IonManagedThunkEvent', 'DataEvent'):
            return True             # the last event
        if type(x) is list and (all(isinstance(i, (str, Shared, type(None))) for i in x + y)):
            return True             # the texts, or the tables, collected
        return None
    d = frames.same_state(a, b, equal)
    c.prove(d is None, '%s (%s)' % (what, d), kind='shape')


def histories(c):
    IT = R('IonType')
    what = c.choice('what', ['symbols', 'imports', 'import', 'fields', 'values', 'reset'])
    S = lambda t: N('scalar', IT.STRING, t)
    L = lambda *xs: N('container', IT.LIST, members=list(xs))
    named = lambda *xs: an_import(c, [name_field(), N('scalar', IT.INT, 3, field=tok(u'max_id'))] + list(xs))
    if what == 'symbols':
        hs = [[S(u'a')], [S(u'a'), S(u'b')], [L(S(u'x')), S(u'a')], [S(None), S(u'a')], [N('scalar', IT.INT, 1), S(u'a')]]
        hs = [([lst(c, [symbols(c, h)])], 2) for h in hs]
    elif what == 'imports':
        hs = [[named()], [named(), named()], [an_import(c, []), named()], [L(named()), named()], [S(u'x'), named()]]
        hs = [([lst(c, [imports(c, h)])], 2) for h in hs]
    elif what == 'import':
        F = lambda k: N('scalar', IT.INT, 1, field=tok(k))
        hs = [[F(u'x')], [F(u'x'), F(u'y')], [N('container', IT.LIST, members=[F(u'a')], field=tok(u'version')), F(u'x')]]
        hs = [([lst(c, [imports(c, [an_import(c, h)])])], 3) for h in hs]
    elif what == 'fields':
        F = lambda k: N('scalar', IT.INT, 1, field=tok(k))
        hs = [[F(u'x')], [F(u'x'), F(u'y')], [N('container', IT.STRUCT, members=[F(u'symbols')], field=tok(u'y')), F(u'x')]]
        hs = [([lst(c, h)], 1) for h in hs]
    elif what == 'values':
        V = lambda: N('scalar', IT.INT, 1)
        hs = [([V()], 0), ([V(), V()], 0), ([L(S(u'a')), V()], 0), ([N('ivm'), V()], 0)]
        T_ = lambda: lst(c, [symbols(c, [S(u'a')])])
        if c.choice('after a table', [0, 1]):
            hs = [([T_()] + h, s) for h, s in hs[:3]] + [([T_(), T_(), V()], 0), ([T_(), N('ivm'), T_(), V()], 0)]
    else:
        T_ = lambda: lst(c, [symbols(c, [S(u'a')])])
        hs = [([T_(), N('ivm')], 0), ([T_(), S(u'x'), N('ivm')], 0), ([T_(), N('ivm'), N('ivm')], 0)]
    first = state(c, *hs[0])
    for h in hs[1:]:
        alike(c, first, state(c, *h), 'any number of %s' % what)


def resolution(c):
    """A context resolves every token in its table."""
    Exc = R('IonException', 'amazon.ion.exceptions')
    w = World(c)
    t = w.table(0)
    ctx = R('_ManagedContext', MR)(w.catalog, t)
    x = any_token(c, 'token', ['$ion_symbol_table'])
    want = attempt(token, t, x)
    try:
        got = ctx.resolve(x)
    except Exc:
        c.prove(isinstance(want, Beyond), 'an ID of the table is no error')
        return
    c.prove(not isinstance(want, Beyond), 'an ID beyond the table is an error')
    c.prove(same(got, want), 'the token of the table')


def under(how, fn, special=None):
    def unit(c):
        c.ghost['before'] = how
        if special:
            c.ghost['special'] = special
        fn(c)
    return unit


UNITS = []
OF = [MR + ':' + x for x in ('managed_reader', '_ManagedContext.resolve', '_ManagedContext.has_symbol_table_annotation', '_managed_thunk_event')]
HANDLERS = [MR + ':' + x for x in ('_local_symbol_table_handler', '_imports_handler', '_import_desc_handler', '_symbols_handler')]


def unit(name, fn, of=None, **kw):
    UNITS.append(Unit('C11.' + name, fn, of=of or OF, **kw))


unit('context', resolution)
BEFORE = [('', 'nothing'), (' after a table', 'table')]
for _w, _b in BEFORE + [(' after a marker', 'marker')]:
    for _s in (None, '$ion_symbol_table', '$ion_1_0'):
        for _k in VALUES:
            if _b != 'marker' or not _s and _k in ('symbol', 'list'):
                unit('user value, %s%s%s' % (_k, ' with %s' % _s if _s else '', _w), under(_b, user_value(_s, _k)))
unit('symbols', in_symbols(2), HANDLERS)
for _k in ('name', 'version', 'max_id', 'other'):
    unit('one import, %s' % _k, one_import([_k]), HANDLERS)
for _w, _b in BEFORE:
    for _a in (['name', 'version'], ['version', 'name'], ['name', 'max_id'], ['max_id', 'name'], ['name', 'other'], ['other', 'name']):
        unit('one import, %s then %s%s' % (tuple(_a) + (_w,)), under(_b, one_import(_a)), HANDLERS)
unit('imports', import_list, HANDLERS)
for _w, _b in BEFORE:
    for _f in FIELDS:
        for _g in [None] + [x for x in FIELDS if x == 'other' or x.split()[0] != _f.split()[0]]:
            if (_f, _g, _b) == ('other', 'other', 'table'):
                continue
            unit('table with %s%s%s' % (_f, ' and %s' % _g if _g else '', _w), under(_b, table_fields(_f, _g)), HANDLERS)
for _i in ITEMS:
    for _j in [None] + ITEMS:
        unit('stream from %s%s' % (_i, ' and %s' % _j if _j else ''), stream(_i, _j), OF + HANDLERS)
unit('input runs out', paused, OF + HANDLERS)
for _k in ('list', 'struct', 'sexp'):
    unit('skipping %s' % _k, skipped(_k), OF + HANDLERS)
unit('wrong marker', wrong_marker)
unit('no catalog', no_catalog)
unit('histories', histories, OF + HANDLERS)

ASSUMPTIONS = ['the raw reader gives the events of the stream (C06, C07); SymbolTable assigns IDs as C09 proves; the catalog resolves imports as C10 proves: each by contract',
               'a symbol table with repeated symbols or imports fields is outside the property']
