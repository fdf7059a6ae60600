"""C09: symbol tables assign and look up symbol IDs consistently."""
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve

C = T.const
SYM = 'amazon.ion.symbols'
SYSTEM = ('$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table')
OTHER = 'some other text'


def holds(c, cond):
    return bool(cond) if c.concrete else c.decide(P.as_cond(cond))


class Source(object):
    """A sequence of tokens (of a table) or texts, of any length; ``first`` is the position of the first one with the text
    in focus (0: there is none)."""

    def __init__(self, c, name, focus, table_type=None, texts=False):
        self.c, self.label, self.focus, self.table_type, self.texts = c, name, focus, table_type, texts
        self.n, self.first = c.fresh(name + '_length'), c.fresh(name + '_first')
        c.assume(T.and_(T.le(C(0), self.n), T.le(C(0), self.first), T.le(self.first, self.n)))
        self.name, self.version, self.max_id = (u'shared', 1, P.mkint(self.n)) if table_type is None or table_type.is_shared else (None, None, None)
        self.lead = 0
        self.now = None
        if table_type is not None and table_type.is_local:
            self.lead = len(SYSTEM)
            c.assume(T.le(C(self.lead), self.n))
            if focus in SYSTEM:
                c.assume(T.eq(self.first, C(SYSTEM.index(focus) + 1)))
            else:
                c.assume(T.or_(T.eq(self.first, C(0)), T.lt(C(self.lead), self.first)))

    def __len__(self):
        raise P.Unsupported('length of a sequence of any length')

    def vc_len(self):
        return P.mkint(self.n)

    def __iter__(self):
        raise P.Unsupported('iteration over a sequence of any length')

    def at(self, i):
        """The element at index i."""
        c, p = self.c, T.add(P.term(i), C(1))
        from amazon.ion.symbols import SymbolToken, ImportLocation
        if self.lead and c.decide(T.le(p, C(self.lead))):
            for k, t in enumerate(SYSTEM):
                if k == self.lead - 1 or c.decide(T.eq(p, C(k + 1))):
                    self.now = SymbolToken(t, k + 1, ImportLocation(u'$ion', k + 1))
                    return self.now
        if c.decide(T.eq(p, self.first)):
            text = self.focus
        elif c.decide(T.or_(T.lt(p, self.first), T.eq(self.first, C(0)))):
            text = c.choice('text', [None, OTHER])
        else:
            text = c.choice('text', [None, OTHER, self.focus])
        if self.texts:
            self.now = text
        else:
            loc = ImportLocation(u'elsewhere', 3)
            if self.lead:
                loc = c.choice('location', [None, loc])
                if loc is None and text is None:
                    pass
            self.now = SymbolToken(text, P.mkint(p), loc)
        return self.now

    def count(self, i):
        """How many of the first i elements are added to a table."""
        return T.ite(T.lt(i, C(self.lead)), C(0), T.sub(i, C(self.lead)))

    def counts(self, tok):
        return not self.lead or tok.location is None or tok.location.name != u'$ion'


class Symbols(object):
    """The symbols of a table: tokens, and images of sequences of any length."""

    def __init__(self, c, blocks):
        self.c, self.blocks = c, list(blocks)

    def size(self):
        n = C(0)
        for b in self.blocks:
            n = T.add(n, b[1] if type(b) is tuple else C(1))
        return n

    def vc_len(self):
        return P.mkint(self.size())

    def append(self, tok):
        P.ctx_write(self)
        self.blocks.append(tok)

    def __getitem__(self, i):
        c, i = self.c, P.term(i)
        if c.decide(T.lt(i, C(0))):
            i = T.add(i, self.size())
        for b in self.blocks:
            n = b[1] if type(b) is tuple else C(1)
            if c.decide(T.and_(T.le(C(0), i), T.lt(i, n))):
                return Element(b[0], i) if type(b) is tuple else b
            i = T.sub(i, n)
        raise IndexError('list index out of range')
    vc_getitem = __getitem__


class Element(object):
    def __init__(self, source, i):
        self.source, self.i = source, i


class Mapping(object):
    """The first token of each text, for the text in focus; whether other texts are there is arbitrary."""

    def __init__(self, c, focus, known):
        self.c, self.focus, self.known = c, focus, dict(known)
        self.token = self.known.pop(focus, None)
        self.odd = []

    def __contains__(self, t):
        if t == self.focus:
            return self.token is not None
        if t in self.known:
            return True
        if t is None:
            return False
        return self.c.decide(self.c.fresh('other text is there', T.BOOL))

    def get(self, t, d=None):
        if t == self.focus:
            return d if self.token is None else self.token
        if t in self.known:
            return self.known[t]
        if t is None:
            return d
        raise P.Unsupported('another text')

    def __getitem__(self, t):
        if t not in self:
            raise KeyError(t)
        return self.get(t)

    def __setitem__(self, t, tok):
        P.ctx_write(self)
        if t == self.focus:
            self.token = tok
        elif t is None:
            self.odd.append(tok)

    def setdefault(self, t, tok):
        if t not in self:
            self[t] = tok
        return self.get(t)


def abstract(c, t, focus):
    """Replaces the representation of a table by an abstract one with the same content."""
    d = t.__dict__
    for n in ('symbols', 'mapping'):
        if '_SymbolTable__' + n not in d:
            raise P.Unsupported('the table has no ' + n)
    if type(d['_SymbolTable__symbols']) is list:
        d['_SymbolTable__symbols'] = Symbols(c, d['_SymbolTable__symbols'])
    if type(d['_SymbolTable__mapping']) is dict:
        d['_SymbolTable__mapping'] = Mapping(c, focus, d['_SymbolTable__mapping'])
    return d['_SymbolTable__symbols'], d['_SymbolTable__mapping']


class Adding(rt.LoopSpec):
    """A loop that adds every element of a sequence: what was added is the image of the part gone through."""

    def applies(self, c, S, it):
        return isinstance(it, Source)

    def setup(self, c, S):
        self.t = S.self
        self.src = self.iter
        self.syms, self.map = abstract(c, self.t, self.src.focus)
        self.entry, self.n0, self.tok0 = list(self.syms.blocks), self.syms.size(), self.map.token
        self.writes = [self.t, self.syms, self.map]
        self.before = None

    def length(self, c):
        return P.mkint(self.src.n)

    def item(self, c, i):
        return self.src.at(i)

    def havoc(self, c, S):
        i = P.term(S.index)
        self.before = i
        self.syms.blocks = self.entry + [(self.src, self.src.count(i))]
        n = T.add(self.n0, self.src.count(i))
        self.t.max_id = P.mkint(n)
        g = self.src.first
        if self.tok0 is None and c.decide(T.and_(T.le(C(1), g), T.le(g, i))):
            self.map.token = Element(self.src, T.sub(g, C(1)))
        self.was = self.map.token

    def inv(self, c, S):
        i = P.term(S.index)
        yield 'as many symbols as were added', T.eq(self.syms.size(), T.add(self.n0, self.src.count(i)))
        yield 'the maximum ID', T.eq(P.term(self.t.max_id), self.syms.size())

    def inv_prove(self, c, S):
        i = P.term(S.index)
        if self.before is None:
            c.prove(self.syms.blocks == self.entry, 'nothing is added at first', 'invariant')
            return
        tail = self.syms.blocks[len(self.entry):]
        c.prove(self.syms.blocks[:len(self.entry)] == self.entry and tail and tail[0][0] is self.src, 'what was added stays', 'invariant')
        cur = self.src.now
        added = self.src.texts or self.src.counts(cur)
        c.prove(len(tail) == 1 + added, 'each element is added once', 'invariant')
        c.prove(self.map.odd == [], 'no text no mapping', 'invariant')
        tok = None
        if added and len(tail) == 2:
            tok = tail[1]
            text = cur if self.src.texts else cur.text
            c.prove(tok.text == text, 'a symbol has the text it was given', 'invariant')
            c.prove(T.eq(P.term(tok.sid), self.syms.size()), 'a symbol has the ID of its position', 'invariant')
            loc = tok.location
            if self.t.table_type.is_shared:
                c.prove(loc is not None and loc.name == self.t.name and settled(c, loc.position, tok.sid), 'the location of a shared symbol', 'invariant')
            elif self.src.texts:
                c.prove(loc is None, 'a local symbol has no location', 'invariant')
            else:
                c.prove(loc == cur.location, 'an imported symbol keeps its location', 'invariant')
            if text == self.src.focus and self.was is None:
                c.prove(self.map.token is tok, 'text is mapped to its first symbol', 'invariant')
                return
        c.prove(self.map.token is self.was, 'text stays mapped to its first symbol', 'invariant')


def settled(c, a, b):
    return c.valid(P.as_cond(a == b))


class AddImport(Adding):
    key = SYM + '.SymbolTable.__init__#2'


class AddLocal(Adding):
    key = SYM + '.SymbolTable.__init__#3'


LOOPS = [AddImport, AddLocal]


# ---------------------------------------------------------------------------------------------------------------
# an arbitrary table

def conc_seq(c, name, focus):
    return c._get(name, lambda: [c.rng.choice([None, OTHER, focus, 'x', 'y', 'name']) for _ in range(c.rng.randrange(4))]
                  if hasattr(c, 'rng') else [OTHER, focus, None, focus])


def table(c, shared=None):
    """(a table with any imports and symbols, the parts it is made of, the text in focus)."""
    m = resolve(SYM + ':SymbolTable').__module__
    focus = c.choice('focus', ['focus', 'name'])
    kind = c.choice('kind', ['local', 'shared']) if shared is None else 'shared' if shared else 'local'
    imports = c.choice('imports', [None, [], ['shared'], ['shared', 'shared'], ['local'], ['local', 'shared']] if kind == 'local' else
                       [None, ['shared'], ['shared', 'shared']])
    parts = []
    tables = None
    if imports is not None:
        tables = []
        for i, k in enumerate(imports):
            tt = resolve(SYM + (':LOCAL_TABLE_TYPE' if k == 'local' else ':SHARED_TABLE_TYPE'))
            if c.concrete:
                s = conc_seq(c, 'import%d' % i, focus)
                t = resolve(SYM + ':local_symbol_table')(symbols=s) if k == 'local' else resolve(SYM + ':shared_symbol_table')(u'imp%d' % i, 1, s)
                parts.append([x for x in t if k != 'local' or x.location is None or x.location.name != u'$ion'])
                tables.append(t)
            else:
                tables.append(Source(c, 'import%d' % i, focus, tt))
                parts.append(tables[-1])
    if c.concrete:
        texts = conc_seq(c, 'texts', focus)
    else:
        texts = Source(c, 'texts', focus, texts=True)
    if kind == 'local':
        t = rt.vc_call(resolve(SYM + ':local_symbol_table'), tables, texts)
    else:
        t = rt.vc_call(resolve(SYM + ':shared_symbol_table'), u'mine', c.choice('version', [1, 7]), texts, tables)
    parts.append(texts)
    return t, parts, focus, kind


def content(c, t, kind, parts, what):
    """The table consists of its parts, in order."""
    lead = len(SYSTEM) if kind == 'local' else 0
    if c.concrete:
        toks = list(t)
        c.prove(len(t) == len(toks) and t.max_id == len(toks), what + ': the maximum ID is the number of symbols')
        c.prove([x.sid for x in toks] == list(range(1, len(toks) + 1)), what + ': IDs are consecutive from 1')
        want = list(SYSTEM[:lead])
        for p in parts:
            want += [x.text if hasattr(x, 'text') else x for x in p]
        c.prove([x.text for x in toks] == want, what + ': system symbols, imports in order, local symbols')
        return
    syms = t.__dict__['_SymbolTable__symbols']
    if not isinstance(syms, Symbols):
        raise P.Unsupported('the symbols were kept elsewhere')
    c.prove(P.mkint(syms.size()) == t.max_id, what + ': the maximum ID is the number of symbols')
    c.prove(rt.vc_call(t.__len__) == t.max_id, what + ': the length is the number of symbols')
    b = syms.blocks
    c.prove([x.text for x in b[:lead]] == list(SYSTEM[:lead]) and [x.sid for x in b[:lead]] == list(range(1, lead + 1)), what + ': system symbols first')
    rest = [x for x in b[lead:]]
    c.prove(len(rest) == len(parts), what + ': nothing but its parts')
    for x, p in zip(rest, parts):
        c.prove(type(x) is tuple and x[0] is p and c.valid(T.eq(x[1], p.count(p.n))) if isinstance(p, Source) else x is p,
                what + ': imports in order, then local symbols, all of them')


def position(c, t, kind, parts, focus):
    """(whether the text in focus is there, its first position)."""
    if c.concrete:
        for x in t:
            if x.text == focus:
                return True, x.sid
        return False, None
    lead = len(SYSTEM) if kind == 'local' else 0
    if lead and focus in SYSTEM:
        return True, SYSTEM.index(focus) + 1
    at = C(lead)
    for p in parts:
        if not isinstance(p, Source):
            if p.text == focus:
                return True, p.sid
            at = T.add(at, C(1))
            continue
        hit = T.lt(C(0), p.first) if not p.lead or focus not in SYSTEM else C(False)
        if c.decide(hit):
            return True, P.mkint(T.add(at, p.first if not p.lead else T.sub(p.first, C(p.lead))))
        at = T.add(at, p.count(p.n))
    return False, None


def construct(c):
    t, parts, focus, kind = table(c)
    content(c, t, kind, parts, 'construction')


def lookup_text(c):
    t, parts, focus, kind = table(c)
    there, at = position(c, t, kind, parts, focus)
    how = c.choice('how', ['get', 'getitem', 'default'])
    try:
        tok = t[focus] if how == 'getitem' else rt.vc_call(t.get, focus) if how == 'get' else rt.vc_call(t.get, focus, None)
    except KeyError:
        c.prove(how == 'getitem' and not there, 'only a text that is not there is refused')
        return
    if tok is None:
        c.prove(how != 'getitem' and not there, 'only a text that is not there is not found')
        return
    c.prove(there, 'a text that is not there is not found')
    if isinstance(tok, Element):
        e = t.__dict__['_SymbolTable__symbols'][P.mkint(P.term(at - 1))]
        c.prove(isinstance(e, Element) and e.source is tok.source and c.valid(T.eq(e.i, T.add(tok.i, C(0) if not e.source.lead else C(-e.source.lead)))),
                'the first symbol with the text')
    else:
        c.prove(tok.sid == at and tok.text == focus, 'the first symbol with the text')


def lookup_id(c):
    t, parts, focus, kind = table(c)
    k = c.int('id', -3 if c.concrete else None, 12 if c.concrete else None)
    how = c.choice('how', ['get', 'getitem', 'default'])
    dflt = object()
    n = t.max_id
    try:
        tok = t[k] if how == 'getitem' else rt.vc_call(t.get, k) if how == 'get' else rt.vc_call(t.get, k, dflt)
    except KeyError:
        c.prove(how == 'getitem', 'get never refuses')
        c.prove((k < 0) | (k > n), 'only an ID that is not assigned is refused')
        return
    if tok is None or tok is dflt:
        c.prove(how == ('get' if tok is None else 'default'), 'the default')
        c.prove((k < 0) | (k > n), 'only an ID that is not assigned is not found')
        return
    c.prove((0 <= k) & (k <= n), 'an ID that is not assigned is not found')
    if holds(c, k == 0):
        c.prove(tok.sid == 0 and tok.text is None, 'symbol zero has no text')
        return
    if isinstance(tok, Element):
        e = t.__dict__['_SymbolTable__symbols'][k - 1]
        c.prove(isinstance(e, Element) and e.source is tok.source and c.valid(T.eq(e.i, tok.i)), 'the symbol at that position')
    else:
        c.prove(tok.sid == k, 'the symbol at that position')


def intern(c):
    t, parts, focus, kind = table(c)
    there, at = position(c, t, kind, parts, focus)
    try:
        tok = rt.vc_call(t.intern, focus)
    except TypeError:
        c.prove(kind == 'shared', 'only a shared table refuses')
        content(c, t, kind, parts, 'a refused intern')
        return
    c.prove(kind == 'local', 'a shared table refuses')
    if there:
        content(c, t, kind, parts, 'interning known text')
        if not isinstance(tok, Element):
            c.prove(tok.sid == at and tok.text == focus, 'interning known text returns its symbol')
        return
    more = parts + [[tok] if c.concrete else tok]
    content(c, t, kind, more, 'interning new text')
    c.prove(tok.text == focus and tok.location is None, 'the new symbol has the text')
    c.prove(tok.sid == t.max_id, 'the new symbol is the last one')
    again = rt.vc_call(t.intern, focus)
    c.prove(again is tok, 'interning it again returns it')
    c.prove(rt.vc_call(t.get, focus) is tok, 'it is found by its text')
    content(c, t, kind, more, 'interning again')


def refusals(c):
    t, parts, focus, kind = table(c)
    bad = c.choice('not text', [None, 5, b'abc', 1.5])
    try:
        rt.vc_call(t.intern, bad)
        c.prove(False, 'only text is interned')
    except TypeError:
        c.prove(True, 'only text is interned')
    content(c, t, kind, parts, 'a refused intern')
    try:
        rt.vc_call(t.get, c.choice('not a key', [None, b'abc', 1.5]))
        c.prove(False, 'only text and IDs are looked up')
    except TypeError:
        c.prove(True, 'only text and IDs are looked up')


# ---------------------------------------------------------------------------------------------------------------
# small tables, compared in full

def small(first):
    return lambda c: small_tables(c, first)


def small_tables(c, first):
    Sh, Lo = resolve(SYM + ':shared_symbol_table'), resolve(SYM + ':local_symbol_table')
    pool = [[], ['a'], ['a', 'a'], [None, 'b'], ['name', 'a', 'b']]
    few = pool[1::2]
    base = Sh(u'base', 1, pool[first])
    imp = Sh(u'imp', 2, c.choice('second', few), imports=c.choice('nested', [None, [base]]))
    lst = Lo(imports=[base], symbols=c.choice('local', few))
    imports = c.choice('imports', [None, [base, imp], [imp, base], [lst], [lst, imp]])
    mine = c.choice('mine', pool)
    want = list(SYSTEM)
    for t in imports or ():
        want += [x.text for x in t if t is not lst or x.sid > len(SYSTEM)]
    want += mine
    t = Lo(imports, mine)
    for s in c.choice('interned', [(), ('a',), ('new', 'a', 'new'), (u'', 'b', u'')]):
        tok = t.intern(s)
        if s not in want:
            want = want + [s]
        c.prove(tok.text == s and tok.sid == want.index(s) + 1, 'interning')
    toks = list(t)
    c.prove([x.text for x in toks] == want and [x.sid for x in toks] == list(range(1, len(want) + 1)), 'its symbols, in order')
    c.prove(len(t) == len(want) and t.max_id == len(want), 'its maximum ID')
    for i, s in enumerate(want):
        c.prove(t[i + 1] is toks[i] and t.get(i + 1) is toks[i], 'lookup by ID')
        if s is not None:
            c.prove(t[s] is toks[want.index(s)] and t.get(s) is toks[want.index(s)], 'lookup by text')
    c.prove(t.get(len(want) + 1) is None and t.get(-1) is None and t.get('not there') is None, 'nothing else is found')
    for x in imp:
        c.prove(x.location is not None and x.location.name == u"imp" and x.location.position == x.sid, 'locations in a shared table')


UNITS = []
ST = SYM + ':SymbolTable.'


def unit(name, fn, of, **kw):
    UNITS.append(Unit('C09.' + name, fn, of=of, **kw))


unit('construction', construct, [ST + '__init__', SYM + ':local_symbol_table', SYM + ':shared_symbol_table'], loops=LOOPS)
unit('lookup by text', lookup_text, [ST + 'get', ST + '__getitem__'], loops=LOOPS)
unit('lookup by ID', lookup_id, [ST + 'get', ST + '__getitem__', ST + '__len__'], loops=LOOPS)
unit('intern', intern, [ST + 'intern', ST + 'get'], loops=LOOPS)
unit('refusals', refusals, [ST + 'intern', ST + 'get'], loops=LOOPS)
for _i in range(5):
    unit('small tables[%d]' % _i, small(_i), [ST + '__init__', ST + 'intern', ST + '__iter__'], note='bounded: tables of a few symbols')

ASSUMPTIONS = ['dict and list behave as documented', 'a table has at most two imports (each of any length); the text in focus is arbitrary: the code only compares texts']
