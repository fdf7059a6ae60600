"""C15: structs keep every value of a repeated field in order."""
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve

C = T.const
CORE = 'amazon.ion.core'


# ---------------------------------------------------------------------------------------------------------------
# an arbitrary struct: any names before and behind a given one, which has any number of values, or is absent

class Values(object):
    """A list of any number of values, followed by those added since."""

    def __init__(self, c, n):
        self.c, self.n, self.tail, self.odd = c, n, [], []

    def size(self):
        return T.add(self.n, C(len(self.tail)))

    def vc_len(self):
        return P.mkint(self.size())

    def find(self, i):
        i = P.term(i)
        if self.c.decide(T.lt(i, C(0))):
            i = T.add(i, self.size())
        return i

    def __getitem__(self, i):
        i = self.find(i)
        if self.odd:
            raise P.Unsupported('values inserted inside')
        for j, x in enumerate(self.tail):
            if self.c.decide(T.eq(i, T.add(self.n, C(j)))):
                return x
        if not self.c.decide(T.and_(T.le(C(0), i), T.lt(i, self.n))):
            raise IndexError('list index out of range')
        return ('value', self, i)
    vc_getitem = __getitem__

    def insert(self, i, x):
        P.ctx_write(self)
        i = self.find(i)
        if self.c.decide(T.le(self.size(), i)):
            self.tail.append(x)
        else:
            self.odd.append((i, x))

    def append(self, x):
        P.ctx_write(self)
        self.tail.append(x)

    def __iter__(self):
        raise P.Unsupported('iteration over any number of values')

    def clear(self):
        P.ctx_write(self)
        self.n, self.tail, self.odd = C(0), [], []


class Store(object):
    """An ordered dict: any entries, those of a name (if it is there), any entries; then those added since."""

    def __init__(self, key, entry):
        self.key = key
        self.order = ['before'] + ([(key, entry)] if entry is not None else []) + ['behind']

    def index(self, k):
        if k != self.key:
            raise P.Unsupported('another name')
        for i, e in enumerate(self.order):
            if type(e) is tuple and e[0] == k:
                return i
        return None

    def __contains__(self, k):
        return self.index(k) is not None

    def __getitem__(self, k):
        i = self.index(k)
        if i is None:
            raise KeyError(k)
        return self.order[i][1]

    def get(self, k, d=None):
        i = self.index(k)
        return d if i is None else self.order[i][1]

    def setdefault(self, k, d=None):
        if self.index(k) is None:
            self[k] = d
        return self[k]

    def __setitem__(self, k, v):
        P.ctx_write(self)
        i = self.index(k)
        if i is None:
            self.order.append((k, v))
        else:
            self.order[i] = (k, v)

    def __delitem__(self, k):
        P.ctx_write(self)
        i = self.index(k)
        if i is None:
            raise KeyError(k)
        del self.order[i]

    def pop(self, k, *d):
        i = self.index(k)
        if i is None and d:
            return d[0]
        v = self[k]
        del self[k]
        return v

    def __iter__(self):
        raise P.Unsupported('iteration over any number of names')


class Item(object):
    """A value; the struct only moves it."""


KEY = 'k'


def make(c):
    """(a struct, its entries: names or blocks of names with their values)."""
    cls = resolve(c.choice('class', [CORE + ':Multimap', 'amazon.ion.simple_types:IonPyDict']))
    m = cls()
    there = c.choice('name is there', [True, False])
    if c.concrete:
        state = []
        plan = c._get('plan', lambda: [(n, c.rng.randrange(1, 4)) for n in 'ab'[:c.rng.randrange(3)]] + ([(KEY, c.rng.randrange(1, 4))] if there else [])
                      + [(n, c.rng.randrange(1, 4)) for n in 'xy'[:c.rng.randrange(3)]] if hasattr(c, 'rng')
                      else [('a', 2)] + ([(KEY, 2)] if there else []) + [('x', 1)])
        for n, k in plan:
            vs = [Item() for _ in range(k)]
            for v in vs:
                m.add_item(n, v)
            state.append((n, vs))
        return m, state, there
    n = c.fresh('values')
    c.assume(T.le(C(1), n))
    entry = None
    if there:
        entry = resolve(CORE + ':MultimapValue')()
        if '_MultimapValue__store' not in entry.__dict__:
            raise P.Unsupported('values are kept in another way')
        entry.__dict__['_MultimapValue__store'] = Values(c, n)
    if '_Multimap__store' not in m.__dict__:
        raise P.Unsupported('entries are kept in another way')
    m.__dict__['_Multimap__store'] = Store(KEY, entry)
    return m, entries(c, m), there


def entries(c, m):
    if c.concrete:
        return [(k, list(m.get_all_values(k))) for k in m]
    out = []
    s = m.__dict__['_Multimap__store']
    if not isinstance(s, Store):
        raise P.Unsupported('entries were rebuilt')
    for e in s.order:
        if type(e) is not tuple:
            out.append((e, []))
            continue
        v = e[1].__dict__.get('_MultimapValue__store') if type(e[1]) is resolve(CORE + ':MultimapValue') else e[1]
        if isinstance(v, Values):
            out.append((e[0], [('all', v.n)] + list(v.tail) + [('odd', i, x) for i, x in v.odd]))
        elif type(v) is list:
            out.append((e[0], list(v)))
        else:
            raise P.Unsupported('values are kept in another way')
    return out


def agree(c, got, want, what):
    c.prove([k for k, _ in got] == [k for k, _ in want], what + ': the names, in order')
    for (k, vs), (_, ws) in zip(got, want):
        c.prove(len(vs) == len(ws) and all(v is w or type(v) is tuple and v == w for v, w in zip(vs, ws)),
                what + ': the values of each name, in order')


def values(c, st, k=KEY):
    return dict(st)[k]


def add(c):
    m, st, there = make(c)
    x, y = Item(), Item()
    for v in (x, y)[:c.choice('times', [1, 2])]:
        rt.vc_call(m.add_item, KEY, v)
        st = [(k, vs + [v] if k == KEY else vs) for k, vs in st] if there else st + [(KEY, [v])]
        there = True
    agree(c, entries(c, m), st, 'add_item')
    c.prove(rt.vc_call(m.__getitem__, KEY) is v, 'the value added last is found')
    c.prove(KEY in m, 'the name is there')


def assign(c):
    m, st, there = make(c)
    x = Item()
    m[KEY] = x
    st = [(k, [x] if k == KEY else vs) for k, vs in st] if there else st + [(KEY, [x])]
    agree(c, entries(c, m), st, 'assignment')
    c.prove(m[KEY] is x, 'the value assigned is found')
    z = Item()
    rt.vc_call(m.add_item, KEY, z)
    agree(c, entries(c, m), [(k, vs + [z] if k == KEY else vs) for k, vs in st], 'addition afterwards')


def delete(c):
    m, st, there = make(c)
    how = c.choice('how', ['del', 'pop'])
    try:
        if how == 'del':
            del m[KEY]
        else:
            m.pop(KEY)
        c.prove(there, 'only a name that is there is deleted')
    except KeyError:
        c.prove(not there, 'a name that is there can be deleted')
    agree(c, entries(c, m), [(k, vs) for k, vs in st if k != KEY], 'deletion')
    c.prove(KEY not in m, 'the name is gone')


def lookup(c):
    m, st, there = make(c)
    try:
        v = m[KEY]
        c.prove(there, 'only a name that is there is found')
        if c.concrete:
            c.prove(v is values(c, st)[-1], 'the value added last is found')
        else:
            a = m.__dict__['_Multimap__store'][KEY].__dict__['_MultimapValue__store']
            c.prove(type(v) is tuple and v[1] is a, 'one of its values')
            c.prove(T.eq(v[2], T.sub(a.n, C(1))), 'the value added last is found')
    except KeyError:
        c.prove(not there, 'a name that is there is found')
    try:
        vs = m.get_all_values(KEY)
        c.prove(there, 'only a name that is there has values')
        if c.concrete:
            agree(c, [(KEY, list(vs))], [(KEY, values(c, st))], 'get_all_values')
        else:
            c.prove(vs is m.__dict__['_Multimap__store'][KEY], 'all its values are returned')
            c.prove(rt.vc_call(vs.__len__) == P.mkint(values(c, st)[0][1]), 'as many as there are')
    except KeyError:
        c.prove(not there, 'a name that is there has values')
    c.prove((KEY in m) == there, 'whether a name is there')
    agree(c, entries(c, m), st, 'looking up changes nothing')


# ---------------------------------------------------------------------------------------------------------------
# every history of a few operations, observed in every way

NAMES = ['a', '', None]
OPS = [(o, n) for o in ('add', 'set', 'del') for n in NAMES]


def histories(first):
    def unit(c):
        cls = resolve(c.choice('class', [CORE + ':Multimap', 'amazon.ion.simple_types:IonPyDict']))
        m, st = cls(), []
        for i in range(4):
            o, n = OPS[first] if i == 0 else c.choice('operation %d' % i, OPS)
            v = (Item(), None, (), Item())[i]
            known = [k for k, _ in st]
            if o == 'add':
                m.add_item(n, v)
                st = [(k, vs + [v] if k == n else vs) for k, vs in st] if n in known else st + [(n, [v])]
            elif o == 'set':
                m[n] = v
                st = [(k, [v] if k == n else vs) for k, vs in st] if n in known else st + [(n, [v])]
            else:
                try:
                    del m[n]
                    c.prove(n in known, 'only a name that is there is deleted')
                except KeyError:
                    c.prove(n not in known, 'a name that is there can be deleted')
                st = [(k, vs) for k, vs in st if k != n]
        observe(c, m, st)
    return unit


def observe(c, m, st):
    flat = [(k, v) for k, vs in st for v in vs]

    def same(got, what):
        got = list(got)
        c.prove(len(got) == len(flat) and all(a == k and b is v for (a, b), (k, v) in zip(got, flat)), what)
    same(rt.vc_call(m.items), 'items: each pair once, names in first-seen order')
    same(m.iteritems(), 'iteritems: each pair once, names in first-seen order')
    c.prove(len(m) == len(flat), 'the length counts every value')
    c.prove(list(m) == [k for k, _ in st], 'iteration: the names in first-seen order')
    c.prove(list(m.keys()) == [k for k, _ in st], 'keys: the names in first-seen order')
    for k in NAMES:
        vs = dict(st).get(k)
        c.prove((k in m) == (vs is not None), 'whether a name is there')
        if vs is not None:
            c.prove(m[k] is vs[-1] and m.get(k) is vs[-1], 'indexing: the value added last')
            got = m.get_all_values(k)
            c.prove(len(got) == len(vs) and all(a is b for a, b in zip(got, vs)), 'get_all_values: in order of addition')


def copies(c):
    """A struct made from another, or from a dict, holds the same."""
    Multimap, Py = resolve(CORE + ':Multimap'), resolve('amazon.ion.simple_types:IonPyDict')
    st = []
    for i, n in enumerate(c.choice('names', [[], ['a'], ['a', 'a'], ['a', 'b', 'a'], [None, 'a', None], ['b', 'a', 'b', 'a']])):
        v = Item()
        known = [k for k, _ in st]
        st = [(k, vs + [v] if k == n else vs) for k, vs in st] if n in known else st + [(n, [v])]
    source = c.choice('source', ['dict', 'Multimap', 'IonPyDict', 'from_value', 'copy'])
    if source == 'dict':
        st = [(k, vs[-1:]) for k, vs in st]
        src = dict((k, vs[-1]) for k, vs in st)
        m = c.choice('class', [Multimap, Py])(src)
    else:
        src = (Py if source in ('IonPyDict', 'copy') else Multimap)()
        for k, vs in st:
            for v in vs:
                src.add_item(k, v)
        from amazon.ion.core import IonType
        if source == 'copy':
            src.ion_type, src.ion_annotations = IonType.STRUCT, ()
            m = src._copy()
        elif source == 'from_value':
            m = Py.from_value(IonType.STRUCT, src)
        else:
            m = c.choice('class', [Multimap, Py])(src)
    observe(c, m, st)
    if st:
        m.add_item(st[0][0], Item())
        c.prove(source == 'dict' or len(src) == sum(len(vs) for _, vs in st), 'the source is left alone')


# ---------------------------------------------------------------------------------------------------------------
# loading: the fields of a struct are added in the order they are read

def loading(c):
    from amazon.ion.core import IonEvent, IonEventType, IonType
    from amazon.ion.symbols import SymbolToken
    names = ['a', 'b', None]
    outer = resolve('amazon.ion.simple_types:IonPyDict')()
    script, st = [], []
    nested = c.choice('a struct inside', [False, True])
    for i in range(c.choice('fields', [0, 1, 2, 3])):
        n = c.choice('name%d' % i, names)
        token = SymbolToken(n, None if n is not None else 0)
        if nested and i == 1:
            script.append(IonEvent(IonEventType.CONTAINER_START, IonType.STRUCT, None, token, (), 1))
            for k in ('a', 'a'):
                script.append(IonEvent(IonEventType.SCALAR, IonType.INT, 7, SymbolToken(k, None), (), 2))
            script.append(IonEvent(IonEventType.CONTAINER_END, IonType.STRUCT, None, None, (), 1))
            v = 'struct'
        else:
            v = c.int('v%d' % i, None, None)
            script.append(IonEvent(IonEventType.SCALAR, IonType.INT, v, token, (), 1))
        known = [k for k, _ in st]
        st = [(k, vs + [v] if k == n else vs) for k, vs in st] if n in known else st + [(n, [v])]
    script.append(IonEvent(IonEventType.CONTAINER_END, IonType.STRUCT, None, None, (), 0))
    script.append(None)

    class Reader(object):
        def send(self, e):
            return script.pop(0)
    rt.vc_call(resolve('amazon.ion.simpleion:_load'), outer, Reader(), IonEventType.CONTAINER_END, True)
    c.prove(script == [None], 'reading stops at the end of the struct')
    c.prove(list(outer) == [k for k, _ in st], 'the names, in order')
    for k, vs in st:
        got = list(outer.get_all_values(k))
        c.prove(len(got) == len(vs), 'every value of a name')
        for g, v in zip(got, vs):
            if isinstance(v, str):
                c.prove(g.ion_type is IonType.STRUCT and len(g) == 2 and len(g.get_all_values('a')) == 2, 'a struct inside')
            else:
                c.prove(g == v, 'its values, in order')


UNITS = []
MM = CORE + ':Multimap.'


def unit(name, fn, of, **kw):
    UNITS.append(Unit('C15.' + name, fn, of=of, **kw))


unit('add_item', add, [MM + 'add_item', MM + '__setitem__', CORE + ':MultimapValue.insert', MM + '__getitem__'])
unit('assignment', assign, [MM + '__setitem__', CORE + ':MultimapValue.__init__'])
unit('deletion', delete, [MM + '__delitem__'])
unit('lookup', lookup, [MM + '__getitem__', MM + 'get_all_values', CORE + ':MultimapValue.__len__', CORE + ':MultimapValue.__getitem__'])
for _i, (_o, _n) in enumerate(OPS):
    if _o == 'del':
        continue
    unit('histories from %s %r' % (_o, _n), histories(_i), [MM + 'items', MM + 'iteritems', MM + '__len__', MM + '__iter__'],
         note='bounded: histories of four operations over three names; values are arbitrary')
unit('copies', copies, [MM + '__init__', 'amazon.ion.simple_types:_IonNature.from_value'])
unit('loading', loading, ['amazon.ion.simpleion:_load'])

ASSUMPTIONS = ['OrderedDict and list behave as documented', 'iteration, items and the length are proved for every history of four operations over three '
               'names (bounded), everything else for any struct']
