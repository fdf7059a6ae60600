"""C20: lazily read values are stable; derived events share what they do not change."""
from pyvc.contract import Unit, resolve
from pyvc import proxies as P

CORE = 'amazon.ion.core'
MANAGED = 'amazon.ion.reader_managed'
ATTRS = ('event_type', 'ion_type', 'value', 'field_name', 'annotations', 'depth')


class Delegate(object):
    """A decoding function: returns one arbitrary value, and counts its calls."""

    def __init__(self, v):
        self.v, self.n = v, 0

    def __call__(self):
        self.n += 1
        return self.v


class Failing(object):
    def __init__(self, exc):
        self.exc, self.n = exc, 0

    def __call__(self):
        self.n += 1
        raise self.exc


def once(c, v, d, what):
    c.prove(v is d.v, what + ' is the decoded value')
    c.prove(d.n == 1, what + ' is decoded exactly once')


def thunk(c):
    Thunk = resolve(CORE + ':MemoizingThunk')
    d = Delegate(c.opaque('value'))
    t = Thunk(d)
    c.prove(d.n == 0, 'nothing is decoded on construction')
    once(c, t(), d, 'the first access')
    once(c, t(), d, 'the second access')
    once(c, t(), d, 'every later access')


def thunk_error(c):
    Thunk = resolve(CORE + ':MemoizingThunk')
    e = ArithmeticError('decoding fails')
    t = Thunk(Failing(e))
    for _ in range(2):
        try:
            t()
        except ArithmeticError as x:
            c.prove(x is e, 'the error of the delegate is reported')
        else:
            c.prove(False, 'the error of the delegate is reported')


def base_event(c, cls):
    """An event of the class with arbitrary attributes; returns (event, attribute values, delegates)."""
    Cls = resolve(cls)
    vals = [c.opaque(a) for a in ATTRS]
    delegates = {}
    args = list(vals)
    if cls != CORE + ':IonEvent':
        delegates['value'] = Delegate(vals[2])
    if cls.startswith(MANAGED):
        delegates['field_name'] = Delegate(vals[3])
        delegates['annotations'] = Delegate(vals[4])
    for i, a in enumerate(ATTRS):
        if a in delegates:
            args[i] = delegates[a]
    return Cls(*args), dict(zip(ATTRS, vals)), delegates


def unforced(c, delegates, when):
    for a in delegates:
        c.prove(delegates[a].n == 0, '%s is not decoded by %s' % (a, when))


def attributes(c, cls):
    def unit(c):
        e, vals, ds = base_event(c, cls)
        unforced(c, ds, 'constructing the event')
        first = c.choice('first', list(ATTRS))
        order = [first] + [a for a in ATTRS if a != first] + list(ATTRS)
        for a in order:
            c.prove(getattr(e, a) is vals[a], '%s is the one given, however often it is read' % a)
        for a in ds:
            c.prove(ds[a].n == 1, '%s is decoded once' % a)
    return unit


def derive(cls, attr, forced):
    def unit(c):
        e, vals, ds = base_event(c, cls)
        if forced:
            for a in ATTRS:
                getattr(e, a)
        new = c.opaque('new')
        if callable(new):
            return                        # a callable stands for a lazy attribute in managed events
        e2 = getattr(e, 'derive_' + attr)(new)
        if not forced and attr != 'value':
            unforced(c, ds, 'deriving')
        c.prove(getattr(e2, attr) is new, 'the derived event has the new ' + attr)
        for a in ATTRS:
            if a != attr:
                c.prove(getattr(e2, a) is vals[a], 'the derived event keeps %s' % a)
        for a in ATTRS:
            c.prove(getattr(e, a) is vals[a], 'the original event keeps %s' % a)
            if a != attr:
                c.prove(getattr(e2, a) is vals[a], 'the derived event still has %s' % a)
        for a in ds:
            c.prove(ds[a].n == 1, '%s is decoded once through both events' % a)
        if attr == 'value':
            return
        # Deriving again: the invariant "every attribute is the given value or a memo of it" is closed under derivation
        other = c.choice('then', [a for a in ('depth', 'field_name', 'annotations') if a != attr])
        new2 = c.opaque('new2')
        if callable(new2):
            return
        e3 = getattr(e2, 'derive_' + other)(new2)
        for a in ATTRS:
            want = new2 if a == other else new if a == attr else vals[a]
            c.prove(getattr(e3, a) is want, 'a twice derived event has the right %s' % a)
        for a in ds:
            c.prove(ds[a].n <= 1, '%s is decoded once through all three events' % a)
    return unit


def derive_lazy(attr):
    """A managed event derived with a lazy attribute."""
    def unit(c):
        e, vals, ds = base_event(c, MANAGED + ':_IonManagedThunkEvent')
        d = Delegate(c.opaque('new'))
        e2 = getattr(e, 'derive_' + attr)(d)
        c.prove(d.n == 0, 'the lazy attribute is not decoded by deriving')
        once(c, getattr(e2, attr), d, 'the new attribute')
        once(c, getattr(e2, attr), d, 'the new attribute, read again')
        for a in ATTRS:
            if a != attr:
                c.prove(getattr(e2, a) is vals[a], 'the derived event keeps ' + a)
    return unit


class Ctx(object):
    """A symbol table context: resolve is a function of the token, for as long as the event lives."""

    def __init__(self, c):
        self.c, self.images, self.calls = c, [], 0

    def resolve(self, token):
        self.calls += 1
        for t, r in self.images:
            if t is token:
                return r
        r = self.c.opaque('resolved%d' % len(self.images), True)
        self.images.append((token, r))
        return r

    def image(self, token):
        for t, r in self.images:
            if t is token:
                return r
        return None


def managed_event(kind):
    """_managed_thunk_event: attributes are resolved in the context it was given, lazily, and once."""
    def unit(c):
        make = resolve(MANAGED + ':_managed_thunk_event')
        IonType = resolve(CORE + ':IonType')
        IonEvent = resolve(CORE + ':IonEvent')
        ThunkEvent = resolve(CORE + ':IonThunkEvent')
        et, depth = c.opaque('event_type'), c.opaque('depth')
        ion_type = c.choice('ion_type', [IonType.SYMBOL, IonType.INT, IonType.STRUCT, IonType.STRING, None])
        value = None if kind == 'null' else c.opaque('value', True)
        field = None if c.choice('has field name', [0, 1]) == 0 else c.opaque('field_name', True)
        ann = c.seq('annotations', c.opaque)
        cx = Ctx(c)
        d = Delegate(value)
        lazy = c.choice('lazy', [0, 1])
        inner = ThunkEvent(et, ion_type, d, field, ann, depth) if lazy else IonEvent(et, ion_type, value, field, ann, depth)
        e = make(cx, inner)
        c.prove(d.n == 0 and cx.calls == 0, 'nothing is decoded or resolved on construction')
        c.prove(e.event_type is et and e.ion_type is ion_type and e.depth is depth, 'type and depth are kept')
        v1 = e.value
        if ion_type is IonType.SYMBOL and value is not None:
            c.prove(v1 is cx.image(value), 'a symbol value is resolved in the context')
        else:
            c.prove(v1 is value, 'any other value is unchanged')
        c.prove(e.value is v1, 'the value is stable')
        f1 = e.field_name
        c.prove(f1 is (None if field is None else cx.image(field)), 'the field name is resolved in the context')
        c.prove(e.field_name is f1, 'the field name is stable')
        a1 = e.annotations
        if c.concrete:
            c.prove(len(a1) == len(ann) and all(x is cx.image(y) for x, y in zip(a1, ann)),
                    'every annotation is resolved in the context, in order')
        else:
            c.prove(getattr(a1, 'source', None) is ann and a1.elem is cx.image(ann.elem),
                    'every annotation is resolved in the context, in order')
        c.prove(e.annotations is a1, 'the annotations are stable')
        before = cx.calls
        e.value, e.field_name, e.annotations
        c.prove(cx.calls == before and d.n <= 1, 'nothing is resolved or decoded again')
    return unit


def stale_context(c):
    """The context is the record given to _managed_thunk_event; a later table is a new record."""
    Ctx_ = resolve(MANAGED + ':_ManagedContext')
    table, cat, table2 = c.opaque('table'), c.opaque('catalog'), c.opaque('table2')
    a = Ctx_(cat, table)
    b = Ctx_(cat, table2)
    c.prove(a.symbol_table is table and a.catalog is cat, 'a context keeps its table')
    c.prove(b.symbol_table is table2 and b.catalog is cat, 'a new context has the new table')
    try:
        a.symbol_table = table2
    except AttributeError:
        pass
    c.prove(a.symbol_table is table, 'a context is immutable')


CLS = [CORE + ':IonEvent', CORE + ':IonThunkEvent', MANAGED + ':_IonManagedThunkEvent']
UNITS = [
    Unit('C20.MemoizingThunk', thunk, of=[CORE + ':MemoizingThunk.__call__', CORE + ':MemoizingThunk.__init__']),
    Unit('C20.MemoizingThunk[error]', thunk_error, of=[CORE + ':MemoizingThunk.__call__']),
    Unit('C20._ManagedContext', stale_context, of=[MANAGED + ':_ManagedContext']),
]
for _c in CLS:
    _n = _c.split(':')[1]
    UNITS.append(Unit('C20.%s' % _n, attributes(None, _c), of=[_c]))
    for _a in ('field_name', 'annotations', 'depth', 'value'):
        _m = CORE + ':IonEvent.derive_' + _a
        if _n == '_IonManagedThunkEvent' and _a in ('field_name', 'annotations'):
            _m = '%s.derive_%s' % (_c, _a)
        for _f in (0, 1):
            UNITS.append(Unit('C20.%s.derive_%s%s' % (_n, _a, '[after reading]' if _f else ''),
                              derive(_c, _a, _f), of=[_m]))
for _a in ('field_name', 'annotations'):
    UNITS.append(Unit('C20._IonManagedThunkEvent.derive_%s[lazy]' % _a, derive_lazy(_a),
                      of=[MANAGED + ':_IonManagedThunkEvent.derive_' + _a]))
for _k in ('value', 'null'):
    UNITS.append(Unit('C20._managed_thunk_event[%s]' % _k, managed_event(_k), of=[MANAGED + ':_managed_thunk_event']))

ASSUMPTIONS = ['property and functools descriptors behave as documented']
