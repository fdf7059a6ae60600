from . import spec, gen, lib
from .spec import V
from .c11 import table, value, text
from amazon.ion.core import IonEvent, IonEventType, IonType, IonThunkEvent, MemoizingThunk
try:
    from amazon.ion.reader_managed import _managed_thunk_event, _ManagedContext
except ImportError:
    _managed_thunk_event = None
from amazon.ion.symbols import SymbolToken, SymbolTableCatalog, shared_symbol_table, SymbolTable, LOCAL_TABLE_TYPE

ATTRS = ('event_type', 'ion_type', 'value', 'field_name', 'annotations', 'depth')


def norm(x):
    """A comparable image of an attribute."""
    if isinstance(x, SymbolToken):
        return ('token', x.text)
    if isinstance(x, tuple) and not isinstance(x, lib.Timestamp):
        return tuple(norm(y) for y in x)
    if isinstance(x, lib.Timestamp):
        return ('ts', lib.model_ts(x))
    if isinstance(x, float):
        return ('float', spec.fbits(x))
    if isinstance(x, (list, dict)):
        return repr(x)
    if hasattr(x, 'as_tuple'):
        return ('dec', str(x), x.as_tuple()[2])
    return (type(x).__name__, x)


def image(e):
    return tuple(norm(getattr(e, a)) for a in ATTRS)


def same(a, b):
    return a is b or (isinstance(a, (int, float)) and norm(a) == norm(b)) or (a == () and b == ())


def run(r):
    r.bound = 'up to 8 top-level items per stream; sampled'
    r.rule = 'random streams with changing symbol tables read by the managed reader, attributes accessed eagerly, late, repeatedly and through derived events; distinct by stream and access order'
    rng = r.rng
    for i in r.loop(r.scale(12000)):
        cat = SymbolTableCatalog()
        for ver in (1, 2):
            cat.register(shared_symbol_table('p', ver, ['p%d' % k for k in range(rng.randrange(4))]))
        binary = rng.random() < 0.7
        e = spec.Enc(dict((s, k + 1) for k, s in enumerate(spec.SYSTEM)))
        w = spec.Writer(rng)
        out = spec.IVM if binary else '$ion_1_0 '
        for _ in range(rng.randrange(2, 8)):
            k = rng.randrange(6)
            if k == 0:
                out += spec.IVM if binary else ' $ion_1_0 '
            elif k <= 2:
                t = table(rng)
                out += e.value(t) if binary else w.value(t) + ' '
            elif k == 3:
                v = gen.scalar(rng)
                if v.t == 'symbol' or (v.t == 'symbol' and v.v is spec.UNK):
                    continue
                v = V(v.t, v.v, ())
                out += e.value(v) if binary else w.value(v) + ' '
            else:
                v = value(rng, 2)
                out += e.value(v) if binary else text(v, rng) + ' '
        try:
            eager = []
            lib.read_each(out, cat, lambda ev: eager.append(image(ev)))
        except lib.ERRORS:
            continue
        late = []
        early = rng.random() < 0.5

        def keep(ev):
            late.append(ev)
            if early and rng.random() < 0.3:
                getattr(ev, rng.choice(ATTRS))
        lib.read_each(out, cat, keep)
        r.count('binary' if binary else 'text', out)
        order = list(range(len(late)))
        rng.shuffle(order)
        for k in order:
            ev = late[k]
            check(r, rng, ev, eager[k], out)
        if i < 2:
            r.sample(stream=out, events=len(late))
    for _ in r.loop(r.scale(8000)):
        counted(r, rng)


def check(r, rng, ev, want, out):
    for a in rng.sample(ATTRS, 6):
        x = getattr(ev, a)
        if norm(x) != want[ATTRS.index(a)]:
            return r.fail('stable', '%s is %r late, %r when read eagerly' % (a, x, want), stream=out)
        if not same(getattr(ev, a), x):
            return r.fail('stable', '%s decoded again: %r' % (a, x), stream=out)
    derive(r, rng, ev, want, out)


def derive(r, rng, ev, want, out):
    fresh = {'field_name': rng.choice([None, SymbolToken('zz', None), SymbolToken(None, 0)]),
             'annotations': rng.choice([(), (SymbolToken('q', None),)]), 'depth': 77, 'value': rng.choice([None, 5, 'x', False])}
    want = list(want)
    start = ev
    changed = set()
    for a in rng.sample(sorted(fresh), rng.randrange(1, 5)):
        prev = ev
        ev = getattr(ev, 'derive_' + a)(fresh[a])
        want[ATTRS.index(a)] = norm(fresh[a])
        changed.add(a)
        if rng.random() < 0.3:
            getattr(prev, 'value'), getattr(prev, 'annotations')
    for a in rng.sample(ATTRS, 6):
        x = getattr(ev, a)
        if norm(x) != want[ATTRS.index(a)]:
            return r.fail('derive', '%s is %r after deriving %s' % (a, x, sorted(changed)), stream=out)
        if a not in changed and not same(x, getattr(start, a)):
            return r.fail('derive', '%s decoded again in the derived event' % a, stream=out)
    return ev


class Count(object):
    def __init__(self, v):
        self.v, self.n = v, 0

    def __call__(self):
        self.n += 1
        return self.v


def counted(r, rng):
    """Thunk events over counting delegates: each is called at most once through any derivation."""
    v = rng.choice([None, 0, False, '', 'abc', [], 10 ** 20, SymbolToken('foo', 10), SymbolToken(None, 10)])
    t = rng.choice([IonType.INT, IonType.STRING, IonType.SYMBOL]) if not isinstance(v, SymbolToken) else IonType.SYMBOL
    if t is IonType.SYMBOL and v is not None and not isinstance(v, SymbolToken):
        t = IonType.INT
    c = Count(v)
    fn = rng.choice([None, SymbolToken(None, 4)])
    ann = rng.choice([(), (SymbolToken(None, 4), SymbolToken('x', None))])
    base = IonThunkEvent(IonEventType.SCALAR, t, c, fn, ann, 3)
    managed = _managed_thunk_event is not None and rng.random() < 0.5
    if managed:
        base = _managed_thunk_event(_ManagedContext(None, SymbolTable(LOCAL_TABLE_TYPE, ['aa'])), base)
    pool = [base]
    if c.n:
        r.fail('once', 'decoded on construction', value=v)
    for _ in range(rng.randrange(1, 8)):
        e = rng.choice(pool)
        k = rng.randrange(4)
        if k == 0:
            pool.append(e.derive_depth(rng.randrange(9)))
        elif k == 1:
            pool.append(e.derive_field_name(rng.choice([None, SymbolToken('f', None)])))
        elif k == 2:
            pool.append(e.derive_annotations(rng.choice([(), (SymbolToken('f', None),)])))
        else:
            e.value, e.field_name, e.annotations
    if managed:
        pool2 = [base.derive_depth(1), base.derive_annotations(())]
        pool += pool2
    r.count('once', (repr(v), managed, len(pool)))
    want = v if not (managed and t is IonType.SYMBOL and v is not None) else SymbolToken(v.text or 'aa', v.sid)
    for e in rng.sample(pool, len(pool)):
        for _ in range(2):
            if norm(e.value) != norm(want):
                r.fail('once', 'value %r' % (e.value,), value=v)
    if c.n > 1:
        r.fail('once', 'decoded %d times' % c.n, value=v, managed=managed)
    d = Count(v)
    m = MemoizingThunk(d)
    if m() is not m() or d.n != 1:
        r.fail('memo', 'delegate called %d times' % d.n, value=v)
    bad = []

    def boom():
        bad.append(1)
        raise ValueError('x')
    m = MemoizingThunk(boom)
    for _ in range(2):
        try:
            m()
            r.fail('memo', 'an error of the delegate is not reported')
        except ValueError:
            pass
