"""Hash-consed SMT terms (Int, Bool, Array Int Int, uninterpreted functions) with light simplification."""

INT, BOOL, ARR = 'Int', 'Bool', '(Array Int Int)'


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'val', 'id', 'size')

    def __repr__(self):
        return show(self)


_table = {}


def _mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = len(_table)
        t.size = 1 + sum(a.size for a in args)
        _table[key] = t
    return t


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return _mk('const', (), INT, int(v))


def var(name, sort=INT):
    return _mk('var', (), sort, name)


TRUE = _mk('const', (), BOOL, True)
FALSE = _mk('const', (), BOOL, False)


def is_const(t):
    return t.op == 'const'


def _lin(t):
    """Decomposes an Int term as ({term: coeff}, constant)."""
    if t.op == 'const':
        return {}, t.val
    if t.op == 'lin':
        return dict(zip(t.args, t.val[1:])), t.val[0]
    return {t: 1}, 0


def _mklin(d, c):
    d = dict((k, v) for k, v in d.items() if v)
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    ks = sorted(d, key=lambda k: k.id)
    return _mk('lin', ks, INT, (c,) + tuple(d[k] for k in ks))


def add(a, b):
    da, ca = _lin(a)
    db, cb = _lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return _mklin(d, ca + cb)


def scale(a, n):
    d, c = _lin(a)
    return _mklin(dict((k, v * n) for k, v in d.items()), c * n)


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if is_const(a):
        return scale(b, a.val)
    if is_const(b):
        return scale(a, b.val)
    if a.id > b.id:
        a, b = b, a
    return _mk('*', (a, b), INT)


def div(a, n):
    """Floor division by a positive constant."""
    assert n > 0
    if n == 1:
        return a
    d, c = _lin(a)
    if not d:
        return const(c // n)
    if all(v % n == 0 for v in d.values()):
        return _mklin(dict((k, v // n) for k, v in d.items()), c // n)
    return _mk('div', (a,), INT, n)


def mod(a, n):
    """a mod n for a positive constant n, kept as a - n*(a div n) so that linear forms normalise."""
    assert n > 0
    if n == 1:
        return const(0)
    d, c = _lin(a)
    a = _mklin(dict((k, v % n) for k, v in d.items()), c % n)
    if is_const(a):
        return const(a.val % n)
    return sub(a, scale(div(a, n), n))


def le(a, b):
    d = sub(a, b)
    if is_const(d):
        return const(d.val <= 0)
    return _mk('<=0', (d,), BOOL)


def lt(a, b):
    return le(add(a, const(1)), b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == BOOL:
        if is_const(a):
            return b if a.val else not_(b)
        if is_const(b):
            return a if b.val else not_(a)
        return _mk('=', (a, b) if a.id < b.id else (b, a), BOOL)
    if a.sort == INT:
        d = sub(a, b)
        if is_const(d):
            return const(d.val == 0)
        if d.op == 'lin':
            if d.val[1] < 0:
                d = neg(d)
        return _mk('=0', (d,), BOOL)
    return _mk('=', (a, b) if a.id < b.id else (b, a), BOOL)


def not_(a):
    if is_const(a):
        return const(not a.val)
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), BOOL)


def and_(*ts):
    out = []
    for t in ts:
        if is_const(t):
            if not t.val:
                return FALSE
        elif t.op == 'and':
            out.extend(t.args)
        else:
            out.append(t)
    seen = set()
    res = []
    for t in out:
        if t.id not in seen:
            seen.add(t.id)
            res.append(t)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return _mk('and', res, BOOL)


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if is_const(c):
        return a if c.val else b
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.sort)


def select(arr, i):
    return _mk('select', (arr, i), INT)


def app(fn, args, sort=INT):
    return _mk('app', args, sort, fn)


def _n(v):
    return str(v) if v >= 0 else '(- %d)' % -v


def _sym(name):
    return '|%s|' % name


def render(t, names):
    """SMT-LIB text of one node; children rendered through ``names`` (id -> text)."""
    op = t.op
    a = [names[x.id] for x in t.args]
    if op == 'const':
        return ('true' if t.val else 'false') if t.sort == BOOL else _n(t.val)
    if op == 'var':
        return _sym(t.val)
    if op == 'lin':
        parts = []
        for x, v in zip(a, t.val[1:]):
            parts.append(x if v == 1 else '(* %s %s)' % (_n(v), x))
        if t.val[0]:
            parts.append(_n(t.val[0]))
        return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
    if op == '*':
        return '(* %s %s)' % tuple(a)
    if op == 'div':
        return '(div %s %d)' % (a[0], t.val)
    if op == '<=0':
        return '(<= %s 0)' % a[0]
    if op == '=0':
        return '(= %s 0)' % a[0]
    if op in ('=', 'not', 'and', 'ite', 'select'):
        return '(%s %s)' % (op, ' '.join(a))
    if op == 'app':
        return '(%s %s)' % (_sym(t.val), ' '.join(a)) if a else _sym(t.val)
    raise AssertionError(op)


def to_smt(t):
    """Renders a term as text, let-binding shared nodes."""
    count, order, stack = {}, [], [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            order.append(x)
            continue
        count[x.id] = count.get(x.id, 0) + 1
        if count[x.id] > 1:
            continue
        stack.append((x, True))
        for y in x.args:
            stack.append((y, False))
    names, lets = {}, []
    for x in order:
        text = render(x, names)
        if count[x.id] > 1 and x.args and x is not t:
            n = '?%d' % x.id
            lets.append((n, text))
            names[x.id] = n
        else:
            names[x.id] = text
    out = names[t.id]
    for n, text in reversed(lets):
        out = '(let ((%s %s)) %s)' % (n, text, out)
    return out


def show(t):
    names = {}

    def go(x):
        if x.id in names:
            return
        for y in x.args:
            go(y)
        names[x.id] = render(x, names)
    go(t)
    s = names[t.id]
    return s if len(s) < 400 else s[:400] + '...'


def symbols(ts):
    """Free variables and uninterpreted functions: (vars dict name->sort, fns dict name->(argsorts, sort))."""
    vs, fs, seen, stack = {}, {}, set(), list(ts)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            vs[x.val] = x.sort
        elif x.op == 'app':
            fs[x.val] = (tuple(a.sort for a in x.args), x.sort)
        stack.extend(x.args)
    return vs, fs
