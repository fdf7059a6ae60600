"""Run-time hooks called by the instrumented code, the models of built-in functions, and loop/contract dispatch."""
import builtins
import collections
import collections.abc
import functools
import io
import operator
import struct
import types

from . import terms as T
from . import proxies as P
from .engine import ctx, _current, Unsupported, PathEnd, as_cond

is_sym = P.is_sym


# ---------------------------------------------------------------------------------------------------------------
# calls

MODELS = {}          # id(callable) -> (callable, model(*args, **kw))


def model(*fns):
    def deco(m):
        for f in fns:
            MODELS[id(f)] = (f, m)
        return m
    return deco


# Built-ins that only store, compare identities of, or pass on their arguments.
_PASS = set()
for _f in (isinstance, issubclass, getattr, hasattr, setattr, id, tuple, list, dict, iter, next, callable,
           functools.partial, super, slice, object.__setattr__, object.__new__, tuple.__new__, type, repr, zip, enumerate,
           reversed, map, filter, any, all, staticmethod, classmethod, property, collections.deque, BaseException.__new__):
    _PASS.add(id(_f))
_PASS_METHODS = {
    list: ('append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'copy'),
    dict: ('get', 'setdefault', 'pop', 'items', 'keys', 'values', 'update', 'clear', 'copy'),
    tuple: (),
    collections.deque: ('append', 'appendleft', 'popleft', 'pop', 'extend', 'clear'),
    collections.OrderedDict: ('get', 'setdefault', 'pop', 'items', 'keys', 'values'),
}


def has_sym(args, kw=()):
    for a in args:
        if is_sym(a):
            return True
        if type(a) in (tuple, list) and any(is_sym(x) for x in a):
            return True
    for k in kw:
        if is_sym(kw[k]):
            return True
    return False


_CODE = type((lambda: 0).__code__)       # PyPy: methods of built-in types are functions with another type of code


def vc_call(*fargs, **kw):
    f = fargs[0]
    args = fargs[1:]
    c = _current[0]
    if c is None:
        return f(*args, **kw)
    return dispatch(c, f, args, kw)


def dispatch(c, f, args, kw):
    while type(f) is functools.partial:
        args = f.args + tuple(args)
        k2 = dict(f.keywords or {})
        k2.update(kw)
        kw = k2
        f = f.func
    target, self_args = f, ()
    if isinstance(f, types.MethodType):
        target, self_args = f.__func__, (f.__self__,)
    con = c.contracts.get(id(target))
    if con is not None:
        return con.call(c, f, self_args + tuple(args), kw)
    m = MODELS.get(id(target))
    if m is not None:
        r = m[1](*(self_args + tuple(args)), **kw)
        if r is not NotImplemented:
            return r
        return f(*args, **kw)
    if isinstance(target, types.FunctionType) and type(target.__code__) is _CODE:
        c.result.functions.add('%s.%s' % (target.__module__, target.__qualname__)) \
            if target.__module__ and target.__module__.startswith('amazon') else None
        return f(*args, **kw)
    if isinstance(f, type):
        m = f.__dict__.get('__vc_model__')
        if m is not None:
            return m(*args, **kw)
        if issubclass(f, int) and f.__module__ is not None and f.__module__.startswith('amazon') and \
                '__new__' not in f.__dict__ and len(args) == 1 and is_sym(args[0]) and P.intlike(args[0]):
            from . import text
            return text.int_subclass(f, args, kw)
        if f.__module__ is not None and not f.__module__.startswith('amazon') and has_sym(args, kw) \
                and id(f) not in _PASS and not issubclass(f, BaseException) \
                and not f.__module__.startswith(('units', 'pyvc', '__main__')):
            raise Unsupported('constructor %s of a symbolic argument' % f.__name__)
        return f(*args, **kw)
    # a bound method of a native object, or a built-in function
    owner = getattr(f, '__self__', None)
    if owner is not None and not isinstance(owner, types.ModuleType):
        if is_sym(owner):
            return f(*args, **kw)
        name = getattr(f, '__name__', '')
        mm = NATIVE_METHODS.get((type(owner), name))
        if mm is not None:
            r = mm(owner, *args, **kw)
            if r is not NotImplemented:
                return r
        if name in MUTATORS and type(owner) in (list, dict, bytearray, set, collections.deque,
                                                collections.OrderedDict):
            P.ctx_write(owner)
        if has_sym(args, kw):
            ok = _PASS_METHODS.get(type(owner))
            if ok is None and not type(owner).__module__.startswith(('amazon', 'pyvc', 'units', '__main__')) \
                    and not isinstance(owner, types.GeneratorType) or ok is not None and name not in ok:
                raise Unsupported('method %s.%s of a symbolic argument' % (type(owner).__name__, name))
        return f(*args, **kw)
    if has_sym(args, kw) and id(f) not in _PASS and not getattr(f, '_vc_ok', False) and \
            isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)):
        raise Unsupported('built-in %s of a symbolic argument' % getattr(f, '__name__', f))
    return f(*args, **kw)


MUTATORS = frozenset(('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'reverse', 'sort', 'setdefault', 'update',
                      'popleft', 'appendleft', 'add', 'discard', '__setitem__', '__delitem__', 'popitem'))
NATIVE_METHODS = {}


def native(ty, name):
    def deco(fn):
        NATIVE_METHODS[(ty, name)] = fn
        return fn
    return deco


@native(list, 'append')
def _list_append(owner, x):
    P.ctx_write(owner)
    list.append(owner, x)
    return None


@native(bytearray, 'append')
def _ba_append(owner, x):
    if is_sym(x):
        raise Unsupported('append of a symbolic octet to a native bytearray')
    return NotImplemented


@native(bytearray, 'extend')
def _ba_extend(owner, x):
    if is_sym(x):
        raise Unsupported('extend of a native bytearray')
    return NotImplemented


@native(bytes, 'join')
def _join(owner, items):
    items = list(items)
    if not any(is_sym(i) for i in items):
        return owner.join(items)
    out = []
    for n, i in enumerate(items):
        if n:
            out += P.pieces_of(owner)
        out += P.pieces_of(i)
    return P.VBytes(out)


# ---------------------------------------------------------------------------------------------------------------
# built-ins

def _pass_unless_sym(fn):
    @functools.wraps(fn)
    def g(*args, **kw):
        if not has_sym(args, kw):
            return NotImplemented
        return fn(*args, **kw)
    return g


@model(len)
def m_len(x):
    f = getattr(type(x), 'vc_len', None)
    if f is not None:
        return f(x)
    f = getattr(type(x), '__len__', None)
    if f is not None and type(x).__module__.startswith('amazon') and isinstance(f, types.FunctionType):
        return vc_call(types.MethodType(f, x))      # a __len__ of the code under verification may be symbolic
    return len(x)


@model(ord)
def m_ord(x):
    if isinstance(x, (P.VBytes, P.VBuf)):
        n = P.total(x.pieces)
        c = ctx()
        if not c.decide(T.eq(n, T.const(1))):
            raise TypeError('ord() expected a character')
        return P.mkint(x.octet(T.const(0)))
    f = getattr(type(x), 'vc_ord', None)
    if f is not None:
        return f(x)
    return ord(x)


@model(min)
@_pass_unless_sym
def m_min(*args, **kw):
    if kw or len(args) == 1:
        raise Unsupported('min')
    r = args[0]
    for a in args[1:]:
        if a < r:
            r = a
    return r


@model(max)
@_pass_unless_sym
def m_max(*args, **kw):
    if kw or len(args) == 1:
        raise Unsupported('max')
    r = args[0]
    for a in args[1:]:
        if a > r:
            r = a
    return r


class SymRange(P.Sym):
    _vc_class = range

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


@model(range)
def m_range(*args):
    if not has_sym(args):
        return NotImplemented
    if len(args) == 1:
        return SymRange(0, args[0])
    if len(args) == 2:
        return SymRange(*args)
    raise Unsupported('range with a symbolic step')


@model(abs)
@_pass_unless_sym
def m_abs(x):
    return abs(x)


@model(divmod)
@_pass_unless_sym
def m_divmod(a, b):
    return a // b, a % b


@model(bool)
@_pass_unless_sym
def m_bool(x):
    return P.mkbool(as_cond(x)) if hasattr(type(x), '_vc_bool') else bool(x)


@model(int)
@_pass_unless_sym
def m_int(x=0, base=None):
    if base is None and P.intlike(x):
        return P.mkint(P.term(x))
    f = getattr(type(x), 'vc_int', None)
    if f is not None:
        return f(x) if base is None else f(x, base)
    raise Unsupported('int of a symbolic %s' % type(x).__name__)


@model(type)
def m_type(*args):
    if len(args) == 1 and is_sym(args[0]):
        return args[0].__class__
    return NotImplemented


@model(bytearray)
def m_bytearray(*args):
    if not args:
        return P.VBuf()
    x = args[0]
    if is_sym(x) and isinstance(x, (bytes, bytearray)):
        return P.VBuf(P.pieces_of(x))
    if isinstance(x, (bytes, bytearray)):
        return P.VBuf(P.pieces_of(x))
    if type(x) in (list, tuple, types.GeneratorType):
        b = P.VBuf()
        for i in x:
            b.append(i)
        return b
    raise Unsupported('bytearray()')


@model(bytes)
def m_bytes(*args):
    if args and is_sym(args[0]):
        return P.VBytes(P.pieces_of(args[0]))
    if args and type(args[0]) in (list, tuple) and has_sym(args[0]):
        b = P.VBuf()
        for i in args[0]:
            b.append(i)
        return P.VBytes(b.pieces)
    return NotImplemented


@model(io.BytesIO)
def m_bytesio(*args):
    if args and is_sym(args[0]):
        return P.VBytesIO(args[0])
    if not args:
        from . import text
        return text.VOut()
    return NotImplemented


@model(memoryview)
def m_memoryview(x):
    if is_sym(x):
        return P.VBytes(P.pieces_of(x))
    return NotImplemented


@model(iter)
def m_iter(x):
    f = getattr(type(x), 'vc_iter', None)
    if f is not None:
        return f(x)
    return NotImplemented


def _mapped(native_type):
    def m(*args):
        if len(args) != 1 or not isinstance(args[0], (types.GeneratorType, P.AbstractSeq)):
            return NotImplemented
        x = args[0]
        if isinstance(x, P.AbstractSeq):
            return P.AbstractSeq(x.name, x.elem, x.n)
        c = ctx()
        saved, rec = c.ghost.get('map'), []
        c.ghost['map'] = rec
        try:
            items = native_type(x)
        finally:
            c.ghost['map'] = saved
        if not rec:
            return items
        if len(rec) != 1 or len(items) != 1:
            raise Unsupported('a generator expression that is not an element-wise map')
        r = P.AbstractSeq(rec[0].name, items[0], rec[0].n)
        r.source = rec[0]
        return r
    return m


model(tuple)(_mapped(tuple))
model(list)(_mapped(list))


@model(operator.getitem)
def m_getitem(o, k):
    return vc_getitem(o, k)


_UNPACK = {'>Q': 8, '>I': 4, '>H': 2, '>B': 1}


@model(struct.unpack)
def m_unpack(fmt, data):
    if not is_sym(data):
        return NotImplemented
    n = _UNPACK.get(fmt)
    if n is not None:
        c = ctx()
        if not c.decide(T.eq(P.total(data.pieces), T.const(n))):
            raise struct.error('unpack requires a buffer of %d bytes' % n)
        t = T.const(0)
        for i in range(n):
            t = T.add(T.scale(t, 256), data.octet(T.const(i)))
        return (P.mkint(t),)
    f = UNPACK_HOOK.get(fmt)
    if f is not None:
        return f(data)
    raise Unsupported('unpack %s' % fmt)


UNPACK_HOOK = {}


@model(sum)
@_pass_unless_sym
def m_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


# ---------------------------------------------------------------------------------------------------------------
# subscripts, membership, formatting

def vc_slice(a, b, s):
    return slice(a, b, s)


def vc_getitem(o, k):
    if _current[0] is None:
        return o[k]
    f = getattr(type(o), 'vc_getitem', None)
    if f is not None:
        return f(o, k)
    if issubclass(type(k), (P.SymInt, P.SymBool)):
        if isinstance(o, dict):
            return _dict_get(o, k)
        if isinstance(o, (list, tuple, bytes, bytearray)):
            return _seq_get(o, k)
    if isinstance(k, slice) and has_sym((k.start, k.stop)):
        if isinstance(o, (bytes, bytearray)):
            return P.VBytes(P.pieces_of(o)).vc_getitem(k)
    f = getattr(type(o), '__getitem__', None)
    if isinstance(f, types.FunctionType) and (f.__module__ or '').startswith('amazon'):
        return vc_call(types.MethodType(f, o), k)
    return o[k]


def _seq_get(o, k):
    """A native table indexed by a symbolic integer: one path per entry."""
    c = ctx()
    n = len(o)
    t = P.term(k)
    if c.decide(T.and_(T.le(T.const(0), t), T.lt(t, T.const(n)))):
        pass
    elif c.decide(T.and_(T.le(T.const(-n), t), T.lt(t, T.const(0)))):
        t = T.add(t, T.const(n))
    else:
        raise IndexError('index out of range')
    if isinstance(o, (bytes, bytearray)) or all(type(x) is int for x in o):
        if n <= 1024:
            # A table of constants: expressed as a function of the index.
            r = T.const(o[n - 1])
            for i in range(n - 2, -1, -1):
                r = T.ite(T.eq(t, T.const(i)), T.const(o[i]), r)
            return P.mkint(r)
    return o[c.value_of(t)]


_MISSING = object()


def _dict_find(o, k):
    """A native dict at a symbolic integer: one path per distinct value (and one for a missing key)."""
    c = ctx()
    t = P.term(k)
    groups = {}
    for key in o:
        if isinstance(key, int) and not is_sym(key):
            v = o[key]
            groups.setdefault(('int', v) if type(v) is int else id(v), []).append(key)
    for keys in groups.values():
        if c.decide(T.or_(*[T.eq(t, T.const(int(key))) for key in keys])):
            return keys[0]
    return _MISSING


def _dict_get(o, k):
    key = _dict_find(o, k)
    if key is _MISSING:
        if isinstance(o, collections.defaultdict) and o.default_factory is not None:
            return o.default_factory()
        raise KeyError('<symbolic>')
    return o[key]


@model(getattr(collections.abc.MutableSequence, 'append'))
def _seq_append(self, x):
    n = vc_call(len, self)
    if not is_sym(n):
        return NotImplemented
    vc_call(self.insert, n, x)


@native(dict, 'get')
def _dict_get_m(owner, k, default=None):
    if issubclass(type(k), P.SymInt):
        key = _dict_find(owner, k)
        return default if key is _MISSING else owner[key]
    return NotImplemented


def vc_setitem(o, k, v):
    if _current[0] is None:
        o[k] = v
        return
    f = getattr(type(o), 'vc_setitem', None)
    if f is not None:
        f(o, k, v)
        return
    if is_sym(k):
        raise Unsupported('store at a symbolic key of a native container')
    f = getattr(type(o), '__setitem__', None)
    if isinstance(f, types.FunctionType) and (f.__module__ or '').startswith('amazon'):
        vc_call(types.MethodType(f, o), k, v)
        return
    o[k] = v


def vc_delitem(o, k):
    if _current[0] is None:
        del o[k]
        return
    f = getattr(type(o), 'vc_delitem', None)
    if f is not None:
        f(o, k)
        return
    if is_sym(k):
        raise Unsupported('deletion at a symbolic key of a native container')
    del o[k]


def vc_in(a, b):
    if _current[0] is None:
        return a in b
    f = getattr(type(b), 'vc_contains', None)
    if f is not None:
        return f(b, a)
    if issubclass(type(a), (P.SymInt, P.SymBool)):
        if isinstance(b, (dict, set, frozenset, list, tuple)):
            t = P.term(a)
            return P.mkbool(T.or_(*[T.eq(t, T.const(int(x))) for x in b if isinstance(x, int)]))
        if type(b) is range and b.step == 1:
            t = P.term(a)
            return P.mkbool(T.and_(T.le(T.const(b.start), t), T.lt(t, T.const(b.stop))))
    if is_sym(a) and isinstance(b, (bytes, bytearray)):
        raise Unsupported('membership of symbolic bytes')
    if is_sym(a) and isinstance(b, (set, frozenset, dict)):
        f = getattr(type(a), 'vc_in', None)
        if f is not None:
            return f(a, b)
    return a in b


def vc_is(a, b):
    if a is b:
        return True
    if type(a) is P.Opaque or type(b) is P.Opaque:
        if type(a) is not P.Opaque:
            a, b = b, a
        return a.vc_is(b)
    if isinstance(a, P.SymInt) or isinstance(b, P.SymInt):
        if not P.intlike(a) or not P.intlike(b) or isinstance(a, bool) or isinstance(b, bool):
            return False
        for x in (a, b):
            if not _current[0].valid(T.and_(T.le(T.const(-5), P.term(x)), T.le(P.term(x), T.const(256)))):
                raise Unsupported('identity of integers')
        return P.mkbool(T.eq(P.term(a), P.term(b)))
    f = getattr(type(a), 'vc_is', None) or None
    if f is not None:
        return f(a, b)
    f = getattr(type(b), 'vc_is', None)
    if f is not None:
        return f(b, a)
    return False


def vc_mod(a, b):
    if _current[0] is None:
        return a % b
    if isinstance(a, (str, bytes)) and not is_sym(a):
        if (is_sym(b) or has_sym((b,))):
            if _current[0].msg:
                return '<symbolic message>'
            f = FORMAT.get('%')
            if f is not None:
                r = f(a, b)
                if r is not NotImplemented:
                    return r
            raise Unsupported('formatting of a symbolic value')
    return a % b


FORMAT = {}


def vc_touch(o):
    c = _current[0]
    if c is not None and c.loops:
        P.ctx_write(o)


def vc_msg(n):
    c = _current[0]
    if c is not None:
        c.msg += n


# ---------------------------------------------------------------------------------------------------------------
# loops

class Poison(P.Sym):
    """The value of a variable the loop may have changed and about which the invariant says nothing."""
    _vc_class = None

    def __init__(self, name):
        self.name = name

    def __getattribute__(self, k):
        if k in ('name', '_no', '__dict__', '_text', '_vc_sym') or k.startswith('__vc'):
            return object.__getattribute__(self, k)
        if k == '__class__':
            return Poison
        raise Unsupported('use of loop variable %s, which no invariant constrains' % object.__getattribute__(self, 'name'))

    def __bool__(self):
        raise Unsupported('use of loop variable %s, which no invariant constrains' % self.name)

    def __eq__(self, o):
        raise Unsupported('use of loop variable %s, which no invariant constrains' % self.name)
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __eq__


class State(object):
    """Local variables as attributes."""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, k):
        raise Unsupported('loop has no variable %s' % k)


class LoopSpec(object):
    """Invariant of one loop.  Subclasses define:

    setup(ctx, S)   record entry values on self; declare the heap objects the loop may change in self.writes
    havoc(ctx, S)   give fresh values: assign attributes of S for locals, mutate the declared heap objects
    inv(ctx, S)     yield (name, condition), or call ctx.prove_forall via inv_prove/inv_assume
    """
    writes = ()

    def setup(self, c, S):
        pass

    def havoc(self, c, S):
        pass

    def inv(self, c, S):
        return ()

    def leave(self, c):
        """Called when the loop is left: a place to instantiate spec functions at the exit point."""

    def inv_prove(self, c, S):
        """Extra quantified facts to prove."""

    def inv_assume(self, c, S):
        """Extra quantified facts to assume."""


class Locals(dict):
    def __missing__(self, k):
        return Poison(k)         # not yet assigned


class Loop(object):
    def __init__(self, c, key, spec, local, modified, it):
        self.c, self.key, self.spec, self.modified = c, key, spec, modified
        self.it = it
        self.tops = 0
        self.entry_serial = c.next_serial()
        self.short = key.rsplit('.', 1)[-1]
        self.index = None
        spec.iter = it
        self.phased = hasattr(spec, 'phase')
        if not self.phased:
            spec.setup(c, State(local))
        self.allowed = set(id(o) for o in spec.writes)
        self.active = False

    def on_write(self, obj):
        if not self.active or id(obj) in self.allowed:
            return
        if getattr(obj, 'serial', None) is not None and is_sym(obj) and obj.serial > self.entry_serial:
            return
        raise Unsupported('loop %s changes an object its frame does not list (%s)' % (self.short, type(obj).__name__))

    def top(self, local):
        c, spec = self.c, self.spec
        if self.phased:
            # A phased loop runs as it is until its spec recognises a phase; the phase is cut by the invariant, and the
            # loop runs on as it is after it.
            if spec.phase(c, State(local)):
                if not self.active:
                    self.tops = 0
                    spec.setup(c, State(local))
                    self.entry_serial = c.next_serial()
                    self.allowed = set(id(o) for o in spec.writes)
            else:
                if self.active:
                    spec.leave(c)
                    self.active = False
                    c.loops.remove(self)
                return Locals(local)
        if self.tops == 0:
            self.tops = 1
            if isinstance(self.it, SymRange):
                self.index = T.sub(P.term(self.it.lo), T.const(0))
            elif self.it is not None:
                self.index = T.const(0)
            S = State(local)
            S.index = P.mkint(self.index) if self.index is not None else None
            for n, cond in spec.inv(c, S):
                c.prove(cond, 'loop %s: %s holds on entry' % (self.short, n), 'invariant')
            spec.inv_prove(c, S)
            d = dict(local)
            for m in self.modified:
                d[m] = Poison(m)
            S = State(d)
            if self.index is not None:
                self.index = c.fresh('i')
                S.index = P.SymInt(self.index)
                lo, hi = self.bounds()
                c.assume(T.and_(T.le(lo, self.index), T.or_(T.le(self.index, hi), T.eq(self.index, lo))))
            spec.havoc(c, S)
            for n, cond in spec.inv(c, S):
                c.assume(cond)
            spec.inv_assume(c, S)
            c.loops.append(self)
            self.active = True
            return S.__dict__
        S = State(local)
        if self.index is not None:
            S.index = P.mkint(self.index)
        for n, cond in spec.inv(c, S):
            c.prove(cond, 'loop %s: %s is preserved' % (self.short, n), 'invariant')
        spec.inv_prove(c, S)
        raise PathEnd()

    def bounds(self):
        if isinstance(self.it, SymRange):
            return P.term(self.it.lo), P.term(self.it.hi)
        n = self.spec.length(self.c)
        return T.const(0), P.term(n)

    def has_next(self):
        lo, hi = self.bounds()
        return self.c.decide(T.lt(self.index, hi))

    def next(self):
        i = self.index
        self.index = T.add(i, T.const(1))
        if isinstance(self.it, SymRange):
            return P.mkint(i)
        return self.spec.item(self.c, P.mkint(i))

    def done(self):
        if self.active:
            self.spec.leave(self.c)
        self.active = False
        if self in self.c.loops:
            self.c.loops.remove(self)


def vc_loop(key, local, modified, it):
    c = _current[0]
    if c is None:
        return None
    mk = c.loopspecs.get(key)
    if mk is None:
        if is_sym(it) and not hasattr(type(it), '__next__') and not (
                hasattr(type(it), 'vc_finite') and it.vc_finite()):
            raise Unsupported('loop %s over a symbolic sequence has no invariant' % key)
        return None
    spec = mk()
    try:
        spec.modified = modified
        if hasattr(spec, 'applies') and not spec.applies(c, State(local), it):
            return None
        return Loop(c, key, spec, local, modified, it)
    except Unsupported:
        if is_sym(it):
            raise
        return None


HOOKS = {
    '__vc_call__': vc_call,
    '__vc_getitem__': vc_getitem,
    '__vc_setitem__': vc_setitem,
    '__vc_delitem__': vc_delitem,
    '__vc_slice__': vc_slice,
    '__vc_in__': vc_in,
    '__vc_is__': vc_is,
    '__vc_mod__': vc_mod,
    '__vc_touch__': vc_touch,
    '__vc_msg__': vc_msg,
    '__vc_loop__': vc_loop,
}

from . import text as _text      # registers its models
from . import floats as _floats  # likewise
