"""History independence of a generator: the state it keeps between steps, read from its suspended frame.

A coroutine whose suspended frame after any history is a function of its last step only is proved for all histories by
proving one step from an arbitrary previous step: that the frame has this form is itself checked, by reaching the same
last step through different histories and comparing the frames.
"""


def frame(gen):
    """Local variables of a suspended generator (None when it has finished)."""
    f = gen.gi_frame
    if f is None:
        return None
    return dict((k, v) for k, v in f.f_locals.items() if not k.startswith('__vc'))


def _same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if type(a) in (int, str, bytes, bool):
        return a == b
    return False


def only_last_step(c, gens, what):
    """The generators, which took different histories to the same last step, are in the same state.  When they are not,
    the code may still be right, but one step no longer stands for all of them: undecided."""
    fs = [frame(g) for g in gens]
    for f in fs[1:]:
        if (f is None) != (fs[0] is None) or f is not None and (
                set(f) != set(fs[0]) or not all(_same(f[k], fs[0][k]) for k in f)):
            if c.concrete:
                return
            from .engine import Unsupported
            raise Unsupported('%s keeps state beyond its last step' % what)


# ---------------------------------------------------------------------------------------------------------------
# bisimulation of suspended machines

import datetime
import decimal
import types
from . import terms
from .live import live


class Differ(Exception):
    """Where two states differ."""


def same_state(a, b, equal=None, ignore=()):
    """Whether two networks of suspended coroutines, closures and plain objects have the same structure and the same data
    (``equal(x, y)`` may identify further leaves; ``ignore`` names attributes that only error messages use), so that
    they behave alike from here on.  Returns None, or where they differ."""
    seen = {}
    keep = []

    def differ(path, x, y):
        raise Differ('%s: %s and %s' % (path, describe(x), describe(y)))

    def walk(x, y, path):
        if x is y and not isinstance(x, types.GeneratorType):
            if type(x) in (int, str, bytes, bool, float, type(None)) or isinstance(x, (type, types.ModuleType)):
                return
        if equal is not None:
            r = equal(x, y)
            if r is not None:
                if not r:
                    differ(path, x, y)
                return
        if type(x) is not type(y):
            differ(path, x, y)
        k = id(x)
        if k in seen:
            if seen[k] is not y:
                if isinstance(x, (list, dict, types.GeneratorType)) or hasattr(x, '__dict__'):
                    differ(path + ' (shared)', x, y)
            else:
                return
        seen[k] = y
        keep.append((x, y))
        if isinstance(x, types.GeneratorType):
            f, g = x.gi_frame, y.gi_frame
            if x.gi_code is not y.gi_code or (f is None) != (g is None):
                differ(path, x, y)
            if f is None:
                return
            if f.f_lasti != g.f_lasti:
                differ(path + ' (suspended)', f.f_lineno, g.f_lineno)
            names = live(x)
            fx, fy = frame(x), frame(y)
            if names is not None:           # a variable that is assigned before it is read again is no state
                fx, fy = [dict((k, v) for k, v in f.items() if k in names) for f in (fx, fy)]
            walk_dict(fx, fy, path + '/' + x.gi_code.co_name)
        elif isinstance(x, types.FunctionType):
            if x.__code__ is not y.__code__:
                differ(path, x, y)
            cx, cy = x.__closure__ or (), y.__closure__ or ()
            for n, p, q in zip(x.__code__.co_freevars, cx, cy):
                p, q = cell(p), cell(q)
                walk(p, q, path + '/' + n)
        elif isinstance(x, types.MethodType):
            walk(x.__func__, y.__func__, path)
            walk(x.__self__, y.__self__, path + '.self')
        elif isinstance(x, dict):
            walk_dict(x, y, path)
        elif isinstance(x, (list, tuple, types_deque)):
            if len(x) != len(y):
                differ(path + ' (length)', len(x), len(y))
            for i, (p, q) in enumerate(zip(x, y)):
                walk(p, q, '%s[%d]' % (path, i))
        elif type(x) in (int, str, bytes, bytearray, bool, float, type(None)):
            if x != y:
                differ(path, x, y)
        elif isinstance(x, (type, types.ModuleType, types.BuiltinFunctionType)):
            if x is not y:
                differ(path, x, y)
        elif type(x).__name__ == 'Poison':
            return                              # a variable no one may read
        elif isinstance(x, terms.Term):
            if not terms.is_const(terms.eq(x, y)) or not terms.eq(x, y).val:
                differ(path, x, y)
        elif isinstance(x, decimal.Decimal) and not hasattr(x, '__dict__'):
            if repr(x) != repr(y):
                differ(path, x, y)
        elif isinstance(x, datetime.datetime):
            if x != y or x.utcoffset() != y.utcoffset() or repr(getattr(x, '__dict__', 0)) != repr(getattr(y, '__dict__', 0)):
                differ(path, x, y)
        elif hasattr(x, '__dict__'):
            import enum
            if isinstance(x, enum.Enum):
                if x is not y:
                    differ(path, x, y)
                return
            walk_dict(vars(x), vars(y), path)
        elif isinstance(getattr(type(x), '__slots__', None), (tuple, list)) and type(x).__slots__:
            for n in type(x).__slots__:
                walk(getattr(x, n, None), getattr(y, n, None), '%s.%s' % (path, n))
        elif x is not y:
            differ(path, x, y)

    def walk_dict(x, y, path):
        if set(map(str, x)) != set(map(str, y)):
            differ(path + ' (names)', sorted(map(str, x)), sorted(map(str, y)))
        for k in x:
            if k not in ignore:
                walk(x[k], y[k], '%s.%s' % (path, k))
    try:
        walk(a, b, '')
    except Differ as e:
        return str(e)
    return None


from collections import deque as types_deque


def cell(p):
    try:
        return p.cell_contents
    except ValueError:
        return None


def describe(x):
    return '%s %s' % (type(x).__name__, x if type(x) in (int, str, bytes, bool, float, list) else '')
