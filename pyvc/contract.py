"""Contracts: resolution of the functions they describe, and the registry of units that discharge them."""
import importlib
import inspect

from .engine import Unsupported


def resolve(path):
    """'module:Qual.name' -> the function object (undecorated of staticmethod/classmethod)."""
    mod, qual = path.split(':')
    o = importlib.import_module(mod)
    for part in qual.split('.'):
        if isinstance(o, type) and part.startswith('__') and not part.endswith('__'):
            part = '_%s%s' % (o.__name__.lstrip('_'), part)
        d = o.__dict__ if isinstance(o, type) else vars(o)
        if part not in d:
            raise LookupError('%s has no %s' % (mod, qual))
        o = d[part]
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
    return o


class Contract(object):
    """A callee's contract as seen by its callers.

    target   'module:qualname' of the function it describes
    apply    (ctx, **arguments by parameter name) -> result: proves the requires, assumes the ensures, returns the
             fresh result and performs the declared heap changes
    proved   name of the unit that discharges the contract against the function's body (None: trusted)
    """
    target = None
    proved = None

    def params(self, fn):
        return inspect.signature(fn)

    def call(self, c, f, args, kw):
        fn = self.fn
        try:
            b = self.params(fn).bind(*args, **kw)
        except TypeError as e:
            raise Unsupported('contract of %s does not fit the call: %s' % (self.target, e))
        b.apply_defaults()
        c.result.assumed.add(self.target)
        try:
            return self.apply(c, **b.arguments)
        except TypeError as e:
            if 'apply()' in str(e):
                raise Unsupported('contract of %s does not fit its signature' % self.target)
            raise

    def apply(self, c, **kw):
        raise NotImplementedError


class Unit(object):
    def __init__(self, name, fn, contracts=(), loops=(), of=(), may_raise=(), seconds=120, samples=200, note=None,
                 replay=True):
        self.name, self.fn = name, fn
        self.contracts, self.loops = list(contracts), list(loops)
        self.of = list(of)            # functions whose body this unit verifies
        self.may_raise = may_raise
        self.seconds, self.samples, self.note = seconds, samples, note
        self.replay = replay

    def tables(self):
        """(contracts by id of function, loop specs by key); a missing function leaves its contract out."""
        cs, missing = {}, []
        for k in self.contracts:
            con = k() if isinstance(k, type) else k
            try:
                con.fn = resolve(con.target)
            except (LookupError, ImportError) as e:
                missing.append(str(e))
                continue
            cs[id(con.fn)] = con
        ls = {}
        for l in self.loops:
            ls[l.key] = l
        return cs, ls, missing
