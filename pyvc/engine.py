"""Path-complete symbolic execution with contracts and loop invariants: the verification-condition generator.

A *unit* is a Python function ``unit(ctx)`` that builds symbolic inputs satisfying a precondition, calls the real
(instrumented) function, and states its postconditions with ``ctx.prove``.  The unit is re-executed once per feasible
path: every branch on a symbolic condition is a decision, and the exploration enumerates all of them, so the set of
obligations proved covers every execution.  Loops with an invariant are cut (establish / havoc+assume / preserve),
calls to functions under contract are replaced by their contracts.
"""
import time
import traceback

from . import watchdog
from . import terms as T
from .solver import Solver, oneshot, STATS


class PathEnd(BaseException):
    """This path needs no further exploration (e.g. the end of an arbitrary loop iteration)."""


class Infeasible(BaseException):
    """The assumptions on this path are contradictory."""


class Unsupported(BaseException):
    """The code under verification left the subset the engine models."""


_current = [None]


def ctx():
    return _current[0]


class Obligation(object):
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.discharged = 0
        self.by = {}
        self.failed = []      # (path description, model)
        self.undecided = []   # reasons

    def status(self):
        if self.failed:
            return 'failed'
        if self.undecided:
            return 'undecided'
        return 'discharged'


class Family(object):
    """Terms f(fixed..., k) related by a step equation; instances are added when two indices differ by a constant."""

    def __init__(self):
        self.by_key = {}


class SymCtx(object):
    mode = 'sym'
    concrete = False

    def __init__(self, result, solver, prefix, limit=600):
        self.result = result
        self.solver = solver
        self.prefix = prefix
        self.limit = limit
        self.trace = []        # (chosen, [remaining alternatives])
        self.pc = []
        self.pcset = set()
        self.inputs = []       # (name, kind, data)
        self.declared = []
        self.counters = {}
        self.families = {}
        self.foralls = {}      # array term id -> list of (lo, hi, fn(idx, sel))
        self.selects = {}      # array term id -> {idx id: (idx, sel)}
        self.serial = 0
        self.loops = []
        self.msg = 0
        self.contracts = {}
        self.loopspecs = {}
        self.notes = []
        self.ghost = {}

    # -- bookkeeping ------------------------------------------------------------------------------------------
    def next_serial(self):
        self.serial += 1
        return self.serial

    def fresh_name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh(self, base='t', sort=T.INT):
        return T.var(self.fresh_name(base), sort)

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)

    # -- assumptions ------------------------------------------------------------------------------------------
    def assume(self, cond):
        t = as_cond(cond)
        if T.is_const(t):
            if not t.val:
                raise Infeasible()
            return
        if t.op == 'and':
            for a in t.args:
                self.assume(a)
            return
        if t.id not in self.pcset:
            self.pcset.add(t.id)
            self.pc.append(t)

    def known(self, t):
        if T.is_const(t):
            return t.val
        if t.id in self.pcset:
            return True
        n = T.not_(t)
        if n.id in self.pcset:
            return False
        return None

    # -- inputs -----------------------------------------------------------------------------------------------
    def _input(self, name, kind, data, decl=()):
        self.inputs.append((name, kind, data))
        self.declared.extend(decl)

    def int(self, name, lo=None, hi=None, example=None):
        """A symbolic integer input, lo <= x <= hi."""
        from .proxies import SymInt
        t = T.var('in_' + name)
        self._input(name, 'int', t, [t])
        if lo is not None:
            self.assume(T.le(T.const(lo), t))
        if hi is not None:
            self.assume(T.le(t, T.const(hi)))
        return SymInt(t)

    def bool(self, name):
        from .proxies import SymBool
        t = T.var('in_' + name, T.BOOL)
        self._input(name, 'bool', t, [t])
        return SymBool(t)

    def choice(self, name, options):
        """One path per option."""
        i = self.choose(len(options))
        self._input(name, 'choice', i)
        return options[i]

    def bytes(self, name, minlen=0, maxlen=None):
        """A symbolic byte string."""
        from .proxies import VBytes, View, byte_range
        a = T.var('in_' + name, T.ARR)
        n = T.var('in_len_' + name)
        byte_range(a)
        self.assume(T.le(T.const(minlen), n))
        if maxlen is not None:
            self.assume(T.le(n, T.const(maxlen)))
        self._input(name, 'bytes', (a, n), [n, T.select(a, T.const(0))])
        return VBytes([View(a, T.const(0), n)])

    def require(self, cond):
        self.assume(cond)

    def opaque(self, name, nonnull=False):
        """An arbitrary value that the code may only pass on."""
        from .proxies import Opaque
        o = Opaque(name, nonnull)
        self._input(name, 'opaque', o)
        return o

    def seq(self, name, elem):
        """A sequence of arbitrary length of values like ``elem(name)``."""
        from .proxies import AbstractSeq
        return AbstractSeq(name, elem(name + '[i]', True))

    # -- decisions --------------------------------------------------------------------------------------------
    def _next(self):
        i = len(self.trace)
        if i >= self.limit:
            raise Unsupported('more than %d decisions on one path' % self.limit)
        return self.prefix[i] if i < len(self.prefix) else None

    def decide(self, cond):
        t = as_cond(cond)
        k = self.known(t)
        if k is not None:
            return k
        forced = self._next()
        if forced is None:
            self.result.check_budget()
            n = T.not_(t)
            r1 = self.solver.check(self.pc, t)[0]
            r2 = self.solver.check(self.pc, n)[0] if r1 != 'unsat' else 'sat'
            if r1 == 'unsat':
                self.trace.append((False, []))
            elif r2 == 'unsat':
                self.trace.append((True, []))
            else:
                self.trace.append((True, [False]))
            val = self.trace[-1][0]
        else:
            val = forced
            self.trace.append((val, []))
        self.assume(t if val else T.not_(t))
        return val

    def choose(self, n):
        """An n-way split with no condition attached."""
        if n == 1:
            return 0
        forced = self._next()
        if forced is None:
            self.trace.append((0, list(range(1, n))))
            return 0
        self.trace.append((forced, []))
        return forced

    def value_of(self, t, limit=1100):
        """A feasible value of t, one path per value (t must have finitely many)."""
        while not T.is_const(t):
            forced = self._next()
            if forced is None:
                self.result.check_budget()
                r, vals, _ = self.solver.check(self.pc, None, lambda ev: ev([t]), [t])
                if r == 'unsat':
                    raise Infeasible()
                if r != 'sat':
                    raise Unsupported('values of a term: no answer')
                v = vals[0]
                limit -= 1
                if limit < 0:
                    raise Unsupported('a term with too many values')
                other = self.solver.check(self.pc, T.not_(T.eq(t, T.const(v))))[0]
                forced = (True, v)
                self.trace.append((forced, [] if other == 'unsat' else [(False, v)]))
            else:
                self.trace.append((forced, []))
            yes, v = forced
            e = T.eq(t, T.const(v))
            if yes:
                self.assume(e)
                return v
            self.assume(T.not_(e))
        return t.val

    def valid(self, cond):
        """True when the solver shows ``cond`` follows from the path; records no obligation and splits no path."""
        t = as_cond(cond)
        k = self.known(t)
        if k is not None:
            return k
        return self.solver.check(self.pc, T.not_(t))[0] == 'unsat'

    def feasible(self):
        return self.solver.check(self.pc)[0] != 'unsat'

    # -- obligations ------------------------------------------------------------------------------------------
    def prove(self, cond, name, kind='post'):
        t = as_cond(cond)
        if self.replaying:
            self.assume_quiet(t)
            return
        ob = self.result.obligation(name, kind)
        if self.known(t) is True:
            ob.discharged += 1
            ob.by['simplifier'] = ob.by.get('simplifier', 0) + 1
            return
        self.result.check_budget()
        n = T.not_(t)
        r, model, by = self.solver.check(self.pc, n, self.model, self.declared)
        if r == 'unknown':
            r, by = oneshot(self.pc, n)
        if r == 'unsat':
            ob.discharged += 1
            ob.by[by] = ob.by.get(by, 0) + 1
        elif r == 'sat':
            ob.failed.append((self.describe(), model))
            if kind in ('invariant', 'frame', 'shape'):
                self.result.tainted = True
        else:
            ob.undecided.append('solver gave no answer')
        self.assume_quiet(t)

    def assume_quiet(self, t):
        if T.is_const(t) and not t.val:
            raise PathEnd()
        self.assume(t)

    def fail(self, name, detail, kind='post'):
        """An obligation that fails on this path whatever the values (an exception escaped, say)."""
        if self.replaying:
            return
        ob = self.result.obligation(name, kind)
        r, model, by = self.solver.check(self.pc, None, self.model, self.declared)
        if r == 'unknown':
            r, by = oneshot(self.pc, None)
        if r == 'unsat':
            ob.discharged += 1
            ob.by[by] = ob.by.get(by, 0) + 1
        elif r == 'sat':
            ob.failed.append((detail + ' | ' + self.describe(), model))
        else:
            ob.undecided.append('feasibility of %s unknown' % detail)

    def cover(self, name):
        """A reachability point; a unit whose cover points are all unreachable proves nothing."""
        if self.replaying:
            return
        c = self.result.covers
        if c.get(name):
            return
        r = self.solver.check(self.pc)[0]
        c[name] = c.get(name) or r == 'sat'

    def describe(self):
        return ', '.join('%s' % (c,) for c, _ in self.trace[:60])

    def model(self, ev):
        """Concrete inputs, read off a solver model."""
        out = {}
        for name, kind, data in self.inputs:
            if kind in ('int', 'bool'):
                out[name] = ev([data])[0]
            elif kind == 'choice':
                out[name] = data
            elif kind == 'bytes':
                arr, ln = data
                n = min(ev([ln])[0], 300)
                vals = ev([T.select(arr, T.const(i)) for i in range(n)]) if n else []
                out[name] = ['bytes', [v % 256 for v in vals]]
            elif kind == 'opaque':
                out[name] = ['none'] if data.null else None
        return out

    # -- array and function axioms -----------------------------------------------------------------------------
    def select(self, arr, idx):
        s = T.select(arr, idx)
        seen = self.selects.setdefault(arr.id, {})
        if idx.id not in seen:
            seen[idx.id] = (idx, s)
            for lo, hi, fn in self.foralls.get(arr.id, ()):
                self._instance(lo, hi, fn, idx, s)
        return s

    def _instance(self, lo, hi, fn, idx, s):
        guard = T.and_(T.le(lo, idx), T.lt(idx, hi) if hi is not None else T.TRUE)
        if guard is T.FALSE:
            return
        self.assume(T.implies(guard, as_cond(fn(idx, s))))

    def forall(self, arr, lo, hi, fn):
        """Assumes fn(i, arr[i]) for lo <= i < hi (hi None: unbounded); instantiated at every select on arr."""
        self.foralls.setdefault(arr.id, []).append((lo, hi, fn))
        for idx, s in list(self.selects.get(arr.id, {}).values()):
            self._instance(lo, hi, fn, idx, s)

    def prove_forall(self, lo, hi, fn, name, kind='post'):
        """Proves fn(i) for an arbitrary i in [lo, hi)."""
        i = self.fresh('sk')
        g = T.and_(T.le(lo, i), T.lt(i, hi))
        self.prove(T.implies(g, as_cond(fn(i))), name, kind)

    def family(self, name, fixed, k, base=None, step=None, back=12):
        """The term name(fixed..., k); step(term_at_j, j) gives the term at j+1; base is the value at 0."""
        t = T.app(name, tuple(fixed) + (k,))
        key = (name,) + tuple(x.id for x in fixed)
        fam = self.families.setdefault(key, {})
        if k.id in fam:
            return t
        others = list(fam.values())
        fam[k.id] = k
        if base is not None and T.is_const(k) and k.val == 0:
            self.assume(T.eq(t, base))
        elif base is not None and not T.is_const(k):
            self.assume(T.implies(T.eq(k, T.const(0)), T.eq(t, base)))
        if step is not None:
            for k2 in others + ([T.const(0)] if base is not None and T.is_const(k) and 0 < k.val <= back else []):
                d = T.sub(k, k2)
                if T.is_const(d):
                    lo, n = (k2, d.val) if d.val > 0 else (k, -d.val)
                    if n > back:
                        continue
                    cur = T.app(name, tuple(fixed) + (lo,))
                    if base is not None and T.is_const(lo) and lo.val == 0:
                        cur = base
                    for j in range(n):
                        at = T.add(lo, T.const(j))
                        nxt = T.app(name, tuple(fixed) + (T.add(at, T.const(1)),))
                        e = T.eq(nxt, step(cur, at))
                        self.assume(T.implies(T.le(T.const(0), at), e) if base is not None else e)
                        cur = nxt
        return t


def as_cond(c):
    if isinstance(c, T.Term):
        return c
    if c is True:
        return T.TRUE
    if c is False:
        return T.FALSE
    t = getattr(type(c), '_vc_bool', None)
    if t is not None:
        return t(c)
    return T.const(bool(c))


class UnitResult(object):
    def __init__(self, name, seconds):
        self.name = name
        self.obs = {}
        self.covers = {}
        self.paths = 0
        self.cut = 0
        self.unsupported = []
        self.tainted = False
        self.deadline = time.time() + seconds
        self.functions = set()
        self.assumed = set()
        self.time = 0.0
        self.error = None

    def obligation(self, name, kind):
        ob = self.obs.get(name)
        if ob is None:
            ob = self.obs[name] = Obligation(name, kind)
        return ob

    def check_budget(self):
        if time.time() > self.deadline:
            raise Unsupported('time budget for this unit exhausted')

    def status(self):
        if self.error:
            return 'undecided'
        st = [o.status() for o in self.obs.values()]
        if 'failed' in st:
            if self.tainted:
                return 'undecided'
            return 'failed'
        if self.unsupported or 'undecided' in st or not st:
            return 'undecided'
        if not any(self.covers.values()):
            return 'undecided'
        return 'proved'


def explore(name, fn, contracts=None, loopspecs=None, seconds=120, setup=None, max_paths=4000, may_raise=()):
    """Runs ``fn(ctx)`` along every feasible path."""
    res = UnitResult(name, seconds)
    solver = Solver()
    t0 = time.time()
    work = [[]]
    hurry = False
    try:
        while work:
            prefix = work.pop()
            c = SymCtx(res, solver, prefix)
            c.contracts = contracts or {}
            c.loopspecs = loopspecs or {}
            res.paths += 1
            if res.paths > max_paths:
                res.unsupported.append('more than %d paths' % max_paths)
                break
            _current[0] = c
            watchdog.start(60)
            try:
                fn(c)
                c.cover('end of unit')
            except PathEnd:
                c.cover('end of a loop iteration') if not c.replaying else None
                res.cut += 1
            except Infeasible:
                pass
            except watchdog.Hang as e:
                res.unsupported.append(str(e))
                break               # the solver may be in the middle of an answer
            except Unsupported as e:
                watchdog.stop()
                if c.feasible():
                    res.unsupported.append('%s [%s]' % (e, _where(e)))
                    if 'time budget' in str(e):
                        break
            except Exception as e:
                if in_harness(e):
                    res.unsupported.append('the unit does not fit the code: %s: %s [%s]' % (type(e).__name__, e, _where(e)))
                elif not isinstance(e, may_raise):
                    c.fail('no unexpected exception', '%s: %s [%s]' % (type(e).__name__, e, _where(e)))
            finally:
                watchdog.stop()
                _current[0] = None
            refuted = sum(len(o.failed) for o in res.obs.values())
            if refuted >= 12:
                break               # refuted: further paths would only add to the list
            if refuted and not hurry:
                hurry = True
                res.deadline = min(res.deadline, time.time() + 20)
            for i in range(len(c.trace) - 1, len(prefix) - 1, -1):
                val, alts = c.trace[i]
                for a in alts:
                    work.append([v for v, _ in c.trace[:i]] + [a])
    finally:
        solver.close()
        _current[0] = None
        res.time = time.time() - t0
    return res


def in_harness(e):
    """True when the exception arose in the unit itself (a changed signature or attribute), not in the code."""
    if not isinstance(e, (AttributeError, TypeError, LookupError, NameError, ImportError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, (AttributeError, NameError, ImportError)) and tb and '/pyvc/' in tb[-1][0]:
        return True
    fr = [f for f in tb if '/pyvc/' not in f[0]]
    return not fr or '/units/' in fr[-1][0]


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if 'pyvc' not in f[0]]
    fr = fr[-3:] or tb[-2:]
    return ' < '.join('%s:%s %s' % (f[0].rsplit('/', 1)[-1], f[1], f[2]) for f in reversed(fr))
