"""Concrete interpretation of a unit: the same harness on the real, un-instrumented code, for replay and sampling."""


class Stop(BaseException):
    """Nothing more to check after what has failed."""


class Skip(BaseException):
    """The inputs do not satisfy the unit's precondition."""


def truth(cond):
    """Conditions may be stated as terms; with concrete inputs they are constants."""
    if hasattr(cond, 'op') and hasattr(cond, 'args'):
        if cond.op != 'const':
            raise LookupError('a condition that is not concrete')
        return bool(cond.val)
    return bool(cond)


class ConcCtx(object):
    mode = 'conc'
    concrete = True

    def __init__(self, inputs=None, rng=None):
        self.given = inputs
        self.rng = rng
        self.used = {}
        self.failures = []
        self.proved = 0
        self.ghost = {}

    def _get(self, name, gen):
        if name in self.used:
            return self.used[name]
        if self.given is not None and self.given.get(name) is not None:
            v = self.given[name]
            if v == ['none']:
                v = None
            elif isinstance(v, list) and v and v[0] == 'bytes':
                v = bytes(bytearray(v[1]))
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, example=None):
        v = self._get(name, lambda: self._int(lo, hi))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        return v

    def _int(self, lo, hi):
        r = self.rng
        if r is None:
            return lo if lo is not None else 0
        if lo is not None and hi is not None and (hi - lo < 300 or r.random() < .5):
            return r.choice([lo, hi, r.randint(lo, hi)])
        k = r.choice([0, 1, 3, 6, 7, 8, 13, 14, 15, 20, 21, 28, 31, 32, 35, 56, 63, 64, 70, 112, 128, 133])
        v = (1 << k) + r.choice([-2, -1, 0, 1, 2, r.randrange(1 << k)])
        if r.random() < .3:
            v = r.randint(-40, 200)
        elif lo is None and r.random() < .5:
            v = -v
        if lo is not None and v < lo:
            v = lo + abs(v - lo) % 1000
        if hi is not None and v > hi:
            v = lo + v % (hi - lo + 1) if lo is not None else hi - abs(v) % 1000
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5 if self.rng else False))

    def choice(self, name, options):
        i = self._get(name, lambda: self.rng.randrange(len(options)) if self.rng else 0)
        if i >= len(options):
            raise Skip()
        return options[i]

    def bytes(self, name, minlen=0, maxlen=None):
        def gen():
            r = self.rng
            if r is None:
                return b'\0' * minlen
            n = minlen + r.choice([0, 1, 2, 3, 5, 8, 13, 14, 20])
            if maxlen is not None:
                n = min(n, maxlen)
            return bytes(bytearray(r.randrange(256) for _ in range(n)))
        v = self._get(name, gen)
        if len(v) < minlen or maxlen is not None and len(v) > maxlen:
            raise Skip()
        return v

    def opaque(self, name, nonnull=False):
        def gen():
            r = self.rng
            return r.choice(([] if nonnull else [None]) + [0, False, '', (), 'x', 12, object(), lambda: 3]) if r else object()
        return self._get(name, gen)

    def seq(self, name, elem):
        k = self._get('len_' + name, lambda: self.rng.randrange(4) if self.rng else 2)
        return tuple(elem('%s[%d]' % (name, i), True) for i in range(k))

    def assume(self, cond):
        if not truth(cond):
            raise Skip()
    require = assume

    def prove(self, cond, name, kind='post'):
        self.proved += 1
        if not truth(cond):
            self.failures.append(name)

    def decide(self, cond):
        return truth(cond)

    def fail(self, name, detail, kind='post'):
        self.failures.append('%s: %s' % (name, detail))

    def cover(self, name):
        pass


def run_concrete(fn, inputs=None, rng=None, may_raise=()):
    """Returns (failures, inputs used) or None when the precondition does not hold."""
    from . import watchdog
    c = ConcCtx(inputs, rng)
    try:
        watchdog.start(20)
        fn(c)
    except Skip:
        return None
    except Stop:
        pass
    except watchdog.Hang as e:
        c.failures.append('the code does not end within 20 s: %s' % e)
    except RecursionError as e:
        return [], c.used
    except Exception as e:
        from .engine import in_harness
        if in_harness(e):
            return None
        if not isinstance(e, may_raise):
            import traceback
            c.failures.append('no unexpected exception: %s: %s' % (type(e).__name__, e))
            c.tb = traceback.format_exc()
    finally:
        watchdog.stop()
    return c.failures, c.used
