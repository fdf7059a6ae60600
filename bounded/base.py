"""Driver of the bounded stand-ins: seeded, sharded, time-limited, with recorded failing cases."""
import hashlib
import random
import time

from pyvc import watchdog

LIMIT = 40


class Run(object):
    class Stop(Exception):
        pass

    def __init__(self, pid, seed, shard, shards, tier, seconds):
        self.pid, self.seed, self.shard, self.shards, self.tier, self.seconds = pid, seed, shard, shards, tier, seconds
        self.t0 = self.wound = time.time()
        self.evaluations = 0
        self.seen = set()
        self.failures = []
        self.samples = []
        self.cases = {}
        self.notes = []
        self.crash = None
        self.bound = self.rule = None
        self.rng = random.Random('%s/%s/%s' % (pid, seed, shard))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def note(self, s):
        self.notes.append(s)

    def wind(self):
        self.wound = time.time()
        watchdog.start(LIMIT)

    def out_of_time(self):
        return time.time() - self.t0 > self.seconds

    def count(self, case, key=None):
        """Records one evaluation; ``key`` identifies a distinct non-trivial one."""
        self.evaluations += 1
        if self.evaluations % 16 == 0 or time.time() - self.wound > 1:
            self.wind()
        self.cases[case] = self.cases.get(case, 0) + 1
        if key is not None:
            self.seen.add(hashlib.md5(('%s|%s' % (case, key)).encode('utf-8', 'surrogatepass')).digest()[:8])

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append(dict((k, _short(v)) for k, v in kw.items()))

    def fail(self, case, what, **inputs):
        self.failures.append({'case': case, 'what': _short(what, 600), 'inputs': dict((k, _short(v, 3000)) for k, v in inputs.items()),
                              'shard': self.shard, 'shards': self.shards, 'seed': self.seed, 'tier': self.tier,
                              'key': inputs.get('key')})
        if len(self.failures) >= 5:
            raise self.Stop()

    def share(self, items):
        """This shard's part of a finite enumeration."""
        for i, x in enumerate(items):
            if i % self.shards == self.shard:
                yield x

    def loop(self, n):
        """n iterations split over the shards, stopping when the time is used up."""
        for i in range(max(1, n // self.shards)):
            if self.out_of_time():
                self.note('time limit reached')
                return
            self.wind()
            yield i

    def result(self):
        return {'evaluations': self.evaluations, 'distinct': len(self.seen), 'failures': self.failures,
                'samples': self.samples, 'cases': self.cases, 'notes': self.notes, 'crash': self.crash,
                'bound': self.bound, 'rule': self.rule}


def _short(v, n=300):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)
