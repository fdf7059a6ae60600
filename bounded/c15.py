from . import spec, gen, lib
from .spec import V
from amazon.ion.core import Multimap
from amazon.ion.simple_types import IonPyDict
from amazon.ion.simpleion import loads


class Model(object):
    """Names in first-seen order with their values."""
    def __init__(self):
        self.names, self.vals = [], {}

    def add(self, k, v):
        if k not in self.vals:
            self.names.append(k)
            self.vals[k] = []
        self.vals[k].append(v)

    def set(self, k, v):
        if k not in self.vals:
            self.names.append(k)
        self.vals[k] = [v]

    def delete(self, k):
        self.names.remove(k)
        del self.vals[k]

    def items(self):
        return [(k, v) for k in self.names for v in self.vals[k]]


def check(r, m, ref, log):
    want = ref.items()
    if list(m.items()) != want or list(m.iteritems()) != want:
        r.fail('items', 'items %r, expected %r' % (list(m.items()), want), log=log)
    if len(m) != len(want):
        r.fail('length', '%d, expected %d' % (len(m), len(want)), log=log)
    if list(m) != ref.names or list(m.keys()) != ref.names:
        r.fail('names', '%r, expected %r' % (list(m), ref.names), log=log)
    for k in ref.names:
        if m[k] != ref.vals[k][-1] or m.get(k) != ref.vals[k][-1] or k not in m:
            r.fail('last', '%r gives %r' % (k, m[k]), log=log)
        if list(m.get_all_values(k)) != ref.vals[k] or len(m.get_all_values(k)) != len(ref.vals[k]):
            r.fail('all values', '%r gives %r' % (k, list(m.get_all_values(k))), log=log)
    for k in KEYS:
        if k not in ref.vals:
            if k in m:
                r.fail('absent', '%r' % k, log=log)
            for f in (lambda: m[k], lambda: m.get_all_values(k), lambda: m.__delitem__(k)):
                try:
                    f()
                    r.fail('absent', '%r found' % k, log=log)
                except KeyError:
                    pass


KEYS = ['a', 'b', 'c', '', 'a b', None]


def run(r):
    r.bound = 'histories of up to 25 operations over 6 names; structs of up to 40 fields; sampled'
    r.rule = 'random operation histories compared with an ordered list-per-name model, and random structs loaded from binary and text; distinct by history or octets'
    rng = r.rng
    for i in r.loop(r.scale(12000)):
        cls = rng.choice([Multimap, IonPyDict])
        ref = Model()
        log = []
        if rng.random() < 0.3:
            init = dict((rng.choice(KEYS), rng.randrange(9)) for _ in range(rng.randrange(4)))
            m = cls(init)
            for k, v in init.items():
                ref.add(k, v)
            log.append(init)
        else:
            m = cls()
        check(r, m, ref, log)
        for _ in range(rng.randrange(1, 25)):
            k, v = rng.choice(KEYS), rng.choice([0, 1, 1, None, 'x', (), 'v%d' % rng.randrange(99)])
            o = rng.randrange(8)
            log.append((o, k, v))
            if o < 4:
                m.add_item(k, v)
                ref.add(k, v)
            elif o < 6:
                m[k] = v
                ref.set(k, v)
            elif k in ref.vals:
                if o == 6:
                    del m[k]
                else:
                    m.pop(k)
                ref.delete(k)
            check(r, m, ref, log)
        r.count(cls.__name__, repr(log))
        if i < 1:
            r.sample(history=log)
    for i in r.loop(r.scale(3000)):
        pool = [gen.text(rng) for _ in range(rng.randrange(1, 5))]
        fields = tuple((rng.choice(pool), gen.value(rng, depth=1, budget=[3], ann=.1)) for _ in range(rng.randrange(0, 40)))
        s = V('struct', fields)
        data = spec.encode_binary([s], rng) if rng.random() < 0.5 else spec.Writer(rng).stream([s])
        d = loads(data)
        ref = Model()
        for n, v in fields:
            ref.add(n, v)
        r.count('loaded', data)
        if len(d) != len(fields) or [n for n in d] != ref.names or \
                [(n, lib.from_py(v)) for n, v in d.items()] != [(n, lib.grouped(v)) for n, v in ref.items()]:
            r.fail('loaded', 'items %r' % (list(d.items()),), fields=fields, data=data)
        for n in ref.names:
            if [lib.from_py(x) for x in d.get_all_values(n)] != [lib.grouped(x) for x in ref.vals[n]] or \
                    lib.from_py(d[n]) != lib.grouped(ref.vals[n][-1]):
                r.fail('loaded', 'values of %r: %r' % (n, list(d.get_all_values(n))), fields=fields, data=data)
