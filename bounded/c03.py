from datetime import datetime, timedelta
from . import spec, gen, lib
from .spec import V, TS, ts_norm
from amazon.ion.simpleion import dumps, loads
from amazon.ion.core import OffsetTZInfo


def run(r):
    r.bound = 'fractions up to 40 digits; sampled'
    r.rule = 'random timestamps biased to calendar boundaries, through both encodings and both interfaces, against a reference codec; distinct by value'
    rng = r.rng
    for i in r.loop(r.scale(24000)):
        t = gen.timestamp(rng)
        v = V('timestamp', t)
        r.count('timestamp', t)
        cases = []
        w = lib.write_values([v])
        cases.append(('binary write', lambda: spec.decode_binary(w)))
        cases.append(('binary round trip', lambda: lib.read_values(w)))
        x = lib.write_values([v], binary=False)
        cases.append(('text write', lambda: spec.decode_text(x.decode('utf-8'))))
        cases.append(('text round trip', lambda: lib.read_values(x)))
        b = spec.encode_binary([v], rng)
        cases.append(('binary read', lambda: lib.read_values(b)))
        s = spec.Writer(rng).stream([v])
        cases.append(('text read', lambda: lib.read_values(s)))
        o = lib.to_py(v)
        cases.append(('binary objects', lambda: [lib.from_py(loads(dumps(o)))]))
        cases.append(('text objects', lambda: [lib.from_py(loads(dumps(o, binary=False)))]))
        for name, f in cases:
            try:
                got = f()
            except Exception as e:
                got = e
            if got != [v]:
                r.fail(name, 'got %r' % (got,), value=t)
        if i % 5 == 0:
            # a plain datetime: second precision, microseconds exact
            us = rng.choice([0, 1, 999999, 500000, rng.randrange(10 ** 6)])
            f = spec.ts_full(t)
            tz = None if t.off is None else OffsetTZInfo(timedelta(minutes=t.off))
            d = datetime(f[0], f[1], f[2], f[3], f[4], f[5], us, tz)
            want = ts_norm(TS(f, 4, t.off, (us, 6)))
            for binary in (True, False):
                try:
                    got = lib.from_py(loads(dumps(d, binary=binary)))
                except Exception as e:
                    got = e
                ok = got == V('timestamp', want) or (us == 0 and got == V('timestamp', want._replace(frac=None)))
                if not ok:
                    r.fail('datetime', 'got %r' % (got,), value=d, binary=binary)
            r.count('datetime', (f, us, t.off))
        if i < 2:
            r.sample(value=t, data=w.hex(), text=x.decode())
