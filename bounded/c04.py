from . import spec, gen, lib
from .spec import V


def shape(rng, depth):
    """Trees biased to body lengths near the header-size thresholds."""
    t = rng.choice(['list', 'sexp', 'struct', 'blob', 'string', 'int'])
    ann = tuple(rng.choice(['name', 'version', 'x', 'y', '$ion']) for _ in range(rng.choice([0, 0, 0, 1, 2, 12, 13, 14, 127])))
    if rng.random() < 0.9:
        ann = ann[:2]
    if depth == 0 or t in ('blob', 'string', 'int'):
        n = rng.choice([0, 1, 9, 10, 11, 12, 13, 14, 123, 124, 125, 126, 127, 128])
        return V('blob', b'z' * n, ann) if rng.random() < 0.7 else V('bool', True, ann)
    k = rng.choice([0, 1, 1, 2, 3, 12, 13, 14]) if depth < 3 else rng.choice([0, 1, 1, 2])
    kids = tuple(shape(rng, depth - 1) for _ in range(k))
    if t == 'struct':
        return V('struct', tuple((rng.choice(['name', 'x', 'max_id', 'y']), c) for c in kids), ann)
    return V(t if t in ('list', 'sexp') else 'list', kids, ann)


def deep(rng, n):
    v = V('int', 7)
    for i in range(n):
        t = rng.choice(['list', 'sexp', 'struct'])
        ann = ('a',) if rng.random() < 0.3 else ()
        v = V(t, (('f', v),) if t == 'struct' else (v,), ann)
    return v


def run(r):
    r.bound = 'nesting up to 60, up to about 20000 octets; sampled'
    r.rule = 'random event histories (several values, several flushed segments), output checked by a strict reference decoder; distinct by stream'
    rng = r.rng
    for i in r.loop(r.scale(16000)):
        k = rng.randrange(4)
        if k == 0:
            vs = gen.stream(rng, n=rng.choice([1, 2, 5]))
        elif k == 1:
            vs = [deep(rng, rng.choice([1, 5, 13, 14, 40, 60]))]
        else:
            vs = [shape(rng, rng.randrange(1, 5)) for _ in range(rng.choice([1, 2, 3]))]
        vs = [v for v in vs if not gen.reserved_top(v)] or [V('list', ())]
        segs = rng.choice([1, 1, 2, 3])
        events = []
        for _ in range(segs):
            for v in vs:
                events.extend(lib.to_events(v, token=rng.choice([lib.sym, lib.tok])))
            events.append(lib.ION_STREAM_END_EVENT)
        w = lib.write_events(events, end=False)
        want = vs * segs
        try:
            d = spec.Dec(w)
            got = d.stream()
        except spec.Bad as e:
            got = e
        if got != want:
            r.fail('write', 'output denotes %r' % (got,), values=vs, data=w.hex())
        got = lib.read_values(w)
        if got != want:
            r.fail('round trip', 'read %r' % (got,), values=vs, data=w.hex())
        b = spec.encode_binary(want, rng)
        got = lib.read_values(b)
        if got != want:
            r.fail('read', 'read %r' % (got,), values=vs, data=b.hex())
        r.count('stream', w)
        if i < 2:
            r.sample(values=vs, data=w.hex())
