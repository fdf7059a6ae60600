from . import spec, gen, lib
from .c06 import Chunks, split, show

SIG = lib.IonEventType


def reader(data, chunks, managed):
    if isinstance(data, str):
        raw = lib.text_reader(is_unicode=True)
    else:
        raw = lib.binary_reader() if data[:4] == spec.IVM else lib.text_reader()
    return lib.blocking_reader(lib.managed_reader(raw, None) if managed else raw, Chunks(chunks, data[:0]))


def key(e):
    if e.event_type in (SIG.CONTAINER_END, SIG.STREAM_END, SIG.VERSION_MARKER):
        return e.event_type, e.ion_type, e.depth
    return e.event_type, e.ion_type, show(e.value), e.field_name, tuple(e.annotations), e.depth


def run(r):
    r.bound = 'streams up to a few hundred octets, up to 6 skips each; sampled'
    r.rule = 'random streams with containers; skips at random points, random chunking; compared with the unskipped event list; distinct by (stream, skip points)'
    rng = r.rng
    for i in r.loop(r.scale(6000)):
        vs = gen.stream(rng, n=rng.choice([1, 2, 3]), depth=rng.choice([1, 2, 3, 4]), budget=[14])
        if not any(v.v is not None and v.t in ('list', 'sexp', 'struct') for v in vs):
            vs.append(spec.V('list', (spec.V('int', 1), spec.V('string', 'a'))))
        k = rng.randrange(3)
        data = spec.encode_binary(vs, rng) if k < 2 else spec.Writer(rng).stream(vs)
        if k == 2 and rng.random() < 0.5:
            data = data.encode('utf-8')
        managed = rng.random() < 0.5
        full = []
        rd = reader(data, [data], managed)
        while True:
            e = rd.send(lib.NEXT_EVENT)
            full.append(key(e))
            if e.event_type is SIG.STREAM_END:
                break
        for _ in range(4):
            cs = split(data, [rng.randrange(len(data)) for _ in range(rng.choice([0, 1, 3, 10, len(data)]))])
            rd = reader(data, cs, managed)
            pos, depth, plan = 0, 0, []
            p = rng.choice([0.1, 0.3, 0.7])
            ev = lib.NEXT_EVENT
            ok = True
            while True:
                try:
                    e = rd.send(ev)
                    k = key(e)
                except lib.ERRORS as x:
                    k = repr(x)
                if k != full[pos]:
                    r.fail('skip', 'event %d is %r, expected %r' % (pos, k, full[pos]), data=data, skips=plan,
                           chunks=[len(c) for c in cs], managed=managed)
                    ok = False
                    break
                if e.event_type is SIG.STREAM_END:
                    break
                if e.event_type is SIG.CONTAINER_START:
                    depth += 1
                elif e.event_type is SIG.CONTAINER_END:
                    depth -= 1
                pos += 1
                if depth > 0 and rng.random() < p:
                    plan.append(pos)
                    level = depth
                    while True:
                        if full[pos][0] is SIG.CONTAINER_START:
                            level += 1
                        if full[pos][0] is SIG.CONTAINER_END:
                            level -= 1
                            if level == depth - 1:
                                break
                        pos += 1
                    ev = lib.SKIP_EVENT
                else:
                    ev = lib.NEXT_EVENT
            r.count('skips', (data, tuple(plan)))
        if i < 2:
            r.sample(data=data, skips=plan)
