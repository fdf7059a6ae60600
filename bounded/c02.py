from . import spec, gen, lib
from .spec import V
from amazon.ion.simpleion import dumps, loads

KINDS = ('null', 'bool', 'int', 'float', 'decimal', 'symbol', 'string', 'clob', 'blob')


def run(r):
    r.bound = 'single scalars, sizes up to 16 KiB; sampled'
    r.rule = 'random scalars of every type written by events and by objects, checked against a reference decoder and read back; distinct by value'
    rng = r.rng
    for t in r.share(spec.TYPES):
        v = V(t, None)
        for b in (lib.write_values([v]), spec.encode_binary([v], rng)):
            if spec.decode_binary(b) != [v] or lib.read_values(b) != [v]:
                r.fail('typed null', b.hex(), type=t)
        b = dumps(lib.to_py(v))
        if lib.from_py(loads(b)) != v:
            r.fail('typed null object', b.hex(), type=t)
        r.count('typed null', t)
    for i in r.loop(r.scale(30000)):
        v = gen.scalar(rng, kinds=KINDS)
        if gen.reserved_top(v):
            continue
        r.count(v.t, v.v)
        w = lib.write_values([v], token=rng.choice([lib.sym, lib.tok]))
        try:
            ref = spec.decode_binary(w)
        except spec.Bad as e:
            ref = e
        if ref != [v]:
            r.fail('write', 'denotes %r' % (ref,), value=v, data=w.hex())
        got = lib.read_values(w)
        if got != [v]:
            r.fail('round trip', 'read %r' % (got,), value=v, data=w.hex())
        b = spec.encode_binary([v], rng)
        got = lib.read_values(b)
        if got != [v]:
            r.fail('read', 'read %r' % (got,), value=v, data=b.hex())
        o = lib.to_py(v)
        back = loads(dumps(o))
        if lib.from_py(back) != v:
            r.fail('objects', 'read %r' % (lib.from_py(back),), value=v)
        if i < 2:
            r.sample(value=v, data=w.hex())
