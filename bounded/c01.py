from . import spec, gen, lib
from .spec import V


def run(r):
    r.bound = 'integers up to about 2**2100, field widths up to 300 octets; sampled'
    r.rule = 'random integers around octet and power boundaries, written and read in both directions against a reference codec; distinct by value and form'
    rng = r.rng
    for i in r.loop(r.scale(40000)):
        n = gen.integer(rng)
        if rng.random() < 0.02:
            n = rng.getrandbits(rng.choice([1000, 1016, 2048, 2100])) * rng.choice([1, -1])
        if rng.random() < 0.3:
            n = rng.randrange(-70000, 70000)
        v = V('int', n)
        r.count('int', n)
        w = lib.write_values([v])
        ref = spec.encode_binary([v])
        if w != ref:
            r.fail('int write', 'wrote %s, the format assigns %s' % (w.hex(), ref.hex()), value=n)
        e = spec.Enc({}, rng)
        b = spec.IVM + (e.value(v) if n or rng.random() < .5 else b'\x22\0\0')
        got = lib.read_values(b)
        if got != [v]:
            r.fail('int read', 'read %r from %s' % (got, b.hex()), value=n)
        if i % 4 == 0:
            # subfields: lengths, symbol ids, exponents, coefficients
            ln = rng.choice([0, 13, 14, 127, 128, 129, 300, 16383, 16384, 16385]) if i % 40 == 0 else rng.randrange(200)
            s = V('string', 'x' * ln)
            if lib.write_values([s]) != spec.encode_binary([s]):
                r.fail('length write', 'string of %d' % ln, length=ln)
            ex = gen.integer(rng) % 10 ** 15 * rng.choice([1, -1])
            d = V('decimal', (rng.randrange(2), abs(n), ex))
            w = lib.write_values([d])
            ref = spec.encode_binary([d])
            if w != ref and spec.decode_binary(w) != [d]:
                r.fail('decimal subfields write', 'wrote %s, expected %s' % (w.hex(), ref.hex()), value=d)
            b = spec.IVM + spec.Enc({}, rng).value(d)
            if lib.read_values(b) != [d]:
                r.fail('decimal subfields read', 'read %r' % lib.read_values(b), data=b.hex(), value=d)
            r.count('subfields', (ln, ex, n))
        if i % 16 == 0:
            k = rng.choice([1, 10, 100, 117, 118, 119, 120, 130, 250, 260])
            vs = [V('symbol', 's%d' % j) for j in range(k)]
            b = lib.write_values(vs)
            if spec.decode_binary(b) != vs or lib.read_values(spec.encode_binary(vs, rng)) != vs:
                r.fail('symbol id', '%d symbols' % k, count=k)
            r.count('symbol ids', k)
    # exhaustive small values, in both directions
    for n in r.share(range(-70000 if r.thorough else -3000, 70001 if r.thorough else 3001)):
        v = V('int', n)
        w = lib.write_values([v])
        if w != spec.encode_binary([v]) or lib.read_values(w) != [v]:
            r.fail('small int', w.hex(), value=n)
        r.count('small int', n)
    r.sample(value=gen.integer(rng), form='int')
