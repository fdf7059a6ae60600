from . import spec, gen, lib
from .spec import V

PIECES = list('0123456789') + ['_', '-', '+', '.', 'e', 'E', 'd', 'D', '0x', '0X', '0b', '0B', 'T', 'Z', ':', 'a', 'F',
                              'inf', 'nan', '10', '00', '99', '2000', '-01', ' ', ',']
SEEDS = ['0', '-0', '1_000', '0x1F', '-0x_1', '0b101', '-0b1_0', '1.', '1.0', '-1.50', '1d0', '1D-3', '1.2d+4', '0d0', '-0.',
         '1e5', '-1E-5', '0e0', '1.e3', '2000T', '2000-01T', '2000-01-01', '2000-01-01T', '2000-02-29', '2001-02-29',
         '2000-01-01T00:00Z', '2000-01-01T23:59:59-00:00', '2000-01-01T12:30:15.123456789+05:30', '0001-01-01T00:00:00Z',
         '9999-12-31T23:59:59.999Z', '+inf', '-inf', 'nan', '0xAbC_dEf', '1_2_3.4_5', '0000', '0_1', '1__0', '0x', '0b2',
         '1900-02-29', '2000-13-01', '2000-00-01', '2000-01-32', '2000-01-01T24:00Z', '2000-01-01T00:60Z',
         '2000-01-01T00:00:60Z', '2000-01-01T00:00:00.Z', '2000-01-01T00:00+24:00', '2000-01-01T00:00+23:60',
         '{{}}', '{{aGVsbG8=}}', '{{ aGVs bG8h }}', '{{"a\\x41"}}', "{{'''a''' '''b'''}}", '{{a}}', '{{aa==}}', '{{"\\u0041"}}',
         '{{"\xe9"}}', '{{ "" }}', '{{aGVsbG8}}', '{{aGVs=bG8}}']
ENDS = ['', ' ', '\n', '\t', '\r', '\x0b', '\x0c', '//c\n', '/*c*/', '{}', '[]', '()', '"s"', "'q'"]


def mutate(rng, s):
    b = list(s)
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(4)
        if k == 0:
            b[i:i] = rng.choice(PIECES)
        elif k == 1 and b:
            del b[min(i, len(b) - 1)]
        elif k == 2 and b:
            b[min(i, len(b) - 1)] = rng.choice(PIECES)
        elif b:
            j = rng.randrange(len(b))
            i = min(i, len(b) - 1)
            b[i], b[j] = b[j], b[i]
    return ''.join(b)


def token(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(SEEDS)
    if k == 1:
        return mutate(rng, rng.choice(SEEDS))
    if k == 2:
        return ''.join(rng.choice(PIECES) for _ in range(rng.randrange(1, 8)))
    w = spec.Writer(rng)
    v = gen.scalar(rng, kinds=('int', 'float', 'decimal', 'timestamp', 'timestamp', 'clob', 'blob'), nulls=False)
    s = w.scalar(v)
    return s if k < 5 else mutate(rng, s)


def run(r):
    r.bound = 'tokens of up to a few hundred characters; all strings of up to 3 pieces; sampled beyond'
    r.rule = 'legal and mutated number, timestamp and lob tokens, alone, followed by every kind of terminator, and inside containers; accepted exactly when the reference grammar accepts, with an equal value; distinct by text'
    rng = r.rng

    def one(case, s):
        try:
            want = spec.decode_text(s)
        except spec.Lenient:
            return
        except spec.Bad as e:
            want = e
        r.count(case + (' valid' if isinstance(want, list) else ' invalid'), s)
        try:
            got = lib.read_values(s)
        except lib.Proto as e:
            got = ['malformed events: %s' % e]
        except lib.ERRORS as e:
            got = e
        if isinstance(want, list):
            if got != want:
                r.fail(case, 'got %r, expected %r' % (got, want), text=s)
        elif isinstance(got, list):
            r.fail(case, 'accepted as %r, but %s' % (got, want), text=s)

    al = list('019_-.edxbTZ:+') + ['0x', '20', 'F']
    for i, a in enumerate(al):
        if i % r.shards != r.shard:
            continue
        for b in [''] + al:
            for c in [''] + al:
                one('short', a + b + c)
    for i in r.loop(r.scale(60000)):
        s = token(rng)
        k = rng.randrange(5)
        if k == 1:
            s = s + rng.choice(ENDS)
        elif k == 2:
            s = rng.choice(['[%s]', '(%s)', '[1,%s,2]', '(%s 1)', '{a:%s}', '[%s,]', 'a::%s']) % s
        elif k == 3:
            s = s + ' ' + token(rng)
        one('token', s)
        if i < 3:
            r.sample(text=s)
