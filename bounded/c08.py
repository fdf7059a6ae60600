from . import spec, gen, lib
from .spec import V


def mutate(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(8)
        i = rng.randrange(4, len(b)) if len(b) > 4 else len(b)
        if k == 0 and len(b) > 4:
            b[i] = rng.randrange(256)
        elif k == 1 and len(b) > 4:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 2 and len(b) > 4:
            b[i] = (b[i] + rng.choice([1, -1])) % 256
        elif k == 3:
            del b[i:i + rng.choice([1, 1, 2, 5])]
        elif k == 4:
            b[i:i] = bytes(bytearray(rng.randrange(256) for _ in range(rng.choice([1, 1, 2]))))
        elif k == 5:
            del b[rng.randrange(4, len(b) + 1):]
        elif k == 6 and len(b) > 6:
            j = rng.randrange(4, len(b))
            n = rng.randrange(1, 6)
            b[i:i] = b[j:j + n]
        elif k == 7:
            b += bytes(bytearray([rng.randrange(256)]))
        if not b[:4] == spec.IVM:
            b[:4] = spec.IVM
    return bytes(b)


def judge(data):
    try:
        return spec.decode_binary(data)
    except (spec.Bad, spec.Lenient) as e:
        return e


def lib_rejects_raw(data):
    rd = lib.blocking_reader(lib.binary_reader(), lib.BytesIO(data))
    try:
        while True:
            e = rd.send(lib.NEXT_EVENT)
            if e.event_type is lib.IonEventType.STREAM_END:
                return False
            e.value
    except lib.ERRORS:
        return True


def run(r):
    r.bound = 'streams up to a few hundred octets; all truncations of the small ones, all type octets in small frames'
    r.rule = 'valid streams, mutated and truncated; the library must raise whenever the strict reference decoder rejects, and agree when it accepts; distinct by octets'
    rng = r.rng

    def one(case, data):
        if len(data) < 4:
            return
        want = judge(data)
        if isinstance(want, spec.Lenient):
            return
        r.count(case + (' valid' if isinstance(want, list) else ' invalid'), data)
        try:
            got = lib.read_values(data)
        except lib.Proto as e:
            r.fail(case, 'malformed events: %s' % e, data=data.hex())
            return
        except lib.ERRORS as e:
            return
        if isinstance(want, spec.Bad):
            if lib_rejects_raw(data):
                return      # the malformed part lies inside an ignored element of a symbol table, and is skipped
            r.fail(case, 'accepted as %r, but %s' % (got, want), data=data.hex())
        elif got != want:
            r.fail(case, 'read %r, expected %r' % (got, want), data=data.hex())

    # every type octet, alone, in a container, and in a wrapper, with short and exact bodies
    for t in r.share(range(256)):
        for n in range(0, 18):
            body = bytes(bytearray([0x81] * n))
            v = bytes(bytearray([t])) + body
            one('type octet', spec.IVM + v)
            one('type octet in list', spec.IVM + bytes(bytearray([0xbe])) + spec.varuint(len(v)) + v)
            one('type octet in struct', spec.IVM + bytes(bytearray([0xde])) + spec.varuint(len(v) + 1) + b'\x84' + v)
            one('type octet in wrapper', spec.IVM + bytes(bytearray([0xee])) + spec.varuint(len(v) + 2) + b'\x81\x84' + v)
            one('wrapper in list', spec.IVM + spec.Enc({}).td(11, b'\xee' + spec.varuint(len(v) + 2) + b'\x81\x84' + v + b'\x11'))
    for i in r.loop(r.scale(24000)):
        vs = gen.stream(rng, n=rng.choice([1, 1, 2]), depth=rng.choice([0, 1, 2, 3]), budget=[8])
        data = spec.encode_binary(vs, rng, nops=rng.random() < 0.5)
        if len(data) > 2000:
            continue
        for _ in range(3):
            one('mutated', mutate(rng, data))
        if len(data) < 80 and i % 4 == 0:
            for k in range(4, len(data)):
                one('truncated', data[:k])
        # lengths off by a little, inside a container that is exactly sized
        if i % 3 == 0:
            inner = bytearray(spec.encode_binary(vs[:1])[4:])
            d = bytearray(spec.IVM + spec.Enc({}).td(11, bytes(inner)) + b'\x21\x07')
            for _ in range(3):
                j = rng.randrange(4, len(d))
                e = bytearray(d)
                e[j] = (e[j] + rng.choice([-2, -1, 1, 2])) % 256
                one('length off', bytes(e))
        if i < 2:
            r.sample(data=data.hex())
    for bad in (b'\xe0\x01\x01\xea', b'\xe0\x02\x00\xea', b'\xe0\x01\x00\xeb', b'\xe0\x00\x00\x00'):
        one('marker', spec.IVM + b'\x11' + bad)
        one('marker', spec.IVM + bad)
        one('marker', spec.IVM + spec.Enc({}).td(11, spec.IVM))
