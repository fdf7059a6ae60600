from . import spec, gen, lib
from .spec import V


class Chunks(object):
    def __init__(self, chunks, empty):
        self.chunks = list(chunks)
        self.empty = empty

    def read(self, n=None):
        return self.chunks.pop(0) if self.chunks else self.empty


def split(data, cuts):
    cuts = [0] + sorted(set(c for c in cuts if 0 < c < len(data))) + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:]) if a < b]


def events(data, chunks, managed=True):
    if isinstance(data, str):
        raw = lib.text_reader(is_unicode=True)
    else:
        raw = lib.binary_reader() if data[:4] == spec.IVM else lib.text_reader()
    rd = lib.blocking_reader(lib.managed_reader(raw, None) if managed else raw, Chunks(chunks, data[:0]))
    out = []
    try:
        while True:
            e = rd.send(lib.NEXT_EVENT)
            if e.event_type is lib.IonEventType.STREAM_END:
                return out, None
            out.append((e.event_type, e.ion_type, show(e.value), e.field_name, tuple(e.annotations), e.depth))
    except lib.ERRORS as e:
        return out, type(e).__name__


def show(x):
    if isinstance(x, lib.Timestamp):
        return lib.model_ts(x)
    if isinstance(x, float):
        return spec.fbits(x)
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    return repr(x)


def run(r):
    r.bound = 'streams up to a few hundred octets: every single cut and unit splitting, plus random splittings'
    r.rule = 'binary and text streams (valid, and with an error near the end) split in different ways; distinct by (stream, splitting)'
    rng = r.rng
    for i in r.loop(r.scale(1600)):
        vs = gen.stream(rng, n=rng.choice([1, 1, 2, 3]), depth=rng.choice([0, 1, 2]), budget=[8])
        if rng.random() < 0.1:
            n = rng.choice([4 * 128 + rng.randrange(128), 4, 5, 132])
            x = V('blob', b'\x04' * n) if rng.random() < 0.5 else V('clob', b'\x00\x04A\x04' * (n // 4))
            vs.append(V('list', (V('int', 4), x, V('symbol', 'name'))) if rng.random() < 0.5 else x)
        k = rng.randrange(4)
        if k < 2:
            data = spec.encode_binary(vs, rng)
        else:
            data = spec.Writer(rng).stream(vs)
            if k == 3:
                data = data.encode('utf-8')
        if rng.random() < 0.1:
            data = data[:rng.randrange(len(data))] or data
        if len(data) > 3000:
            continue
        managed = rng.random() < 0.6
        whole = events(data, [data], managed)
        if managed and whole[1] is None:
            pass
        plans = [list(range(len(data)))]
        if len(data) < 120:
            plans += [[c] for c in range(1, len(data))] if rng.random() < 0.4 or r.thorough else []
        for _ in range(6):
            plans.append([rng.randrange(len(data) + 1) for _ in range(rng.choice([1, 2, 3, 8, 20]))])
        for p in plans:
            cs = split(data, p)
            got = events(data, cs, managed)
            r.count('text' if k >= 2 else 'binary', (data, tuple(map(len, cs))))
            if got[0] != whole[0] or (got[1] is None) != (whole[1] is None):
                r.fail('chunks', 'whole input: %r; chunked: %r' % (first_diff(whole, got)), data=data,
                       lengths=[len(c) for c in cs])
        if i < 2:
            r.sample(data=data, plans=len(plans))
    # the buffer queue itself against a plain sequence
    from amazon.ion.reader import BufferQueue
    for i in r.loop(r.scale(6000)):
        uni = rng.random() < 0.5
        q = BufferQueue(is_unicode=uni)
        model, pos, log = [], 0, []
        back = []
        for _ in range(rng.randrange(1, 25)):
            op = rng.choice(['extend', 'extend', 'read', 'read', 'byte', 'byte', 'skip', 'unread'])
            log.append(op)
            if op == 'extend':
                chunk = [rng.randrange(1, 256) for _ in range(rng.randrange(1, 6))]
                q.extend(u''.join(map(chr, chunk)) if uni else bytes(bytearray(chunk)))
                model += chunk
            elif op == 'read':
                n = rng.randrange(0, 8)
                if n > len(model):
                    try:
                        q.read(n)
                        r.fail('queue', 'read past the end', log=log)
                    except IndexError:
                        pass
                    continue
                got = q.read(n)
                got = [ord(c) for c in got] if uni else list(bytearray(got))
                if got != model[:n]:
                    r.fail('queue', 'read %r expected %r' % (got, model[:n]), log=log)
                model = model[n:]
                pos += n
                back = []
            elif op == 'byte':
                if not model:
                    try:
                        q.read_byte()
                        r.fail('queue', 'read_byte past the end', log=log)
                    except IndexError:
                        pass
                    continue
                c = q.read_byte()
                if c != model[0]:
                    r.fail('queue', 'read_byte %r expected %r' % (c, model[0]), log=log)
                back.append(model.pop(0))
                pos += 1
            elif op == 'skip':
                n = rng.randrange(0, 12)
                rem = q.skip(n)
                if rem != max(0, n - len(model)):
                    r.fail('queue', 'skip left %r' % rem, log=log)
                pos += min(n, len(model))
                model = model[n:]
                back = []
            elif op == 'unread' and back:
                c = back.pop()
                q.unread(c)
                model.insert(0, c)
                pos -= 1
            if len(q) != len(model) or q.position != pos:
                r.fail('queue', 'length %d position %d, expected %d %d' % (len(q), q.position, len(model), pos), log=log)
        r.count('queue', tuple(log))


def first_diff(a, b):
    for x, y in zip(a[0], b[0]):
        if x != y:
            return x, y
    return (len(a[0]), a[1], a[0][len(b[0]):][:1]), (len(b[0]), b[1], b[0][len(a[0]):][:1])
