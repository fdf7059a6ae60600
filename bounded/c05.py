from . import spec, gen, lib
from .spec import V
from amazon.ion.simpleion import dumps, loads


def run(r):
    r.bound = 'streams of up to 5 values, depth up to 4; sampled'
    r.rule = 'random streams written as text with random indentation and version marker; output read by a reference decoder and by the library; random respellings read by the library; distinct by text'
    rng = r.rng
    for i in r.loop(r.scale(9000)):
        vs = gen.stream(rng, depth=rng.choice([1, 2, 3, 4]))
        indent = rng.choice([None, None, '', ' ', '  ', '\t', ' \t ', '\n', '\r\n'])
        w = lib.write_values(vs, binary=False, indent=indent, version_marker=rng.random() < 0.5,
                             token=rng.choice([lib.sym, lib.tok])).decode('utf-8')
        check(r, 'write', lambda: spec.decode_text(w), vs, text=w, indent=indent)
        check(r, 'round trip', lambda: lib.read_values(w), vs, text=w, indent=indent)
        check(r, 'round trip (octets)', lambda: lib.read_values(w.encode('utf-8')), vs, text=w, indent=indent)
        s = spec.Writer(rng).stream(vs)
        check(r, 'spelling', lambda: lib.read_values(s), vs, text=s)
        r.count('write', w)
        r.count('spelling', s)
        if i % 3 == 0:
            objs = [lib.to_py(v) for v in vs]
            omit = rng.random() < 0.5
            t = dumps(objs, binary=False, sequence_as_stream=True, indent=indent, omit_version_marker=omit)
            want = [lib.grouped(v) for v in vs]
            check(r, 'dumps', lambda: spec.decode_text(t), want, text=t, indent=indent)
            check(r, 'dumps/loads', lambda: [lib.from_py(o) for o in loads(t, single_value=False)], want, text=t)
            if len(objs) == 1 or not objs:
                v = vs[0] if vs else V('list', ())
                t1 = dumps(lib.to_py(v), binary=False, indent=indent, omit_version_marker=omit)
                check(r, 'single', lambda: spec.decode_text(t1), [lib.grouped(v)], text=t1)
            if omit and t.startswith('$ion_1_0') and not t.startswith('$ion_1_0::'):
                r.fail('marker', 'version marker not omitted', text=t)
            r.count('dumps', t)
        if i < 2:
            r.sample(values=vs, text=w)


def check(r, case, f, want, **inputs):
    try:
        got = f()
    except Exception as e:
        got = e
    if got != want:
        r.fail(case, 'got %r' % (got,), values=want, **inputs)
