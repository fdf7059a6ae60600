from . import spec, gen, lib
from .spec import V, UNK
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table


def run(r):
    r.bound = 'up to 8 items per stream, tables up to about 30 symbols; sampled'
    r.rule = 'random streams of version markers, symbol tables (imports, extensions, gaps) and values using symbol IDs, binary and text, against a reference reader with the same catalog; distinct by stream'
    rng = r.rng
    for i in r.loop(r.scale(16000)):
        model, cat = {}, SymbolTableCatalog()
        for name in ('p', 'q'):
            for ver in (1, 2, 3):
                if rng.random() < 0.5:
                    syms = ['%s%d' % (name, k) for k in range(rng.randrange(0, 5))]
                    model.setdefault(name, {})[ver] = syms
                    cat.register(shared_symbol_table(name, ver, syms))
        binary = rng.random() < 0.6
        e = spec.Enc(dict((s, k + 1) for k, s in enumerate(spec.SYSTEM)))
        w = spec.Writer(rng, wild=rng.random() < 0.3)
        out = spec.IVM if binary else ('$ion_1_0 ' if rng.random() < 0.7 else '')
        size = 9
        desc = []
        for _ in range(rng.randrange(1, 8)):
            k = rng.randrange(6)
            if k == 0:
                out += spec.IVM if binary else ' $ion_1_0 '
                desc.append('ivm')
                size = 9
            elif k <= 2:
                t = table(rng)
                desc.append(t)
                out += e.value(t) if binary else w.value(t) + ' '
                size = 20
            else:
                v = value(rng, 2)
                desc.append(v)
                out += e.value(v) if binary else text(v, rng) + ' '
        r.count('binary' if binary else 'text', out)
        try:
            want = spec.decode_binary(out, model) if binary else spec.decode_text(out, model)
        except spec.Bad as x:
            want = x
        except spec.Lenient:
            continue
        try:
            got = lib.read_values(out, catalog=cat)
        except lib.Proto as x:
            got = 'malformed events %s' % x
        except lib.ERRORS as x:
            got = x
        if isinstance(want, spec.Bad):
            if isinstance(got, list):
                r.fail('error', 'read %r, but %s' % (got, want), data=out, catalog=model, items=desc)
        elif got != want:
            r.fail('values', 'read %r, expected %r' % (got, want), data=out, catalog=model, items=desc)
        if i < 2:
            r.sample(items=desc, catalog=model)


def table(rng):
    f = []
    k = rng.randrange(4)
    if k == 0:
        f.append(('imports', V('symbol', '$ion_symbol_table')))
    elif k == 1:
        ims = []
        for _ in range(rng.randrange(0, 3)):
            im = [('name', odd(rng, V('string', rng.choice(['p', 'q', 'zz'])), ['$ion', '', None])),
                  ('version', odd(rng, V('int', rng.choice([1, 2, 3, 4])), [0, -1, None])),
                  ('max_id', odd(rng, V('int', rng.choice([0, 1, 3, 5])), [-1, None]))]
            if rng.random() < 0.15:
                im.pop()
            if rng.random() < 0.1:
                im.append(('symbols', V('list', (V('string', 'x'), V('struct', ())))))
            rng.shuffle(im)
            ims.append(V('struct', tuple(im)))
            if rng.random() < 0.1:
                ims.append(rng.choice([V('list', (V('struct', tuple(im)),)), V('struct', None), V('symbol', 'name'), V('struct', ())]))
        f.append(('imports', V('list', tuple(ims))))
    elif rng.random() < 0.1:
        f.append(('imports', rng.choice([V('symbol', None), V('list', None), V('symbol', 'name'), V('struct', (('name', V('string', 'p')),)),
                                         V('string', '$ion_symbol_table')])))
    if rng.random() < 0.85:
        syms = []
        for _ in range(rng.randrange(0, 5)):
            if rng.random() < 0.15:
                syms.append(rng.choice([V('null', None), V('int', 3), V('string', None), V('symbol', 'name'),
                                        V('list', (V('string', 'in'),)), V('struct', (('name', V('string', 'p')),)), V('sexp', ())]))
            else:
                syms.append(V('string', 's%d' % rng.randrange(40)))
        f.append(('symbols', V('list', tuple(syms))))
    if rng.random() < 0.3:
        f.append(('version', V('int', 1)))
    rng.shuffle(f)
    return V('struct', tuple(f), ('$ion_symbol_table',) + (('name',) if rng.random() < 0.1 else ()))


def odd(rng, v, others):
    """Now and then another value, or one of another type."""
    k = rng.random()
    if k < 0.12:
        return V(v.t, rng.choice(others))
    if k < 0.15:
        return V('bool', True)
    return v


def sid(rng):
    return rng.choice([0, 1, 4, 9, 10, 10, 11, 12, 13, 14, 15, 16, 18, 22])


def value(rng, depth):
    ann = tuple(sid(rng) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    if ann and ann[0] == 3:
        ann = ()
    k = rng.randrange(4 if depth else 2)
    if k == 0:
        x = sid(rng)
        if x == 2 and not ann:
            x = 10
        return V('symbol', x, ann)
    if k == 1:
        return V('int', 5, ann)
    if k == 2:
        return V('struct', tuple((sid(rng), value(rng, depth - 1)) for _ in range(rng.randrange(3))), ann)
    return V('list', tuple(value(rng, depth - 1) for _ in range(rng.randrange(3))), ann)


def text(v, rng):
    def s(x):
        return '$%d' % x
    a = ''.join(s(x) + '::' for x in v.ann)
    if v.t == 'symbol':
        return a + s(v.v)
    if v.t == 'int':
        return a + '5'
    if v.t == 'struct':
        return a + '{' + ','.join(s(n) + ':' + text(x, rng) for n, x in v.v) + '}'
    return a + '[' + ','.join(text(x, rng) for x in v.v) + ']'
