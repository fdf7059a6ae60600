from . import spec, gen, lib
from .spec import V
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table, SymbolToken, SYSTEM_SYMBOL_TABLE


def run(r):
    r.bound = 'up to 4 segments, 3 imports, 12 symbols per segment; sampled'
    r.rule = 'random segments written with random imports; the declared tables and the values are read by a reference decoder; distinct by (imports, events)'
    rng = r.rng
    for i in r.loop(r.scale(16000)):
        model, imports, idecl = {}, [], []
        for name in rng.sample(['p', 'q', 'w'], rng.choice([0, 0, 1, 2, 3])):
            syms = []
            for k in range(rng.randrange(0, 4)):
                s = rng.choice(['x', 'y', 'z', 'name', '%s%d' % (name, k)])
                if s not in syms:
                    syms.append(s)
            ver = rng.randrange(1, 4)
            model[name] = {ver: syms}
            imports.append(shared_symbol_table(name, ver, syms))
            idecl.append((name, ver, len(syms)))
        base = list(spec.SYSTEM)
        for t in imports:
            base += [x.text for x in t]

        def name(rg):
            return rg.choice(['x', 'y', 'z', 'name', 'p0', 'q1', 'w2', 'new', 'a', 'b', 'c', '', '$10', '$ion_1_0', '$ion_symbol_table'])
        segs = [[gen.value(rng, depth=2, symbols=name, top=True, budget=[8]) for _ in range(rng.randrange(0, 4))]
                for _ in range(rng.choice([1, 1, 2, 4]))]
        events = []
        for vs in segs:
            if rng.random() < 0.2:
                events.append(lib.ION_VERSION_MARKER_EVENT)
            for v in vs:
                events += list(lib.to_events(v, token=rng.choice([lib.sym, lib.tok])))
            events.append(lib.ION_STREAM_END_EVENT)
        w = lib.write_events(events, imports=imports or None, end=False)
        r.count('segments', (tuple(idecl), w))
        if not w:
            if any(segs):
                r.fail('output', 'nothing written', events=segs)
            continue
        try:
            d = spec.Dec(w, model)
            got = d.stream()
        except spec.Bad as x:
            got, d = x, None
        want = [v for vs in segs for v in vs]
        if got != want:
            r.fail('values', 'output denotes %r' % (got,), values=segs, imports=idecl, data=w.hex())
            continue
        full = [vs for vs in segs if vs]
        with_values = [s for s in d.segments if s['values']]
        if [s['values'] for s in with_values] != [len(vs) for vs in full]:
            r.fail('segments', 'markers do not delimit the segments: %r' % d.segments, values=segs, data=w.hex())
            continue
        for vs, s in zip(full, with_values):
            declared = [x for l in s.get('locals', []) for x in l]
            if len(set(declared)) != len(declared):
                r.fail('locals', 'declared twice: %r' % declared, values=segs, data=w.hex())
            if any(x in base for x in declared):
                r.fail('locals', 'declared although imported: %r' % declared, values=segs, imports=idecl, data=w.hex())
            used = set(spec.symbols_of(vs))
            if not set(declared) <= used:
                r.fail('locals', 'carried over: %r' % (set(declared) - used), values=segs, data=w.hex())
            if idecl and s.get('imports', [[]])[-1] != idecl:
                r.fail('imports', 'declared %r' % (s.get('imports'),), imports=idecl, data=w.hex())
        if i < 2:
            r.sample(imports=idecl, segments=segs)
    # one text, one ID: the IDs of repeated symbols
    for i in r.loop(r.scale(4000)):
        pool = ['s%d' % k for k in range(rng.randrange(1, 8))]
        vs = [V('symbol', rng.choice(pool)) for _ in range(rng.randrange(1, 12))]
        w = lib.write_values(vs)
        d = spec.Dec(w, {})
        got = d.stream()
        toks = [e.value for e in lib.raw_events(w) if e.ion_type is lib.IonType.SYMBOL and e.depth == 0]
        ids = [t.sid for t in toks]
        if got != vs or len(ids) != len(vs) or len(set(zip(ids, (v.v for v in vs)))) != len(set(v.v for v in vs)):
            r.fail('ids', 'IDs %r' % ids, values=vs, data=w.hex())
        r.count('ids', tuple(v.v for v in vs))
