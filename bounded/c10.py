from . import spec
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table
from amazon.ion.exceptions import CannotSubstituteTable


def run(r):
    r.bound = 'up to 3 names, versions up to 12, tables up to 7 symbols; sampled'
    r.rule = 'random catalogs (registration in random order) and requests against a direct reading of the rule; distinct by (catalog, request)'
    rng = r.rng
    for i in r.loop(r.scale(30000)):
        model, tables, log = {}, {}, []
        cat = SymbolTableCatalog()
        for _ in range(rng.randrange(0, 6)):
            name = rng.choice(['a', 'b', 'c'])
            ver = rng.choice([1, 2, 3, 5, 9, 10, 12])
            if ver in model.get(name, {}):
                continue
            syms = ['%s%d_%d' % (name, ver, k) if rng.random() < 0.3 else '%s_%d' % (name, k)
                    for k in range(rng.randrange(0, 7))]
            t = shared_symbol_table(name, ver, syms)
            cat.register(t)
            model.setdefault(name, {})[ver] = syms
            tables[name, ver] = t
            log.append((name, ver, syms))
        for _ in range(4):
            name = rng.choice(['a', 'b', 'c', 'd'])
            ver = rng.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 100])
            mx = rng.choice([None, 0, 1, 2, 3, 5, 6, 7, 10])
            req = (name, ver, mx)
            r.count('resolve', (repr(log), req))
            try:
                got = cat.resolve(name, ver, mx)
            except CannotSubstituteTable:
                got = None
            vs = model.get(name, {})
            if ver in vs and (mx is None or mx == len(vs[ver])):
                if got is not tables[name, ver] and not (got is not None and (got.name, got.version, texts(got)) == (name, ver, vs[ver])):
                    r.fail('exact', '%r' % (got,), catalog=log, request=req)
            elif mx is None:
                if got is not None:
                    r.fail('no max id', 'resolved to %r' % (texts(got),), catalog=log, request=req)
            else:
                want = spec.resolve(model, name, ver, mx)
                if got is None:
                    r.fail('substitute', 'not resolved', catalog=log, request=req)
                elif (got.name, got.version, got.max_id, texts(got)) != (name, ver, mx, want):
                    r.fail('substitute', 'got %r expected %r' % ((got.name, got.version, got.max_id, texts(got)),
                                                                 (name, ver, mx, want)), catalog=log, request=req)
                elif any(got.get(w) is None for w in want if w is not None):
                    r.fail('substitute', 'text lookup', catalog=log, request=req)
        if i < 2:
            r.sample(catalog=log, request=req)


def texts(t):
    return [t.get(k + 1).text if t.get(k + 1) is not None else None for k in range(t.max_id)]
