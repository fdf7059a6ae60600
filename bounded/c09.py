from . import spec, gen
from amazon.ion.symbols import (SymbolTable, SymbolTableCatalog, LOCAL_TABLE_TYPE, SHARED_TABLE_TYPE, SymbolToken,
                                SYSTEM_SYMBOL_TABLE, local_symbol_table, shared_symbol_table, placeholder_symbol_table)


def names(rng, n):
    return [rng.choice(['a', 'b', 'c', 'd', 'e', 'f', '', 'name', '$ion', 'x%d' % rng.randrange(40)]) for _ in range(n)]


def run(r):
    r.bound = 'tables of up to about 60 symbols and 4 imports; sampled'
    r.rule = 'random tables and interning sequences compared with a plain list of texts; distinct by history'
    rng = r.rng
    for i in r.loop(r.scale(12000)):
        model = []
        imports = []
        local = rng.random() < 0.75
        for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
            ns = names(rng, rng.randrange(0, 6))
            if rng.random() < 0.2:
                m = rng.randrange(0, 5)
                t = placeholder_symbol_table('p', 1, m)
                texts = [None] * m
            else:
                t = shared_symbol_table('s%d' % rng.randrange(3), rng.randrange(1, 4), ns)
                texts = ns
                if [t.get(k + 1).text for k in range(t.max_id)] != texts:
                    r.fail('shared', 'contents %r expected %r' % ([x.text for x in t], texts), symbols=ns)
            imports.append((t, texts))
        init = names(rng, rng.randrange(0, 5))
        log = [('init', local, [x[1] for x in imports], init)]
        if local:
            model = list(spec.SYSTEM)
        for _, texts in imports:
            model += texts
        model += init
        if local:
            table = local_symbol_table(tuple(x[0] for x in imports), init)
        else:
            table = shared_symbol_table('t', 1, init, tuple(x[0] for x in imports))
        check(r, table, model, log)
        for _ in range(rng.randrange(0, 12)):
            x = rng.choice(['a', 'b', 'new%d' % rng.randrange(5), 'name', '', 'zz'])
            before = [table.get(k + 1) for k in range(table.max_id)]
            log.append(('intern', x))
            if local:
                tok = table.intern(x)
                if x in model:
                    want = model.index(x) + 1
                else:
                    model.append(x)
                    want = len(model)
                if tok.text != x or (tok.sid != want and table.get(want) != tok):
                    r.fail('intern', 'token %r, expected id %d' % (tok, want), log=log)
                if [table.get(k + 1) for k in range(len(before))] != before:
                    r.fail('intern', 'earlier symbols changed', log=log)
            else:
                try:
                    table.intern(x)
                    if x not in model:
                        r.fail('intern', 'shared table accepted a new symbol', log=log)
                except TypeError:
                    pass
            check(r, table, model, log)
        r.count('local' if local else 'shared', repr(log))
        if i < 2:
            r.sample(history=log)


def check(r, table, model, log):
    if table.max_id != len(model):
        r.fail('max id', '%d, expected %d' % (table.max_id, len(model)), log=log)
        return
    for k, x in enumerate(model):
        t = table.get(k + 1)
        if t is None or t.text != x:
            r.fail('by id', 'id %d is %r, expected %r' % (k + 1, t, x), log=log)
            return
        if x is not None:
            t = table.get(x)
            if t is None or t.text != x or (t.sid is not None and t.sid != model.index(x) + 1 and
                                            t != table.get(model.index(x) + 1)):
                r.fail('by text', '%r gives %r' % (x, t), log=log)
                return
    for bad in (len(model) + 1, len(model) + 100):
        if table.get(bad) is not None:
            r.fail('by id', 'id %d of %d' % (bad, len(model)), log=log)
    try:
        table[len(model) + 1]
        r.fail('by id', 'subscript past the end', log=log)
    except KeyError:
        pass
    for x in ('absent', 'Q'):
        if x not in model and table.get(x) is not None:
            r.fail('by text', 'undefined text found', log=log)
    if [t.text for t in table] != model:
        r.fail('iteration', '%r' % [t.text for t in table], log=log)
