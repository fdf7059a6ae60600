from datetime import datetime, timedelta
from . import spec, gen, lib
from .spec import V, TS
from amazon.ion.equivalence import ion_equals


def variants(rng, v):
    """Values near ``v``: mostly different in one respect."""
    k = rng.randrange(6)
    if k == 0:
        return v
    if k == 1:
        return V(v.t, v.v, v.ann + ('extra',) if rng.random() < .5 else v.ann[1:])
    if k == 2:
        return gen.value(rng, depth=1, budget=[4])
    if v.v is None:
        return V(rng.choice(spec.TYPES), None, v.ann)
    t, x = v.t, v.v
    if t == 'decimal':
        s, c, e = x
        return V(t, rng.choice([(1 - s, c, e), (s, c * 10, e - 1), (s, c, e + 1), (s, c + 1, e), x]), v.ann)
    if t == 'float':
        f = spec.ffrom(x)
        return V(t, spec.fbits(rng.choice([-f, f, 0.0, -0.0, float('nan'), f + 1])), v.ann)
    if t == 'int':
        return V(t, rng.choice([x, -x, x + 1]), v.ann)
    if t == 'timestamp':
        o = rng.randrange(6)
        if o == 0 and x.prec == 4:
            f = x.frac or (0, 0)
            return V(t, spec.ts_norm(x._replace(frac=(f[0] * 10, f[1] + 1))), v.ann)
        if o == 1 and x.prec >= 3 and not x.off:
            return V(t, x._replace(off=None if x.off == 0 else 0), v.ann)
        if o == 2 and x.prec == 4 and not x.frac:
            return V(t, TS(x.fields[:5], 3, x.off, None), v.ann)
        if o == 3 and x.prec == 4 and x.frac and x.frac[1] > 6:
            return V(t, x._replace(frac=((x.frac[0] + 1) % 10 ** x.frac[1], x.frac[1])), v.ann)
        if o == 4 and x.prec >= 3 and x.off is not None:
            d = datetime(*spec.ts_full(x))
            try:
                d = d + timedelta(minutes=1)
                d - timedelta(minutes=x.off + 1)
            except OverflowError:
                return v
            if not 1 < d.year < 9999 or abs(x.off + 1) > 1439:
                return v
            return V(t, spec.ts_norm(TS((d.year, d.month, d.day, d.hour, d.minute, d.second), x.prec, x.off + 1, x.frac)), v.ann)
        return V(t, gen.timestamp(rng), v.ann)
    if t in ('string', 'symbol'):
        return V(rng.choice(['string', 'symbol']), rng.choice([x, x + 'a', x.upper()]), v.ann)
    if t in ('clob', 'blob'):
        return V(rng.choice(['clob', 'blob']), rng.choice([x, x + b'a']), v.ann)
    if t in ('list', 'sexp'):
        xs = list(x)
        o = rng.randrange(5)
        if o == 0:
            rng.shuffle(xs)
        elif o == 1 and xs:
            xs.pop()
        elif o == 2:
            xs.append(V('int', 1))
        elif o == 3 and xs:
            j = rng.randrange(len(xs))
            xs[j] = variants(rng, xs[j])
        else:
            t = rng.choice(['list', 'sexp'])
        return V(t, tuple(xs), v.ann)
    if t == 'struct':
        xs = list(x)
        o = rng.randrange(6)
        if o == 0:
            rng.shuffle(xs)
        elif o == 1 and xs:
            xs.pop()
        elif o == 2 and xs:
            xs.append(rng.choice(xs))
        elif o == 3 and xs:
            j = rng.randrange(len(xs))
            xs[j] = (xs[j][0], variants(rng, xs[j][1]))
        elif o == 4 and xs:
            j = rng.randrange(len(xs))
            xs[j] = (xs[j][0] + 'q', xs[j][1])
        return V(t, tuple(xs), v.ann)
    return v


def instant(x):
    off = x.off or 0
    d = datetime(*spec.ts_full(x)) - timedelta(minutes=off)
    us = x.frac[0] * 10 ** 6 // 10 ** x.frac[1] if x.frac else 0
    return d, us


def coarse(v):
    """Model value with timestamps replaced by instants."""
    if v.v is None:
        return v
    if v.t == 'timestamp':
        return V('timestamp', instant(v.v), v.ann)
    if v.t in ('list', 'sexp'):
        return V(v.t, tuple(coarse(x) for x in v.v), v.ann)
    if v.t == 'struct':
        return V(v.t, tuple((n, coarse(x)) for n, x in v.v), v.ann)
    return v


def nat(v):
    """Native Python value, or None if the type has none."""
    if v.ann:
        raise KeyError
    if v.v is None:
        if v.t != 'null':
            raise KeyError
        return None
    if v.t == 'list':
        return [nat(x) for x in v.v]
    if v.t == 'struct':
        d = dict((n, nat(x)) for n, x in v.v)
        if len(d) != len(v.v):
            raise KeyError
        return d
    if v.t in ('sexp', 'clob', 'symbol'):
        raise KeyError
    return lib.native(v)


def run(r):
    r.bound = 'values of depth up to 2; sampled'
    r.rule = 'pairs of equal or nearly equal values, as Ion-natured and native objects, against equality of reference-model values; distinct by pair'
    rng = r.rng
    for i in r.loop(r.scale(30000)):
        a = gen.value(rng, depth=rng.choice([0, 0, 1, 2]), budget=[6])
        b = variants(rng, a)
        r.count('pair', (a, b))
        oa, ob = lib.to_py(a), lib.to_py(b)
        want = lib.canon(a) == lib.canon(b)
        try:
            ans = (ion_equals(oa, ob), ion_equals(ob, oa))
        except Exception as e:
            ans = repr(e)
        if ans != (want, want):
            r.fail('data model', 'answered %r, expected %r' % (ans, want), a=a, b=b)
        if not ion_equals(oa, lib.to_py(a)) or not ion_equals(oa, oa):
            r.fail('reflexive', '', a=a)
        try:
            w2 = lib.canon(coarse(a)) == lib.canon(coarse(b))
            ans = (ion_equals(oa, ob, True), ion_equals(ob, oa, True))
        except OverflowError:
            continue
        except Exception as e:
            ans = repr(e)
        if ans != (w2, w2):
            r.fail('instants', 'answered %r, expected %r' % (ans, w2), a=a, b=b)
        if i % 3 == 0:
            try:
                na = nat(a)
                nb = nat(b)
            except KeyError:
                continue
            if not ion_equals(na, nat(a)):
                r.fail('native reflexive', '', a=a)
            got = (ion_equals(na, nb), ion_equals(nb, na))
            if got != (want, want) and not loose(a, b):
                r.fail('native', 'answered %r, expected %r' % (got, want), a=a, b=b)
            got = (ion_equals(na, ob), ion_equals(ob, na))
            if got != (want, want) and not loose(a, b):
                r.fail('mixed', 'answered %r, expected %r' % (got, want), a=a, b=b)
            r.count('native pair', (a, b))
        if i < 2:
            r.sample(a=a, b=b, equal=want)


def kinds(v, out):
    out.add(v.t)
    if v.v is not None and v.t in ('list', 'sexp'):
        for x in v.v:
            kinds(x, out)
    if v.v is not None and v.t == 'struct':
        for _, x in v.v:
            kinds(x, out)
    return out


def loose(a, b):
    """Text, lob and sequence types are not declared by native operands."""
    return lib.canon(a) != lib.canon(b) and any(len((kinds(a, set()) | kinds(b, set())) & set(g)) > 1 for g in (
        ('string', 'symbol'), ('blob', 'clob'), ('list', 'sexp')))
