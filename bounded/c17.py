import datetime
import enum
from collections import OrderedDict, namedtuple
from decimal import Decimal
from . import spec, gen, lib
from .spec import V
from amazon.ion import simple_types as st
from amazon.ion.core import Timestamp, IonType, Multimap
from amazon.ion.exceptions import IonException
from amazon.ion.simpleion import dumps, loads, dump, load
from amazon.ion.symbols import SymbolToken
from io import BytesIO, StringIO


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDecimal(Decimal):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MyDate(datetime.datetime):
    pass


class MyStr2(MyStr):
    pass


class Mix(object):
    pass


class MixInt(Mix, int):
    pass


class Num(enum.IntEnum):
    A = 7


Pair = namedtuple('Pair', 'x y')


def native(rng, depth, sexp):
    """(native object, model value)"""
    k = rng.randrange(13 if depth else 8)
    if k == 0:
        return None, V('null', None)
    if k == 1:
        b = rng.random() < .5
        return b, V('bool', b)
    if k == 2:
        n = gen.integer(rng)
        if rng.random() < .1:
            return Num.A, V('int', 7)
        return rng.choice([int, int, MyInt, MixInt])(n), V('int', n)
    if k == 3:
        f = gen.floating(rng)
        return rng.choice([float, MyFloat])(f), V('float', spec.fbits(f))
    if k == 4:
        d = gen.decimal(rng)
        return rng.choice([Decimal, MyDecimal])(lib.dec(*d)), V('decimal', d)
    if k == 5:
        s = gen.string(rng)
        if rng.random() < .2:
            t = gen.text(rng)
            return SymbolToken(t, None), V('symbol', t)
        return rng.choice([str, str, MyStr, MyStr2])(s), V('string', s)
    if k == 6:
        b = gen.lob(rng)
        return rng.choice([bytes, MyBytes])(b), V('blob', b)
    if k == 7:
        if rng.random() < .5:
            t = gen.timestamp(rng)
            return lib.to_timestamp(t), V('timestamp', t)
        off = rng.choice([None, 0, 60, -90])
        tz = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
        us = rng.choice([0, 1, 999999, rng.randrange(10 ** 6)])
        d = rng.choice([datetime.datetime, MyDate])(rng.randrange(2, 9999), rng.randrange(1, 13), rng.randrange(1, 29),
                                                   rng.randrange(24), rng.randrange(60), rng.randrange(60), us, tz)
        return d, V('timestamp', spec.ts_norm(spec.TS((d.year, d.month, d.day, d.hour, d.minute, d.second), 4, off, (us, 6))))
    kids = [native(rng, depth - 1, sexp) for _ in range(rng.randrange(0, 4))]
    if k < 10:
        return rng.choice([list, MyList])(x for x, _ in kids), V('list', tuple(v for _, v in kids))
    if k == 10:
        return rng.choice([tuple, MyTuple])(x for x, _ in kids), V('sexp' if sexp else 'list', tuple(v for _, v in kids))
    d, f = rng.choice([dict, OrderedDict, MyDict])(), OrderedDict()
    for x, v in kids:
        n = gen.text(rng)
        d[n] = x
        f[n] = v
    return d, V('struct', tuple(f.items()))


class Other(object):
    pass


UNSUPPORTED = [lambda: Other(), lambda: {1, 2}, lambda: frozenset(), lambda: bytearray(b'a'), lambda: range(3), lambda: 1j,
               lambda: (x for x in ()), lambda: datetime.date(2000, 1, 1), lambda: datetime.time(1), lambda: len,
               lambda: Other, lambda: memoryview(b'a'), lambda: datetime.timedelta(1), lambda: iter([])]


def run(r):
    r.bound = 'values of depth up to 3; sampled'
    r.rule = 'random native objects and Ion-natured objects, dumped and loaded in both formats, compared with the documented conversion; streams of n values with and without single_value; unsupported values; distinct by octets'
    rng = r.rng
    for i in r.loop(r.scale(9000)):
        sexp = rng.random() < .4
        binary = rng.random() < .5
        obj, v = native(rng, rng.choice([0, 0, 1, 2, 3]), sexp)
        if gen.reserved_top(v):
            continue
        s = attempt(lambda: dumps(obj, binary=binary, tuple_as_sexp=sexp))
        got = attempt(lambda: spec.decode_binary(s) if binary else spec.decode_text(s))
        if got != [v]:
            r.fail('native', 'wrote %r' % (got if isinstance(s, (bytes, str)) else s,), obj=obj, expected=v, tuple_as_sexp=sexp)
        r.count('native', s)
        back = attempt(lambda: lib.from_py(loads(s)))
        if back != lib.grouped(v):
            r.fail('load', 'loaded %r' % (back,), expected=v, data=s)
        # loaded values dump again, in either format
        vs = gen.stream(rng, n=rng.choice([0, 1, 1, 2, 3]), depth=rng.choice([0, 1, 2, 3]))
        d = spec.encode_binary(vs, rng) if rng.random() < .5 else spec.Writer(rng).stream(vs)
        want = [lib.grouped(x) for x in vs]
        objs = attempt(lambda: loads(d, single_value=False))
        got = attempt(lambda: [lib.from_py(x) for x in objs])
        if got != want:
            r.fail('stream', 'loaded %r' % (got,), data=d, expected=want)
            continue
        try:
            one = loads(d)
            if len(vs) != 1 or lib.from_py(one) != want[0]:
                r.fail('single', 'returned %r' % (one,), data=d, values=vs)
        except IonException:
            if len(vs) == 1:
                r.fail('single', 'rejected a single value', data=d)
        for b in (True, False):
            again = attempt(lambda: dumps(objs, binary=b, sequence_as_stream=True))
            got = attempt(lambda: spec.decode_binary(again) if b else spec.decode_text(again))
            if got != want:
                r.fail('again', 'wrote %r' % (got,), data=d, expected=want, binary=b)
        for o in objs:
            # conversion of a value and of its copy agree
            c = o._copy() if hasattr(o, '_copy') else o
            if attempt(lambda: lib.from_py(c)) != lib.from_py(o):
                r.fail('copy', '%r became %r' % (o, c), data=d)
        r.count('stream', d)
        if i < 2:
            r.sample(obj=obj, expected=v)
        if i % 10 == 0:
            bad = rng.choice(UNSUPPORTED)()
            o = rng.choice([lambda: bad, lambda: [1, bad], lambda: {'a': bad}, lambda: (bad,), lambda: [[bad]]])()
            try:
                w = dumps(o, binary=binary)
                r.fail('unsupported', '%r was written as %r' % (o, w))
            except TypeError:
                pass
            r.count('unsupported', repr(type(bad)) + repr(type(o)))
        if i % 10 == 1:
            fp = BytesIO()
            dump(obj, fp, binary=binary, tuple_as_sexp=sexp)
            fp.seek(0)
            if attempt(lambda: lib.from_py(load(fp))) != lib.grouped(v):
                r.fail('file', '', obj=obj)
        if i == 2 and r.shard == 0:
            p = Pair(1, 'a')
            got = attempt(lambda: spec.decode_binary(dumps(p)))
            if got != [V('struct', (('x', V('int', 1)), ('y', V('string', 'a'))))]:
                r.fail('namedtuple', 'written as %r' % (got,), key='namedtuple')


def attempt(f):
    try:
        return f()
    except Exception as e:
        return e
