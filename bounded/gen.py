"""Seeded generators of model values (see spec.V)."""
from .spec import V, TS, UNK, fbits, ts_norm, SYSTEM
import struct
import datetime

TEXTS = ['', 'a', 'abc', 'null', 'true', 'false', 'nan', 'null.int', '+inf', '-inf', 'inf', '$10', '$0', '$1', '$ion',
         '$ion_1_0', '$ion_symbol_table', '$ion_shared_symbol_table', 'name', 'symbols', 'imports', 'max_id', "it's",
         '"', '\\', "'''", '\n', '\r', '\r\n', '\t', '\x00', '\x01', '\x07', '\x0b', '\x0c', '\x1b', '\x7f', '\x80',
         '\x9f', '\xa0', '\xff', u'\u0100', u'\u20ac', u'\uffff', u'\ufeff', u'\U00010000', u'\U0010ffff', u'\U0001f600',
         '1', '-1', '0x1F', '1e5', '2001T', '2001-01-01', '+', '-', '&&', '//', '/*', 'a b', ' ', ',', ':', '::', '{}',
         '{{}}', '()', '[]', '$', '_', 'a-b', 'a.b', '$a', '_1', '1a', '\\x41', '\\n', 'a\\', "a'", 'a"b', '$99999',
         'nullx', 'nan1', 'True', 'NULL', '!', '@x', '#', '%', '^', '~', '`', '?', '<', '=', '|', '*', ';', '.', '/']


def text(r):
    k = r.randrange(10)
    if k < 5:
        return r.choice(TEXTS)
    if k < 8:
        return ''.join(r.choice('abcdefghijkXYZ$_019') for _ in range(r.randrange(1, 9)))
    if k == 8:
        return ''.join(chr(r.choice([r.randrange(32), r.randrange(128), r.randrange(256), r.randrange(0xd800),
                                     r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(0, 20)))
    return r.choice(TEXTS) + r.choice(TEXTS) + r.choice(TEXTS)


LENS = [0, 1, 2, 12, 13, 14, 15, 63, 64, 126, 127, 128, 129, 255, 256]


def long_text(r):
    n = r.choice(LENS + [1000, 16383, 16384] if r.random() < 0.05 else LENS)
    c = r.choice(['a', u'\xe9', u'\u20ac', u'\U0001f600', "'", '\n'])
    return (c * n)[:n]


def string(r):
    return long_text(r) if r.random() < 0.2 else text(r)


def integer(r):
    k = r.randrange(6)
    if k == 0:
        n = r.randrange(-3, 300)
    elif k == 1:
        n = (1 << r.randrange(1, 140)) + r.randrange(-2, 3)
    elif k == 2:
        n = r.getrandbits(r.randrange(1, 200))
    elif k == 3:
        n = 10 ** r.randrange(1, 40) + r.randrange(-1, 2)
    elif k == 4:
        n = (1 << (8 * r.choice(LENS[:10])))
    else:
        n = r.choice([0, 1, 127, 128, 255, 256, 1 << 31, 1 << 32, 1 << 63, 1 << 64])
    return -n if r.random() < 0.5 else n


def floating(r):
    k = r.randrange(5)
    if k == 0:
        return r.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 5e-324, -5e-324,
                         1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1e23, 1e16, 123456789.125, 1e-5, 1e22])
    if k == 1:
        return struct.unpack('>d', struct.pack('>Q', r.getrandbits(64)))[0]
    if k == 2:
        return struct.unpack('>f', struct.pack('>I', r.getrandbits(32)))[0]
    if k == 3:
        return float(r.randrange(-10 ** 6, 10 ** 6))
    return r.uniform(-1000, 1000)


def decimal(r):
    s = r.randrange(2)
    k = r.randrange(5)
    co = [0, r.randrange(100), r.getrandbits(r.randrange(1, 130)), 10 ** r.randrange(0, 40),
          (1 << r.choice([7, 8, 15, 16, 63, 64, 127])) - r.randrange(2)][k]
    ex = r.choice([0, 0, -1, 1, -2, 2, -6, 6, 63, 64, -63, -64, 65, -65, 8191, -8192, r.randrange(-40, 40),
                   r.randrange(-1000, 1000)])
    return s, co, ex


def timestamp(r):
    prec = r.choice([0, 1, 2, 3, 3, 4, 4, 4, 4])
    year = r.choice([1, 2, 127, 128, 1000, 1970, 2000, 2011, 9998, 9999, r.randrange(1, 10000)])
    month = r.randrange(1, 13)
    day = r.choice([1, 28, r.randrange(1, 29)])
    if r.random() < 0.2:
        day = [31, 29 if year % 4 == 0 and (year % 100 or year % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
               31][month - 1]
    h, mi, s = r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])
    off = None
    if prec >= 3:
        off = r.choice([None, 0, 0, 1, -1, 60, -60, 63, 64, -64, 90, -90, 719, 1439, -1439, r.randrange(-1439, 1440)])
    frac = None
    if prec == 4 and r.random() < 0.6:
        d = r.choice([1, 2, 3, 5, 6, 7, 9, 12, 27, 28, 29, 30, 40])
        co = r.choice([0, 1, 10 ** d - 1, 5 * 10 ** (d - 1), r.randrange(10 ** d), 10 ** (d - 1)])
        frac = (co, d)
    ts = ts_norm(TS((year, month, day, h, mi, s), prec, off, frac))
    if off:
        try:
            full = (tuple(ts.fields) + (1, 1, 1, 0, 0, 0)[len(ts.fields):])
            u = datetime.datetime(*full) - datetime.timedelta(minutes=off)
            # comparing aware datetimes needs the other direction to be representable too
        except OverflowError:
            return timestamp(r)
        if u.year < 1:
            return timestamp(r)
    return ts


def lob(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 12, 13, 14, 15, 127, 128]) if r.random() < 0.9 else r.randrange(300)
    k = r.randrange(3)
    if k == 0:
        return bytes(bytearray(r.randrange(256) for _ in range(n)))
    if k == 1:
        return bytes(bytearray(r.choice([0, 7, 9, 10, 13, 34, 39, 92, 127, 128, 255, 65]) for _ in range(n)))
    return (b'a' * n)


SCALARS = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob')


def scalar(r, symbols=text, kinds=SCALARS, nulls=True):
    t = r.choice(kinds)
    if t == 'null':
        return V('null', None)
    if nulls and r.random() < 0.06:
        return V(r.choice(['bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list',
                           'sexp', 'struct']), None)
    v = {'bool': lambda: r.random() < 0.5, 'int': lambda: integer(r), 'float': lambda: fbits(floating(r)),
         'decimal': lambda: decimal(r), 'timestamp': lambda: timestamp(r), 'symbol': lambda: symbols(r),
         'string': lambda: string(r), 'clob': lambda: lob(r), 'blob': lambda: lob(r)}[t]()
    return V(t, v)


def annotations(r, symbols=text, p=0.2):
    if r.random() >= p:
        return ()
    return tuple(symbols(r) for _ in range(r.choice([1, 1, 1, 2, 3, 10])))


def value(r, depth=3, symbols=text, unknown=False, top=False, ann=0.2, kinds=SCALARS, budget=None):
    budget = budget if budget is not None else [40]
    budget[0] -= 1
    if depth > 0 and budget[0] > 0 and r.random() < 0.4:
        t = r.choice(['list', 'sexp', 'struct'])
        n = r.choice([0, 1, 2, 3, 4, 6, 13, 14, 20])
        kids = []
        for _ in range(n):
            if budget[0] <= 0:
                break
            kids.append(value(r, depth - 1, symbols, unknown, False, ann, kinds, budget))
        if t == 'struct':
            pool = [symbols(r) for _ in range(max(1, n // 2))]
            kids = [(r.choice(pool) if r.random() < 0.4 else symbols(r), k) for k in kids]
        v = V(t, tuple(kids))
    else:
        v = scalar(r, symbols, kinds)
    v = V(v.t, v.v, annotations(r, symbols, ann))
    if top and reserved_top(v):
        return value(r, depth, symbols, unknown, top, ann, kinds)
    return v


def reserved_top(v):
    """Values with a meaning of their own at the top level."""
    if v.t == 'symbol' and not v.ann and v.v in ('$ion_1_0',):
        return True
    return v.t == 'struct' and v.ann and v.ann[0] == '$ion_symbol_table'


def stream(r, n=None, **kw):
    n = n if n is not None else r.choice([0, 1, 1, 2, 3, 5])
    return [value(r, top=True, **kw) for _ in range(n)]
