"""Reference model of Ion 1.0 used as oracle by the bounded stand-ins.

Written from the Ion 1.0 specification, independently of /repo: a data model, a binary encoder and a strict binary
decoder, a text decoder, and a text encoder that varies spelling at random.
"""
import base64
import re
import struct
from collections import namedtuple
from datetime import datetime, timedelta

V = namedtuple('V', 't v ann')
V.__new__.__defaults__ = ((),)
UNK = ('unknown-text',)
TYPES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
         'struct')
SYSTEM = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id',
          '$ion_shared_symbol_table']
IVM = b'\xe0\x01\x00\xea'


class Bad(Exception):
    """The input is not legal Ion."""


class Lenient(Exception):
    """Input on which the specification leaves latitude, or which the properties exclude."""


def fbits(x):
    return 'nan' if x != x else struct.pack('>d', x)


def ffrom(b):
    return float('nan') if b == 'nan' else struct.unpack('>d', b)[0]


TS = namedtuple('TS', 'fields prec off frac')  # local fields; prec 0..4; offset minutes or None; (coef, digits) or None


def ts_norm(ts):
    n = (1, 2, 3, 5, 6)[ts.prec]
    f = tuple(ts.fields[:n])
    frac = ts.frac if ts.frac and ts.frac[1] > 0 else None
    return TS(f, ts.prec, ts.off, frac)


def ts_full(ts):
    return tuple(ts.fields) + (1, 1, 1, 0, 0, 0)[len(ts.fields):]


# -- binary ---------------------------------------------------------------------------------------------------------

def uint(n, size=None):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    if size is not None:
        out += [0] * (size - len(out))
    return bytes(bytearray(reversed(out)))


def varuint(n, pad=0):
    out = [0x80 | (n & 127)]
    n >>= 7
    while n:
        out.append(n & 127)
        n >>= 7
    return bytes(bytearray([0] * pad + list(reversed(out))))


def varint(n, neg=None, pad=0):
    neg = n < 0 if neg is None else neg
    n = abs(n)
    out = [n & 127]
    n >>= 7
    while n:
        out.append(n & 127)
        n >>= 7
    if out[-1] > 63:
        out.append(0)
    out += [0] * pad
    out.reverse()
    if neg:
        out[0] |= 0x40
    out[-1] |= 0x80
    return bytes(bytearray(out))


def sint(n, neg=None, pad=0):
    neg = n < 0 if neg is None else neg
    b = bytearray(uint(abs(n)))
    if not b and not neg and not pad:
        return b''
    if not b or b[0] & 0x80:
        b.insert(0, 0)
    for _ in range(pad):
        b.insert(0, 0)
    if neg:
        b[0] |= 0x80
    return bytes(b)


TID = {'null': 0, 'bool': 1, 'int': 2, 'float': 4, 'decimal': 5, 'timestamp': 6, 'symbol': 7, 'string': 8, 'clob': 9,
       'blob': 10, 'list': 11, 'sexp': 12, 'struct': 13}


class Enc(object):
    """Binary encoder. ``rng`` (optional) varies padding, NOP pads, float width and length forms."""

    def __init__(self, sids, rng=None, nops=True):
        self.sids = sids
        self.rng = rng
        self.nops = nops and rng is not None

    def chance(self, p):
        return self.rng is not None and self.rng.random() < p

    def td(self, tid, body, force_var=False):
        n = len(body)
        if n < 14 and not force_var and not self.chance(0.15):
            return bytes(bytearray([tid << 4 | n])) + body
        return bytes(bytearray([tid << 4 | 14])) + varuint(n, self.rng.randrange(3) if self.chance(0.3) else 0) + body

    def sid(self, s):
        if isinstance(s, int):
            return s
        if s is UNK:
            return 0
        return self.sids[s]

    def pad(self):
        n = self.rng.choice([0, 0, 1, 3, 13, 14, 20])
        if n < 14:
            return bytes(bytearray([n])) + bytes(bytearray(self.rng.randrange(256) for _ in range(n)))
        return b'\x0e' + varuint(n) + bytes(bytearray(self.rng.randrange(256) for _ in range(n)))

    def ts(self, ts):
        body = b''
        if ts.off is None:
            body += b'\xc0'
        else:
            body += varint(ts.off)
        f = list(ts_full(ts))
        if ts.prec >= 3 and ts.off:
            d = datetime(*f) - timedelta(minutes=ts.off)
            f = [d.year, d.month, d.day, d.hour, d.minute, d.second]
        n = (1, 2, 3, 5, 6)[ts.prec]
        for x in f[:n]:
            body += varuint(x)
        if ts.frac:
            body += varint(-ts.frac[1]) + sint(ts.frac[0])
        return body

    def scalar(self, v):
        t = v.t
        if v.v is None:
            tid = TID[t]
            if t == 'int' and self.chance(0.5):
                tid = 3
            return bytes(bytearray([tid << 4 | 15]))
        if t == 'bool':
            return b'\x11' if v.v else b'\x10'
        if t == 'int':
            pad = self.rng.randrange(1, 4) if self.chance(0.1) else 0
            return self.td(3 if v.v < 0 else 2, b'\0' * pad + uint(abs(v.v)))
        if t == 'float':
            x = ffrom(v.v)
            if v.v == fbits(0.0) and not self.chance(0.2):
                return b'\x40'
            if x != x or x in (float('inf'), float('-inf')) or self.chance(0.5):
                try:
                    s = struct.pack('>f', x)
                    if x != x or struct.unpack('>f', s)[0] == x:
                        if self.chance(0.5):
                            return b'\x44' + s
                except OverflowError:
                    pass
            return b'\x48' + struct.pack('>d', x)
        if t == 'decimal':
            sign, co, ex = v.v
            if (sign, co, ex) == (0, 0, 0) and not self.chance(0.3):
                return b'\x50'
            pad = self.rng.randrange(1, 3) if self.chance(0.1) else 0
            return self.td(5, varint(ex) + sint(-co if sign else co, neg=bool(sign), pad=pad))
        if t == 'timestamp':
            return self.td(6, self.ts(v.v))
        if t == 'symbol':
            return self.td(7, uint(self.sid(v.v)))
        if t == 'string':
            return self.td(8, v.v.encode('utf-8'))
        if t in ('clob', 'blob'):
            return self.td(TID[t], v.v)
        raise AssertionError(t)

    def value(self, v):
        if v.v is not None and v.t in ('list', 'sexp', 'struct'):
            body = b''
            if v.t == 'struct':
                for name, x in v.v:
                    if self.nops and self.chance(0.05):
                        body += varuint(0) + self.pad()  # other field names for padding are refused by design
                    body += varuint(self.sid(name)) + self.value(x)
                keys = [self.sid(n) for n, _ in v.v]
                if body and keys and keys == sorted(keys) and len(set(keys)) == len(keys) and self.chance(0.2) \
                        and not self.nops:
                    out = b'\xd1' + varuint(len(body)) + body
                elif len(body) == 1:
                    out = b'\xde' + varuint(1) + body
                else:
                    out = self.td(13, body)
            else:
                for x in v.v:
                    if self.nops and self.chance(0.05):
                        body += self.pad()
                    body += self.value(x)
                if self.nops and self.chance(0.05):
                    body += self.pad()
                out = self.td(TID[v.t], body)
        else:
            out = self.scalar(v)
        if v.ann:
            sids = b''.join(varuint(self.sid(a)) for a in v.ann)
            out = self.td(14, varuint(len(sids)) + sids + out)
            if len(out) - 1 < 3 and out[0] & 15 < 3:
                raise AssertionError('short wrapper')
        return out


def symbols_of(values, out=None):
    """Distinct symbol texts in order of first use."""
    out = [] if out is None else out

    def add(s):
        if isinstance(s, str) and s not in SYSTEM and s not in out:
            out.append(s)
    for v in values:
        for a in v.ann:
            add(a)
        if v.v is None:
            continue
        if v.t == 'symbol':
            add(v.v)
        elif v.t in ('list', 'sexp'):
            symbols_of(v.v, out)
        elif v.t == 'struct':
            for n, x in v.v:
                add(n)
                symbols_of([x], out)
    return out


def lst(symbols, imports=None, extend=False):
    """A local symbol table value (as model)."""
    f = []
    if extend:
        f.append(('imports', V('symbol', '$ion_symbol_table')))
    elif imports:
        f.append(('imports', V('list', tuple(
            V('struct', (('name', V('string', n)), ('version', V('int', ver))) +
              ((('max_id', V('int', m)),) if m is not None else ())) for n, ver, m in imports))))
    if symbols is not None:
        f.append(('symbols', V('list', tuple(V('string', s) if s is not None else V('null', None) for s in symbols))))
    return V('struct', tuple(f), ('$ion_symbol_table',))


def encode_binary(values, rng=None, nops=True, split=None):
    """A whole stream: version marker, symbol table, values."""
    syms = symbols_of(values)
    sids = dict((s, i + 1) for i, s in enumerate(SYSTEM))
    for s in syms:
        sids.setdefault(s, len(sids) + 1)
    e = Enc(sids, rng, nops)
    plain = Enc(sids)
    out = IVM
    if syms:
        out += plain.value(lst(syms))
    for v in values:
        if e.nops and e.chance(0.05):
            out += e.pad()
        out += e.value(v)
    return out


# -- strict binary decoder ------------------------------------------------------------------------------------------

class Dec(object):
    def __init__(self, data, catalog=None):
        self.d = data
        self.table = [None] + list(SYSTEM)
        self.catalog = catalog or {}
        self.segments = []
        self.in_lst = self.nested = False

    def varuint(self, i, end):
        n = 0
        while True:
            if i >= end:
                raise Bad('varuint runs over the end')
            b = self.d[i]
            i += 1
            n = n << 7 | (b & 127)
            if b & 128:
                return n, i

    def varint(self, i, end):
        """(negative, magnitude, next)"""
        if i >= end:
            raise Bad('varint runs over the end')
        b = self.d[i]
        i += 1
        neg = bool(b & 64)
        n = b & 63
        while not b & 128:
            if i >= end:
                raise Bad('varint runs over the end')
            b = self.d[i]
            i += 1
            n = n << 7 | (b & 127)
        return neg, n, i

    def text_of(self, sid):
        if sid == 0:
            return UNK
        if sid >= len(self.table):
            if self.in_lst:
                raise Lenient('symbol id %d out of range inside a symbol table' % sid)
            raise Bad('symbol id %d out of range' % sid)
        t = self.table[sid]
        return UNK if t is None else t

    def sint(self, b):
        if not b:
            return 0, 0
        neg = bool(b[0] & 128)
        n = b[0] & 127
        for x in b[1:]:
            n = n << 8 | x
        return int(neg), n

    def header(self, i, end):
        if i >= end:
            raise Bad('no type descriptor')
        td = self.d[i]
        return td >> 4, td & 15, i + 1

    def length(self, ln, i, end):
        if ln == 14:
            ln, i = self.varuint(i, end)
        if i + ln > end:
            raise Bad('length past the end')
        return ln, i

    def value(self, i, end, allow_nop=True, annotated=False):
        """(V or None for a NOP pad, next index)"""
        tid, ln, i = self.header(i, end)
        if tid == 15:
            raise Bad('reserved type')
        if tid == 14:
            if annotated:
                raise Bad('nested wrapper')
            if ln == 15:
                raise Bad('null wrapper')
            if ln < 3:
                raise Bad('wrapper too short')
            ln, i = self.length(ln, i, end)
            wend = i + ln
            alen, i = self.varuint(i, wend)
            aend = i + alen
            if aend > wend:
                raise Bad('annotations past the wrapper')
            if alen == 0:
                raise Bad('no annotations')
            ann = []
            while i < aend:
                sid, i = self.varuint(i, aend)
                ann.append(self.text_of(sid))
            if ann[0] == '$ion_symbol_table' and not self.nested:
                self.in_lst = True
            v, i = self.value(i, wend, annotated=True)
            if v is None:
                raise Bad('annotated NOP')
            if i != wend:
                raise Bad('wrapper does not end with its value')
            return V(v.t, v.v, tuple(ann)), i
        if tid == 0:
            if ln == 15:
                return V('null', None), i
            ln, i = self.length(ln, i, end)
            return None, i + ln
        if tid == 1:
            if ln == 15:
                return V('bool', None), i
            if ln > 1:
                raise Bad('bad bool')
            return V('bool', bool(ln)), i
        t = {2: 'int', 3: 'int', 4: 'float', 5: 'decimal', 6: 'timestamp', 7: 'symbol', 8: 'string', 9: 'clob',
             10: 'blob', 11: 'list', 12: 'sexp', 13: 'struct'}[tid]
        if ln == 15:
            return V(t, None), i
        if tid == 13 and ln == 1:
            ln, i = self.varuint(i, end)
            if ln == 0:
                raise Bad('ordered struct of length 0')
            if i + ln > end:
                raise Bad('length past the end')
        else:
            if tid == 4 and ln not in (0, 4, 8):
                raise Bad('float length')
            if tid == 3 and ln == 0:
                raise Bad('negative zero')
            if tid == 6 and ln in (0, 1):
                raise Bad('timestamp length')
            ln, i = self.length(ln, i, end)
        b = self.d[i:i + ln]
        e = i + ln
        if t in ('list', 'sexp', 'struct'):
            out = []
            self.nested = True
            while i < e:
                if t == 'struct':
                    sid, i = self.varuint(i, e)
                    if i >= e:
                        raise Bad('field name without value')
                    name_i = sid
                v, i = self.value(i, e)
                if v is None:
                    continue
                out.append((self.text_of(name_i), v) if t == 'struct' else v)
            return V(t, tuple(out)), e
        if t == 'int':
            n = 0
            for x in b:
                n = n << 8 | x
            if tid == 3 and n == 0:
                raise Lenient('negative zero int')
            return V('int', -n if tid == 3 else n), e
        if t == 'float':
            if ln == 0:
                return V('float', fbits(0.0)), e
            return V('float', fbits(struct.unpack('>f' if ln == 4 else '>d', b)[0])), e
        if t == 'decimal':
            if ln == 0:
                return V('decimal', (0, 0, 0)), e
            neg, ex, j = self.varint(i, e)
            s, n = self.sint(self.d[j:e])
            return V('decimal', (s, n, -ex if neg else ex)), e
        if t == 'timestamp':
            return V('timestamp', self.ts(i, e)), e
        if t == 'symbol':
            n = 0
            for x in b:
                n = n << 8 | x
            return V('symbol', self.text_of(n)), e
        if t == 'string':
            try:
                return V('string', b.decode('utf-8')), e
            except UnicodeDecodeError:
                raise Bad('utf-8')
        return V(t, bytes(b)), e

    def ts(self, i, e):
        neg, off, i = self.varint(i, e)
        offset = None if neg and off == 0 else (-off if neg else off)
        f = []
        while i < e and len(f) < 6:
            x, i = self.varuint(i, e)
            f.append(x)
        if len(f) not in (1, 2, 3, 5, 6):
            raise Bad('timestamp fields')
        prec = {1: 0, 2: 1, 3: 2, 5: 3, 6: 4}[len(f)]
        frac = None
        if i < e:
            neg, ex, i = self.varint(i, e)
            ex = -ex if neg else ex
            if abs(ex) > 20000:
                raise Lenient('fraction with an extreme exponent')
            s, co = self.sint(self.d[i:e])
            if s and co:
                raise Bad('negative fraction')
            if s:
                raise Lenient('negative zero fraction')
            if ex >= 0:
                if co:
                    raise Bad('fraction >= 1')
            else:
                if co >= 10 ** -ex:
                    raise Bad('fraction >= 1')
                frac = (co, -ex)
        full = f + [1, 1, 1, 0, 0, 0][len(f):]
        try:
            d = datetime(*full)
        except (ValueError, OverflowError):
            raise Bad('calendar')
        if prec < 3 and offset is not None:
            raise Lenient('day or coarser precision with an offset')
        if offset is not None:
            if abs(offset) >= 1440:
                raise Bad('offset')
            try:
                d = d + timedelta(minutes=offset)
            except OverflowError:
                raise Lenient('local year out of range')
        full = (d.year, d.month, d.day, d.hour, d.minute, d.second)
        return ts_norm(TS(full, prec, offset, frac))

    def stream(self):
        """Decodes a stream with its symbol tables. Records segments for inspection."""
        d, i, out = self.d, 0, []
        if d[:4] != IVM:
            raise Bad('no version marker')
        while i < len(d):
            if d[i] == 0xe0:
                if d[i:i + 4] != IVM:
                    raise Bad('version marker')
                self.table = [None] + list(SYSTEM)
                self.segments.append({'at': len(out), 'tables': 0, 'values': 0})
                i += 4
                continue
            self.in_lst = self.nested = False
            v, i = self.value(i, len(d))
            if v is None:
                continue
            if v.t == 'struct' and v.ann and v.ann[0] == '$ion_symbol_table' and v.v is not None:
                self.apply_lst(v)
                self.segments[-1]['tables'] += 1
                continue
            if v == V('symbol', '$ion_1_0'):
                continue
            self.segments[-1]['values'] += 1
            out.append(v)
        return out

    def apply_lst(self, v):
        imports = [x for n, x in v.v if n == 'imports']
        symbols = [x for n, x in v.v if n == 'symbols']
        if len(imports) > 1 or len(symbols) > 1:
            raise Lenient('repeated field in symbol table')
        table = [None] + list(SYSTEM)
        declared = []
        if imports and imports[0].t == 'symbol' and imports[0].v == '$ion_symbol_table':
            table = list(self.table)
        elif imports and imports[0].t == 'list' and imports[0].v is not None:
            for im in imports[0].v:
                if im.t != 'struct' or im.v is None:
                    continue
                d = dict(im.v)
                name = d.get('name')
                if not name or name.t != 'string' or not name.v or name.v == '$ion':
                    continue
                ver = d.get('version')
                ver = ver.v if ver and ver.t == 'int' and ver.v and ver.v > 0 else 1
                mx = d.get('max_id')
                mx = mx.v if mx and mx.t == 'int' and mx.v is not None and mx.v >= 0 else None
                texts = resolve(self.catalog, name.v, ver, mx)
                declared.append((name.v, ver, mx))
                table.extend(texts)
        if symbols and symbols[0].t == 'list' and symbols[0].v is not None:
            local = []
            for s in symbols[0].v:
                local.append(s.v if s.t == 'string' else None)
            table.extend(local)
        self.last_declared = declared
        self.last_locals = local if symbols and symbols[0].t == 'list' and symbols[0].v is not None else []
        if self.segments:
            self.segments[-1].setdefault('locals', []).append(self.last_locals)
            self.segments[-1].setdefault('imports', []).append(declared)
        self.table = table


def resolve(catalog, name, version, max_id):
    """catalog: {name: {version: [texts]}}. Texts of the import, None for unknown."""
    vs = catalog.get(name, {})
    if version in vs and (max_id is None or max_id == len(vs[version])):
        return list(vs[version])
    if max_id is None:
        raise Bad('no exact match and no max_id')
    if not vs:
        return [None] * max_id
    best = vs[version] if version in vs else vs[max(vs)]
    return (list(best) + [None] * max_id)[:max_id]


def decode_binary(data, catalog=None):
    return Dec(bytes(data), catalog).stream()


# -- text decoder ---------------------------------------------------------------------------------------------------

WS = ' \t\n\r\x0b\x0c'
INT_RE = re.compile(r'-?(0[xX][0-9a-fA-F]+(_[0-9a-fA-F]+)*|0[bB][01]+(_[01]+)*|0|[1-9][0-9]*(_[0-9]+)*)\Z')
UNIT = r'-?(0|[1-9][0-9]*(_[0-9]+)*)'
FRAC = r'(\.([0-9]+(_[0-9]+)*)?)?'
FLOAT_RE = re.compile(UNIT + FRAC + r'[eE][+-]?[0-9]+\Z')
DEC_RE = re.compile(r'(?P<i>' + UNIT + r')(\.(?P<f>[0-9]+(_[0-9]+)*)?)?([dD](?P<e>[+-]?[0-9]+))?\Z')
TS_RE = re.compile(
    r'(?P<y>[0-9]{4})(T|-(?P<mo>[0-9]{2})(T|-(?P<d>[0-9]{2})(T((?P<h>[0-9]{2}):(?P<mi>[0-9]{2})'
    r'(:(?P<s>[0-9]{2})(\.(?P<f>[0-9]+))?)?(?P<o>Z|[+-][0-9]{2}:[0-9]{2}))?)?))\Z')
NUMSTOP = '{}[](),"\' \t\n\r\x0b\x0c'
IDENT_RE = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*')
OPS = '!#%&*+-./;<=>?@^`|~'
KEYWORDS = {'true', 'false', 'null', 'nan'}
ESC = {'0': 0, 'a': 7, 'b': 8, 't': 9, 'n': 10, 'f': 12, 'r': 13, 'v': 11, '"': 34, "'": 39, '?': 63, '\\': 92, '/': 47}


def parse_number(s):
    """Model value of a numeric or timestamp token, or Bad."""
    m = TS_RE.match(s)
    if m:
        return V('timestamp', parse_ts(m))
    if INT_RE.match(s):
        t = s.replace('_', '')
        neg = t.startswith('-')
        t = t.lstrip('-')
        base = 16 if t[:2] in ('0x', '0X') else 2 if t[:2] in ('0b', '0B') else 10
        n = int(t[2:] if base != 10 else t, base)
        return V('int', -n if neg else n)
    if FLOAT_RE.match(s):
        return V('float', fbits(float(s.replace('_', ''))))
    m = DEC_RE.match(s)
    if m and ('.' in s or 'd' in s or 'D' in s):
        i = m.group('i').replace('_', '')
        f = (m.group('f') or '').replace('_', '')
        sign = 1 if i.startswith('-') else 0
        return V('decimal', (sign, int(i.lstrip('-') + f), int(m.group('e') or 0) - len(f)))
    raise Bad('number %r' % s)


def parse_ts(m):
    g = m.groupdict()
    f = [int(g['y'])]
    prec = 0
    off = frac = None
    if g['mo']:
        f.append(int(g['mo']))
        prec = 1
    if g['d']:
        f.append(int(g['d']))
        prec = 2
    if g['h']:
        f += [int(g['h']), int(g['mi'])]
        prec = 3
        if g['s']:
            f.append(int(g['s']))
            prec = 4
        if g['f']:
            frac = (int(g['f']), len(g['f']))
        o = g['o']
        if o == 'Z':
            off = 0
        else:
            h, mi = int(o[1:3]), int(o[4:6])
            if h > 23 or mi > 59:
                raise Bad('offset')
            off = (h * 60 + mi) * (-1 if o[0] == '-' else 1)
            if o == '-00:00':
                off = None
    full = f + [1, 1, 1, 0, 0, 0][len(f):]
    try:
        datetime(*full)
    except ValueError:
        raise Bad('calendar')
    return ts_norm(TS(tuple(full), prec, off, frac))


class Text(object):
    """Recursive-descent decoder of Ion text."""

    def __init__(self, s, catalog=None):
        self.s = s
        self.i = 0
        self.table = [None] + list(SYSTEM)
        self.catalog = catalog or {}

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def ws(self):
        s = self.s
        while self.i < len(s):
            if s[self.i] in WS:
                self.i += 1
            elif s.startswith('//', self.i):
                j = self.i
                while j < len(s) and s[j] not in '\n\r':
                    j += 1
                self.i = j
            elif s.startswith('/*', self.i):
                j = s.find('*/', self.i + 2)
                if j < 0:
                    raise Bad('unterminated comment')
                self.i = j + 2
            else:
                return

    def text_of(self, sid):
        if sid == 0:
            return UNK
        if sid >= len(self.table):
            raise Bad('sid')
        return UNK if self.table[sid] is None else self.table[sid]

    def escape(self, clob):
        c = self.peek()
        self.i += 1
        if c == '\r':
            if self.peek() == '\n':
                self.i += 1
            return ''
        if c == '\n':
            return ''
        if c in ESC and c:
            return chr(ESC[c])
        n = {'x': 2, 'u': 4, 'U': 8}.get(c)
        if n is None or (clob and c != 'x'):
            raise Bad('escape')
        h = self.peek(n)
        if not re.match('[0-9a-fA-F]{%d}\\Z' % n, h):
            raise Bad('escape digits')
        self.i += n
        x = int(h, 16)
        if x > 0x10ffff:
            raise Bad('code point')
        return chr(x)

    def quoted(self, q, clob=False):
        """After the opening quote."""
        out = []
        long = q == "'''"
        while True:
            if self.i >= len(self.s):
                raise Bad('unterminated')
            if self.s.startswith(q, self.i):
                self.i += len(q)
                r = ''.join(out)
                try:
                    return r.encode('utf-16', 'surrogatepass').decode('utf-16')
                except UnicodeDecodeError:
                    raise Lenient('lone surrogate')
            c = self.s[self.i]
            self.i += 1
            if c == '\\':
                out.append(self.escape(clob))
                continue
            if c == '\r' and long:
                if self.peek() == '\n':
                    self.i += 1
                c = '\n'
            if c in '\n\r' and not long:
                raise Bad('newline in string')
            if ord(c) < 32 and c not in '\t\n\r\x0b\x0c':
                raise Lenient('control character')
            if clob and ord(c) > 126:
                raise Bad('clob character')
            out.append(c)

    def long_string(self, clob=False):
        out = []
        while self.peek(3) == "'''":
            self.i += 3
            out.append(self.quoted("'''", clob))
            self.ws()
        return ''.join(out)

    def symbol_or_none(self, sexp):
        """A symbol token (for annotation/value): (text, quoted) or None."""
        if self.peek() == "'" and self.peek(3) != "'''":
            self.i += 1
            return self.quoted("'"), True
        m = IDENT_RE.match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0), False
        return None

    def resolve_ident(self, t):
        if re.match(r'\$[0-9]+\Z', t):
            return self.text_of(int(t[1:]))
        return t

    def value(self, ctx):
        ann = []
        while True:
            self.ws()
            if self.i >= len(self.s):
                raise Bad('value expected')
            start = self.i
            st = self.symbol_or_none(ctx == 'sexp')
            if st is None:
                break
            self.ws()
            if self.peek(2) == '::':
                if not st[1] and st[0] in KEYWORDS:
                    raise Bad('keyword annotation')
                ann.append(st[0] if st[1] else self.resolve_ident(st[0]))
                self.i += 2
                continue
            self.i = start
            break
        v = self.bare(ctx)
        if ann and v == V('symbol', None) and False:
            raise Bad('')
        return V(v.t, v.v, tuple(ann))

    def bare(self, ctx):
        self.ws()
        c = self.peek()
        if c == '':
            raise Bad('value expected')
        if self.peek(3) == "'''":
            return V('string', self.long_string())
        if c == '"':
            self.i += 1
            return V('string', self.quoted('"'))
        if self.peek(2) == '{{':
            return self.lob()
        if c == '{':
            return self.struct()
        if c in '[(':
            return self.sequence(c)
        nxt = self.s[self.i + 1:self.i + 2]
        if c.isdigit() or (c == '-' and nxt.isdigit()):
            j = self.i
            while j < len(self.s) and self.s[j] not in NUMSTOP and not (
                    self.s.startswith('//', j) or self.s.startswith('/*', j)):
                j += 1
            tok = self.s[self.i:j]
            self.i = j
            return parse_number(tok)
        if self.peek(4) in ('+inf', '-inf'):
            e = self.s[self.i + 4:self.i + 5]
            if e == '' or e in NUMSTOP or e == '/' or (ctx == 'sexp' and e in OPS):
                s = self.peek(4)
                self.i += 4
                return V('float', fbits(float(s)))
        st = self.symbol_or_none(ctx == 'sexp')
        if st is not None:
            t, q = st
            if not q and ctx != 'sexp' and self.peek() and self.peek() in '-+.' and not (
                    t == 'null' and self.peek() == '.'):
                raise Lenient('token directly after an identifier')
            if q:
                return V('symbol', t)
            if t in ('true', 'false'):
                return V('bool', t == 'true')
            if t == 'nan':
                return V('float', 'nan')
            if t == 'null':
                if self.peek() == '.':
                    m = IDENT_RE.match(self.s, self.i + 1)
                    if not m or m.group(0) not in TYPES:
                        raise Bad('null type')
                    self.i = m.end()
                    return V(m.group(0), None)
                return V('null', None)
            return V('symbol', self.resolve_ident(t))
        if ctx == 'sexp' and c in OPS:
            j = self.i
            while j < len(self.s) and self.s[j] in OPS and not self.s.startswith('//', j) \
                    and not self.s.startswith('/*', j):
                j += 1
            t = self.s[self.i:j]
            if not t:
                raise Bad('operator')
            self.i = j
            return V('symbol', t)
        raise Bad('unexpected %r' % c)

    def lob(self):
        self.i += 2
        while self.peek() and self.peek() in WS:
            self.i += 1
        if self.peek() == '"':
            self.i += 1
            t = self.quoted('"', True)
            v = V('clob', t.encode('latin-1'))
        elif self.peek(3) == "'''":
            out = ''
            while self.peek(3) == "'''":
                self.i += 3
                out += self.quoted("'''", True)
                while self.peek() and self.peek() in WS:
                    self.i += 1
            v = V('clob', out.encode('latin-1'))
        else:
            j = self.s.find('}', self.i)
            if j < 0:
                raise Bad('blob')
            raw = ''.join(x for x in self.s[self.i:j] if x not in WS)
            if not re.match(r'([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?\Z', raw):
                raise Bad('base64')
            self.i = j
            v = V('blob', base64.b64decode(raw))
        while self.peek() and self.peek() in WS:
            self.i += 1
        if self.peek(2) != '}}':
            raise Bad('lob end')
        self.i += 2
        return v

    def sequence(self, c):
        self.i += 1
        close = ']' if c == '[' else ')'
        out = []
        while True:
            self.ws()
            if self.peek() == close:
                self.i += 1
                break
            out.append(self.value('list' if c == '[' else 'sexp'))
            self.ws()
            if c == '[':
                if self.peek() == ',':
                    self.i += 1
                elif self.peek() != close:
                    raise Bad('list delimiter')
        return V('list' if c == '[' else 'sexp', tuple(out))

    def struct(self):
        self.i += 1
        out = []
        while True:
            self.ws()
            if self.peek() == '}':
                self.i += 1
                break
            if self.peek(3) == "'''":
                name = self.long_string()
            elif self.peek() == '"':
                self.i += 1
                name = self.quoted('"')
            else:
                st = self.symbol_or_none(False)
                if st is None or (not st[1] and st[0] in KEYWORDS):
                    raise Bad('field name')
                name = st[0] if st[1] else self.resolve_ident(st[0])
            self.ws()
            if self.peek() != ':' or self.peek(2) == '::':
                raise Bad('colon')
            self.i += 1
            out.append((name, self.value('struct')))
            self.ws()
            if self.peek() == ',':
                self.i += 1
            elif self.peek() != '}':
                raise Bad('struct delimiter')
        return V('struct', tuple(out))

    def stream(self):
        out = []
        d = Dec(b'', self.catalog)
        while True:
            self.ws()
            if self.i >= len(self.s):
                return out
            j = self.i
            v = self.value('top')
            raw = self.s[j:self.i].strip()
            if raw == '$ion_1_0':
                self.table = [None] + list(SYSTEM)
                continue
            if v.t == 'struct' and v.ann and v.ann[0] == '$ion_symbol_table' and v.v is not None:
                d.table = self.table
                d.apply_lst(v)
                self.table = d.table
                continue
            out.append(v)


def decode_text(s, catalog=None):
    return Text(s, catalog).stream()


# -- text encoder with random spelling ------------------------------------------------------------------------------

class Writer(object):
    def __init__(self, rng, wild=True):
        self.r = rng
        self.wild = wild
        self.long_ok = False

    def w(self, must=False):
        r = self.r
        if not self.wild:
            return ' ' if must else ''
        k = r.randrange(10)
        if k < 6:
            return ' ' if must else ''
        return r.choice([' ', '\n', '\t', '  ', ' /*c*/', ' /* ** */', ' //x\n', '\r\n', '\x0b', '\x0c'])

    def esc(self, c, q, clob=False):
        r = self.r
        o = ord(c)
        simple = dict((v, k) for k, v in ESC.items())
        if c == q[0] or c == '\\' or o < 32 or o == 127 or (clob and o > 126):
            opts = []
            if o in simple:
                opts.append('\\' + simple[o])
            if o < 256:
                opts.append('\\x%02x' % o)
            if not clob:
                if o < 0x10000:
                    opts.append('\\u%04x' % o)
                opts.append('\\U%08x' % o)
            return r.choice(opts)
        if r.random() < 0.08:
            if o < 256:
                return '\\x%02X' % o
            if not clob:
                return ('\\u%04X' % o) if o < 0x10000 else ('\\U%08X' % o)
        return c

    def q(self, s, q, clob=False):
        out = ''
        for c in s:
            if self.wild and self.r.random() < 0.02:
                out += '\\\n'
            out += self.esc(c, q, clob)
        return q + out + q

    def longs(self, s, clob=False):
        n = self.r.randrange(1, 4)
        cuts = sorted(self.r.randrange(len(s) + 1) for _ in range(n - 1))
        parts = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
        sep = self.r.choice(['', ' ', '\n']) if clob else None
        out = []
        for p in parts:
            body = ''
            for c in p:
                if c == '\n' and self.r.random() < 0.5:
                    body += '\n'
                else:
                    body += self.esc(c, "'", clob)
            out.append("'''" + body + "'''")
        return (' ' if sep is None else sep or ' ').join(out)

    def ident_ok(self, s):
        m = IDENT_RE.match(s)
        return bool(m and m.end() == len(s) and s not in KEYWORDS and not re.match(r'\$[0-9]+\Z', s))

    def sym(self, s, sexp=False):
        if s is UNK:
            return '$0'
        if self.ident_ok(s) and self.r.random() < 0.7:
            return s
        if sexp and s and all(c in OPS for c in s) and '//' not in s and '/*' not in s and self.r.random() < 0.7:
            return s
        if s in SYSTEM and self.r.random() < 0.2:
            return '$%d' % (SYSTEM.index(s) + 1)
        return self.q(s, "'")

    def us(self, digits):
        if not self.wild or self.r.random() < 0.7 or len(digits) < 2:
            return digits
        j = self.r.randrange(1, len(digits))
        return digits[:j] + '_' + digits[j:]

    def scalar(self, v, sexp=False):
        r, t, x = self.r, v.t, v.v
        if x is None:
            return 'null' if t == 'null' and r.random() < 0.5 else 'null.' + t
        if t == 'bool':
            return 'true' if x else 'false'
        if t == 'int':
            s = '-' if x < 0 else ''
            k = r.randrange(4)
            a = abs(x)
            if k == 0:
                return s + r.choice(['0x', '0X']) + self.us('%x' % a if r.random() < .5 else '%X' % a)
            if k == 1 and a < 1 << 200:
                return s + r.choice(['0b', '0B']) + self.us('{:b}'.format(a))
            return s + self.us(str(a))
        if t == 'float':
            f = ffrom(x)
            if f != f:
                return 'nan'
            if f in (float('inf'), float('-inf')):
                return '+inf' if f > 0 else '-inf'
            s = repr(f)
            if 'e' not in s:
                s += r.choice(['e0', 'E0', 'e+0', 'e-0'])
            elif r.random() < 0.5:
                s = s.replace('e', 'E')
            return s
        if t == 'decimal':
            return self.decimal(x)
        if t == 'timestamp':
            return self.ts(x)
        if t == 'symbol':
            return self.sym(x, sexp)
        if t == 'string':
            if self.wild and self.long_ok and r.random() < 0.3:
                return self.longs(x)
            return self.q(x, '"')
        if t == 'clob':
            s = x.decode('latin-1')
            if self.wild and r.random() < 0.3:
                return '{{' + r.choice(['', ' ', '\n']) + self.longs(s, True) + r.choice(['', ' ']) + '}}'
            return '{{' + r.choice(['', ' ']) + self.q(s, '"', True) + r.choice(['', ' ']) + '}}'
        if t == 'blob':
            s = base64.b64encode(x).decode()
            if len(s) > 2 and r.random() < 0.3:
                j = r.randrange(1, len(s))
                s = s[:j] + r.choice([' ', '\n', '\t']) + s[j:]
            return '{{' + r.choice(['', ' ']) + s + r.choice(['', ' ']) + '}}'
        raise AssertionError(t)

    def decimal(self, x):
        sign, co, ex = x
        r = self.r
        s = '-' if sign else ''
        digits = str(co)
        if ex == 0 and r.random() < 0.4:
            return s + digits + '.'
        k = r.randrange(0, len(digits) + 1)
        whole, f = digits[:len(digits) - k], digits[len(digits) - k:]
        if not whole:
            whole = '0'
        if len(whole) > 1 and whole[0] == '0':
            whole, f = digits, ''
        e = ex + len(f)
        out = s + self.us(whole) + (('.' + self.us(f)) if f else ('.' if r.random() < 0.3 else ''))
        if e == 0 and '.' in out:
            return out
        return out + r.choice('dD') + ('%+d' % e if r.random() < 0.3 else str(e))

    def ts(self, t):
        f = t.fields
        s = '%04d' % f[0]
        if t.prec == 0:
            return s + 'T'
        s += '-%02d' % f[1]
        if t.prec == 1:
            return s + 'T'
        s += '-%02d' % f[2]
        if t.prec == 2:
            return s + self.r.choice(['T', ''])
        s += 'T%02d:%02d' % (f[3], f[4])
        if t.prec == 4:
            s += ':%02d' % f[5]
            if t.frac:
                s += '.' + str(t.frac[0]).rjust(t.frac[1], '0')
        if t.off is None:
            return s + '-00:00'
        if t.off == 0 and self.r.random() < 0.7:
            return s + 'Z'
        a = abs(t.off)
        return s + '%s%02d:%02d' % ('-' if t.off < 0 else '+', a // 60, a % 60)

    def value(self, v, sexp=False, ctx=False):
        r = self.r
        out = ''
        for a in v.ann:
            out += self.sym(a) + self.w() + '::' + self.w()
        if v.v is None or v.t not in ('list', 'sexp', 'struct'):
            self.long_ok = ctx  # adjacent long strings merge, so only where a comma follows
            return out + self.scalar(v, sexp and not v.ann)
        if v.t == 'list':
            body = (self.w() + ',' + self.w()).join(self.value(x, ctx=True) for x in v.v)
            if v.v and self.wild and r.random() < 0.2:
                body += self.w() + ','
            return out + '[' + self.w() + body + self.w() + ']'
        if v.t == 'sexp':
            return out + '(' + self.w() + ''.join(self.value(x, True) + self.w(True) for x in v.v) + ')'
        parts = []
        for n, x in v.v:
            if n is not UNK and self.wild and r.random() < 0.2:
                name = self.q(n, '"')
            elif n is not UNK and self.wild and r.random() < 0.05:
                name = self.longs(n)
            else:
                name = self.sym(n)
            parts.append(name + self.w() + ':' + self.w() + self.value(x, ctx=True))
        body = (self.w() + ',' + self.w()).join(parts)
        if parts and self.wild and r.random() < 0.2:
            body += self.w() + ','
        return out + '{' + self.w() + body + self.w() + '}'

    def stream(self, values):
        out = ''
        if self.r.random() < 0.5:
            out += '$ion_1_0\n'
        out += self.w()
        for v in values:
            out += self.value(v) + self.r.choice([' ', '\n', '\t', '\r\n', ' /*x*/ ', ' //y\n'])
        return out
