"""Bridges between the reference model and the library under test."""
from datetime import timedelta
from decimal import Decimal, Context
from io import BytesIO, StringIO

from amazon.ion.core import (IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT, Timestamp, TimestampPrecision,
                             OffsetTZInfo, ION_VERSION_MARKER_EVENT)
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.symbols import SymbolToken
from amazon.ion.writer import blocking_writer, WriteEventType
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer
from amazon.ion import simpleion
from amazon.ion import simple_types as st

from .spec import V, TS, UNK, fbits, ffrom, ts_norm, ts_full

TYPE = dict((t.name.lower(), t) for t in (
    IonType.NULL, IonType.BOOL, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP, IonType.SYMBOL,
    IonType.STRING, IonType.CLOB, IonType.BLOB, IonType.LIST, IonType.SEXP, IonType.STRUCT))
NAME = dict((v, k) for k, v in TYPE.items())
PREC = [TimestampPrecision.YEAR, TimestampPrecision.MONTH, TimestampPrecision.DAY, TimestampPrecision.MINUTE,
        TimestampPrecision.SECOND]


def dec(sign, co, ex):
    return Decimal((sign, tuple(int(c) for c in str(co)), ex))


def frac_decimal(frac):
    return dec(0, frac[0], -frac[1]) if frac else Decimal(0)


def to_timestamp(ts, cls=Timestamp):
    f = ts_full(ts)
    tz = None if ts.off is None else OffsetTZInfo(timedelta(minutes=ts.off))
    return cls(f[0], f[1], f[2], f[3], f[4], f[5], None, tz, precision=PREC[ts.prec],
               fractional_seconds=frac_decimal(ts.frac))


def native(v):
    """The raw value of an event."""
    if v.v is None:
        return None
    t = v.t
    if t in ('bool', 'int', 'string', 'clob', 'blob'):
        return v.v
    if t == 'symbol':
        return SymbolToken(None, 0) if v.v is UNK else v.v
    if t == 'float':
        return ffrom(v.v)
    if t == 'decimal':
        return dec(*v.v)
    if t == 'timestamp':
        return to_timestamp(v.v)
    raise AssertionError(t)


def sym(s):
    return SymbolToken(None, 0) if s is UNK else s


def tok(s):
    return SymbolToken(None, 0) if s is UNK else SymbolToken(s, None)


def to_events(v, field=None, depth=0, token=sym):
    ann = tuple(token(a) for a in v.ann)
    f = None if field is None else token(field)
    if v.v is not None and v.t in ('list', 'sexp', 'struct'):
        yield IonEvent(IonEventType.CONTAINER_START, TYPE[v.t], None, f, ann, depth)
        for x in v.v:
            if v.t == 'struct':
                for e in to_events(x[1], x[0], depth + 1, token):
                    yield e
            else:
                for e in to_events(x, None, depth + 1, token):
                    yield e
        yield IonEvent(IonEventType.CONTAINER_END, TYPE[v.t], depth=depth)
    else:
        val = native(v)
        if v.t == 'symbol' and isinstance(val, str):
            val = token(val)
        yield IonEvent(IonEventType.SCALAR, TYPE[v.t], val, f, ann, depth)


def text_of(s):
    if isinstance(s, SymbolToken):
        return UNK if s.text is None else s.text
    return UNK if s is None else str(s)


def model_ts(x):
    off = x.utcoffset()
    if off is not None:
        off = off.days * 1440 + off.seconds // 60
    p = x.precision
    p = 4 if p is None else PREC.index(p)
    fs = x.fractional_seconds
    s, d, e = fs.as_tuple()
    co = int(''.join(map(str, d)))
    if s or e > 0 and co:
        raise ValueError('fraction %r' % (fs,))
    frac = (co, -e) if e < 0 else None
    if e >= 0 and co:
        raise ValueError('fraction %r' % (fs,))
    if x.microsecond != (co * 10 ** 6 // 10 ** -e if e < 0 else 0):
        raise ValueError('microsecond %r of %r' % (x.microsecond, fs))
    if x.fractional_precision != min(6, -e if e < 0 else 0):
        raise ValueError('fractional_precision %r of %r' % (x.fractional_precision, fs))
    return ts_norm(TS((x.year, x.month, x.day, x.hour, x.minute, x.second), p, off, frac))


def model_scalar(t, x):
    if x is None:
        return None
    if t == 'bool':
        if x not in (0, 1):
            raise ValueError('bool %r' % (x,))
        return bool(x)
    if t == 'int':
        if not isinstance(x, int) or isinstance(x, bool):
            raise ValueError('int %r' % (x,))
        return int(x)
    if t == 'float':
        if not isinstance(x, float):
            raise ValueError('float %r' % (x,))
        return fbits(float(x))
    if t == 'decimal':
        s, d, e = x.as_tuple()
        return (s, int(''.join(map(str, d))), e)
    if t == 'timestamp':
        return model_ts(x)
    if t == 'symbol':
        return text_of(x)
    if t == 'string':
        if not isinstance(x, str):
            raise ValueError('string %r' % (x,))
        return str(x)
    if t in ('clob', 'blob'):
        return bytes(x)
    raise ValueError(t)


class Proto(Exception):
    """The event sequence itself is malformed."""


def model_event(e):
    t = NAME[e.ion_type]
    return V(t, model_scalar(t, e.value), tuple(text_of(a) for a in e.annotations))


def from_events(events):
    """Model values of a complete event sequence, checking nesting, depth and field names."""
    top, stack = [], []

    def add(v, e):
        if stack:
            if stack[-1][0] == 'struct':
                if e.field_name is None:
                    raise Proto('no field name in struct')
                stack[-1][2].append((text_of(e.field_name), v))
            else:
                if e.field_name is not None:
                    raise Proto('field name outside a struct')
                stack[-1][2].append(v)
        else:
            if e.field_name is not None:
                raise Proto('field name at top level')
            top.append(v)

    for e in events:
        k = e.event_type
        if k is IonEventType.SCALAR:
            if e.depth != len(stack):
                raise Proto('depth %r at nesting %d' % (e.depth, len(stack)))
            add(model_event(e), e)
        elif k is IonEventType.CONTAINER_START:
            if e.depth != len(stack):
                raise Proto('depth %r at nesting %d' % (e.depth, len(stack)))
            stack.append((NAME[e.ion_type], tuple(text_of(a) for a in e.annotations), [], e))
        elif k is IonEventType.CONTAINER_END:
            if not stack:
                raise Proto('unbalanced end')
            t, ann, kids, s = stack.pop()
            if e.ion_type is not None and NAME[e.ion_type] != t:
                raise Proto('end of %s for %s' % (e.ion_type, t))
            if e.depth != len(stack):
                raise Proto('depth %r at end, nesting %d' % (e.depth, len(stack)))
            add(V(t, tuple(kids), ann), s)
        elif k is IonEventType.VERSION_MARKER:
            if stack:
                raise Proto('version marker inside a container')
        else:
            raise Proto('event %r' % (e,))
    if stack:
        raise Proto('unclosed container')
    return top


def read_all(data, reader=None, buffer_size=None, catalog=None):
    """Events of a whole stream through the blocking, managed reader."""
    if isinstance(data, str):
        raw, fp = text_reader(is_unicode=True), StringIO(data, newline='')
    else:
        raw = binary_reader() if data[:4] == b'\xe0\x01\x00\xea' else text_reader()
        fp = BytesIO(data)
    r = reader or blocking_reader(managed_reader(raw, catalog), fp, *([buffer_size] if buffer_size else []))
    out = []
    while True:
        e = r.send(NEXT_EVENT)
        if e.event_type is IonEventType.STREAM_END:
            return out
        out.append(e)


def read_values(data, **kw):
    return from_events(read_all(data, **kw))


def raw_events(data):
    rd = blocking_reader(binary_reader(), BytesIO(data))
    out = []
    while True:
        e = rd.send(NEXT_EVENT)
        if e.event_type is IonEventType.STREAM_END:
            return out
        out.append(e)


def read_each(data, catalog, visit):
    """Calls ``visit`` with every event of a whole stream as soon as the managed reader reports it."""
    if isinstance(data, str):
        raw, fp = text_reader(is_unicode=True), StringIO(data, newline='')
    else:
        raw, fp = binary_reader() if data[:1] == b'\xe0' else text_reader(), BytesIO(data)
    rd = blocking_reader(managed_reader(raw, catalog), fp)
    while True:
        e = rd.send(NEXT_EVENT)
        if e.event_type is IonEventType.STREAM_END:
            return
        visit(e)


def write_events(events, binary=True, indent=None, imports=None, version_marker=False, end=True):
    fp = BytesIO()
    w = blocking_writer(binary_writer(imports) if binary else text_writer(indent=indent), fp)
    if version_marker:
        w.send(ION_VERSION_MARKER_EVENT)
    for e in events:
        w.send(e)
    if end:
        w.send(ION_STREAM_END_EVENT)
    return fp.getvalue()


def write_values(values, **kw):
    token = kw.pop('token', sym)
    return write_events((e for v in values for e in to_events(v, token=token)), **kw)


# -- objects --------------------------------------------------------------------------------------------------------

_CLS = {'bool': st.IonPyBool, 'int': st.IonPyInt, 'float': st.IonPyFloat, 'decimal': st.IonPyDecimal,
        'timestamp': st.IonPyTimestamp, 'symbol': st.IonPySymbol, 'string': st.IonPyText, 'clob': st.IonPyBytes,
        'blob': st.IonPyBytes}


def to_py(v):
    ann = tuple(tok(a) for a in v.ann)
    if v.v is None:
        return st.IonPyNull.from_value(TYPE[v.t], None, ann) if False else _null(v.t, ann)
    if v.t in ('list', 'sexp'):
        return st.IonPyList.from_value(TYPE[v.t], [to_py(x) for x in v.v], ann)
    if v.t == 'struct':
        d = st.IonPyDict()
        for n, x in v.v:
            d.add_item(None if n is UNK else n, to_py(x))
        d.ion_type = IonType.STRUCT
        d.ion_annotations = ann
        return d
    val = native(v)
    if v.t == 'symbol' and isinstance(val, str):
        val = SymbolToken(val, None)
    return _CLS[v.t].from_value(TYPE[v.t], val, ann)


def _null(t, ann):
    n = st.IonPyNull()
    n.ion_type = TYPE[t]
    n.ion_annotations = ann
    return n


def from_py(o):
    """Model of a loaded object. Struct fields grouped by name in first-seen order."""
    t = NAME[o.ion_type]
    ann = tuple(text_of(a) for a in o.ion_annotations)
    if isinstance(o, st.IonPyNull):
        return V(t, None, ann)
    if t in ('list', 'sexp'):
        return V(t, tuple(from_py(x) for x in o), ann)
    if t == 'struct':
        return V(t, tuple((text_of(k), from_py(x)) for k, x in o.items()), ann)
    return V(t, model_scalar(t, o), ann)


def grouped(v):
    """Model value with struct fields grouped by name, names in first-seen order."""
    if v.v is None or v.t not in ('list', 'sexp', 'struct'):
        return v
    if v.t == 'struct':
        names = []
        for n, _ in v.v:
            if n not in names:
                names.append(n)
        return V(v.t, tuple((n, grouped(x)) for k in names for n, x in v.v if n == k), v.ann)
    return V(v.t, tuple(grouped(x) for x in v.v), v.ann)


def canon(v):
    """Model value up to struct field order."""
    if v.v is None or v.t not in ('list', 'sexp', 'struct'):
        return v
    if v.t == 'struct':
        return V(v.t, tuple(sorted(((n, canon(x)) for n, x in v.v), key=repr)), v.ann)
    return V(v.t, tuple(canon(x) for x in v.v), v.ann)


ERRORS = (IonException, ValueError, TypeError, OverflowError, IndexError, KeyError, ArithmeticError, AssertionError,
          AttributeError, StopIteration, EOFError)
