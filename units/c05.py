"""C05: text output reads back as the same values."""
import base64

from pyvc import digits as G
from pyvc import dt as D
from pyvc import floats as FL
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Contract, Unit, resolve
from pyvc.frames import same_state
from units import binio as B
from units import textio as X
from units.c16 import FloatText, Decoded, Rejected, accepted, cat, member, one, read_token

C = T.const
W, RT, CORE = 'amazon.ion.writer_text', 'amazon.ion.reader_text', 'amazon.ion.core'
SPACE = [0x20, 0x09, 0x0a, 0x0d, 0x0b, 0x0c]


# ---------------------------------------------------------------------------------------------------------------
# scalars

def emitted(c, ion_type, value):
    """What the real writer's scalar serializer emits."""
    from amazon.ion.core import IonType
    return rt.vc_call(resolve(W + ':_serialize_scalar'), B.scalar(getattr(IonType, ion_type), value))


FOLLOW = ['space', 'list', 'list end', 'struct end', 'sexp end']


def integer(end):
    def unit(c):
        v = c.int('value')
        r = accepted(c, read_token(c, emitted(c, 'INT', v), end), 'INT')
        c.prove(r == v, 'the same integer')
    return unit


def decimal(end):
    def unit(c):
        v = D.decimal_input(c, 'value')
        if not c.concrete:
            v = D.VDecimal(v.s, v.co, v.e)
        r = accepted(c, read_token(c, emitted(c, 'DECIMAL', v), end), 'DECIMAL')
        a, b = D.dec_parts(c, v), D.dec_parts(c, r)
        for x, y, what in zip(a, b, ('sign', 'coefficient', 'exponent')):
            c.prove(x == y, 'the same ' + what)
    return unit


def floats(end):
    def unit(c):
        v = FL.float_input(c, 'value')
        if c.concrete:
            r = accepted(c, read_token(c, emitted(c, 'FLOAT', v), end), 'FLOAT')
            c.prove(repr(r) == repr(v), 'the same double')
            return
        if c.decide(FL.special(v.o)):
            r = accepted(c, read_token(c, emitted(c, 'FLOAT', v), end), 'FLOAT')
            w = FL.octets_of(r)
            if c.decide(FL.nan_bits(v.o)):
                c.prove(FL.nan_bits(w), 'nan')
            else:
                c.prove(FL.same_bits(w, v.o), 'the same infinity')
            return
        text = rt.vc_call(float.__repr__, v)
        r = accepted(c, read_token(c, emitted(c, 'FLOAT', v), end), 'FLOAT')
        c.prove(isinstance(r, FloatText), 'the number is converted by float()')
        got = G.merge(r.pieces)
        want = G.merge(G.octet_pieces(text))
        if not any(isinstance(p, P.Elem) and p.t is C(101) for p in want):
            want += [P.Elem(C(101)), P.Elem(C(48))]
        c.prove(X.equal(got, want), 'float() is given what float.__repr__ returned, with exponent zero if there is none')
    return unit


@rt.model(base64.b64encode)
def m_b64encode(x, *args):
    if not P.is_sym(x) or args:
        return NotImplemented
    c = P.ctx()
    n = P.total(P.pieces_of(x))
    if c.decide(T.eq(n, C(0))):
        return b''
    k, r = T.div(n, 3), T.mod(n, 3)
    pads = 0 if c.decide(T.eq(r, C(0))) else 2 if c.decide(T.eq(r, C(1))) else 1
    ln = T.add(T.scale(k, 4), C((0, 3, 2)[pads]))
    v = P.View(G.digit_array('base64', 64), C(0), ln)
    c.assume(T.le(C(2), ln))
    c.ghost[('encoded', v.arr.id)] = x, pads, v
    return P.VBytes([v] + [P.Elem(C(61))] * pads)


def blob(end):
    def unit(c):
        v = c.bytes('value')
        r = accepted(c, read_token(c, emitted(c, 'BLOB', v), end), 'BLOB')
        if c.concrete:
            c.prove(r == v, 'the same octets')
            return
        if isinstance(r, Decoded) and r.pieces:
            ps = G.merge(r.pieces)
            x, pads, view = c.ghost.get(('encoded', ps[0].arr.id), (None, None, None)) if isinstance(ps[0], P.View) else (None,) * 3
            c.prove(x is v and X.equal(ps, [view]), 'what is decoded is what the value was encoded to')
        else:
            c.prove(length(c, v) == 0, 'the same octets')
    return unit


def length(c, v):
    return len(v) if c.concrete else v.vc_len()


def constants(c):
    """Nulls of every type, and bools, in every following context."""
    from amazon.ion.core import IonType
    end = c.choice('followed by', FOLLOW)
    ts = ['NULL', 'BOOL', 'INT', 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB', 'BLOB', 'LIST', 'SEXP', 'STRUCT',
          'true', 'false']
    t = c.choice('value', ts)
    kind, v = ('BOOL', t == 'true') if t in ('true', 'false') else (t, None)
    r = accepted(c, read_token(c, emitted(c, kind, v), end), kind)
    c.prove(r is v, 'the same value')


# ---------------------------------------------------------------------------------------------------------------
# the writer: what surrounds a scalar

class Opaque(Contract):
    """A serializer as a function of its argument: some octets (what they are is decided by the units on scalars)."""
    def octets(self, c, what):
        b = c.ghost.get(('token', id(what)))
        if b is None:
            b = c.bytes('token%d' % c.ghost.setdefault('tokens', 0), 1)
            c.ghost['tokens'] += 1
            c.ghost[('token', id(what))] = b
            c.ghost[('keep', id(what))] = what
        return b


class Scalar(Opaque):
    target = 'amazon.ion.writer:serialize_scalar'
    proved = 'C05.int, C05.decimal, C05.float, C05.constants, C05.blob, C03.text, C18'

    def apply(self, c, ion_event, jump_table, null_table):
        return self.octets(c, ion_event)


class Symbol(Opaque):
    target = W + ':_serialize_symbol_value'
    proved = 'C18'

    def apply(self, c, value, suffix):
        b = self.octets(c, value)
        return b + suffix if suffix else b


class Reader(object):
    """Takes the emitted octets apart."""

    def __init__(self, c, data, what):
        self.c, self.what = c, what
        self.data = bytes(data) if c.concrete else None
        self.ps = None if c.concrete else [p for p in P.pieces_of(data)]
        self.skipped = 0

    def spaces(self, least=0):
        """White space, as much as there is."""
        c, n = self.c, 0
        if self.data is not None:
            rest = self.data.lstrip(bytes(bytearray(SPACE)))
            n = len(self.data) - len(rest)
            self.data = rest
        else:
            while self.ps:
                p = self.ps[0]
                if isinstance(p, P.Elem) and not (T.is_const(p.t) and p.t.val in SPACE):
                    break
                if isinstance(p, P.View) and p.arr.id not in c.ghost.get('blank', ()):
                    break
                if isinstance(p, P.Blob):
                    break
                n += 1 if isinstance(p, P.Elem) else 0
                self.ps.pop(0)
        if least:
            c.prove(n >= least, self.what + ': values are separated by white space')

    def literal(self, x, what):
        c = self.c
        if not x:
            return
        if self.data is not None:
            c.prove(self.data[:len(x)] == x, what)
            self.data = self.data[len(x):]
            return
        for o in bytearray(x):
            if not self.ps:
                c.prove(False, what)
            p = self.ps.pop(0)
            if not isinstance(p, P.Elem):
                c.prove(False, what + ' (octets of another shape)', 'shape')
            c.prove(T.eq(p.t, C(o)), what)

    def token(self, x, what):
        c = self.c
        if self.data is not None:
            return self.literal(x, what)
        v = x.pieces[0]
        if not self.ps:
            c.prove(False, what)
        p = self.ps.pop(0)
        c.prove(isinstance(p, P.View) and p.arr is v.arr and T.and_(T.eq(p.off, v.off), T.eq(p.len, v.len)), what)

    def end(self):
        self.c.prove(not self.data if self.data is not None else T.eq(P.total(self.ps), C(0)), self.what + ': nothing else is written')


def indentation(c):
    """None, or white space of any length."""
    how = c.choice('indent', ['none', 'empty', 'some'])
    if how == 'none':
        return None
    if how == 'empty':
        return b''
    b = c.bytes('indent', 1, 3 if c.concrete else None)
    if c.concrete:
        return bytes(bytearray(SPACE[x % len(SPACE)] for x in bytearray(b)))
    v = b.pieces[0]
    c.forall(v.arr, C(-(1 << 200)), None, lambda i, s: T.or_(*[T.eq(s, C(k)) for k in SPACE]))
    c.ghost.setdefault('blank', set()).add(v.arr.id)
    return b


_times = {}


def bytes_times(self, n):
    """indent * depth: some octets, each of them one of the octets repeated."""
    c = P.ctx()
    if len(self.pieces) != 1 or self.pieces[0].arr.id not in c.ghost.get('blank', ()):
        return NotImplemented
    n = P.term(n)
    if not c.decide(T.lt(C(0), n)):
        return b''
    a, k = P.fresh_array('repeated'), c.fresh('n')
    c.assume(T.le(C(1), k))
    c.ghost['blank'].add(a.id)              # each of its octets is an octet of the white space
    return P.VBytes([P.View(a, C(0), k)])


P.VBytes.__mul__ = P.VBytes.__rmul__ = bytes_times
_repeat = G.repeat


def repeat(s, n):
    if type(s) is bytes and not s:
        return s
    return _repeat(s, n)


G.repeat = repeat


def writer_step(kind):
    """The octets of one event, in every state of the writer: any depth, any container, any indentation."""
    def unit(c):
        from amazon.ion.core import IonEvent, IonEventType, IonType, Transition
        from amazon.ion.symbols import SymbolToken
        indent = indentation(c)
        where = c.choice('container', ['none', 'LIST', 'SEXP', 'STRUCT'])
        depth = 0 if where == 'none' else c.int('depth', 1, 5 if c.concrete else None)
        holder = None if where == 'none' else IonEvent(IonEventType.CONTAINER_START, getattr(IonType, where))
        first = c.choice('first', [True, False])
        whence = object()
        if kind in ('STREAM_END', 'VERSION_MARKER') and where != 'none' or kind == 'CONTAINER_END' and where == 'none':
            return
        g = resolve(W + ':_raw_writer_coroutine')(depth, holder, whence, indent)
        me = object()
        fields = [SymbolToken('f%d' % i, None) for i in range(2)]
        name = [SymbolToken('n', None), None]

        def send(ev):
            """All octets the coroutine answers with, and its last transition."""
            out, t = None, g.send(Transition(ev, me))
            while t.event.type.name == 'HAS_PENDING':
                c.prove(t.delegate is me, 'pending output is asked of the same coroutine')
                out = t.event.data if out is None else out + t.event.data
                t = g.send(Transition(None, me))
            d = t.event.data
            if d is not None:
                out = d if out is None else out + d
            return (b'' if out is None else out), t

        def scalar(f, annotations):
            return IonEvent(IonEventType.SCALAR, IonType.INT, 7 if f is not fields[0] else 8,
                            field_name=f if where == 'STRUCT' else None, annotations=annotations)
        if not first:
            send(scalar(fields[0], ()))
        n = c.choice('annotations', [0, 1, 2]) if kind in ('SCALAR', 'CONTAINER_START') else 0
        annotations = [SymbolToken('a%d' % i, None) for i in range(n)]
        if kind == 'SCALAR':
            ev = scalar(fields[1], annotations)
        elif kind == 'CONTAINER_START':
            of = c.choice('opens', ['LIST', 'SEXP', 'STRUCT'])
            ev = IonEvent(IonEventType.CONTAINER_START, getattr(IonType, of),
                          field_name=fields[1] if where == 'STRUCT' else None, annotations=annotations)
        else:
            ev = IonEvent(getattr(IonEventType, kind))
        data, t = send(ev)

        def serialized(name, x):
            if c.concrete:
                return resolve(W + ':' + name)(x)
            return c.ghost[('token', id(x))]
        r = Reader(c, data, kind.lower())
        between = not first and kind not in ('CONTAINER_END', 'STREAM_END')
        r.spaces(1 if between and where in ('none', 'SEXP') else 0)
        if between and where in ('LIST', 'STRUCT'):
            r.literal(b',', 'a comma separates it from the value before')
            r.spaces()
        if kind in ('SCALAR', 'CONTAINER_START'):
            if where == 'STRUCT':
                r.token(serialized('_serialize_symbol_value', fields[1]), 'its field name')
                r.spaces()
                r.literal(b':', 'a colon after the field name')
                r.spaces()
            for a in annotations:
                r.token(serialized('_serialize_symbol_value', a), 'its annotations in order')
                r.spaces()
                r.literal(b'::', 'two colons after an annotation')
                r.spaces()
        if kind == 'SCALAR':
            r.token(serialized('_serialize_scalar', ev), 'the value')
        elif kind == 'CONTAINER_START':
            r.literal({'LIST': b'[', 'SEXP': b'(', 'STRUCT': b'{'}[of], 'the container opens')
        elif kind == 'CONTAINER_END':
            r.literal({'LIST': b']', 'SEXP': b')', 'STRUCT': b'}'}[where], 'the container closes')
        elif kind == 'VERSION_MARKER':
            r.literal(b'$ion_1_0', 'the version marker')
        r.spaces()
        r.end()
        ended = t.event.type.name == 'COMPLETE'
        if kind == 'CONTAINER_END':
            c.prove(t.delegate is whence, 'the enclosing container continues')
            c.prove(ended == (depth == 1) if c.concrete else T.eq(T.ite(T.eq(P.term(depth), C(1)), C(1), C(0)), C(1 if ended else 0)),
                    'output is complete at the top level only')
        elif kind == 'CONTAINER_START':
            c.prove(t.delegate is not me, 'the contents go to another coroutine')
            f = t.delegate.gi_frame.f_locals
            c.prove(f['depth'] == depth + 1, 'one level deeper')
            c.prove(f['container_event'] is ev and f['whence'] is me and f['indent'] is indent, 'for that container')
        else:
            c.prove(t.delegate is me, 'the same coroutine continues')
            c.prove(ended == (where == 'none'), 'output is complete at the top level only')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# the reader: what is between tokens

class Feed(object):
    """A text reader given one chunk at a time."""

    def __init__(self):
        from amazon.ion.reader import NEXT_EVENT
        self.r = resolve(RT + ':reader')(is_unicode=False)
        self.ev = self.r.send(NEXT_EVENT)
        self.out = []

    def __call__(self, *chunks):
        from amazon.ion.reader import NEXT_EVENT, read_data_event
        for x in chunks:
            self.ev = self.r.send(read_data_event(x))
            while self.ev.event_type.name not in ('INCOMPLETE', 'STREAM_END'):
                e = self.ev
                self.out.append((e.event_type.name, e.ion_type and e.ion_type.name, plain(e.value),
                                 e.field_name and e.field_name.text, tuple(a.text for a in e.annotations), e.depth))
                self.ev = self.r.send(NEXT_EVENT)
        return self


def plain(v):
    if isinstance(v, (FloatText, Decoded)) and P.is_sym(v) and all(isinstance(p, P.Elem) and T.is_const(p.t) for p in v.pieces):
        x = bytes(bytearray(p.t.val for p in v.pieces))
        return float(x) if isinstance(v, FloatText) else base64.b64decode(x + b'=' * (-len(x) % 4))
    return getattr(v, 'text', v)


def follows(c, w1, w2):
    """Leaves that are the same function of the last octet read."""
    t1, t2 = P.term(w1) if not c.concrete else w1, P.term(w2) if not c.concrete else w2

    def leaf(x):
        if P.is_sym(x):
            return x.t if isinstance(x, P.SymInt) else None
        return x if type(x) is int else None

    def equal(x, y):
        if c.concrete:
            return True if type(x) is int and type(y) is int and (x, y) == (t1, t2) else None
        if P.is_sym(x) and P.is_sym(y) and type(x) is type(y) and isinstance(x, (P.VBytes, P.VBuf)):
            ps, qs = P.pieces_of(x), P.pieces_of(y)
            return len(ps) == len(qs) and all(
                type(p) is type(q) and (equal(P.SymInt(p.t), P.SymInt(q.t)) if isinstance(p, P.Elem) else
                                        isinstance(p, P.View) and p.arr is q.arr and p.off is q.off and p.len is q.len)
                for p, q in zip(ps, qs))
        a, b = leaf(x), leaf(y)
        if a is None or b is None:
            return None
        if not isinstance(a, T.Term) and not isinstance(b, T.Term):
            return None
        a, b = P.term(x), P.term(y)
        return a is t1 and b is t2 or c.valid(T.eq(a, b))
    return equal


def stutters(c, f1, f2, w1, w2, what):
    """Reading w2 after w1 leads to the state that reading w2 instead of w1 leads to."""
    if not isinstance(f1, list):
        f1, f2 = [f1], [f2]
    for a, b in zip(f1, f2):
        d = same_state(a.r, b.r, follows(c, w1, w2), ignore=('position',))
        if d is None:
            break
    if d is not None:
        if c.concrete:
            return
        raise P.Unsupported('%s: %s' % (what, d))
    c.prove(True, what)


STREAMS = {
    'scalars': ['1', ' ', 'abc', ' ', "'d e'", ' ', '"s"', ' ', '2.5', ' ', 'true', ' ', '1e0', ' ', '2001-01-01', ' ', 'null.int', ' '],
    'annotations': ['a', '::', "'b'", '::', '"s"', ' ', 'c', '::', '1', ' ', '$4', '::', '[', ']', ' '],
    'list': ['[', '1', ',', 'a', ',', '"s"', ',', "'q'", ',', '[', ']', ',', '{', '}', ',', '(', ')', ',', 'a', '::', 'b', ']', ' '],
    'struct': ['{', 'a', ':', '1', ',', "'b'", ':', 'c', ',', '"d"', ':', '[', '1', ']', ',', 'e', ':', 'f', '::', '{', 'g', ':', '2', '}', '}', ' '],
    'sexp': ['(', '1', ' ', 'a', ' ', "'q'", ' ', '"s"', ' ', 'a', '::', 'b', ' ', '(', 'c', ')', ' ', '+', ' ', '[', '1', ']', ' ', '1.5', ')', ' '],
    'lobs': ['{{', 'YWJj', '}}', ' ', '{{', '"abc"', '}}', ' ', '[', '{{', 'YQ==', '}}', ',', '{{', "'''a'''", ' ', "'''b'''", '}}', ']', ' '],
    'long strings': ["'''a'''", ' ', "'''b'''", ' ', '1', ' ', '[', "'''a'''", "'''b'''", ',', "'''c'''", ']', ' ', 'a', '::', "'''x'''", ' ', '2', ' '],
    'containers': ['[', '[', '1', ']', ',', '(', '2', ')', ']', ' ', '{', 'a', ':', '(', '3', ')', ',', 'b', ':', '{', '}', '}', ' ', '(', ')', ' '],
}
NO_COMMENT = ('lobs',)


def expected(tokens):
    return Feed()(''.join(tokens).encode(), b' 1 ').out


def gaps(c, name):
    tokens = STREAMS[name]
    i = c.choice('gap', list(range(len(tokens) + 1)))
    before, after = ''.join(tokens[:i]).encode(), ''.join(tokens[i:]).encode() + b' 1 '
    return expected(tokens), before, after, tokens, i


def in_lob(tokens, i):
    d = 0
    for t in tokens[:i]:
        d += (t == '{{') - (t == '}}')
    return d


def white_space(name):
    """White space of any length between tokens: two octets of it lead to the state one of them leads to."""
    def unit(c):
        want, before, after, _, _ = gaps(c, name)
        w1, w2 = member(c, SPACE, 'space1'), member(c, SPACE, 'space2')
        fed = lambda *ws: Feed()(*(((before,) if before else ()) + ws))
        for ws in ((w1,), (w1, w2), (w1, w2, w1)):
            f = fed(*([one(c, w) for w in ws] + [after]))
            c.prove(f.out == want, 'white space between tokens changes nothing')
        a, b, a2 = fed(one(c, w1)), fed(one(c, w1), one(c, w2)), fed(one(c, w2))
        d = fed(one(c, w1), one(c, w1), one(c, w2))
        stutters(c, [a, b], [b, d], w1, w2, 'after more white space the reader is where it was')
        a(after)
        c.prove(a.out == want, 'white space between tokens changes nothing')
        b(after)
        c.prove(b.out == want, 'more white space between tokens changes nothing')
    return unit


def block_comment(name):
    """/* ... */ between tokens; its text is of any length: the reader's state depends on the last octet being a star only."""
    def unit(c):
        want, before, after, tokens, i = gaps(c, name)
        if in_lob(tokens, i) or after_operator(tokens, i):
            return
        x, y = member(c, NOT_STAR, 'x'), member(c, NOT_STAR, 'y')
        opened = before + b'/*'
        z = member(c, NOT_STAR_SLASH, 'z')
        S = b'*'
        for text in ((), (S,), (S, S), (one(c, x), S), (one(c, x), S, S), (S, one(c, z)), (S, one(c, z), S), (S, S, one(c, z), one(c, y)),
                     (one(c, x), one(c, y)), (b'/', S, b' /*')):
            f = Feed()(opened, *(text + (b'*/', after)))
            c.prove(f.out == want, 'a comment between tokens changes nothing')
        a, b = Feed()(opened, one(c, x)), Feed()(opened, one(c, x), one(c, y))
        stutters(c, a, b, x, y, 'inside a comment')
        p, q = Feed()(opened, S), Feed()(opened, one(c, x), S)
        stutters(c, p, q, 42, 42, 'at a star')
        p2 = Feed()(opened, S, S)
        stutters(c, p, p2, 42, 42, 'at another star')
        s = Feed()(opened, S, one(c, z))
        t = Feed()(opened, one(c, z))
        stutters(c, t, s, z, z, 'past a star')
        for f, rest in ((a, b'*/'), (p, b'/')):
            f(rest, after)
            c.prove(f.out == want, 'a comment between tokens changes nothing')
    return unit


def line_comment(name):
    """// ... up to the end of the line, between tokens."""
    def unit(c):
        want, before, after, tokens, i = gaps(c, name)
        if in_lob(tokens, i) or after_operator(tokens, i):
            return
        x, y = member(c, NOT_NEWLINE, 'x'), member(c, NOT_NEWLINE, 'y')
        opened = before + b'//'
        e = c.choice('end of line', [b'\n', b'\r', b'\r\n'])
        for text in ((), (one(c, x),), (one(c, x), one(c, y)), (b'*/ /*', one(c, y))):
            f = Feed()(opened, *(text + (e, after)))
            c.prove(f.out == want, 'a comment between tokens changes nothing')
        a, b = Feed()(opened, one(c, x)), Feed()(opened, one(c, x), one(c, y))
        stutters(c, a, b, x, y, 'inside a comment')
        a(e, after)
        c.prove(a.out == want, 'a comment between tokens changes nothing')
    return unit


def after_operator(tokens, i):
    return i and tokens[i - 1] == '+'           # a slash would belong to the operator


NOT_STAR = [x for x in range(256) if x != 42]
NOT_STAR_SLASH = [x for x in NOT_STAR if x != 47]
NOT_NEWLINE = [x for x in range(256) if x not in (10, 13)]

UNITS = []


def add(name, fn, of, **kw):
    kw.setdefault('contracts', [])
    UNITS.append(Unit('C05.' + name, fn, loops=X.SCANS + [X.ScanBlob], of=of, seconds=kw.pop('seconds', 200), **kw))


for _e in FOLLOW:
    add('int[%s]' % _e, integer(_e), [W + ':_serialize_scalar_from_string_representation_factory', RT + ':_number_or_timestamp_handler'])
    add('decimal[%s]' % _e, decimal(_e), [W + ':_decimal_str', RT + ':_numeric_handler_factory'])
    add('float[%s]' % _e, floats(_e), [W + ':_float_str', RT + ':_numeric_handler_factory'])
    add('blob[%s]' % _e, blob(_e), [W + ':_serialize_blob', RT + ':_lob_start_handler'])
add('constants', constants, [W + ':_serialize_bool', 'amazon.ion.writer:serialize_scalar', RT + ':_typed_null_handler'])
for _k in ('SCALAR', 'CONTAINER_START', 'CONTAINER_END', 'VERSION_MARKER', 'STREAM_END'):
    add('writer step[%s]' % _k, writer_step(_k), [W + ':_raw_writer_coroutine', W + ':_serialize_container_factory',
                                                  W + ':_serialize_field_name', W + ':_serialize_annotation_value'],
        contracts=[Scalar, Symbol])
for _n in sorted(STREAMS):
    for _k, _f in (('white space', white_space), ('block comment', block_comment), ('line comment', line_comment)):
        if _k == 'white space' or True:
            add('%s[%s]' % (_k, _n), _f(_n), [RT + ':_container_handler', RT + ':_comment_handler', RT + ':_sexp_slash_handler'])

ASSUMPTIONS = ['str() of Decimal and float behave as documented (pyvc/digits.py); float(repr(x)) is x; b64decode inverts b64encode',
               'a reader whose suspended frames, closures and contexts are equal behaves alike (Python is deterministic)']
