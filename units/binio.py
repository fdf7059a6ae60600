"""Drives the real raw binary writer and reader with symbolic events and octets."""
from pyvc import proxies as P
from pyvc import terms as T
from pyvc.contract import resolve
from pyvc.rt import LoopSpec
from units import fields as F

RAW = 'amazon.ion.writer_binary_raw'
READER = 'amazon.ion.reader_binary'
IVM = b'\xe0\x01\x00\xea'
C = T.const


def concat(c, parts):
    """The concatenation of what was emitted."""
    if c.concrete:
        return b''.join(bytes(p) for p in parts)
    out = []
    for p in parts:
        out += P.pieces_of(p)
    return P.VBytes(out)


def write(c, events, writer=None, end=True):
    """Everything the writer emits for the events (and the end of the stream)."""
    from amazon.ion.core import ION_STREAM_END_EVENT
    from amazon.ion.writer import WriteEventType
    if writer is None:
        writer = resolve(RAW + ':_raw_binary_writer')(resolve('amazon.ion.writer_buffer:BufferTree')())
    out = []
    for e in list(events) + ([ION_STREAM_END_EVENT] if end else []):
        while True:
            r = writer.send(e)
            out.append(r.data)
            if r.type is not WriteEventType.HAS_PENDING:
                break
            e = None
    return concat(c, out)


def read(c, data, make=None, limit=40):
    """(events, at the end of the stream) the raw reader reports for the data, in one chunk."""
    from units import textio
    return textio.events(make or (lambda: resolve(READER + ':raw_reader')()), [data] if not isinstance(data, list) else data,
                         close=False, limit=limit)


def scalar(ion_type, value, annotations=(), field_name=None, depth=0):
    from amazon.ion.core import IonEvent, IonEventType
    return IonEvent(IonEventType.SCALAR, ion_type, value, field_name, annotations, depth)


class QueueVarUintLoop(LoopSpec):
    """_var_uint_field_handler at a field that lies wholly inside the queue's first segment."""
    key = READER + '._var_uint_field_handler#0'

    def _q(self, q, name):
        return getattr(q, '_BufferQueue__' + name)

    def _set(self, name, t):
        setattr(self.q, '_BufferQueue__' + name, P.mkint(t))

    def applies(self, c, S, it):
        f = self.field(S.queue)
        return isinstance(f, (F.Field, F.Unterminated)) and getattr(f, 'form', None) is F.VARUINT

    def field(self, q):
        segs = self._q(q, 'segments')
        if not segs or not P.is_sym(segs[0]):
            return None
        try:
            _, rest = P.cut(segs[0].pieces, P.term(self._q(q, 'offset')))
        except P.Unsupported:
            return None
        self.more = len(rest) > 1
        return rest[0] if rest else None

    def setup(self, c, S):
        self.q = S.queue
        self.f = self.field(S.queue)
        self.seg = self._q(self.q, 'segments')[0]
        self.off0, self.size0 = P.term(self._q(self.q, 'offset')), P.term(self._q(self.q, 'size'))
        self.pos0 = P.term(self.q.position)
        self.writes = (self.q,)

    def at(self):
        return T.sub(P.term(self.q.position), self.pos0)

    def leave(self, c):
        F.VARUINT.fold(c, self.f.arr, self.f.off, self.at())

    def havoc(self, c, S):
        i = c.fresh('i')
        last = T.sub(self.f.len, C(1))
        if c.decide(T.eq(i, last)):         # the last octet: everything behind the field stays in terms of its length
            i = last
        self._set('offset', T.add(self.off0, i))
        self._set('size', T.sub(self.size0, i))
        self.q.position = P.mkint(T.add(self.pos0, i))
        S.value = P.SymInt(c.fresh('value'))

    def inv(self, c, S):
        i, f = self.at(), self.f
        yield 'position within the field', T.and_(T.le(C(0), i), T.lt(i, f.len))
        yield 'queue offset', T.eq(P.term(self._q(self.q, 'offset')), T.add(self.off0, i))
        yield 'queue size', T.eq(P.term(self._q(self.q, 'size')), T.sub(self.size0, i))
        segs = self._q(self.q, 'segments')
        yield 'same segment', T.const(bool(segs) and segs[0] is self.seg)
        yield 'value is the digits so far', T.eq(P.term(S.value), F.VARUINT.fold(c, f.arr, f.off, i))


LOOPS = [QueueVarUintLoop]
CONTRACTS = F.WRITERS + [F.ParseVarInt, F.ParseSignedInt, F.IntValue]


# ---------------------------------------------------------------------------------------------------------------
# well-formed encodings, padded forms included

def header(c, tid, n, long_form=True):
    """A type descriptor (and length field) declaring n octets."""
    form = c.choice('length form', ['inline', 'field'] if long_form else ['inline'])
    if form == 'inline':
        c.assume(n < 14)
        c.assume(n >= 0)
        if c.concrete:
            return bytes(bytearray([tid * 16 + n]))
        return P.VBytes([P.Elem(T.add(C(tid * 16), P.term(n)))])
    f, mag, _, k = F.field_input(c, F.VARUINT, 'length field') if not c.concrete else (None, None, None, None)
    if c.concrete:
        return bytes(bytearray([tid * 16 + 14])) + F.octets_of(F.VARUINT, 0, n, c.choice('length padding', [0, 0, 1, 2]))
    c.assume(mag == n)
    return P.VBytes([P.Elem(C(tid * 16 + 14))] + P.pieces_of(f))


def field_piece(c, form, name, empty=False):
    """(octets, magnitude, sign, length) of an arbitrary, possibly padded field."""
    return F.field_input(c, form, name)
