"""Spec functions and contracts of the integer subfields of binary Ion (VarUInt, VarInt, UInt, Int)."""
from pyvc import terms as T
from pyvc import proxies as P
from pyvc.contract import Contract
from pyvc.rt import LoopSpec

FIELDS = 'amazon.ion.writer_binary_raw_fields'
READER = 'amazon.ion.reader_binary'
C = T.const


class Form(object):
    """One field form: ``bits`` value bits per octet, ``end`` set in the last octet, ``signed`` magnitude forms."""

    def __init__(self, name, bits, end, signed):
        self.name, self.bits, self.end, self.signed = name, bits, end, signed
        self.sign_mask = (1 << (bits - 1)) if signed else 0

    # -- the value denoted by octets arr[p .. p+k), as a fold -------------------------------------------------
    def payload(self, s, first):
        whole = T.mod(s, 1 << self.bits)
        if not self.signed:
            return whole
        return T.ite(first, T.mod(s, 1 << (self.bits - 1)), whole)

    def fold(self, c, arr, p, k):
        def step(cur, at):
            s = c.select(arr, T.add(p, at))
            return T.add(T.scale(cur, 1 << self.bits), self.payload(s, T.eq(at, C(0))))
        return c.family('mag_' + self.name, (arr, p), k, base=C(0), step=step)

    def sign(self, c, arr, p):
        """1 when the sign bit of the first octet is set."""
        return T.mod(T.div(c.select(arr, p), 1 << (self.bits - 1)), 2)

    # -- concrete twin, written independently of the code under verification -----------------------------------
    def conc(self, octets):
        """(negative, magnitude, length) of the field at the start of ``octets``; None when malformed."""
        mag = neg = 0
        n = 0
        for o in bytearray(octets):
            n += 1
            v = o % (1 << self.bits)
            if n == 1 and self.signed:
                neg = v >> (self.bits - 1)
                v %= 1 << (self.bits - 1)
            mag = (mag << self.bits) + v
            if self.end and o >= 128:
                return neg, mag, n
        if self.end or n == 0:
            return None
        return neg, mag, n

    # -- EV(arr, p, n, value): arr[p..p+n) is a well-formed field of this form denoting value --------------------
    def assume(self, c, arr, p, n, mag, neg=None):
        c.assume(T.le(C(1), n))
        c.assume(T.eq(self.fold(c, arr, p, n), mag))
        if self.end:
            c.forall(arr, p, T.add(p, T.sub(n, C(1))), lambda i, s: T.lt(s, C(128)))
            c.assume(T.le(C(128), c.select(arr, T.add(p, T.sub(n, C(1))))))
        if self.signed and neg is not None:
            c.assume(T.eq(self.sign(c, arr, p), neg))

    def prove_rope(self, c, octets, n, mag, neg, name):
        """Proves that the appended octets are one field of length n denoting (neg, mag), minimal if unsigned."""
        if c.concrete:
            r = self.conc(octets)
            c.prove(len(octets) == n, name + ': returned length is the number of octets')
            c.prove(r is not None and r[2] == n and r[1] == mag, name + ': octets denote the value')
            if self.signed:
                c.prove(r is not None and r[0] == neg, name + ': sign bit')
            elif len(octets) > 1:
                c.prove(bytearray(octets)[0] % (1 << self.bits) != 0, name + ': no insignificant leading octet')
            return
        ps = P.pieces_of(octets)
        n, mag = P.term(n), P.term(mag)
        if len(ps) == 1 and isinstance(ps[0], P.View):
            arr, p = ps[0].arr, ps[0].off
        else:
            arr, p = P.fresh_array('out'), C(0)
            for i, e in enumerate(ps):
                if not isinstance(e, P.Elem):
                    raise P.Unsupported('mixed octets')
                c.assume(T.eq(c.select(arr, C(i)), e.t))
        c.prove(T.eq(P.total(ps), n), name + ': returned length is the number of octets')
        c.prove(T.le(C(1), n), name + ': at least one octet')
        c.prove(T.eq(self.fold(c, arr, p, n), mag), name + ': octets denote the value')
        if self.end:
            c.prove_forall(C(0), T.sub(n, C(1)), lambda i: T.lt(c.select(arr, T.add(p, i)), C(128)),
                           name + ': no end flag before the last octet')
            c.prove(T.le(C(128), c.select(arr, T.add(p, T.sub(n, C(1))))), name + ': end flag in the last octet')
        if self.signed:
            c.prove(T.eq(self.sign(c, arr, p), P.term(neg)), name + ': sign bit')
        else:
            c.prove(T.or_(T.eq(n, C(1)),
                          T.not_(T.eq(T.mod(c.select(arr, p), 1 << self.bits), C(0)))),
                    name + ': no insignificant leading octet')


VARUINT = Form('varuint', 7, True, False)
VARINT = Form('varint', 7, True, True)
UINT = Form('uint', 8, False, False)
INT = Form('int', 8, False, True)
FORMS = dict((f.name, f) for f in (VARUINT, VARINT, UINT, INT))


class Field(P.View):
    """A view known (by a writer's contract) to be one whole field."""
    __slots__ = ('form', 'mag', 'neg')

    def __init__(self, arr, off, ln, form, mag, neg):
        P.View.__init__(self, arr, off, ln)
        self.form, self.mag, self.neg = form, mag, neg


def emit(c, form, buf, mag, neg):
    """What a field writer's contract does to its buffer."""
    arr = P.fresh_array(form.name)
    n = c.fresh('n')
    if form.end and not form.signed and T.is_const(mag):
        # a consequence of the contract: only one minimal field denotes a given number
        digits = [mag.val % 128 + 128]
        while mag.val >> (7 * len(digits)):
            digits.insert(0, (mag.val >> (7 * len(digits))) % 128)
        n = C(len(digits))
        for i, d in enumerate(digits):
            c.assume(T.eq(c.select(arr, C(i)), C(d)))
    form.assume(c, arr, C(0), n, mag, neg if form.signed else None)
    if not form.signed:
        c.assume(T.or_(T.eq(n, C(1)), T.not_(T.eq(T.mod(c.select(arr, C(0)), 1 << form.bits), C(0)))))
    if not isinstance(buf, P.VBuf):
        raise P.Unsupported('field written to a native buffer')
    P.ctx_write(buf)
    buf.pieces.append(Field(arr, C(0), n, form, mag, neg))
    return P.SymInt(n)


class WriteUnsigned(Contract):
    def apply(self, c, buf, value):
        t = P.term(value)
        c.prove(T.le(C(0), t), '%s: value is not negative' % self.target.split(':')[1], 'pre')
        return emit(c, self.form, buf, t, C(0))


class WriteSigned(Contract):
    def apply(self, c, buf, value):
        t = P.term(value)
        neg = T.lt(t, C(0))
        return emit(c, self.form, buf, T.ite(neg, T.neg(t), t), T.ite(neg, C(1), C(0)))


def writer(form, fname):
    base = WriteSigned if form.signed else WriteUnsigned
    return type(fname, (base,), {'target': '%s:%s' % (FIELDS, fname), 'form': form, 'proved': 'C01.' + fname})


write_varuint = writer(VARUINT, '_write_varuint')
write_varint = writer(VARINT, '_write_varint')
write_uint = writer(UINT, '_write_uint')
write_int = writer(INT, '_write_int')
WRITERS = [write_varuint, write_varint, write_uint, write_int]


class WriteBase(Contract):
    """_write_base: the octets denote ``value`` in the form selected by its bit-width arguments."""
    target = FIELDS + ':_write_base'
    proved = 'C01._write_base'

    def apply(self, c, buf, value, bits_per_octet, end_bit, sign_bit, is_signed):
        for f in FORMS.values():
            if (f.bits, 128 if f.end else 0, f.signed) == (bits_per_octet, end_bit, bool(is_signed)) and \
                    not P.is_sym(sign_bit) and sign_bit in (0, f.sign_mask):
                t = P.term(value)
                c.prove(T.le(C(0), t), '_write_base: value is not negative', 'pre')
                return emit(c, f, buf, t, C(1 if sign_bit else 0))
        raise P.Unsupported('_write_base with an unknown form')


class WriteBaseLoop(LoopSpec):
    """Before octet i the buffer holds the i most significant digits of ``value``."""
    key = FIELDS + '._write_base#0'

    def setup(self, c, S):
        self.buf = S.buf
        self.writes = (S.buf,)
        self.before = list(S.buf.pieces)
        self.form = [f for f in FORMS.values() if f.bits == S.bits_per_octet and f.signed == bool(S.is_signed)][0]
        self.value, self.n = P.term(S.value), P.term(S.num_octets)
        self.sign_bit, self.end_bit = S.sign_bit, S.end_bit
        self.arr = None

    def havoc(self, c, S):
        self.arr = P.fresh_array('F')
        i = P.term(S.index)
        v = P.View(self.arr, C(0), i)
        self.buf.pieces = self.before + [v]
        self.buf.open = v

    def top_view(self):
        ps = self.buf.pieces[len(self.before):]
        if not ps:
            return C(0)
        return ps[0].len if len(ps) == 1 and isinstance(ps[0], P.View) else None

    def inv(self, c, S):
        i = P.term(S.index)
        b = self.form.bits
        if self.arr is None:
            yield 'buffer unchanged before the first octet', T.eq(P.total(self.buf.pieces), P.total(self.before))
            yield 'no digits written', T.eq(C(0), P.shr_term(self.value, T.scale(self.n, b)))
            return
        ln = self.top_view()
        if ln is None:
            raise P.Unsupported('the loop wrote something other than octets')
        yield 'one octet per iteration', T.eq(ln, i)
        yield 'digits so far', T.eq(self.form.fold(c, self.arr, C(0), i),
                                    P.shr_term(self.value, T.scale(T.sub(self.n, i), b)))
        first = c.select(self.arr, C(0))
        if self.form.signed:
            yield 'sign bit of the first octet', T.implies(
                T.le(C(1), i), T.eq(self.form.sign(c, self.arr, C(0)), C(1 if self.sign_bit else 0)))
        else:
            yield 'first octet is significant', T.implies(
                T.le(C(1), i), T.not_(T.eq(T.mod(first, 1 << b), C(0))))
        if self.form.end:
            yield 'end flag last', T.implies(
                T.and_(T.le(C(1), i), T.eq(i, self.n)), T.le(C(128), c.select(self.arr, T.sub(self.n, C(1)))))

    def _noend(self, hi):
        return T.ite(T.lt(hi, self.n), hi, T.sub(self.n, C(1)))

    def inv_assume(self, c, S):
        if self.form.end:
            c.forall(self.arr, C(0), self._noend(P.term(S.index)), lambda i, s: T.lt(s, C(128)))

    def inv_prove(self, c, S):
        if self.form.end and self.arr is not None:
            c.prove_forall(C(0), self._noend(P.term(S.index)), lambda i: T.lt(c.select(self.arr, i), C(128)),
                           'loop _write_base#0: no end flag before the last octet', 'invariant')


# ---------------------------------------------------------------------------------------------------------------
# reading

def octets_of(form, neg, mag, pad=0):
    """An encoding of (neg, mag) in the given form, with ``pad`` extra leading octets; written from the format."""
    out = []
    m = mag
    while True:
        out.insert(0, m % (1 << form.bits))
        m >>= form.bits
        if not m:
            break
    if form.signed and out[0] >= form.sign_mask:
        out.insert(0, 0)
    out = [0] * pad + out
    if form.signed and neg:
        out[0] |= form.sign_mask
    if form.end:
        out[-1] |= 128
    return bytes(bytearray(out))


def field_input(c, form, name):
    """An arbitrary well-formed field, padded or not: (octets, magnitude, sign bit, length)."""
    if c.concrete:
        def gen():
            mag = c._int(0, None)
            return octets_of(form, c.rng.random() < .5 if c.rng else 0, mag, c.rng.choice([0, 0, 1, 3]) if c.rng else 0)
        b = c._get(name, gen)
        r = form.conc(b)
        c.assume(r is not None and r[2] == len(b))
        return b, r[1], r[0], r[2]
    b = c.bytes(name, 1)
    v = b.pieces[0]
    mag = c.fresh(name + '_mag')
    neg = form.sign(c, v.arr, v.off) if form.signed else C(0)
    form.assume(c, v.arr, v.off, v.len, mag)
    c.assume(T.le(C(0), mag))
    b.pieces = [Field(v.arr, v.off, v.len, form, mag, neg)]
    return b, P.mkint(mag), P.mkint(neg), P.mkint(v.len)


class Unterminated(P.View):
    """Octets none of which carries the end flag, up to the end of the data."""
    __slots__ = ('form',)


class ReadVarLoop(LoopSpec):
    """_parse_var_int_components at a field: after i octets ``value`` is the fold of the first i digits."""
    key = READER + '._parse_var_int_components#0'
    value, sign, signed = 'value', 'sign', 'signed'

    def stream(self, S):
        return S.buf

    def applies(self, c, S, it):
        q = self.stream(S)
        rest = getattr(q, 'rest', None) if P.is_sym(q) else None
        if not rest:
            return False
        form = VARINT if getattr(S, 'signed') else VARUINT
        f = rest[0]
        return isinstance(f, Unterminated) or isinstance(f, Field) and f.form is form

    def setup(self, c, S):
        self.q = self.stream(S)
        self.f = self.q.rest[0]
        self.form = self.f.form
        self.after = list(self.q.rest[1:])
        self.p0 = P.term(self.q_pos())
        self.writes = (self.q,)
        self.i = None

    def q_pos(self):
        return P.mkint(self.q.pos)

    def set_stream(self, i):
        f = self.f
        self.q.rest = [P.View(f.arr, T.add(f.off, i), T.sub(f.len, i))] + self.after
        self.q.pos = T.add(self.p0, i)

    def at(self):
        """How many octets of the field have been consumed."""
        return T.sub(P.term(self.q_pos()), self.p0)

    def leave(self, c):
        self.form.fold(c, self.f.arr, self.f.off, self.at())

    def havoc(self, c, S):
        i = self.i = c.fresh('i')
        self.set_stream(i)
        S.value = P.SymInt(c.fresh('value'))
        if self.form.signed:
            S.sign = P.SymInt(c.fresh('sign'))
            S.signed = P.SymBool(T.eq(i, C(0)))
        else:
            S.sign, S.signed = 1, False

    def inv(self, c, S):
        i = self.at()
        f = self.f
        yield 'position within the field', T.and_(
            T.le(C(0), i), T.le(i, f.len) if isinstance(f, Unterminated) else T.lt(i, f.len))
        if not isinstance(f, Unterminated) or True:
            yield 'value is the digits so far', T.eq(P.term(S.value), self.form.fold(c, f.arr, f.off, i))
        if self.form.signed:
            sg = self.form.sign(c, f.arr, f.off)
            yield 'sign', T.eq(P.term(S.sign), T.ite(T.and_(T.le(C(1), i), T.eq(sg, C(1))), C(-1), C(1)))
            yield 'first octet pending', T.eq(as_b(S.signed), T.eq(i, C(0)))
        else:
            yield 'sign stays positive', T.eq(P.term(S.sign), C(1))


def as_b(x):
    from pyvc.engine import as_cond
    return as_cond(x)


class ReadVarQueueLoop(ReadVarLoop):
    """The same loop over the reader's queue."""
    key = READER + '._var_uint_field_handler#0'

    def stream(self, S):
        return S.queue

    def applies(self, c, S, it):
        q = S.queue
        rest = getattr(q, 'rest', None) if P.is_sym(q) else None
        return bool(rest) and (isinstance(rest[0], Unterminated) or isinstance(rest[0], Field) and
                               rest[0].form is VARUINT)

    def q_pos(self):
        return self.q.position

    def set_stream(self, i):
        f = self.f
        self.q.rest = [P.View(f.arr, T.add(f.off, i), T.sub(f.len, i))] + self.after
        self.q.position = P.mkint(T.add(self.p0, i))


class ReadSignedLoop(LoopSpec):
    """_parse_signed_int_components over the octets that remain."""
    key = READER + '._parse_signed_int_components#0'

    def applies(self, c, S, it):
        q = S.buf
        return P.is_sym(q) and len(q.rest) == 1 and isinstance(q.rest[0], P.View)

    def setup(self, c, S):
        self.q = S.buf
        self.f = self.q.rest[0]
        self.p0 = self.q.pos
        self.writes = (self.q,)

    def at(self):
        return T.sub(self.q.pos, self.p0)

    def havoc(self, c, S):
        i = c.fresh('i')
        f = self.f
        self.q.rest = [P.View(f.arr, T.add(f.off, i), T.sub(f.len, i))]
        self.q.pos = T.add(self.p0, i)
        S.value = P.SymInt(c.fresh('value'))
        S.sign_bit = P.SymInt(c.fresh('sign'))
        S.first = P.SymBool(T.eq(i, C(0)))

    def inv(self, c, S):
        i, f = self.at(), self.f
        yield 'position within the data', T.and_(T.le(C(0), i), T.le(i, f.len))
        yield 'value is the digits so far', T.eq(P.term(S.value), INT.fold(c, f.arr, f.off, i))
        yield 'sign', T.eq(P.term(S.sign_bit), T.ite(T.le(C(1), i), INT.sign(c, f.arr, f.off), C(0)))
        yield 'first octet pending', T.eq(as_b(S.first), T.eq(i, C(0)))


class IntFactoryLoop(LoopSpec):
    """_int_factory: eight octets at a time, most significant first."""
    key = READER + '._int_factory.parse_int#0'

    def applies(self, c, S, it):
        return P.is_sym(S.data) and len(S.data.pieces) == 1 and isinstance(S.data.pieces[0], P.View)

    def setup(self, c, S):
        self.v = S.data.pieces[0]

    def havoc(self, c, S):
        S.value = P.SymInt(c.fresh('value'))
        S.length = P.SymInt(c.fresh('left'))

    def inv(self, c, S):
        left = P.term(S.length)
        yield 'octets left', T.and_(T.le(C(0), left), T.le(left, self.v.len))
        yield 'value is the digits so far', T.eq(
            P.term(S.value), UINT.fold(c, self.v.arr, self.v.off, T.sub(self.v.len, left)))

    def leave(self, c):
        for j in range(8):          # the loop leaves fewer than eight octets
            UINT.fold(c, self.v.arr, self.v.off, T.sub(self.v.len, C(j)))


class ParseVarInt(Contract):
    """At a field of the requested form: its sign and magnitude, and the stream just past it."""
    target = READER + ':_parse_var_int_components'
    proved = 'C01._parse_var_int_components'

    def apply(self, c, buf, signed):
        form = VARINT if signed else VARUINT
        f = buf.rest[0] if P.is_sym(buf) and buf.rest else None
        if isinstance(f, Field) and f.form is form:
            P.ctx_write(buf)
            buf.rest = buf.rest[1:]
            buf.pos = T.add(buf.pos, f.len)
            return P.mkint(T.ite(T.eq(f.neg, C(1)), C(-1), C(1))) if form.signed else 1, P.mkint(f.mag)
        if isinstance(f, P.Elem) and T.is_const(f.t) and f.t.val >= 128:
            P.ctx_write(buf)                 # a field of one constant octet
            buf.rest = buf.rest[1:]
            buf.pos = T.add(buf.pos, C(1))
            neg, mag, _ = form.conc(bytes(bytearray([f.t.val])))
            return -1 if form.signed and neg else 1, mag
        raise P.Unsupported('the stream is not at a known %s' % form.name)


class ParseSignedInt(Contract):
    target = READER + ':_parse_signed_int_components'
    proved = 'C01._parse_signed_int_components'

    def apply(self, c, buf):
        if not P.is_sym(buf):
            raise P.Unsupported('native stream')
        if not buf.rest:
            return 0, 0
        f = buf.rest[0]
        if isinstance(f, Field) and f.form is INT and len(buf.rest) == 1:
            P.ctx_write(buf)
            buf.rest = []
            buf.pos = T.add(buf.pos, f.len)
            return P.mkint(f.neg), P.mkint(f.mag)
        if len(buf.rest) == 1 and isinstance(f, P.Elem):
            P.ctx_write(buf)
            buf.rest = []
            buf.pos = T.add(buf.pos, C(1))
            return P.mkint(T.div(f.t, 128)), P.mkint(T.mod(f.t, 128))
        raise P.Unsupported('the rest of the stream is not a known Int field')


class IntValue(Contract):
    """_int_factory on the octets of one UInt field: a function returning the signed value."""
    target = READER + ':_int_factory'
    proved = 'C01._int_factory'

    def apply(self, c, sign, data):
        f = data.pieces[0] if P.is_sym(data) and len(data.pieces) == 1 else None
        if isinstance(f, Field) and f.form is UINT:
            r = P.mkint(T.scale(f.mag, sign))
            return lambda: r
        raise P.Unsupported('the octets are not one known UInt field')
