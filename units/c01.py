"""C01: binary integers and integer subfields."""
import importlib
from pyvc import terms as T
from pyvc import proxies as P
from pyvc.contract import Unit, resolve
from units import fields as F

C = T.const


def buffer(c):
    """An arbitrary buffer the code appends to."""
    if c.concrete:
        return bytearray(c.bytes('prefix', 0, 8))
    return P.VBuf(P.pieces_of(c.bytes('prefix', 0, None)))


def mark(c, buf):
    return len(buf) if c.concrete else buf.mark()


def since(c, buf, m):
    return bytes(buf[m:]) if c.concrete else buf.since(m)


def write_base(form):
    def unit(c):
        fn = resolve(F.FIELDS + ':_write_base')
        v = c.int('value', 0)
        neg = c.choice('negative', [0, 1]) if form.signed else 0
        buf = buffer(c)
        m = mark(c, buf)
        n = fn(buf, v, form.bits, 128 if form.end else 0, form.sign_mask if neg else 0, form.signed)
        form.prove_rope(c, since(c, buf, m), n, v, neg, form.name)
    return unit


def write_field(form, fname):
    def unit(c):
        fn = resolve('%s:%s' % (F.FIELDS, fname))
        v = c.int('value', None if form.signed else 0)
        buf = buffer(c)
        m = mark(c, buf)
        n = fn(buf, v)
        neg = form.signed and bool(v < 0)
        form.prove_rope(c, since(c, buf, m), n, -v if neg else v, int(neg), fname)
    return unit


UNITS = []
for _f in (F.VARUINT, F.VARINT, F.UINT, F.INT):
    UNITS.append(Unit('C01._write_base[%s]' % _f.name, write_base(_f), loops=[F.WriteBaseLoop],
                      of=[F.FIELDS + ':_write_base']))
    _n = '_write_' + _f.name
    UNITS.append(Unit('C01.' + _n, write_field(_f, _n), contracts=[F.WriteBase], of=['%s:%s' % (F.FIELDS, _n)]))


# ---------------------------------------------------------------------------------------------------------------
# decoding

def stream_at(c, octets, rest=True):
    """A BytesIO positioned at ``octets``, arbitrary data before and after."""
    if c.concrete:
        from io import BytesIO
        before, after = c.bytes('before', 0, 4), c.bytes('after', 0, 4) if rest else b''
        s = BytesIO(before + octets + after)
        s.read(len(before))
        return s
    s = P.VBytesIO(P.VBytes(P.pieces_of(c.bytes('before')) + P.pieces_of(octets) +
                            (P.pieces_of(c.bytes('after')) if rest else [])))
    p = s.rest.pop(0)
    s.pos = p.len
    return s


def read_var(form):
    def unit(c):
        fn = resolve(F.READER + ':_parse_var_int_components')
        octets, mag, neg, n = F.field_input(c, form, 'field')
        s = stream_at(c, octets)
        start = s.tell()
        sign, value = fn(s, form.signed)
        c.prove(value == mag, 'magnitude')
        if form.signed:
            c.prove(sign == 1 - 2 * neg, 'sign')
        else:
            c.prove(sign == 1, 'sign')
        c.prove(s.tell() == start + n, 'stops just past the field')
    return unit


def read_truncated(form):
    def unit(c):
        fn = resolve(F.READER + ':_parse_var_int_components')
        exc = resolve('amazon.ion.exceptions:IonException')
        octets = c.bytes('octets', 0, None if not c.concrete else 12)
        if c.concrete:
            octets = bytes(bytearray(b & 127 for b in bytearray(octets)))
        else:
            v = octets.pieces[0]
            c.forall(v.arr, v.off, T.add(v.off, v.len), lambda i, s: T.lt(s, C(128)))
            f = F.Unterminated(v.arr, v.off, v.len)
            f.form = form
            octets.pieces = [f]
        s = stream_at(c, octets, rest=False)
        try:
            fn(s, form.signed)
        except exc:
            return
        c.prove(False, 'an unterminated field raises IonException')
    return unit


def read_signed(c):
    fn = resolve(F.READER + ':_parse_signed_int_components')
    octets, mag, neg, n = F.field_input(c, F.INT, 'field')
    s = stream_at(c, octets, rest=False)
    sign, value = fn(s)
    c.prove(value == mag, 'magnitude')
    c.prove(sign == neg, 'sign')


def read_signed_empty(c):
    fn = resolve(F.READER + ':_parse_signed_int_components')
    sign, value = fn(stream_at(c, b'', rest=False))
    c.prove(value == 0, 'an empty Int field is zero')
    c.prove(sign == 0, 'an empty Int field is positive')


def int_value(c):
    fn = resolve(F.READER + ':_int_factory')
    octets, mag, neg, n = F.field_input(c, F.UINT, 'field')
    sign = c.choice('sign', [1, -1])
    if not c.concrete:
        v = octets.pieces[0]
        for j in range(8):          # the loop leaves fewer than eight octets
            F.UINT.fold(c, v.arr, v.off, T.sub(v.len, C(j)))
    c.prove(fn(sign, octets)() == sign * mag, 'the value of the magnitude octets, signed')


UNITS += [
    Unit('C01._parse_var_int_components[varuint]', read_var(F.VARUINT), loops=[F.ReadVarLoop],
         of=[F.READER + ':_parse_var_int_components']),
    Unit('C01._parse_var_int_components[varint]', read_var(F.VARINT), loops=[F.ReadVarLoop],
         of=[F.READER + ':_parse_var_int_components']),
    Unit('C01.truncated[varuint]', read_truncated(F.VARUINT), loops=[F.ReadVarLoop],
         of=[F.READER + ':_parse_var_int_components']),
    Unit('C01.truncated[varint]', read_truncated(F.VARINT), loops=[F.ReadVarLoop],
         of=[F.READER + ':_parse_var_int_components']),
    Unit('C01._parse_signed_int_components', read_signed, loops=[F.ReadSignedLoop],
         of=[F.READER + ':_parse_signed_int_components']),
    Unit('C01._parse_signed_int_components[empty]', read_signed_empty,
         of=[F.READER + ':_parse_signed_int_components']),
    Unit('C01._int_factory', int_value, loops=[F.IntFactoryLoop], of=[F.READER + ':_int_factory']),
]

ASSUMPTIONS = ['bytearray and BytesIO behave as sequences of octets; Python integers are unbounded mathematical integers (true in Python)']
