"""C02: binary scalars survive a write/read round trip."""
from pyvc import dt as D
from pyvc import floats as FL
from pyvc import proxies as P
from pyvc import terms as T
from pyvc import text as X
from pyvc.contract import Unit, resolve
from units import binio as B
from units import fields as F

C = T.const
W = ['_serialize_null', ]


def types():
    from amazon.ion.core import IonType
    return IonType


def round_trip(c, ion_type, value):
    """Writes one scalar, reads it back; returns the value reported."""
    from amazon.ion.core import IonEventType
    IonType = types()
    t = getattr(IonType, ion_type)
    data = B.write(c, [B.scalar(t, value), B.scalar(IonType.BOOL, True)])
    evs, end = B.read(c, B.concat(c, [B.IVM, data]))
    c.prove(len(evs) == 3 and end, 'one value is read, and what follows it')
    c.prove(evs[0].event_type is IonEventType.VERSION_MARKER, 'the version marker is read')
    c.prove(evs[1].event_type is IonEventType.SCALAR and evs[1].ion_type is t, 'a scalar of the same type is read')
    c.prove(evs[2].ion_type is IonType.BOOL and evs[2].value is True, 'the value after it is read')
    c.prove(len(evs[1].annotations) == 0 and evs[1].field_name is None and evs[1].depth == 0, 'nothing is added to it')
    return evs[1].value


def null(c):
    IonType = types()
    t = c.choice('type', [x for x in ('NULL', 'BOOL', 'INT', 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB',
                                     'BLOB', 'LIST', 'SEXP', 'STRUCT')])
    c.prove(round_trip(c, t, None) is None, 'a typed null is read as a null of that type')


def boolean(c):
    v = c.bool('value')
    c.prove(round_trip(c, 'BOOL', v) == v, 'the same bool')


def integer(c):
    v = c.int('value')
    c.prove(round_trip(c, 'INT', v) == v, 'the same int')


def floating(c):
    v = FL.float_input(c, 'value')
    c.prove(FL.same(c, round_trip(c, 'FLOAT', v), v), 'the same float, zero signs included')


def decimal(c):
    v = D.decimal_input(c, 'value')
    r = round_trip(c, 'DECIMAL', v)
    for what, a, b in zip(('sign', 'coefficient', 'exponent'), D.dec_parts(c, v), D.dec_parts(c, r)):
        c.prove(a == b, 'the same ' + what)


def string(c):
    v = X.text_input(c, 'value')
    c.prove(round_trip(c, 'STRING', v) == v, 'the same text')


def symbol(c):
    Tok = resolve('amazon.ion.symbols:SymbolToken')
    sid = c.int('sid', 0)
    r = round_trip(c, 'SYMBOL', Tok(None, sid))
    c.prove(r.sid == sid and r.text is None, 'the same symbol ID')


def lob(kind):
    def unit(c):
        v = c.bytes('value', 0, 200 if c.concrete else None)
        c.prove(round_trip(c, kind, v) == v, 'the same octets')
    return unit


UNITS = []
for _n, _f, _of in (('null', null, ['_raw_writer_coroutine']), ('bool', boolean, ['_serialize_bool']),
                    ('int', integer, ['_serialize_int', '_write_int_value', '_write_length']),
                    ('float', floating, ['_serialize_float']),
                    ('decimal', decimal, ['_serialize_decimal', '_write_decimal_value', '_write_length']),
                    ('string', string, ['_serialize_string', '_write_length']),
                    ('symbol', symbol, ['_serialize_symbol', '_write_int_value']),
                    ('clob', lob('CLOB'), ['_serialize_lob_value', '_write_length']),
                    ('blob', lob('BLOB'), ['_serialize_lob_value', '_write_length'])):
    UNITS.append(Unit('C02.' + _n, _f, contracts=B.CONTRACTS, loops=B.LOOPS, of=['%s:%s' % (B.RAW, x) for x in _of]))


# ---------------------------------------------------------------------------------------------------------------
# any well-formed encoding, padded integers and lengths included, is read as what it denotes

def read_one(c, ion_type, data):
    from amazon.ion.core import IonEventType
    IonType = types()
    evs, end = B.read(c, B.concat(c, [B.IVM, data, b'\x11']))
    c.prove(len(evs) == 3 and end, 'one value is read, and what follows it')
    c.prove(evs[1].event_type is IonEventType.SCALAR and evs[1].ion_type is getattr(IonType, ion_type),
            'a scalar of the declared type is read')
    c.prove(evs[2].ion_type is IonType.BOOL and evs[2].value is True, 'the value after it is read')
    return evs[1].value


def size(x):
    return x.vc_len() if hasattr(type(x), 'vc_len') else len(x)


def read_int(c):
    sign = c.choice('sign', [1, -1])
    octets, mag, _, n = F.field_input(c, F.UINT, 'magnitude')
    if sign < 0:
        c.assume(mag > 0)           # a negative zero is not an Ion int
    v = read_one(c, 'INT', B.concat(c, [B.header(c, 2 if sign > 0 else 3, n), octets]))
    c.prove(v == sign * mag, 'the int denoted')


def read_symbol(c):
    octets, mag, _, n = F.field_input(c, F.UINT, 'sid')
    v = read_one(c, 'SYMBOL', B.concat(c, [B.header(c, 7, n), octets]))
    c.prove(v.sid == mag and v.text is None, 'the symbol ID denoted')


def read_float(c):
    w = c.choice('width', [8, 4])
    octets = c.bytes('octets', w, w)
    v = read_one(c, 'FLOAT', B.concat(c, [bytes(bytearray([0x40 + w])), octets]))
    if c.concrete:
        import struct
        e = struct.unpack('>d' if w == 8 else '>f', octets)[0]
    elif w == 8:
        e = FL.VFloat([octets.octet(C(i)) for i in range(8)])
    else:
        e = FL.widen([octets.octet(C(i)) for i in range(4)])
    c.prove(FL.same(c, v, e), 'the float denoted')


def read_decimal(c):
    ex, mag, neg, n = F.field_input(c, F.VARINT, 'exponent')
    bare = c.choice('coefficient', ['present', 'absent']) == 'absent'
    if bare:
        co, cmag, cneg, m = b'', 0, 0, 0
    else:
        co, cmag, cneg, m = F.field_input(c, F.INT, 'coefficient')
    v = read_one(c, 'DECIMAL', B.concat(c, [B.header(c, 5, n + m), ex, co]))
    s, k, e = D.dec_parts(c, v)
    c.prove(k == cmag, 'the coefficient denoted')
    c.prove(s == cneg, 'the sign denoted, of zero too')
    if neg == 1:
        c.prove(e == -mag, 'the negative exponent denoted')
    else:
        c.prove(e == mag, 'the exponent denoted')


def read_string(c):
    v = X.text_input(c, 'value')
    o = v.encode('utf-8')
    c.prove(read_one(c, 'STRING', B.concat(c, [B.header(c, 8, size(o)), o])) == v, 'the text denoted')


def read_lob(c):
    kind, tid = c.choice('kind', [('CLOB', 9), ('BLOB', 10)])
    v = c.bytes('value', 0, 40 if c.concrete else None)
    c.prove(read_one(c, kind, B.concat(c, [B.header(c, tid, size(v)), v])) == v, 'the octets')


_HANDLERS = ['_start_type_handler', '_var_uint_field_handler', '_length_scalar_handler', '_read_data_handler',
             '_container_handler']
for _n, _f, _of in (('int', read_int, ['_int_factory']), ('symbol', read_symbol, ['_symbol_factory']),
                    ('float', read_float, ['_float_factory']), ('decimal', read_decimal, ['_decimal_factory', '_parse_decimal']),
                    ('string', read_string, ['_string_factory']), ('lob', read_lob, ['_lob_factory'])):
    UNITS.append(Unit('C02.read.' + _n, _f, contracts=B.CONTRACTS, loops=B.LOOPS,
                      of=['%s:%s' % (B.READER, x) for x in _of + _HANDLERS]))

ASSUMPTIONS = ['struct.pack/unpack of a double and the UTF-8 codec are inverse to each other',
               'decimal.Decimal.as_tuple and the constructor behave as modelled in pyvc/dt.py']
