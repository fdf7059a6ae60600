"""C08: truncated, overrunning or mis-nested binary data is rejected."""
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve
from units import c06 as K
from units.binio import CONTRACTS, LOOPS, QueueVarUintLoop
from units.c07 import Walk
from units.c19 import Stub

C = T.const
READER, BIN = K.READER, K.BIN
SCALARS = {1: 'BOOL', 2: 'INT', 3: 'INT', 4: 'FLOAT', 5: 'DECIMAL', 6: 'TIMESTAMP', 7: 'SYMBOL', 8: 'STRING', 9: 'CLOB', 10: 'BLOB'}
CONTAINERS = {11: 'LIST', 12: 'SEXP', 13: 'STRUCT'}


def classify(t):
    """(kind, Ion type, declared octets or 'field') of a type octet, by the Ion 1.0 specification."""
    hi, ln = t >> 4, t & 15
    if hi == 0:
        return ('scalar', 'NULL', 0) if ln == 15 else ('pad', None, 'field' if ln == 14 else ln)
    if hi == 15:
        return 'illegal', None, 0
    if hi == 14:
        if ln == 0:
            return 'marker', None, 0
        return ('illegal', None, 0) if ln < 3 or ln == 15 else ('wrapper', None, 'field' if ln == 14 else ln)
    if hi in CONTAINERS:
        if ln == 15:
            return 'scalar', CONTAINERS[hi], 0
        if hi == 13 and ln == 1:
            return 'ordered', 'STRUCT', 'field'
        return 'container', CONTAINERS[hi], 'field' if ln == 14 else ln
    name = SCALARS[hi]
    if ln == 15:
        return 'scalar', name, 0
    if hi == 1:
        return ('scalar', name, 0) if ln < 2 else ('illegal', None, 0)
    if hi == 4:
        return ('scalar', name, ln) if ln in (0, 4, 8) else ('illegal', None, 0)
    if ln == 0 and hi in (3, 6):
        return 'illegal', None, 0
    return 'scalar', name, 'field' if ln == 14 else ln


def holds(c, cond):
    return bool(cond) if c.concrete else c.decide(P.as_cond(cond))


def small(c, name, lo=0, hi=20):
    return c.int(name, lo, hi if c.concrete else None)


def octet(n):
    return bytes(bytearray([n]))


def declared(c, form, what):
    """(octets of the length field, what it declares)"""
    if form != 'field':
        return b'', form
    k = small(c, what, 0, 18)
    return K.field(c, K.F.VARUINT, k, what + ' field'), k


class Child(object):
    """A value, its declared length, its first octets and how many octets it needs."""

    def __init__(self, c, t):
        self.t = t
        self.kind, self.type, form = classify(t)
        self.field, self.n = declared(c, form, 'child length')
        self.head = octet(t) + self.field
        self.need = K.size(c, self.head) + self.n


def refused(c, child, room, annotated):
    """Whether the value is to be rejected where so many octets are left to its container."""
    if child.kind in ('illegal', 'marker') or annotated and child.kind in ('pad', 'wrapper'):
        return True
    if holds(c, child.need > room) or annotated and holds(c, child.need != room):
        return True
    return child.kind == 'ordered' and holds(c, child.n < 2)


def starts(c, e, child, depth, annotated=False):
    from amazon.ion.core import IonType
    kind = 'CONTAINER_START' if child.kind in ('container', 'ordered') else 'SCALAR'
    c.prove(e.event_type.name == kind and e.ion_type is getattr(IonType, child.type), 'it is the value its type octet announces')
    c.prove(e.depth == depth, 'at its depth')
    if annotated:
        c.prove(len(e.annotations) == 1 and e.annotations[0].sid == 4, 'with its annotations')


OUTER = {'list': 0xbe, 'sexp': 0xce, 'struct': 0xde}


def judged(c, w, child, bad, there, depth, annotated):
    """The next event, as it has to be."""
    if child.kind in ('pad', 'wrapper') and not bad:
        return None                              # what follows is any octets
    e = w.next()
    if bad:
        c.prove(e is None, 'what does not fit or is illegal is not reported')
        c.prove(w.error is not None or annotated and holds(c, there < child.n), 'what does not fit or is illegal is rejected')
        return None
    if child.kind == 'scalar' and not holds(c, there >= child.n):
        c.prove(e is None and w.error is None and w.ev.event_type.name == 'INCOMPLETE', 'a truncated value is not reported')
        return None
    c.prove(e is not None, 'a value that is there and fits is reported')
    starts(c, e, child, depth, annotated)
    return e


def in_container(hi, outer):
    """A value of any type and declared length, in a container of any length, with any octets behind it."""
    def unit(c):
        child = Child(c, hi * 16 + c.choice('low nibble', list(range(16))))
        n = small(c, 'container length', 0, 24)
        name = (b'\x80' if child.kind == 'pad' else b'\x84') if outer == 'struct' else b''
        rest = c.bytes('rest', 3, 30 if c.concrete else None)
        data = K.IVM + octet(OUTER[outer]) + K.field(c, K.F.VARUINT, n, 'container length field') + name + child.head + rest
        w = Walk(K.binary_reader, [data])
        w.next(2)
        c.prove(w.error is None and w.open == 1, 'the container starts')
        if holds(c, n == 0):
            e = w.next()
            c.prove(e is not None and e.event_type.name == 'CONTAINER_END', 'an empty container holds nothing')
            return
        bad = refused(c, child, n - len(name), False)
        e = judged(c, w, child, bad, K.size(c, rest), 1, False)
        if e is not None and child.kind == 'scalar' and holds(c, child.need == n - len(name)):
            e = w.next()
            c.prove(e is not None and e.event_type.name == 'CONTAINER_END' and e.depth == 0, 'the container ends where it declares')
    return unit


def in_wrapper(hi, where):
    """A value of any type and declared length in an annotation wrapper of any length."""
    def unit(c):
        child = Child(c, hi * 16 + c.choice('low nibble', list(range(16))))
        n = small(c, 'wrapper length', 0, 24)
        rest = c.bytes('rest', 3, 30 if c.concrete else None)
        head = b'\xee' + K.field(c, K.F.VARUINT, n, 'wrapper length field')
        need = K.size(c, head) + n
        data, skip, outer = head + b'\x81\x84' + child.head + rest, 1, None
        if where == 'list':
            outer = small(c, 'list length', 0, 40)
            data, skip = b'\xbe' + K.field(c, K.F.VARUINT, outer, 'list length field') + data, 2
        w = Walk(K.binary_reader, [K.IVM + data])
        w.next(skip)
        c.prove(w.error is None and w.open == skip - 1, 'up to the wrapper')
        if where == 'list' and holds(c, outer == 0):
            return
        bad = where == 'list' and holds(c, need > outer) or holds(c, n < 3) or refused(c, child, n - 2, True)
        e = judged(c, w, child, bad, K.size(c, rest), skip - 1, True)
    return unit


def wrapper_fields(c):
    """The annotations of a wrapper, any number of octets, any values; a value behind them."""
    n, a = small(c, 'wrapper length', 0, 24), small(c, 'annotations length', 0, 12)
    afield = K.field(c, K.F.VARUINT, a, 'annotations length field')
    sid = small(c, 'sid', 0, 300)
    ann = K.field(c, K.F.VARUINT, sid, 'annotation')
    rest = b'\x11\x11\x11'
    data = b'\xee' + K.field(c, K.F.VARUINT, n, 'wrapper length field') + afield + ann + rest
    w = Walk(K.binary_reader, [K.IVM + data])
    w.next()
    c.assume(a == K.size(c, ann))
    e = w.next()
    if holds(c, K.size(c, afield) + a + 1 != n):
        c.prove(e is None and w.error is not None, 'a wrapper of another length is rejected')
        return
    c.prove(e is not None and e.value is True, 'its value is reported')
    c.prove(len(e.annotations) == 1 and e.annotations[0].sid == sid, 'with its annotation')


def annotation_list(c):
    """Up to three octets of annotations: each ends with the end flag, and there is at least one."""
    k = c.choice('octets', [0, 1, 2, 3])
    xs = [c.int('x%d' % i, 0, 255) for i in range(k)]
    data = octet(0xe0 + k + 2) if k else b'\xee\x82'
    data = K.IVM + data + octet(0x80 + k)
    for x in xs:
        data = data + K.one(c, x)
    w = Walk(K.binary_reader, [data + b'\x11\x11\x11'])
    w.next()
    e = w.next()
    sids, v = [], 0
    for x in xs:
        v = v * 128 + (x & 127 if c.concrete else x % 128)
        if holds(c, x >= 128):
            sids.append(v)
            v = None
        if v is None:
            v, ended = 0, True
        else:
            ended = False
    if not k or not ended:
        c.prove(e is None and w.error is not None, 'no annotation, or a truncated one, is rejected')
        return
    c.prove(e is not None and e.value is True and len(e.annotations) == len(sids), 'every annotation is reported')
    for t, s in zip(e.annotations, sids):
        c.prove(t.sid == s, 'with its symbol ID')


def padding(outer):
    """Padding of any length in a container of any length: it fits, or is rejected; what follows is read as ever."""
    def unit(c):
        ln = c.choice('low nibble', list(range(15)))
        child = Child(c, ln)
        n = small(c, 'container length', 0, 24)
        name, tail = (b'\x80', b'\x84\x11') if outer == 'struct' else (b'', b'\x11')
        x = c.bytes('x', 0, 20 if c.concrete else None)
        c.assume(K.size(c, x) == child.n)
        data = K.IVM + octet(OUTER[outer]) + K.field(c, K.F.VARUINT, n, 'container length field') + name + child.head + x + tail + b'\x11'
        w = Walk(K.binary_reader, [data])
        w.next(2)
        c.prove(w.error is None and w.open == 1, 'the container starts')
        if holds(c, n == 0):
            return
        left = n - len(name) - child.need
        if holds(c, left < 0):
            e = w.next()
            c.prove(e is None and w.error is not None, 'padding that does not fit is rejected')
        elif holds(c, left == 0):
            e = w.next()
            c.prove(e is not None and e.event_type.name == 'CONTAINER_END', 'the container ends behind its padding')
        else:
            e = w.next()
            if holds(c, left < len(tail)):
                c.prove(e is None and w.error is not None, 'what does not fit behind padding is rejected')
            else:
                c.prove(e is not None and e.value is True and e.depth == 1, 'the value behind the padding is reported')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# field names, version markers, the start of the stream

def field_name(c):
    """A field name that crosses the end of its struct, or leaves no room for a value."""
    n, sid = small(c, 'struct length', 0, 20), small(c, 'sid', 0, 400)
    name = K.field(c, K.F.VARUINT, sid, 'field name')
    data = K.IVM + octet(0xde) + K.field(c, K.F.VARUINT, n, 'struct length field') + name + b'\x11\x11\x11'
    w = Walk(K.binary_reader, [data])
    w.next(2)
    if holds(c, n == 0):
        return
    e = w.next()
    if holds(c, K.size(c, name) + 1 > n):
        c.prove(e is None and w.error is not None, 'a field that does not fit is rejected')
        return
    c.prove(e is not None and e.value is True and e.field_name.sid == sid, 'the field is reported')


def marker(c):
    """A marker starts a stream; E0 anywhere at the top is a marker; only 1.0 is accepted."""
    first = c.choice('first', [True, False])
    xs = [c.int('x%d' % i, 0, 255) for i in range(3)]
    lead = c.int('lead', 0, 255) if first else 0xe0
    data = b'' if first else K.IVM + b'\x10'
    data = data + K.one(c, lead)
    for x in xs:
        data = data + K.one(c, x)
    w = Walk(K.binary_reader, [data + b'\x11'])
    if not first:
        w.next(2)
    e = w.next()
    good = holds(c, lead == 0xe0)
    for x, y in zip(xs, (1, 0, 0xea)):
        good = good and holds(c, x == y)
    if good:
        c.prove(e is not None and e.event_type.name == 'VERSION_MARKER', 'a version marker is reported')
        e = w.next()
        c.prove(e is not None and e.value is True, 'the stream goes on')
    else:
        c.prove(e is None and w.error is not None, 'anything but a version marker is rejected')


def marker_below(c):
    """No version marker below the top level, whatever follows it."""
    outer = c.choice('outer', ['list', 'sexp', 'struct', 'wrapper', 'wrapper in list'])
    m = b'\xe0'
    for i in range(3):
        m = m + K.one(c, c.int('x%d' % i, 0, 255))
    inner = {'struct': b'\x84'}.get(outer, b'') + m
    if outer.startswith('wrapper'):
        inner = octet(0xe6) + b'\x81\x84' + m
    data = inner if outer == 'wrapper' else octet(OUTER.get(outer, 0xbe)) + octet(0x80 + 4 + (outer == 'struct') + 3 * (outer[0] == 'w')) + inner
    w = Walk(K.binary_reader, [K.IVM + data + b'\x11\x11\x11\x11'])
    w.next(1 if outer == 'wrapper' else 2)
    c.prove(w.error is None, 'up to the marker')
    e = w.next()
    c.prove(e is None and w.error is not None, 'a version marker below the top level is rejected')


# ---------------------------------------------------------------------------------------------------------------
# the input ends inside a value

def truncated(hi, where):
    """A value of which any part is missing: no event, and the reader does not say that the stream may end here."""
    def unit(c):
        child = Child(c, hi * 16 + c.choice('low nibble', list(range(16))))
        if child.kind in ('illegal', 'marker'):
            return
        before = K.IVM
        if where == 'list':
            before = before + b'\xbe' + K.field(c, K.F.VARUINT, child.need, 'list length field')
        x = c.bytes('x', 1, 20 if c.concrete else None)
        c.assume(K.size(c, x) < child.n)
        if child.kind == 'wrapper':
            return
        data = before + child.head + x
        w = Walk(K.binary_reader, [data])
        w.next(2 if where == 'list' else 1)
        e = w.next()
        if child.kind == 'ordered' and holds(c, child.n < 2):
            return
        if child.kind in ('container', 'ordered'):
            c.prove(e is not None and e.event_type.name == 'CONTAINER_START', 'the container starts')
            e = w.skip()
            c.prove(e is None and w.error is None, 'the end of a truncated container is not reported')
            c.prove(w.ev.event_type.name == 'INCOMPLETE', 'a truncated container is incomplete')
            return
        c.prove(e is None and w.error is None, 'a truncated value is not reported')
        c.prove(w.ev.event_type.name == 'INCOMPLETE', 'a truncated value is incomplete')
    return unit


def truncated_field(c):
    """The input ends inside a length field, a field name, a wrapper or a version marker."""
    head = c.choice('head', [b'\x2e', b'\x8e', b'\x0e', b'\xbe', b'\xd1', b'\xee', b'\xde\x8f', b'\xde\x8f\x84', b'\xee\x84', b'\xe7\x81\x84',
                             b'\xe7\x83\x84', b'\xe0', b'\xe0\x01', b'\xe0\x01\x00', b'\xb4', b'\xb4\x11', b'\xee\x87\x81\x84\x8e',
                             b'\xd4\x84\x8e'])
    k = c.choice('octets', [0, 1, 2, 3]) if head[:1] not in (b'\xe0', b'\xb4', b'\xe7') and head != b'\xde\x8f\x84' else 0
    data = K.IVM + head
    for i in range(k):
        data = data + K.one(c, c.int('x%d' % i, 0, 127))
    w = Walk(K.binary_reader, [data])
    while w.next() is not None:
        c.prove(w.out[-1].event_type.name in ('VERSION_MARKER', 'CONTAINER_START') or head == b'\xb4\x11' and len(w.out) == 3,
                'nothing but what is there is reported')
    c.prove(w.error is not None or w.ev.event_type.name == 'INCOMPLETE', 'a truncated value is incomplete')


class Source(object):
    """A file that holds some chunks and then ends."""

    def __init__(self, c, chunks):
        self.c, self.chunks = c, list(chunks)

    def read(self, n):
        return self.chunks.pop(0) if self.chunks else b''


def blocking(c):
    """Reading from a file: the end of the file is passed on as the end of the stream only where the reader allows it."""
    from amazon.ion.core import IonEvent, IonEventType, ION_STREAM_END_EVENT, ION_STREAM_INCOMPLETE_EVENT
    from amazon.ion.reader import NEXT_EVENT, blocking_reader, ReadEventType
    value = IonEvent(IonEventType.SCALAR, None, None, None, (), 0)
    kinds = {'value': value, 'INCOMPLETE': ION_STREAM_INCOMPLETE_EVENT, 'STREAM_END': ION_STREAM_END_EVENT}
    script = [c.choice('event%d' % i, sorted(kinds)) for i in range(3)] + ['value']
    chunks = [c.bytes('chunk%d' % i, 1, 5 if c.concrete else None) for i in range(c.choice('chunks', [0, 1, 2]))]
    log = []

    class Reader(object):
        i, waits = 0, False

        def send(self, e):
            log.append(e)
            if self.waits != (e.type is ReadEventType.DATA):
                raise TypeError('protocol')      # see C19
            self.waits = self.i < len(script) and script[self.i] != 'value'
            self.i += 1
            return kinds[script[self.i - 1]] if self.i <= len(script) else value
    r = rt.vc_call(blocking_reader, Reader(), Source(c, chunks))
    left = list(chunks)
    try:
        e = r.send(NEXT_EVENT)
        err = None
    except Exception as x:
        if type(x).__name__ not in K.ERRORS:
            raise
        e, err = None, x
    want = 'value'
    fed = []
    for s in script:
        if s == 'value':
            break
        if left:
            fed.append(left.pop(0))
            continue
        want = s
        break
    if want == 'value':
        c.prove(err is None and e is value, 'what the reader reports is passed on')
    elif want == 'STREAM_END':
        c.prove(err is None and e is ION_STREAM_END_EVENT, 'the end of the stream where it may end')
    else:
        c.prove(err is not None, 'the end of the input inside a value is an error')
    got = [z for z in log if z.type is ReadEventType.DATA and z.data is not None and (len(z.data) if c.concrete else True)]
    c.prove(len(got) >= len(fed), 'the reader is given the data')
    for z, y in zip(got, fed):
        K.equal(c, z.data, y, 'the data, in order')


# ---------------------------------------------------------------------------------------------------------------
# any state: reading within the limit

def limits(skip):
    """_read_data_handler: whatever is asked for beyond the limit is refused; the position never passes the limit."""
    def unit(c):
        from amazon.ion.core import Transition
        from amazon.ion.exceptions import IonException
        from amazon.ion.reader import read_data_event
        H = resolve(BIN + ':_HandlerContext')
        q = resolve(READER + ':BufferQueue')()
        held = c.bytes('held', 0, 6 if c.concrete else None)
        if holds(c, K.size(c, held) > 0):
            q.extend(held)
        p = q.position = c.int('position', 0, 9 if c.concrete else None)
        limit = c.int('limit', 0, 20 if c.concrete else None)
        n = c.int('needed', 0, 14 if c.concrete else None)
        depth = c.int('depth', 1, 5 if c.concrete else None)
        whence = object()
        ctx = H(0, limit, q, None, None, depth, whence)
        c.prove(ctx.remaining == limit - p, 'what remains is up to the limit')
        try:
            t = rt.vc_call(ctx.read_data_transition, n, whence, skip=skip)
            g = t.delegate
            t = g.send(Transition(None, g))
        except IonException:
            c.prove(p + n > limit, 'only what passes the limit is refused')
            c.prove(q.position == p, 'a refused read consumes nothing')
            return
        c.prove(p + n <= limit, 'what passes the limit is refused')
        while t.delegate is not whence:
            c.prove(q.position <= limit, 'never beyond the limit')
            x = c.bytes('x', 1, 30 if c.concrete else None)
            t = g.send(Transition(read_data_event(x), g))
            if t.delegate is not whence:
                return
        c.prove(t.event is None, 'no event')
        c.prove(q.position == (p + n if skip else p), 'exactly what was asked for is consumed')
        if not skip:
            c.prove(rt.vc_call(q.__len__) >= n, 'and there is as much')
    return unit


UNITS = []


def add(name, fn, of, **kw):
    UNITS.append(Unit('C08.' + name, fn, of=of, seconds=kw.pop('seconds', 200), **kw))


L = [QueueVarUintLoop]
H = [BIN + ':_start_type_handler', BIN + ':_var_uint_field_handler', BIN + ':_read_data_handler', BIN + ':_container_handler',
     BIN + ':_HandlerContext.read_data_transition']
for _h in range(16):
    for _o in sorted(OUTER) if _h in (2, 13) else ('list', 'struct'):
        add('type %X in a %s' % (_h, _o), in_container(_h, _o), H + [BIN + ':_length_scalar_handler', BIN + ':_container_start_handler'], loops=L)
    for _w in ('top', 'list'):
        add('type %X in a wrapper[%s]' % (_h, _w), in_wrapper(_h, _w), H + [BIN + ':_annotation_handler', BIN + ':_HandlerContext.event_transition'], loops=L)
    if _h not in (1, 14, 15):
        for _w in ('top', 'list'):
            add('type %X truncated[%s]' % (_h, _w), truncated(_h, _w), H + [BIN + ':_length_scalar_handler'], loops=L)
for _o in sorted(OUTER):
    add('padding in a %s' % _o, padding(_o), H + [BIN + ':_nop_pad_handler'], loops=L)
add('wrapper fields', wrapper_fields, H + [BIN + ':_annotation_handler'], loops=LOOPS, contracts=CONTRACTS)
add('annotation list', annotation_list, [BIN + ':_annotation_handler', BIN + ':_parse_sid_iter'])
add('field name', field_name, H, loops=L)
add('marker', marker, [BIN + ':_ivm_handler'])
add('marker below the top', marker_below, [BIN + ':_ivm_handler'])
add('truncated field', truncated_field, H)
add('blocking reader', blocking, [READER + ':blocking_reader'])
for _s in (False, True):
    add('limits[%s]' % ('skip' if _s else 'read'), limits(_s), [BIN + ':_read_data_handler', BIN + ':_HandlerContext.remaining'])

ASSUMPTIONS = ['length fields are well-formed variable-length integers of any length and padding (truncated ones: up to three octets)']
