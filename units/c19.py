"""C19: readers and writers reject protocol violations."""
from decimal import Decimal
from datetime import datetime
from pyvc.contract import Unit, resolve
from pyvc.frames import only_last_step, frame

READER, WRITER, CORE = 'amazon.ion.reader', 'amazon.ion.writer', 'amazon.ion.core'
RAWBIN, TEXT, MANAGED = 'amazon.ion.writer_binary_raw', 'amazon.ion.writer_text', 'amazon.ion.writer_binary'


def R(name, mod=CORE):
    return resolve(mod + ':' + name)


class Stub(object):
    """A coroutine that answers with what it is told to and records what it receives."""

    def __init__(self):
        self.next, self.got = [], []

    def send(self, x):
        self.got.append(x)
        if not self.next:
            raise AssertionError('the stub is not to be asked')
        r = self.next.pop(0)
        return r(self) if callable(r) else r


def size(x):
    return x.vc_len() if hasattr(type(x), 'vc_len') else len(x)


def send(gen, x):
    """(result, None) or (None, error)."""
    try:
        return gen.send(x), None
    except (TypeError, ValueError, AssertionError) as e:
        return None, e


# --- the reader trampoline -------------------------------------------------------------------------------------

def read_event(c, n):
    """An arbitrary event of a reader."""
    ET = R('IonEventType')
    kind = c.choice('event%s' % n, ['INCOMPLETE', 'STREAM_END', 'VERSION_MARKER', 'SCALAR', 'CONTAINER_START', 'CONTAINER_END'])
    depth = c.choice('depth known%s' % n, [1, 0])
    depth = c.int('depth%s' % n, 0) if depth else None
    return R('IonEvent')(getattr(ET, kind), None, c.opaque('value%s' % n), None, (), depth), kind, depth


def data_event(c, n):
    RT = R('ReadEventType', READER)
    kind = c.choice('input%s' % n, ['DATA', 'NEXT', 'SKIP'])
    data = c.bytes('data%s' % n) if kind == 'DATA' else None
    return R('DataEvent')(getattr(RT, kind), data), kind, data


def reader_step(c):
    Transition = R('Transition')
    flush = c.choice('allow_flush', [False, True])
    NEXT = R('NEXT_EVENT', READER)

    root = Stub()

    def start(extra):
        root.got = []
        return R('reader_trampoline', READER)(root, allow_flush=flush), root

    # a reader is started with NEXT only
    g, d = start(0)
    e0, k0, _ = data_event(c, '0')
    if k0 != 'NEXT':
        _, err = send(g, e0)
        c.prove(err is not None, 'a reader that is not started with NEXT raises')
        c.prove(not d.got, 'and does nothing')
        return
    # an arbitrary previous step, reached directly, and after other steps
    ev, kind, depth = read_event(c, '1')
    other = Stub()
    t1 = Transition(ev, other)
    d.next = [t1]
    r, err = send(g, NEXT)
    c.prove(err is None and r is ev, 'the event of the delegate is reported')
    c.prove(len(d.got) == 1 and d.got[0].event is NEXT and d.got[0].delegate is d, 'the delegate receives the input and itself')
    g2, d2 = start(1)
    inner = Stub()
    sc = R('IonEvent')(R('IonEventType').SCALAR, None, None, None, (), 1)
    d2.next = [Transition(sc, inner)]
    send(g2, NEXT)
    inner.next = [Transition(None, inner), t1]
    r, err = send(g2, NEXT)
    c.prove(err is None and r is ev, 'a transition without event is followed at once')
    c.prove(inner.got[0].event is NEXT and inner.got[1].event is None and inner.got[1].delegate is inner,
            'input is given to the first delegate only')
    # any input after that step
    de, dk, data = data_event(c, '2')
    ev2, kind2, _ = read_event(c, '3')
    fin = Stub()
    t2 = Transition(ev2, fin)
    other.next = [t2]
    r, err = send(g, de)
    signal = kind in ('INCOMPLETE', 'STREAM_END')
    if signal:
        ok = dk == 'DATA' or flush and kind == 'INCOMPLETE' and dk == 'NEXT'
    else:
        ok = dk != 'DATA'
    if ok and dk == 'DATA' and size(data) == 0:
        ok = False
    if ok and dk == 'SKIP' and kind != 'CONTAINER_START' and depth is not None and depth == 0:
        ok = False
    what = '%s after %s' % (dk, kind)
    if ok:
        c.prove(err is None, 'legal input is accepted: ' + what)
        c.prove(r is ev2, 'the next event is reported: ' + what)
        c.prove(len(other.got) == 1 and other.got[0].event is de and other.got[0].delegate is other,
                'the delegate receives exactly the input: ' + what)
    else:
        c.prove(err is not None, 'illegal input is rejected: ' + what)
        c.prove(not other.got, 'illegal input does not reach the delegate: ' + what)
    # the same last step leaves the same state: one step stands for every history
    if ok:
        other.next = [t2]
        send(g2, de)
        only_last_step(c, [g, _three(c, R, Transition, start, NEXT, de, t1, t2, other)], 'reader_trampoline')


def _three(c, R, Transition, start, NEXT, de, t1, t2, other):
    g, d = start(2)
    mid = Stub()
    sc = R('IonEvent')(R('IonEventType').SCALAR, None, None, None, (), 1)
    d.next = [Transition(sc, mid)]
    send(g, NEXT)
    mid.next = [t1]
    send(g, NEXT)
    other.next = [t2]
    send(g, de)
    return g


# --- the writer trampoline and the blocking adapters -------------------------------------------------------------

def ion_event(c, n):
    kind = c.choice('ion event%s' % n, ['INCOMPLETE', 'STREAM_END', 'VERSION_MARKER', 'SCALAR', 'CONTAINER_START',
                                        'CONTAINER_END', 'nothing'])
    if kind == 'nothing':
        return None, kind
    return R('IonEvent')(getattr(R('IonEventType'), kind), None, c.opaque('value' + n), None, (), None), kind


def write_event(c, n):
    kind = c.choice('result' + n, ['HAS_PENDING', 'NEEDS_INPUT', 'COMPLETE'])
    return R('DataEvent')(getattr(R('WriteEventType', WRITER), kind), c.opaque('data' + n)), kind


def writer_step(c):
    Transition = R('Transition')
    scalar = R('IonEvent')(R('IonEventType').SCALAR)
    needs = R('DataEvent')(R('WriteEventType', WRITER).NEEDS_INPUT, b'')

    root = Stub()

    def start():
        root.got = []
        return R('writer_trampoline', WRITER)(root), root
    g, d = start()
    e0, k0 = ion_event(c, '0')
    w1, wk1 = write_event(c, '1')
    other = Stub()
    t1 = Transition(w1, other)
    d.next = [t1]
    r, err = send(g, e0)
    if e0 is None:
        c.prove(err is not None and not d.got, 'a writer is not started without an event')
        return
    if k0 == 'INCOMPLETE':
        return                                   # rejected by every writer state machine, see the legality units
    c.prove(err is None and r is w1, 'the result of the delegate is reported')
    c.prove(d.got[0].event is e0 and d.got[0].delegate is d, 'the delegate receives the event and itself')
    e1, k1 = ion_event(c, '2')
    w2, _ = write_event(c, '3')
    fin = Stub()
    t2 = Transition(w2, fin)
    other.next = [t2]
    r, err = send(g, e1)
    ok = (e1 is None) == (wk1 == 'HAS_PENDING') and k1 != 'INCOMPLETE'
    what = '%s after %s' % (k1, wk1)
    if ok:
        c.prove(err is None and r is w2, 'legal input is accepted: ' + what)
        c.prove(len(other.got) == 1 and other.got[0].event is e1 and other.got[0].delegate is other,
                'the delegate receives exactly the event: ' + what)
        g2, d2 = start()
        mid = Stub()
        d2.next = [Transition(needs, mid)]
        send(g2, scalar)
        mid.next = [t1]
        send(g2, scalar)
        other.next = [t2]
        send(g2, e1)
        only_last_step(c, [g, g2], 'writer_trampoline')
    else:
        c.prove(err is not None, 'illegal input is rejected: ' + what)
        c.prove(not other.got, 'illegal input does not reach the delegate: ' + what)


def drain_step(c):
    """Every result of the writer is handed on, in order, until nothing is pending; only the first send has an event."""
    w = Stub()
    e, _ = ion_event(c, '0')
    g = R('_drain', WRITER)(w, e)
    first, k1 = write_event(c, '1')
    w.next = [first]
    c.prove(next(g) is first, 'the first result is handed on')
    c.prove(w.got[0] is e, 'the event is sent first')
    second, k2 = write_event(c, '2')
    w.next = [second]
    r = next(g, 'done')
    if k1 != 'HAS_PENDING':
        c.prove(r == 'done' and len(w.got) == 1, 'stops when nothing is pending')
        return
    c.prove(r is second and w.got[1] is None, 'asks for what is pending, without an event')
    third, k3 = write_event(c, '3')
    w.next = [third]
    if k2 == 'HAS_PENDING':
        c.prove(next(g, 'done') is third and w.got[2] is None, 'again')
    else:
        c.prove(next(g, 'done') == 'done', 'stops when nothing is pending')
        return
    # the state after any later step is the state after the second
    w2 = Stub()
    w.got = []
    h = R('_drain', WRITER)(w, e)
    w.next = [first]
    next(h)
    w.next = [third]
    next(h)
    only_last_step(c, [g, h], '_drain')


class Out(object):
    def __init__(self):
        self.data = []

    def write(self, x):
        self.data.append(x)


def blocking_writer(c):
    w, out = Stub(), Out()
    g = R('blocking_writer', WRITER)(w, out)
    e, _ = ion_event(c, '0')
    n = c.choice('pending', [0, 1, 2, 3])
    WT = R('WriteEventType', WRITER)
    res = [R('DataEvent')(WT.HAS_PENDING, c.opaque('d%d' % i)) for i in range(n)]
    last = c.choice('last', ['NEEDS_INPUT', 'COMPLETE'])
    res.append(R('DataEvent')(getattr(WT, last), c.opaque('last data')))
    w.next = list(res)
    r = g.send(e)
    c.prove(r is getattr(WT, last), 'the type of the last result is reported')
    c.prove(len(out.data) == n + 1 and all(a is b.data for a, b in zip(out.data, res)), 'all data is written, in order')
    c.prove(len(w.got) == n + 1 and w.got[0] is e and all(x is None for x in w.got[1:]), 'pending data is not forced with events')


class In(object):
    def __init__(self, chunks):
        self.chunks, self.sizes = list(chunks), []

    def read(self, n):
        self.sizes.append(n)
        return self.chunks.pop(0)


def blocking_reader(c):
    rd = Stub()
    IonEvent, ET = R('IonEvent'), R('IonEventType')
    NEXT = R('NEXT_EVENT', READER)
    chunks, events = [], []
    end = False
    rounds = c.choice('rounds', [0, 1, 2])
    for i in range(rounds):
        k = c.choice('signal%d' % i, ['INCOMPLETE', 'STREAM_END'])
        events.append(IonEvent(getattr(ET, k)))
        chunks.append(c.bytes('chunk%d' % i))
        if size(chunks[-1]) == 0 and k == 'STREAM_END':
            end = True
            break
    val = IonEvent(ET.SCALAR, None, c.opaque('value'))
    bufsize = c.int('buffer_size', 1)
    inp = In(chunks)
    g = R('blocking_reader', READER)(rd, inp, bufsize)
    rd.next = events + ([] if end else [val])
    first, _, _ = data_event(c, '0')
    r = g.send(first)
    c.prove(rd.got[0] is first, 'the input of the consumer is passed on')
    for i, ch in enumerate(chunks):
        if end and i == len(chunks) - 1:
            break
        x = rd.got[i + 1]
        if size(ch) == 0:
            c.prove(x is NEXT, 'at the end of the input a flush is requested')
        else:
            c.prove(x.type is R('ReadEventType', READER).DATA and x.data is ch, 'the chunk is passed on')
    c.prove(all(s is bufsize or s == bufsize for s in inp.sizes) and not inp.chunks, 'input is read in the given size, only when asked for')
    if end:
        c.prove(r.event_type is ET.STREAM_END, 'the end of the stream is reported')
    else:
        c.prove(r is val, 'the event is reported')


# --- legality of events in the writers' states -------------------------------------------------------------------

def values_of(kind):
    token = R('SymbolToken', 'amazon.ion.symbols')
    return {'object': [object()], 'None': [None], 'bool': [True, False], 'int': [12, 0, 1, -1, 2 ** 70],
            'float': [1.5, 0.0, -0.0, 3.0, float('nan'), float('inf')], 'decimal': [Decimal('1.5'), Decimal(0), Decimal('-0.0'), Decimal(7)],
            'datetime': [datetime(2000, 1, 1)], 'str': [u'abc', u'', u'1', u'nan', u'$4'], 'bytes': [b'abc', b'', b'1'],
            'bytearray': [bytearray(b'abc'), bytearray()], 'list': [[1], [], [None]], 'tuple': [(), (1,), (0, (1,), 0)],
            'dict': [{'a': 1}, {}], 'token': [token(u'abc', 10), token(u'', 10), token(None, 0)], 'type': [int, type(None)]}[kind]


KINDS = ['object', 'None', 'bool', 'int', 'float', 'decimal', 'datetime', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'token', 'type']
BINARY_OK = {'BOOL': ('bool',), 'INT': ('int', 'bool'), 'FLOAT': ('float',), 'DECIMAL': ('decimal',),
             'TIMESTAMP': ('datetime',), 'SYMBOL': ('token',), 'STRING': ('str',), 'CLOB': ('bytes', 'bytearray'),
             'BLOB': ('bytes', 'bytearray')}
TEXT_OK = dict(BINARY_OK, SYMBOL=('token', 'str'))
# An int where a bool is declared denotes a truth value to both writers: neither promised nor excluded here.
LENIENT = {('BOOL', 'int')}
TYPES = ['NULL', 'BOOL', 'INT', 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB', 'BLOB', 'LIST', 'SEXP', 'STRUCT']


def writer_of(which):
    if which == 'raw binary':
        buf = resolve('amazon.ion.writer_buffer:BufferTree')()
        return R('_raw_binary_writer', RAWBIN)(buf)
    if which == 'binary':
        return R('binary_writer', MANAGED)()
    return R('raw_writer', TEXT)(indent=u' ' if which == 'pretty text' else None)


def run(w, e):
    """Sends the event and drains; (list of results, error)."""
    out, x = [], e
    while True:
        try:
            r = w.send(x)
        except (Exception) as err:
            return out, err
        out.append(r)
        if r.type is not R('WriteEventType', WRITER).HAS_PENDING:
            return out, None
        x = None


def dead(c, w, what):
    out, err = run(w, R('ION_STREAM_END_EVENT'))
    c.prove(err is not None and not out, what + ': nothing is emitted after a rejected event')


def types_unit(which):
    def unit(c):
        IonEvent, ET, IT = R('IonEvent'), R('IonEventType'), R('IonType')
        t = c.choice('ion_type', TYPES)
        k = c.choice('value', KINDS)
        ok = k == 'None' or k in (BINARY_OK if 'binary' in which else TEXT_OK).get(t, ())
        vs = values_of(k) + (['any'] if k == 'int' and not ok and (t, k) not in LENIENT else [])
        v = vs[c.choice('which', list(range(len(vs))))]
        if v == 'any':
            v = c.int('integer')
        ann = ()
        if c.choice('annotated', [0, 1]):
            ann = (R('SymbolToken', 'amazon.ion.symbols')(u'note', 11),)
        w = writer_of(which)
        container = c.choice('inside', ['top', 'LIST', 'STRUCT'])
        field = None
        if container != 'top':
            run(w, IonEvent(ET.CONTAINER_START, getattr(IT, container)))
            field = R('SymbolToken', 'amazon.ion.symbols')(u'field', 12) if container == 'STRUCT' else None
        out, err = run(w, IonEvent(ET.SCALAR, getattr(IT, t), v, field, ann))
        if (t, k) in LENIENT or which == 'binary' and (t, k) == ('SYMBOL', 'str'):
            return
        if ok:
            c.prove(err is None, 'a %s of value %s is accepted' % (t, k))
        else:
            c.prove(err is not None, 'a %s with a value of another type (%s) is rejected' % (t, k))
            if 'binary' in which:
                c.prove(not [1 for r in out if r.data and bytes(r.data) != b'\xe0\x01\x00\xea'],
                        'a %s with a value of another type (%s): no encoding is emitted' % (t, k))
            dead(c, w, '%s with %s' % (t, k))
    return unit


def legality(which):
    """Raw and text writers in a state of any depth: every event type, legal exactly when it should be."""
    def unit(c):
        IonEvent, ET, IT = R('IonEvent'), R('IonEventType'), R('IonType')
        Transition = R('Transition')
        depth = c.int('depth', 0)
        ctype = c.choice('container', ['LIST', 'SEXP', 'STRUCT'])
        opened = IonEvent(ET.CONTAINER_START, getattr(IT, ctype))
        parent = Stub()
        top = bool(depth == 0)
        if which == 'raw binary':
            buf = resolve('amazon.ion.writer_buffer:BufferTree')()
            if not top:
                buf.start_container()
                args = (buf, depth, opened, parent, None)
            else:
                args = (buf,)
            co = resolve(RAWBIN + ':_raw_writer_coroutine')(*args)
        else:
            indent = u' ' if which == 'pretty text' else None
            args = dict(indent=indent) if top else dict(depth=depth, container_event=opened, whence=parent, indent=indent)
            if which == 'pretty text' and not top:
                c.assume(depth <= 3)
                depth = [d for d in range(1, 4) if depth == d][0]
                args['depth'] = depth
            co = resolve(TEXT + ':_raw_writer_coroutine')(**args)
        kind = c.choice('event', ['INCOMPLETE', 'STREAM_END', 'VERSION_MARKER', 'SCALAR', 'CONTAINER_START', 'CONTAINER_END'])
        t = c.choice('ion_type', [None, 'NULL', 'INT', 'SYMBOL', 'LIST', 'SEXP', 'STRUCT'])
        field = R('SymbolToken', 'amazon.ion.symbols')(u'field', 12)
        v = 7 if t == 'INT' and kind == 'SCALAR' else None
        e = IonEvent(getattr(ET, kind), None if t is None else getattr(IT, t), v, None if top or ctype != 'STRUCT' else field)
        in_container = not top
        if kind == 'SCALAR':
            legal = t is not None
        elif kind == 'CONTAINER_START':
            legal = t in ('LIST', 'SEXP', 'STRUCT')
        elif kind == 'CONTAINER_END':
            legal = in_container
        elif kind == 'STREAM_END':
            legal = top
        elif kind == 'VERSION_MARKER':
            legal = top and 'text' in which      # the raw binary writer leaves version markers to its client
        else:
            legal = False
        before = c.choice('after a value', [0, 1])
        if before:
            step(co, IonEvent(ET.SCALAR, IT.INT, 5, e.field_name))
        trans, err = step(co, e)
        what = '%s %s in %s' % (kind, t, 'a %s' % ctype if in_container else 'the stream')
        if legal:
            c.prove(err is None, 'accepted: ' + what)
            WT = R('WriteEventType', WRITER)
            last = trans[-1]
            for x in trans[:-1]:
                c.prove(x.event.type is WT.HAS_PENDING, 'pending output is announced: ' + what)
            want = WT.COMPLETE if kind in ('STREAM_END', 'VERSION_MARKER') else None
            if kind == 'STREAM_END':
                c.prove(last.event.type is WT.COMPLETE and not last.event.data, 'a finished stream is complete: ' + what)
            if kind == 'CONTAINER_END':
                c.prove(last.delegate is parent, 'the end of a container returns to its parent')
            if kind == 'CONTAINER_START':
                c.prove(last.delegate is not co and last.delegate is not parent, 'a container is written by its own state')
            if kind in ('SCALAR', 'STREAM_END', 'VERSION_MARKER'):
                c.prove(last.delegate is co, 'a value does not change the state')
        else:
            c.prove(err is not None, 'rejected: ' + what)
            _, err = step(co, R('ION_STREAM_END_EVENT'))
            c.prove(isinstance(err, StopIteration), 'a rejected event ends the writer: ' + what)
    return unit


def step(co, e):
    Transition = R('Transition')
    out, x = [], e
    while True:
        try:
            r = co.send(Transition(x, co))
        except (Exception) as err:
            return out, err
        out.append(r)
        if r.event.type is not R('WriteEventType', WRITER).HAS_PENDING:
            return out, None
        x = None


UNITS = [
    Unit('C19.reader_trampoline', reader_step, of=[READER + ':reader_trampoline'], seconds=300),
    Unit('C19.writer_trampoline', writer_step, of=[WRITER + ':writer_trampoline'], seconds=200),
    Unit('C19.drain', drain_step, of=[WRITER + ':_drain']),
    Unit('C19.blocking_writer', blocking_writer, of=[WRITER + ':blocking_writer'],
         note='at most three pending results per event'),
    Unit('C19.blocking_reader', blocking_reader, of=[READER + ':blocking_reader'], note='at most two rounds of input per event'),
]
UNITS += [Unit('C19.value types[%s]' % w, types_unit(w), seconds=200,
               of=[RAWBIN + ':_serialize_scalar'] if 'binary' in w else [TEXT + ':_serialize_scalar'])
          for w in ('raw binary', 'binary', 'text')]
UNITS += [Unit('C19.legality[%s]' % w, legality(w), seconds=200, of=[(RAWBIN if 'binary' in w else TEXT) + ':_raw_writer_coroutine'])
          for w in ('raw binary', 'text', 'pretty text')]

ASSUMPTIONS = ['generators behave as documented (send, yield, close)']
