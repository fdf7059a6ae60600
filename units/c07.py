"""C07: skipping a container is equivalent to reading through it."""
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve
from pyvc.frames import same_state
from units import c06 as K
from units.binio import QueueVarUintLoop
from units.c19 import Stub

C = T.const
READER, BIN, RT = K.READER, K.BIN, K.RT


class Walk(object):
    """A reader fed with chunks as it asks for them."""

    def __init__(self, make, chunks):
        self.r, self.chunks = make(), list(chunks)
        self.out, self.error, self.done = [], None, False
        self.open = 0

    def step(self, event):
        """The next event that is no request for data; None at the end of the data or at an error."""
        from amazon.ion.reader import read_data_event
        if self.error is not None or self.done:
            return None
        try:
            e = self.r.send(event)
            while e.event_type.name in ('INCOMPLETE', 'STREAM_END'):
                if not self.chunks:
                    self.ev, self.done = e, True
                    return None
                e = self.r.send(read_data_event(self.chunks.pop(0)))
        except Exception as x:
            if type(x).__name__ not in K.ERRORS:
                raise
            self.error = type(x).__name__
            return None
        self.ev = e
        self.out.append(e)
        self.open += {'CONTAINER_START': 1, 'CONTAINER_END': -1}.get(e.event_type.name, 0)
        return e

    def next(self, n=1):
        from amazon.ion.reader import NEXT_EVENT
        e = None
        for _ in range(n):
            e = self.step(NEXT_EVENT)
        return e

    def skip(self):
        from amazon.ion.reader import SKIP_EVENT
        self.open -= 1
        return self.step(SKIP_EVENT)

    def through(self):
        """Reads every remaining child of the innermost open container, and its end."""
        level = self.open
        while self.error is None and not self.done:
            e = self.next()
            if self.open < level:
                return e


def agree(c, a, b, what, state=True):
    """a skipped, b read through: both are at the end of the container, and alike from here on."""
    c.prove(a.error == b.error, what + ': the same outcome')
    c.prove(a.done == b.done, what + ': the same end of the data')
    if a.error is not None or b.error is not None:
        return
    eq = K.leaves(c)
    if not a.done and not b.done:
        x, y = a.out[-1], b.out[-1]
        c.prove(x.event_type.name == 'CONTAINER_END', what + ': the end of the container is reported')
        c.prove(x.event_type is y.event_type and x.ion_type is y.ion_type and x.value is y.value and
                x.field_name == y.field_name and tuple(x.annotations) == tuple(y.annotations), what + ': the same event')
        c.prove(x.depth == y.depth, what + ': the same depth')
    else:
        return                                   # one is still skipping, the other is inside a child
    d = same_state(a.r, b.r, eq)
    if d is not None:
        # whatever the state, what is reported afterwards tells
        n = 0
        while n < 40:
            x, y, n = a.next(), b.next(), n + 1
            if x is None or y is None:
                break
            c.prove(x.event_type is y.event_type and x.ion_type is y.ion_type and x.depth == y.depth and
                    x.field_name == y.field_name and tuple(x.annotations) == tuple(y.annotations) and
                    (x.value is None) == (y.value is None), what + ': the same events afterwards')
        c.prove(a.error == b.error and a.done == b.done, what + ': the same end afterwards')
        if c.concrete:
            return
        raise P.Unsupported('%s: %s' % (what, d))
    c.prove(True, what + ': the same state')


def depths(make, data):
    """Numbers of events after which a container is open."""
    w, out, n = Walk(make, [data]), [], 0
    while w.next() is not None:
        n += 1
        if w.open > 0:
            out.append(n)
    return out


# ---------------------------------------------------------------------------------------------------------------
# whole streams: every point inside every container, every cut of the input

TEXT = {
    'containers': u"[1,a,\"s\",'q',[],{},(),a::b,] {a:1,'b':c,\"d\":[1],e:f::{g:2}} 7 ",
    'sexp': u"(1 a 'q' (c) + [(1)] a::(b)) x [[],()] 1 ",
    'strings': u"['''a''' ''']''', \"}\", '(', {{YQ==}}, /* ] */ // ]\n 2] y {a:'''}''', b:{{\"}\"}}} ",
    'annotated': u"a::[b::{c:d::(e)}] a::1 ",
}
BINARY = {
    'lists': K.h('b4 b1 11 11 10 b0 be 83 11 b1 11 b2 b1 b0 11'),
    'structs': K.h('d9 84 11 85 d2 86 b0 87 21 07 d4 84 b2 11 10 2105 d1 83 84 21 07 10'),
    'annotated': K.h('e9 81 84 b6 e5 81 85 b2 11 10 11 e5 81 84 c2 00 11 10 d2 8f 0f b3 8201ff'),
}


def streams(make, table, name):
    def unit(c):
        data = table[name]
        data = data if isinstance(data, bytes) else data.encode('utf-8')
        n = c.choice('after', depths(make, data))
        cut = c.choice('cut', list(range(0, len(data))))
        chunks = [data[:cut], data[cut:]] if cut else [data[i:i + 1] for i in range(len(data))]
        a, b = Walk(make, chunks), Walk(make, chunks)
        a.next(n), b.next(n)
        a.skip(), b.through()
        agree(c, a, b, 'skip')
    return unit


def any_octet(name, half):
    """Text: with any octet in place of any one of the stream."""
    def unit(c):
        data = TEXT[name].encode('utf-8')
        n = c.choice('after', depths(K.text_reader, data)[half::4])
        j = c.choice('place', list(range(len(data))))
        x = c.int('x', 0, 255)
        d = data[:j] + K.one(c, x) + data[j + 1:]
        a, b = Walk(K.text_reader, [d]), Walk(K.text_reader, [d])
        a.next(n), b.next(n)
        if a.open <= 0 or a.error is not None or a.done:
            c.prove(a.open == b.open and a.error == b.error and a.done == b.done, 'reading is repeatable')
            return
        a.skip(), b.through()
        agree(c, a, b, 'skip')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# binary: any contents

CONTAINERS = {'LIST': 0xb0, 'SEXP': 0xc0, 'STRUCT': 0xd0}


def contents(kind, nested):
    """A container with any octets as contents, any number of them, some children of it read, the input cut anywhere."""
    def unit(c):
        from amazon.ion.core import IonType
        from amazon.ion.reader import NEXT_EVENT
        x, y = c.bytes('x', 1, 20 if c.concrete else None), c.bytes('y', 1, 20 if c.concrete else None)
        child = (b'\x84' if kind == 'STRUCT' else b'') + b'\x11'
        read = c.choice('children read', [0, 1, 2])
        n = K.size(c, x) + K.size(c, y) + len(child) * read
        before = bytes(bytearray([CONTAINERS[kind] + 14])) + K.field(c, K.F.VARUINT, n, 'length field')
        after = b'\x11\x10'
        total = K.size(c, before) + n + 2
        if nested == 'annotated':
            w = b'\x81\x84'
            before = b'\xee' + K.field(c, K.F.VARUINT, K.size(c, before) + n + 2, 'wrapper length') + w + before
        elif nested == 'in a list':
            before = b'\xbe' + K.field(c, K.F.VARUINT, total, 'list length') + before
        before = K.IVM + before + child * read
        cut = c.choice('cut', ['none', 'in', 'three', 'after'])
        chunks = {'none': [before + x + y + after], 'in': [before + x, y + after], 'three': [before + x, y, after],
                  'after': [before + x + y, after]}[cut]
        w = Walk(K.binary_reader, chunks)
        w.next(2 + read + (nested == 'in a list'))
        c.prove(w.error is None and w.open == 1 + (nested == 'in a list'), 'inside the container')
        e = w.skip()
        c.prove(e is not None and e.event_type.name == 'CONTAINER_END' and e.ion_type is getattr(IonType, kind),
                'the end of the container is reported')
        c.prove(e.depth == (1 if nested == 'in a list' else 0), 'its depth')
        for v in (True, False):
            e = w.next()
            c.prove(e is not None and e.event_type.name == 'SCALAR' and e.value is v and e.depth == (1 if nested == 'in a list' else 0)
                    and not e.annotations and e.field_name is None, 'what follows is read as ever')
        if nested == 'in a list':
            e = w.next()
            c.prove(e is not None and e.event_type.name == 'CONTAINER_END' and e.depth == 0, 'the enclosing container ends')
        c.prove(w.next() is None and w.error is None and w.ev.event_type.name == 'STREAM_END', 'nothing else is reported')
    return unit


def end_of_container(c):
    """The end of a container is reported at its limit only, however it is reached."""
    from amazon.ion.core import IonType, Transition
    from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT
    H = resolve(BIN + ':_HandlerContext')
    q = resolve(READER + ':BufferQueue')()
    held = c.bytes('held', 0, 6 if c.concrete else None)
    if K.size(c, held) > 0:
        q.extend(held)
    q.position = c.int('position', 0, 9 if c.concrete else None)
    limit = c.int('limit', 0, 15 if c.concrete else None)
    if not (q.position <= limit):
        return                                   # no handler reads beyond the limit, see C08
    depth = c.int('depth', 1, 5 if c.concrete else None)
    kind = c.choice('kind', ['LIST', 'SEXP', 'STRUCT'])
    start = c.choice('start', [True, False])
    whence = object()
    ctx = H(0, limit, q, None, None, depth, whence)
    g = rt.vc_call(resolve(BIN + ':_container_handler'), getattr(IonType, kind), ctx)
    event = c.choice('event', [NEXT_EVENT, SKIP_EVENT])
    p0 = q.position
    t = g.send(Transition(event, g))
    if event is SKIP_EVENT:
        c.prove(t.event is None, 'skipping: nothing is reported yet')
        d = t.delegate
        c.prove(d is not g and not d is whence, 'skipping: the rest is to be read')
        t2 = d.send(Transition(None, d))
        if t2.delegate is g:
            c.prove(q.position == limit, 'skipping: the rest of the container is consumed')
            t = g.send(Transition(None, g))
            c.prove(t.event is not None and t.event.event_type.name == 'CONTAINER_END', 'skipping: then it ends')
        else:
            c.prove(q.position == p0 + K.size(c, held), 'skipping: everything held is consumed')
            c.prove(q.position < limit, 'skipping: there is more to come')
            return
    ended = t.event is not None
    if not ended:
        c.prove(q.position != limit, 'a container ends at its limit')
        c.prove(t.delegate is not whence, 'and is not left before')
        return
    c.prove(t.event.event_type.name == 'CONTAINER_END' and t.event.ion_type is getattr(IonType, kind), 'its end is reported')
    c.prove(q.position == limit, 'the end is reported at the limit only')
    c.prove(t.event.depth == depth - 1, 'the depth of the container')
    c.prove(t.delegate is whence, 'the enclosing container continues')


# ---------------------------------------------------------------------------------------------------------------
# text: the skipping trampoline, for any delegate

def event(c, n, depth):
    from amazon.ion.core import IonEvent, IonEventType, ION_STREAM_INCOMPLETE_EVENT
    kind = c.choice('event%s' % n, ['none', 'INCOMPLETE', 'SCALAR', 'CONTAINER_START', 'CONTAINER_END'])
    if kind == 'none':
        return None, kind, None
    if kind == 'INCOMPLETE':
        return ION_STREAM_INCOMPLETE_EVENT, kind, None
    d = c.int('depth%s' % n, 0, 6 if c.concrete else None)
    return IonEvent(getattr(IonEventType, kind), None, None, None, (), d), kind, d


def trampoline(c):
    from amazon.ion.core import IonEvent, IonEventType, Transition
    from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT
    first = Stub()
    g, me = resolve(RT + ':_skip_trampoline')(first), object()
    # an arbitrary event before: the innermost open container is at depth d
    before = c.choice('before', ['CONTAINER_START', 'CONTAINER_END'])
    d = c.int('depth', 0, 5 if c.concrete else None)
    at = d if before == 'CONTAINER_START' else d + 1
    second = Stub()
    first.next = [Transition(IonEvent(getattr(IonEventType, before), None, None, None, (), at), second)]
    t = g.send(Transition(NEXT_EVENT, me))
    c.prove(t.event is not None and t.event.depth == at and t.delegate is me, 'without skipping every event is reported')
    if c.choice('between', [False, True]):
        ev, kind, k = event(c, 'b', d)
        if kind in ('CONTAINER_START', 'CONTAINER_END'):
            return
        third = Stub()
        second.next = [Transition(ev, third)]
        t = g.send(Transition(NEXT_EVENT, me))
        c.prove(t.event is ev and t.delegate is me, 'without skipping every event is reported')
        second = third
    # skip: one arbitrary event of the delegate, then another
    script = [event(c, str(i), d) for i in range(2)]
    stubs = [second] + [Stub() for _ in script]
    end = IonEvent(IonEventType.CONTAINER_END, None, None, None, (), d)
    for i, (e, kind, k) in enumerate(script):
        stubs[i].next = [Transition(e, stubs[i + 1])]
    after = Stub()
    stubs[-1].next = [Transition(end, after)]
    send, i, reported = SKIP_EVENT, 0, None
    t = g.send(Transition(send, me))
    while True:
        # events up to the first that is not swallowed
        while i < len(script):
            e, kind, k = script[i]
            if kind in ('none', 'INCOMPLETE'):
                break
            if kind == 'CONTAINER_END' and (k <= d if c.concrete else c.decide(k <= d)):
                break
            i += 1
        if i == len(script):
            c.prove(t.event is end and t.delegate is me, 'skipping: the end of the container is reported')
            done = end, d
            break
        e, kind, k = script[i]
        c.prove(t.event is e and t.delegate is me, 'skipping: requests for data and the end of the container are passed on, nothing else')
        if kind == 'CONTAINER_END':
            done = e, k
            break
        i += 1
        t = g.send(Transition(None if kind == 'none' else NEXT_EVENT, me))
    # from here on nothing is skipped: the innermost open container is the enclosing one
    e, k = done
    last = after if e is end else stubs[i + 1]
    x = IonEvent(IonEventType.SCALAR, None, None, None, (), k)
    fin = Stub()
    last.next = [Transition(x, fin)]
    t = g.send(Transition(NEXT_EVENT, me))
    c.prove(t.event is x, 'afterwards every event is reported')
    # a second skip ends with the enclosing container
    y = IonEvent(IonEventType.CONTAINER_END, None, None, None, (), k)
    z = IonEvent(IonEventType.CONTAINER_END, None, None, None, (), k - 1)
    f1, f2 = Stub(), Stub()
    fin.next = [Transition(y, f1)]
    f1.next = [Transition(z, f2)]
    t = g.send(Transition(SKIP_EVENT, me))
    c.prove(t.event is z, 'a further skip ends with the enclosing container')


UNITS = []


def add(name, fn, of, **kw):
    UNITS.append(Unit('C07.' + name, fn, of=of, seconds=kw.pop('seconds', 200), **kw))


BH = [BIN + ':_container_handler', BIN + ':_read_data_handler']
for _n in sorted(TEXT):
    add('text[%s]' % _n, streams(K.text_reader, TEXT, _n), [RT + ':_skip_trampoline', RT + ':_container_handler'])
    for _h in (0, 2):
        add('text, any octet[%s, %d]' % (_n, _h), any_octet(_n, _h), [RT + ':_skip_trampoline', RT + ':_container_handler'])
for _n in sorted(BINARY):
    add('binary[%s]' % _n, streams(K.binary_reader, BINARY, _n), BH)
for _k in sorted(CONTAINERS):
    for _n in ('top', 'annotated', 'in a list'):
        add('contents[%s, %s]' % (_k, _n), contents(_k, _n), BH, loops=[QueueVarUintLoop])
add('end of container', end_of_container, BH)
add('skip trampoline', trampoline, [RT + ':_skip_trampoline'])

ASSUMPTIONS = K.ASSUMPTIONS[:1]
