"""C06: input chunk boundaries never change what a reader reports."""
from collections import deque

from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve
from pyvc.frames import same_state, frame
from units import fields as F
from units import textio as X
from units.binio import QueueVarUintLoop

C = T.const
READER, BIN, RT = 'amazon.ion.reader', 'amazon.ion.reader_binary', 'amazon.ion.reader_text'


# ---------------------------------------------------------------------------------------------------------------
# the queue: a sequence of octets, however it is segmented

class Segments(object):
    """The deque of a queue that holds a[off, off + len), cut into non-empty segments anywhere."""

    def __init__(self, c, arr, off, ln, partial=None):
        self.c, self.arr, self.off, self.len = c, arr, off, ln
        self.front = [] if partial is None else [partial]
        self.back = []
        self.serial = c.next_serial()

    def __bool__(self):
        return bool(self.front) or bool(self.back) or self.c.decide(T.lt(C(0), self.len))

    def pull(self):
        """The first segment exists on its own."""
        if self.front:
            return
        if not self.c.decide(T.lt(C(0), self.len)):
            if self.back:
                self.front.append(self.back.pop(0))
                return
            raise IndexError('deque index out of range')
        n = self.c.fresh('segment')
        self.c.assume(T.and_(T.le(C(1), n), T.le(n, self.len)))
        self.front.append(P.VBytes([P.View(self.arr, self.off, n)]))
        self.off, self.len = T.add(self.off, n), T.sub(self.len, n)

    def vc_getitem(self, k):
        if type(k) is not int or k != 0:
            raise P.Unsupported('segment %r of a queue' % (k,))
        self.pull()
        return self.front[0]
    __getitem__ = vc_getitem

    def popleft(self):
        self.pull()
        P.ctx_write(self)
        return self.front.pop(0)

    def append(self, x):
        P.ctx_write(self)
        self.back.append(x)

    def appendleft(self, x):
        P.ctx_write(self)
        self.front.insert(0, x)

    def clear(self):
        P.ctx_write(self)
        self.front, self.back, self.len = [], [], C(0)

    def pieces(self):
        out = []
        for s in self.front:
            out += P.pieces_of(s)
        out.append(P.View(self.arr, self.off, self.len))
        for s in self.back:
            out += P.pieces_of(s)
        return out


def attr(q, name):
    return q.__dict__['_BufferQueue__' + name]


def content(c, q):
    """What a queue holds, from its representation."""
    segs, off = attr(q, 'segments'), attr(q, 'offset')
    if c.concrete:
        return b''.join(bytes(s) for s in segs)[off:]
    ps = segs.pieces() if isinstance(segs, Segments) else [p for s in segs for p in P.pieces_of(s)]
    return P.VBytes(P.cut(ps, P.term(off))[1])


def arbitrary(c):
    """(a queue holding an arbitrary sequence of octets, segmented and consumed in an arbitrary way, the octets)."""
    q = resolve(READER + ':BufferQueue')()
    for n in ('segments', 'offset', 'size'):
        if '_BufferQueue__' + n not in q.__dict__:
            raise P.Unsupported('the queue has no ' + n)
    s = c.bytes('content', 0, 9 if c.concrete else None)
    inside = c.choice('first segment partly consumed', [False, True])
    q.position = c.int('position', 1 if inside else 0, 9 if c.concrete else None)
    if c.concrete:
        cuts = c._get('cuts', lambda: [c.rng.randrange(0, len(s) + 1) for _ in range(c.rng.randrange(4))] if hasattr(c, 'rng') else [])
        cuts = [0] + sorted(set(cuts)) + [len(s)]
        segs = [s[a:b] for a, b in zip(cuts, cuts[1:]) if a < b]
        if inside:
            if not segs:
                return q, s
            segs[0] = b'x' + segs[0]
        q.__dict__['_BufferQueue__segments'] = deque(segs)
        q.__dict__['_BufferQueue__offset'] = 1 if inside else 0
        q.__dict__['_BufferQueue__size'] = len(s)
        return q, s
    v = s.pieces[0]
    if not inside:
        q.__dict__['_BufferQueue__segments'] = Segments(c, v.arr, v.off, v.len)
    else:
        done, n = c.fresh('consumed'), c.fresh('first')
        c.assume(T.and_(T.le(C(1), done), T.le(done, P.term(q.position)), T.le(C(1), n), T.le(n, v.len)))
        first = P.VBytes([P.View(v.arr, T.sub(v.off, done), T.add(done, n))])
        q.__dict__['_BufferQueue__segments'] = Segments(c, v.arr, T.add(v.off, n), T.sub(v.len, n), first)
        q.__dict__['_BufferQueue__offset'] = P.mkint(done)
    q.__dict__['_BufferQueue__size'] = P.mkint(v.len)
    return q, s


class ReadLoop(rt.LoopSpec):
    """BufferQueue.read: what has been collected is a prefix of the content, what is left is the rest of it."""
    key = READER + '.BufferQueue.read#0'

    def applies(self, c, S, it):
        return isinstance(S.segments, Segments)

    def setup(self, c, S):
        self.q, self.segs, self.n = S.self, S.segments, P.term(S.length)
        self.entry = S
        off = P.term(S.offset)
        self.all = P.cut(self.segs.pieces(), off)[1]
        self.size = P.total(self.all)
        self.writes = [self.q, self.segs, S.data]
        self.data = S.data
        self.skip = bool(S.skip)

    def havoc(self, c, S):
        first = c.fresh('iteration')
        if c.decide(T.eq(first, C(0))):
            for k in self.modified:
                if k in self.entry.__dict__:
                    setattr(S, k, self.entry.__dict__[k])
            return
        d = c.fresh('collected')
        c.assume(T.and_(T.lt(C(0), d), T.le(d, self.n), T.le(d, self.size)))
        S.length = P.mkint(T.sub(self.n, d))
        a = [p for p in self.all if isinstance(p, P.View)][0]
        if not all(isinstance(p, P.View) and p.arr is a.arr for p in self.all):
            raise P.Unsupported('queue of several arrays')
        self.segs.front, self.segs.back = [], []
        S.offset, o, m = 0, C(0), C(0)
        if c.decide(T.and_(T.eq(d, self.n), T.eq(first, C(1)))):
            # the last segment was used in part
            o, m = c.fresh('used'), c.fresh('unused')
            c.assume(T.and_(T.le(C(1), o), T.le(o, d), T.le(C(1), m), T.le(T.add(d, m), self.size)))
            self.segs.front = [P.VBytes([P.View(a.arr, T.sub(T.add(a.off, d), o), T.add(o, m))])]
        # the rest is cut anywhere
        self.segs.off, self.segs.len = T.add(a.off, T.add(d, m)), T.sub(self.size, T.add(d, m))
        self.q.__dict__['_BufferQueue__offset'] = P.mkint(o)
        self.data.pieces = [] if self.skip else [P.View(a.arr, a.off, d)]

    def inv(self, c, S):
        d = T.sub(self.n, P.term(S.length))
        yield 'not more than asked for', T.and_(T.le(C(0), d), T.le(d, self.n))
        a = [p for p in self.all if isinstance(p, P.View)][0]
        if not self.skip:
            yield 'collected', X.equal(merge(self.data.pieces), merge([P.View(a.arr, a.off, d)]))
        else:
            yield 'nothing is kept', T.eq(P.total(self.data.pieces), C(0))
        off = P.term(attr(self.q, 'offset'))
        yield 'offset', T.or_(T.eq(d, C(0)), T.eq(off, C(0)), T.eq(d, self.n))
        yield 'local offset', T.or_(T.eq(P.term(S.offset), off), T.eq(d, self.n))
        left = P.cut(self.segs.pieces(), off)[1]
        yield 'the rest', X.equal(merge(left), merge([P.View(a.arr, T.add(a.off, d), T.sub(self.size, d))]))


def array_of(t):
    """(array, index) of an octet of an array."""
    return t.args if t.op == 'select' else None


def merge(ps, valid=None):
    """Consecutive views of one array as one."""
    out = []
    for p in ps:
        if isinstance(p, P.Elem):
            a = array_of(p.t)
            if a is not None:
                p = P.View(a[0], a[1], C(1))
        if isinstance(p, P.View) and T.is_const(p.len) and p.len.val == 0:
            continue
        if out and isinstance(p, P.View) and isinstance(out[-1], P.View) and p.arr is out[-1].arr:
            d = T.sub(T.add(out[-1].off, out[-1].len), p.off)
            if T.is_const(d) and d.val == 0 or valid is not None and valid(T.eq(d, C(0))):
                out[-1] = P.View(p.arr, out[-1].off, T.add(out[-1].len, p.len))
                continue
        out.append(p)
    return out


def equal(c, a, b, what):
    if c.concrete:
        c.prove(bytes(a) == bytes(b), what)
    else:
        c.prove(X.equal(present(c, a), present(c, b)), what)


def present(c, x):
    ps = merge(P.pieces_of(x))
    if len(ps) > 1:
        ps = merge([p for p in ps if not (isinstance(p, P.View) and c.valid(T.eq(p.len, C(0))))], c.valid)
    return ps


def size(c, x):
    return len(x) if c.concrete else P.mkint(P.total(P.pieces_of(x)))


def part(c, x, a, b):
    """x[a:b]"""
    if c.concrete:
        return x[a:b]
    return P.VBytes(P.cut(P.cut(P.pieces_of(x), P.term(a))[1], T.sub(P.term(b), P.term(a)))[0])


def call(f, *args, **kw):
    return rt.vc_call(f, *args, **kw)


def is_octet(c, v, s, i, what):
    if c.concrete:
        c.prove(v == s[i], what)
    else:
        c.prove(T.eq(P.term(v), s.octet(C(i))), what)


def state(c, q, s, pos, what):
    c.prove(call(q.__len__) == size(c, s), what + ': its length')
    c.prove(q.position == pos, what + ': its position')


def queue_op(op, make):
    """The operation, as an operation on the sequence of octets."""
    def unit(c):
        q, s, left = make(c)
        n, p = size(c, s), q.position
        if op in ('read', 'skip'):
            k = c.int('length', 0, 12 if c.concrete else None)
            if op == 'read':
                try:
                    r = call(q.read, k)
                except IndexError:
                    c.prove(k > n, 'read: only more than there is is refused')
                    state(c, q, s, p, 'a refused read')
                    equal(c, left(q), s, 'read: nothing is lost')
                    return
                c.prove(k <= n, 'read: more than there is is refused')
                equal(c, r, part(c, s, 0, k), 'read: the first octets in order')
                rest = part(c, s, k, n)
            else:
                r = call(q.skip, k)
                if c.decide(k > n) if not c.concrete else k > n:
                    c.prove(r == k - n, 'skip: what is left to skip')
                    k = n
                else:
                    c.prove(r == 0, 'skip: nothing is left to skip')
                rest = part(c, s, k, n)
            state(c, q, rest, p + k, op)
        elif op in ('read_byte', 'unread'):
            try:
                r = call(q.read_byte)
            except IndexError:
                c.prove(n == 0, 'read_byte: only an empty queue refuses')
                equal(c, left(q), s, 'read_byte: nothing is lost')
                return
            c.prove(n >= 1, 'read_byte: an empty queue refuses')
            is_octet(c, r, s, 0, 'read_byte: the first octet')
            rest = part(c, s, 1, n)
            if op == 'unread':
                call(q.unread, r)
                rest = s
                state(c, q, rest, p, op)
            else:
                state(c, q, rest, p + 1, op)
        else:
            x = c.bytes('more', 1, 4 if c.concrete else None)
            call(q.extend, x)
            rest = s + x
            state(c, q, rest, p, op)
        equal(c, left(q), rest, op + ': what is left is the rest, in order')
    return unit


def any_state(c):
    q, s = arbitrary(c)
    return q, s, lambda q: content(c, q)


def few_chunks(c):
    """A queue that received up to three chunks of any length, and from which something was read: through its operations
    only."""
    q = resolve(READER + ':BufferQueue')()
    k = c.choice('chunks', [0, 1, 2, 3])
    s = c.bytes('content', k, 9 if c.concrete else None) if k else b''
    n = size(c, s)
    at = [0]
    for i in range(k - 1):
        at.append(c.int('cut%d' % i, 0, 9 if c.concrete else None))
        if not c.concrete:
            c.assume(at[-1] > at[-2])
            c.assume(at[-1] < n)
        elif not at[-2] < at[-1] < n:
            from pyvc import conc
            raise conc.Skip()
    for a, b in zip(at, at[1:] + [n]):
        if k:
            call(q.extend, part(c, s, a, b))
    if k:
        h = c.choice('before', ['nothing', 'byte'])
        if h == 'byte':
            call(q.read_byte)
            s, n = part(c, s, 1, n), n - 1
    return q, s, lambda q: call(q.read, call(q.__len__)) if k or True else b''


# ---------------------------------------------------------------------------------------------------------------
# waiting for data: the binary reader

def chunk(c, name, lo=1):
    return c.bytes(name, lo, 5 if c.concrete else None)


def handler(c, q, skip, n, event, whence, limit, top):
    H = resolve(BIN + ':_HandlerContext')
    ctx = H(0, limit, q, None, None, 0 if top else 1, whence)
    return rt.vc_call(resolve(BIN + ':_read_data_handler'), n, whence, ctx, skip, event)


def waiting(skip):
    """_read_data_handler: two chunks do what one chunk of both does, in every state it can wait in."""
    def unit(c):
        from amazon.ion.core import Transition, ION_STREAM_END_EVENT, ION_STREAM_INCOMPLETE_EVENT
        from amazon.ion.reader import read_data_event
        from amazon.ion.exceptions import IonException
        event = ION_STREAM_END_EVENT if c.choice('at a possible end', [False, True]) else ION_STREAM_INCOMPLETE_EVENT
        n = c.int('needed', 1, 14 if c.concrete else None)
        held = c.bytes('held', 0, 6 if c.concrete else None)
        x, y = chunk(c, 'x'), chunk(c, 'y')
        earlier = c.choice('earlier chunk', [False, True])
        w = c.bytes('w', 1, 4 if c.concrete else None) if earlier else None
        pos = c.int('position', 0, 9 if c.concrete else None)
        limit = c.int('limit', 0, 60 if c.concrete else None)
        top = c.choice('at the top', [True, False])
        whence = object()
        res = []
        for parts in ([x, y], [x + y]):
            q = resolve(READER + ':BufferQueue')()
            q.position = pos
            if c.decide(size(c, held) > 0) if not c.concrete else len(held):
                q.extend(held)
            try:
                g = handler(c, q, skip, n, event, whence, limit, top)
                t = g.send(Transition(None, g))
            except IonException:
                res.append((q, 'overrun', None, None))
                continue
            signals = []
            if t.delegate is whence:
                c.prove(t.event is None, 'with enough data there is no event')
                res.append((q, 'done at once', None, None))
                continue
            for k, z in enumerate(([w] if earlier else []) + parts):
                c.prove(t.event is (event if (c.valid(size(c, held) == 0) if not c.concrete else not held) and k == 0
                                    else ION_STREAM_INCOMPLETE_EVENT),
                        'waiting in the middle of something is incomplete')
                c.prove(t.delegate is g, 'and comes back here')
                t = g.send(Transition(read_data_event(z), g))
                if t.delegate is whence:
                    c.prove(t.event is None, 'with enough data there is no event')
                    if z is w:
                        res.append((q, 'done early', None, None))
                    elif z is x and len(parts) == 2:
                        # the reader goes on with what it has: the second chunk comes to the queue when it is asked for
                        q.extend(y)
                        res.append((q, 'done', None, None))
                    else:
                        res.append((q, 'done', None, None))
                    break
            else:
                res.append((q, 'waits', t, frame(g)))
        (q1, k1, t1, f1), (q2, k2, t2, f2) = res
        c.prove(k1 == k2, 'the same outcome')
        c.prove(q1.position == q2.position, 'the same position')
        equal(c, content(c, q1), content(c, q2), 'the same octets are held')
        if k1 == 'waits':
            c.prove(t1.event is t2.event, 'the same event')
            c.prove(f1['length'] == f2['length'], 'the same number of octets is still needed')
            c.prove(f1['stream_event'] is f2['stream_event'], 'and will be signalled alike')
    return unit


# ---------------------------------------------------------------------------------------------------------------
# readers: one chunk of octets p x leads to the state that p and then x leads to

ERRORS = ('IonException', 'ValueError', 'TypeError', 'UnicodeDecodeError', 'OverflowError', 'KeyError', 'AssertionError')


class Reads(object):
    """A reader given one chunk at a time; what it reports, or the kind of error it stops with."""

    def __init__(self, make):
        from amazon.ion.reader import NEXT_EVENT
        self.r = make()
        self.ev = self.r.send(NEXT_EVENT)
        self.out, self.error = [], None

    def __call__(self, *chunks):
        from amazon.ion.reader import NEXT_EVENT, read_data_event
        for x in chunks:
            if self.error is not None:
                break
            try:
                self.ev = self.r.send(read_data_event(x))
                while self.ev.event_type.name not in ('INCOMPLETE', 'STREAM_END'):
                    self.out.append(self.ev)
                    self.ev = self.r.send(NEXT_EVENT)
            except Exception as e:
                if type(e).__name__ not in ERRORS:
                    raise
                self.error = type(e).__name__
        return self


def leaves(c):
    """Equality of leaves: queues by content, octets and integers by value."""
    Q = resolve(READER + ':BufferQueue')

    def equal(x, y):
        if type(x) is Q and type(y) is Q:
            if not settle(c, x.position == y.position) or x.is_unicode != y.is_unicode:
                return False
            return settle(c, same_octets(c, content(c, x), content(c, y)))
        if c.concrete:
            return bytes(x) == bytes(y) if isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes, bytearray)) else None
        if octets(x) and octets(y) and (P.is_sym(x) or P.is_sym(y)):
            return settle(c, same_octets(c, x, y))
        if P.is_sym(x) and P.intlike(x) and P.intlike(y) or P.is_sym(y) and P.intlike(y) and P.intlike(x):
            return settle(c, T.eq(P.term(x), P.term(y)))
        return None
    return equal


def octets(x):
    return isinstance(x, (P.VBytes, P.VBuf)) if P.is_sym(x) else isinstance(x, (bytes, bytearray))


def same_octets(c, x, y):
    if c.concrete:
        return bytes(x) == bytes(y)
    return X.equal(present(c, x), present(c, y))


def settle(c, cond):
    if cond is True or cond is False:
        return cond
    return c.valid(P.as_cond(cond))


def alike(c, a, b, what, state=True):
    """Two readers have reported the same and are in the same state."""
    eq = leaves(c)
    c.prove(a.error == b.error, what + ': the same outcome')
    c.prove(len(a.out) == len(b.out), what + ': the same number of events')
    for e, f in zip(a.out, b.out):
        d = same_state(e, f, eq)
        if d is not None:
            if c.concrete:
                v = [repr(bytes(z) if isinstance(z, bytearray) else z) for z in (e.value, f.value)]
                same = e.event_type is f.event_type and e.ion_type is f.ion_type and v[0] == v[1] and e.depth == f.depth and \
                    e.field_name == f.field_name and tuple(e.annotations) == tuple(f.annotations)
                c.prove(same, what + ': the same events (' + d + ')')
            else:
                c.fail(what + ': the same events', d)
        else:
            c.prove(True, what + ': the same events')
    if a.error is None and state:
        c.prove(a.ev.event_type is b.ev.event_type, what + ': the same signal')
        d = same_state(a.r, b.r, eq)
        if d is not None:
            if c.concrete:
                return
            raise P.Unsupported('%s: %s' % (what, d))
        c.prove(True, what + ': the same state')


TEXT = {
    'scalars': u"1 -12.5e3 0x1F 0b10 1_0 12d-2 2.0 +inf -inf nan abc 'd e' \"s\" true false null null.int 2001-01-01T10:11:12.5+01:30 2001T ",
    'annotations': u"a::'b'::\"s\" c :: 1 $4::[] a::b::{} ",
    'containers': u"[1,a,\"s\",'q',[],{},(),a::b,] {a:1,'b':c,\"d\":[1],e:f::{g:2}, 'x' : '''y''' } ",
    'sexp': u"(1 a 'q' \"s\" a::b (c) + -1 +a -b [1] 1.5 a/*c*/b // x\n . ... -inf +inf) ",
    'lobs': u"{{YWJj}} {{ \"abc\" }} [{{ YQ == }},{{'''a''' '''b'''}}] {{\"\\x41\\n\"}} ",
    'strings': u"'''a''' '''b'c'' d''' 1 ['''a''' '''b''','''c'''] a::'''x''' /*c*/ '''y''' // c\n '''z''' 2 ",
    'escapes': u"\"\\n\\x41\\u00e9\\U0001f600\\ud83d\\ude00\\\n\\/\" 'a\\x42\\'b' '''\\\r\nx\r\ny\rz''' ",
    'version': u"$ion_1_0 a $ion_1_1 ",
    'comments': u"/* a * b **/ 1 // c\r\n 2 /**/ [ /*x*/ 1 /*y*/ , // z\n 2 ] {a /*1*/ : /*2*/ b} ",
    'utf-8': u"\"\u00e9\u20ac\U0001f600\" '\u00e9' ",
}


def text_reader():
    return resolve(RT + ':reader')(is_unicode=False)


def text_chunks(name):
    """After every prefix of a stream, and for every octet x that may follow."""
    def unit(c):
        whole = TEXT[name].encode('utf-8')
        at = c.choice('prefix', list(range(1, len(whole) + 1)))
        p = whole[:at]
        x = c.int('x', 0, 255)
        a = Reads(text_reader)(p + one(c, x))
        b = Reads(text_reader)(p, one(c, x))
        alike(c, a, b, 'chunks')
    return unit


def one(c, x):
    return bytes(bytearray([x])) if c.concrete else P.VBytes([P.Elem(P.term(x))])


IVM = b'\xe0\x01\x00\xea'


def h(s):
    return IVM + bytes(bytearray.fromhex(s))


BINARY = {
    'start': b'\xe0\x01\x00\xea\xe0\x01\x00\xea\x11\xe0',
    'scalars': h('0f 11 20 2101 3281ff 40 44 3f800000 48 3ff0000000000000 50 53 c0 c1 01 63 c0 0f d0'),
    'text': h('70 71 04 80 82 6162 8e 84 61626364 90 9201 ff a0 a1 00 ae 80'),
    'padding': h('00 01ff 0e 83 010203 b4 02 ffff 11 d4 80 01 ff 00'),
    'lengths': h('2e 00 81 07 8e 0000 82 6162 be 81 11 ee 85 81 84 2e 80'),
    'lists': h('b0 b1 11 b3 b0 c1 11 be 83 11 b1 11 b2 81'),
    'structs': h('d0 d2 84 11 de 86 84 11 85 d2 86 b0 d1 83 84 21 07 d4 0081 2105'),
    'annotations': h('e4 81 84 2101 e3 81 84 20 e5 82 84 85 b1 11 b5 e4 81 84 2101 11 d6 84 e4 81 85 2101'),
    'overrun': h('b2 22 b3 b1 b1 11 d3 84 22'),
}


def binary_reader():
    return resolve(BIN + ':raw_reader')()


def binary_chunks(name):
    def unit(c):
        whole = BINARY[name]
        at = c.choice('prefix', list(range(0, len(whole) + 1)))
        p = whole[:at]
        x = c.int('x', 0, 255)
        if not at:
            return
        a = Reads(binary_reader)(p + one(c, x))
        b = Reads(binary_reader)(p, one(c, x))
        alike(c, a, b, 'chunks')
    return unit


SIZED = {'int': 0x2e, 'negative int': 0x3e, 'decimal': 0x5e, 'timestamp': 0x6e, 'symbol': 0x7e, 'string': 0x8e, 'clob': 0x9e,
         'blob': 0xae, 'padding': 0x0e}


def field(c, form, v, name):
    """A variable-length integer that denotes v, padded or not."""
    if c.concrete:
        pad = c.choice(name + ' padding', [0, 0, 1, 2])
        return F.octets_of(form, 0, v, pad)
    f, mag, _, _ = F.field_input(c, form, name)
    c.assume(mag == v)
    return f


def sized(kind, inside):
    """A value whose contents are any octets, any number of them, cut anywhere."""
    def unit(c):
        x, y = c.bytes('x', 1, 20 if c.concrete else None), c.bytes('y', 1, 20 if c.concrete else None)
        n = size(c, x) + size(c, y)
        before = bytes(bytearray([SIZED[kind]])) + field(c, F.VARUINT, n, 'length field')
        after = b'\x11\x11\x11'
        if inside:
            before = b'\xbe' + field(c, F.VARUINT, size(c, before) + n, 'list length') + before
        before = IVM + before
        cut = c.choice('cut', ['in', 'twice', 'end'])
        if cut == 'in':
            two = [before + x, y + after]
        elif cut == 'twice':
            two = [before + x, y, after]
        else:
            two = [before + x + y, after]
        a = Reads(binary_reader)(before + x + y + after)
        b = Reads(binary_reader)(*two)
        alike(c, a, b, 'chunks')
        c.prove(a.error is None and len(a.out) == 4 + (kind != 'padding') + 2 * inside, 'all of it is read')
    return unit


UNITS = []


def add(name, fn, of, **kw):
    UNITS.append(Unit('C06.' + name, fn, of=of, seconds=kw.pop('seconds', 200), **kw))


for _o in ('read', 'skip', 'read_byte', 'unread', 'extend'):
    _of = [READER + ':BufferQueue.' + _o, READER + ':BufferQueue.__len__']
    add('queue %s' % _o, queue_op(_o, any_state), _of, loops=[ReadLoop])
    add('queue %s[few chunks]' % _o, queue_op(_o, few_chunks), _of)
for _s in (False, True):
    add('waiting[%s]' % ('skip' if _s else 'read'), waiting(_s), [BIN + ':_read_data_handler'])
for _n in sorted(TEXT):
    add('text[%s]' % _n, text_chunks(_n), [RT + ':_read_data_handler', RT + ':_container_handler', READER + ':reader_trampoline'])
for _n in sorted(BINARY):
    add('binary[%s]' % _n, binary_chunks(_n), [BIN + ':_container_handler', BIN + ':_start_type_handler', BIN + ':_var_uint_field_handler',
                                               READER + ':reader_trampoline'])
for _n in sorted(SIZED):
    for _i in (False, True):
        add('%s cut anywhere[%s]' % (_n, 'in a list' if _i else 'top'), sized(_n, _i),
            [BIN + ':_length_scalar_handler', BIN + ':_nop_pad_handler', BIN + ':_var_uint_field_handler', BIN + ':_read_data_handler'],
            loops=[QueueVarUintLoop])

ASSUMPTIONS = ['a reader whose suspended frames, closures, contexts and queue contents are equal behaves alike (Python is deterministic; '
               'variables that are not live where a generator is suspended are left out)',
               'the text reader is taken in its octet mode; that str input is read alike is a bounded check']
