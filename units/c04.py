"""C04: binary containers and annotation wrappers declare exact lengths."""
from pyvc import conc
from pyvc import proxies as P
from pyvc import rt
from pyvc import terms as T
from pyvc.contract import Unit, resolve
from units import binio as B
from units import fields as F
from units.c16 import cat, length

C = T.const
CORE = 'amazon.ion.core'
BUF = 'amazon.ion.writer_buffer'
TID = {'LIST': 11, 'SEXP': 12, 'STRUCT': 13}


# ---------------------------------------------------------------------------------------------------------------
# what was emitted, taken apart from the front

class Out(object):
    def __init__(self, c, data):
        self.c = c
        self.data = bytes(data) if c.concrete else None
        self.ps = None if c.concrete else list(P.pieces_of(data))

    def wrong(self, what):
        if self.data is not None:
            self.c.prove(False, what)
            raise conc.Stop
        if not self.ps:
            self.c.prove(False, what)
        self.c.prove(False, what + ' (octets of another shape)', 'shape')

    def octet(self):
        if self.data is not None:
            if not self.data:
                self.wrong('more octets are expected')
            o, self.data = bytearray(self.data)[0], self.data[1:]
            return o
        if not self.ps or not isinstance(self.ps[0], P.Elem):
            self.wrong('a single octet is expected')
        return P.mkint(self.ps.pop(0).t)

    def varuint(self):
        """The value of a VarUInt."""
        if self.data is not None:
            r = F.VARUINT.conc(self.data)
            if r is None:
                self.wrong('a VarUInt is expected')
            self.data = self.data[r[2]:]
            return r[1], r[2]
        if self.ps and isinstance(self.ps[0], F.Field) and self.ps[0].form is F.VARUINT:
            f = self.ps.pop(0)
            return P.mkint(f.mag), P.mkint(f.len)
        self.wrong('a VarUInt is expected')

    def raw(self, x, what):
        """Exactly the octets x."""
        c = self.c
        if self.data is not None:
            c.prove(self.data[:len(x)] == x, what)
            self.data = self.data[len(x):]
            return
        for p in P.pieces_of(x):
            if not self.ps:
                self.wrong(what)
            q = self.ps.pop(0)
            if type(p) is P.View or type(p) is F.Field:
                ok = isinstance(q, P.View) and q.arr is p.arr and T.and_(T.eq(q.off, p.off), T.eq(q.len, p.len))
            elif isinstance(p, P.Elem):
                ok = isinstance(q, P.Elem) and T.eq(p.t, q.t)
            else:
                ok = isinstance(q, P.Blob) and q.token is p.token and T.eq(q.len, p.len)
            c.prove(ok, what)

    def header(self, tid, n, what):
        """A type descriptor that declares n octets."""
        c = self.c
        o = self.octet()
        inline = o == tid * 16 + n
        field = o == tid * 16 + 14
        if yes(c, field):
            m, _ = self.varuint()
            c.prove(m == n, what + ': the length field declares exactly the octets that follow')
            return
        c.prove(inline, what + ': the type descriptor declares exactly the octets that follow')
        c.prove(n < 14, what + ': an inline length is below 14')
        c.prove(n >= 0, what + ': an inline length is not negative')
        if tid == 13:
            c.prove(n != 1, what + ': a struct of length code 1 is something else')

    def end(self, what='nothing else is emitted'):
        self.c.prove(not self.data if self.data is not None else T.eq(P.total(self.ps), C(0)), what)


def yes(c, cond):
    if c.concrete or isinstance(cond, bool):
        return bool(cond)
    return c.decide(cond)


def content(c, name):
    return c.bytes(name, 0, 300 if c.concrete else None)


def tree_and_writer():
    tree = resolve(BUF + ':BufferTree')()
    return tree, resolve(B.RAW + ':_raw_binary_writer')(tree)


def token(c, name):
    return resolve('amazon.ion.symbols:SymbolToken')(None, c.int(name, 0, 1 << 40 if c.concrete else None))


def annotations_input(c, name, most=3):
    n = c.choice(name + 's', list(range(most + 1)))
    return tuple(token(c, '%s%d' % (name, i)) for i in range(n))


def send(c, w, e, out):
    from amazon.ion.writer import WriteEventType
    while True:
        r = w.send(e)
        out.append(r.data)
        if r.type is not WriteEventType.HAS_PENDING:
            return r
        e = None


def start(t, annotations, field_name):
    from amazon.ion.core import IonEvent, IonEventType, IonType
    return IonEvent(IonEventType.CONTAINER_START, getattr(IonType, t), None, field_name, annotations, 0)


def wrapped(c, o, anns, n, what):
    """The annotation wrapper in front of n octets."""
    if not anns:
        return
    # the annotations' own octets: each VarUInt's length is known once it is read, so they are collected first
    head = Out(c, o.data) if o.data is not None else None
    if head is None:
        head = Out.__new__(Out)
        head.c, head.data, head.ps = c, None, list(o.ps)
    # skip the descriptor and its length field to find the length of the annotations
    d = head.octet()
    if yes(c, d == 0xee):
        head.varuint()
    an, anl = head.varuint()
    total = 0
    for a in anns:
        v, k = head.varuint()
        c.prove(v == a.sid, what + ': the annotations are the symbol IDs given, in order')
        total = total + k
    c.prove(an == total, what + ': the annotation length is that of the symbol IDs')
    o.header(14, anl + total + n, what + ': the wrapper')
    o.varuint()
    for a in anns:
        o.varuint()


def nested(t0, t1):
    """A container inside a container, each with arbitrary contents before, inside and after, field names and annotations."""
    def unit(c):
        from amazon.ion.core import IonEvent, IonEventType, ION_STREAM_END_EVENT
        END = IonEvent(IonEventType.CONTAINER_END)
        tree, w = tree_and_writer()
        out = []
        before, a, x, b, after = [content(c, n) for n in ('before', 'inside, before', 'innermost', 'inside, after', 'after')]
        ann0, ann1 = annotations_input(c, 'outer annotation', 1), annotations_input(c, 'inner annotation', 2)
        f = token(c, 'field name') if t0 == 'STRUCT' else None
        tree.add_scalar_value(before)
        r0 = send(c, w, start(t0, ann0, None), out)
        tree.add_scalar_value(a)
        send(c, w, start(t1, ann1, f), out)
        tree.add_scalar_value(x)
        send(c, w, END, out)
        tree.add_scalar_value(b)
        send(c, w, END, out)
        tree.add_scalar_value(after)
        emitted = B.concat(c, out)
        c.prove(T.eq(P.total(P.pieces_of(emitted)), C(0)) if not c.concrete else emitted == b'', 'nothing is emitted before the end')
        out = []
        send(c, w, ION_STREAM_END_EVENT, out)
        data = B.concat(c, out)
        o = Out(c, data)
        o.raw(before, 'what was written before comes first')
        # lengths from the inside out
        n1 = length(c, x)
        probe = copy_out(c, o)
        if ann0:
            skip_wrapper(c, probe, len(ann0))
        skip_header(c, probe)
        probe.raw(a, 'the earlier contents directly follow the header')
        n0 = length(c, a) + length(c, b) + n1
        left = remaining(c, probe)
        if f is not None:
            v, k = probe.varuint()
            c.prove(v == f.sid, 'the field name precedes the value')
        wrapped(c, probe, ann1, header_length(c, probe, len(ann1)) + n1, 'inner annotations')
        probe.header(TID[t1], n1, 'the inner container')
        probe.raw(x, 'its contents directly follow its header')
        inner = left - remaining(c, probe)
        probe.raw(b, 'later contents follow')
        probe.raw(after, 'what was written afterwards comes last')
        probe.end()
        body = length(c, a) + inner + length(c, b)
        wrapped(c, o, ann0, header_length(c, o, len(ann0)) + body, 'outer annotations')
        o.header(TID[t0], body, 'the outer container')
    return unit


def copy_out(c, o):
    x = Out.__new__(Out)
    x.c, x.data, x.ps = c, o.data, None if o.ps is None else list(o.ps)
    return x


def remaining(c, o):
    return len(o.data) if o.data is not None else P.mkint(P.total(o.ps))


def skip_header(c, o):
    d = o.octet()
    low = d % 16
    if yes(c, low == 14):
        o.varuint()


def skip_wrapper(c, o, n):
    skip_header(c, o)
    for _ in range(n + 1):
        o.varuint()


def header_length(c, o, n):
    """The number of octets of the header behind the annotations."""
    p = copy_out(c, o)
    if n:
        skip_wrapper(c, p, n)
    k = remaining(c, p)
    skip_header(c, p)
    return k - remaining(c, p)


def annotated_scalar(c):
    """Scalars with annotations and field names, at the top level and inside containers."""
    from amazon.ion.core import IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT
    tree, w = tree_and_writer()
    where = c.choice('inside', [None, 'LIST', 'STRUCT'])
    anns = annotations_input(c, 'annotation')
    before, v = content(c, 'before'), c.bytes('value', 0, 40 if c.concrete else None)
    f = token(c, 'field name') if where == 'STRUCT' else None
    out = []
    if where:
        send(c, w, start(where, (), None), out)
    tree.add_scalar_value(before)
    send(c, w, B.scalar(IonType.BLOB, v, anns, f), out)
    if where:
        send(c, w, IonEvent(IonEventType.CONTAINER_END), out)
    out = []
    send(c, w, ION_STREAM_END_EVENT, out)
    o = Out(c, B.concat(c, out))
    if where:
        n = remaining(c, o)
        p = copy_out(c, o)
        skip_header(c, p)
        o.header(TID[where], remaining(c, p), 'the container')
    o.raw(before, 'what was written before comes first')
    if f is not None:
        k, _ = o.varuint()
        c.prove(k == f.sid, 'the field name precedes the value')
    wrapped(c, o, anns, header_length(c, o, len(anns)) + length(c, v), 'annotations')
    o.header(10, length(c, v), 'the value')
    o.raw(v, 'its octets')
    o.end()


# ---------------------------------------------------------------------------------------------------------------
# any number of annotations

class Annotations(rt.LoopSpec):
    """The octets of the first i annotations have been collected and counted."""
    key = B.RAW + '._serialize_annotation_wrapper#0'

    def applies(self, c, S, it):
        return type(it) is P.AbstractSeq

    def setup(self, c, S):
        self.buf = S.annot_length_buf
        self.writes = [self.buf]
        c.prove(T.eq(P.total(self.buf.pieces), C(0)), 'no octets at first', 'invariant')

    def length(self, c):
        return self.iter.vc_len()

    def item(self, c, i):
        self.now = True
        return self.iter.elem

    def havoc(self, c, S):
        n = c.fresh('octets_so_far')
        c.assume(T.le(C(0), n))
        self.blob = P.Blob(c.fresh('annotations_so_far'), n)
        self.buf.pieces[:] = [self.blob]
        S.annot_length = P.mkint(n)
        self.now = False

    def inv(self, c, S):
        yield 'octets counted', T.eq(P.term(S.annot_length), P.total(self.buf.pieces))

    def inv_prove(self, c, S):
        if getattr(self, 'now', False):
            ps = self.buf.pieces
            ok = len(ps) == 2 and ps[0] is self.blob and isinstance(ps[1], F.Field) and ps[1].form is F.VARUINT and \
                T.eq(ps[1].mag, P.term(self.iter.elem.sid))
            c.prove(ok, 'each annotation appends its symbol ID', 'invariant')

    def leave(self, c):
        c.ghost['annotations'] = self.blob


def wrapper_any_number(c):
    f = resolve(B.RAW + ':_serialize_annotation_wrapper')
    tree = resolve(BUF + ':BufferTree')()
    x = content(c, 'value')
    if c.concrete:
        anns = [token(c, 'sid')] * c.int('n', 1, 200)
    else:
        anns = P.AbstractSeq('annotations', token(c, 'sid'))
        c.assume(T.le(C(1), P.term(anns.vc_len())))
    before = content(c, 'before')
    tree.add_scalar_value(before)
    tree.start_container()
    tree.add_scalar_value(x)
    f(tree, anns)
    c.prove(tree.current_container_length == sum_len(c, tree), 'the enclosing length counts the wrapper') if False else None
    data = B.concat(c, list(tree.drain()))
    o = Out(c, data)
    o.raw(before, 'what was written before comes first')
    if c.concrete:
        wrapped(c, o, anns, len(x), 'annotations')
    else:
        blob = c.ghost['annotations']
        p = copy_out(c, o)
        skip_header(c, p)
        an, anl = p.varuint()
        c.prove(an == P.mkint(blob.len), 'the annotation length is that of the symbol IDs')
        o.header(14, anl + P.mkint(blob.len) + length(c, x), 'the wrapper')
        o.varuint()
        o.raw(P.VBytes([blob]), 'the symbol IDs follow')
    o.raw(x, 'the value follows')
    o.end()


# ---------------------------------------------------------------------------------------------------------------
# the tree of buffers, whatever it holds

class Subtree(object):
    """A node of a tree about which only this is known: its octets in order are some text that starts with those of its
    first child, if it has children, and with its own value if it has none."""

    def __init__(self, c, name):
        self.c, self.name = c, name
        self.parent, self.kids, self.known = None, None, False
        self.value = ('value of', name)

    @property
    def children(self):
        if not self.known:
            self.known = True
            if self.c.choice('children of ' + self.name, [False, True]):
                self.first = Subtree(self.c, self.name + '.0')
                self.kids = [self.first, ('other children of', self.name)]
        return self.kids

    def add_child(self, n):
        if not self.known:
            raise P.Unsupported('a child added before looking')
        n.parent = self
        self.kids = (self.kids or []) + [n]


class Leftmost(rt.LoopSpec):
    """Looking for the first leaf: the current node is where the traversal of the subtree starts."""
    key = BUF + '._Node.add_leaf#0'

    def applies(self, c, S, it):
        return isinstance(S.leftmost_child, Subtree)

    def setup(self, c, S):
        self.top = S.leftmost_child

    def havoc(self, c, S):
        S.leftmost_child = Subtree(c, 'here')
        self.here = S.leftmost_child
        c.ghost['here'] = self.here

    def inv(self, c, S):
        x = S.leftmost_child
        if not hasattr(self, 'here'):
            yield 'starts at the first child', T.const(x is self.top)
        else:
            yield 'the traversal starts here', T.const(x is self.here or x is getattr(self.here, 'first', None))


def add_leaf(c):
    """A header added as a leaf comes first in the traversal of its container, however deep the contents."""
    Node = resolve(BUF + ':_Node')
    top = Node(None)
    kids = c.choice('contents', ['none', 'one', 'more'])
    x = Subtree(c, 'first') if not c.concrete else None
    if c.concrete:
        # a random tree
        vals = []

        def build(depth):
            n = Node(len(vals))
            vals.append(n.value)
            for _ in range(c.rng.choice([0, 0, 1, 2, 3]) if depth and c.rng else 0):
                n.add_child(build(depth - 1))
            return n
        for _ in range({'none': 0, 'one': 1, 'more': 3}[kids]):
            top.add_child(build(c.int('depth', 0, 4)))
        before = traverse(top)
        top.add_leaf(Node('header'))
        c.prove(traverse(top) == ['header'] + before, 'the header comes first, and nothing else moves')
        return
    others = [('another',)] if kids == 'more' else []
    if kids != 'none':
        top.children = [x] + others
    h = Node('header')
    top.add_leaf(h)
    if kids == 'none':
        c.prove(len(top.children) == 1 and top.children[0] is h and not h.children, 'the header is the only child')
        return
    c.prove(len(top.children) == 1 + len(others) and top.children[0] is x, 'the contents stay where they are')
    here = c.ghost.get('here', x)
    while here.kids and isinstance(here.kids[0], Subtree):
        here = here.kids[0]  # the code looked further, without a loop that the specification knows
    c.prove(here.kids is not None and len(here.kids) == 1 and here.kids[0] is h, 'the header is the first leaf')
    c.prove(not h.children and h.value == 'header', 'the header is a leaf')


def traverse(n):
    out = []
    for k in n.children or []:
        out += traverse(k)
    return out + [n.value]


def drain_order(c):
    """The traversal gives the octets of the children in order, and then those of the node."""
    Tree, Node = resolve(BUF + ':BufferTree'), resolve(BUF + ':_Node')
    tree = Tree()
    want = []

    def build(name, depth):
        v = c.choice('value ' + name, [False, True])
        n = Node(('value', name) if v else None)
        kids = c.choice('children ' + name, [0, 1, 2] if depth == 2 else [0, 1]) if depth else 0
        for i in range(kids):
            n.add_child(build('%s.%d' % (name, i), depth - 1))
        if v:
            want.append(n.value)
        return n
    tree._BufferTree__root = tree._BufferTree__container_node = build('root', 2)
    c.prove(list(tree.drain()) == want, 'children in order, each before its parent, absent values left out')
    c.prove(list(tree.drain()) == [], 'nothing is left behind')


def tree_refuses(c):
    tree = resolve(BUF + ':BufferTree')()
    n = c.choice('open', [0, 1, 2, 3])
    for _ in range(n):
        tree.start_container()
        tree.add_scalar_value(content(c, 'x'))
    k = c.choice('closed', list(range(n + 2)))
    try:
        for _ in range(k):
            tree.end_container(b'h')
    except ValueError:
        c.prove(k > n, 'only a container that is open can be ended')
        return
    c.prove(k <= n, 'a container that is not open cannot be ended')
    try:
        out = list(tree.drain())
    except ValueError:
        c.prove(k < n, 'an unfinished tree only is refused')
        return
    c.prove(k == n, 'nothing is emitted while containers are open')


# ---------------------------------------------------------------------------------------------------------------
# one step of the writer at any depth

class Stub(object):
    def send(self, x):
        raise AssertionError('not to be asked')


def step(c):
    """CONTAINER_START and CONTAINER_END at any depth: what happens in between is written inside, and afterwards the
    writer continues where it was."""
    from amazon.ion.core import IonEvent, IonEventType, Transition
    f = resolve(B.RAW + ':_raw_writer_coroutine')
    tree = resolve(BUF + ':BufferTree')()
    d = c.int('depth', 0)
    t0 = c.choice('in', ['LIST', 'STRUCT'])
    t1 = c.choice('of', ['LIST', 'SEXP', 'STRUCT'])
    whence = Stub()
    outer = f(tree, d, start(t0, (), None), whence, None)
    anns = annotations_input(c, 'annotation', 1)
    name = token(c, 'field name')
    before, x = content(c, 'before'), content(c, 'contents')
    for _ in range(2):
        tree.start_container()
    tree.add_scalar_value(before)
    r = outer.send(Transition(start(t1, anns, name), outer))
    inner = r.delegate
    c.prove(inner is not outer and inner is not whence, 'the contents have a state of their own')
    c.prove(r.event.type.name == 'NEEDS_INPUT', 'more input is needed')
    tree.add_scalar_value(x)
    r = inner.send(Transition(IonEvent(IonEventType.CONTAINER_END), inner))
    c.prove(r.delegate is outer, 'the container ends where it began')
    tree.end_container(b'')
    tree.end_container(b'')
    o = Out(c, B.concat(c, list(tree.drain())))
    o.raw(before, 'what was written before comes first')
    if t0 == 'STRUCT' and yes(c, d > 0):
        v, _ = o.varuint()
        c.prove(v == name.sid, 'the field name precedes the value')
    wrapped(c, o, anns, header_length(c, o, len(anns)) + length(c, x), 'annotations')
    o.header(TID[t1], length(c, x), 'the container')
    o.raw(x, 'its contents')
    o.end()
    # the end of the enclosing container leads back to where that began
    if yes(c, d > 0):
        tree.start_container()
        r = outer.send(Transition(IonEvent(IonEventType.CONTAINER_END), outer))
        c.prove(r.delegate is whence, 'and then the enclosing one')


# ---------------------------------------------------------------------------------------------------------------
# and back

def read_back(shape):
    def unit(c):
        from amazon.ion.core import IonEvent, IonEventType, IonType
        S, E = IonEventType.CONTAINER_START, IonEventType.CONTAINER_END
        v = c.bytes('value', 0, 300 if c.concrete else None)
        events, names = [], []

        def add(t, ion_type=None, value=None, field=None, anns=()):
            events.append((t, ion_type, value, field, anns))
        Tok = resolve('amazon.ion.symbols:SymbolToken')
        a, b = Tok(None, 5), Tok(None, 200)
        if shape == 'struct':
            f = token(c, 'f')
            add(S, IonType.STRUCT)
            add(IonEventType.SCALAR, IonType.BLOB, v, f)
            add(IonEventType.SCALAR, IonType.BOOL, True, a, (a, b))
            add(E, IonType.STRUCT)
        elif shape == 'annotated list':
            f = token(c, 'f')
            add(S, IonType.LIST, None, None, (f,))
            add(IonEventType.SCALAR, IonType.BLOB, v)
            add(E, IonType.LIST)
        elif shape == 'annotated struct':
            add(S, IonType.STRUCT, None, None, (a, b))
            add(IonEventType.SCALAR, IonType.BLOB, v, b, (b,))
            add(E, IonType.STRUCT)
        elif shape == 'list':
            add(S, IonType.LIST)
            add(IonEventType.SCALAR, IonType.BOOL, False, None, (a,))
            add(S, IonType.SEXP, None, None, (a,))
            add(IonEventType.SCALAR, IonType.BLOB, v)
            add(E, IonType.SEXP)
            add(S, IonType.LIST)
            add(E, IonType.LIST)
            add(E, IonType.LIST)
        elif shape == 'int':
            add(S, IonType.LIST)
            add(IonEventType.SCALAR, IonType.INT, c.int('number'))
            add(E, IonType.LIST)
        else:
            add(S, IonType.SEXP)
            add(S, IonType.STRUCT)
            add(S, IonType.LIST, None, b)
            add(IonEventType.SCALAR, IonType.BLOB, v)
            add(E, IonType.LIST)
            add(E, IonType.STRUCT)
            add(E, IonType.SEXP)
        add(IonEventType.SCALAR, IonType.NULL, None)
        data = B.write(c, [IonEvent(t, it, x, fn, an, 0) for t, it, x, fn, an in events])
        evs, end = B.read(c, B.concat(c, [B.IVM, data]))
        c.prove(end and len(evs) == len(events) + 1, 'as many events are read as were written')
        depth = 0
        for e, (t, it, x, fn, an) in zip(evs[1:], events):
            if t is E:
                depth -= 1
            c.prove(e.event_type is t and e.ion_type is it, 'the same kind of event and type')
            c.prove(e.depth == depth, 'the same depth')
            if t is S:
                depth += 1
            if t is not E:
                c.prove((e.field_name is None) == (fn is None), 'a field name exactly where one was written')
                if fn is not None:
                    c.prove(e.field_name.sid == fn.sid, 'the same field name')
                c.prove(len(e.annotations) == len(an), 'as many annotations')
                for p, q in zip(e.annotations, an):
                    c.prove(p.sid == q.sid, 'the same annotations')
            if t is IonEventType.SCALAR:
                c.prove(e.value is None if x is None else e.value == x, 'the same value')
    return unit


RAW = [B.RAW + ':' + x for x in ('_serialize_container', '_serialize_annotation_wrapper', '_write_length', '_raw_writer_coroutine')]
TREE = [BUF + ':BufferTree.' + x for x in ('start_container', 'end_container', 'add_scalar_value', 'drain')]
UNITS = []


def add(name, fn, of=RAW + TREE, loops=B.LOOPS, **kw):
    UNITS.append(Unit('C04.' + name, fn, contracts=B.CONTRACTS, loops=loops, of=of, **kw))


for _a in ('LIST', 'SEXP', 'STRUCT'):
    for _b in ('LIST', 'SEXP', 'STRUCT'):
        add('nested[%s in %s]' % (_b.lower(), _a.lower()), nested(_a, _b))
add('scalars', annotated_scalar)
add('annotations, any number', wrapper_any_number, loops=[Annotations], of=RAW[1:2])
add('add_leaf', add_leaf, of=[BUF + ':_Node.add_leaf'], loops=[Leftmost])
add('drain', drain_order, of=TREE[3:])
add('tree protocol', tree_refuses, of=TREE)
add('step', step, of=RAW)
for _s in ('struct', 'annotated list', 'annotated struct', 'list', 'int', 'deep'):
    add('read back[%s]' % _s, read_back(_s), of=RAW + [B.READER + ':' + x for x in (
        '_container_start_handler', '_annotation_handler', '_container_handler', '_read_data_handler', '_start_type_handler')], seconds=300)
ASSUMPTIONS = ['Python lists and generators behave as documented (append, pop, recursion of the traversal)']
