"""Drives the real readers with symbolic input."""
from pyvc.contract import resolve

CORE = 'amazon.ion.core'


def events(make, chunks, close=True, limit=40, until=None):
    """All events a reader reports for the chunks, up to the end of the stream (or of what is complete)."""
    from amazon.ion.core import IonEventType
    from amazon.ion.reader import NEXT_EVENT, read_data_event
    r = make()
    chunks = list(chunks)
    out, ev, flushed = [], r.send(NEXT_EVENT), False
    while len(out) < limit:
        t = ev.event_type
        if t is IonEventType.STREAM_END or t is IonEventType.INCOMPLETE:
            if chunks:
                ev = r.send(read_data_event(chunks.pop(0)))
                continue
            if t is IonEventType.STREAM_END or not close or flushed:
                return out, t is IonEventType.STREAM_END
            flushed = True
            ev = r.send(NEXT_EVENT)
            continue
        out.append(ev)
        if until is not None and until(ev):
            break
        ev = r.send(NEXT_EVENT)
    return out, False


def text_reader(unicode_input):
    return lambda: resolve('amazon.ion.reader_text:reader')(is_unicode=unicode_input)


# ---------------------------------------------------------------------------------------------------------------
# loop invariants of the handlers that collect digits

from pyvc import proxies as P
from pyvc import terms as T
from pyvc.rt import LoopSpec

R = 'amazon.ion.reader_text'


class Scan(LoopSpec):
    """A handler inside a digit string of any length: everything read of it so far has been appended to the token, in
    order, and nothing else has changed."""
    digits_appended = True

    def q(self, name):
        return getattr(self.queue, '_BufferQueue__' + name)

    def setq(self, name, v):
        setattr(self.queue, '_BufferQueue__' + name, v)

    def at(self, S):
        """(view, index) of the current character in a digit string; None outside of one."""
        from pyvc import digits
        c = P.ctx()
        self.queue = S.ctx.queue
        segs = self.q('segments')
        if not segs or not P.is_sym(segs[0]) or not P.is_sym(S.c):
            return None
        p = T.sub(P.term(self.q('offset')), T.const(1))
        if not c.valid(T.le(T.const(0), p)):
            return None
        start = T.const(0)
        for piece in segs[0].pieces:
            end = T.add(start, piece.len if isinstance(piece, P.View) else T.const(1))
            if isinstance(piece, P.View) and digits.is_digits(piece.arr):
                inside = T.and_(T.le(start, p), T.lt(p, end))
                if inside.val if T.is_const(inside) else c.decide(inside):
                    i = T.sub(p, start)
                    if c.select(piece.arr, T.add(piece.off, i)) is not P.term(S.c):
                        return None
                    return piece, i, start
            elif isinstance(piece, P.Blob):
                return None
            start = end
        return None

    def phase(self, c, S):
        from pyvc import digits
        a = self.at(S)
        if a is None:
            return False
        if 'prev' in S.__dict__ and not self.is_digit(c, S.prev, digits.is_digits(a[0].arr)):
            return False
        if not self.is_digit_local(c, S):
            return False
        self.view, self.i, self.start = a
        return True

    def is_digit_local(self, c, S):
        return True

    def is_digit(self, c, x, base):
        from pyvc import digits
        return P.intlike(x) and c.valid(digits.digit_in(P.term(x), base))

    def setup(self, c, S):
        self.val = S.val
        self.val0 = list(S.val.pieces)
        self.i0 = self.i
        self.seg = self.q('segments')[0]
        self.size0, self.pos0 = P.term(self.q('size')), P.term(self.queue.position)
        self.ctx = S.ctx
        self.writes = [self.val, self.queue, self.ctx, self.q('segments')]
        self.nseg = len(self.q('segments'))
        self.keep = dict((k, S.__dict__[k]) for k in self.modified if k in S.__dict__ and k not in ('c', 'prev', 'self', '_'))
        self.attrs = dict((k, v) for k, v in vars(S.ctx).items()) if hasattr(S.ctx, '__dict__') else {}

    def havoc(self, c, S):
        from pyvc import digits
        i = self.i = c.fresh('at')
        v = self.view
        c.assume(T.and_(T.le(self.i0, i), T.lt(i, v.len)))
        d = T.sub(i, self.i0)
        self.setq('offset', P.mkint(T.add(self.start, T.add(i, T.const(1)))))
        self.setq('size', P.mkint(T.sub(self.size0, d)))
        self.queue.position = P.mkint(T.add(self.pos0, d))
        self.val.pieces = self.val0 + [P.View(v.arr, T.add(v.off, self.i0), d)]
        S.c = P.mkint(c.select(v.arr, T.add(v.off, i)))
        if 'prev' in self.modified:
            pv = c.fresh('prev')
            c.assume(digits.digit_in(pv, digits.is_digits(v.arr)))
            S.prev = P.mkint(pv)
        for k, x in self.keep.items():
            setattr(S, k, x)

    def inv(self, c, S):
        from pyvc import digits
        v, i = self.view, self.i
        d = T.sub(i, self.i0)
        yield 'within the digits', T.and_(T.le(self.i0, i), T.lt(i, v.len))
        segs = self.q('segments')
        yield 'same input', T.const(len(segs) == self.nseg > 0 and segs[0] is self.seg)
        yield 'size of the queue', T.eq(P.term(self.q('size')), T.sub(self.size0, d))
        yield 'position', T.eq(P.term(self.queue.position), T.add(self.pos0, d))
        want = digits.merge(self.val0 + [P.View(v.arr, T.add(v.off, self.i0), d)])
        yield 'the token is what was read', equal(digits.merge(self.val.pieces), want)
        for k, x in self.keep.items():
            y = S.__dict__.get(k)
            yield k + ' is unchanged', T.const(y is x or type(y) is type(x) and not P.is_sym(y) and y == x)


def equal(a, b):
    """Equality of two merged ropes."""
    c = P.ctx()
    if len(a) == len(b):
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, P.View) and isinstance(y, P.View) and x.arr is y.arr:
                conds += [T.eq(x.off, y.off), T.eq(x.len, y.len)]
            elif isinstance(x, P.Elem) and isinstance(y, P.Elem):
                conds.append(T.eq(x.t, y.t))
            else:
                break
        else:
            return T.and_(*conds)
    return P.seq_eq(a, b)


class ScanInt(Scan):
    key = R + '._number_or_timestamp_handler#0'


class ScanNumeric(Scan):
    key = R + '._numeric_handler_factory.numeric_handler#0'


class ScanTimestamp(Scan):
    """The fraction of a timestamp."""
    key = R + '._timestamp_handler#0'


class ScanBlob(Scan):
    """Inside base-64 digits: they are appended to the token and counted."""
    key = R + '._lob_end_handler_factory.lob_end_handler#0'

    def setup(self, c, S):
        Scan.setup(self, c, S)
        r = self.keep.pop('action_res')
        self.n0, self.p0 = P.term(r[0]), r[1]

    def havoc(self, c, S):
        Scan.havoc(self, c, S)
        S.action_res = (P.mkint(T.add(self.n0, T.sub(self.i, self.i0))), self.p0)

    def inv(self, c, S):
        for x in Scan.inv(self, c, S):
            yield x
        r = S.action_res
        yield 'digits counted', T.eq(P.term(r[0]), T.add(self.n0, T.sub(self.i, self.i0)))
        yield 'no pad yet', T.const(r[1] == self.p0)


SCANS = [ScanInt, ScanNumeric, ScanTimestamp]
