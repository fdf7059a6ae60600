from decimal import Decimal
from datetime import datetime
from . import spec, gen, lib
from .spec import V
from amazon.ion.core import IonEvent, IonEventType as T, IonType, DataEvent
from amazon.ion.reader import ReadEventType, read_data_event, NEXT_EVENT, SKIP_EVENT
from amazon.ion.symbols import SymbolToken
from amazon.ion.writer import WriteEventType

VALUES = {IonType.NULL: [None], IonType.BOOL: [True, False], IonType.INT: [0, -5, 1 << 70], IonType.FLOAT: [1.5, float('nan')],
          IonType.DECIMAL: [Decimal('1.5'), Decimal('-0')], IonType.TIMESTAMP: [datetime(2000, 1, 1)],
          IonType.SYMBOL: ['a', SymbolToken('b', None)], IonType.STRING: ['a', ''], IonType.CLOB: [b'a', b''],
          IonType.BLOB: [b'b', bytearray(b'c')]}
CONTAINERS = [IonType.LIST, IonType.SEXP, IonType.STRUCT]
OTHER = [object(), [1], {}, {'a': 1}, (1,), 1.5, Decimal(1), 'x', b'x', 7, datetime(2000, 1, 1), SymbolToken('a', None), 1j, range(2)]


def wrong(rng, t):
    """A value that is not of Ion type t."""
    ok = {IonType.NULL: (), IonType.BOOL: int, IonType.INT: int, IonType.FLOAT: float, IonType.DECIMAL: Decimal,
          IonType.TIMESTAMP: datetime, IonType.SYMBOL: (str, SymbolToken), IonType.STRING: str,
          IonType.CLOB: (bytes, bytearray), IonType.BLOB: (bytes, bytearray), IonType.LIST: (), IonType.SEXP: (),
          IonType.STRUCT: ()}[t]
    return rng.choice([x for x in OTHER if not isinstance(x, ok)])


def writer(r, rng):
    binary = rng.random() < .5
    w = lib.binary_writer() if binary else lib.text_writer(indent=rng.choice([None, None, '', ' ']))
    stack, log, out, written = [], [], b'', []
    model = [[]]
    has_values = False

    def name():
        return SymbolToken(rng.choice(['f', 'g']), None) if stack and stack[-1] is IonType.STRUCT else None

    for _ in range(rng.randrange(1, 25)):
        k = rng.random()
        bad = False
        ann = tuple(SymbolToken('n', None) for _ in range(rng.choice([0, 0, 0, 1])))
        if k < .45:
            t = rng.choice(list(VALUES))
            e = IonEvent(T.SCALAR, t, rng.choice(VALUES[t]), name(), ann)
        elif k < .65 and len(stack) < 4:
            e = IonEvent(T.CONTAINER_START, rng.choice(CONTAINERS), None, name(), ann)
        elif k < .85:
            e = IonEvent(T.CONTAINER_END)
            bad = not stack
        elif k < .9:
            e = lib.ION_STREAM_END_EVENT
            bad = bool(stack)
        elif k < .93:
            e = lib.ION_VERSION_MARKER_EVENT
            bad = bool(stack) or (binary and has_values)
        elif k < .96:
            t = rng.choice(list(VALUES) + CONTAINERS)
            e = IonEvent(T.SCALAR, t, wrong(rng, t), name(), ann)
            bad = True
        elif k < .98:
            e = IonEvent(T.CONTAINER_START, rng.choice(list(VALUES)), None, name(), ann)
            bad = True
        else:
            e = rng.choice([None, IonEvent(T.INCOMPLETE)])
            bad = True
        log.append(e)
        got = b''
        try:
            res = w.send(e)
            got += res.data or b''
            while res.type is WriteEventType.HAS_PENDING:
                if rng.random() < .04:
                    # input is not accepted while output is pending
                    log.append('while pending')
                    try:
                        w.send(IonEvent(T.SCALAR, IonType.INT, 1, name()))
                        r.fail('pending', 'accepted an event while output was pending', log=log, binary=binary)
                    except TypeError:
                        pass
                    return
                res = w.send(None)
                got += res.data or b''
            err = None
        except lib.ERRORS as x:
            err = x
        r.count('writer rejects' if bad else 'writer accepts')
        if bad != (err is not None):
            r.fail('writer', '%s' % ('accepted' if bad else 'rejected with %r' % err), event=e, depth=len(stack), log=log, binary=binary)
        if bad:
            return
        out += got
        if e.event_type is T.SCALAR:
            has_values = True
        elif e.event_type is T.CONTAINER_START:
            has_values = True
            stack.append(e.ion_type)
        elif e.event_type is T.CONTAINER_END:
            stack.pop()
        elif e.event_type is T.STREAM_END:
            has_values = False
            if res.type is not WriteEventType.COMPLETE:
                r.fail('writer', 'stream end not complete', log=log, binary=binary)
        want = WriteEventType.NEEDS_INPUT if stack else WriteEventType.COMPLETE
        if not binary and res.type is not want:
            r.fail('writer', 'reported %r at depth %d' % (res.type, len(stack)), log=log)
    r.count('writer history', repr(log))


def reader(r, rng):
    vs = gen.stream(rng, n=rng.choice([1, 2]), depth=2, budget=[8])
    k = rng.randrange(3)
    if k == 0:
        data, rd = spec.encode_binary(vs, rng), lib.binary_reader()
    else:
        s = spec.Writer(rng).stream(vs)
        data, rd = (s, lib.text_reader(is_unicode=True)) if k == 1 else (s.encode('utf-8'), lib.text_reader())
    if rng.random() < .4:
        rd = lib.managed_reader(rd)
    text = k != 0
    log = [NEXT_EVENT]
    if rng.random() < .05:
        for first in (SKIP_EVENT, read_data_event(data), None):
            pass
        first = rng.choice([SKIP_EVENT, read_data_event(data)])
        try:
            rd.send(first)
            r.fail('reader', 'started with %r' % (first,))
        except TypeError:
            r.count('reader start')
        return
    e = rd.send(NEXT_EVENT)
    i, depth = 0, 0
    while True:
        signal = e.event_type in (T.INCOMPLETE, T.STREAM_END)
        if e.event_type is T.CONTAINER_START:
            depth += 1
        elif e.event_type is T.CONTAINER_END:
            depth -= 1
        bad = None
        if rng.random() < .15:
            if signal:
                opts = [read_data_event(data[:0]), SKIP_EVENT]
                if e.event_type is T.STREAM_END or not text:
                    opts.append(NEXT_EVENT)
            else:
                opts = [read_data_event(data[:1]), read_data_event(data[:0])]
                if depth == 0:
                    opts.append(SKIP_EVENT)
            bad = rng.choice(opts)
            try:
                x = rd.send(bad)
                r.fail('reader', 'accepted %r after %r' % (bad, e), data=data, fed=i, depth=depth)
            except (TypeError, ValueError):
                r.count('reader rejects', (data, i, repr(bad)))
            return
        if signal:
            if i >= len(data):
                break
            n = rng.choice([1, 2, 7, len(data)])
            e = rd.send(read_data_event(data[i:i + n]))
            i += n
        else:
            e = rd.send(NEXT_EVENT)
    r.count('reader history', data)


def run(r):
    r.bound = 'histories of up to 25 writer events and depth 4; reader histories of up to a few hundred steps; sampled'
    r.rule = 'random event histories with a violation at a random point, against the protocol automaton; distinct by history'
    for i in r.loop(r.scale(30000)):
        writer(r, r.rng)
        if i % 3 == 0:
            reader(r, r.rng)
    r.sample(values=sorted(t.name for t in VALUES))
