"""Which variables a suspended generator can still read: backward liveness over the bytecode of its original source."""
import dis
import types

_codes, _live = {}, {}


def _originals(filename):
    """{(qualified path of names, first line): code object} of a source file, compiled as it is."""
    if filename not in _codes:
        out = {}
        try:
            with open(filename, 'rb') as f:
                top = compile(f.read(), filename, 'exec', dont_inherit=True)
        except (OSError, SyntaxError):
            top = None

        def walk(co):
            out.setdefault((co.co_name, co.co_firstlineno), []).append(co)
            for k in co.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
        if top is not None:
            walk(top)
        _codes[filename] = out
    return _codes[filename]


def _yields(co):
    """[(offset, line)] of the points where a generator is suspended."""
    out, line = [], None
    for i in dis.get_instructions(co):
        if i.starts_line is not None:
            line = i.starts_line
        if i.opname in ('YIELD_VALUE', 'YIELD_FROM'):
            out.append((i.offset, line))
    return out


def live(gen):
    """Names live where the generator is suspended; None when that cannot be told (then all are)."""
    co, at = gen.gi_code, gen.gi_frame.f_lasti
    key = (co, at)
    if key not in _live:
        _live[key] = _compute(co, at)
    return _live[key]


def _compute(co, at):
    line = dict(_yields(co)).get(at)
    if line is None:
        return None
    same = _originals(co.co_filename).get((co.co_name, co.co_firstlineno), ())
    if len(same) != 1:
        return None
    ys = [o for o, l in _yields(same[0]) if l == line]
    sets = [_after(same[0], o) for o in ys]
    if not sets or None in sets:
        return None
    return frozenset().union(*sets)


_STOP = ('RETURN_VALUE', 'RAISE_VARARGS', 'RERAISE')
_JUMP = ('JUMP_FORWARD', 'JUMP_ABSOLUTE', 'BREAK_LOOP', 'CONTINUE_LOOP')


def _after(co, offset):
    ins = list(dis.get_instructions(co))
    index = dict((i.offset, k) for k, i in enumerate(ins))
    if any(i.opname in ('BREAK_LOOP', 'CONTINUE_LOOP', 'END_FINALLY', 'CALL_FINALLY') for i in ins):
        return None
    succ, use, kill, handlers = [], [], [], []
    for k, i in enumerate(ins):
        s = []
        if i.opname not in _STOP and i.opname not in _JUMP and k + 1 < len(ins):
            s.append(k + 1)
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            s.append(index[i.argval])
            if i.opname.startswith('SETUP_'):
                handlers.append(index[i.argval])
        succ.append(s)
        u, d = None, None
        if i.opname in ('LOAD_FAST', 'LOAD_DEREF', 'LOAD_CLOSURE', 'LOAD_CLASSDEREF', 'DELETE_FAST', 'DELETE_DEREF'):
            u = i.argval
        elif i.opname in ('STORE_FAST', 'STORE_DEREF'):
            d = i.argval
        use.append(u)
        kill.append(d)
    n = len(ins)
    state = [frozenset()] * n
    changed = True
    while changed:
        changed = False
        at_handler = frozenset().union(*[state[h] for h in handlers]) if handlers else frozenset()
        for k in range(n - 1, -1, -1):
            s = at_handler.union(*[state[j] for j in succ[k]])
            if kill[k] is not None:
                s = (s - {kill[k]}) | at_handler
            if use[k] is not None:
                s = s | {use[k]}
            if s != state[k]:
                state[k] = s
                changed = True
    k = index[offset]
    return frozenset(state[k + 1]) | frozenset(co.co_freevars) if k + 1 < n else frozenset(co.co_freevars)
