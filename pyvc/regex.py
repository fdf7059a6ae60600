"""Symbolic text decided by the SMT theory of strings: the regular expressions the code under verification compiles are
translated from their live pattern, so what is decided is what the code matches."""
import re
import subprocess
import tempfile
import os
import time

try:
    import sre_parse
except ImportError:                     # pragma: no cover
    from re import _parser as sre_parse

from . import terms as T
from . import proxies as P
from . import rt
from . import solver
from .engine import ctx, Unsupported

ANY = '(re.all)'
CHAR = 're.allchar'
EMPTY = '(str.to_re "")'


def quote(s):
    return '"%s"' % ''.join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else '\\u{%x}' % ord(ch) for ch in s)


def lit(s):
    return '(str.to_re %s)' % quote(s)


def _cat(xs):
    return xs[0] if len(xs) == 1 else '(re.++ %s)' % ' '.join(xs) if xs else EMPTY


def _alt(xs):
    return xs[0] if len(xs) == 1 else '(re.union %s)' % ' '.join(xs) if xs else 're.none'


def _set(items):
    out, neg = [], False
    for op, av in items:
        n = repr(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            out.append(lit(chr(av)))
        elif n == 'RANGE':
            out.append('(re.range %s %s)' % (quote(chr(av[0])), quote(chr(av[1]))))
        else:
            raise Unsupported('character class %s in a regular expression' % n)
    r = _alt(out)
    return '(re.diff %s %s)' % (CHAR, r) if neg else r


def _seq(tree):
    out = []
    for op, av in tree:
        n = repr(op)
        if n == 'LITERAL':
            out.append(lit(chr(av)))
        elif n == 'NOT_LITERAL':
            out.append('(re.diff %s %s)' % (CHAR, lit(chr(av))))
        elif n == 'IN':
            out.append(_set(av))
        elif n == 'SUBPATTERN':
            out.append(_seq(av[-1]))
        elif n == 'BRANCH':
            out.append(_alt([_seq(b) for b in av[1]]))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, x = av
            r = _seq(x)
            if hi == sre_parse.MAXREPEAT:
                out.append(_cat([r] * lo + ['(re.* %s)' % r]))
            else:
                out.append('((_ re.loop %d %d) %s)' % (lo, hi, r))
        else:
            raise Unsupported('%s in a regular expression' % n)
    return _cat(out)


def language(pattern, how):
    """The language of the strings in which the compiled pattern is found."""
    if pattern.flags & ~(re.UNICODE | re.ASCII):
        raise Unsupported('flags of a regular expression')
    tree = list(sre_parse.parse(pattern.pattern))
    start, end = how in ('match', 'fullmatch'), how == 'fullmatch'
    if tree and repr(tree[0][0]) == 'AT' and repr(tree[0][1]) in ('AT_BEGINNING_STRING', 'AT_BEGINNING'):
        start, tree = True, tree[1:]
    tail = ANY
    if tree and repr(tree[-1][0]) == 'AT':
        at = repr(tree[-1][1])
        if at == 'AT_END_STRING':
            tail = EMPTY
        elif at == 'AT_END':
            tail = EMPTY if end else _alt([EMPTY, lit('\n')])
        else:
            raise Unsupported('%s in a regular expression' % at)
        tree = tree[:-1]
    if end:
        tail = EMPTY
    return _cat(([] if start else [ANY]) + [_seq(tree), tail])


class Str(P.Sym):
    """An arbitrary text."""
    _vc_class = str

    def __init__(self, name):
        self.name = name
        self.facts = []          # (Boolean term, SMT formula it stands for)

    @property
    def __class__(self):
        return str

    def ask(self, formula):
        c = ctx()
        b = c.fresh('lit', T.BOOL)
        self.facts.append((b, formula))
        return c.decide(b)

    def vc_in(self, b):
        return self.ask('(or false %s)' % ' '.join('(= s %s)' % quote(x) for x in b if isinstance(x, str)))

    def __eq__(self, o):
        if isinstance(o, str) and not P.is_sym(o):
            return self.ask('(= s %s)' % quote(o))
        self._no('comparison')

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = P.Sym.__hash__

    def __bool__(self):
        return self.ask('(not (= s ""))')

    def search(self, pattern, how):
        return self.ask('(str.in_re s %s)' % language(pattern, how))

    def prove(self, formula, name):
        """The path's facts imply the formula; a counterexample is bound to the inputs name_len, name_0, ..."""
        c = ctx()
        if c.replaying:
            return
        facts = []
        for b, f in self.facts:
            k = c.known(b)
            if k is not None:
                facts.append(f if k else '(not %s)' % f)
        r, w, by = query(facts + ['(not %s)' % formula])
        ob = c.result.obligation(name, 'post')
        if r == 'unsat':
            ob.discharged += 1
            ob.by[by] = ob.by.get(by, 0) + 1
        elif r == 'sat':
            ob.failed.append((c.describe() + ' for %r' % w, {self.name: ['text', w]}))
        else:
            ob.undecided.append('no answer on a string query')


def query(formulas):
    text = '(set-logic ALL)\n(declare-const s String)\n%s\n(check-sat)\n(get-value (s))\n' % '\n'.join(
        '(assert %s)' % f for f in formulas)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    try:
        for name, cmd in (('z3-new', ['z3-new', '-T:20', path]), ('cvc5', ['cvc5', '--strings-exp', '--produce-models',
                                                                          '--tlimit=20000', path])):
            t0 = time.time()
            solver.STATS.queries += 1
            try:
                out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=25).stdout.decode()
            except subprocess.TimeoutExpired:
                out = ''
            solver.STATS.time += time.time() - t0
            r = out.split('\n')[0].strip()
            if r == 'unsat':
                return 'unsat', None, name
            if r == 'sat':
                m = re.search(r'\(\(s "(.*)"\)\)', out, re.S)
                w = m.group(1).replace('""', '"') if m else ''
                w = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), w)
                return 'sat', w, name
        return 'unknown', None, None
    finally:
        os.unlink(path)


class _Match(object):
    pass


def _pattern(how):
    def m(owner, s, *rest):
        if type(s) is not Str or rest:
            return NotImplemented
        return _Match() if s.search(owner, how) else None
    return m


for _how in ('search', 'match', 'fullmatch'):
    rt.NATIVE_METHODS[(re.Pattern, _how)] = _pattern(_how)
