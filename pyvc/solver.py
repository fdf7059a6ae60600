"""SMT back ends: an incremental z3 process, with one-shot z3-new / cvc5 as fallbacks for `unknown`."""
import os
import re
import subprocess
import tempfile
import time

from . import terms as T

Z3 = os.environ.get('PYVC_Z3', 'z3-new')
Z3_OLD = 'z3'


class SolverDied(BaseException):
    pass


def sexpr(text):
    toks = re.findall(r'\(|\)|\|[^|]*\||"[^"]*"|[^\s()]+', text)
    stack = [[]]
    for t in toks:
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0]


def intval(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == '-':
            return -intval(x[1])
        raise ValueError(x)
    if x == 'true':
        return True
    if x == 'false':
        return False
    return int(x)


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()


class Solver(object):
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.proc = None
        self._start()

    def _start(self):
        self.proc = subprocess.Popen([Z3, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT)
        self.stack = []       # asserted terms, one push level each
        self.declared = {}    # name -> level declared (0 = base)
        self._send('(set-option :timeout %d)(set-option :global-declarations true)' % self.timeout)

    def close(self):
        if self.proc:
            try:
                self.proc.kill()
                self.proc.wait()
                self.proc.stdin.close()
                self.proc.stdout.close()
            except Exception:
                pass
            self.proc = None

    def _send(self, s):
        try:
            self.proc.stdin.write(s.encode() + b'\n')
            self.proc.stdin.flush()
        except (OSError, IOError):
            raise SolverDied()

    def _recv(self):
        line = self.proc.stdout.readline()
        if not line:
            raise SolverDied()
        return line.decode().strip()

    def _declare(self, terms, out):
        vs, fs = T.symbols(terms)
        for n, s in vs.items():
            if n not in self.declared:
                self.declared[n] = 1
                out.append('(declare-const |%s| %s)' % (n, s))
        for n, (a, s) in fs.items():
            if n not in self.declared:
                self.declared[n] = 1
                out.append('(declare-fun |%s| (%s) %s)' % (n, ' '.join(a), s))

    def sync(self, assumptions):
        n = 0
        m = min(len(self.stack), len(assumptions))
        while n < m and self.stack[n] is assumptions[n]:
            n += 1
        out = []
        if len(self.stack) > n:
            out.append('(pop %d)' % (len(self.stack) - n))
            del self.stack[n:]
        new = assumptions[n:]
        if new:
            self._declare(new, out)
            for t in new:
                out.append('(push 1)(assert %s)' % T.to_smt(t))
                self.stack.append(t)
        if out:
            self._send('\n'.join(out))

    def check(self, assumptions, extra=None, want=None, declare=()):
        """Returns ('sat'|'unsat'|'unknown', result of ``want(eval)`` on a model or None, backend).

        ``eval`` maps a list of terms to their integer/boolean values in the model.
        """
        t0 = time.time()
        STATS.queries += 1
        try:
            self.sync(assumptions)
            out = []
            if extra is not None or declare:
                self._declare(([extra] if extra is not None else []) + list(declare), out)
            out.append('(push 1)')
            if extra is not None:
                out.append('(assert %s)' % T.to_smt(extra))
            out.append('(check-sat)')
            self._send('\n'.join(out))
            r = self._recv()
            while r.startswith('(error') or r not in ('sat', 'unsat', 'unknown', 'timeout'):
                raise RuntimeError('solver said: ' + r)
            vals = None
            if r == 'timeout':
                r = 'unknown'
            if r == 'sat' and want is not None:
                vals = want(self._values)
            self._send('(pop 1)')
            return r, vals, Z3
        except SolverDied:
            self.close()
            self._start()
            return 'unknown', None, Z3
        finally:
            STATS.time += time.time() - t0

    def _values(self, want):
        if not want:
            return []
        out = []
        self._declare(want, out)
        self._send('\n'.join(out))
        self._send('(get-value (%s))\n(echo "done")' % ' '.join(T.to_smt(t) for t in want))
        lines = []
        while True:
            l = self._recv()
            if l in ('done', '"done"'):
                break
            lines.append(l)
        s = sexpr('\n'.join(lines))
        res = []
        for (name_val) in s[0]:
            res.append(intval(name_val[-1]))
        return res


def smt2(assumptions, extra, want=(), logic=None):
    terms = list(assumptions) + ([extra] if extra is not None else [])
    vs, fs = T.symbols(terms + list(want))
    out = []
    out.append('(set-logic ALL)')
    for n, s in sorted(vs.items()):
        out.append('(declare-const |%s| %s)' % (n, s))
    for n, (a, s) in sorted(fs.items()):
        out.append('(declare-fun |%s| (%s) %s)' % (n, ' '.join(a), s))
    for t in terms:
        out.append('(assert %s)' % T.to_smt(t))
    out.append('(check-sat)')
    return '\n'.join(out) + '\n'


FALLBACKS = [
    ('z3', ['z3', '-smt2', '-T:{s}']),
    ('cvc5', ['cvc5', '--lang=smt2', '--tlimit={ms}', '--arrays-exp']),
    ('z3-new', ['z3-new', '-smt2', '-T:{s}']),
]


def oneshot(assumptions, extra, seconds=15, backends=None):
    """Tries the fallback solvers on a standalone query. Returns (result, backend)."""
    text = smt2(assumptions, extra)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    try:
        for name, cmd in FALLBACKS:
            if backends and name not in backends:
                continue
            t0 = time.time()
            STATS.queries += 1
            try:
                c = [x.format(s=seconds, ms=seconds * 1000) for x in cmd] + [path]
                p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=seconds + 5)
                r = p.stdout.decode().split('\n')[0].strip()
            except subprocess.TimeoutExpired:
                r = 'unknown'
            finally:
                STATS.time += time.time() - t0
            if r in ('sat', 'unsat'):
                return r, name
        return 'unknown', None
    finally:
        os.unlink(path)
