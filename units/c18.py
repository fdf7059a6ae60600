"""C18: text quoting and escaping never change a symbol or string."""
from pyvc import terms as T
from pyvc import proxies as P
from pyvc.contract import Unit, resolve

C = T.const
W = 'amazon.ion.writer_text'
R = 'amazon.ion.reader_text'


def octets(x):
    """The octets of a (symbolic) byte string of known length, as integers."""
    if isinstance(x, bytes) and not P.is_sym(x):
        return list(bytearray(x))
    return [x.vc_getitem(i) for i in range(x.vc_len())]


def code_point(c, top=0x10ffff):
    cp = c.int('code_point', 0, top)
    if top > 0xff:
        c.require(T.or_(T.lt(P.term(cp), C(0xd800)), T.lt(C(0xdfff), P.term(cp))))
    return cp


def written(quote, top=0x10ffff, prefix=b'', suffix=b''):
    """What is written for one code point is printable ASCII between the quotes."""
    def unit(c):
        cp = code_point(c, top)
        out = octets(resolve(W + ':_bytes_text')([cp], quote, prefix, suffix))
        head, tail = list(bytearray(prefix + quote)), list(bytearray(quote + suffix))
        c.prove(len(out) >= len(head) + 1 + len(tail), 'at least one octet per character')
        for got, want in zip(out[:len(head)], head):
            c.prove(got == want, 'the opening quote is written first')
        for got, want in zip(out[-len(tail):], tail):
            c.prove(got == want, 'the closing quote is written last')
        for o in out:
            c.prove(T.and_(T.le(C(0x20), P.term(o)), T.le(P.term(o), C(0x7e))), 'only printable ASCII is written')
    return unit


UNITS = [
    Unit('one character in a string', written(b'"'), of=[W + ':_bytes_text', W + ':_escape']),
    Unit('one character in a quoted symbol', written(b"'"), of=[W + ':_bytes_text', W + ':_escape']),
    Unit('one octet in a clob', written(b'"', 0xff, b'{{', b'}}'), of=[W + ':_bytes_text', W + ':_escape']),
]


from units.textio import events, text_reader


def cat(*parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + p
    return out


def as_text(x):
    """Octets that are all ASCII, as a str."""
    return x.decode('ascii')


CONTEXTS = {
    'string': (b'"', b'', b' '), 
    'symbol': (b"'", b'', b' '),
    'symbol in a list': (b"'", b'[', b']'),
    'symbol in an s-expression': (b"'", b'(', b' 1)'),
    'field name': (b"'", b'{', b':1}'),
    'annotation': (b"'", b'', b'::1 '),
    'string in a struct': (b'"', b'{a:', b'}'),
}


def same_character(c, text, cp, what):
    c.prove(isinstance(text, str), what + ' is text')
    c.prove((text.vc_len() if hasattr(type(text), 'vc_len') else len(text)) == 1, what + ' has one character')
    c.prove(text == chr_of(c, cp), what + ' is the character that was written')


def chr_of(c, cp):
    from pyvc import text
    return chr(cp) if c.concrete or not P.is_sym(cp) else text.VText([P.term(cp)])


def round_trip(context, unicode_input):
    quote, before, after = CONTEXTS[context]

    def unit(c):
        from amazon.ion.core import IonEventType, IonType
        cp = code_point(c)
        data = cat(before, resolve(W + ':_bytes_text')([cp], quote), after)
        evs, _ = events(text_reader(unicode_input), [as_text(data) if unicode_input else data])
        if before[:1] in b'[({' and before:
            c.prove(len(evs) >= 3 and evs[0].event_type is IonEventType.CONTAINER_START and
                    evs[-1].event_type is IonEventType.CONTAINER_END, 'the container is read')
            evs = evs[1:-1]
        c.prove(len(evs) == (2 if context == 'symbol in an s-expression' else 1), 'the values are read')
        e = evs[0]
        c.prove(e.event_type is IonEventType.SCALAR, 'a scalar is read')
        if context.startswith('string'):
            c.prove(e.ion_type is IonType.STRING, 'it is a string')
            text = e.value
        elif context == 'field name':
            text = e.field_name.text
        elif context == 'annotation':
            c.prove(len(e.annotations) == 1, 'it has one annotation')
            text = e.annotations[0].text
        else:
            c.prove(e.ion_type is IonType.SYMBOL, 'it is a symbol')
            text = e.value.text
        same_character(c, text, cp, 'the ' + context.split()[0])
    return unit


def clob_round_trip(unicode_input):
    def unit(c):
        from amazon.ion.core import IonEventType, IonType
        cp = code_point(c, 0xff)
        data = resolve(W + ':_bytes_text')([cp], b'"', b'{{', b'}}')
        evs, _ = events(text_reader(unicode_input), [as_text(data) if unicode_input else data])
        c.prove(len(evs) == 1 and evs[0].event_type is IonEventType.SCALAR and evs[0].ion_type is IonType.CLOB,
                'a clob is read')
        v = octets(evs[0].value)
        c.prove(len(v) == 1, 'it has one octet')
        c.prove(v[0] == cp, 'it is the octet that was written')
    return unit


for _k in CONTEXTS:
    for _u in (True, False):
        UNITS.append(Unit('%s read back from %s' % (_k, 'text' if _u else 'octets'), round_trip(_k, _u), of=[
            W + ':_bytes_text', W + ':_escape', R + ':_next_code_point_handler', R + ':_quoted_text_handler_factory']))
for _u in (True, False):
    UNITS.append(Unit('clob read back from %s' % ('text' if _u else 'octets'), clob_round_trip(_u), of=[
        W + ':_bytes_text', W + ':_escape', R + ':_next_code_point_handler', R + ':_quoted_text_handler_factory']))


# -- text of any length ---------------------------------------------------------------------------------------------
from pyvc import rt


class Written(rt.LoopSpec):
    """_bytes_text after i characters: the prefix, the quote, and one piece per character already written."""
    key = W + '._bytes_text#0'
    ghost = None

    def applies(self, c, S, it):
        return P.is_sym(it)

    def setup(self, c, S):
        self.buf = S.buf
        self.writes = [S.buf]

    def length(self, c):
        return self.iter.vc_len()

    def item(self, c, i):
        self.cp = self.iter.elem
        return self.cp

    def havoc(self, c, S):
        tok = c.fresh('written')
        ln = c.fresh('written_len')
        c.assume(T.le(C(0), ln))
        self.buf.write(P.VBytes([P.Blob(tok, ln)]))
        self.before = self.buf.getvalue()
        self.cp = None

    def inv_prove(self, c, S):
        if not hasattr(self, 'before'):
            c.ghost['head'] = self.buf.getvalue()
            return
        want = self.before + c.ghost['one'](self.cp)
        c.prove(self.buf.getvalue() == want, 'each character appends exactly what it is written as alone', 'invariant')

    def leave(self, c):
        c.ghost['all'] = self.before


def written_loop(quote, top, prefix, suffix):
    def unit(c):
        f = resolve(W + ':_bytes_text')
        cp = code_point(c, top)
        if c.concrete:
            n = c.int('n', 0, 40)
            cps = [(int(cp) * (k * k + 1)) % 0xd800 % (top + 1) for k in range(n)]
            parts = [f([x], quote) for x in cps]
            k = len(quote)
            c.prove(f(cps, quote, prefix, suffix) == prefix + quote + b''.join(p[k:len(p) - k] for p in parts) + quote + suffix,
                    'each character appends exactly what it is written as alone')
            return

        def one(x):
            out = octets(f([x], quote))
            k = len(quote)
            r = P.VBuf()
            for o in out[k:len(out) - k]:
                r.append(o)
            return P.VBytes(r.pieces)
        c.ghost['one'] = one
        out = f(P.AbstractSeq('text', cp), quote, prefix, suffix)
        c.prove(c.ghost['head'] == prefix + quote, 'the opening quote is written first')
        c.prove(out == c.ghost['all'] + quote + suffix, 'the closing quote is written last')
    return unit


for _n, _a in (('string', (b'"', 0x10ffff, b'', b'')), ('quoted symbol', (b"'", 0x10ffff, b'', b'::')),
               ('clob', (b'"', 0xff, b'{{', b'}}'))):
    UNITS.append(Unit('text of any length written as a ' + _n, written_loop(*_a), loops=[Written], of=[W + ':_bytes_text']))


class Reading(rt.LoopSpec):
    """A quoted token being read: its text so far is arbitrary; one more character appends exactly that character, and
    the bare closing quote ends it with exactly the text so far."""
    key = R + '._quoted_text_handler_factory.quoted_text_handler#0'

    def setup(self, c, S):
        self.val, self.c0 = S.val, S.c
        self.writes = [S.val, S.ctx, S.ctx.queue]
        self.ctx = S.ctx

    def text(self):
        v = self.val
        return v.as_text() if hasattr(v, 'as_text') else v

    def havoc(self, c, S):
        from pyvc import text
        tok = c.fresh('so_far')
        ln = c.fresh('so_far_len')
        c.assume(T.le(C(0), ln))
        v = self.val
        v.extend(text.VText([text.Run(tok, ln)]) if hasattr(v, 'as_text') else P.VBytes([P.Blob(tok, ln)]))
        self.before = self.text()
        self.ctx.set_code_point(rt.Poison('code_point'))
        S.done = False
        S.c = self.c0                    # the character the harness fed: any character there is
        S.trans = self.ctx.immediate_transition(S.self)
        c.ghost['before'] = self.before

    def inv(self, c, S):
        yield 'the token has not ended', S.done is False if type(S.done) is bool else S.done == False

    def inv_prove(self, c, S):
        if hasattr(self, 'before'):
            cp = c.ghost['cp']
            c.prove(self.text() == self.before + c.ghost['piece'](cp), 'one more character appends exactly that character', 'invariant')


class LobText(rt.LoopSpec):
    """The octets of a clob: one per character, in order."""
    key = R + '._parse_lob.parse#0'

    def applies(self, c, S, it):
        return P.is_sym(it) and not it.vc_finite()

    def setup(self, c, S):
        self.buf = S.byte_value
        self.writes = [self.buf]
        c.prove(self.iter == c.ghost['before'], 'the clob is decoded from its text')

    def length(self, c):
        return self.iter.vc_len()

    def item(self, c, i):
        self.cp = c.ghost['cp']
        return chr_of(c, self.cp)

    def havoc(self, c, S):
        c.prove(S.byte_value.vc_len() == 0, 'the clob starts empty', 'invariant')
        ln = c.fresh('n')
        c.assume(T.le(C(0), ln))
        self.buf.extend(P.VBytes([P.Blob(c.fresh('octets'), ln)]))
        self.before, self.cp = P.VBytes(self.buf.pieces), None

    def inv_prove(self, c, S):
        if hasattr(self, 'before'):
            c.prove(P.VBytes(self.buf.pieces) == self.before + P.VBytes([P.Elem(P.term(self.cp))]), 'one octet per character', 'invariant')

    def leave(self, c):
        c.ghost['octets'] = self.before


def read_loop(context, unicode_input, closing):
    quote, before, after = CONTEXTS[context] if context != 'clob' else (b'"', b'{{', b'}}')
    clob = context == 'clob'

    def unit(c):
        from amazon.ion.core import IonEventType, IonType
        cp = code_point(c, 0xff if clob else 0x10ffff)
        if c.concrete:
            return
        c.ghost['cp'] = cp
        c.ghost['piece'] = lambda x: chr_of(c, x)
        if closing:
            data = cat(before, quote, b'' if quote == b'"' else b'x', quote, after)
        else:
            data = cat(before, quote, b'' if quote == b'"' else b'x', octets_between(cp, quote), quote, after)
        evs, _ = events(text_reader(unicode_input), [as_text(data) if unicode_input else data], until=lambda e: e.event_type is IonEventType.SCALAR)
        if not closing:
            return
        evs = [e for e in evs if e.event_type is IonEventType.SCALAR]
        e = evs[0]
        want = c.ghost['before']
        if clob:
            c.prove(e.ion_type is IonType.CLOB, 'a clob is read')
            got = e.value
            want = c.ghost['octets']
        elif context.startswith('string'):
            c.prove(e.ion_type is IonType.STRING, 'it is a string')
            got = e.value
        elif context == 'field name':
            got = e.field_name.text
        elif context == 'annotation':
            got = e.annotations[0].text
        else:
            c.prove(e.ion_type is IonType.SYMBOL, 'it is a symbol')
            got = e.value.text
        c.prove(got == want, 'the closing quote ends the token with exactly the text so far')
    return unit


def octets_between(cp, quote):
    out = octets(resolve(W + ':_bytes_text')([cp], quote))
    r = P.VBuf()
    for o in out[1:-1]:
        r.append(o)
    return P.VBytes(r.pieces)


for _k in list(CONTEXTS) + ['clob']:
    for _cl in (False, True):
        UNITS.append(Unit('text of any length read as %s, %s' % (_k, 'its end' if _cl else 'one more character'),
                          read_loop(_k, _cl, _cl), loops=[Reading, LobText], of=[R + ':_quoted_text_handler_factory'], replay=False))


# -- every escape sequence the reader accepts ------------------------------------------------------------------------
COMMON = dict(zip(b'abtnfrv?0\'"/\\', b'\x07\x08\t\n\x0c\r\x0b?\x00\'"/\\'))     # Ion 1.0: text escapes
QUOTED = {'string': (b'"', b'"'), 'symbol': (b"'", b"' "), 'long string': (b"'''", b"''' "), 'clob': (b'{{"', b'"}}'),
          'long clob': (b"{{'''", b"'''}}")}


def of_octets(c, xs):
    if c.concrete:
        return bytes(bytearray(xs))
    b = P.VBuf()
    for x in xs:
        b.append(x)
    return P.VBytes(b.pieces)


def read_one(c, kind, body):
    """Text of the quoted token, or the exception."""
    before, after = QUOTED[kind]
    try:
        evs, _ = events(text_reader(False), [cat(before, body, after)])
    except Exception as e:
        return e
    v = evs[0].value
    v = v.text if kind == 'symbol' else v
    return v


def units_of(v):
    """The characters or octets, as integers."""
    if isinstance(v, str):
        return [ord_of(x) for x in v]
    return octets(v)


def ord_of(x):
    return x.vc_ord() if P.is_sym(x) else ord(x)


def is_hex(e):
    def rng(a, b):
        return T.and_(T.le(C(ord(a)), e), T.le(e, C(ord(b))))
    return T.or_(rng('0', '9'), rng('a', 'f'), rng('A', 'F'))


def hexval(e):
    return T.ite(T.le(e, C(ord('9'))), T.sub(e, C(48)), T.ite(T.le(e, C(ord('F'))), T.sub(e, C(55)), T.sub(e, C(87))))


def holds(c, cond):
    return cond.val if T.is_const(cond) else c.decide(cond)


def hex_escape(kind, letter, n):
    def unit(c):
        ds = [c.int('digit%d' % i, 0, 127) for i in range(n)]
        lob = kind.endswith('clob')
        v, ok = C(0), []
        for d in ds:
            ok.append(is_hex(P.term(d)))
            v = T.add(T.scale(v, 16), hexval(P.term(d)))
        legal = T.and_(T.and_(*ok), T.or_(T.lt(v, C(0xd800)), T.lt(C(0xdfff), v)), T.le(v, C(0x10ffff)))
        # A lone surrogate is no character; what reading one does is not specified.
        c.require(T.not_(T.and_(T.and_(*ok), T.le(C(0xd800), v), T.le(v, C(0xdfff)))))
        got = read_one(c, kind, cat(b'\\' + letter, of_octets(c, ds)))
        if lob and letter != b'x':
            c.prove(isinstance(got, Exception), 'clobs have no Unicode escapes')
            return
        if isinstance(got, Exception):
            c.prove(T.not_(legal), 'a legal escape is accepted')
            return
        c.prove(legal, 'an illegal escape is rejected')
        us = units_of(got)
        c.prove(len(us) == 1, 'it denotes one character')
        c.prove(T.eq(P.term(us[0]), v), 'it denotes the code point its digits spell')
    return unit


def common_escape(kind):
    def unit(c):
        e = c.int('letter', 0, 127)
        c.require(T.and_(*[T.not_(T.eq(P.term(e), C(ord(x)))) for x in 'xuU\r']))
        got = read_one(c, kind, cat(b'\\', of_octets(c, [e])))
        t = P.term(e)
        if isinstance(got, Exception):
            c.prove(T.and_(*[T.not_(T.eq(t, C(x))) for x in list(COMMON) + [10]]), 'the escapes of Ion 1.0 are accepted')
            return
        us = units_of(got)
        if len(us) == 0:
            c.prove(T.eq(t, C(10)), 'only an escaped newline denotes nothing')
            return
        c.prove(len(us) == 1, 'an escape denotes one character')
        want = C(-1)
        for k in COMMON:
            want = T.ite(T.eq(t, C(k)), C(COMMON[k]), want)
        c.prove(T.eq(P.term(us[0]), want), 'an escape denotes the character Ion 1.0 assigns to it')
    return unit


def surrogate_pair(kind):
    def unit(c):
        cp = c.int('code_point', 0x10000, 0x10ffff)
        hi = (cp - 0x10000) // 1024 + 0xd800
        lo = (cp - 0x10000) % 1024 + 0xdc00
        from pyvc import text
        fmt = (lambda x: b'\\u%04x' % x) if c.concrete else (lambda x: text.percent('\\u%04x', x).encode())
        got = read_one(c, kind, cat(fmt(hi), fmt(lo)))
        c.prove(not isinstance(got, Exception), 'a surrogate pair is accepted')
        us = units_of(got)
        c.prove(len(us) == 1, 'it denotes one character')
        c.prove(us[0] == cp, 'it denotes the code point of the pair')
    return unit


for _k in QUOTED:
    for _l, _n in ((b'x', 2), (b'u', 4), (b'U', 8)):
        UNITS.append(Unit('escape %s in a %s' % (_l.decode(), _k), hex_escape(_k, _l, _n), of=[R + ':_next_code_point_handler']))
    UNITS.append(Unit('other escapes in a %s' % _k, common_escape(_k), of=[R + ':_next_code_point_handler']))
    if 'clob' not in _k:
        UNITS.append(Unit('escaped surrogate pair in a %s' % _k, surrogate_pair(_k), of=[R + ':_next_code_point_handler']))


# -- characters that are not escaped ---------------------------------------------------------------------------------
def raw_octets(kind, n):
    """A character written as itself: its UTF-8 octets denote it; octets that are not UTF-8 are rejected."""
    def unit(c):
        xs = [c.int('octet%d' % i, 0, 255) for i in range(n)]
        ts = [P.term(x) for x in xs]

        def within(t, lo, hi):
            return T.and_(T.le(C(lo), t), T.le(t, C(hi)))
        lead = ts[0]
        lo, hi = {1: (0x80, 0xff), 2: (0xc2, 0xdf), 3: (0xe0, 0xef), 4: (0xf0, 0xf4)}[n]
        c.require(within(lead, lo, hi))
        v = T.sub(lead, C({1: 0, 2: 0xc0, 3: 0xe0, 4: 0xf0}[n]))
        if n == 1:
            c.require(T.not_(within(lead, 0xc2, 0xf4)))
        legal = T.eq(C(0), C(int(n == 1)))
        for t in ts[1:]:
            legal = T.and_(legal, within(t, 0x80, 0xbf))
            v = T.add(T.scale(v, 64), T.sub(t, C(0x80)))
        if n > 1:
            legal = T.and_(legal, T.le(C({2: 0x80, 3: 0x800, 4: 0x10000}[n]), v), T.le(v, C(0x10ffff)), T.not_(within(v, 0xd800, 0xdfff)))
        got = read_one(c, kind, of_octets(c, xs))
        if kind.endswith('clob'):
            c.prove(isinstance(got, Exception), 'clobs are ASCII')
            return
        if isinstance(got, Exception):
            c.prove(T.not_(legal), 'a character in UTF-8 is accepted')
            return
        c.prove(legal, 'octets that are not UTF-8 are rejected')
        us = units_of(got)
        c.prove(len(us) == 1, 'they denote one character')
        c.prove(T.eq(P.term(us[0]), v), 'they denote the character they encode')
    return unit


def raw_character(kind):
    """A character of Unicode input denotes itself."""
    def unit(c):
        cp = c.int('code_point', 0x80, 0x10ffff)
        c.require(T.or_(T.lt(P.term(cp), C(0xd800)), T.lt(C(0xdfff), P.term(cp))))
        before, after = [x.decode('ascii') for x in QUOTED[kind]]
        try:
            evs, _ = events(text_reader(True), [cat(before, chr_of(c, cp), after)])
        except Exception:
            c.prove(kind.endswith('clob'), 'the character is accepted')
            return
        c.prove(not kind.endswith('clob'), 'clobs are ASCII')
        v = evs[0].value
        same_character(c, v.text if kind == 'symbol' else v, cp, 'the ' + kind)
    return unit


for _k in QUOTED:
    for _n in (1, 2, 3, 4):
        UNITS.append(Unit('character of %d octets in a %s' % (_n, _k), raw_octets(_k, _n), of=[R + ':_next_code_point_handler']))
    UNITS.append(Unit('character of Unicode input in a %s' % _k, raw_character(_k), of=[R + ':_next_code_point_handler']))


# -- which symbols are written without quotes -------------------------------------------------------------------------
KEYWORDS = ('null', 'true', 'false', 'nan')


def unquoted(c):
    """Only text that Ion reads as that symbol is left unquoted: an identifier, not a keyword, not a symbol ID."""
    f = resolve(W + ':_symbol_needs_quotes')
    if c.concrete:
        import re
        s = c._get('text', lambda: ''.join(c.rng.choice('a$0_ \n1nul') for _ in range(c.rng.randrange(6))))
        s = s[1] if isinstance(s, list) else s
        if not f(s):
            c.prove(re.match(r'[a-zA-Z_$][a-zA-Z0-9_$]*\Z', s) is not None, 'only identifiers are left unquoted')
            c.prove(s not in KEYWORDS, 'keywords are quoted')
            c.prove(re.match(r'[$][0-9]+\Z', s) is None, 'text that looks like a symbol ID is quoted')
        return
    from pyvc import regex
    s = regex.Str('text')
    if f(s):
        return
    first = '(re.union (re.range "a" "z") (re.range "A" "Z") (str.to_re "_") (str.to_re "$"))'
    digit = '(re.range "0" "9")'
    s.prove('(str.in_re s (re.++ %s (re.* (re.union %s %s))))' % (first, first, digit), 'only identifiers are left unquoted')
    s.prove('(not (or %s))' % ' '.join('(= s "%s")' % k for k in KEYWORDS), 'keywords are quoted')
    s.prove('(not (str.in_re s (re.++ (str.to_re "$") (re.+ %s))))' % digit, 'text that looks like a symbol ID is quoted')


UNITS.append(Unit('text left unquoted', unquoted, of=[W + ':_symbol_needs_quotes']))


# -- reading unquoted symbols -----------------------------------------------------------------------------------------
def ident(t, first):
    def rng(a, b):
        return T.and_(T.le(C(ord(a)), t), T.le(t, C(ord(b))))
    return T.or_(rng('a', 'z'), rng('A', 'Z'), T.eq(t, C(ord('_'))), T.eq(t, C(ord('$'))),
                 T.FALSE if first else rng('0', '9'))


AFTER = {'value': (b'', b' '), 'value in a list': (b'[', b',1]'), 'last value in a list': (b'[', b']'),
         'value in an s-expression': (b'(', b')'), 'value before an operator': (b'(', b'+ )'),
         'value before a string': (b'(', b'"")'), 'field name': (b'{', b':1}'), 'annotation': (b'', b'::1 '),
         'spaced annotation': (b'', b' :: 1 ')}


def is_word(ts, w):
    return T.and_(*[T.eq(t, C(ord(x))) for t, x in zip(ts, w)]) if len(ts) == len(w) else T.FALSE


def identifier(where, n):
    before, after = AFTER[where]

    def unit(c):
        from amazon.ion.core import IonEventType, IonType
        cs = [c.int('char%d' % i, 0, 127) for i in range(n)]
        ts = [P.term(x) for x in cs]
        c.require(T.and_(*[ident(t, i == 0) for i, t in enumerate(ts)]))
        reserved = T.or_(*[is_word(ts, w) for w in KEYWORDS])
        sid = T.and_(T.eq(ts[0], C(36)), *[T.and_(T.le(C(48), t), T.le(t, C(57))) for t in ts[1:]]) if n > 1 else T.FALSE
        data = cat(before, of_octets(c, cs), after)
        try:
            evs, _ = events(text_reader(False), [data])
        except Exception as e:
            # Only a keyword can be out of place here; and a version marker that is not supported is an error.
            ivm = T.and_(*[T.eq(t, C(ord(x))) for t, x in zip(ts, '$ion_')]) if n > 6 and where == 'value' else T.FALSE
            c.prove(T.or_(reserved, ivm), 'an identifier is accepted')
            return
        evs = [e for e in evs if e.event_type is IonEventType.SCALAR]
        c.prove(len(evs) >= 1, 'a value is read')
        e = evs[0]
        if 'annotation' in where:
            c.prove(len(e.annotations) == 1, 'it has one annotation')
            token = e.annotations[0]
        elif where == 'field name':
            token = e.field_name
        else:
            if e.ion_type is not IonType.SYMBOL:
                c.prove(reserved, 'an identifier that is not a keyword is a symbol')
                return
            token = e.value
        c.prove(T.not_(reserved), 'a keyword is not a symbol')
        if token.text is None:
            c.prove(sid, 'only $digits is a symbol ID')
            v = C(0)
            for t in ts[1:]:
                v = T.add(T.scale(v, 10), T.sub(t, C(48)))
            c.prove(T.eq(P.term(token.sid), v), 'a symbol ID is the number its digits spell')
            return
        c.prove(T.not_(sid), '$digits is a symbol ID')
        us = units_of(token.text)
        c.prove(len(us) == n, 'the symbol has all the characters')
        for u, x in zip(us, cs):
            c.prove(u == x, 'the characters of the symbol are the ones written')
    return unit


for _k in AFTER:
    for _n in (1, 2, 3, 4, 5, 6):
        UNITS.append(Unit('identifier of %d characters as %s' % (_n, _k), identifier(_k, _n), of=[
            R + ':_symbol_or_keyword_handler', R + ':_unquoted_symbol_handler',
            R + ':_symbol_identifier_or_unquoted_symbol_handler'], note='bounded: identifiers of %d characters' % _n))


class ReadingIdentifier(Reading):
    """An unquoted symbol being read: an identifier character is appended; white space is not part of it; anything else
    ends it."""
    key = R + '._unquoted_symbol_handler#0'

    def havoc(self, c, S):
        Reading.havoc(self, c, S)
        self.spaced = c.decide(c.fresh('spaced', T.BOOL))
        p = c.fresh('prev')
        c.assume(space(p) if self.spaced else ident(p, False))
        S.prev = P.SymInt(p)

    def inv(self, c, S):
        p = P.term(S.prev)
        yield 'the last character belongs to the symbol or is white space', T.or_(ident(p, False), space(p))

    def inv_prove(self, c, S):
        if not hasattr(self, 'before'):
            return
        t = P.term(self.c0)
        if c.decide(space(t)):
            c.prove(self.text() == self.before, 'white space is not part of the symbol', 'invariant')
            return
        c.prove(not self.spaced, 'a symbol does not continue after white space', 'invariant')
        c.prove(ident(t, False), 'only identifier characters are part of the symbol', 'invariant')
        c.prove(self.text() == self.before + chr_of(c, self.c0), 'one more character appends exactly that character', 'invariant')


def space(t):
    return T.or_(*[T.eq(t, C(ord(x))) for x in ' \t\n\r\x0b\x0c'])


def read_identifier(where):
    before, after = AFTER[where]

    def unit(c):
        from amazon.ion.core import IonEventType, IonType
        if c.concrete:
            return
        x = c.int('character', 0, 127)
        try:
            evs, _ = events(text_reader(False), [cat(before, b'xy', of_octets(c, [x]), after, b'   \n\n')],
                            until=lambda e: e.event_type is IonEventType.SCALAR)
        except Exception as e:
            c.prove(T.not_(ident(P.term(x), False)), 'an identifier is accepted')
            return
        evs = [e for e in evs if e.event_type is IonEventType.SCALAR]
        if not evs or 'before' not in c.ghost:
            return
        c.prove(evs[0].ion_type is IonType.SYMBOL, 'it is a symbol')
        c.prove(evs[0].value.text == c.ghost['before'], 'the symbol ends with exactly the text so far')
    return unit


for _k in AFTER:
    if 'value' in _k:
        UNITS.append(Unit('identifier of any length read as ' + _k, read_identifier(_k), loops=[ReadingIdentifier],
                          of=[R + ':_unquoted_symbol_handler'], replay=False))

ASSUMPTIONS = ['str.encode/decode of UTF-8 and the \\\\x escapes of the codec error handlers are inverse as documented']
