from . import spec, gen, lib
from .spec import V
import itertools

CHARS = [chr(c) for c in range(0, 0x180)] + [u'\u2028', u'\ud7ff', u'\ue000', u'\ufffe', u'\uffff', u'\U00010000', u'\U0001f600', u'\U000fffff', u'\U0010ffff', u'\U00100000', u'\u1000', u'\u0fff']


def check(r, case, vs, indent=None):
    r.count(case, (repr(vs), indent))
    w = lib.write_values(vs, binary=False, indent=indent)
    for b in bytearray(w):
        if not (32 <= b < 127 or b in (10, 13, 9)):
            r.fail(case, 'octet %d in the output' % b, values=vs, text=w)
            return
    body = w.decode('ascii')
    if indent is None and any(c in body.replace('$ion_1_0\n', '') for c in '\r\n\t'):
        r.fail(case, 'control character in the output', values=vs, text=w)
        return
    for name, f in (('reference', spec.decode_text), ('library', lib.read_values)):
        try:
            got = f(body)
        except Exception as e:
            got = e
        if got != vs:
            r.fail(case, '%s reads %r' % (name, got), values=vs, text=body)
            return


def positions(t):
    """The text in every position of every context."""
    one = V('int', 1)
    return [V('string', t), V('struct', ((t, V('symbol', t)),)), V('int', 1, (t,)), V('int', 1, (t, t)),
            V('list', (V('symbol', t), V('symbol', t))), V('sexp', (V('symbol', t), one, V('symbol', t), V('symbol', t, (t,)))),
            V('symbol', t, ('a',)), V('list', (V('list', (), (t,)), V('string', t)))]


def run(r):
    r.bound = 'all single characters of the listed ranges, all octets in lobs, all texts of up to 3 characters over a 20-letter alphabet of special characters; longer ones sampled'
    r.rule = 'texts as string, symbol, field name and annotation in every container, written as text; read by the reference decoder and the library; every escape sequence in strings, symbols and clobs; distinct by text and position'
    rng = r.rng
    for c in r.share(CHARS):
        for s in (c, 'a' + c, c + 'a', c * 3):
            check(r, 'character', positions(s))
    for b in r.share(range(256)):
        for s in ([b], [65, b], [b, 48], [b, 34, b], [92, b]):
            x = bytes(bytearray(s))
            check(r, 'lob', [V('clob', x), V('blob', x), V('list', (V('clob', x),))])
    al = '$0_an1+-.\'"\\ e:/*{)T'
    for t in r.share(itertools.chain(*(itertools.product(al, repeat=n) for n in ((1, 2, 3) if r.thorough else (1, 2))))):
        check(r, 'short', positions(''.join(t)))
    if not r.thorough:
        for t in r.share(itertools.product(al, repeat=3)):
            check(r, 'short', [V('sexp', (V('symbol', ''.join(t)), V('symbol', ''.join(t)), V('symbol', 'x', (''.join(t),))))])
    for i in r.loop(r.scale(6000)):
        t = gen.text(rng)
        check(r, 'text', positions(t), rng.choice([None, None, '', ' ', '\t']))
        ts = [gen.text(rng) for _ in range(4)]
        check(r, 'sequence', [V('sexp', tuple(V('symbol', x) for x in ts)),
                              V('struct', tuple((x, V('symbol', y, (x,))) for x, y in zip(ts, ts[::-1])))])
        if i < 2:
            r.sample(text=t)
    # escapes accepted by the reader
    hexes = '0123456789abcdefABCDEF'
    one = lambda s: escape(r, s)
    for c in r.share([chr(x) for x in range(1, 128)]):
        for q in ('"\\%s"', "'\\%s'", "'''\\%s'''", '{{"\\%s"}}', "{{'''\\%s'''}}"):
            for tail in ('', '4', '41', '041', '0041', '00000041', 'FFFFFFFF', '0010FFFF', '00110000', 'xy'):
                one(q % (c + tail))
    for i in r.loop(r.scale(4000)):
        x = rng.choice([rng.randrange(256), rng.randrange(0x10000), rng.randrange(0x110000), 0x10ffff, 0x110000, 0xd83d])
        u = ('\\u%04x' % x if x < 0x10000 else '\\U%08x' % x)
        u = ''.join(rng.choice([ch.upper(), ch]) if ch not in 'uU\\' else ch for ch in u)
        low = '\\ude00' if x == 0xd83d else ''
        one(rng.choice(['"%s"', "'%s'", "'''%s'''", '{{"%s"}}', '("%s")', '[a,\'%s\']']) % (rng.choice(['', 'a']) + u + low + rng.choice(['', 'b', '0'])))


def escape(r, s):
    try:
        want = spec.decode_text(s)
    except spec.Lenient:
        return
    except spec.Bad as e:
        want = e
    r.count('escape', s)
    try:
        got = lib.read_values(s)
    except lib.ERRORS as e:
        got = e
    if isinstance(want, list) and got != want:
        r.fail('escape', 'got %r, expected %r' % (got, want), text=s)
    elif not isinstance(want, list) and isinstance(got, list):
        r.fail('escape', 'accepted as %r, but %s' % (got, want), text=s)
