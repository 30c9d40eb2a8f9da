"""C24: web-safe Base64 coding is exact."""
import warnings

from hypothesis import strategies as st

import gens
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.level = 'exploration'
R.rule = ('Cases are byte strings with places for whitespace, texts over the alphabet, and batches '
          'of all short strings. Non-trivial: at least one byte or character.')

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
VALUE = {c: i for i, c in enumerate(ALPHABET)}
WS = [' ', '\n', '\r', '\r\n', '  ', '\n\n', ' \n ', '\n\r']


def encode(b):
    """Base64 by its definition: six bits at a time."""
    bits = ''.join('{:08b}'.format(x) for x in b)
    bits += '0' * (-len(bits) % 6)
    return ''.join(ALPHABET[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def decode(text):
    bits = ''.join('{:06b}'.format(VALUE[c]) for c in text)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))


def with_space(text, places):
    for pos, i in places:
        p = pos % (len(text) + 1)
        text = text[:p] + WS[i % len(WS)] + text[p:]
    return text


PLACES = st.lists(st.tuples(gens.POS, st.integers(0, 7)).map(list), max_size=8)


@R.prop(st.fixed_dictionaries({'data': st.one_of(gens.messages(5000), gens.bstr(0, 200)),
                               'places': PLACES}), quick=3000, thorough=100000)
def coding(case, ctx):
    s = case['data']
    text = util.Base64WSEncode(s)
    require(text == encode(B(s)), 'encodes to %s', short(text))
    out = util.Base64WSDecode(text)
    require(out == s, 'decodes to %s', short(out))
    spaced = with_space(text, case['places'])
    out = util.Base64WSDecode(spaced)
    require(out == s, 'with whitespace decodes to %s', short(out))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(util.Encode(s) == text, 'the deprecated encoder differs')
        require(util.Decode(spaced) == s, 'the deprecated decoder differs')
    ctx.label('length mod 3: %d' % (len(s) % 3), 'whitespace' if case['places'] else 'plain')
    ctx.nontrivial(len(s) > 0)


TEXT = st.one_of(st.text(ALPHABET, max_size=200),
                 st.builds(lambda n, t: (t * n)[:n], st.integers(0, 3000),
                           st.text(ALPHABET, min_size=1, max_size=9)))


@R.prop(st.fixed_dictionaries({'text': TEXT, 'places': PLACES}),
        quick=2500, thorough=80000)
def texts(case, ctx):
    """Any text over the alphabet: the bytes of its bits, or the error if one character is
    over."""
    t = with_space(case['text'], case['places'])
    if len(case['text']) % 4 == 1:
        raises(lambda: util.Base64WSDecode(t), errors.Base64DecodingError)
        ctx.label('refused')
    else:
        out = util.Base64WSDecode(t)
        require(B(out) == decode(case['text']), 'decodes to %s', short(out))
        ctx.label('decoded')
    ctx.nontrivial(len(t) > 0)


def short_strings(tier):
    yield {'first': None}
    for i in range(256):
        yield {'first': i}


@R.enum(short_strings)
def all_short_strings(case, ctx):
    """All strings of up to two bytes (thorough: many of three), at every offset mod 3."""
    if case['first'] is None:
        batch = [b''] + [bytes([i]) for i in range(256)]
    else:
        batch = [bytes([case['first'], i]) for i in range(256)]
    for b in batch:
        for prefix in (b'', b'\xfb\xf0\x3f'):
            x = prefix + b
            t = util.Base64WSEncode(S(x))
            require(t == encode(x), '%s encodes to %s', x.hex(), t)
            require(B(util.Base64WSDecode(t)) == x, '%s does not round-trip', x.hex())
    ctx.nontrivial()


def short_texts(tier):
    for a in ALPHABET:
        yield {'a': a}


@R.enum(short_texts)
def all_short_texts(case, ctx):
    """All texts of up to two characters, and of three that share their last two."""
    a = case['a']
    raises(lambda: util.Base64WSDecode(a), errors.Base64DecodingError)
    raises(lambda: util.Base64WSDecode('AAAA' + a), errors.Base64DecodingError)
    for b in ALPHABET:
        for t in (a + b, a + b + b, b + a + b, b + b + b + a, '____' + a + b):
            out = util.Base64WSDecode(t)
            require(B(out) == decode(t), '%s decodes to %s', t, short(out))
            for w in (' ', '\n', '\r\n'):
                for i in range(len(t) + 1):
                    out = util.Base64WSDecode(t[:i] + w + t[i:])
                    require(B(out) == decode(t), '%s with a space at %d', t, i)
    ctx.nontrivial()


@R.enum(lambda tier: [{'len': n + d} for n in LARGE + HUGE for d in (0, 1, 2)])
def large(case, ctx):
    """Long strings, also with line breaks as mailers put them."""
    s = big(case['len'])
    text = util.Base64WSEncode(s)
    require(text == ref.b64e(B(s)), 'another text')
    require(util.Base64WSDecode(text) == s, 'decodes to something else')
    for extra in range(1, 5):
        t = text.rstrip('=') + ALPHABET[:extra]
        if len(t) % 4 == 1:
            raises(lambda: util.Base64WSDecode(t), errors.Base64DecodingError)
    for w, nl in ((76, '\r\n'), (64, '\n'), (4097, ' ')):
        t = nl.join(text[i:i + w] for i in range(0, len(text), w)) + nl
        require(util.Base64WSDecode(t) == s, 'with line breaks decodes to something else')
    ctx.nontrivial()
