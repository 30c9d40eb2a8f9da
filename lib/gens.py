"""Hypothesis strategies; every drawn case is plain JSON data."""
import hashlib

from hypothesis import strategies as st

import keypool

def _s(b):
    return b.decode('latin-1')

# byte strings as latin-1 text
def bstr(min_size=0, max_size=40):
    return st.binary(min_size=min_size, max_size=max_size).map(_s)


def _pattern(n, pat):
    pat = pat or b'\0'
    return _s((pat * (n // len(pat) + 1))[:n])

_edges = sorted(set(x for b in (16, 20, 32, 48, 64, 128, 256) for x in (b - 2, b - 1, b, b + 1)))
_big_edges = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4079, 4080, 4081, 4095, 4096, 4097]

PATTERNS = st.one_of(
    st.sampled_from([b'\0', b'\x01', b'\xff', b'\x10', b'\x0f', b'\0\x01', b'abc',
                     b'\r\n', b' ', b'=', b'\x80', bytes(range(256))]),
    st.binary(min_size=1, max_size=5))


def messages(max_size=4200):
    """Messages of any length: short random ones, block-edge lengths, long ones."""
    edges = [e for e in _edges if e <= max_size]
    big = [e for e in _big_edges if e <= max_size]
    alts = [bstr(0, min(40, max_size)),
            st.builds(_pattern, st.integers(0, min(100, max_size)), PATTERNS)]
    if edges:
        alts.append(st.builds(_pattern, st.sampled_from(edges), PATTERNS))
    if big:
        alts.append(st.builds(_pattern, st.sampled_from(big), PATTERNS))
        alts.append(st.builds(_pattern, st.integers(0, max_size), PATTERNS))
    return st.one_of(*alts)


def hexbytes(n):
    return st.binary(min_size=n, max_size=n).map(lambda b: b.hex())


def _special_hex(n):
    return st.one_of(hexbytes(n), st.sampled_from(['00' * n, 'ff' * n,
                                                   '00' + 'a5' * (n - 1),
                                                   'a5' * (n - 1) + '00']))


def aes_spec(sizes=(16, 24, 32)):
    return st.sampled_from(list(sizes)).flatmap(
        lambda n: st.tuples(st.just('AES'), _special_hex(n), _special_hex(32))).map(list)


def hmac_spec():
    return st.tuples(st.just('HMAC'), _special_hex(32)).map(list)


ENCS = st.sampled_from(['signed', 'pad', 'min', 'pad3'])


def rsa_spec(sizes=(512, 768, 1024, 2048)):
    idx = [i for s in sizes for i in keypool.RSA_BY_SIZE[s]]
    return st.tuples(st.just('RSA'), st.sampled_from(idx), ENCS).map(list)


def dsa_spec():
    return st.tuples(st.just('DSA'), st.sampled_from(range(len(keypool.DSA))), ENCS).map(list)


def varied_rsa(sizes=(512, 768, 1024, 2048)):
    """For keypool.make_varied: the public exponent and with it the private numbers vary."""
    return st.tuples(rsa_spec(sizes),
                     st.sampled_from([65537, 65537, 3, 17, 257, 65539, 0x10000000f])).map(
                         lambda t: t[0] + [t[1]])


def varied_dsa():
    return st.tuples(dsa_spec(), st.one_of(st.none(), st.integers(1, 2 ** 20),
                                           st.integers(1, 2 ** 155))).map(lambda t: t[0] + [t[1]])


def signing_spec(rsa_sizes=(512, 1024, 2048)):
    return st.one_of(hmac_spec(), hmac_spec(), dsa_spec(), rsa_spec(rsa_sizes))


def crypting_spec(rsa_sizes=(512, 1024, 2048)):
    return st.one_of(aes_spec(), aes_spec(), rsa_spec(rsa_sizes))


def _ident(spec):
    return (spec[0], spec[1])

STATUSES = ['ACTIVE', 'INACTIVE']
# version numbers past every width an implementation may have in mind
VERSIONS = st.sampled_from([127, 128, 255, 256, 999, 32767, 32768, 65536, 2 ** 31 - 1, 2 ** 31,
                            2 ** 32 + 1, 2 ** 40])


def _filler(like, i):
    kind = like[0]
    if kind == 'RSA':
        return ['RSA', like[1], 'signed', 70001 + 1000 * i]
    if kind == 'DSA':
        return ['DSA', like[1], 'signed', 3 + 7 ** i]
    h = lambda n: hashlib.sha256(b'%d/%d' % (n, i)).hexdigest()
    return ['AES', h(1)[:(32, 48, 64)[i % 3]], h(2)] if kind == 'AES' else ['HMAC', h(3)]


@st.composite
def entries(draw, spec, min_size=1, max_size=4, primary=True, many=False):
    """[[version, status, spec]] with distinct keys and versions; one primary if
    `primary` is True, none if False, either if None. With `many`, now and then a
    set holds dozens of keys."""
    specs = draw(st.lists(spec, min_size=min_size, max_size=max_size, unique_by=_ident))
    if many and specs and draw(st.integers(0, 11)) == 11:
        more = [_filler(specs[0], i) for i in range(draw(st.integers(6, 40)))]
        at = draw(st.integers(0, len(specs)))
        specs = specs[:at] + more + specs[at:]
    n = len(specs)
    style = draw(st.sampled_from(['seq', 'sparse']))
    if style == 'seq':
        versions = list(range(1, n + 1))
    else:
        versions = draw(st.lists(st.one_of(st.integers(1, 60 + 10 * n), st.integers(1, 60 + 10 * n), VERSIONS),
                                 min_size=n, max_size=n, unique=True))
    sts = [draw(st.sampled_from(STATUSES)) for _ in range(n)]
    p = None
    if primary is True:
        p = draw(st.integers(0, n - 1))
    elif primary is None and n:
        p = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    if p is not None:
        sts[p] = 'PRIMARY'
    return [[v, s, sp] for v, s, sp in zip(versions, sts, specs)]


# all keys of a set have one type
def crypt_entries(rsa_sizes=(512, 1024), **kw):
    return st.one_of(entries(aes_spec(), **kw), entries(rsa_spec(rsa_sizes), **kw))


def sign_entries(rsa_sizes=(512, 1024), **kw):
    return st.one_of(entries(hmac_spec(), **kw), entries(dsa_spec(), **kw),
                     entries(rsa_spec(rsa_sizes), **kw))


# --- mutations of a byte string ----------------------------------------
# Positions are fractions of the length, so that shrinking and replay work on
# strings whose length is not known when the case is drawn.

POS = st.integers(0, 10 ** 6)


# what a lenient comparison may have in mind
TEXT = {
    'newline': lambda b: b + b'\n', 'crlf': lambda b: b + b'\r\n', 'blank': lambda b: b + b' ',
    'nul': lambda b: b + b'\0', 'nul first': lambda b: b'\0' + b, 'blank first': lambda b: b' ' + b,
    'bom': lambda b: b'\xef\xbb\xbf' + b, 'chomp': lambda b: b.rstrip(b'\r\n'),
    'strip': lambda b: b.strip(), 'strip nul': lambda b: b.strip(b'\0'), 'lower': lambda b: b.lower(),
    'upper': lambda b: b.upper(), 'swapcase': lambda b: b.swapcase(),
    'unix': lambda b: b.replace(b'\r\n', b'\n'), 'dos': lambda b: b.replace(b'\n', b'\r\n'),
    'low bits': lambda b: bytes(c & 127 for c in b), 'reverse': lambda b: b[::-1],
    'utf8': lambda b: b.decode('latin-1').encode('utf-8'), 'twice': lambda b: b + b,
    'empty': lambda b: b''}


def mutations():
    return st.one_of(
        st.tuples(st.just('flip'), POS, st.integers(0, 7)),
        st.tuples(st.just('set'), POS, st.integers(0, 255)),
        st.tuples(st.just('trunc'), st.integers(1, 40)),
        st.tuples(st.just('cutfront'), st.integers(1, 24)),
        st.tuples(st.just('append'), bstr(1, 20)),
        st.tuples(st.just('prepend'), bstr(1, 20)),
        st.tuples(st.just('insert'), POS, bstr(1, 17)),
        st.tuples(st.just('delete'), POS, st.integers(1, 20)),
        st.tuples(st.just('swap'), POS, POS, st.sampled_from([1, 4, 16, 20])),
        st.tuples(st.just('zero'), POS, st.integers(1, 40)),
        st.tuples(st.just('dup'), POS, st.sampled_from([1, 16, 32])),
        st.tuples(st.just('text'), st.sampled_from(sorted(TEXT))),
    ).map(list)


def mutate(b, m):
    n = len(b)
    op = m[0]
    if op == 'flip' and n:
        i = m[1] % n
        return b[:i] + bytes([b[i] ^ (1 << m[2])]) + b[i + 1:]
    if op == 'set' and n:
        i = m[1] % n
        return b[:i] + bytes([m[2]]) + b[i + 1:]
    if op == 'trunc':
        return b[:max(0, n - m[1])]
    if op == 'cutfront':
        return b[m[1]:]
    if op == 'append':
        return b + m[1].encode('latin-1')
    if op == 'prepend':
        return m[1].encode('latin-1') + b
    if op == 'insert':
        i = m[1] % (n + 1)
        return b[:i] + m[2].encode('latin-1') + b[i:]
    if op == 'delete' and n:
        i = m[1] % n
        return b[:i] + b[i + m[2]:]
    if op == 'swap' and n:
        k = m[3]
        i, j = sorted((m[1] % n // k * k, m[2] % n // k * k))
        if i + k <= j and j + k <= n:
            return b[:i] + b[j:j + k] + b[i + k:j] + b[i:i + k] + b[j + k:]
        return b
    if op == 'zero' and n:
        i = m[1] % n
        return b[:i] + b'\0' * min(m[2], n - i) + b[i + m[2]:]
    if op == 'text':
        return TEXT[m[1]](b)
    if op == 'dup' and n:
        i = m[1] % n
        return b[:i] + b[i:i + m[2]] + b[i:]
    return b
