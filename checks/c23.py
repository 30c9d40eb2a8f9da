"""C23: a corrupted or truncated stream is always reported."""
from hypothesis import strategies as st

import gens
import keypool
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are an AES key set, a message, an alteration of its encrypted stream and how it '
          'is delivered and read. Non-trivial: the stream differs from the original and is not '
          'empty.')

SETS = gens.entries(gens.aes_spec(), max_size=3, many=True)
READING = {'schedule': streams.SCHEDULE, 'reads': streams.READS, 'buffer': streams.BUFFER}


def first_difference(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n


def must_fail(crypter, text, b64, case, msg, good_bytes, total):
    """Reads the stream as the case says; requires an error before any end, and that what
    came out of the first good_bytes bytes of the stream is right."""
    src = streams.Source(text, case['schedule'])
    kw = {} if case['buffer'] == 4096 else {'buffer_size': case['buffer']}
    if not b64:
        kw['decoder'] = None
    r = crypter.CreateDecryptingStreamReader(src, **kw)
    out = []

    def read(n):
        x = r.read(n)
        if x:
            out.append(x)
        return x
    kind, v = outcome(lambda: streams.drain(read, total, case['reads'],
                                            extra=len(case['schedule']) + 2 * len(text)))
    require(kind == 'error', 'a bad stream was read to its end: %s', short(v))
    got = ''.join(out)
    good = max(0, (good_bytes - 21) // 16 * 16)
    good = min(good, len(msg), len(got))
    require(got[:good] == msg[:good], 'before the error the stream gave %s', short(got))
    for n in case['reads'] + [-1] * 8:
        kind, v = outcome(lambda: r.read(n))
        require(kind == 'error' or v != '' or n == 0,
                'after the error the stream reports a normal end')
    return got


@R.prop(st.fixed_dictionaries(dict({
    'entries': SETS, 'msg': gens.messages(1500), 'b64': st.booleans(), 'written': st.booleans(),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=2)}, **READING)),
    quick=2500, thorough=80000)
def altered(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    msg = case['msg']
    if case['written']:
        sink = streams.Sink()
        w = c.CreateEncryptingStreamWriter(sink, encoder=None)
        w.write(msg)
        w.flush()
        orig = B(sink.data)
    else:
        orig = B(c.Encrypt(msg, encoder=None))
    b = orig
    for m in case['muts']:
        b = gens.mutate(b, m)
    if b == orig:
        return
    text = ref.b64e(b) if case['b64'] else S(b)
    must_fail(c, text, case['b64'], case, msg, first_difference(orig, b), len(msg) + len(b))
    ctx.label(*['%s' % m[0] for m in case['muts']])
    ctx.nontrivial(len(b) > 0)


ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
LETTERS = st.text(ALPHABET, min_size=1, max_size=6)


@R.prop(st.fixed_dictionaries(dict({
    'entries': SETS, 'msg': gens.messages(120), 'op': st.one_of(
        st.tuples(st.just('append'), LETTERS), st.tuples(st.just('cut'), st.integers(1, 9)),
        st.tuples(st.just('insert'), gens.POS, LETTERS),
        st.tuples(st.just('delete'), gens.POS, st.integers(1, 9)),
        st.tuples(st.just('replace'), gens.POS, st.sampled_from(ALPHABET)),
        st.tuples(st.just('end'), st.integers(1, 4), st.sampled_from(ALPHABET))).map(list)},
    **READING)), quick=1500, thorough=40000)
def altered_text(case, ctx):
    """Changes of the Base64 text itself."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    text = c.Encrypt(case['msg'])
    orig = ref.b64d(text)
    op = case['op']
    if op[0] == 'append':
        new = text + op[1]
    elif op[0] == 'cut':
        new = text[:-op[1]]
    elif op[0] == 'insert':
        i = op[1] % len(text)
        new = text[:i] + op[2] + text[i:]
    elif op[0] == 'delete':
        i = op[1] % len(text)
        new = text[:i] + text[i + op[2]:]
    else:
        i = op[1] % len(text) if op[0] == 'replace' else len(text) - op[1]
        new = text[:i] + op[2] + text[i + 1:]
    if len(new) % 4 != 1 and ref.b64d(new) == orig:
        return          # unused bits of the last character
    good = first_difference(text, new) * 6 // 8
    must_fail(c, new, True, case, case['msg'], good, len(case['msg']) + len(new))
    ctx.label(op[0], 'length %d mod 4' % (len(new) % 4))
    ctx.nontrivial()


DELIVERY = [{'schedule': [], 'reads': [-1], 'buffer': 4096},
            {'schedule': [1], 'reads': [1], 'buffer': 4096},
            {'schedule': [16, 0], 'reads': [16], 'buffer': 16},
            {'schedule': [21], 'reads': [-1], 'buffer': -1},
            {'schedule': [0, 7, 0, 33], 'reads': [5, 0], 'buffer': 0},
            {'schedule': [], 'reads': [65536], 'buffer': 4096},
            {'schedule': [], 'reads': [2 ** 40], 'buffer': 65536}]


def flips(tier):
    lens = (0, 1, 15, 16, 33) if tier == 'quick' else range(0, 50)
    for n in lens:
        size = 5 + 16 + 16 * (n // 16 + 1) + 20
        for i in range(size):
            for bit in range(8) if tier != 'quick' else (i % 8, (i + 3) % 8, 7):
                yield {'n': n, 'i': i, 'bit': bit}


def key_and_blob(n):
    key = ref.AesKey(b'k' * 16, b'h' * 32)
    msg = bytes((i * 11) % 256 for i in range(n))
    return single(key, CRYPT), S(msg), key.encrypt(msg, bytes(range(50, 66)))


@R.enum(flips)
def every_bit(case, ctx):
    ks, msg, blob = key_and_blob(case['n'])
    c = keyczar.Crypter(ks.reader())
    i = case['i']
    b = blob[:i] + bytes([blob[i] ^ 1 << case['bit']]) + blob[i + 1:]
    for k, d in enumerate(DELIVERY):
        b64 = bool((i + k) % 2)
        must_fail(c, ref.b64e(b) if b64 else S(b), b64, d, msg, i, len(msg) + len(b))
    ctx.nontrivial()


def cuts(tier):
    for n in ((0, 1, 15, 16, 17, 31, 32, 48) if tier == 'quick' else range(0, 80)):
        size = 5 + 16 + 16 * (n // 16 + 1) + 20
        for i in range(size):
            yield {'n': n, 'i': i, 'front': 0}
            if i:
                yield {'n': n, 'i': i, 'front': 1}


@R.enum(cuts)
def every_cut(case, ctx):
    ks, msg, blob = key_and_blob(case['n'])
    c = keyczar.Crypter(ks.reader())
    i = case['i']
    b = blob[i:] if case['front'] else blob[:i]
    for k, d in enumerate(DELIVERY):
        b64 = bool((i + k) % 2)
        must_fail(c, ref.b64e(b) if b64 else S(b), b64, d, msg, 0 if case['front'] else i,
                  len(msg) + len(b))
    if not case['front']:
        text = ref.b64e(blob)
        for t in range(len(text)):          # also cuts of the text within a byte
            if t * 6 // 8 == i:
                must_fail(c, text[:t], True, DELIVERY[t % len(DELIVERY)], msg, i, len(msg) + len(b))
    ctx.nontrivial(len(b) > 0)


@R.prop(st.fixed_dictionaries(dict({
    'entries': SETS, 'msg': gens.messages(200), 'b64': st.booleans(),
    'forge': st.sampled_from(['other key', 'other header', 'mac of nothing', 'no mac', 'mac key',
                              'spliced', 'twice', 'junk', 'empty']),
    'other': gens.aes_spec()}, **READING)), quick=900, thorough=25000)
def forged(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    msg = B(case['msg'])
    key = ks.primary
    other = keypool.make(case['other'])
    if other.header() in [k.header() for _, _, k in ks.entries]:
        return
    f = case['forge']
    good = key.encrypt(msg, b'i' * 16)
    if f == 'other key':
        b = other.encrypt(msg, b'i' * 16)
    elif f == 'other header':
        b = key.header() + other.encrypt(msg, b'i' * 16)[5:]
    elif f == 'mac of nothing':
        b = good[:-20] + ref.HmacKey(key.mac).sign(b'')
    elif f == 'no mac':
        b = good[:-20]
    elif f == 'mac key':
        body = good[:-20]
        if other.mac == key.mac:
            return
        b = body + ref.HmacKey(other.mac).sign(body)
    elif f == 'spliced':
        g2 = key.encrypt(msg + b'!', b'j' * 16)
        b = good[:-20] + g2[-20:]
    elif f == 'junk':
        b = (other.header() if len(msg) % 2 else b'\xff' * 5) * (len(msg) % 3 + 1) + good
    elif f == 'twice':
        b = good + good
    else:
        b = b''
    text = ref.b64e(b) if case['b64'] else S(b)
    must_fail(c, text, case['b64'], case, case['msg'], 0, len(msg) + len(b))
    ctx.label(f)
    ctx.nontrivial(f != 'empty')


@R.enum(lambda tier: [{'len': n, 'how': h} for n in
                      ([4096, 8192, 10007, 16384, 40000, 65537] if tier == 'quick' else LARGE)
                      for h in ('first', 'middle', 'last block', 'mac', 'cut mac', 'cut block',
                                'cut half', 'append', 'append block', 'drop 4096', 'swap 4096',
                                'mac of less')])
def large(case, ctx):
    """Alterations anywhere in a long stream."""
    key = ref.AesKey(b'k' * 16, b'h' * 32)
    c = keyczar.Crypter(single(key, CRYPT).reader())
    msg = big(case['len'])
    b = B(c.Encrypt(msg, encoder=None))
    h = case['how']
    n = len(b)

    def flip(i):
        return b[:i] + bytes([b[i] ^ 0x10]) + b[i + 1:]
    bad = {'first': lambda: flip(30), 'middle': lambda: flip(n // 2), 'last block': lambda: flip(n - 25),
           'mac': lambda: flip(n - 1), 'cut mac': lambda: b[:-1], 'cut block': lambda: b[:-16],
           'cut half': lambda: b[:n // 2], 'append': lambda: b + b'\0',
           'append block': lambda: b + b[-16:], 'drop 4096': lambda: b[:21] + b[21 + 4096:],
           'swap 4096': lambda: b[:21] + b[21 + 2048:21 + 4096] + b[21:21 + 2048] + b[21 + 4096:],
           'mac of less': lambda: b[:-20] + ref.HmacKey(key.mac).sign(b[:-20][:n // 2])}[h]()
    good = first_difference(b, bad)
    for k, (sched, reads, buf) in enumerate((([], [-1], 4096), ([], [8192], 4096),
                                             ([4096, 0], [5000], 4096), ([], [-1], -1),
                                             ([10000], [3000], 65536), ([], [65536], 4096),
                                             ([], [2 ** 31], 4096))):
        b64 = bool(k % 2)
        must_fail(c, ref.b64e(bad) if b64 else S(bad), b64,
                  {'schedule': sched, 'reads': reads, 'buffer': buf}, msg, good, len(bad) + len(msg))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries(dict({
    'entries': gens.entries(gens.aes_spec(), max_size=2), 'msgs': st.lists(gens.messages(60), min_size=1, max_size=3),
    'muts': st.lists(st.tuples(st.integers(0, 2), gens.mutations()).map(list), min_size=1, max_size=4),
    'b64': st.booleans()}, **READING)), quick=400, thorough=10000)
def after_genuine_streams(case, ctx):
    """The same crypter reads genuine streams to their end between the altered ones."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    blobs = [ks.primary.encrypt(B(m), bytes(range(i, i + 16))) for i, m in enumerate(case['msgs'])]
    bad = 0

    def text(b):
        return ref.b64e(b) if case['b64'] else S(b)
    for i, m in case['muts']:
        i %= len(blobs)
        orig = blobs[i]
        kw = {} if case['b64'] else {'decoder': None}
        for j, x in enumerate(blobs):
            r = c.CreateDecryptingStreamReader(streams.Source(text(x)), **kw)
            out, _ = streams.drain(r.read, len(case['msgs'][j]), case['reads'], extra=len(x))
            require(out == case['msgs'][j], 'a genuine stream reads %s', short(out))
        b = gens.mutate(orig, m)
        if b in blobs:
            continue
        must_fail(c, text(b), case['b64'], case, case['msgs'][i], first_difference(orig, b),
                  len(case['msgs'][i]) + len(b))
        bad += 1
    ctx.nontrivial(bad > 0)
