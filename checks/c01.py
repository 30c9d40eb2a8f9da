"""C01: decryption inverts encryption."""
import hashlib

from hypothesis import strategies as st

import env
import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets of reference AES-128/192/256 or RSA-512..4096 keys with drawn '
          'statuses and versions, messages of drawn length and content (block edges, long, '
          'patterned), the encoder (web-safe base64, none, hex) and a sequence of uses of the '
          'same objects. Non-trivial: at least one encryption was decrypted and compared.')

ENC = st.sampled_from(['b64', 'none', 'hex'])


def _hexe(s):
    return B(s).hex()


def _hexd(s):
    return S(bytes.fromhex(s))


def crypt(encrypter, crypter, msg, enc):
    if enc == 'b64':
        return crypter.Decrypt(encrypter.Encrypt(msg))
    if enc == 'none':
        return crypter.Decrypt(encrypter.Encrypt(msg, None), None)
    return crypter.Decrypt(encrypter.Encrypt(msg, encoder=_hexe), decoder=_hexd)


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.aes_spec(), many=True),
                               'msg': gens.messages(), 'enc': ENC}), quick=500, thorough=15000)
def aes(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    enc = keyczar.Encrypter(ks.reader())
    cr = keyczar.Crypter(ks.reader())
    for e in (enc, cr):
        got = crypt(e, cr, case['msg'], case['enc'])
        require(got == case['msg'], 'decrypted %s', short(got))
    ctx.label(case['enc'], 'len%%16=%d' % (len(case['msg']) % 16), 'keys=%d' % len(ks.entries))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.rsa_spec((512, 768, 1024)), max_size=3),
                               'msg': gens.bstr(0, 90), 'cut': st.integers(-2, 90),
                               'enc': ENC, 'public': st.booleans()}), quick=400, thorough=8000)
def rsa(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    k = ks.primary
    # cut: length relative to the longest message this key can encrypt
    n = max(0, k.max_message() - case['cut'])
    msg = (case['msg'] * (n // max(1, len(case['msg'])) + 1) + '\0' * n)[:n]
    cr = keyczar.Crypter(ks.reader())
    enc = keyczar.Encrypter((ks.public_set() if case['public'] else ks).reader())
    if len(msg) > k.max_message():
        raises(lambda: enc.Encrypt(msg))
        ctx.label('too long')
        ctx.nontrivial()
        return
    got = crypt(enc, cr, msg, case['enc'])
    require(got == msg, 'decrypted %s instead of %s', short(got), short(msg))
    ctx.label('public' if case['public'] else 'private', 'rsa%d' % k.bits,
              'longest' if len(msg) == k.max_message() else 'empty' if not msg else 'shorter')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((2048, 4096)), 'msg': gens.bstr(0, 200)}),
        quick=30, thorough=600)
def rsa_large(case, ctx):
    k = keypool.make(case['spec'])
    ks = single(k, CRYPT)
    got = crypt(keyczar.Encrypter(ks.public_set().reader()), keyczar.Crypter(ks.reader()),
                case['msg'], 'b64')
    require(got == case['msg'], 'decrypted %s', short(got))
    ctx.label('rsa%d' % k.bits)
    ctx.nontrivial()


@R.enum(lambda tier: [{'key': n, 'len': i, 'byte': b} for n in (16, 24, 32)
                      for b in (0, 1, 255) for i in range(0, 131 if tier == 'quick' else 1100)])
def aes_every_length(case, ctx):
    k = ref.AesKey(bytes(range(case['key'])), b'm' * 32)
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    msg = chr(case['byte']) * case['len']
    require(cr.Decrypt(cr.Encrypt(msg)) == msg, 'length %d', case['len'])
    ctx.nontrivial()


@R.enum(lambda tier: [{'rsa': i, 'len': n, 'byte': b} for i in (0, 4, 7)
                      for b in (0, 1, 255) for n in range(0, keypool.rsa(i).max_message() + 3)])
def rsa_every_length(case, ctx):
    k = keypool.rsa(case['rsa'])
    ks = single(k, CRYPT)
    enc = keyczar.Encrypter(ks.public_set().reader())
    cr = keyczar.Crypter(ks.reader())
    msg = chr(case['byte']) * case['len']
    if len(msg) > k.max_message():
        raises(lambda: enc.Encrypt(msg))
    else:
        require(cr.Decrypt(enc.Encrypt(msg)) == msg, 'length %d', case['len'])
    ctx.nontrivial()


@R.enum(lambda tier: [{'rsa': i, 'salt': j} for i, n in ((0, 1500), (1, 400), (4, 300), (18, 200))
                      for j in range(n if tier == 'quick' else n * 30)])
def rsa_many_seeds(case, ctx):
    """Random OAEP seeds: leading zero bytes in the block or the ciphertext."""
    k = keypool.rsa(case['rsa'])
    ks = single(k, CRYPT)
    cr = _cached_crypter(case['rsa'], ks)
    ct = cr.Encrypt('m%d' % (case['salt'] % 7), None)
    require(cr.Decrypt(ct, None) == 'm%d' % (case['salt'] % 7), 'wrong plaintext')
    if ct[5] == '\0':
        ctx.label('ciphertext starts with a zero byte')
    em = pow(int.from_bytes(B(ct)[5:], 'big'), k.d, k.n).to_bytes(k.k, 'big')
    if em[1] == 0:
        ctx.label('block starts with two zero bytes')
    ctx.nontrivial()


_cache = {}


def _cached_crypter(i, ks):
    if i not in _cache:
        _cache[i] = keyczar.Crypter(ks.reader())
    return _cache[i]


@R.prop(st.fixed_dictionaries({
    'entries': gens.crypt_entries(rsa_sizes=(512,), max_size=3),
    'msgs': st.lists(gens.bstr(0, 22), min_size=1, max_size=6),
    'order': st.lists(st.integers(0, 5), min_size=1, max_size=10)}), quick=200, thorough=4000)
def interleaved(case, ctx):
    """The same objects used again and again, in any order."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    a = keyczar.Crypter(ks.reader())
    b = keyczar.Crypter(ks.reader())
    cts = [(a if i % 2 else b).Encrypt(m) for i, m in enumerate(case['msgs'])]
    for o in case['order']:
        i = o % len(cts)
        for c in (a, b):
            got = c.Decrypt(cts[i])
            require(got == case['msgs'][i], 'message %d decrypted to %s', i, short(got))
    ctx.nontrivial(len(case['order']) > 1)


@R.prop(st.fixed_dictionaries({'spec': gens.aes_spec(), 'text': st.text(max_size=40)}), quick=200)
def text_is_never_altered(case, ctx):
    """Text beyond Latin-1 is refused, never changed."""
    cr = keyczar.Crypter(single(keypool.make(case['spec']), CRYPT).reader())
    wide = any(ord(c) > 255 for c in case['text'])
    kind, r = outcome(lambda: cr.Decrypt(cr.Encrypt(case['text'])), KeyczarError, UnicodeError)
    if kind == 'ok' or not wide:
        require(r == case['text'], 'text came back as %s', short(r))
    ctx.nontrivial(wide)


@R.enum(lambda tier: [{'len': n, 'key': k, 'enc': e} for n in LARGE + HUGE for k in (16, 32)
                      for e in ('b64', 'none')] +
        [{'len': n, 'key': 24, 'enc': 'b64'} for n in
         ([3000017] if tier == 'quick' else [3000017, 8388609, 20000003])])
def aes_large(case, ctx):
    k = ref.AesKey(bytes(range(case['key'])), b'm' * 32)
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    msg = big(case['len'], case['key'])
    got = crypt(cr, cr, msg, case['enc'])
    require(got == msg, 'a message of %d bytes came back with %d', len(msg), len(got))
    ctx.nontrivial()


def _leading_zeros(k, want):
    """(seed, message) whose OAEP block starts with `want` zero bytes, by search."""
    for i in range(1 << 20):
        seed = hashlib.sha1(b'%d' % i).digest()
        msg = b'm%d' % (i % 5)
        if k.oaep(msg, seed)[:want] == b'\0' * want:
            return seed, msg
    raise Violation('no seed found')


@R.enum(lambda tier: [{'rsa': i, 'zeros': z} for i in ((0, 4) if tier == 'quick' else (0, 1, 4, 7, 18))
                      for z in ((2, 3) if i == 0 or tier == 'thorough' else (2,))])
def rsa_leading_zeros(case, ctx):
    """A random seed for which the padded block starts with several zero bytes."""
    k = keypool.rsa(case['rsa'])
    seed, msg = _leading_zeros(k, case['zeros'])
    ks = single(k, CRYPT)
    cr = keyczar.Crypter(ks.reader())
    for e in (cr, keyczar.Encrypter(ks.public_set().reader())):
        first = [seed]
        rest = env.Drbg(seed)
        env.set_urandom(lambda n: first.pop() if first and n == len(seed) else rest.read(n))
        ct = e.Encrypt(S(msg), None)
        require(cr.Decrypt(ct, None) == S(msg), 'wrong plaintext')
    if B(ct) == k.encrypt(msg, seed):
        ctx.label('%d zero bytes' % case['zeros'])
    ctx.nontrivial()
