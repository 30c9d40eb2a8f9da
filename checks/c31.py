"""C31: generated keys have the requested type and size and are valid."""
import functools
import json

from hypothesis import strategies as st

import fastgen
import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are types, sizes, and histories of keys added to a set, also with a random source '
          'that first repeats the bytes of an earlier key or of one with the same identifier. '
          'Non-trivial: a key was generated or refused.')

SIZES = {'AES': [128, 192, 256], 'HMAC_SHA1': [256], 'DSA_PRIV': [1024],
         'RSA_PRIV': [2048, 4096, 1024, 768, 512]}
DEFAULT = {'AES': 128, 'HMAC_SHA1': 256, 'DSA_PRIV': 1024, 'RSA_PRIV': 2048}
MAY_REFUSE = [('RSA_PRIV', 512), ('RSA_PRIV', 768)]     # PyCrypto does not generate these
PURPOSE = {'AES': keyinfo.DECRYPT_AND_ENCRYPT, 'HMAC_SHA1': keyinfo.SIGN_AND_VERIFY,
           'DSA_PRIV': keyinfo.SIGN_AND_VERIFY}


@functools.lru_cache(None)
def is_prime(n, rounds=12):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)[:rounds]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def b64int(s):
    return int.from_bytes(ref.b64d(s), 'big')


def judge(kind, size, text):
    """The key in its JSON form is a valid one of this type and size."""
    d = json.loads(text)
    require(d['size'] == size, 'says it has %s bits, not %d', d['size'], size)
    key = ref.parse_key(kind, text)
    if kind == 'AES':
        require(len(key.key) * 8 == size, 'has %d bits', len(key.key) * 8)
        require(len(key.mac) == 32 and d['hmacKey']['size'] == 256, 'MAC key of %d bytes',
                len(key.mac))
        require(d['mode'] == 'CBC', 'mode %s', d['mode'])
    elif kind == 'HMAC_SHA1':
        require(len(key.mac) * 8 == size, 'has %d bits', len(key.mac) * 8)
    elif kind == 'RSA_PRIV':
        n, e = b64int(d['publicKey']['modulus']), b64int(d['publicKey']['publicExponent'])
        p, q, dd = b64int(d['primeP']), b64int(d['primeQ']), b64int(d['privateExponent'])
        require(d['publicKey']['size'] == size, 'the public key says %s', d['publicKey']['size'])
        require(n.bit_length() == size, 'the modulus has %d bits', n.bit_length())
        require(n == p * q and p != q and is_prime(p) and is_prime(q), 'p and q')
        require(e >= 3 and e % 2 and e.bit_length() < 64, 'public exponent %d', e)
        require(e * dd % (p - 1) == 1 and e * dd % (q - 1) == 1, 'private exponent')
        require(b64int(d['primeExponentP']) == dd % (p - 1), 'exponent for p')
        require(b64int(d['primeExponentQ']) == dd % (q - 1), 'exponent for q')
        require(b64int(d['crtCoefficient']) * q % p == 1, 'CRT coefficient')
    else:
        pd = d['publicKey']
        p, q, g, y, x = (b64int(v) for v in (pd['p'], pd['q'], pd['g'], pd['y'], d['x']))
        require(pd['size'] == size and p.bit_length() == size, 'p has %d bits', p.bit_length())
        require(q.bit_length() == 160 and is_prime(q) and is_prime(p), 'p and q')
        require((p - 1) % q == 0 and 1 < g < p and pow(g, q, p) == 1, 'the group')
        require(0 < x < q and pow(g, x, p) == y, 'the key pair')
    return key


def works(key, kind, size, reader, rsa_crypts=True):
    """The key set does what it is for, and the reference agrees."""
    msg = 'm' * 10
    if kind == 'AES' or (kind == 'RSA_PRIV' and rsa_crypts):
        c = keyczar.Crypter(reader)
        t = c.Encrypt(msg)
        require(c.Decrypt(t) == msg, 'does not decrypt its own data')
        require(key.decrypt(ref.b64d(t)) == B(msg), 'the reference reads something else')
    else:
        s = keyczar.Signer(reader)
        t = s.Sign(msg)
        require(s.Verify(msg, t), 'does not verify its own signature')
        require(key.verify(ref.signed_form(B(msg)), ref.b64d(t)[5:]), 'the reference refuses it')


def direct(tier):
    for kind, n in (('AES', 128), ('AES', 192), ('AES', 256), ('AES', None), ('HMAC_SHA1', 256),
                    ('HMAC_SHA1', None), ('DSA_PRIV', 1024), ('DSA_PRIV', None), ('RSA_PRIV', 1024),
                    ('RSA_PRIV', 512), ('RSA_PRIV', 768)):
        for again in range(3 if tier == 'quick' else 40):
            yield {'kind': kind, 'size': n, 'again': again}
    for again in range(1 if tier == 'quick' else 10):
        yield {'kind': 'RSA_PRIV', 'size': None, 'again': again}
        yield {'kind': 'RSA_PRIV', 'size': 2048, 'again': again}
    if tier != 'quick':
        yield {'kind': 'RSA_PRIV', 'size': 4096, 'again': 0}


@R.enum(direct, shards=4)
def every_type_and_size(case, ctx):
    """The library's own generation, in a key set and directly."""
    kind, size = case['kind'], case['size']
    want = size or DEFAULT[kind]
    t = keyinfo.GetType(kind)
    got, key = outcome(lambda: keys.GenKey(t, size) if size else keys.GenKey(t))
    if got == 'error':
        require((kind, want) in MAY_REFUSE, 'refused: %s', key)
        ctx.label('refused by the library')
        ctx.nontrivial()
        return
    k = judge(kind, want, str(key))
    for crypts in (True, False) if kind == 'RSA_PRIV' else (True,):
        purpose = CRYPT if kind == 'AES' or (kind == 'RSA_PRIV' and crypts) else SIGN
        reader = DictReader(ref.metadata('x', purpose, kind, [(1, 'PRIMARY')]), {1: str(key)})
        works(k, kind, want, reader, crypts)
        # also before it was ever written
        static = readers.StaticKeyReader(key, PURPOSE.get(kind) or (
            keyinfo.DECRYPT_AND_ENCRYPT if crypts else keyinfo.SIGN_AND_VERIFY))
        works(k, kind, want, static, crypts)
    ctx.label('%s %s' % (kind, want))
    ctx.nontrivial()


ODD = st.one_of(st.integers(-300, 5000), st.sampled_from([0, 1, 64, 127, 129, 160, 255, 257, 384, 512,
                                                          1023, 1025, 2047, 3072, 8192]))


@R.prop(st.fixed_dictionaries({'kind': st.sampled_from(sorted(SIZES)), 'size': ODD}), quick=600,
        thorough=10000)
def unsupported_sizes(case, ctx):
    kind, size = case['kind'], case['size']
    if size in SIZES[kind]:
        return
    raises(lambda: keys.GenKey(keyinfo.GetType(kind), size))
    purpose = PURPOSE.get(kind, keyinfo.SIGN_AND_VERIFY)
    meta = str(keydata.KeyMetadata('x', purpose, keyinfo.GetType(kind)))
    g = keyczar.GenericKeyczar(DictReader(meta, {}))
    for status in (keyinfo.PRIMARY, keyinfo.ACTIVE):
        raises(lambda: g.AddVersion(status, size))
    require(not g.versions, 'a refused key was added')
    w = DictWriter()
    g.Write(w)
    require(not w.key_jsons and json.loads(w.meta)['versions'] == [], 'the set changed: %s',
            w.meta)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from(['RSA_PUB', 'DSA_PUB']), 'size': st.one_of(st.none(), ODD,
                                                                     st.sampled_from([1024, 2048]))}),
    quick=80, thorough=1000)
def public_types(case, ctx):
    """Public keys are not generated."""
    with fastgen.fast():
        raises(lambda: keys.GenKey(keyinfo.GetType(case['kind']), case['size'])
               if case['size'] is not None else keys.GenKey(keyinfo.GetType(case['kind'])))
        meta = str(keydata.KeyMetadata('x', keyinfo.VERIFY, keyinfo.GetType(case['kind'])))
        g = keyczar.GenericKeyczar(DictReader(meta, {}))
        raises(lambda: g.AddVersion(keyinfo.PRIMARY, case['size']))
    ctx.nontrivial()


# --- histories -------------------------------------------------------------------
class Tape(object):
    """A random source: given bytes first, then a stream."""

    def __init__(self, first, seed):
        self.first, self.rest = first, env.Drbg(seed)

    def read(self, n):
        out, self.first = self.first[:n], self.first[n:]
        return out + self.rest.read(n - len(out)) if len(out) < n else out


def _collision(make):
    seen = {}
    i = 0
    while True:
        b = ref.sha1(b'%d' % i) + ref.sha1(b'x%d' % i) + ref.sha1(b'y%d' % i)
        h = make(b)
        if h in seen:
            return seen[h], b
        seen[h] = b
        i += 1


_cache = {}


def collision(kind):
    """Two sequences of random bytes that give keys with the same identifier."""
    if kind not in _cache:
        if kind == 'HMAC_SHA1':
            _cache[kind] = _collision(lambda b: ref.HmacKey(b[:32]).hash())
        else:
            _cache[kind] = _collision(lambda b: ref.AesKey(b[:16], b[16:48]).hash())
    return _cache[kind]


STEP = st.tuples(st.sampled_from(['PRIMARY', 'ACTIVE', 'INACTIVE']), st.integers(0, 3),
                 st.sampled_from(['new', 'new', 'repeat', 'repeat', 'twin A', 'twin B'])).map(list)


@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from(['AES', 'AES', 'HMAC_SHA1', 'HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV']),
    'crypts': st.booleans(), 'start': st.integers(0, 3),
    'steps': st.lists(STEP, min_size=1, max_size=7)}), quick=700, thorough=20000, min_shard=120)
def added_keys(case, ctx):
    """Keys added one after the other have the requested size and distinct identifiers, whatever
    the random source gives; the set works after each."""
    kind = case['kind']
    purpose = PURPOSE.get(kind) or (keyinfo.DECRYPT_AND_ENCRYPT if case['crypts']
                                    else keyinfo.SIGN_AND_VERIFY)
    meta = str(keydata.KeyMetadata('x', purpose, keyinfo.GetType(kind)))
    w = DictWriter()
    w.meta = meta
    g = keyczar.GenericKeyczar(w.reader())
    sizes, judged = [], {}
    need = {'AES': 48, 'HMAC_SHA1': 32}.get(kind, 23)
    with fastgen.fast():
        for i, (status, s, source) in enumerate(case['steps']):
            options = [None] + [n for n in SIZES[kind] if n not in (4096, 2048, 512, 768)]
            size = options[s % len(options)]
            if kind == 'RSA_PRIV' and size is None:
                size = 1024
            first = b''
            if source == 'repeat':
                first = env.Drbg('first').read(need)
            elif source != 'new' and kind in ('AES', 'HMAC_SHA1'):
                first = collision(kind)[source == 'twin B'][:need]
            env.set_urandom(Tape(first, 'step %d' % i if source == 'new' else 'rest').read)
            n = len(w.key_jsons)
            if size is None:
                g.AddVersion(keyinfo.GetStatus(status))
            else:
                g.AddVersion(keyinfo.GetStatus(status), size)
            w = DictWriter()
            g.Write(w)
            require(len(w.key_jsons) == n + 1, '%d keys after adding one to %d', len(w.key_jsons), n)
            sizes.append(size or DEFAULT[kind])
            for v in w.key_jsons:
                if (v, w.key_jsons[v]) not in judged:
                    judged[v, w.key_jsons[v]] = judge(kind, sizes[v - 1], w.key_jsons[v])
            ks = [judged[v, w.key_jsons[v]] for v in sorted(w.key_jsons)]
            ids = [k.hash() for k in ks]
            require(len(set(ids)) == len(ids), 'two keys share an identifier: %s',
                    [x.hex() for x in ids])
            prim = [v['versionNumber'] for v in json.loads(w.meta)['versions']
                    if v['status'] == 'PRIMARY']
            if prim:
                works(ks[prim[0] - 1], kind, None, w.reader(), case['crypts'])
            if i == case['start']:             # go on with the set read back
                g = keyczar.GenericKeyczar(w.reader())
    ctx.label(kind, *[s[2] for s in case['steps']])
    ctx.nontrivial()
