"""C30: arbitrary input never breaks decryption or verification."""
import json

from hypothesis import strategies as st

import gens
import keypool
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets and inputs: random text and bytes, the right header with anything '
          'behind it, mutated valid data, and data with crafted numbers, structures or paddings under '
          'a fitting MAC or RSA block. Non-trivial: the input is longer than a header.')

TEXT = st.one_of(st.text(max_size=60), st.text('ABCDwxyz0189-_+/= \n\r\t*', max_size=80))


def junk(max_size=80):
    return st.one_of(gens.bstr(0, max_size), gens.messages(2000))


def answer(fn, what, allowed):
    """fn gives a Keyczar error or one of the allowed results."""
    kind, r = outcome(fn)
    require(kind == 'error' or any(r is a if a is None or a is False or a is True else
                                   type(r) is type(a) and r == a for a in allowed),
            '%s gives %s', what, short(r))
    return kind


def both(fn, data):
    """The two ways to give bytes: as Base64 text, and as they are."""
    return [lambda: fn(ref.b64e(data)), lambda: fn(S(data), decoder=None)]


# --- ciphertexts -------------------------------------------------------------
CSETS = st.one_of(gens.entries(gens.aes_spec(), max_size=3),
                  gens.entries(gens.rsa_spec((512, 1024)), max_size=2))


def ref_decrypt(ks, b):
    for _, _, k in ks.entries:
        if b[:5] == k.header():
            try:
                return [S(k.decrypt(b))]
            except ref.RefError:
                return []
    return []


def still_crypts(c, ks, blob):
    require(c.Decrypt(blob) == 'before', 'old data is no longer decrypted')
    require(c.Decrypt(c.Encrypt('after')) == 'after', 'the object broke')


@R.prop(st.fixed_dictionaries({
    'entries': CSETS, 'how': st.sampled_from(['bytes', 'text', 'header', 'header', 'muts', 'version',
                                              'odd text']),
    'data': junk(), 'text': TEXT, 'muts': st.lists(gens.mutations(), min_size=1, max_size=4),
    'which': st.integers(0, 3)}), quick=1500, thorough=80000)
def ciphertexts(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    before = c.Encrypt('before')
    key = ks.entries[case['which'] % len(ks.entries)][2]
    how = case['how']
    data = B(case['data'])
    if how == 'text':
        kind, v = outcome(lambda: c.Decrypt(case['text']))
        require(kind == 'error', 'text decrypts to %s', short(v))
    elif how == 'odd text':
        # valid Base64 with odd characters in it may be refused, not misread
        t = before[:7] + case['text'] + before[7:]
        answer(lambda: c.Decrypt(t), 'text', ['before'])
    else:
        if how == 'bytes':
            b = data
        elif how == 'header':
            b = key.header() + data
        elif how == 'version':
            b = bytes([len(data) % 256]) + key.header()[1:] + data
        else:
            b = ref.b64d(before)
            for m in case['muts']:
                b = gens.mutate(b, m)
        allowed = ref_decrypt(ks, b)
        for fn in both(c.Decrypt, b):
            answer(fn, how, allowed)
        ctx.nontrivial(len(b) > 5)
    still_crypts(c, ks, before)
    ctx.label(how, ks.kind)


@R.prop(st.fixed_dictionaries({
    'spec': gens.aes_spec(), 'body': junk(70), 'iv': st.integers(0, 16), 'pad': st.one_of(
        st.none(), st.integers(0, 255))}), quick=1500, thorough=50000)
def authentic_odd_ciphertexts(case, ctx):
    """What somebody with the key could make: a fitting MAC over no IV, no or broken blocks, or
    a wrong padding."""
    key = keypool.make(case['spec'])
    c = keyczar.Crypter(single(key, CRYPT).reader())
    before = c.Encrypt('before')
    body = B(case['body'])
    if case['pad'] is not None:
        import refaes
        plain = body + b'p' * (15 - len(body) % 16) + bytes([case['pad']])
        b = key.header() + bytes(16) + refaes.cbc_encrypt(key.key, bytes(16), plain)
        ctx.label('padding')
        allowed = None
    else:
        b = key.header() + bytes(case['iv']) + body
        allowed = None
        ctx.label('whole blocks' if len(b) % 16 == 5 else 'broken blocks')
    b += ref.HmacKey(key.mac).sign(b)
    good = ref_decrypt(single(key, CRYPT), b)
    for fn in both(c.Decrypt, b):
        kind, r = outcome(fn)
        require(kind == 'error' or isinstance(r, str), 'gives %s', short(r))
        if good:
            require(kind == 'ok' and r == good[0], 'gives %s', short(r))
    r = c.CreateDecryptingStreamReader(streams.Source(S(b), [7, 0, 16]), decoder=None)
    kind, x = outcome(lambda: streams.drain(r.read, len(b), [9], extra=len(b)))
    if good:
        require(kind == 'ok' and x[0] == good[0], 'streams %s', short(x))
    still_crypts(c, None, before)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'spec': gens.rsa_spec((512, 1024)), 'em': st.one_of(
        st.integers(0, 3), st.integers(0, 2 ** 1030), st.integers(-3, 3).map(lambda d: 'n%+d' % d)),
    'oaep': st.booleans(), 'db': junk(60), 'lhash': st.booleans(), 'first': st.integers(0, 2),
    'cut': st.integers(-3, 3)}), quick=800, thorough=30000)
def odd_rsa_blocks(case, ctx):
    """Numbers of any size, and OAEP blocks with a wrong structure."""
    key = keypool.make(case['spec'])
    ks = single(key, CRYPT)
    c = keyczar.Crypter(ks.reader())
    before = c.Encrypt('before')
    k = key.k
    if case['oaep']:
        db = (ref.sha1(b'') if case['lhash'] else b'') + B(case['db'])
        db = (db + bytes(k))[:k - 21]
        seed = b'\x07' * 20
        mdb = ref.xor(db, ref.mgf1(seed, len(db)))
        em = bytes([case['first']]) + ref.xor(seed, ref.mgf1(mdb, 20)) + mdb
        m = int.from_bytes(em, 'big') % key.n
        b = key.raw(m)
        ctx.label('OAEP')
    else:
        m = case['em']
        m = key.n + int(m[1:]) if isinstance(m, str) else m
        size = k + case['cut']
        b = key.header() + (m % 256 ** size).to_bytes(size, 'big')
        ctx.label('number')
    allowed = ref_decrypt(ks, b)
    for fn in both(c.Decrypt, b):
        kind, r = outcome(fn)
        require(kind == 'error' or (isinstance(r, str) and (r in allowed or len(b) != k + 5)),
                'gives %s', short(r))
    still_crypts(c, ks, before)
    ctx.nontrivial()


# --- signatures ----------------------------------------------------------------
SSETS = st.one_of(gens.entries(gens.hmac_spec(), max_size=3), gens.entries(gens.dsa_spec(), max_size=2),
                  gens.entries(gens.rsa_spec((512, 1024)), max_size=2))


def der(tag, body, form=0):
    n = len(body)
    if form == 1:
        return bytes([tag, 0x84]) + n.to_bytes(4, 'big') + body
    if form == 2:
        return bytes([tag, 0x80]) + body + b'\0\0'
    if n > 127:
        return bytes([tag, 0x82]) + n.to_bytes(2, 'big') + body
    return bytes([tag, n]) + body


def number(key, x):
    """A drawn number: as it is, or near a number of the key."""
    if isinstance(x, int):
        return x
    base, d = x
    return {'q': getattr(key, 'q', 5), 'p': getattr(key, 'p', 7), 'n': getattr(key, 'n', 11) or 11,
            'zero': 0}[base] + d


NUM = st.one_of(st.integers(-3, 3), st.integers(0, 2 ** 170), st.integers(0, 2 ** 1100),
                st.tuples(st.sampled_from(['q', 'p', 'n', 'zero']), st.integers(-2, 2)).map(list))


def dsa_structure(key, case):
    r, s = (number(key, x) for x in case['nums'])

    def num(x):
        return der(2, x.to_bytes(x.bit_length() // 8 + 1, 'big', signed=True))
    form = case['form']
    out = [num(r), num(s)]
    if case['extra']:
        out += [der(case['extra'], b'\x01')]
    b = der(0x30, b''.join(out), form)
    for _ in range(case['depth']):
        b = der(0x30, b, form)
    return b


STRUCT = {'nums': st.lists(NUM, min_size=2, max_size=2), 'form': st.integers(0, 2),
          'extra': st.sampled_from([0, 0, 0, 2, 4, 1, 0x31, 0xa0, 6]),
          'depth': st.sampled_from([0, 0, 0, 1, 2, 30])}


@R.prop(st.fixed_dictionaries(dict({
    'entries': SSETS, 'how': st.sampled_from(['bytes', 'text', 'header', 'header', 'number', 'number',
                                              'muts', 'nested']),
    'data': junk(), 'text': TEXT, 'muts': st.lists(gens.mutations(), min_size=1, max_size=4),
    'public': st.booleans(), 'which': st.integers(0, 3), 'nonce': gens.bstr(0, 20),
    'api': st.sampled_from(['versioned', 'attached', 'unversioned'])}, **STRUCT)),
    quick=1900, thorough=100000)
def signatures(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    api, how, nonce, msg = case['api'], case['how'], case['nonce'], 'message'
    pub = case['public'] and ks.kind.endswith('PRIV')
    reader = (ks.public_set() if pub else ks).reader
    if api == 'unversioned':
        signer = keyczar.UnversionedSigner(ks.reader())
        v = keyczar.UnversionedVerifier(reader())
        good = signer.Sign(msg)
    else:
        signer = keyczar.Signer(ks.reader())
        v = keyczar.Verifier(reader())
        good = signer.Sign(msg) if api == 'versioned' else signer.AttachedSign(msg, nonce)

    def check(sig, **kw):
        if api == 'attached':
            return v.AttachedVerify(sig, nonce, **kw)
        return v.Verify(msg, sig, **kw)
    key = ks.entries[case['which'] % len(ks.entries)][2]
    data = B(case['data'])
    head = b'' if api == 'unversioned' else key.header()
    if api == 'attached' and how != 'header':
        head += ref.lp(B(msg))
    accept = {'attached': msg}.get(api, True)
    refuse = [None] if api == 'attached' else [False]
    if how == 'text':
        answer(lambda: check(case['text']), how, refuse)
    else:
        if how == 'bytes':
            b = data
        elif how == 'header':
            b = head + data
        elif how == 'number':
            if ks.kind.startswith('DSA'):
                b = head + dsa_structure(key, case)
            else:
                n = abs(number(key, case['nums'][0]))
                size = max(0, getattr(key, 'k', 20) + case['depth'] - 2 * case['form'])
                b = head + (n % 256 ** size).to_bytes(size, 'big')
        elif how == 'nested':
            b = head + [b'\x30\x80', b'\x30', b'\xa0\x80', b'\x30\x84', b'\x02\x80'][
                case['form'] + case['depth'] % 3] * (case['depth'] * 80 + 3) + data[:5]
        else:
            b = ref.b64d(good)
            for m in case['muts']:
                b = gens.mutate(b, m)
        allowed = list(refuse)
        if how != 'bytes' and ref_verifies(ks, api, b, msg, nonce):
            allowed.append(accept)
        for fn in both(check, b):
            answer(fn, how, allowed)
        ctx.nontrivial(len(b) > 5)
    require(check(good) == accept, 'the verifier broke')
    ctx.label(how, api, ks.kind)


def ref_verifies(ks, api, b, msg, nonce):
    if api == 'unversioned':
        return any(k.verify(B(msg), b) for _, _, k in ks.entries)
    if api == 'attached':
        n = int.from_bytes(b[5:9], 'big')
        if len(b) < 9 + n or b[9:9 + n] != B(msg):
            return False
        return any(k.header() == b[:5] and k.verify(ref.signed_form(B(msg), B(nonce)), b[9 + n:])
                   for _, _, k in ks.entries)
    return any(k.header() == b[:5] and k.verify(ref.signed_form(B(msg)), b[5:])
               for _, _, k in ks.entries)


# --- sessions ------------------------------------------------------------------
JVAL = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-3, 2 ** 40), st.text(max_size=6),
                              st.floats(allow_nan=False), gens.bstr(0, 20).map(lambda s: s)),
                    lambda c: st.one_of(st.lists(c, max_size=3),
                                        st.dictionaries(st.text(max_size=4), c, max_size=3)),
                    max_leaves=5)


@R.prop(st.fixed_dictionaries({
    'signed': st.booleans(), 'how': st.sampled_from(['text', 'data', 'keys', 'keys', 'field', 'field']),
    'data': junk(), 'text': TEXT, 'sizes': st.lists(st.integers(0, 70), max_size=4),
    'field': st.sampled_from(['nonce', 'key', 'aesKeyString', 'size', 'mode', 'hmacKey',
                              'hmacKeyString', 'hmac size']),
    'drop': st.booleans(), 'value': JVAL, 'odd': st.sampled_from(['', 'AAAA', 'A', '*', 'AA==', 'CTR', 'ECB',
                                                              'DET_CBC', 'CBC', 'HMAC_SHA1']),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}), quick=2000, thorough=60000)
def session_material(case, ctx):
    """Crafted session material (anybody with the public key can make it): a Keyczar error when it
    is opened or used."""
    key = ref.AesKey(b'k' * 16, b'h' * 32)
    crypter = keyczar.Crypter(single(key, CRYPT).reader())
    signer = keyczar.Signer(single(ref.HmacKey(b's' * 32), SIGN).reader())
    how = case['how']
    good = {'key': json.loads(ref.AesKey(b'a' * 16, b'b' * 32).json()), 'nonce': ref.b64e(b'n' * 16)}
    if how == 'text':
        material = case['text']
    else:
        if how == 'data':
            body = B(case['data'])
        elif how == 'keys':
            if case['signed']:
                d = dict(good)
                n = (case['sizes'] + [16, 32, 16])[:3]
                d['key'] = json.loads(ref.AesKey(b'a' * n[0], b'b' * n[1]).json())
                d['nonce'] = ref.b64e(b'n' * n[2])
                body = json.dumps(d).encode()
            else:
                body = len(case['sizes']).to_bytes(4, 'big') + b''.join(
                    ref.lp(b'x' * n) for n in case['sizes'])
        else:
            d = json.loads(json.dumps(good))
            f = case['field']
            where = {'nonce': d, 'key': d, 'hmacKeyString': d['key']['hmacKey'],
                     'hmac size': d['key']['hmacKey']}.get(f, d['key'])
            f = f.split()[-1]
            if case['drop']:
                where.pop(f, None)
            elif case['odd']:
                where[f] = case['odd']
            else:
                where[f] = case['value']
            body = json.dumps(d).encode()
        material = ref.b64e(key.encrypt(body, b'i' * 16))
    make = ((lambda: keyczar.SignedSessionDecrypter(crypter, signer, material)) if case['signed']
            else (lambda: keyczar.SessionDecrypter(crypter, material)))
    kind, s = outcome(make)
    if kind == 'ok':
        # then using it must be safe as well
        blob = ref.AesKey(b'a' * 16, b'b' * 32).encrypt(b'message', b'i' * 16)
        for b in (blob, B(case['data'])):
            if case['signed']:
                for n in (b'n' * 16, b''):
                    sig = ref.attached_sig(ref.HmacKey(b's' * 32), b, n)
                    k, r = outcome(lambda: s.Decrypt(ref.b64e(sig)))
                    require(k == 'error' or r is None or r == 'message', 'gives %s', short(r))
            k, r = outcome(lambda: s.Decrypt(ref.b64e(b)))
            require(k == 'error' or r is None or r == 'message', 'gives %s', short(r))
    ctx.label(how, kind)
    require(crypter.Decrypt(crypter.Encrypt('after')) == 'after', 'the crypter broke')
    require(signer.Verify('m', signer.Sign('m')), 'the signer broke')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'signed': st.booleans(), 'how': st.sampled_from(['text', 'bytes', 'header', 'muts']),
    'data': junk(), 'text': TEXT, 'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
    quick=900, thorough=30000)
def session_data(case, ctx):
    key = ref.AesKey(b'k' * 16, b'h' * 32)
    crypter = keyczar.Crypter(single(key, CRYPT).reader())
    hm = ref.HmacKey(b's' * 32)
    signer = keyczar.Signer(single(hm, SIGN).reader())
    if case['signed']:
        e = keyczar.SignedSessionEncrypter(crypter, signer)
        d = keyczar.SignedSessionDecrypter(crypter, signer, e.session_material)
    else:
        e = keyczar.SessionEncrypter(crypter)
        d = keyczar.SessionDecrypter(crypter, e.session_material)
    good = e.Encrypt('before')
    how = case['how']
    data = B(case['data'])
    b = ref.b64d(good)
    if how == 'text':
        t = case['text']
    else:
        if how == 'bytes':
            b = data
        elif how == 'header':
            b = b[:5] + data
        else:
            for m in case['muts']:
                b = gens.mutate(b, m)
        t = ref.b64e(b)
    answer(lambda: d.Decrypt(t), how, [None, 'before'] if t == good else [None])
    require(d.Decrypt(good) == 'before', 'the decrypter broke')
    ctx.label(how)
    ctx.nontrivial(len(t) > 5)


# --- streams ---------------------------------------------------------------------
@R.prop(st.fixed_dictionaries({
    'entries': gens.entries(gens.aes_spec(), max_size=2), 'how': st.sampled_from(
        ['bytes', 'text', 'header', 'muts', 'short']),
    'data': junk(), 'text': TEXT, 'muts': st.lists(gens.mutations(), min_size=1, max_size=3),
    'schedule': streams.SCHEDULE, 'reads': streams.READS, 'buffer': streams.BUFFER}),
    quick=1500, thorough=50000)
def encrypted_streams(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    before = c.Encrypt('before')
    how = case['how']
    data = B(case['data'])
    if how == 'text':
        runs = [(case['text'], {})]
        b = None
    else:
        b = ref.b64d(before)
        if how == 'bytes':
            b = data
        elif how == 'header':
            b = ks.primary.header() + data
        elif how == 'short':
            b = b[:len(data) % len(b)]
        else:
            for m in case['muts']:
                b = gens.mutate(b, m)
        runs = [(ref.b64e(b), {}), (S(b), {'decoder': None})]
    allowed = ref_decrypt(ks, b) if b else []
    for text, kw in runs:
        r = c.CreateDecryptingStreamReader(streams.Source(text, case['schedule']),
                                           buffer_size=case['buffer'], **kw)
        kind, v = outcome(lambda: streams.drain(r.read, len(text), case['reads'],
                                                extra=len(text) + len(case['schedule'])))
        require(kind == 'error' or v[0] in allowed, 'the stream ends normally with %s', short(v))
    still_crypts(c, ks, before)
    ctx.label(how)
    ctx.nontrivial(len(data) > 5)
