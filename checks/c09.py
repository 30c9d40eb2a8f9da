"""C09: outputs name their key, and the named key alone is used."""
import io

from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are reference keys of all types and number encodings, key sets, and headers. '
          'Non-trivial: a header was compared with the reference hash, or a foreign header was '
          'presented.')

ANY = st.one_of(gens.aes_spec(), gens.hmac_spec(), gens.varied_rsa(), gens.varied_dsa())
TYPE = {'AES': keyinfo.AES, 'HMAC_SHA1': keyinfo.HMAC_SHA1, 'RSA_PRIV': keyinfo.RSA_PRIV,
        'DSA_PRIV': keyinfo.DSA_PRIV}


@R.prop(st.fixed_dictionaries({'spec': ANY}), quick=700, thorough=12000)
def hash_of_key(case, ctx):
    """The hash equals the reference in every representation of the key."""
    k = keypool.make_varied(case['spec'])
    want = k.header()
    key = keys.ReadKey(TYPE[k.kind], k.json())
    seen = [('read', key), ('read again', keys.ReadKey(TYPE[k.kind], str(key)))]
    if k.kind in ('RSA_PRIV', 'DSA_PRIV'):
        pub_type = keyinfo.RSA_PUB if k.kind == 'RSA_PRIV' else keyinfo.DSA_PUB
        pub = keys.ReadKey(pub_type, k.public_json())
        seen += [('public half', key.public_key), ('public key', pub),
                 ('public read again', keys.ReadKey(pub_type, str(pub)))]
    for what, x in seen:
        require(B(x.Header()) == want, '%s: header %s, expected %s', what,
                B(x.Header()).hex(), want.hex())
        require(x.hash_id == ref.b64e(want[1:]), '%s: hash id', what)
    ctx.label(k.kind)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.crypt_entries(rsa_sizes=(512, 1024), many=True),
                               'msg': gens.bstr(0, 20)}), quick=250, thorough=4000)
def ciphertext_header(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    raw = B(keyczar.Encrypter(ks.reader()).Encrypt(case['msg'], None))
    require(raw[:5] == ks.primary.header(), 'header %s', raw[:5].hex())
    if ks.kind == 'AES':
        out = io.StringIO(newline='')
        w = keyczar.Encrypter(ks.reader()).CreateEncryptingStreamWriter(out, encoder=None)
        w.write(case['msg'])
        w.flush()
        require(B(out.getvalue())[:5] == ks.primary.header(), 'stream header')
    else:
        raw = B(keyczar.Encrypter(ks.public_set().reader()).Encrypt(case['msg'], None))
        require(raw[:5] == ks.primary.header(), 'header by the public key')
    ctx.label(ks.kind)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512, 1024), many=True),
                               'msg': gens.bstr(0, 20)}), quick=250, thorough=4000)
def signature_header(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    s = keyczar.Signer(ks.reader())
    for raw in (B(s.Sign(case['msg'], None)), B(s.AttachedSign(case['msg'], 'n', None))):
        require(raw[:5] == ks.primary.header(), 'header %s', raw[:5].hex())
    ctx.label(ks.kind)
    ctx.nontrivial()


HEADER = st.one_of(
    st.tuples(st.just('version'), st.integers(1, 255)),
    st.tuples(st.just('hash'), gens.bstr(4, 4)),
    st.tuples(st.just('hashbit'), st.integers(0, 31)),
    st.tuples(st.just('both'), st.integers(1, 255), gens.bstr(4, 4)),
    st.tuples(st.just('rotate'), st.integers(1, 3)),
    st.tuples(st.just('reverse'))).map(list)


def header(h, hdr, entries):
    n = int.from_bytes(hdr[1:], 'big')
    if h[0] == 'version':
        return bytes([h[1]]) + hdr[1:]
    if h[0] == 'hash':
        return hdr[:1] + B(h[1])
    if h[0] == 'hashbit':
        return hdr[:1] + (n ^ (1 << h[1])).to_bytes(4, 'big')
    if h[0] == 'both':
        return bytes([h[1]]) + B(h[2])
    if h[0] == 'rotate':
        return hdr[:1] + hdr[1 + h[1]:] + hdr[1:1 + h[1]]
    return hdr[:1] + hdr[:0:-1]


@R.prop(st.fixed_dictionaries({'entries': gens.crypt_entries(rsa_sizes=(512,), max_size=3, many=True),
                               'hdr': HEADER, 'msg': gens.bstr(0, 20)}), quick=400, thorough=6000)
def unknown_key_ciphertext(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    raw = B(cr.Encrypt(case['msg'], None))
    hdr = header(case['hdr'], raw[:5], ks.entries)
    if hdr in [k.header() for _, _, k in ks.entries]:
        return
    err = errors.BadVersionError if hdr[0] else errors.KeyNotFoundError
    raises(lambda: cr.Decrypt(S(hdr + raw[5:]), None), err)
    raises(lambda: cr.Decrypt(ref.b64e(hdr + raw[5:])), err)
    if ks.kind == 'AES':
        rd = cr.CreateDecryptingStreamReader(io.StringIO(S(hdr + raw[5:]), newline=''),
                                             decoder=None)
        raises(rd.read, err)
    ctx.label(case['hdr'][0])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3, many=True),
                               'hdr': HEADER, 'msg': gens.bstr(0, 20)}), quick=400, thorough=6000)
def unknown_key_signature(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    s = keyczar.Signer(ks.reader())
    raw = B(s.Sign(case['msg'], None))
    blob = B(s.AttachedSign(case['msg'], 'n', None))
    hdr = header(case['hdr'], raw[:5], ks.entries)
    if hdr in [k.header() for _, _, k in ks.entries]:
        return
    err = errors.BadVersionError if hdr[0] else errors.KeyNotFoundError
    vs = [s, keyczar.Verifier(ks.reader())]
    if ks.kind != 'HMAC_SHA1':
        vs.append(keyczar.Verifier(ks.public_set().reader()))
    for v in vs:
        raises(lambda: v.Verify(case['msg'], S(hdr + raw[5:]), None), err)
        raises(lambda: v.AttachedVerify(S(hdr + blob[5:]), 'n', None), err)
    ctx.label(case['hdr'][0])
    ctx.nontrivial()


@R.enum(lambda tier: [{'v': v} for v in range(256)])
def every_version_byte(case, ctx):
    """Version byte v, with a known and an unknown key hash."""
    a, h = ref.AesKey(b'k' * 16, b'm' * 32), ref.HmacKey(b'k' * 32)
    cr = keyczar.Crypter(single(a, CRYPT).reader())
    sg = keyczar.Signer(single(h, SIGN).reader())
    ct, sig = B(cr.Encrypt('m', None)), B(sg.Sign('m', None))
    v = bytes([case['v']])
    if case['v'] == 0:
        require(cr.Decrypt(S(v + ct[1:]), None) == 'm', 'version 0 ciphertext')
        require(sg.Verify('m', S(v + sig[1:]), None) is True, 'version 0 signature')
    else:
        raises(lambda: cr.Decrypt(S(v + ct[1:]), None), errors.BadVersionError)
        raises(lambda: sg.Verify('m', S(v + sig[1:]), None), errors.BadVersionError)
        raises(lambda: cr.Decrypt(S(v + b'\0' * 60), None), errors.BadVersionError)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.crypt_entries(rsa_sizes=(512,), min_size=2, many=True),
                               'by': st.integers(0, 47), 'msg': gens.bstr(0, 20)}),
        quick=200, thorough=3000)
def named_key_is_used(case, ctx):
    """A ciphertext of any key of the set decrypts; without that key it is not found."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    v, s, k = ks.entries[case['by'] % len(ks.entries)]
    raw = k.encrypt(B(case['msg']), b's' * (16 if k.kind == 'AES' else 20))
    require(keyczar.Crypter(ks.reader()).Decrypt(S(raw), None) == case['msg'],
            'version %d (%s)', v, s)
    rest = KeySet(CRYPT, [e for e in ks.entries if e[0] != v])
    raises(lambda: keyczar.Crypter(rest.reader()).Decrypt(S(raw), None), errors.KeyNotFoundError)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'crypt': gens.crypt_entries(rsa_sizes=(512, 768), min_size=2),
                               'sign': gens.sign_entries(rsa_sizes=(512, 768), min_size=2),
                               'by': st.integers(0, 3), 'other': st.integers(1, 3),
                               'msg': gens.bstr(0, 20)}), quick=300, thorough=6000)
def misnamed_key(case, ctx):
    """Output of one key of the set that names another one is not accepted."""
    ks = KeySet.from_case(CRYPT, case['crypt'])
    i = case['by'] % len(ks.entries)
    j = (i + 1 + case['other'] % (len(ks.entries) - 1)) % len(ks.entries)
    k, o = ks.entries[i][2], ks.entries[j][2]
    raw = k.encrypt(B(case['msg']), b's' * (16 if k.kind == 'AES' else 20))
    cr = keyczar.Crypter(ks.reader())
    require(cr.Decrypt(S(raw), None) == case['msg'], 'genuine')
    raises(lambda: cr.Decrypt(S(o.header() + raw[5:]), None))
    ctx.label(k.kind)
    ks = KeySet.from_case(SIGN, case['sign'])
    i = case['by'] % len(ks.entries)
    j = (i + 1 + case['other'] % (len(ks.entries) - 1)) % len(ks.entries)
    k, o = ks.entries[i][2], ks.entries[j][2]
    sig = ref.versioned_sig(k, B(case['msg']), 77)
    blob = ref.attached_sig(k, B(case['msg']), b'n', 77)
    vs = [keyczar.Verifier(ks.reader()), keyczar.Signer(ks.reader())]
    if k.kind != 'HMAC_SHA1':
        vs.append(keyczar.Verifier(ks.public_set().reader()))
    for v in vs:
        require(v.Verify(case['msg'], S(sig), None) is True, 'genuine')
        for call in (lambda: v.Verify(case['msg'], S(o.header() + sig[5:]), None),
                     lambda: v.AttachedVerify(S(o.header() + blob[5:]), 'n', None)):
            kind, r = outcome(call)
            require(kind == 'error' or not r, 'accepted for another key')
    ctx.label(k.kind)
    ctx.nontrivial()
