"""C21: signed sessions authenticate and bind data to the session."""
import json

from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets for crypting and signing, several sessions and signers, and an '
          'interleaving of messages; everything is tried with every session and verifier. '
          'Non-trivial: at least two messages, sessions or signers.')

# the JSON session material does not fit into one small RSA block
CSETS = st.integers(0, 9).flatmap(lambda i: gens.entries(gens.aes_spec(), max_size=2) if i < 8
                                  else gens.entries(gens.rsa_spec((4096,)), max_size=1))
SSETS = st.one_of(gens.entries(gens.hmac_spec(), max_size=3),
                  gens.entries(gens.dsa_spec(), max_size=2),
                  gens.entries(gens.rsa_spec((512, 1024)), max_size=2))


def open_material(ks, material):
    """(session key, nonce) in the material, by the reference."""
    try:
        d = json.loads(ks.primary.decrypt(ref.b64d(material)).decode('latin-1'))
        require(set(d) == {'key', 'nonce'}, 'fields %s', sorted(d))
        return ref.parse_key('AES', json.dumps(d['key'])), ref.b64d(d['nonce'])
    except (ref.RefError, ValueError, KeyError) as e:
        raise Violation('the material is not a session encrypted with the primary key: %r' % e)


def never(fn, msg):
    """fn gives None or a Keyczar error."""
    kind, r = outcome(fn)
    require(kind == 'error' or r is None, '%s: returned %s', msg, short(r))
    return kind


@R.prop(st.fixed_dictionaries({
    'crypt': CSETS, 'signers': st.lists(SSETS, min_size=1, max_size=2),
    'sessions': st.lists(st.integers(0, 1), min_size=1, max_size=3), 'public': st.booleans(),
    'msgs': st.lists(st.tuples(st.integers(0, 2), gens.messages(300)).map(list), min_size=1,
                     max_size=6)}), quick=240, thorough=8000, min_shard=60)
def sessions(case, ctx):
    ks = KeySet.from_case(CRYPT, case['crypt'])
    crypter = keyczar.Crypter(ks.reader())
    enc = crypter
    if case['public'] and ks.kind == 'RSA_PRIV':
        enc = keyczar.Encrypter(ks.public_set().reader())
    sks = [KeySet.from_case(SIGN, e) for e in case['signers']]
    signers = [keyczar.Signer(s.reader()) for s in sks]
    verifiers = [keyczar.Verifier((s.public_set() if case['public'] and s.kind.endswith('PRIV')
                                   else s).reader()) for s in sks]
    which = [i % len(sks) for i in case['sessions']]
    se = [keyczar.SignedSessionEncrypter(enc, signers[i]) for i in which]
    mats = [s.session_material for s in se]
    real = [open_material(ks, m) for m in mats]
    require(len(set(k.key for k, n in real)) == len(se), 'two sessions share a key')
    require(len(set(n for k, n in real)) == len(se), 'two sessions share a nonce')
    for k, n in real:
        require(len(k.key) == 16 and len(k.mac) == 32 and len(n) == 16, 'sizes of the session')
    sd = [[keyczar.SignedSessionDecrypter(crypter, v, m) for v in verifiers] for m in mats]
    blobs = []
    for i, msg in case['msgs']:
        i %= len(se)
        blob = se[i].Encrypt(msg)
        key, nonce = real[i]
        b = ref.b64d(blob)
        prim = sks[which[i]].primary
        require(b[:5] == prim.header(), 'not signed by the primary key')
        n = int.from_bytes(b[5:9], 'big')
        ct, sig = b[9:9 + n], b[9 + n:]
        require(prim.verify(ref.signed_form(ct, nonce), sig), 'the reference refuses the signature')
        try:
            require(key.decrypt(ct) == B(msg), 'the reference reads another message')
        except ref.RefError as e:
            raise Violation('not encrypted with the session key: %s' % e)
        blobs.append((i, msg, blob))
        # and the other way
        mine = key.encrypt(B(msg), bytes(range(16)))
        out = sd[i][which[i]].Decrypt(ref.b64e(ref.attached_sig(prim, mine, nonce, 9)))
        require(out == msg, 'data of the reference is read as %s', short(out))
    ids = [[k.header() for _, _, k in s.entries] for s in sks]
    for i, msg, blob in blobs:
        for j in range(len(se)):
            for v in range(len(sks)):
                same_key = sks[which[i]].primary.header() in ids[v]
                if i == j and same_key:
                    r = sd[j][v].Decrypt(blob)
                    require(r == msg, 'decrypts to %s', short(r))
                    continue
                never(lambda: sd[j][v].Decrypt(blob),
                      'another session' if same_key else 'another signer')
                ctx.label('another session' if same_key else 'another signer')
    ctx.label(ks.kind, *[s.kind for s in sks])
    ctx.nontrivial(len(blobs) + len(se) + len(sks) > 3)


@R.prop(st.fixed_dictionaries({
    'crypt': CSETS, 'sign': SSETS, 'msg': gens.bstr(0, 40), 'what': st.sampled_from([0, 1, 1]),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}), quick=600, thorough=15000)
def altered(case, ctx):
    ks = KeySet.from_case(CRYPT, case['crypt'])
    sks = KeySet.from_case(SIGN, case['sign'])
    crypter = keyczar.Crypter(ks.reader())
    signer = keyczar.Signer(sks.reader())
    se = keyczar.SignedSessionEncrypter(crypter, signer)
    blob = se.Encrypt(case['msg'])
    orig = ref.b64d(blob if case['what'] else se.session_material)
    b = orig
    for m in case['muts']:
        b = gens.mutate(b, m)
    if b == orig:
        return
    if case['what']:
        sd = keyczar.SignedSessionDecrypter(crypter, signer, se.session_material)
        never(lambda: sd.Decrypt(ref.b64e(b)), 'altered data')
        require(sd.Decrypt(blob) == case['msg'], 'the decrypter broke')
        ctx.label('altered data')
    else:
        if ks.kind == 'RSA_PRIV' and b[:5] == orig[:5] and int.from_bytes(
                b[5:], 'big') == int.from_bytes(orig[5:], 'big'):
            return
        raises(lambda: keyczar.SignedSessionDecrypter(crypter, signer, ref.b64e(b)))
        ctx.label('altered material')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'crypt': CSETS, 'sign': SSETS, 'msg': gens.bstr(0, 40), 'forge': st.sampled_from(
        ['plain', 'nonce', 'no nonce', 'empty nonce', 'swap', 'unsigned', 'cut', 'foreign key']),
    'pos': gens.POS}), quick=400, thorough=12000)
def forged(case, ctx):
    """Crafted data: properly signed without or with another nonce, signed data of another
    session's key, signatures of other data."""
    ks = KeySet.from_case(CRYPT, case['crypt'])
    sks = KeySet.from_case(SIGN, case['sign'])
    crypter = keyczar.Crypter(ks.reader())
    signer = keyczar.Signer(sks.reader())
    se = keyczar.SignedSessionEncrypter(crypter, signer)
    key, nonce = open_material(ks, se.session_material)
    prim = sks.primary
    msg = B(case['msg'])
    ct = key.encrypt(msg, b'i' * 16)
    f = case['forge']
    if f == 'plain':           # a versioned signature with the data in front
        blob = prim.header() + ref.lp(ct) + prim.sign(ref.signed_form(ct), 5)
    elif f == 'nonce':
        other = bytearray(nonce)
        other[case['pos'] % 16] ^= 1 << (case['pos'] % 8)
        blob = ref.attached_sig(prim, ct, bytes(other), 5)
    elif f == 'no nonce':
        blob = prim.header() + ref.lp(ct) + prim.sign(ct + b'\0', 5)
    elif f == 'empty nonce':
        blob = ref.attached_sig(prim, ct, b'', 5)
    elif f == 'swap':
        ct2 = key.encrypt(msg + b'!', b'j' * 16)
        blob = prim.header() + ref.lp(ct2) + prim.sign(ref.signed_form(ct, nonce), 5)
    elif f == 'unsigned':
        blob = prim.header() + ref.lp(ct)
    elif f == 'cut':
        whole = ref.attached_sig(prim, ct, nonce, 5)
        blob = whole[:case['pos'] % len(whole)]
    else:                      # signed well, but encrypted with another key
        bad = ref.AesKey(b'\x55' * 16, b'\xaa' * 32)
        blob = ref.attached_sig(prim, bad.encrypt(msg, b'i' * 16), nonce, 5)
    sd = keyczar.SignedSessionDecrypter(crypter, signer, se.session_material)
    never(lambda: sd.Decrypt(ref.b64e(blob)), f)
    good = ref.b64e(ref.attached_sig(prim, ct, nonce, 5))
    require(sd.Decrypt(good) == case['msg'], 'the decrypter broke')
    ctx.label(f)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'crypt': gens.entries(gens.aes_spec(), max_size=1), 'sign': SSETS, 'msg': gens.bstr(0, 40),
    'key': gens.aes_spec(), 'nonce': st.one_of(gens.bstr(16, 16), gens.bstr(0, 40), st.just('')),
    'forge': st.sampled_from(['none', 'header', 'sign other', 'sign plain', 'cut sig', 'mutate',
                              'junk sig', 'bare', 'other signer']),
    'mut': gens.mutations()}), quick=400, thorough=12000)
def material_of_the_reference(case, ctx):
    """Sessions with any nonce, also an empty one: unsigned data is never read."""
    ks = KeySet.from_case(CRYPT, case['crypt'])
    sks = KeySet.from_case(SIGN, case['sign'])
    key, nonce, prim = keypool.make(case['key']), B(case['nonce']), sks.primary
    mat = ref.b64e(ks.primary.encrypt(json.dumps(
        {'key': json.loads(key.json()), 'nonce': ref.b64e(nonce)}).encode(), b's' * 16))
    crypter, verifier = keyczar.Crypter(ks.reader()), keyczar.Verifier(sks.reader())
    kind, sd = outcome(lambda: keyczar.SignedSessionDecrypter(crypter, verifier, mat))
    if kind == 'error':
        require(len(nonce) != 16, 'the session is refused: %s', sd)
        return
    msg = B(case['msg'])
    ct = key.encrypt(msg, b'i' * 16)
    good = ref.attached_sig(prim, ct, nonce, 5)
    if len(nonce) == 16:
        require(sd.Decrypt(ref.b64e(good)) == case['msg'], 'genuine data is not read')
    sig = good[9 + len(ct):]
    f = case['forge']
    front = prim.header() + ref.lp(ct)
    if f == 'none':
        bad = front
    elif f == 'header':
        bad = front + prim.header()
    elif f == 'sign other':
        bad = front + prim.sign(ref.signed_form(ct, nonce + b'x'), 5)
    elif f == 'sign plain':
        bad = front + prim.sign(ct + b'\0', 5)
    elif f == 'cut sig':
        bad = front + sig[:len(sig) // 2]
    elif f == 'junk sig':
        bad = front + bytes(x ^ 0x55 for x in sig)
    elif f == 'bare':
        bad = ct
    elif f == 'other signer':
        bad = front + ref.HmacKey(b'z' * 32).sign(ref.signed_form(ct, nonce))
    else:
        bad = gens.mutate(good, case['mut'])
    if bad == good:
        return
    never(lambda: sd.Decrypt(ref.b64e(bad)), f)
    ctx.label(f, 'nonce of %s' % ('16' if len(nonce) == 16 else len(nonce) and 'another length'))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'crypt': CSETS, 'bad': st.one_of(st.sampled_from(
        ['', '{}', '[]', 'null', '1', '"x"', '{"key": {}}', '{"nonce": "AAAA"}',
         '{"key": null, "nonce": "AAAA"}', '{"key": {}, "nonce": "AAAA"}', '{"key": 1, "nonce": 2}',
         '[1]', '{', '\x00', 'true', '{"key": [], "nonce": []}']), gens.bstr(0, 40))}),
    quick=250, thorough=5000)
def material_that_holds_no_session(case, ctx):
    ks = KeySet.from_case(CRYPT, case['crypt'])
    crypter = keyczar.Crypter(ks.reader())
    signer = keyczar.Signer(single(ref.HmacKey(b'h' * 32), SIGN).reader())
    mat = ref.b64e(ks.primary.encrypt(B(case['bad']), b's' * (16 if ks.kind == 'AES' else 20)))
    raises(lambda: keyczar.SignedSessionDecrypter(crypter, signer, mat))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'sign': gens.entries(gens.hmac_spec(), max_size=2), 'msgs': st.lists(gens.bstr(0, 40), min_size=1, max_size=4),
    'ops': st.lists(st.tuples(st.sampled_from(['good', 'sig', 'data', 'mutate']), st.integers(0, 3),
                              st.integers(0, 3), gens.mutations()).map(list),
                    min_size=2, max_size=10)}), quick=250, thorough=8000)
def histories(case, ctx):
    """One decrypter reads genuine data, data of another session and splices in turns."""
    crypter = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT).reader())
    signer = keyczar.Signer(KeySet.from_case(SIGN, case['sign']).reader())
    se = [keyczar.SignedSessionEncrypter(crypter, signer) for _ in range(2)]
    sd = [keyczar.SignedSessionDecrypter(crypter, signer, s.session_material) for s in se]
    good = [(i % 2, m, ref.b64d(se[i % 2].Encrypt(m))) for i, m in enumerate(case['msgs'])]
    bad = 0
    for op, i, j, mut in case['ops']:
        w, m, b = good[i % len(good)]
        _, _, b2 = good[j % len(good)]
        if op == 'good':
            require(sd[w].Decrypt(ref.b64e(b)) == m, 'genuine data is not read')
            never(lambda: sd[1 - w].Decrypt(ref.b64e(b)), 'other session')
            continue
        if op == 'sig':
            b = b[:-20] + b2[-20:]
        elif op == 'data':
            b = b2[:-20] + b[-20:]
        else:
            b = gens.mutate(b, mut)
        if b in [x for _, _, x in good]:
            continue
        for d in sd:
            never(lambda: d.Decrypt(ref.b64e(b)), op)
        bad += 1
    ctx.nontrivial(bad > 0)


@R.enum(lambda tier: [{'len': n} for n in LARGE + HUGE])
def large(case, ctx):
    crypter = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT).reader())
    signer = keyczar.Signer(single(ref.HmacKey(b's' * 32), SIGN).reader())
    se = keyczar.SignedSessionEncrypter(crypter, signer)
    sd = keyczar.SignedSessionDecrypter(crypter, signer, se.session_material)
    msg = big(case['len'])
    b = ref.b64d(se.Encrypt(msg))
    require(sd.Decrypt(ref.b64e(b)) == msg, 'round trip')
    for i in (40, len(b) // 2, len(b) - 50, len(b) - 1):
        never(lambda: sd.Decrypt(ref.b64e(b[:i] + bytes([b[i] ^ 1]) + b[i + 1:])), 'altered')
    ctx.nontrivial()


@R.enum(lambda tier: [{'n': 400 if tier == 'quick' else 6000}])
def many_messages(case, ctx):
    """One session, hundreds of messages, read in order and again later."""
    crypter = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT).reader())
    signer = keyczar.Signer(single(ref.HmacKey(b's' * 32), SIGN).reader())
    se = keyczar.SignedSessionEncrypter(crypter, signer)
    material = se.session_material
    sd = keyczar.SignedSessionDecrypter(crypter, signer, material)
    seen = []
    for i in range(case['n']):
        msg = '%d' % i * (i % 9)
        ct = se.Encrypt(msg)
        require(sd.Decrypt(ct) == msg, 'message %d', i)
        seen.append((msg, ct))
    require(se.session_material == material, 'the session material changed')
    require(len(set(ct for _, ct in seen)) == len(seen), 'ciphertexts repeat')
    late = keyczar.SignedSessionDecrypter(crypter, signer, se.session_material)
    for d in (sd, late):
        for msg, ct in seen[::-3]:
            require(d.Decrypt(ct) == msg, 'read later')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'crypt': gens.entries(gens.aes_spec(), max_size=2), 'sign': SSETS,
                               'key': gens.aes_spec(), 'msg': gens.messages(200),
                               'nonce': gens.bstr(0, 40), 'iv': gens.hexbytes(16)}),
        quick=200, thorough=5000)
def sessions_of_others(case, ctx):
    """Material and data by the reference, with session keys and nonces of every size."""
    ks, ss = KeySet.from_case(CRYPT, case['crypt']), KeySet.from_case(SIGN, case['sign'])
    k = keypool.make(case['key'])
    mat = json.dumps({'key': json.loads(k.json()), 'nonce': ref.b64e(B(case['nonce']))})
    d = keyczar.SignedSessionDecrypter(
        keyczar.Crypter(ks.reader()), keyczar.Verifier(ss.reader()),
        ref.b64e(ks.primary.encrypt(mat.encode(), b's' * 16)))
    ct = k.encrypt(B(case['msg']), bytes.fromhex(case['iv']))
    blob = ref.attached_sig(ss.primary, ct, B(case['nonce']), 77)
    require(d.Decrypt(ref.b64e(blob)) == case['msg'], 'not read')
    for other in (B(case['nonce']) + b'x', B(case['nonce'])[:-1] or b'y', None):
        never(lambda: d.Decrypt(ref.b64e(ref.attached_sig(ss.primary, ct, other, 77))), 'other nonce')
    ctx.label('session key of %d bits' % (8 * len(k.key)))
    ctx.nontrivial()
