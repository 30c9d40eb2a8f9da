"""C20: session encryption round-trips and needs the right session."""
from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets, several sessions on them and an interleaving of messages, each '
          'decrypted with every session. Non-trivial: at least two messages or two sessions.')

SETS = st.one_of(gens.entries(gens.aes_spec(), max_size=3), gens.entries(gens.aes_spec(), max_size=3),
                 gens.entries(gens.rsa_spec((1024, 2048)), max_size=2))


def packed(key):
    return ref.pack_session(key)


def unpack(b):
    """(AES key, HMAC key) from packed material, strictly."""
    require(b[:4] == b'\0\0\0\x02', 'material starts with %s', b[:4].hex())
    out, i = [], 4
    for _ in range(2):
        n = int.from_bytes(b[i:i + 4], 'big')
        out.append(b[i + 4:i + 4 + n])
        require(len(out[-1]) == n, 'material is cut')
        i += 4 + n
    require(i == len(b), 'material has a tail')
    return out


def open_material(ks, material):
    """The session key in the material, by the reference."""
    try:
        return ref.AesKey(*unpack(ks.primary.decrypt(ref.b64d(material))))
    except (ref.RefError, ValueError) as e:
        raise Violation('the material is not encrypted with the primary key: %r' % e)


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'public': st.booleans(), 'sessions': st.integers(1, 3),
    'msgs': st.lists(st.tuples(st.integers(0, 2), gens.messages(600), st.booleans()).map(list),
                     min_size=1, max_size=8)}), quick=500, thorough=12000)
def sessions(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    crypter = keyczar.Crypter(ks.reader())
    if case['public'] and ks.kind == 'RSA_PRIV':
        enc = keyczar.Encrypter(ks.public_set().reader())
        ctx.label('public encrypter')
    else:
        enc = crypter
    n = case['sessions']
    se = [keyczar.SessionEncrypter(enc) for _ in range(n)]
    mats = [s.session_material for s in se]
    real = [open_material(ks, m) for m in mats]
    for k in real:
        require(len(k.key) == 16 and len(k.mac) == 32, 'session key of %d bits, mac key of %d',
                8 * len(k.key), 8 * len(k.mac))
    require(len(set(k.key for k in real)) == n and len(set(k.mac for k in real)) == n,
            'two sessions share a key')
    sd = [keyczar.SessionDecrypter(crypter, m) for m in mats]
    cts = []
    for i, msg, raw in case['msgs']:
        i %= n
        ct = se[i].Encrypt(msg, None) if raw else se[i].Encrypt(msg)
        b = B(ct) if raw else ref.b64d(ct)
        try:
            require(real[i].decrypt(b) == B(msg), 'the reference reads another message')
        except ref.RefError as e:
            raise Violation('not encrypted with the session key: %s' % e)
        require(se[i].session_material == mats[i], 'the material changed')
        cts.append((i, msg, raw, ct))
        # a reference implementation's session data is read too
        iv = bytes(range(16))
        require(sd[i].Decrypt(S(real[i].encrypt(B(msg), iv)), None) == msg, 'reference data')
    for i, msg, raw, ct in cts:
        for j in range(n):
            args = (ct, None) if raw else (ct,)
            if i == j:
                require(sd[j].Decrypt(*args) == msg, 'decrypts to something else')
                again = keyczar.SessionDecrypter(keyczar.Crypter(ks.reader()), mats[j])
                require(again.Decrypt(*args) == msg, 'a second decrypter differs')
            else:
                raises(lambda: sd[j].Decrypt(*args))
                ctx.label('other session refused')
        raises(lambda: crypter.Decrypt(*((ct, None) if raw else (ct,))))
    ctx.label(ks.kind)
    ctx.nontrivial(len(cts) > 1 or n > 1)


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'other': SETS, 'msg': gens.bstr(0, 40),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=3), 'what': st.booleans()}),
    quick=700, thorough=20000)
def altered(case, ctx):
    """Altered material or data, and the wrong crypter, never give a plaintext."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    crypter = keyczar.Crypter(ks.reader())
    se = keyczar.SessionEncrypter(crypter)
    ct = se.Encrypt(case['msg'], None)
    mat = ref.b64d(se.session_material)
    other = KeySet.from_case(CRYPT, case['other'])
    if ks.primary.header() not in [k.header() for _, _, k in other.entries]:
        raises(lambda: keyczar.SessionDecrypter(keyczar.Crypter(other.reader()),
                                                se.session_material))
        ctx.label('other crypter')
    b = mat if case['what'] else B(ct)
    orig = b
    for m in case['muts']:
        b = gens.mutate(b, m)
    if b == orig:
        return
    if case['what']:
        if ks.kind == 'RSA_PRIV' and b[:5] == orig[:5] and int.from_bytes(
                b[5:], 'big') == int.from_bytes(orig[5:], 'big'):
            return
        raises(lambda: keyczar.SessionDecrypter(crypter, ref.b64e(b)))
        ctx.label('altered material')
    else:
        sd = keyczar.SessionDecrypter(crypter, se.session_material)
        raises(lambda: sd.Decrypt(S(b), None))
        require(sd.Decrypt(ct, None) == case['msg'], 'the decrypter broke')
        ctx.label('altered data')
    ctx.nontrivial()


BAD = st.one_of(
    gens.bstr(0, 40),
    st.builds(lambda n, parts: S(n.to_bytes(4, 'big') + b''.join(
        len(p.encode('latin-1')).to_bytes(4, 'big') + p.encode('latin-1') for p in parts)),
        st.sampled_from([0, 1, 3, 4, 2 ** 31, 2 ** 32 - 1]), st.lists(gens.bstr(0, 33), max_size=4)),
    st.builds(lambda a, b: S(b'\0\0\0\x02' + (len(a) + b).to_bytes(4, 'big') +
                             a.encode('latin-1')), gens.bstr(0, 20), st.integers(1, 2 ** 31 - 30)))


@R.prop(st.fixed_dictionaries({'entries': SETS, 'bad': BAD}), quick=300, thorough=6000)
def material_that_holds_no_session(case, ctx):
    """Correctly encrypted material that does not hold two packed keys is refused."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    b = B(case['bad'])
    if len(b) > 80:
        return
    try:
        unpack(b'\0\0\0\x02' + b[4:])      # the count is redundant and not read
        return
    except Violation:
        pass
    crypter = keyczar.Crypter(ks.reader())
    mat = ref.b64e(ks.primary.encrypt(b, b's' * (16 if ks.kind == 'AES' else 20)))
    raises(lambda: keyczar.SessionDecrypter(crypter, mat))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': gens.entries(gens.aes_spec(), max_size=2),
    'msgs': st.lists(gens.bstr(0, 40), min_size=1, max_size=4),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('good'), st.integers(0, 3)),
        st.tuples(st.just('splice'), st.lists(st.integers(0, 3), min_size=5, max_size=5)),
        st.tuples(st.just('mutate'), st.integers(0, 3), gens.mutations())).map(list),
        min_size=2, max_size=10)}), quick=250, thorough=8000)
def histories(case, ctx):
    """One session decrypter reads genuine data, data of another session and splices in turns."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    crypter = keyczar.Crypter(ks.reader())
    se = [keyczar.SessionEncrypter(crypter) for _ in range(2)]
    sd = [keyczar.SessionDecrypter(crypter, s.session_material) for s in se]
    good = [(i % 2, m, B(se[i % 2].Encrypt(m, None))) for i, m in enumerate(case['msgs'])]
    bad = 0
    for op in case['ops']:
        if op[0] == 'good':
            i, m, ct = good[op[1] % len(good)]
            require(sd[i].Decrypt(S(ct), None) == m, 'genuine data is not read')
            raises(lambda: sd[1 - i].Decrypt(S(ct), None))
            continue
        if op[0] == 'splice':
            b = b''.join([(c[:5], c[5:21], c[21:-36], c[-36:-20], c[-20:])[j] for j, c in
                          enumerate(good[i % len(good)][2] for i in op[1])])
        else:
            b = gens.mutate(good[op[1] % len(good)][2], op[2])
        if b in [ct for _, _, ct in good]:
            continue
        for d in sd:
            raises(lambda: d.Decrypt(S(b), None))
        bad += 1
    ctx.nontrivial(bad > 0)


@R.enum(lambda tier: [{'len': n} for n in LARGE + HUGE])
def large(case, ctx):
    crypter = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT).reader())
    se = keyczar.SessionEncrypter(crypter)
    sd = keyczar.SessionDecrypter(crypter, se.session_material)
    msg = big(case['len'])
    ct = se.Encrypt(msg, None)
    require(sd.Decrypt(ct, None) == msg, 'raw')
    require(sd.Decrypt(se.Encrypt(msg)) == msg, 'encoded')
    for i in (30, len(ct) // 2, len(ct) - 30):
        raises(lambda: sd.Decrypt(ct[:i] + chr(ord(ct[i]) ^ 1) + ct[i + 1:], None))
    ctx.nontrivial()


@R.enum(lambda tier: [{'kind': k, 'n': 400 if tier == 'quick' else 6000} for k in ('AES', 'RSA')])
def many_messages(case, ctx):
    """One session, hundreds of messages, read in order and again later."""
    k = ref.AesKey(b'k' * 16, b'h' * 32) if case['kind'] == 'AES' else keypool.make(['RSA', keypool.RSA_BY_SIZE[1024][0], 'pad'])
    crypter = keyczar.Crypter(single(k, CRYPT).reader())
    se = keyczar.SessionEncrypter(crypter)
    material = se.session_material
    sd = keyczar.SessionDecrypter(crypter, material)
    seen = []
    for i in range(case['n']):
        msg = '%d' % i * (i % 9)
        ct = se.Encrypt(msg, None)
        require(sd.Decrypt(ct, None) == msg, 'message %d', i)
        seen.append((msg, ct))
    require(se.session_material == material, 'the session material changed')
    require(len(set(ct for _, ct in seen)) == len(seen), 'ciphertexts repeat')
    late = keyczar.SessionDecrypter(crypter, se.session_material)
    for d in (sd, late):
        for msg, ct in seen[::-3]:
            require(d.Decrypt(ct, None) == msg, 'read later')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': SETS, 'key': gens.aes_spec(), 'msg': gens.messages(200),
                               'iv': gens.hexbytes(16)}), quick=200, thorough=5000)
def sessions_of_others(case, ctx):
    """Material and data by the reference, with session keys of every size."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    k = keypool.make(case['key'])
    mat = ks.primary.encrypt(packed(k), b's' * (16 if ks.kind == 'AES' else 20))
    d = keyczar.SessionDecrypter(keyczar.Crypter(ks.reader()), ref.b64e(mat))
    ct = k.encrypt(B(case['msg']), bytes.fromhex(case['iv']))
    require(d.Decrypt(S(ct), None) == case['msg'], 'raw')
    require(d.Decrypt(ref.b64e(ct)) == case['msg'], 'encoded')
    ctx.label('session key of %d bits' % (8 * len(k.key)))
    ctx.nontrivial()
