"""C16: an encrypted key set never shows key material and needs its crypter."""
import os

from hypothesis import strategies as st

import gens
import keypool
import secrets_in
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets of every type, written with a crypter (AES or RSA, private or public '
          'key set, several keys), and alterations of the files. Non-trivial: the set holds a key '
          'and the plain and the encrypted set were used with each other, or an altered file or '
          'another crypter was tried.')

KINDS = {'aes': (CRYPT, gens.aes_spec()), 'rsac': (CRYPT, gens.rsa_spec((1024,))),
         'hmac': (SIGN, gens.hmac_spec()), 'rsas': (SIGN, gens.rsa_spec((1024,))),
         'dsa': (SIGN, gens.dsa_spec())}


@st.composite
def cases(draw):
    k = draw(st.sampled_from(['aes', 'aes', 'hmac', 'rsac', 'rsas', 'dsa']))
    rsa = k in ('aes', 'hmac') and draw(st.sampled_from([False, False, True]))
    wspec = gens.rsa_spec((2048,)) if rsa else gens.aes_spec()
    return {'k': k, 'entries': draw(gens.entries(KINDS[k][1], max_size=3, many=True)),
            'wrap': draw(gens.entries(wspec, max_size=3)),
            'public': rsa and draw(st.booleans()), 'msg': draw(gens.bstr(0, 20))}


def setup(case, path):
    purpose, _ = KINDS[case['k']]
    ks = KeySet.from_case(purpose, case['entries'])
    wrap = KeySet.from_case(CRYPT, case['wrap'])
    crypter = keyczar.Crypter(wrap.reader())
    by = keyczar.Encrypter(wrap.public_set().reader()) if case.get('public') else crypter
    gk = keyczar.GenericKeyczar(ks.reader())
    gk.Write(writers.FileWriter(path), by)
    return ks, wrap, crypter, gk


def classes(purpose):
    if purpose == CRYPT:
        return [keyczar.Encrypter, keyczar.Crypter, keyczar.GenericKeyczar]
    return [keyczar.Signer, keyczar.Verifier, keyczar.UnversionedSigner,
            keyczar.UnversionedVerifier, keyczar.GenericKeyczar]


def secrets(key):
    return key.secrets() if hasattr(key, 'secrets') else key.secret_ints()


@R.prop(cases(), quick=300, thorough=10000)
def written_encrypted(case, ctx):
    path = ctx.scratch()
    ks, wrap, crypter, gk = setup(case, path)
    data = {}
    for f in os.listdir(path):
        with open(os.path.join(path, f), 'rb') as h:
            data[f] = h.read()
    require(sorted(data) == sorted(['meta'] + [str(v) for v, _, _ in ks.entries]),
            'files %s', sorted(data))
    meta = ref.parse_meta(data['meta'].decode())
    require(meta[3] is True, 'not marked as encrypted')
    require(meta[:3] == (ks.name, ks.purpose, ks.kind), 'metadata %r', meta)
    require(sorted((v, s) for v, s, _ in meta[4]) == sorted((v, s) for v, s, _ in ks.entries),
            'versions %r', meta[4])
    # nothing of any key in any file
    for f, b in data.items():
        hit = secrets_in.find(b, [x for _, _, k in ks.entries for x in secrets(k)])
        require(hit is None, 'file %s shows the secret %s', f, hit)
        for word in (b'KeyString', b'private', b'hmacKey', b'"x"', b'prime', b'modulus'):
            require(word not in b, 'file %s is not encrypted: %s', f, word)
    # every file is a ciphertext of the crypter's primary key
    for v, _, k in ks.entries:
        try:
            plain = wrap.primary.decrypt(ref.b64d(data[str(v)].decode('ascii')))
            got = ref.parse_key(ks.kind, plain.decode('ascii'))
        except (ref.RefError, ValueError) as e:
            raise Violation('key file %d is not a ciphertext of the key: %r' % (v, e))
        require(ref.material(got) == ref.material(k), 'version %d holds another key', v)
    works_like(ks, lambda: readers.EncryptedReader(readers.FileReader(path), crypter), case['msg'])
    works_like(ks, lambda: readers.EncryptedReader(readers.CreateReader(path), crypter), 'x')
    # the same directory written again: plainly, then encrypted, each time all of it
    again = ctx.scratch()
    gk.Write(writers.FileWriter(again))
    works_like(ks, lambda: readers.FileReader(again), 'x')
    gk.Write(writers.FileWriter(again),
             keyczar.Encrypter(wrap.public_set().reader()) if case['public'] else crypter)
    all_secrets = [x for _, _, k in ks.entries for x in secrets(k)]
    for f in os.listdir(again):
        with open(os.path.join(again, f), 'rb') as h:
            hit = secrets_in.find(h.read(), all_secrets)
        require(hit is None, 'written over a plain set, file %s shows the secret %s', f, hit)
    works_like(ks, lambda: readers.EncryptedReader(readers.FileReader(again), crypter), 'x')
    gk.Write(writers.FileWriter(again))
    works_like(ks, lambda: readers.FileReader(again), 'x')
    # refused without the crypter, and with another one
    other = keyczar.Crypter(single(ref.AesKey(b'o' * 16, b'p' * 32), CRYPT).reader())
    for cls in classes(ks.purpose):
        raises(lambda: cls(readers.FileReader(path)))
        raises(lambda: cls.Read(path))
        raises(lambda: cls(readers.EncryptedReader(readers.FileReader(path), other)))
    # and written plainly again it is a plain set
    back = keyczar.GenericKeyczar(readers.EncryptedReader(readers.FileReader(path), crypter))
    plain = ctx.scratch()
    back.Write(writers.FileWriter(plain))
    with open(os.path.join(plain, 'meta')) as f:
        require(ref.parse_meta(f.read())[3] is False, 'plain set marked as encrypted')
    works_like(ks, lambda: readers.FileReader(plain), case['msg'])
    ctx.label(case['k'], 'wrapped by %s' % wrap.kind, 'public' if case['public'] else 'private')
    ctx.nontrivial()


@R.prop(st.tuples(cases(), cases(), st.lists(st.integers(0, 1), min_size=2, max_size=6)).map(list),
        quick=150, thorough=4000)
def several_sets_one_crypter(case, ctx):
    """Two sets encrypted by one crypter object, read with that object in any order."""
    a, b, order = case
    if a['k'] in ('aes', 'hmac') and b['k'] not in ('aes', 'hmac'):
        a, b = b, a             # never encrypted by RSA, which has no room for an asymmetric key
    paths = ctx.scratch(), ctx.scratch()
    one, wrap, crypter, _ = setup(a, paths[0])
    two = KeySet.from_case(KINDS[b['k']][0], b['entries'])
    keyczar.GenericKeyczar(two.reader()).Write(writers.FileWriter(paths[1]), crypter)
    for i in order + [0, 1]:
        works_like((one, two)[i], lambda: readers.EncryptedReader(readers.FileReader(paths[i]), crypter),
                   (a, b)[i]['msg'])
    # and a set that was replaced by another is read as it is now
    keyczar.GenericKeyczar(two.reader()).Write(writers.FileWriter(paths[0]), crypter)
    works_like(two, lambda: readers.EncryptedReader(readers.FileReader(paths[0]), crypter), b['msg'])
    ctx.label(a['k'], b['k'])
    ctx.nontrivial()


def works_like(ks, open_, msg):
    """The set behind open_() does what the plain set ks does."""
    if ks.purpose == CRYPT:
        mine, plain = keyczar.Crypter(open_()), keyczar.Crypter(ks.reader())
        require(plain.Decrypt(mine.Encrypt(msg)) == msg, 'encrypted set to plain set')
        require(mine.Decrypt(plain.Encrypt(msg)) == msg, 'plain set to encrypted set')
        require(keyczar.Crypter(open_()).Decrypt(keyczar.Encrypter(open_()).Encrypt(msg)) == msg,
                'encrypter to crypter')
        for v, s, k in ks.entries:
            seed = b's' * (16 if k.kind == 'AES' else 20)
            require(mine.Decrypt(S(k.encrypt(B(msg), seed)), None) == msg, 'version %d', v)
    else:
        mine, plain = keyczar.Signer(open_()), keyczar.Signer(ks.reader())
        require(plain.Verify(msg, mine.Sign(msg)) is True, 'encrypted set to plain set')
        require(keyczar.Verifier(open_()).Verify(msg, plain.Sign(msg)) is True,
                'plain set to encrypted set')
        for v, s, k in ks.entries:
            require(mine.Verify(msg, S(ref.versioned_sig(k, B(msg), 7)), None) is True,
                    'version %d', v)


@R.prop(st.tuples(cases(), st.lists(gens.mutations(), min_size=1, max_size=3),
                  st.integers(0, 5), st.booleans()).map(list), quick=600, thorough=15000)
def altered_files(case, ctx):
    case, muts, which, decoded = case
    path = ctx.scratch()
    ks, wrap, crypter, gk = setup(case, path)
    vs = [v for v, _, _ in ks.entries]
    f = os.path.join(path, str(vs[which % len(vs)]))
    with open(f) as h:
        text = h.read()
    raw = ref.b64d(text)
    if decoded:
        b = raw
        for m in muts:
            b = gens.mutate(b, m)
        new = ref.b64e(b)
    else:
        t = text.encode()
        for m in muts:
            t = gens.mutate(t, m)
        new = t.decode('latin-1')
        b = None
        # trailing bits and characters outside the alphabet can leave the bytes alone
        bare = ''.join(c for c in new if c.isascii() and (c.isalnum() or c in '-_+/'))
        if bare[:-1] == text[:-1] and len(bare) == len(text) or bare == text:
            return
    if b == raw:
        return
    with open(f, 'wb') as h:
        h.write(new.encode('latin-1'))
    for cls in classes(ks.purpose):
        raises(lambda: cls(readers.EncryptedReader(readers.FileReader(path), crypter)))
    ctx.label('decoded' if decoded else 'text')
    ctx.nontrivial()


@R.prop(st.tuples(cases(), st.sampled_from(['plain', 'plain other', 'padded', 'encoded', 'foreign',
                                            'empty', 'meta', 'unmarked']),
                  st.integers(0, 5)).map(list), quick=400, thorough=8000)
def replaced_files(case, ctx):
    """A key file that was replaced without the crypter is never accepted."""
    case, how, which = case
    path = ctx.scratch()
    ks, wrap, crypter, gk = setup(case, path)
    vs = [v for v, _, _ in ks.entries]
    v = vs[which % len(vs)]
    same = ks.by_version(v).json()
    other = {'AES': ref.AesKey(b'e' * 16, b'f' * 32), 'HMAC_SHA1': ref.HmacKey(b'e' * 32)}.get(
        ks.kind, ks.entries[0][2]).json()
    new = {'plain': same, 'plain other': other, 'padded': '\n  ' + same + '\n',
           'encoded': ref.b64e(same.encode()), 'empty': '', 'meta': ks.meta(),
           'foreign': ref.b64e(ref.AesKey(b'o' * 16, b'p' * 32).encrypt(same.encode(), b'i' * 16)),
           'unmarked': None}[how]
    if how == 'unmarked':
        # all files plain, but the metadata says encrypted
        for x, _, k in ks.entries:
            with open(os.path.join(path, str(x)), 'w') as h:
                h.write(k.json())
    else:
        with open(os.path.join(path, str(v)), 'w') as h:
            h.write(new)
    for cls in classes(ks.purpose):
        raises(lambda: cls(readers.EncryptedReader(readers.FileReader(path), crypter)))
        raises(lambda: cls(readers.FileReader(path)))
    ctx.label(how)
    ctx.nontrivial()


@R.prop(st.tuples(cases(), gens.entries(gens.aes_spec(), max_size=3)).map(list), quick=300,
        thorough=6000)
def other_crypters(case, ctx):
    """A crypter opens the set exactly if it has the key that encrypted it, whatever its status."""
    case, others = case
    path = ctx.scratch()
    ks, wrap, crypter, gk = setup(case, path)
    cls = classes(ks.purpose)[0]
    ok = KeySet.from_case(CRYPT, others)
    if wrap.primary.header() not in [k.header() for _, _, k in ok.entries]:
        raises(lambda: cls(readers.EncryptedReader(readers.FileReader(path),
                                                   keyczar.Crypter(ok.reader()))))
        ctx.nontrivial()
    if wrap.kind == 'AES':
        # the crypter was rotated: its key is now an old one
        entries = [(v + 2 ** 50, 'ACTIVE' if s == 'PRIMARY' else s, k) for v, s, k in wrap.entries]
        new = [(v, s, k) for v, s, k in ok.entries
               if k.header() not in [x[2].header() for x in entries]]
        rot = KeySet(CRYPT, new + entries)
        rd = readers.EncryptedReader(readers.FileReader(path), keyczar.Crypter(rot.reader()))
        gk2 = keyczar.GenericKeyczar(rd)
        require(len(gk2.versions) == len(ks.entries), 'versions are missing')
        ctx.label('rotated crypter')


@R.prop(st.fixed_dictionaries({'type': st.sampled_from(['AES', 'HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV']),
                               'purpose': st.sampled_from([CRYPT, SIGN]),
                               'disk': st.booleans(), 'how': st.sampled_from(['written', 'given'])}),
        quick=40, thorough=200)
def empty_sets(case, ctx):
    """A set that is marked as encrypted needs a crypter even before it holds a key."""
    crypter = keyczar.Crypter(single(ref.AesKey(b'o' * 16, b'p' * 32), CRYPT).reader())
    meta = ref.metadata('n', case['purpose'], case['type'], [], case['how'] == 'given')
    rd = DictReader(meta, {})
    if case['how'] == 'written':
        gk = keyczar.GenericKeyczar(rd)
        path = ctx.scratch()
        w = writers.FileWriter(path) if case['disk'] else DictWriter()
        gk.Write(w, crypter)
        if case['disk']:
            rd = readers.FileReader(path)
        else:
            rd = w.reader()
    for cls in classes(case['purpose']):
        raises(lambda: cls(rd))
        cls(readers.EncryptedReader(rd, crypter))
    ctx.nontrivial()
