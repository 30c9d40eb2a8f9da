"""C18: a key set is only usable for its purpose."""
import json
import os

from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are all combinations of purpose, key type, status of the key (or no key), class and '
          'way of opening, and generated sets. Non-trivial: every case (each opens a set or is '
          'refused).')

PURPOSES = [CRYPT, ENCRYPT, SIGN, VERIFY]
CLASSES = {'Encrypter': (ENCRYPT, CRYPT), 'Crypter': (CRYPT,), 'Signer': (SIGN,),
           'Verifier': (VERIFY, SIGN), 'UnversionedSigner': (SIGN,),
           'UnversionedVerifier': (VERIFY, SIGN), 'GenericKeyczar': tuple(PURPOSES)}
SPECS = {'AES': ['AES', '11' * 16, '22' * 32], 'HMAC_SHA1': ['HMAC', '33' * 32],
         'DSA_PRIV': ['DSA', 0, 'signed'], 'DSA_PUB': ['DSA', 0, 'signed'],
         'RSA_PRIV': ['RSA', keypool.RSA_BY_SIZE[1024][0], 'signed'],
         'RSA_PUB': ['RSA', keypool.RSA_BY_SIZE[1024][0], 'signed']}
# what makes sense together
MATCH = {'AES': (CRYPT, ENCRYPT), 'HMAC_SHA1': (SIGN, VERIFY), 'DSA_PRIV': (SIGN,),
         'DSA_PUB': (VERIFY,), 'RSA_PRIV': (CRYPT, SIGN), 'RSA_PUB': (ENCRYPT, VERIFY)}
WAYS = ['reader', 'location', 'encrypted', 'static']
WRAP = ref.AesKey(b'k' * 16, b'm' * 32)


def opener(cls, meta_of, keys_, way, ctx):
    """A function that opens the set in the given way."""
    c = getattr(keyczar, cls)
    if way == 'reader':
        return lambda: c(DictReader(meta_of(False), keys_))
    path = ctx.scratch()
    enc = way == 'encrypted'
    with open(os.path.join(path, 'meta'), 'w') as f:
        f.write(meta_of(enc))
    for v, t in keys_.items():
        with open(os.path.join(path, str(v)), 'w') as f:
            f.write(ref.b64e(WRAP.encrypt(t.encode(), b'i' * 16)) if enc else t)
    if not enc:
        return lambda: c.Read(path)
    return lambda: c(readers.EncryptedReader(
        readers.CreateReader(path), keyczar.Crypter(single(WRAP, CRYPT).reader())))


def check_open(cls, purpose, kind, open_):
    if purpose in CLASSES[cls]:
        if purpose in MATCH[kind]:
            require(open_() is not None, 'not opened')
    else:
        raises(open_)


@R.enum(lambda tier: [{'purpose': p, 'kind': k, 'status': s, 'cls': c, 'way': w}
                      for p in PURPOSES for k in SPECS for c in CLASSES for w in WAYS
                      for s in ('PRIMARY', 'ACTIVE', 'INACTIVE', None)
                      if not (w == 'static' and s != 'PRIMARY')])
def matrix(case, ctx):
    key = keypool.make(SPECS[case['kind']])
    text = key.public_json() if case['kind'].endswith('PUB') else key.json()
    if case['way'] == 'static':
        k = keys.ReadKey(keyinfo.GetType(case['kind']), text)
        rd = lambda: readers.StaticKeyReader(k, keyinfo.GetPurpose(case['purpose']))
        open_ = lambda: getattr(keyczar, case['cls'])(rd())
    else:
        vs = [(1, case['status'])] if case['status'] else []
        open_ = opener(case['cls'],
                       lambda enc: ref.metadata('n', case['purpose'], case['kind'], vs, enc),
                       {1: text} if vs else {}, case['way'], ctx)
    check_open(case['cls'], case['purpose'], case['kind'], open_)
    ctx.label('opens' if case['purpose'] in CLASSES[case['cls']] else 'refused')
    ctx.nontrivial()


@st.composite
def generated_sets(draw):
    kind = draw(st.sampled_from(sorted(SPECS)))
    spec = {'AES': gens.aes_spec(), 'HMAC': gens.hmac_spec(), 'DSA': gens.dsa_spec(),
            'RSA': gens.rsa_spec((512, 1024))}[SPECS[kind][0]]
    return {'kind': kind, 'purpose': draw(st.sampled_from(PURPOSES)),
            'cls': draw(st.sampled_from(sorted(CLASSES))),
            'way': draw(st.sampled_from(WAYS[:3])), 'name': draw(st.text(max_size=6)),
            'entries': draw(gens.entries(spec, primary=None, max_size=4, many=True))}


@R.prop(generated_sets(), quick=600, thorough=15000)
def generated(case, ctx):
    ks = [(v, s, keypool.make(sp)) for v, s, sp in case['entries']]
    pub = case['kind'].endswith('PUB')
    open_ = opener(case['cls'],
                   lambda enc: ref.metadata(case['name'], case['purpose'], case['kind'],
                                            [(v, s) for v, s, _ in ks], enc),
                   {v: k.public_json() if pub else k.json() for v, s, k in ks}, case['way'], ctx)
    check_open(case['cls'], case['purpose'], case['kind'], open_)
    ctx.label('opens' if case['purpose'] in CLASSES[case['cls']] else 'refused')
    ctx.nontrivial()
