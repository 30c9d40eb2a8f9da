"""C03: ciphertexts have the Keyczar format, in both directions."""
import os
import re

from hypothesis import strategies as st

import env
import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Differential against an independent implementation of the format (lib/ref.py): '
          'what the code under test encrypts, the reference decrypts, and the reverse; plus the '
          'ciphertexts of other implementations kept in the repository. Non-trivial: both sides '
          'handled the message.')


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.aes_spec(), max_size=3, many=True),
                               'msg': gens.messages(), 'iv': gens.hexbytes(16)}),
        quick=400, thorough=10000)
def aes(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    k, msg = ks.primary, B(case['msg'])
    raw = B(cr.Encrypt(case['msg'], None))
    require(raw[:5] == k.header(), 'header %s, not %s', raw[:5].hex(), k.header().hex())
    require(len(raw) == 5 + 16 + (len(msg) // 16 + 1) * 16 + 20, 'length %d', len(raw))
    try:
        got = k.decrypt(raw)
    except ref.RefError as e:
        raise Violation('the reference refuses the ciphertext: %s' % e)
    require(got == msg, 'the reference decrypts %s', short(got))
    for _, _, rk in ks.entries:
        ct = rk.encrypt(msg, bytes.fromhex(case['iv']))
        require(cr.Decrypt(S(ct), None) == case['msg'], 'reference ciphertext')
        require(cr.Decrypt(ref.b64e(ct)) == case['msg'], 'reference ciphertext, base64')
    ctx.label('blocks=%d' % min(9, len(msg) // 16))
    ctx.nontrivial()


def _seed_for(k, msg, seed, zeros):
    """A seed for which the OAEP block starts with `zeros` more zero bytes."""
    for i in range(4000):
        s = ref.sha1(seed, b'%d' % i)
        db = ref.sha1(b'') + b'\0' * (k.k - len(msg) - 42) + b'\x01' + msg
        mdb = ref.xor(db, ref.mgf1(s, len(db)))
        if ref.xor(s, ref.mgf1(mdb, 20))[:zeros] == b'\0' * zeros:
            return s
    return seed


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((512, 768, 1024)), 'msg': gens.bstr(0, 86),
                               'seed': gens.hexbytes(20), 'zeros': st.booleans(),
                               'public': st.booleans()}), quick=300, thorough=8000)
def rsa(case, ctx):
    k = keypool.make(case['spec'])
    ks = single(k, CRYPT)
    msg = B(case['msg'])[:k.max_message()]
    cr = keyczar.Crypter(ks.reader())
    enc = keyczar.Encrypter((ks.public_set() if case['public'] else ks).reader())
    raw = B(enc.Encrypt(S(msg), None))
    try:
        got = k.decrypt(raw)
    except ref.RefError as e:
        raise Violation('the reference refuses the ciphertext: %s' % e)
    require(got == msg, 'the reference decrypts %s', short(got))
    seed = bytes.fromhex(case['seed'])
    if case['zeros']:
        seed = _seed_for(k, msg, seed, 1)
    require(cr.Decrypt(S(k.encrypt(msg, seed)), None) == S(msg), 'reference ciphertext')
    ctx.label('rsa%d' % k.bits, 'leading zeros' if case['zeros'] else 'plain')
    ctx.nontrivial()


@R.enum(lambda tier: [{'salt': i} for i in range(900 if tier == 'quick' else 20000)])
def rsa_short_numbers(case, ctx):
    """Ciphertexts that are small numbers still fill the modulus."""
    k = keypool.rsa(case['salt'] % 4)
    cr = keyczar.Encrypter(single(k, CRYPT).public_set().reader())
    raw = B(cr.Encrypt('s', None))
    require(len(raw) == 5 + k.k, 'length %d', len(raw))
    if raw[5] == 0:
        ctx.label('leading zero')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((2048, 4096)), 'msg': gens.bstr(0, 200),
                               'seed': gens.hexbytes(20)}), quick=30, thorough=500)
def rsa_large(case, ctx):
    rsa(dict(case, zeros=False, public=True), ctx)


@R.prop(st.fixed_dictionaries({'entries': gens.crypt_entries(rsa_sizes=(512,), max_size=2),
                               'msg': gens.bstr(0, 22)}), quick=200, thorough=3000)
def default_encoding(case, ctx):
    """By default ciphertexts are unpadded web-safe base64 of the raw form."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    text = keyczar.Encrypter(ks.reader()).Encrypt(case['msg'])
    require(re.match(r'^[A-Za-z0-9_-]+$', text), 'not web-safe base64: %s', short(text))
    try:
        got = ks.primary.decrypt(ref.b64d(text))
    except (ref.RefError, ValueError) as e:
        raise Violation('the reference refuses %s: %s' % (short(text), e))
    require(got == B(case['msg']), 'decoded')
    ctx.nontrivial()


def _golden(tier):
    for d in ('python/testdata', 'python/jtestdata', 'cpp/src/keyczar/data', 'cpp/src/keyczar/data/06b',
              'java/code/testdata'):
        base = os.path.join(env.REPO, d)
        if not os.path.isdir(base):
            continue
        for name in ('aes', 'aes-crypted', 'rsa', 'aes-noprimary'):
            p = os.path.join(base, name)
            for i in (1, 2):
                if os.path.exists(os.path.join(p, '%d.out' % i)):
                    yield {'dir': os.path.join(d, name), 'out': i}


@R.enum(_golden)
def golden(case, ctx):
    """Files made by the Python, Java and C++ implementations."""
    d = os.path.join(env.REPO, case['dir'])
    rd = readers.FileReader(d)
    if d.endswith('-crypted'):
        rd = readers.EncryptedReader(rd, keyczar.Crypter.Read(d[:-len('-crypted')]))
    with open(os.path.join(d, '%d.out' % case['out'])) as f:
        text = f.read()
    got = keyczar.Crypter(rd).Decrypt(text)
    require(got == 'This is some test data', '%s: %s', case['dir'], short(got))
    ctx.label(case['dir'])
    ctx.nontrivial()
