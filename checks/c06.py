"""C06: signatures follow the published Keyczar format."""
import os
import re
import struct

from hypothesis import strategies as st

import env
import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are reference signing keys, messages and nonces. Signatures by Keyczar are checked '
          'and parsed by the reference; signatures by the reference are given to Keyczar; golden '
          'files of the Python, Java and C++ implementations are verified. Non-trivial: a signature '
          'crossed from one implementation to the other.')

NONCE = st.one_of(st.none(), gens.messages(80))


def _sk(spec_sizes=(512, 768, 1024)):
    return st.one_of(gens.hmac_spec(), gens.dsa_spec(), gens.rsa_spec(spec_sizes))


@R.prop(st.fixed_dictionaries({'spec': _sk(), 'msg': gens.messages()}), quick=500, thorough=10000)
def written(case, ctx):
    """What Keyczar writes, the reference accepts."""
    k = keypool.make(case['spec'])
    raw = B(keyczar.Signer(single(k, SIGN).reader()).Sign(case['msg'], None))
    require(raw[:5] == k.header(), 'header %s', raw[:5].hex())
    form = ref.signed_form(B(case['msg']))
    require(k.verify(form, raw[5:]), 'the reference refuses the signature %s', raw.hex())
    if k.kind != 'DSA_PRIV':
        require(raw[5:] == k.sign(form), 'signature differs from the reference')
    ctx.label(k.kind)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': _sk(), 'msg': gens.messages(),
                               'k': st.one_of(st.integers(1, 2 ** 159), st.integers(1, 300))}),
        quick=500, thorough=10000)
def read(case, ctx):
    """What the reference writes, Keyczar accepts."""
    k = keypool.make(case['spec'])
    sig = S(ref.versioned_sig(k, B(case['msg']), case['k']))
    ks = single(k, SIGN)
    vs = [keyczar.Signer(ks.reader()), keyczar.Verifier(ks.reader())]
    if k.kind != 'HMAC_SHA1':
        vs.append(keyczar.Verifier(ks.public_set().reader()))
    for v in vs:
        require(v.Verify(case['msg'], sig, None) is True, 'raw signature refused')
        require(v.Verify(case['msg'], ref.b64e(B(sig))) is True, 'encoded signature refused')
    ctx.label(k.kind)
    ctx.nontrivial()


# DSA signatures whose r or s is short, and RSA signatures with leading zeros
@R.enum(lambda tier: [{'spec': s, 'n': n} for n in range(350 if tier == 'quick' else 8000)
                      for s in (['DSA', 0, 'signed'], ['DSA', 3, 'min'], ['RSA', 0, 'signed'],
                                ['RSA', 18, 'pad'])] +
        # signatures that start with two zero bytes
        [{'spec': ['RSA', 0, 'signed'], 'n': n} for n in (25915, 58628, 157862, 172242)])
def read_many(case, ctx):
    k, v, signer = _obj(tuple(case['spec']))
    msg = b'%d' % case['n']
    sig = ref.versioned_sig(k, msg, 7919 * (case['n'] + 1) ** 5)
    require(v.Verify(S(msg), S(sig), None) is True, 'reference signature refused')
    raw = B(signer.Sign(S(msg), None))
    require(k.verify(ref.signed_form(msg), raw[5:]), 'the reference refuses the signature')
    if k.kind == 'RSA_PRIV':
        require(len(raw) == 5 + k.k, 'RSA signature of %d bytes', len(raw) - 5)
        if raw[5] == 0:
            ctx.label('rsa leading zero')
    elif len(raw) < 51:
        ctx.label('short dsa')
    ctx.nontrivial()


_objs = {}


def _obj(spec):
    if spec not in _objs:
        k = keypool.make(list(spec))
        ks = single(k, SIGN)
        _objs[spec] = (k, keyczar.Verifier((ks if k.kind == 'HMAC_SHA1' else ks.public_set()).reader()),
                       keyczar.Signer(ks.reader()))
    return _objs[spec]


@R.prop(st.fixed_dictionaries({'spec': _sk(), 'msg': gens.messages(400), 'nonce': NONCE,
                               'k': st.integers(1, 2 ** 159)}), quick=500, thorough=8000)
def attached(case, ctx):
    k = keypool.make(case['spec'])
    msg = B(case['msg'])
    nonce = None if case['nonce'] is None else B(case['nonce'])
    ks = single(k, SIGN)
    signer = keyczar.Signer(ks.reader())
    raw = B(signer.AttachedSign(case['msg'], case['nonce'], None))
    head = k.header() + struct.pack('>I', len(msg)) + msg
    require(raw[:len(head)] == head, 'layout: %s', raw.hex())
    require(k.verify(ref.signed_form(msg, nonce), raw[len(head):]),
            'the reference refuses the signature in %s', raw.hex())
    blob = ref.attached_sig(k, msg, nonce, case['k'])
    for v in (signer, keyczar.Verifier(ks.reader())):
        r = v.AttachedVerify(S(blob), case['nonce'], None)
        require(r == case['msg'], 'reference blob: got %s', short(r))
        r = v.AttachedVerify(ref.b64e(blob), case['nonce'])
        require(r == case['msg'], 'encoded reference blob: got %s', short(r))
    ctx.label(k.kind, 'no nonce' if nonce is None else 'nonce')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=2),
                               'msg': gens.bstr(0, 40), 'nonce': NONCE}), quick=200, thorough=3000)
def default_encoding(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    signer = keyczar.Signer(ks.reader())
    for text in (signer.Sign(case['msg']), signer.AttachedSign(case['msg'], case['nonce'])):
        require(re.match(r'^[A-Za-z0-9_-]+$', text), 'not web-safe base64: %s', short(text))
        try:
            raw = ref.b64d(text)
        except ValueError as e:
            raise Violation('not base64: %s %s' % (short(text), e))
        require(raw[:5] == ks.primary.header(), 'header')
    ctx.nontrivial()


def _golden(tier):
    for d in ('python/testdata', 'python/jtestdata', 'cpp/src/keyczar/data/06b',
              'java/code/testdata'):
        for name in ('hmac', 'dsa', 'rsa-sign'):
            p = os.path.join(env.REPO, d, name)
            for i in (1, 2):
                if os.path.exists(os.path.join(p, '%d.out' % i)):
                    for keys_of in (name, name + '.public'):
                        if os.path.exists(os.path.join(env.REPO, d, keys_of, 'meta')):
                            yield {'dir': d, 'name': name, 'keys': keys_of, 'out': i}


@R.enum(_golden)
def golden(case, ctx):
    base = os.path.join(env.REPO, case['dir'])
    with open(os.path.join(base, case['name'], '%d.out' % case['out'])) as f:
        sig = f.read()
    v = keyczar.Verifier.Read(os.path.join(base, case['keys']))
    require(v.Verify('This is some test data', sig) is True, 'golden signature refused')
    kind, r = outcome(lambda: v.Verify('This is some test dat', sig))
    require(kind == 'error' or r is False, 'wrong message accepted')
    ctx.label(case['dir'] + '/' + case['keys'])
    ctx.nontrivial()


@R.enum(lambda tier: [{'spec': i, 'len': n, 'nonce': m} for n in LARGE + HUGE for i in range(3)
                      for m in (-1, 0, 70001)])
def large(case, ctx):
    """Long messages and nonces are signed like any other."""
    k, v, signer = _obj((('HMAC', 'a5' * 32), ('DSA', 0, 'signed'), ('RSA', 0, 'signed'))[case['spec']])
    msg, nonce = big(case['len']), case['nonce']
    raw = B(signer.Sign(msg, None))
    require(raw[:5] == k.header(), 'header %s', raw[:5].hex())
    require(k.verify(ref.signed_form(B(msg)), raw[5:]), 'the reference refuses the signature')
    require(v.Verify(msg, S(ref.versioned_sig(k, B(msg), 77)), None) is True,
            'reference signature refused')
    hidden = None if nonce < 0 else big(nonce, 1)
    blob = ref.attached_sig(k, B(msg), None if hidden is None else B(hidden), 77)
    require(v.AttachedVerify(S(blob), hidden, None) == msg, 'reference attached signature refused')
    mine = B(signer.AttachedSign(msg, hidden, None))
    if k.kind == 'DSA_PRIV':
        n = 5 + 4 + len(msg)
        require(mine[:n] == blob[:n], 'attached form differs')
    else:
        require(mine == blob, 'attached form differs')
    ctx.nontrivial()
