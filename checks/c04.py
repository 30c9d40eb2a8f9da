"""C04: a genuine signature always verifies."""
from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets of reference HMAC, DSA-1024 and RSA-512..4096 keys with drawn '
          'statuses and versions, messages of drawn length and content, the encoder, and a '
          'sequence of uses. Non-trivial: at least one signature was made and verified.')

ENC = st.sampled_from(['b64', 'none', 'hex'])


def _hexe(s):
    return B(s).hex()


def _hexd(s):
    return S(bytes.fromhex(s))


def sign(signer, msg, enc):
    if enc == 'b64':
        return signer.Sign(msg)
    return signer.Sign(msg, None) if enc == 'none' else signer.Sign(msg, encoder=_hexe)


def verify(verifier, msg, sig, enc):
    if enc == 'b64':
        return verifier.Verify(msg, sig)
    if enc == 'none':
        return verifier.Verify(msg, sig, None)
    return verifier.Verify(msg, sig, decoder=_hexd)


def verifiers(ks):
    out = [keyczar.Signer(ks.reader()), keyczar.Verifier(ks.reader())]
    if ks.kind != 'HMAC_SHA1':
        out.append(keyczar.Verifier(ks.public_set().reader()))
    return out


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512, 768, 1024), many=True),
                               'msg': gens.messages(), 'enc': ENC}), quick=500, thorough=15000)
def round_trip(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    signer = keyczar.Signer(ks.reader())
    sig = sign(signer, case['msg'], case['enc'])
    for v in [signer] + verifiers(ks):
        r = verify(v, case['msg'], sig, case['enc'])
        require(r is True, 'a genuine signature gave %r with %s', r, type(v).__name__)
    ctx.label(ks.kind, case['enc'], 'keys=%d' % len(ks.entries))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((2048, 4096)), 'msg': gens.messages(300)}),
        quick=20, thorough=400)
def rsa_large(case, ctx):
    ks = single(keypool.make(case['spec']), SIGN)
    sig = keyczar.Signer(ks.reader()).Sign(case['msg'])
    require(keyczar.Verifier(ks.public_set().reader()).Verify(case['msg'], sig) is True,
            'a genuine signature did not verify')
    ctx.label('rsa%d' % ks.primary.bits)
    ctx.nontrivial()


# many signatures per key: leading zero bytes of r, s and RSA signatures
_SPECS = [['RSA', 0, 'signed'], ['RSA', 1, 'pad'], ['RSA', 4, 'min'], ['RSA', 18, 'signed'],
          ['DSA', 0, 'signed'], ['DSA', 1, 'pad'], ['DSA', 2, 'min'], ['HMAC', '00' * 32]]
_cache = {}


def _objects(i):
    if i not in _cache:
        ks = single(keypool.make(_SPECS[i]), SIGN)
        _cache[i] = keyczar.Signer(ks.reader()), verifiers(ks)
    return _cache[i]


@R.enum(lambda tier: [{'spec': i, 'n': j} for j in range(450 if tier == 'quick' else 12000)
                      for i in range(len(_SPECS))])
def many_signatures(case, ctx):
    signer, vs = _objects(case['spec'])
    msg = 'message %d' % case['n']
    sig = signer.Sign(msg, None)
    v = vs[case['n'] % len(vs)]
    require(v.Verify(msg, sig, None) is True, 'a genuine signature did not verify')
    kind = _SPECS[case['spec']][0]
    if kind == 'RSA' and sig[5] == '\0':
        ctx.label('rsa signature starts with a zero byte')
    if kind == 'DSA' and len(sig) < 5 + 46:
        ctx.label('short dsa signature')
    ctx.nontrivial()


@R.enum(lambda tier: [{'spec': i, 'len': n, 'byte': b} for i in (0, 4, 7) for b in (0, 255)
                      for n in list(range(0, 70)) + ([] if tier == 'quick' else list(range(70, 600)))])
def every_length(case, ctx):
    signer, vs = _objects(case['spec'])
    msg = chr(case['byte']) * case['len']
    sig = signer.Sign(msg)
    for v in vs:
        require(v.Verify(msg, sig) is True, 'length %d', case['len'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3),
    'msgs': st.lists(gens.bstr(0, 30), min_size=1, max_size=6),
    'order': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 3)), min_size=1, max_size=10)}),
    quick=200, thorough=4000)
def interleaved(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    vs = verifiers(ks)
    signers = [vs[0], keyczar.Signer(ks.reader())]
    sigs = [signers[i % 2].Sign(m) for i, m in enumerate(case['msgs'])]
    for i, j in case['order']:
        i %= len(sigs)
        v = vs[j % len(vs)]
        require(v.Verify(case['msgs'][i], sigs[i]) is True, 'message %d', i)
        # a failing verification in between does not disturb
        if case['msgs'][i] + 'x' not in case['msgs']:
            outcome(lambda: v.Verify(case['msgs'][i] + 'x', sigs[i]))
        require(vs[0].Verify('new', vs[0].Sign('new')) is True, 'new message')
    ctx.nontrivial(len(case['order']) > 1)


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3),
                               'msg': gens.messages(100)}), quick=60, thorough=1500)
def from_disk(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    d = ctx.scratch()
    ks.to_dir(d + '/priv')
    sig = keyczar.Signer.Read(d + '/priv').Sign(case['msg'])
    vs = [keyczar.Signer.Read(d + '/priv'), keyczar.Verifier.Read(d + '/priv')]
    if ks.kind != 'HMAC_SHA1':
        import os
        os.mkdir(d + '/pub')
        keyczar.GenericKeyczar.Read(d + '/priv').PublicKeyExport(d + '/pub')
        vs.append(keyczar.Verifier.Read(d + '/pub'))
    for v in vs:
        require(v.Verify(case['msg'], sig) is True, 'a genuine signature did not verify')
    ctx.label(ks.kind)
    ctx.nontrivial()


@R.enum(lambda tier: [{'spec': i, 'len': n} for n in LARGE + HUGE for i in (0, 4, 7)])
def large(case, ctx):
    signer, vs = _objects(case['spec'])
    msg = big(case['len'])
    sig = signer.Sign(msg)
    for v in vs:
        require(v.Verify(msg, sig) is True, 'length %d', case['len'])
    ctx.nontrivial()
