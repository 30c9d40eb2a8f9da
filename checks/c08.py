"""C08: unversioned signatures are plain and verify with any key of the set."""
from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets of one to eight keys in any status and order, a message, and a '
          'signature made by one of the keys, by a foreign key, or mutated. Non-trivial: the '
          'signature is not trivially short and the answer was compared with the reference.')


def verifiers(ks):
    out = [keyczar.UnversionedVerifier(ks.reader()), keyczar.UnversionedSigner(ks.reader())]
    if ks.kind != 'HMAC_SHA1':
        out.append(keyczar.UnversionedVerifier(ks.public_set().reader()))
    return out


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512, 768)),
                               'msg': gens.messages()}), quick=400, thorough=8000)
def plain_form(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    signer = keyczar.UnversionedSigner(ks.reader())
    k = ks.primary
    sig = B(signer.Sign(case['msg'], None))
    require(k.verify(B(case['msg']), sig), 'not the bare signature of the primary key')
    if k.kind != 'DSA_PRIV':
        require(sig == k.sign(B(case['msg'])), 'differs from the reference')
    text = signer.Sign(case['msg'])
    hexed = signer.Sign(case['msg'], encoder=lambda s: B(s).hex())
    require(k.verify(B(case['msg']), ref.b64d(text)), 'encoded form')
    for v in [signer] + verifiers(ks):
        require(v.Verify(case['msg'], S(sig), None) is True, 'raw signature refused')
        require(v.Verify(case['msg'], text) is True, 'encoded signature refused')
        require(v.Verify(case['msg'], hexed, decoder=lambda s: S(bytes.fromhex(s))) is True,
                'hex signature refused')
    ctx.label(k.kind)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), primary=None,
                                                            max_size=8, many=True),
                               'msg': gens.messages(100), 'by': st.integers(0, 47),
                               'k': st.integers(1, 2 ** 159)}), quick=500, thorough=10000)
def any_key_of_the_set(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    v, s, k = ks.entries[case['by'] % len(ks.entries)]
    sig = k.sign(B(case['msg']), case['k'])
    for ver in verifiers(ks):
        require(ver.Verify(case['msg'], S(sig), None) is True,
                'signature of version %d (%s) refused', v, s)
        require(ver.Verify(case['msg'], ref.b64e(sig)) is True, 'encoded signature refused')
    ctx.label(k.kind, s, 'many keys' if len(ks.entries) > 8 else
              'position %d of %d' % (case['by'] % len(ks.entries), len(ks.entries)))
    ctx.nontrivial(len(ks.entries) > 1)


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), primary=None, many=True),
                               'msg': gens.messages(60), 'foreign': gens.signing_spec((512,)),
                               'k': st.integers(1, 2 ** 159),
                               'how': st.sampled_from(['foreign', 'versioned', 'message', 'empty',
                                                       'version_byte'])}),
        quick=400, thorough=8000)
def not_made_by_a_key(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    msg = B(case['msg'])
    k = ks.entries[0][2]
    sig = {
        'foreign': lambda: keypool.make(case['foreign']).sign(msg, case['k']),
        'versioned': lambda: ref.versioned_sig(k, msg, case['k']),
        'message': lambda: k.sign(msg + b'x', case['k']),
        'empty': lambda: b'',
        'version_byte': lambda: k.sign(msg + b'\0', case['k']),
    }[case['how']]()
    if any(x.verify(msg, sig) for _, _, x in ks.entries):
        return
    refused(ks, case['msg'], sig, case['how'])
    ctx.label(case['how'], ks.kind)
    ctx.nontrivial()


def refused(ks, msg, sig, what):
    for v in verifiers(ks):
        for call in (lambda: v.Verify(msg, S(sig), None), lambda: v.Verify(msg, ref.b64e(sig))):
            kind, r = outcome(call)
            require(kind == 'error' or r is False, '%s: returned %s', what, short(r))


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3),
                               'msg': gens.messages(60),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=2),
                               'which': st.sampled_from(['sig', 'msg'])}),
        quick=600, thorough=12000)
def altered(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    sig = B(keyczar.UnversionedSigner(ks.reader()).Sign(case['msg'], None))
    msg = B(case['msg'])
    for m in case['muts']:
        if case['which'] == 'sig':
            sig = gens.mutate(sig, m)
        else:
            msg = gens.mutate(msg, m)
    if any(x.verify(msg, sig) for _, _, x in ks.entries):
        return
    refused(ks, S(msg), sig, case['muts'])
    ctx.label(case['which'], ks.kind)
    ctx.nontrivial()


_SPECS = [['HMAC', '42' * 32], ['DSA', 0, 'signed'], ['RSA', 0, 'signed']]
_objs = {}


def _obj(i):
    if i not in _objs:
        k = keypool.make(_SPECS[i])
        ks = single(k, SIGN)
        _objs[i] = k, verifiers(ks), k.sign(b'the message', 987654321)
    return _objs[i]


@R.enum(lambda tier: [{'spec': i, 'at': a, 'bit': b} for i in range(3)
                      for a in range(len(_obj(i)[2])) for b in range(8)])
def every_bit(case, ctx):
    k, vs, sig = _obj(case['spec'])
    i = case['at']
    bad = sig[:i] + bytes([sig[i] ^ (1 << case['bit'])]) + sig[i + 1:]
    if k.verify(b'the message', bad):
        return
    for v in vs:
        kind, r = outcome(lambda: v.Verify('the message', S(bad), None))
        require(kind == 'error' or r is False, 'returned %s', short(r))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3, primary=None, many=True),
    'msgs': st.lists(gens.messages(60), min_size=2, max_size=4, unique=True),
    'ops': st.lists(st.tuples(st.sampled_from(['good', 'other', 'sig', 'msg']), st.integers(0, 3),
                              st.integers(0, 3), gens.mutations()).map(list),
                    min_size=2, max_size=10)}), quick=300, thorough=9000)
def histories(case, ctx):
    """The same objects verify genuine and altered signatures in turns."""
    ks = KeySet.from_case(SIGN, case['entries'])
    vs = verifiers(ks)
    n = len(ks.entries)
    pairs = [(B(m), ks.entries[i % n][2].sign(B(m), 4711 + i)) for i, m in enumerate(case['msgs'])]
    bad = 0
    for op, i, j, mut in case['ops']:
        m, sig = pairs[i % len(pairs)]
        if op == 'other':
            m = pairs[j % len(pairs)][0]
        elif op == 'sig':
            sig = gens.mutate(sig, mut)
        elif op == 'msg':
            m = gens.mutate(m, mut)
        want = any(x.verify(m, sig) for _, _, x in ks.entries)
        for v in vs:
            kind, r = outcome(lambda: v.Verify(S(m), S(sig), None))
            require((r is True) if want else (kind == 'error' or r is False),
                    '%s: returned %s', op, short(r))
        bad += not want
    ctx.nontrivial(bad > 0)


@R.enum(lambda tier: [{'spec': i, 'len': n} for n in LARGE + HUGE for i in (0, 1, 2)])
def large(case, ctx):
    k, vs, _ = _obj(case['spec'])
    msg = big(case['len'])
    sig = vs[1].Sign(msg, None)
    require(k.verify(B(msg), B(sig)), 'not the bare signature')
    for v in vs:
        require(v.Verify(msg, sig, None) is True, 'refused')
        for m in (msg[:-1], msg + '\0', msg[:4000] + chr(ord(msg[4000]) ^ 1) + msg[4001:]):
            kind, r = outcome(lambda: v.Verify(m, sig, None))
            require(kind == 'error' or r is False, 'returned %s', short(r))
    ctx.nontrivial()


@R.enum(lambda tier: [{'n': n} for n in (2864, 12582, 35939, 75431)])
def leading_zeros(case, ctx):
    """RSA signatures that start with two zero bytes."""
    k = keypool.make(['RSA', 0, 'signed'])
    msg = b'%d' % case['n']
    sig = k.sign(msg)
    require(sig[:2] == b'\0\0', 'the case is not what it should be')
    ks = single(k, SIGN)
    require(B(keyczar.UnversionedSigner(ks.reader()).Sign(S(msg), None)) == sig, 'signature differs')
    for v in verifiers(ks):
        require(v.Verify(S(msg), S(sig), None) is True, 'refused')
        for bad in (sig[1:], sig[2:], b'\0' + sig):
            kind, r = outcome(lambda: v.Verify(S(msg), S(bad), None))
            require(kind == 'error' or r is False, 'a signature of another length is accepted')
    ctx.nontrivial()
