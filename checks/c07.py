"""C07: attached signatures return exactly the signed data, bound to the nonce."""
from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are signing keys, data, a nonce (none, empty or any bytes), and for the negative '
          'tests another nonce, a mutation of the blob or a splice. Non-trivial: an attached '
          'signature was checked; for negative tests, the (blob, nonce) pair is not one that a key '
          'of the set produced according to the reference.')

NONCE = st.one_of(st.none(), st.just(''), gens.messages(80))
ENC = st.sampled_from(['b64', 'none', 'hex'])


def n2b(n):
    return None if n is None else B(n)


def asign(s, data, nonce, enc):
    if enc == 'b64':
        return s.AttachedSign(data, nonce)
    if enc == 'none':
        return s.AttachedSign(data, nonce, None)
    return s.AttachedSign(data, nonce, encoder=lambda x: B(x).hex())


def averify(v, blob, nonce, enc):
    if enc == 'b64':
        return v.AttachedVerify(blob, nonce)
    if enc == 'none':
        return v.AttachedVerify(blob, nonce, None)
    return v.AttachedVerify(blob, nonce, decoder=lambda x: S(bytes.fromhex(x)))


def verifiers(ks):
    out = [keyczar.Signer(ks.reader()), keyczar.Verifier(ks.reader())]
    if ks.kind != 'HMAC_SHA1':
        out.append(keyczar.Verifier(ks.public_set().reader()))
    return out


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512, 768), max_size=3, many=True),
                               'data': gens.messages(), 'nonce': NONCE, 'enc': ENC}),
        quick=500, thorough=12000)
def round_trip(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    vs = verifiers(ks)
    blob = asign(vs[0], case['data'], case['nonce'], case['enc'])
    for v in vs:
        r = averify(v, blob, case['nonce'], case['enc'])
        require(r == case['data'], 'got %s', short(r))
    ctx.label(ks.kind, case['enc'], 'no nonce' if case['nonce'] is None else
              'empty nonce' if not case['nonce'] else 'nonce',
              'empty data' if not case['data'] else 'data')
    ctx.nontrivial()


@R.enum(lambda tier: [{'data': n, 'nonce': m} for n in range(0, 40 if tier == 'quick' else 300)
                      for m in [-1] + list(range(0, 20 if tier == 'quick' else 100))])
def every_length(case, ctx):
    v = _hmac()
    data = 'd' * case['data']
    nonce = None if case['nonce'] < 0 else 'n' * case['nonce']
    blob = v.AttachedSign(data, nonce)
    require(v.AttachedVerify(blob, nonce) == data, 'round trip')
    others = ['', 'n'] if nonce is None else [nonce + 'n', None] + ([nonce[:-1]] if nonce else [])
    for other in others:
        kind, r = outcome(lambda: v.AttachedVerify(blob, other))
        require(kind == 'error' or r is None, 'nonce %r accepted for %r', other, nonce)
    ctx.nontrivial()


_h = []


def _hmac():
    if not _h:
        _h.append(keyczar.Signer(single(ref.HmacKey(b'k' * 32), SIGN).reader()))
    return _h[0]


def genuine(ks, blob, nonce):
    """Does the reference accept this blob?  Also true when the signed bytes
    coincide with those of the real data and nonce (the format packs them
    without separating them)."""
    if len(blob) < 9:
        return False
    n = int.from_bytes(blob[5:9], 'big')
    if len(blob) < 9 + n:
        return False
    data, sig = blob[9:9 + n], blob[9 + n:]
    for _, _, k in ks.entries:
        if k.header() == blob[:5]:
            return k.verify(ref.signed_form(data, nonce), sig)
    return False


def refused(ks, blob, nonce, what):
    for v in verifiers(ks):
        for call in (lambda: v.AttachedVerify(S(blob), nonce, None),
                     lambda: v.AttachedVerify(ref.b64e(blob), nonce)):
            kind, r = outcome(call)
            require(kind == 'error' or r is None, '%s: returned %s', what, short(r))


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=2),
                               'data': gens.messages(100), 'nonce': NONCE, 'other': NONCE,
                               'mut': st.one_of(st.none(), gens.mutations())}),
        quick=500, thorough=10000)
def wrong_nonce(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    blob = B(keyczar.Signer(ks.reader()).AttachedSign(case['data'], case['nonce'], None))
    other = case['other']
    if case['mut'] and case['nonce'] is not None:
        other = S(gens.mutate(B(case['nonce']), case['mut']))
    if other == case['nonce'] or genuine(ks, blob, n2b(other)):
        return
    refused(ks, blob, other, 'nonce %s instead of %s' % (short(other), short(case['nonce'])))
    ctx.label(ks.kind, 'to none' if other is None else 'from none' if case['nonce'] is None
              else 'both')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=2),
                               'data': gens.messages(100), 'nonce': NONCE,
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
        quick=700, thorough=15000)
def altered_blob(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    blob = B(keyczar.Signer(ks.reader()).AttachedSign(case['data'], case['nonce'], None))
    bad = blob
    for m in case['muts']:
        bad = gens.mutate(bad, m)
    if bad == blob or genuine(ks, bad, n2b(case['nonce'])):
        return
    refused(ks, bad, case['nonce'], case['muts'])
    ctx.label(ks.kind, *['op ' + m[0] for m in case['muts']])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.signing_spec((512,)), 'd1': gens.messages(60),
                               'd2': gens.messages(60), 'n1': NONCE, 'n2': NONCE,
                               'how': st.sampled_from(['sig', 'data', 'len', 'plain_sig', 'empty_sig',
                                                       'nonce_as_data', 'grow', 'shrink'])}),
        quick=500, thorough=8000)
def spliced(case, ctx):
    """Data of one blob with the signature of another, or with wrong lengths."""
    k = keypool.make(case['spec'])
    ks = single(k, SIGN)
    signer = keyczar.Signer(ks.reader())
    d1, d2 = B(case['d1']), B(case['d2'])
    b1 = B(signer.AttachedSign(case['d1'], case['n1'], None))
    b2 = B(signer.AttachedSign(case['d2'], case['n2'], None))
    s1, s2 = b1[9 + len(d1):], b2[9 + len(d2):]

    def lp(n):
        return n.to_bytes(4, 'big')
    bad = {
        'sig': lambda: b1[:9 + len(d1)] + s2,
        'data': lambda: k.header() + lp(len(d2)) + d2 + s1,
        'len': lambda: k.header() + lp(len(d1) + 1) + d1 + s1,
        'plain_sig': lambda: k.header() + lp(len(d1)) + d1 +
        B(signer.Sign(case['d1'], None))[5:],
        'empty_sig': lambda: b1[:9 + len(d1)],
        'nonce_as_data': lambda: k.header() + lp(len(d1 + ref.lp(B(case['n1'] or '')))) + d1 +
        ref.lp(B(case['n1'] or '')) + s1,
        'grow': lambda: k.header() + lp(len(d1) + len(s1)) + d1 + s1,
        'shrink': lambda: k.header() + lp(max(0, len(d1) - 1)) + d1 + s1,
    }[case['how']]()
    if bad in (b1,) or genuine(ks, bad, n2b(case['n1'])):
        return
    refused(ks, bad, case['n1'], case['how'])
    ctx.label(case['how'], k.kind)
    ctx.nontrivial()


def _flips(tier):
    n = 5 + 4 + 6 + 20
    for i in range(n):
        for bit in range(8):
            yield {'at': i, 'bit': bit}
        yield {'cut': i}


@R.enum(_flips)
def every_bit_and_cut(case, ctx):
    v = _hmac()
    blob = B(v.AttachedSign('abcdef', 'nonce', None))
    if 'cut' in case:
        bad = blob[:case['cut']]
    else:
        i = case['at']
        bad = blob[:i] + bytes([blob[i] ^ (1 << case['bit'])]) + blob[i + 1:]
    kind, r = outcome(lambda: v.AttachedVerify(S(bad), 'nonce', None))
    require(kind == 'error' or r is None, 'returned %s', short(r))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'a': gens.signing_spec((512,)), 'b': gens.signing_spec((512,)),
                               'data': gens.bstr(0, 40), 'nonce': NONCE}), quick=200, thorough=3000)
def foreign_signer(case, ctx):
    a, b = keypool.make(case['a']), keypool.make(case['b'])
    if a.hash() == b.hash():
        return
    blob = B(keyczar.Signer(single(b, SIGN).reader()).AttachedSign(
        case['data'], case['nonce'], None))
    refused(single(a, SIGN), blob, case['nonce'], 'foreign signer')
    refused(single(a, SIGN), a.header() + blob[5:], case['nonce'], 'foreign, header replaced')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': gens.sign_entries(rsa_sizes=(512,), max_size=2),
    'pairs': st.lists(st.tuples(gens.messages(40), NONCE).map(list), min_size=1, max_size=4),
    'ops': st.lists(st.tuples(st.sampled_from(['good', 'nonce', 'data', 'sig', 'mutate', 'sign']),
                              st.integers(0, 5), st.integers(0, 5), gens.mutations()).map(list),
                    min_size=2, max_size=10)}), quick=400, thorough=10000)
def histories(case, ctx):
    """The same objects verify genuine blobs and, between them, blobs with the nonce, data or
    signature of another: what was accepted earlier decides nothing."""
    ks = KeySet.from_case(SIGN, case['entries'])
    vs = verifiers(ks)
    n = len(ks.entries)
    good = [(B(d), x, ref.attached_sig(ks.entries[i % n][2], B(d), n2b(x), 777 + i))
            for i, (d, x) in enumerate(case['pairs'])]
    bad = 0
    for op, i, j, m in case['ops']:
        d, nonce, blob = good[i % len(good)]
        d2, nonce2, blob2 = good[j % len(good)]
        if op == 'good':
            for v in vs:
                r = v.AttachedVerify(S(blob), nonce, None)
                require(r == S(d), 'got %s', short(r))
            continue
        if op == 'sign':
            b = vs[0].AttachedSign(S(d), nonce2, None)
            good.append((d, nonce2, B(b)))
            continue
        if op == 'nonce':
            nonce = nonce2
        elif op == 'data':
            blob = blob[:5] + ref.lp(d2) + blob[9 + len(d):]
        elif op == 'sig':
            blob = blob[:9 + len(d)] + blob2[9 + len(d2):]
        else:
            blob = gens.mutate(blob, m)
        if genuine(ks, blob, n2b(nonce)):
            continue
        for v in vs:
            kind, r = outcome(lambda: v.AttachedVerify(S(blob), nonce, None))
            require(kind == 'error' or r is None, '%s: returned %s', op, short(r))
        bad += 1
    ctx.nontrivial(bad > 0)


@R.enum(lambda tier: [{'len': n, 'nonce': m} for n in LARGE + HUGE[:3] for m in (-1, 16, 5000)] +
        [{'len': 10, 'nonce': n} for n in LARGE] +
        [{'len': 2 ** 24 + 5, 'nonce': 16}, {'len': 9, 'nonce': 2 ** 24 + 5}])
def large(case, ctx):
    v = _hmac()
    data = big(case['len'])
    nonce = None if case['nonce'] < 0 else big(case['nonce'], 1)
    blob = v.AttachedSign(data, nonce, None)
    require(B(blob) == ref.attached_sig(ref.HmacKey(b'k' * 32), B(data), n2b(nonce), 1),
            'not the documented form')
    require(v.AttachedVerify(blob, nonce, None) == data, 'raw')
    require(v.AttachedVerify(v.AttachedSign(data, nonce), nonce) == data, 'encoded')
    i = len(blob) - 30
    for b, x in ((blob[:i] + chr(ord(blob[i]) ^ 1) + blob[i + 1:], nonce),
                 (blob, (nonce or '') + 'x'), (blob, nonce[:-1] if nonce else 'y'),
                 (blob[:9] + blob[10:], nonce)):
        kind, r = outcome(lambda: v.AttachedVerify(b, x, None))
        require(kind == 'error' or r is None, 'accepted')
    ctx.nontrivial()
