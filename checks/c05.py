"""C05: a forged or altered signature never verifies."""
from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('A (message, signature) pair that the named key did not produce: a mutated signature or '
          'message, a signature of another key, a crafted RSA block or DSA pair. Non-trivial: the '
          'pair given to Verify is not genuine according to the reference.')


def not_accepted(v, msg, sig, what):
    """sig: bytes"""
    for call in (lambda: v.Verify(msg, S(sig), None), lambda: v.Verify(msg, ref.b64e(sig))):
        kind, r = outcome(call)
        require(kind == 'error' or r is False, '%s: Verify returned %s', what, short(r))


def both(ks):
    out = [keyczar.Signer(ks.reader())]
    if ks.kind != 'HMAC_SHA1':
        out.append(keyczar.Verifier(ks.public_set().reader()))
    else:
        out.append(keyczar.Verifier(ks.reader()))
    return out


def genuine(ks, msg, sig):
    for _, _, k in ks.entries:
        if sig[:5] == k.header():
            return k.verify(ref.signed_form(B(msg)), sig[5:])
    return False


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3, many=True),
                               'msg': gens.messages(200),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
        quick=700, thorough=20000)
def mutated_signature(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    sig = B(keyczar.Signer(ks.reader()).Sign(case['msg'], None))
    bad = sig
    for m in case['muts']:
        bad = gens.mutate(bad, m)
    if bad == sig or genuine(ks, case['msg'], bad):
        ctx.label('unchanged')
        return
    for v in both(ks):
        not_accepted(v, case['msg'], bad, case['muts'])
    ctx.label(ks.kind, *['op ' + m[0] for m in case['muts']])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3, many=True),
                               'msg': gens.messages(300),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=2)}),
        quick=500, thorough=10000)
def mutated_message(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    sig = B(keyczar.Signer(ks.reader()).Sign(case['msg'], None))
    other = B(case['msg'])
    for m in case['muts']:
        other = gens.mutate(other, m)
    if other == B(case['msg']):
        return
    for v in both(ks):
        not_accepted(v, S(other), sig, case['muts'])
    ctx.label(ks.kind)
    ctx.nontrivial()


_ENUM = [['HMAC', '42' * 32], ['DSA', 0, 'signed'], ['RSA', 0, 'signed'], ['RSA', 1, 'signed']]
_objs = {}


def _obj(i):
    if i not in _objs:
        k = keypool.make(_ENUM[i])
        ks = single(k, SIGN)
        _objs[i] = k, both(ks), ref.versioned_sig(k, b'the message', 987654321)
    return _objs[i]


def _flips(tier):
    for i in range(len(_ENUM)):
        n = len(_obj(i)[2])
        for at in range(n):
            for bit in range(8):
                yield {'spec': i, 'at': at, 'bit': bit}
            yield {'spec': i, 'cut': at}
            yield {'spec': i, 'drop': at}


@R.enum(_flips)
def every_bit_and_cut(case, ctx):
    k, vs, sig = _obj(case['spec'])
    if 'cut' in case:
        bad = sig[:case['cut']]
    elif 'drop' in case:
        bad = sig[:case['drop']] + sig[case['drop'] + 1:]
    else:
        i = case['at']
        bad = sig[:i] + bytes([sig[i] ^ (1 << case['bit'])]) + sig[i + 1:]
    if bad[:5] == sig[:5] and k.verify(ref.signed_form(b'the message'), bad[5:]):
        return
    for v in vs:
        kind, r = outcome(lambda: v.Verify('the message', S(bad), None))
        require(kind == 'error' or r is False, 'Verify returned %s', short(r))
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'a': gens.signing_spec((512, 768)), 'b': gens.signing_spec((512, 768)),
                               'msg': gens.messages(60)}), quick=400, thorough=6000)
def foreign_key(case, ctx):
    """A signature of a key that is not in the set; also under a header of the set."""
    a, b = keypool.make(case['a']), keypool.make(case['b'])
    if a.hash() == b.hash():
        return
    sig = B(keyczar.Signer(single(b, SIGN).reader()).Sign(case['msg'], None))
    for v in both(single(a, SIGN)):
        not_accepted(v, case['msg'], sig, 'foreign key')
        not_accepted(v, case['msg'], a.header() + sig[5:], 'foreign key, header replaced')
    ctx.label(a.kind + '/' + b.kind)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), min_size=2, max_size=4),
                               'pick': st.integers(0, 3), 'msg': gens.bstr(0, 30)}),
        quick=300, thorough=5000)
def header_of_another_key(case, ctx):
    """A genuine signature whose header names another key of the same set."""
    ks = KeySet.from_case(SIGN, case['entries'])
    sig = B(keyczar.Signer(ks.reader()).Sign(case['msg'], None))
    others = [k for _, s, k in ks.entries if k is not ks.primary]
    k = others[case['pick'] % len(others)]
    for v in both(ks):
        not_accepted(v, case['msg'], k.header() + sig[5:], 'header of another key')
    ctx.label(ks.kind)
    ctx.nontrivial()


RSA_FORGE = st.sampled_from(['short_pad', 'garbage', 'no_info', 'md5_info', 'null_less', 'bad_pad',
                             'type2', 'type0', 'first_byte', 'hash_only', 'digest_front',
                             'plus_n', 'plus_n_same', 'leading_zero', 'n_minus_s', 'zero', 'one',
                             'n_minus_1', 'no_version', 'other_msg', 'padded_left',
                             'stripped', 'prefix_ff', 'raw_message', 'hash_of_hash', 'attached',
                             'digest_is_form', 'hex', 'text'])


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((512, 768, 1024)), 'msg': gens.messages(60),
                               'how': RSA_FORGE, 'x': st.integers(1, 255)}),
        quick=500, thorough=8000)
def rsa_forged(case, ctx):
    """RSA values that open to something that is not the padded hash of the message."""
    k = keypool.make(case['spec'])
    msg = B(case['msg'])
    form = ref.signed_form(msg)
    d, kk, n = ref.sha1(form), k.k, k.n
    info = ref._SHA1_INFO
    good = k.sign(form)
    g = int.from_bytes(good, 'big')

    def raw(em):
        v = int.from_bytes(em, 'big')
        return pow(v % n, k.d, n).to_bytes(kk, 'big')
    t = info + d
    how = case['how']
    x = bytes([case['x']])
    sig = {
        'short_pad': lambda: raw(b'\0\x01' + b'\xff' * 8 + b'\0' + t +
                                 x * (kk - 11 - len(t))),
        'garbage': lambda: raw(b'\0\x01' + b'\xff' * (kk - 4 - len(t)) + b'\0' + t + x),
        'no_info': lambda: raw(b'\0\x01' + b'\xff' * (kk - 23) + b'\0' + d),
        'md5_info': lambda: raw(b'\0\x01' + b'\xff' * (kk - 3 - len(t)) + b'\0' +
                                t[:8] + bytes([t[8] ^ 1]) + t[9:]),
        'null_less': lambda: raw(b'\0\x01' + b'\xff' * (kk - len(t) - 1) + b'\0' +
                                 bytes.fromhex('301f300706052b0e03021a0414') + d),
        'bad_pad': lambda: raw(b'\0\x01' + b'\xff' * (kk - 4 - len(t)) +
                               bytes([case['x'] % 255]) + b'\0' + t),
        'type2': lambda: raw(b'\0\x02' + b'\xff' * (kk - 3 - len(t)) + b'\0' + t),
        'type0': lambda: raw(b'\0\0' + b'\0' * (kk - 2 - len(t)) + t),
        'first_byte': lambda: raw(b'\x01' + k._emsa(form)[1:]),
        'hash_only': lambda: raw(d.rjust(kk, b'\0')),
        'digest_front': lambda: raw(b'\0\x01' + d + b'\xff' * (kk - 2 - 20)),
        'plus_n': lambda: (g + n).to_bytes(kk + 1, 'big'),
        'plus_n_same': lambda: ((g + n) % (1 << 8 * kk)).to_bytes(kk, 'big'),
        'leading_zero': lambda: b'\0' + good,
        'n_minus_s': lambda: (n - g).to_bytes(kk, 'big'),
        'zero': lambda: b'\0' * kk,
        'one': lambda: b'\0' * (kk - 1) + b'\x01',
        'n_minus_1': lambda: (n - 1).to_bytes(kk, 'big'),
        'no_version': lambda: k.sign(msg),
        'other_msg': lambda: k.sign(ref.signed_form(msg + x)),
        'padded_left': lambda: b'\0' * case['x'] + good,
        'stripped': lambda: good.lstrip(b'\0')[:-1],
        'prefix_ff': lambda: b'\xff' + good,
        'raw_message': lambda: raw(msg[:kk - 1].rjust(kk, b'\0')),
        'hash_of_hash': lambda: k.sign(d), 'attached': lambda: k.sign(ref.signed_form(msg, b'')),
        'digest_is_form': lambda: raw(b'\0\x01' + b'\xff' * (kk - 38) + b'\0' + info +
                                      form[:20].ljust(20, b'\0')),
        'hex': lambda: good.hex().encode(), 'text': lambda: ref.b64e(good).encode(),
    }[how]()
    if k.verify(form, sig):
        ctx.label('accidentally genuine')
        return
    for v in both(single(k, SIGN)):
        not_accepted(v, case['msg'], k.header() + sig, how)
    ctx.label(how)
    ctx.nontrivial()


DSA_FORGE = st.sampled_from(['r0', 's0', 'r0s0', 'rq', 'sq', 'r+q', 's+q', 'q-s', '-r', '-s', 'neg',
                             'swap', 'g', 'big', 'extra_int', 'one_int', 'no_seq', 'set',
                             'trailing', 'indef', 'long_len', 'nonminimal', 'empty', 'octets',
                             'no_version', 'y', 'bool', 'nested', 'len+1', 'len-1',
                             'digest_is_form', 'hash_of_hash', 'hex', 'text', 'attached'])


@R.prop(st.fixed_dictionaries({'spec': gens.dsa_spec(), 'msg': gens.messages(60),
                               'how': DSA_FORGE, 'k': st.integers(2, 2 ** 158)}),
        quick=600, thorough=8000)
def dsa_forged(case, ctx):
    k = keypool.make(case['spec'])
    msg = B(case['msg'])
    form = ref.signed_form(msg)
    r, s = k.sign_rs(form, case['k'])
    q = k.q

    def der(r, s):
        def i(v):
            b = v.to_bytes(v.bit_length() // 8 + 1, 'big', signed=True)
            return b'\x02' + _len(b) + b
        body = i(r) + i(s)
        return b'\x30' + _len(body) + body

    def _len(b):
        n = len(b)
        return bytes([n]) if n < 128 else b'\x82' + n.to_bytes(2, 'big')
    good = k.encode(r, s)
    body = good[2:]

    def of_digest(h):
        h = int.from_bytes(h[:20], 'big')
        r = pow(k.g, case['k'], k.p) % q
        return k.encode(r, pow(case['k'], -1, q) * (h + k.x * r) % q)
    how = case['how']
    sig = {
        'r0': lambda: der(0, s), 's0': lambda: der(r, 0), 'r0s0': lambda: der(0, 0),
        'rq': lambda: der(q, s), 'sq': lambda: der(r, q), 'r+q': lambda: der(r + q, s),
        's+q': lambda: der(r, s + q), 'q-s': lambda: der(r, q - s), '-r': lambda: der(-r, s),
        '-s': lambda: der(r, -s), 'neg': lambda: der(r - q, s - q), 'swap': lambda: der(s, r),
        # r = g^0 mod q with s = anything: only accepted without range checks
        'g': lambda: der(1, 1), 'big': lambda: der(r + k.p * q, s),
        'y': lambda: der(k.y % q, k.y % q),
        'extra_int': lambda: b'\x30' + _len(body + b'\x02\x01\x05') + body + b'\x02\x01\x05',
        'one_int': lambda: b'\x30' + _len(ref.der_int(r)) + ref.der_int(r),
        'no_seq': lambda: body,
        'set': lambda: b'\x31' + good[1:],
        'trailing': lambda: good + b'\0',
        'indef': lambda: b'\x30\x80' + body + b'\0\0',
        'long_len': lambda: b'\x30\x81' + good[1:],
        'nonminimal': lambda: b'\x30' + _len(b'\0' + body) +
        b'\x02' + bytes([len(ref.be_signed(r)) + 1]) + b'\0' + ref.be_signed(r) + ref.der_int(s),
        'empty': lambda: b'',
        'octets': lambda: b'\x30' + _len(body) + b'\x04' + body[1:],
        'no_version': lambda: k.encode(*k.sign_rs(msg, case['k'])),
        'bool': lambda: b'\x30\x06\x01\x01\xff\x01\x01\xff',
        'nested': lambda: b'\x30' + _len(good) + good,
        'len+1': lambda: b'\x30' + bytes([good[1] + 1]) + body,
        'len-1': lambda: b'\x30' + bytes([good[1] - 1]) + body,
        # genuine numbers for something else that an honest key could be made to sign
        'digest_is_form': lambda: of_digest(form), 'hash_of_hash': lambda: of_digest(ref.sha1(ref.sha1(form))),
        'attached': lambda: k.encode(*k.sign_rs(ref.signed_form(msg, b''), case['k'])),
        'hex': lambda: good.hex().encode(), 'text': lambda: ref.b64e(good).encode(),
    }[how]()
    if k.verify(form, sig):
        ctx.label('accidentally genuine')
        return
    for v in both(single(k, SIGN)):
        not_accepted(v, case['msg'], k.header() + sig, how)
    ctx.label(how)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'mac': gens.hexbytes(32), 'msg': gens.messages(60),
                               'how': st.sampled_from(['trunc', 'empty', 'ext', 'zero', 'md5', 'sha256',
                                                       'sha1', 'no_version', 'dup', 'prefix',
                                                       'key_swapped', 'one_byte', 'wide', 'hex', 'HEX',
                                                       'text', 'reversed', 'attached',
                                                       'hash_of_hash']),
                               'n': st.integers(1, 19)}), quick=300, thorough=4000)
def hmac_forged(case, ctx):
    import hashlib
    import hmac as hm
    k = ref.HmacKey(bytes.fromhex(case['mac']))
    msg = B(case['msg'])
    form = ref.signed_form(msg)
    good = k.sign(form)
    n = case['n']
    v = keyczar.Signer(single(k, SIGN).reader())
    if case['how'] == 'wide':
        # text that is not a byte string and agrees with the MAC in the low bits
        wide = S(k.header()) + ''.join(chr(b + 256 * n) for b in good)
        kind, r = outcome(lambda: v.Verify(case['msg'], wide, None), KeyczarError, UnicodeError)
        require(kind == 'error' or r is False, 'Verify returned %s', short(r))
        ctx.nontrivial()
        return
    sig = {
        'trunc': lambda: good[:n], 'empty': lambda: b'', 'ext': lambda: good + b'\0' * n,
        'zero': lambda: b'\0' * 20, 'md5': lambda: hm.new(k.mac, form, 'md5').digest(),
        'sha256': lambda: hm.new(k.mac, form, 'sha256').digest()[:20],
        'sha1': lambda: hashlib.sha1(form).digest(),
        'no_version': lambda: k.sign(msg), 'dup': lambda: good + good,
        'prefix': lambda: good[:n] + bytes([good[n] ^ 1]) + good[n + 1:],
        'key_swapped': lambda: hm.new(form, k.mac, 'sha1').digest(),
        'one_byte': lambda: good[:1], 'hex': lambda: good.hex().encode(),
        'HEX': lambda: good.hex().upper().encode(), 'text': lambda: ref.b64e(good).encode(),
        'reversed': lambda: good[::-1], 'attached': lambda: k.sign(ref.signed_form(msg, b'')),
        'hash_of_hash': lambda: k.sign(ref.sha1(form)),
    }[case['how']]()
    if sig == good:
        return
    not_accepted(v, case['msg'], k.header() + sig, case['how'])
    ctx.label(case['how'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': gens.sign_entries(rsa_sizes=(512,), max_size=3),
    'msgs': st.lists(gens.messages(60), min_size=2, max_size=4, unique=True),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('good'), st.integers(0, 3)),
        st.tuples(st.just('other'), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just('sig'), st.integers(0, 3), gens.mutations()),
        st.tuples(st.just('msg'), st.integers(0, 3), gens.mutations()),
        st.tuples(st.just('sign'), st.integers(0, 3))).map(list), min_size=2, max_size=10)}),
    quick=400, thorough=12000)
def histories(case, ctx):
    """The same objects verify genuine signatures and, between them, the same signatures with
    other messages, headers of other keys and alterations."""
    ks = KeySet.from_case(SIGN, case['entries'])
    vs = both(ks)
    n = len(ks.entries)
    pairs = []
    for i, m in enumerate(case['msgs']):
        pairs.append((m, ref.versioned_sig(ks.entries[i % n][2], B(m), 12345 + i)))
    bad = 0
    for op in case['ops']:
        m, sig = pairs[op[1] % len(pairs)]
        if op[0] == 'good':
            for v in vs:
                require(v.Verify(m, S(sig), None) is True, 'a genuine signature is refused')
            continue
        if op[0] == 'sign':
            pairs.append((m, B(vs[0].Sign(m, None))))
            continue
        if op[0] == 'other':
            m = pairs[op[2] % len(pairs)][0]
            sig = pairs[op[3] % len(pairs)][1][:5] + sig[5:]
        elif op[0] == 'sig':
            sig = gens.mutate(sig, op[2])
        else:
            m = S(gens.mutate(B(m), op[2]))
        if genuine(ks, m, sig):
            continue
        for v in vs:
            not_accepted(v, m, sig, op)
        bad += 1
    ctx.label(ks.kind)
    ctx.nontrivial(bad > 0)


@R.enum(lambda tier: [{'spec': i, 'len': n, 'at': a} for n in (LARGE if tier == 'quick' else
                                                             LARGE + HUGE)
                      for i in (0, 1, 2) for a in (0.02, 0.6, 0.999, 1)])
def large(case, ctx):
    """A change anywhere in a long message."""
    k, vs, _ = _obj(case['spec'])
    msg = big(case['len'])
    sig = vs[0].Sign(msg, None)
    i = int(len(msg) * case['at'])
    other = (msg[:i] + chr(ord(msg[i]) ^ 1) + msg[i + 1:]) if i < len(msg) else msg + '\0'
    for v in vs:
        require(v.Verify(msg, sig, None) is True, 'a genuine signature is refused')
        for m in (other, msg[:i // 2] + msg[i // 2 + 1:]):
            kind, r = outcome(lambda: v.Verify(m, sig, None))
            require(kind == 'error' or r is False, 'Verify returned %s', short(r))
    ctx.nontrivial()
