"""C02: an altered ciphertext is never accepted."""
import hashlib
import hmac

from hypothesis import strategies as st

import gens
import keypool
import refaes
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('A valid ciphertext (made by the code under test or by the reference) is changed: bit '
          'flips, truncation, extension, insertion, block swaps, splices of two ciphertexts, a '
          'MAC over less than the whole, a header naming another key. Non-trivial: the bytes '
          'given to Decrypt differ from every genuine ciphertext (for RSA, shorter ones: '
          'as numbers).')


def rejected(cr, blob, what):
    for call in (lambda: cr.Decrypt(S(blob), None), lambda: cr.Decrypt(ref.b64e(blob))):
        kind, r = outcome(call)
        require(kind == 'error', '%s: altered ciphertext decrypted to %s', what, short(r))


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.aes_spec(), max_size=3, many=True),
                               'msg': gens.messages(300),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
        quick=700, thorough=20000)
def aes_mutated(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    ct = B(cr.Encrypt(case['msg'], None))
    bad = ct
    for m in case['muts']:
        bad = gens.mutate(bad, m)
    if bad == ct:
        ctx.label('unchanged')
        return
    rejected(cr, bad, case['muts'])
    ctx.label(*['op ' + m[0] for m in case['muts']])
    ctx.nontrivial()


def _flips(tier):
    for key in (16, 24, 32) if tier == 'thorough' else (16, 32):
        for n in (0, 5, 16, 40) if tier == 'thorough' else (0, 17):
            total = 5 + 16 + (n // 16 + 1) * 16 + 20
            for i in range(total):
                for bit in range(8):
                    yield {'key': key, 'len': n, 'at': i, 'bit': bit}
                yield {'key': key, 'len': n, 'cut': i}


@R.enum(_flips)
def aes_every_bit_and_cut(case, ctx):
    k = ref.AesKey(bytes(range(case['key'])), bytes(range(100, 132)))
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    ct = k.encrypt(b'x' * case['len'], bytes(range(50, 66)))
    if 'cut' in case:
        bad = ct[:case['cut']]
    else:
        i = case['at']
        bad = ct[:i] + bytes([ct[i] ^ (1 << case['bit'])]) + ct[i + 1:]
    rejected(cr, bad, case)
    ctx.nontrivial()


FORGE = st.sampled_from(['no_header', 'no_iv', 'no_body', 'aes_key', 'zero_mac', 'other_mac_key',
                         'empty_mac_key', 'mac_of_plain', 'sha1', 'body_swap', 'iv_swap',
                         'mac_swap', 'tail_swap', 'header_swap', 'header_and_mac', 'extra_block',
                         'drop_block', 'short_mac', 'zero_blocks'])


@R.prop(st.fixed_dictionaries({'a': gens.aes_spec(), 'b': gens.aes_spec(),
                               'm1': gens.messages(70), 'm2': gens.messages(70),
                               'iv1': gens.hexbytes(16), 'iv2': gens.hexbytes(16),
                               'forge': FORGE}), quick=600, thorough=12000)
def aes_forged(case, ctx):
    """Splices and wrong MACs, built by the reference."""
    a, b = keypool.make(case['a']), keypool.make(case['b'])
    if a.hash() == b.hash() or a.mac == b.mac:
        return
    ks = KeySet(CRYPT, [(1, 'PRIMARY', a), (2, 'ACTIVE', b)])
    cr = keyczar.Crypter(ks.reader())
    c1 = a.encrypt(B(case['m1']), bytes.fromhex(case['iv1']))
    c2 = a.encrypt(B(case['m2']), bytes.fromhex(case['iv2']))
    cb = b.encrypt(B(case['m2']), bytes.fromhex(case['iv2']))
    body, mac = c1[:-20], c1[-20:]

    def sign(key, data):
        return hmac.new(key, data, hashlib.sha1).digest()
    f = case['forge']
    bad = {
        'no_header': lambda: body + sign(a.mac, body[5:]),
        'no_iv': lambda: body + sign(a.mac, body[:5] + body[21:]),
        'no_body': lambda: body + sign(a.mac, body[:21]),
        'aes_key': lambda: body + sign(a.key, body),
        'zero_mac': lambda: body + b'\0' * 20,
        'other_mac_key': lambda: body + sign(b.mac, body),
        'empty_mac_key': lambda: body + sign(b'', body),
        'mac_of_plain': lambda: body + sign(a.mac, B(case['m1'])),
        'sha1': lambda: body + hashlib.sha1(body).digest(),
        'body_swap': lambda: c1[:21] + c2[21:-20] + mac,
        'iv_swap': lambda: c1[:5] + c2[5:21] + c1[21:],
        'mac_swap': lambda: body + c2[-20:],
        'tail_swap': lambda: c1[:-36] + c2[-36:],
        'header_swap': lambda: cb[:5] + c1[5:],
        'header_and_mac': lambda: cb[:5] + c1[5:-20] + cb[-20:],
        'extra_block': lambda: body + body[-16:] + mac,
        'drop_block': lambda: body[:-16] + mac,
        'short_mac': lambda: body + mac[:10],
        'zero_blocks': lambda: c1[:21] + mac,
    }[f]()
    if bad in (c1, c2, cb):
        return
    rejected(cr, bad, f)
    ctx.label(f)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.rsa_spec((512,)), max_size=3),
                               'msg': gens.bstr(0, 22),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
        quick=500, thorough=10000)
def rsa_mutated(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    ct = B(cr.Encrypt(case['msg'], None))
    bad = ct
    for m in case['muts']:
        bad = gens.mutate(bad, m)
    # earlier releases wrote ciphertexts without the leading zero bytes
    if bad == ct or (bad[:5] == ct[:5] and len(bad) < len(ct) and
                     bad[5:].lstrip(b'\0') == ct[5:].lstrip(b'\0')):
        ctx.label('same number')
        return
    rejected(cr, bad, case['muts'])
    ctx.label(*['op ' + m[0] for m in case['muts']])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((512, 768, 1024)), 'seed': gens.hexbytes(20),
                               'msg': gens.bstr(0, 22), 'more': st.integers(1, 70),
                               'how': st.sampled_from(['zeros', 'after', 'ff', 'twice', 'spaces',
                                                       'n'])}),
        quick=200, thorough=6000)
def rsa_extended(case, ctx):
    """A genuine RSA ciphertext with more bytes before or after the number."""
    k = keypool.make(case['spec'])
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    good = k.encrypt(B(case['msg']), bytes.fromhex(case['seed']))
    more, body = case['more'], good[5:]
    bad = good[:5] + {
        'zeros': lambda: b'\0' * more + body, 'after': lambda: body + b'\0' * more,
        'ff': lambda: b'\xff' * more + body, 'twice': lambda: body * (1 + more // 8 + 1),
        'spaces': lambda: b' ' * more + body + b'\n',
        'n': lambda: (int.from_bytes(body, 'big') + k.n * more).to_bytes(len(body) + 2, 'big')}[
            case['how']]()
    require(cr.Decrypt(S(good), None) == case['msg'], 'the genuine ciphertext is refused')
    rejected(cr, bad, case['how'])
    ctx.label(case['how'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.rsa_spec((512, 768)), 'seed': gens.hexbytes(20),
                               'msg': gens.bstr(0, 20),
                               'at': st.integers(0, 159),
                               'how': st.sampled_from(['lhash', 'lhash bit', 'nodelim', 'delim2', 'plus_n',
                                                       'first', 'maskless', 'pkcs1', 'raw'])}),
        quick=400, thorough=6000)
def rsa_bad_padding(case, ctx):
    """Blocks that are not the OAEP encoding of anything."""
    k = keypool.make(case['spec'])
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    msg, seed = B(case['msg']), bytes.fromhex(case['seed'])
    good = k.encrypt(msg, seed)

    def block(db, first=b'\0'):
        mdb = ref.xor(db, ref.mgf1(seed, len(db)))
        return first + ref.xor(seed, ref.mgf1(mdb, 20)) + mdb
    zeros = b'\0' * (k.k - len(msg) - 42)
    how = case['how']
    if how == 'plus_n':
        bad = good[:5] + (int.from_bytes(good[5:], 'big') + k.n).to_bytes(k.k + 1, 'big')
    else:
        em = {
            'lhash': lambda: block(ref.sha1(b'x') + zeros + b'\x01' + msg),
            'lhash bit': lambda: block((int.from_bytes(ref.sha1(b''), 'big') ^ 1 << case['at'])
                                       .to_bytes(20, 'big') + zeros + b'\x01' + msg),
            'nodelim': lambda: block(ref.sha1(b'') + b'\0' * (k.k - 41)),
            'delim2': lambda: block(ref.sha1(b'') + zeros + b'\x02' + msg),
            'first': lambda: block(ref.sha1(b'') + zeros + b'\x01' + msg, b'\x01'),
            'maskless': lambda: b'\0' + seed + ref.sha1(b'') + zeros + b'\x01' + msg,
            'pkcs1': lambda: b'\0\x02' + b'\xaa' * (k.k - 3 - len(msg)) + b'\0' + msg,
            'raw': lambda: msg.rjust(k.k, b'\0'),
        }[how]()
        n = int.from_bytes(em, 'big')
        if n >= k.n:
            return
        bad = k.raw(n)
    rejected(cr, bad, how)
    ctx.label(how)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'spec': gens.crypting_spec((512,)),
                               'other': gens.crypting_spec((512,)), 'msg': gens.bstr(0, 22)}),
        quick=300, thorough=5000)
def foreign_key(case, ctx):
    """A ciphertext of a key that is not in the set, also under this set's header."""
    a, b = keypool.make(case['spec']), keypool.make(case['other'])
    if a.hash() == b.hash():
        return
    ct = B(keyczar.Crypter(single(b, CRYPT).reader()).Encrypt(case['msg'], None))
    cr = keyczar.Crypter(single(a, CRYPT).reader())
    rejected(cr, ct, 'foreign')
    if not (a.kind == b.kind == 'AES' and a.mac == b.mac):
        rejected(cr, a.header() + ct[5:], 'foreign, header replaced')
    ctx.nontrivial()


PARTS = ['header', 'iv', 'body', 'last', 'mac']


def _parts(b):
    return [b[:5], b[5:21], b[21:-36], b[-36:-20], b[-20:]]


@R.prop(st.fixed_dictionaries({
    'entries': gens.entries(gens.aes_spec(), max_size=3, many=True),
    'msgs': st.lists(gens.messages(80), min_size=1, max_size=4),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('good'), st.integers(0, 3)),
        st.tuples(st.just('splice'), st.lists(st.integers(0, 3), min_size=5, max_size=5)),
        st.tuples(st.just('mutate'), st.integers(0, 3), gens.mutations()),
        st.tuples(st.just('encrypt'), st.integers(0, 3))).map(list), min_size=2, max_size=12)}),
    quick=500, thorough=15000)
def aes_histories(case, ctx):
    """One object reads genuine ciphertexts and, between them, others put together from their
    parts: what it accepted earlier never makes it accept an altered one."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    n = len(ks.entries)
    good = []
    for i, m in enumerate(case['msgs']):
        good.append((ks.entries[i % n][2].encrypt(B(m), bytes(range(i, i + 16))), m))
    bad = 0
    for op in case['ops']:
        if op[0] == 'good':
            ct, m = good[op[1] % len(good)]
            require(cr.Decrypt(S(ct), None) == m, 'a genuine ciphertext is not read')
            continue
        if op[0] == 'encrypt':
            m = case['msgs'][op[1] % len(case['msgs'])]
            good.append((B(cr.Encrypt(m, None)), m))
            continue
        if op[0] == 'splice':
            cols = [_parts(good[i % len(good)][0])[j] for j, i in enumerate(op[1])]
            b = b''.join(cols)
        else:
            b = gens.mutate(good[op[1] % len(good)][0], op[2])
        if b in [g for g, _ in good]:
            continue
        rejected(cr, b, op)
        bad += 1
    ctx.nontrivial(bad > 0)


def _after(tier):
    for n in (0, 20) if tier == 'quick' else (0, 5, 16, 20, 33):
        total = 5 + 16 + (n // 16 + 1) * 16 + 20
        for i in range(total):
            for bit in (0, 7) if tier == 'quick' else range(8):
                yield {'len': n, 'at': i, 'bit': bit}


@R.enum(_after)
def aes_every_byte_after_the_genuine_one(case, ctx):
    k = ref.AesKey(bytes(range(16)), bytes(range(100, 132)))
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    ct = k.encrypt(b'x' * case['len'], bytes(range(50, 66)))
    i = case['at']
    bad = ct[:i] + bytes([ct[i] ^ (1 << case['bit'])]) + ct[i + 1:]
    for _ in range(3):
        require(cr.Decrypt(S(ct), None) == 'x' * case['len'], 'genuine')
        rejected(cr, bad, case)
    ctx.nontrivial()


@R.enum(lambda tier: [{'len': n, 'at': a} for n in (LARGE if tier == 'quick' else LARGE + HUGE)
                      for a in (0.05, 0.5, 0.98)] +
        [{'len': n, 'cut': c} for n in (8192, 65536, 200003) for c in (16, 4096, 8192)])
def aes_large(case, ctx):
    k = ref.AesKey(bytes(range(16)), bytes(range(100, 132)))
    cr = keyczar.Crypter(single(k, CRYPT).reader())
    ct = B(cr.Encrypt(big(case['len']), None))
    if 'cut' in case:
        bads = [ct[:-case['cut']], ct[:-20 - case['cut']] + ct[-20:],
                ct[:21] + ct[21 + case['cut']:]]
    else:
        i = int(len(ct) * case['at'])
        bads = [ct[:i] + bytes([ct[i] ^ 4]) + ct[i + 1:], ct[:i // 16 * 16] + b'\0' * 16 +
                ct[i // 16 * 16:], ct + b'\0']
    for b in bads:
        rejected(cr, b, case)
    require(cr.Decrypt(S(ct), None) == big(case['len']), 'genuine')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'entries': gens.entries(gens.rsa_spec((512,)), max_size=2),
                               'msg': gens.bstr(0, 22),
                               'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}),
        quick=200, thorough=5000)
def rsa_after_the_genuine_one(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    ct = B(cr.Encrypt(case['msg'], None))
    for m in case['muts']:
        require(cr.Decrypt(S(ct), None) == case['msg'], 'genuine')
        bad = gens.mutate(ct, m)
        if bad[:5] != ct[:5] or bad[5:].lstrip(b'\0') != ct[5:].lstrip(b'\0'):
            rejected(cr, bad, m)
            ctx.nontrivial()
