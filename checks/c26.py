"""C26: byte-string primitives meet their definitions."""
import hashlib
import struct

from hypothesis import strategies as st

import gens
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are arguments of one helper, judged by int, hashlib and struct. Non-trivial: an '
          'argument other than zero or the empty string.')

NUMBERS = st.one_of(
    st.integers(0, 300), st.integers(0, 2 ** 40), st.integers(0, 2 ** 2100),
    st.builds(lambda e, d: max(0, 2 ** e + d), st.integers(0, 2100), st.integers(-2, 2)))
BYTES = st.one_of(gens.bstr(0, 60), gens.messages(700),
                  st.builds(lambda n, s: '\0' * n + s, st.integers(0, 20), gens.bstr(0, 20)))


def same(got, want, what):
    require(type(got) is type(want) and got == want, '%s gives %s, not %s', what, short(got),
            short(want))


@R.prop(st.fixed_dictionaries({'n': NUMBERS, 'zeros': st.integers(0, 9)}), quick=2500,
        thorough=80000)
def integers(case, ctx):
    n = case['n']
    size = (n.bit_length() + 7) // 8
    minimal = S(n.to_bytes(size, 'big'))
    same(util.BigIntToBytes(n), minimal, 'BigIntToBytes')
    same(util.BytesToLong(minimal), n, 'BytesToLong')
    same(util.BytesToLong('\0' * case['zeros'] + minimal), n, 'BytesToLong with zeros in front')
    if n:
        same(util.NumBytes(n), size, 'NumBytes')
    same(util.IntToBin(n), bin(n)[2:], 'IntToBin')
    same(util.BinToBytes(bin(n)[2:]), S(n.to_bytes(max(size, 1), 'big')), 'BinToBytes')
    w = n % 2 ** 32
    same(util.IntToBytes(w), S(struct.pack('>I', w)), 'IntToBytes')
    ctx.label('bits: %d..' % (n.bit_length() // 500 * 500))
    ctx.nontrivial(n > 0)


@R.prop(st.fixed_dictionaries({'a': BYTES, 'b': BYTES, 'n': st.integers(0, 40)}), quick=2500,
        thorough=80000)
def strings(case, ctx):
    a, b, n = case['a'], case['b'], case['n']
    bits = ''.join('{:08b}'.format(x) for x in B(a))
    same(util.BytesToBin(a), bits, 'BytesToBin')
    same(util.BinToBytes(bits), a, 'BinToBytes')
    m = max(len(a), len(b))
    x = int.from_bytes(B(a), 'big') ^ int.from_bytes(B(b), 'big')
    want = S(x.to_bytes(m, 'big'))
    same(util.Xor(a, b), want, 'Xor')
    same(util.Xor(b, a), want, 'Xor')
    same(util.PadBytes(a, n), '\0' * n + a, 'PadBytes')
    i = 0
    while i < len(a) and a[i] == '\0':
        i += 1
    same(util.TrimBytes(a), a[i:] or '\0', 'TrimBytes')
    same(util.BytesToLong(a), int.from_bytes(B(a), 'big'), 'BytesToLong')
    ctx.label('zeros in front' if i else 'no zeros in front', 'lengths differ' if len(a) != len(b)
              else 'equal lengths')
    ctx.nontrivial(len(a) > 0)


@R.prop(st.fixed_dictionaries({'parts': st.lists(BYTES, max_size=5)}), quick=1500, thorough=50000)
def hashes(case, ctx):
    ps = [B(p) for p in case['parts']]
    same(util.Hash(*case['parts']), S(hashlib.sha1(b''.join(ps)).digest()), 'Hash')
    same(util.PrefixHash(*case['parts']),
         S(hashlib.sha1(b''.join(struct.pack('>I', len(p)) + p for p in ps)).digest()), 'PrefixHash')
    ctx.nontrivial(any(ps))


@R.enum(lambda tier: [{'n': n, 'at': i} for n in (255, 256, 65535, 65536, 65537, 2 ** 17 + 5, 2 ** 20)
                      + (() if tier == 'quick' else (2 ** 24 - 1, 2 ** 24)) + (2 ** 24 + 3,)
                      for i in range(3)])
def long_parts(case, ctx):
    ps = ['a', 'bc', '']
    ps[case['at']] = big(case['n'])
    bs = [B(p) for p in ps]
    same(util.Hash(*ps), S(hashlib.sha1(b''.join(bs)).digest()), 'Hash')
    same(util.PrefixHash(*ps),
         S(hashlib.sha1(b''.join(struct.pack('>I', len(p)) + p for p in bs)).digest()), 'PrefixHash')
    packed = S(struct.pack('>i', 3) + b''.join(struct.pack('>i', len(p)) + p for p in bs))
    got = util.PackMultipleByteArrays(*ps)
    require(got == packed, 'PackMultipleByteArrays')
    require(list(util.UnpackMultipleByteArrays(got)) == ps, 'UnpackMultipleByteArrays')
    a = ps[case['at']]
    if case['n'] < 300:
        same(util.BytesToLong(a), int.from_bytes(B(a), 'big'), 'BytesToLong')
        same(util.BigIntToBytes(int.from_bytes(b'\1' + B(a), 'big')), '\1' + a, 'BigIntToBytes')
    if case['n'] < 2 ** 21:
        x, y = B(a), B(big(case['n'], 3))
        want = S((int.from_bytes(x, 'big') ^ int.from_bytes(y, 'big')).to_bytes(len(x), 'big'))
        require(util.Xor(a, S(y)) == want and util.Xor(S(y), a) == want, 'Xor')
    require(util.TrimBytes('\0' * case['n'] + 'x') == 'x', 'TrimBytes')
    require(util.PadBytes('x', case['n']) == '\0' * case['n'] + 'x', 'PadBytes')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'seed': gens.bstr(0, 70), 'n': st.one_of(
    st.integers(0, 70), st.integers(0, 6000), st.sampled_from([19, 20, 21, 39, 40, 41, 5119, 5120,
                                                               5121, 5140]))}),
        quick=1200, thorough=30000)
def masks(case, ctx):
    same(util.MGF(case['seed'], case['n']), S(ref.mgf1(B(case['seed']), case['n'])), 'MGF')
    raises(lambda: util.MGF(case['seed'], 2 ** 32 * 20 + 1 + case['n']))
    ctx.nontrivial(case['n'] > 20)


@R.prop(st.fixed_dictionaries({'msg': gens.messages(300), 'size': st.one_of(
    st.sampled_from([512, 768, 1024, 2048, 4096]), st.integers(46, 600).map(lambda n: 8 * n))}),
        quick=1200, thorough=30000)
def signature_blocks(case, ctx):
    k = case['size'] // 8
    info = bytes.fromhex('3021300906052b0e03021a05000414') + hashlib.sha1(B(case['msg'])).digest()
    want = b'\x01' + b'\xff' * (k - 3 - len(info)) + b'\0' + info
    require(len(want) == k - 1, 'oracle')
    same(util.MakeEmsaMessage(case['msg'], case['size']), S(want), 'MakeEmsaMessage')
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'parts': st.lists(BYTES, max_size=5), 'cut': gens.POS,
                               'len': st.one_of(st.integers(-2 ** 31, -1), st.integers(0, 2 ** 31 - 1),
                                                st.integers(0, 60))}), quick=2500, thorough=80000)
def packing(case, ctx):
    ps = case['parts']
    packed = struct.pack('>i', len(ps)) + b''.join(struct.pack('>i', len(p)) + B(p) for p in ps)
    got = util.PackMultipleByteArrays(*ps)
    same(got, S(packed), 'PackMultipleByteArrays')
    same(list(util.UnpackMultipleByteArrays(got)), ps, 'UnpackMultipleByteArrays')
    ends = [4]
    for p in ps:
        same(util.PackByteArray(p), S(struct.pack('>i', len(p)) + B(p)), 'PackByteArray')
        x = util.UnpackByteArray(got, ends[-1])
        ends.append(ends[-1] + 4 + len(p))
        same(tuple(x), (p, ends[-1]), 'UnpackByteArray')
    cut = case['cut'] % max(1, len(packed))
    if cut not in ends and len(packed) > 4:
        raises(lambda: util.UnpackMultipleByteArrays(got[:cut]))
        ctx.label('cut')
    # a wrong length of the last array: longer, or so short that a rest remains
    if ps:
        last = ps[-1]
        n = case['len']
        head, rest = got[:ends[-2]], last
        bad = head + S(struct.pack('>i', n)) + rest
        if not 0 <= n <= len(rest):
            raises(lambda: util.UnpackMultipleByteArrays(bad))
            raises(lambda: util.UnpackByteArray(bad, ends[-2]))
            ctx.label('wrong length')
    ctx.nontrivial(len(ps) > 0)


ARG = st.one_of(st.integers(-5, 5), gens.bstr(0, 4), st.none(), st.booleans(),
                st.lists(st.integers(0, 3), max_size=2))


@R.prop(st.fixed_dictionaries({'calls': st.lists(st.tuples(
    st.lists(ARG, max_size=3), st.dictionaries(st.sampled_from('abc'), ARG, max_size=2)).map(list),
    min_size=1, max_size=12)}), quick=800, thorough=20000)
def memoized_functions(case, ctx):
    """A memoized function returns what the function returns for these arguments."""
    def f(*args, **kwargs):
        return [list(args), dict(kwargs), [type(a).__name__ for a in args]]
    g = util.Memoize(f)
    for args, kwargs in case['calls'] + case['calls'][::-1]:
        want = f(*args, **kwargs)
        got = g(*args, **kwargs)
        require(got == want, 'for %s gives %s', short([args, kwargs]), short(got))
    ctx.nontrivial(len(case['calls']) > 1)


def small(tier):
    top = 70000 if tier == 'quick' else 2 ** 18
    for i in range(0, top, 1000):
        yield {'from': i}


@R.enum(small)
def every_small_number(case, ctx):
    for n in range(case['from'], case['from'] + 1000):
        size = (n.bit_length() + 7) // 8
        t = S(n.to_bytes(size, 'big'))
        same(util.BigIntToBytes(n), t, 'BigIntToBytes')
        same(util.BytesToLong(t), n, 'BytesToLong')
        same(util.IntToBytes(n), S(struct.pack('>I', n)), 'IntToBytes')
        same(util.IntToBin(n), bin(n)[2:], 'IntToBin')
    ctx.nontrivial()
