"""Faster RSA and DSA key generation for histories that add many keys.

Replaces the library's (PyCrypto's) prime search only: RSA keys are made from
pairs of pool primes, DSA keys from pool groups with a new secret.  Property
C31 uses the library's own generation.
"""
import contextlib
import os

import keypool


def _choose(seq, randfunc):
    return seq[int.from_bytes(randfunc(4), 'big') % len(seq)]


def _pairs(bits):
    primes = set()
    for i in keypool.RSA_BY_SIZE.get(bits, []):
        k = keypool.rsa(i)
        primes.update((k.p, k.q))
    primes = sorted(primes)
    return [(p, q) for p in primes for q in primes
            if p < q and (p * q).bit_length() == bits
            and (p - 1) % 65537 and (q - 1) % 65537]


_cache = {}


@contextlib.contextmanager
def fast():
    from Crypto.PublicKey import DSA, RSA
    real = RSA.generate, DSA.generate
    used = set()            # no key twice in one history

    def rsa_generate(bits, randfunc=None, progress_func=None, e=65537):
        if bits < 1024 or bits & 0xff:
            raise ValueError('RSA modulus length must be a multiple of 256 and >= 1024')
        if bits not in _cache:
            _cache[bits] = _pairs(bits)
        left = [pq for pq in _cache[bits] if pq not in used]
        if not left:
            return real[0](bits, randfunc, progress_func, e)
        p, q = _choose(left, randfunc or os.urandom)
        used.add((p, q))
        d = pow(e, -1, (p - 1) * (q - 1))
        return RSA.construct((p * q, e, d, p, q))

    def dsa_generate(bits, randfunc=None, progress_func=None):
        if bits != 1024:
            return real[1](bits, randfunc, progress_func)
        rf = randfunc or os.urandom
        k = _choose([keypool.dsa(i) for i in range(len(keypool.DSA))], rf)
        x = int.from_bytes(rf(19), 'big') + 2
        return DSA.construct((pow(k.g, x, k.p), k.g, k.p, k.q, x))
    RSA.generate, DSA.generate = rsa_generate, dsa_generate
    try:
        yield
    finally:
        RSA.generate, DSA.generate = real
