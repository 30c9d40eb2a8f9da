"""Reference keys for the checks: a committed pool of RSA and DSA keys, and
AES and HMAC keys made from drawn bytes."""
import math
import json
import os

import env
import ref

with open(os.path.join(env.VERIF, 'data', 'keypool.json')) as _f:
    _POOL = json.load(_f)

RSA = [k for k in _POOL['rsa']]
DSA = [k for k in _POOL['dsa']]
RSA_BY_SIZE = {}
for _i, _k in enumerate(RSA):
    RSA_BY_SIZE.setdefault(_k['bits'], []).append(_i)


def rsa(i, enc='signed'):
    k = RSA[i]
    return ref.RsaKey(int(k['n'], 16), k['e'], int(k['d'], 16), int(k['p'], 16),
                      int(k['q'], 16), enc)


def dsa(i, enc='signed'):
    k = DSA[i]
    return ref.DsaKey(int(k['p'], 16), int(k['q'], 16), int(k['g'], 16),
                      int(k['y'], 16), int(k['x'], 16), enc)


def _make(spec):
    """spec: ['AES', key_hex, mac_hex] | ['HMAC', mac_hex] | ['RSA', i, enc] |
    ['DSA', i, enc]; make() also takes a fourth item, see make_varied."""
    if spec[0] == 'AES':
        return ref.AesKey(bytes.fromhex(spec[1]), bytes.fromhex(spec[2]))
    if spec[0] == 'HMAC':
        return ref.HmacKey(bytes.fromhex(spec[1]))
    if spec[0] == 'RSA':
        return rsa(spec[1], spec[2])
    if spec[0] == 'DSA':
        return dsa(spec[1], spec[2])
    raise ValueError(spec)


def make_varied(spec):
    """As make(), with the public exponent or the private number given."""
    k = _make(spec[:3])
    if len(spec) < 4:
        return k
    if spec[0] == 'RSA' and spec[3] != 65537:
        phi = (k.p - 1) * (k.q - 1)
        e = spec[3]
        while math.gcd(e, phi) != 1:
            e += 2
        k.e, k.d = e, pow(e, -1, phi)
    if spec[0] == 'DSA' and spec[3]:
        k.x = spec[3]
        k.y = pow(k.g, k.x, k.p)
    return k


make = make_varied
