"""Checks the reference implementation against published test vectors."""
import hashlib

import env
import keypool
import ref
import refaes


def main():
    # FIPS-197 appendix C
    pt = bytes.fromhex('00112233445566778899aabbccddeeff')
    for n, ct in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'),
                  (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'),
                  (32, '8ea2b7ca516745bfeafc49904b496089')):
        a = refaes.AES(bytes(range(n)))
        assert a.encrypt_block(pt).hex() == ct
        assert a.decrypt_block(bytes.fromhex(ct)) == pt
    # RFC 2202 test case 2
    assert ref.HmacKey(b'Jefe').sign(b'what do ya want for nothing?').hex() == \
        'effcdf6ae5eb2fa2d27416d5f184df9c259a7c79'
    for i in (0, 4, 7, 18):
        k = keypool.rsa(i)
        assert k.p * k.q == k.n and k.verify(b'm', k.sign(b'm'))
        assert k.decrypt(k.encrypt(b'm', b's' * 20)) == b'm'
    for i in range(len(keypool.DSA)):
        k = keypool.dsa(i)
        assert pow(k.g, k.x, k.p) == k.y and k.verify(b'm', k.sign(b'm', 12345))
    import hypothesis
    print('self test passed (hypothesis %s, code under test %s)' % (
        hypothesis.__version__, env.SRC))
    return 0
