"""A small, independent AES (FIPS-197) in pure Python, used as a reference."""

def _tables():
    exp = [0] * 512
    log = [0] * 256
    x = 1
    for i in range(255):
        exp[i] = x
        log[x] = i
        y = x << 1
        if y & 0x100:
            y ^= 0x11b
        x = y ^ x
    for i in range(255, 512):
        exp[i] = exp[i - 255]

    def mul(a, b):
        return 0 if a == 0 or b == 0 else exp[log[a] + log[b]]

    sbox = [0] * 256
    for i in range(256):
        inv = 0 if i == 0 else exp[255 - log[i]]
        r = inv
        for _ in range(4):
            inv = ((inv << 1) | (inv >> 7)) & 0xff
            r ^= inv
        sbox[i] = r ^ 0x63
    inv_sbox = [0] * 256
    for i, v in enumerate(sbox):
        inv_sbox[v] = i
    return mul, sbox, inv_sbox

_mul, SBOX, INV_SBOX = _tables()
_T = [[0] * 256 for _ in range(4)]
_D = [[0] * 256 for _ in range(4)]
for _i in range(256):
    _s = SBOX[_i]
    _w = (_mul(_s, 2) << 24) | (_s << 16) | (_s << 8) | _mul(_s, 3)
    _s2 = INV_SBOX[_i]
    _v = ((_mul(_s2, 14) << 24) | (_mul(_s2, 9) << 16) | (_mul(_s2, 13) << 8)
          | _mul(_s2, 11))
    for _k in range(4):
        _T[_k][_i] = ((_w >> (8 * _k)) | (_w << (32 - 8 * _k))) & 0xffffffff
        _D[_k][_i] = ((_v >> (8 * _k)) | (_v << (32 - 8 * _k))) & 0xffffffff


def _sub(w):
    return ((SBOX[w >> 24] << 24) | (SBOX[(w >> 16) & 255] << 16)
            | (SBOX[(w >> 8) & 255] << 8) | SBOX[w & 255])


def _imix(w):
    return (_D[0][SBOX[w >> 24]] ^ _D[1][SBOX[(w >> 16) & 255]]
            ^ _D[2][SBOX[(w >> 8) & 255]] ^ _D[3][SBOX[w & 255]])


class AES:
    def __init__(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('bad AES key length')
        nk = len(key) // 4
        self.rounds = nk + 6
        w = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(nk)]
        rcon = 1
        for i in range(nk, 4 * (self.rounds + 1)):
            t = w[i - 1]
            if i % nk == 0:
                t = _sub(((t << 8) | (t >> 24)) & 0xffffffff) ^ (rcon << 24)
                rcon = _mul(rcon, 2)
            elif nk > 6 and i % nk == 4:
                t = _sub(t)
            w.append(w[i - nk] ^ t)
        self.ek = w
        dk = []
        for r in range(self.rounds, -1, -1):
            blk = w[4 * r:4 * r + 4]
            if r not in (0, self.rounds):
                blk = [_imix(x) for x in blk]
            dk += blk
        self.dk = dk

    def encrypt_block(self, b):
        k = self.ek
        s = [int.from_bytes(b[4 * i:4 * i + 4], 'big') ^ k[i] for i in range(4)]
        T0, T1, T2, T3 = _T
        p = 4
        for _ in range(self.rounds - 1):
            s = [T0[s[i] >> 24] ^ T1[(s[(i + 1) & 3] >> 16) & 255]
                 ^ T2[(s[(i + 2) & 3] >> 8) & 255] ^ T3[s[(i + 3) & 3] & 255]
                 ^ k[p + i] for i in range(4)]
            p += 4
        out = b''
        for i in range(4):
            v = ((SBOX[s[i] >> 24] << 24) | (SBOX[(s[(i + 1) & 3] >> 16) & 255] << 16)
                 | (SBOX[(s[(i + 2) & 3] >> 8) & 255] << 8) | SBOX[s[(i + 3) & 3] & 255])
            out += (v ^ k[p + i]).to_bytes(4, 'big')
        return out

    def decrypt_block(self, b):
        k = self.dk
        s = [int.from_bytes(b[4 * i:4 * i + 4], 'big') ^ k[i] for i in range(4)]
        D0, D1, D2, D3 = _D
        p = 4
        for _ in range(self.rounds - 1):
            s = [D0[s[i] >> 24] ^ D1[(s[(i - 1) & 3] >> 16) & 255]
                 ^ D2[(s[(i - 2) & 3] >> 8) & 255] ^ D3[s[(i - 3) & 3] & 255]
                 ^ k[p + i] for i in range(4)]
            p += 4
        out = b''
        for i in range(4):
            v = ((INV_SBOX[s[i] >> 24] << 24) | (INV_SBOX[(s[(i - 1) & 3] >> 16) & 255] << 16)
                 | (INV_SBOX[(s[(i - 2) & 3] >> 8) & 255] << 8) | INV_SBOX[s[(i - 3) & 3] & 255])
            out += (v ^ k[p + i]).to_bytes(4, 'big')
        return out


def cbc_encrypt(key, iv, data):
    a = AES(key)
    out = []
    prev = iv
    for i in range(0, len(data), 16):
        prev = a.encrypt_block(bytes(x ^ y for x, y in zip(data[i:i + 16], prev)))
        out.append(prev)
    return b''.join(out)


def cbc_decrypt(key, iv, data):
    a = AES(key)
    out = []
    prev = iv
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        out.append(bytes(x ^ y for x, y in zip(a.decrypt_block(blk), prev)))
        prev = blk
    return b''.join(out)


if __name__ == '__main__':
    pt = bytes.fromhex('00112233445566778899aabbccddeeff')
    for n, exp in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'),
                   (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'),
                   (32, '8ea2b7ca516745bfeafc49904b496089')):
        a = AES(bytes(range(n)))
        assert a.encrypt_block(pt).hex() == exp
        assert a.decrypt_block(bytes.fromhex(exp)) == pt
    print('ok')
