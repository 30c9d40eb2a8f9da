"""An independent implementation of Keyczar's formats, on bytes.

Written from the formats (docs, the Java and C++ implementations), not from
the Python code; it shares nothing with it but hashlib and hmac.
"""
import base64
import hashlib
import hmac
import json
import struct

import refaes

HDR = b'\x00'


class RefError(Exception):
    pass


def sha1(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p)
    return h.digest()


def b64e(b):
    return base64.b64encode(b, b'-_').decode('ascii').rstrip('=')


def b64d(s):
    return base64.b64decode(s + '=' * (-len(s) % 4), b'-_', validate=True)


def be(n):
    """Minimal big-endian bytes of a positive integer."""
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')


def be_signed(n):
    """Two's complement big-endian bytes, as Java's BigInteger.toByteArray."""
    return n.to_bytes(n.bit_length() // 8 + 1, 'big')


ENCODINGS = {'signed': be_signed, 'min': be, 'pad': lambda v: b'\0' + be(v),
             'pad3': lambda v: b'\0\0\0' + be(v)}


def lp(b):
    return struct.pack('>I', len(b)) + b


# --- keys ---------------------------------------------------------------

class Key(object):
    kind = None

    def header(self):
        return HDR + self.hash()


class AesKey(Key):
    kind = 'AES'

    def __init__(self, key, mac):
        self.key, self.mac = key, mac

    def hash(self):
        return sha1(struct.pack('>I', len(self.key)), self.key, self.mac)[:4]

    def json(self):
        return json.dumps({'mode': 'CBC', 'size': len(self.key) * 8,
                           'aesKeyString': b64e(self.key),
                           'hmacKey': {'size': len(self.mac) * 8,
                                       'hmacKeyString': b64e(self.mac)}})

    def secrets(self):
        return [self.key, self.mac]

    def encrypt(self, msg, iv):
        pad = 16 - len(msg) % 16
        body = self.header() + iv + refaes.cbc_encrypt(
            self.key, iv, msg + bytes([pad]) * pad)
        return body + hmac.new(self.mac, body, 'sha1').digest()

    def decrypt(self, blob):
        if len(blob) < 5 + 16 + 16 + 20 or (len(blob) - 41) % 16:
            raise RefError('length')
        if blob[:5] != self.header():
            raise RefError('header')
        body, sig = blob[:-20], blob[-20:]
        if hmac.new(self.mac, body, 'sha1').digest() != sig:
            raise RefError('mac')
        plain = refaes.cbc_decrypt(self.key, body[5:21], body[21:])
        pad = plain[-1]
        if not 1 <= pad <= 16 or plain[-pad:] != bytes([pad]) * pad:
            raise RefError('padding')
        return plain[:-pad]


class HmacKey(Key):
    kind = 'HMAC_SHA1'

    def __init__(self, mac):
        self.mac = mac

    def hash(self):
        return sha1(self.mac)[:4]

    def json(self):
        return json.dumps({'size': len(self.mac) * 8, 'hmacKeyString': b64e(self.mac)})

    def secrets(self):
        return [self.mac]

    def sign(self, msg, k=None):
        return hmac.new(self.mac, msg, 'sha1').digest()

    def verify(self, msg, sig):
        return sig == self.sign(msg)


_SHA1_INFO = bytes.fromhex('3021300906052b0e03021a05000414')


def mgf1(seed, n):
    out = b''
    i = 0
    while len(out) < n:
        out += sha1(seed, struct.pack('>I', i))
        i += 1
    return out[:n]


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


class RsaKey(Key):
    """enc: how big integers are stored ('signed' as Java and C++ do, 'min',
    'pad' with one leading zero byte as Python does, or 'pad3' with three)."""
    kind = 'RSA_PRIV'

    def __init__(self, n, e, d=None, p=None, q=None, enc='signed'):
        self.n, self.e, self.d, self.p, self.q = n, e, d, p, q
        self.enc = ENCODINGS[enc]
        self.bits = n.bit_length()
        self.k = (self.bits + 7) // 8

    def hash(self):
        return sha1(lp(be(self.n)), lp(be(self.e)))[:4]

    def _i(self, v):
        return b64e(self.enc(v))

    def public_dict(self):
        return {'modulus': self._i(self.n), 'publicExponent': self._i(self.e),
                'size': self.bits}

    def public_json(self):
        return json.dumps(self.public_dict())

    def json(self):
        return json.dumps({
            'publicKey': self.public_dict(),
            'privateExponent': self._i(self.d),
            'primeP': self._i(self.p), 'primeQ': self._i(self.q),
            'primeExponentP': self._i(self.d % (self.p - 1)),
            'primeExponentQ': self._i(self.d % (self.q - 1)),
            'crtCoefficient': self._i(pow(self.q, -1, self.p)),
            'size': self.bits})

    def secret_ints(self):
        return [self.d, self.p, self.q, self.d % (self.p - 1), self.d % (self.q - 1),
                pow(self.q, -1, self.p)]

    def max_message(self):
        return self.k - 42

    def oaep(self, msg, seed):
        k = self.k
        assert len(msg) <= k - 42
        db = sha1(b'') + b'\0' * (k - len(msg) - 42) + b'\x01' + msg
        mdb = xor(db, mgf1(seed, len(db)))
        mseed = xor(seed, mgf1(mdb, 20))
        return b'\0' + mseed + mdb

    def encrypt(self, msg, seed):
        k = self.k
        em = self.oaep(msg, seed)
        return self.header() + pow(int.from_bytes(em, 'big'), self.e, self.n).to_bytes(k, 'big')

    def raw(self, em):
        """Header plus the RSA encryption of the integer em."""
        return self.header() + pow(em, self.e, self.n).to_bytes(self.k, 'big')

    def power(self, m):
        if not self.p:
            return pow(m, self.d, self.n)
        a, b = (pow(m, self.d % (r - 1), r) for r in (self.p, self.q))
        return b + self.q * ((a - b) * pow(self.q, -1, self.p) % self.p)

    def decrypt(self, blob):
        if blob[:5] != self.header():
            raise RefError('header')
        c = int.from_bytes(blob[5:], 'big')
        if len(blob) != 5 + self.k or c >= self.n:
            raise RefError('range')
        em = self.power(c).to_bytes(self.k, 'big')
        if em[0] != 0:
            raise RefError('oaep')
        mseed, mdb = em[1:21], em[21:]
        db = xor(mdb, mgf1(xor(mseed, mgf1(mdb, 20)), len(mdb)))
        if db[:20] != sha1(b''):
            raise RefError('oaep')
        rest = db[20:].lstrip(b'\0')
        if rest[:1] != b'\x01':
            raise RefError('oaep')
        return rest[1:]

    def _emsa(self, msg):
        t = _SHA1_INFO + sha1(msg)
        return b'\0\x01' + b'\xff' * (self.k - len(t) - 3) + b'\0' + t

    def sign(self, msg, k=None):
        m = int.from_bytes(self._emsa(msg), 'big')
        return self.power(m).to_bytes(self.k, 'big')

    def verify(self, msg, sig):
        s = int.from_bytes(sig, 'big')
        if len(sig) != self.k or s >= self.n:
            return False
        return pow(s, self.e, self.n).to_bytes(self.k, 'big') == self._emsa(msg)


def der_int(n):
    b = be_signed(n)
    return b'\x02' + bytes([len(b)]) + b


class DsaKey(Key):
    kind = 'DSA_PRIV'

    def __init__(self, p, q, g, y, x=None, enc='signed'):
        self.p, self.q, self.g, self.y, self.x = p, q, g, y, x
        self.bits = p.bit_length()
        self.enc = ENCODINGS[enc]

    def hash(self):
        return sha1(lp(be(self.p)), lp(be(self.q)), lp(be(self.g)), lp(be(self.y)))[:4]

    def _i(self, v):
        return b64e(self.enc(v))

    def public_dict(self):
        return {'p': self._i(self.p), 'q': self._i(self.q), 'g': self._i(self.g),
                'y': self._i(self.y), 'size': self.bits}

    def public_json(self):
        return json.dumps(self.public_dict())

    def json(self):
        return json.dumps({'publicKey': self.public_dict(), 'x': self._i(self.x),
                           'size': self.bits})

    def secret_ints(self):
        return [self.x]

    def sign_rs(self, msg, k):
        while True:
            r = pow(self.g, k, self.p) % self.q
            h = int.from_bytes(sha1(msg), 'big')
            s = pow(k, -1, self.q) * (h + self.x * r) % self.q
            if r and s:
                return r, s
            k = k % (self.q - 2) + 1

    def encode(self, r, s):
        body = der_int(r) + der_int(s)
        return b'\x30' + bytes([len(body)]) + body

    def sign(self, msg, k):
        return self.encode(*self.sign_rs(msg, k % (self.q - 1) + 1))

    def parse(self, sig):
        try:
            assert sig[0] == 0x30 and sig[1] == len(sig) - 2 and sig[1] < 128
            out = []
            i = 2
            for _ in range(2):
                assert sig[i] == 2
                n = sig[i + 1]
                b = sig[i + 2:i + 2 + n]
                assert len(b) == n and n
                out.append(int.from_bytes(b, 'big', signed=True))
                i += 2 + n
            assert i == len(sig)
            assert self.encode(*out) == sig
            return out
        except (AssertionError, IndexError, OverflowError):
            return None

    def verify(self, msg, sig):
        rs = self.parse(sig)
        if not rs:
            return False
        r, s = rs
        if not (0 < r < self.q and 0 < s < self.q):
            return False
        w = pow(s, -1, self.q)
        h = int.from_bytes(sha1(msg), 'big')
        v = pow(self.g, h * w % self.q, self.p) * pow(self.y, r * w % self.q, self.p) % self.p
        return v % self.q == r


# --- messages -----------------------------------------------------------

def signed_form(msg, nonce=None):
    """What a versioned or attached signature covers."""
    return msg + (b'' if nonce is None else lp(nonce)) + b'\0'


def versioned_sig(key, msg, k=1):
    return key.header() + key.sign(signed_form(msg), k)


def attached_sig(key, msg, nonce, k=1):
    return key.header() + lp(msg) + key.sign(signed_form(msg, nonce), k)


# --- key sets -----------------------------------------------------------

def metadata(name, purpose, kind, versions, encrypted=False, extra=None):
    """versions: [(number, status)]"""
    m = {'name': name, 'purpose': purpose, 'type': kind, 'encrypted': encrypted,
         'versions': [{'versionNumber': n, 'status': s, 'exportable': False}
                      for n, s in versions]}
    m.update(extra or {})
    return json.dumps(m)


def pack_session(aes):
    return struct.pack('>I', 2) + lp(aes.key) + lp(aes.mac)


def _num(d, name):
    return int.from_bytes(b64d(d[name]), 'big')


def parse_key(kind, text):
    """A reference key from the JSON of any implementation."""
    try:
        d = json.loads(text)
        if kind == 'AES':
            if d['mode'] != 'CBC':
                raise RefError('mode')
            k = AesKey(b64d(d['aesKeyString']), b64d(d['hmacKey']['hmacKeyString']))
            sizes = [(d['size'], len(k.key) * 8), (d['hmacKey']['size'], len(k.mac) * 8)]
        elif kind == 'HMAC_SHA1':
            k = HmacKey(b64d(d['hmacKeyString']))
            sizes = [(d['size'], len(k.mac) * 8)]
        elif kind in ('RSA_PRIV', 'RSA_PUB'):
            pub = d['publicKey'] if kind == 'RSA_PRIV' else d
            n, e = _num(pub, 'modulus'), _num(pub, 'publicExponent')
            sizes = [(pub['size'], n.bit_length()), (d['size'], n.bit_length())]
            if kind == 'RSA_PUB':
                k = RsaKey(n, e)
            else:
                k = RsaKey(n, e, _num(d, 'privateExponent'), _num(d, 'primeP'), _num(d, 'primeQ'))
                if k.p * k.q != n or k.d * e % ((k.p - 1) * (k.q - 1)) != 1 and (
                        k.d * e % (k.p - 1) != 1 or k.d * e % (k.q - 1) != 1):
                    raise RefError('RSA numbers do not match')
                if (_num(d, 'primeExponentP') != k.d % (k.p - 1)
                        or _num(d, 'primeExponentQ') != k.d % (k.q - 1)
                        or _num(d, 'crtCoefficient') * k.q % k.p != 1):
                    raise RefError('RSA CRT numbers do not match')
        elif kind in ('DSA_PRIV', 'DSA_PUB'):
            pub = d['publicKey'] if kind == 'DSA_PRIV' else d
            k = DsaKey(_num(pub, 'p'), _num(pub, 'q'), _num(pub, 'g'), _num(pub, 'y'))
            sizes = [(pub['size'], k.p.bit_length()), (d['size'], k.p.bit_length())]
            if kind == 'DSA_PRIV':
                k.x = _num(d, 'x')
                if pow(k.g, k.x, k.p) != k.y:
                    raise RefError('DSA numbers do not match')
        else:
            raise RefError('kind %s' % kind)
    except (ValueError, KeyError, TypeError) as e:
        raise RefError('not a %s key: %r' % (kind, e))
    for said, real in sizes:
        if said != real:
            raise RefError('size %r of a key of %d bits' % (said, real))
    return k


def material(key):
    """Everything that makes up a key, comparable."""
    return (key.kind, tuple(sorted((n, v) for n, v in vars(key).items()
                                   if isinstance(v, (int, bytes)))))


def parse_meta(text):
    """(name, purpose, kind, encrypted, [(version, status, exportable)])"""
    try:
        d = json.loads(text)
        vs = [(v['versionNumber'], v['status'], v['exportable']) for v in d['versions']]
        return d['name'], d['purpose'], d['type'], d['encrypted'], vs
    except (ValueError, KeyError, TypeError) as e:
        raise RefError('not key set metadata: %r' % e)
