"""Stand-ins for the parts of PyCrypto 2.6.1 that do not run on Python 3.12.

PyCrypto's AES.new raises SystemError (PY_SSIZE_T_CLEAN) and Crypto.Random
needs time.clock and that same AES.  Both are faults of the installed
library, not of Keyczar, so the harness replaces exactly these two with the
same API: Crypto.Random reads os.urandom, and Crypto.Cipher.AES.new is an
AES-CBC object with PyCrypto's rules (whole blocks only, bytes only).
Nothing of Keyczar is replaced.
"""
import os
import sys
import types

import refaes

MODE_CBC = 2


class _Rng(object):
    def read(self, n):
        return os.urandom(n)

    def flush(self):
        pass

    def reinit(self):
        pass

    def close(self):
        pass


class _CbcCipher(object):
    block_size = 16

    def __init__(self, key, mode, iv):
        for v in (key, iv):
            if not isinstance(v, (bytes, bytearray)):
                raise TypeError('argument must be bytes')
        if mode != MODE_CBC:
            raise ValueError('stand-in supports CBC only')
        if len(key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        if len(iv) != 16:
            raise ValueError('IV must be 16 bytes long')
        self.mode = mode
        self.IV = bytes(iv)
        self.key_size = len(key)
        self._aes = refaes.AES(bytes(key))
        self._prev_e = self._prev_d = bytes(iv)

    def _check(self, data):
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError('argument must be bytes')
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')

    def encrypt(self, data):
        self._check(data)
        out = []
        for i in range(0, len(data), 16):
            self._prev_e = self._aes.encrypt_block(
                bytes(a ^ b for a, b in zip(data[i:i + 16], self._prev_e)))
            out.append(self._prev_e)
        return b''.join(out)

    def decrypt(self, data):
        self._check(data)
        out = []
        for i in range(0, len(data), 16):
            blk = bytes(data[i:i + 16])
            out.append(bytes(a ^ b for a, b in
                             zip(self._aes.decrypt_block(blk), self._prev_d)))
            self._prev_d = blk
        return b''.join(out)


def new_aes(key, mode=1, IV=b'', **kw):
    return _CbcCipher(key, mode, IV)


def install():
    import Crypto
    if 'Crypto.Random' not in sys.modules:
        rnd = types.ModuleType('Crypto.Random')
        rnd.new = lambda *a, **k: _Rng()
        rnd.atfork = lambda: None
        rnd.get_random_bytes = lambda n: os.urandom(n)
        rnd.__path__ = [os.path.join(os.path.dirname(Crypto.__file__), 'Random')]
        sys.modules['Crypto.Random'] = rnd
        Crypto.Random = rnd
    from Crypto.Cipher import AES
    AES.new = new_aes
