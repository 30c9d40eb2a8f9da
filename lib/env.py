"""Finds the code under test (/repo) and the installed libraries."""
import hashlib
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KEYCZAR_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src')
INTEROP = os.path.join(REPO, 'interop')

sys.dont_write_bytecode = True
for _p in (INTEROP, SRC):
    if _p not in sys.path:
        sys.path.insert(0, _p)
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _HYP not in sys.path:
    sys.path.append(_HYP)   # last: only hypothesis and what it needs come from here

import shim
shim.install()


class Drbg(object):
    """A deterministic byte stream (SHA-256 in counter mode)."""

    def __init__(self, seed):
        self.seed = seed if isinstance(seed, bytes) else str(seed).encode()
        self.ctr = 0
        self.buf = b''

    def read(self, n):
        while len(self.buf) < n:
            self.buf += hashlib.sha256(self.seed + b'|%d' % self.ctr).digest()
            self.ctr += 1
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


_real_urandom = os.urandom


def real_urandom(n):
    return _real_urandom(n)


def set_urandom(fn):
    """Makes fn the operating system's random source, as Keyczar sees it."""
    os.urandom = fn
    random._urandom = fn


def reset_urandom():
    os.urandom = _real_urandom
    random._urandom = _real_urandom
