"""Glue between reference keys (ref.py) and the code under test."""
import hashlib
import json
import os

import env
import keypool
import ref
from harness import Violation, require, short

from keyczar import errors, keyczar, keydata, keyinfo, keys, readers, util, writers

KeyczarError = errors.KeyczarError

CRYPT = 'DECRYPT_AND_ENCRYPT'
SIGN = 'SIGN_AND_VERIFY'
ENCRYPT = 'ENCRYPT'
VERIFY = 'VERIFY'


def S(b):
    """bytes -> the str (one char per byte) that Keyczar uses."""
    return b.decode('latin-1')


def B(s):
    if isinstance(s, bytes):
        return s
    require(isinstance(s, str), 'expected a string, got %r', s)
    try:
        return s.encode('latin-1')
    except UnicodeEncodeError:
        raise Violation('result is not a byte string: %s' % short(s))


def big(n, salt=0):
    """n bytes of text without any period."""
    return S(hashlib.shake_128(b'big %d' % salt).digest(n))


# sizes at which buffers and chunked loops change their behaviour
LARGE = [5000, 8191, 8192, 8193, 10007, 16384, 32768, 50000, 65535, 65536, 65537, 70001,
         131071, 131073, 200003]
HUGE = [262144, 524289, 1000003, 1048576, 1048577]


class DictReader(readers.Reader):
    """A key set held in memory."""

    def __init__(self, meta, key_jsons):
        self.meta, self.key_jsons = meta, key_jsons

    def GetMetadata(self):
        return self.meta

    def GetKey(self, version_number):
        try:
            return self.key_jsons[version_number]
        except KeyError:
            raise errors.KeyczarError('no such version')

    def Close(self):
        return

    @classmethod
    def CreateReader(cls, location):
        return None


class DictWriter(writers.Writer):
    def __init__(self):
        self.meta, self.key_jsons = None, {}

    def WriteMetadata(self, metadata, overwrite=True):
        if self.meta is not None and not overwrite:
            raise errors.KeyczarError('exists')
        self.meta = str(metadata)

    def WriteKey(self, key, version_number, encrypter=None):
        key = str(key)
        self.key_jsons[version_number] = encrypter.Encrypt(key) if encrypter else key

    def Remove(self, version_number):
        del self.key_jsons[version_number]

    def Close(self):
        return

    @classmethod
    def CreateWriter(cls, location):
        return None

    def reader(self):
        return DictReader(self.meta, dict(self.key_jsons))


SET_NAMES = ['test', '', 'Imported', '\xfc "x"', 'test']


class KeySet(object):
    """A key set of reference keys: entries [(version, status, refkey)]."""

    def __init__(self, purpose, entries, name='test', public=False):
        self.purpose, self.entries, self.name, self.public = purpose, entries, name, public

    @staticmethod
    def from_case(purpose, entries, public=False):
        """entries: [[version, status, spec]]"""
        name = SET_NAMES[sum(map(ord, repr(entries))) % len(SET_NAMES)]
        return KeySet(purpose, [(v, s, keypool.make(spec)) for v, s, spec in entries], name,
                      public=public)

    @property
    def kind(self):
        kind = self.entries[0][2].kind
        return kind.replace('_PRIV', '_PUB') if self.public else kind

    def meta(self, encrypted=False):
        return ref.metadata(self.name, self.purpose, self.kind,
                            [(v, s) for v, s, _ in self.entries], encrypted)

    def key_jsons(self):
        return {v: (k.public_json() if self.public else k.json())
                for v, _, k in self.entries}

    def reader(self):
        return DictReader(self.meta(), self.key_jsons())

    def to_dir(self, path):
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, 'meta'), 'w') as f:
            f.write(self.meta())
        for v, j in self.key_jsons().items():
            with open(os.path.join(path, str(v)), 'w') as f:
                f.write(j)
        return path

    @property
    def primary(self):
        for v, s, k in self.entries:
            if s == 'PRIMARY':
                return k
        return None

    def by_version(self, v):
        return [k for w, _, k in self.entries if w == v][0]

    def public_set(self):
        return KeySet(ENCRYPT if self.purpose == CRYPT else VERIFY, self.entries,
                      self.name, public=True)


def single(key, purpose, public=False):
    return KeySet(purpose, [(1, 'PRIMARY', key)], public=public)


def raises(fn, *types):
    """Calls fn and requires that it raises one of types (default KeyczarError)."""
    types = types or (KeyczarError,)
    try:
        r = fn()
    except types as e:
        return e
    raise Violation('expected %s, got the result %s'
                    % ('/'.join(t.__name__ for t in types), short(r)))


def outcome(fn, *types):
    """('ok', result) or ('error', exception) for an exception of types."""
    types = types or (KeyczarError,)
    try:
        return 'ok', fn()
    except types as e:
        return 'error', e
