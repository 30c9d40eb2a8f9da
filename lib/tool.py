"""A model of the key sets that the command-line tool manages, and the glue to
run the tool on scratch directories."""
import contextlib
import io
import json
import os

import keypool
import ref
from harness import Violation, require, short
from kz import *

from keyczar import keyczart

SIZES = {'AES': [128, 192, 256], 'HMAC_SHA1': [256], 'DSA_PRIV': [1024],
         'RSA_PRIV': [2048, 4096, 1024]}
BAD_SIZES = {'AES': [0, 1, 64, 127, 512, 1024, -256], 'HMAC_SHA1': [0, 128, 160, 512],
             'DSA_PRIV': [0, 512, 2048], 'RSA_PRIV': [0, 256, 1023, 1536, 3072, 8192]}
PUBLIC = {'DSA_PRIV': 'DSA_PUB', 'RSA_PRIV': 'RSA_PUB'}


def run(argv):
    """('ok', printed) | ('fail', what)."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            r = keyczart.main(list(argv))
        except KeyczarError as e:
            return 'fail', e
        except SystemExit as e:
            r = e.code
    if r not in (None, 0, False):
        return 'fail', r
    return 'ok', out.getvalue()


def snapshot(root):
    """Every file below root, with its bytes; directories too."""
    out = {}
    for d, _, files in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = b'-> ' + os.readlink(p).encode()
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))


class SetModel(object):
    def __init__(self, name, purpose, kind):
        self.name, self.purpose, self.kind = name, purpose, kind
        self.encrypted = False
        self.versions = {}       # number -> [status, reference key]
        self.exportable = set()  # numbers of the versions with that mark
        self.wrapped_by = None   # header of the key that encrypts the files

    @property
    def primary(self):
        for s, k in self.versions.values():
            if s == 'PRIMARY':
                return k
        return None

    def highest(self):
        return max(self.versions or [0])


def kind_for(purpose, asym):
    """(purpose, key type) that the usage text describes, or None."""
    if purpose == 'crypt':
        return CRYPT, 'AES' if asym is None else 'RSA_PRIV'
    if purpose == 'sign':
        return SIGN, {None: 'HMAC_SHA1', 'rsa': 'RSA_PRIV'}.get(asym, 'DSA_PRIV')
    return None


def read_key(model, text, world):
    """The reference key in a key file of the set."""
    if (model.kind, text) not in world.cache:
        world.cache[model.kind, text] = _read_key(model, text, world), model.wrapped_by
    key, wrapped_by = world.cache[model.kind, text]
    if model.encrypted:
        model.wrapped_by = wrapped_by
    return key


def _read_key(model, text, world):
    if model.encrypted:
        blob = ref.b64d(text)
        for k in world.crypt_keys:
            if blob[:5] == k.header():
                text = k.decrypt(blob).decode('latin-1')
                model.wrapped_by = blob[:5]
                return ref.parse_key(model.kind, text)
        raise ref.RefError('no key opens it')
    return ref.parse_key(model.kind, text)


def bits_of(key):
    return getattr(key, 'bits', None) or 8 * len(key.key if key.kind == 'AES' else key.mac)


class World(object):
    """Several key set directories below one root."""

    def __init__(self, root, names):
        self.root = root
        self.names = names
        self.cache = {}
        self.crypt_keys = []     # all that ever were in a set
        self.sets = {i: None for i in range(len(names))}
        for n in names:
            os.mkdir(os.path.join(root, n))

    def path(self, i):
        return os.path.join(self.root, self.names[i])

    def snapshot(self):
        return snapshot(self.root)

    def crypter_state(self, target, c):
        """Whether addkey on set `target` with the crypter set c (or None) must
        work ('ok'), must fail ('fail') or depends on sizes ('?')."""
        t = self.sets[target]
        if c is None:
            return 'fail' if t.encrypted else 'ok'
        w = self.sets[c]
        if w is None or w.purpose != CRYPT or w.encrypted or w.primary is None or c == target:
            if c == target and w is not None and w.kind == 'AES' and not w.versions:
                return 'fail'
            return '?' if c == target else 'fail'
        if t.versions:
            if not t.encrypted:
                return 'fail'
            if t.wrapped_by not in [k.header() for _, k in w.versions.values()]:
                return 'fail'
        if w.kind == 'RSA_PRIV':
            bits = bits_of(w.primary)
            if t.kind in ('RSA_PRIV', 'DSA_PRIV'):
                return 'fail'
            if t.kind == 'AES' and bits <= 1024:
                return 'fail'
            if t.kind == 'HMAC_SHA1' and bits <= 1024:
                return '?'
        return 'ok'

    def verify_set(self, i, fresh=None):
        """Compares directory i with its model; `fresh` is a version whose key
        is new (it is checked and taken into the model)."""
        m = self.sets[i]
        path = self.path(i)
        files = sorted(os.listdir(path))
        if m is None:
            require(files == [], 'unexpected files %s', files)
            return
        want = sorted(['meta'] + [str(v) for v in m.versions])
        require(files == want, 'the directory holds %s, expected %s', files, want)
        try:
            with open(os.path.join(path, 'meta')) as f:
                meta = ref.parse_meta(f.read())
            keys = {}
            for v in m.versions:
                with open(os.path.join(path, str(v))) as f:
                    keys[v] = read_key(m, f.read(), self)
        except (ref.RefError, UnicodeDecodeError) as e:
            raise Violation('set %d is damaged: %r' % (i, e))
        require(meta[:4] == (m.name, m.purpose, m.kind, m.encrypted),
                'metadata %r, expected %r', meta[:4], (m.name, m.purpose, m.kind, m.encrypted))
        m.exportable &= set(m.versions)
        want = sorted((v, s, v in m.exportable) for v, (s, _) in m.versions.items())
        require(sorted(meta[4]) == want, 'versions %s, expected %s', meta[4], want)
        for v, k in keys.items():
            if v == fresh:
                m.versions[v][1] = k
                if k.kind in ('AES', 'RSA_PRIV'):
                    self.crypt_keys.append(k)
            else:
                require(ref.material(k) == ref.material(m.versions[v][1]),
                        'the key of version %d changed', v)
        ms = [ref.material(k) for k in keys.values()]
        require(len(set(ms)) == len(ms), 'two versions have the same key')

    def verify_all(self):
        for i in self.sets:
            self.verify_set(i)


def add(world, i, status, size, crypter):
    """Updates the model for a successful addkey; returns the new version."""
    m = world.sets[i]
    v = m.highest() + 1
    if status == 'PRIMARY':
        for e in m.versions.values():
            if e[0] == 'PRIMARY':
                e[0] = 'ACTIVE'
    m.versions[v] = [status, None]
    m.encrypted = crypter is not None
    return v


def check_added(world, i, v, size, crypter_key):
    m = world.sets[i]
    world.verify_set(i, fresh=v)
    want = size or SIZES[m.kind][0]
    require(bits_of(m.versions[v][1]) == want, 'new key of %d bits, expected %d',
            bits_of(m.versions[v][1]), want)
    if m.encrypted:
        for w in m.versions:
            with open(os.path.join(world.path(i), str(w))) as f:
                require(ref.b64d(f.read())[:5] == crypter_key.header(),
                        'not encrypted with the primary key of the crypter')


def change(m, op, v):
    """The statuses after promote/demote/revoke, or None if it must fail."""
    s = m.versions[v][0] if v in m.versions else None
    new = {w: e[0] for w, e in m.versions.items()}
    if (op, s) in (('promote', 'INACTIVE'), ('demote', 'PRIMARY')):
        new[v] = 'ACTIVE'
    elif (op, s) == ('promote', 'ACTIVE'):
        new = {w: 'ACTIVE' if x == 'PRIMARY' else x for w, x in new.items()}
        new[v] = 'PRIMARY'
    elif (op, s) == ('demote', 'ACTIVE'):
        new[v] = 'INACTIVE'
    elif (op, s) == ('revoke', 'INACTIVE'):
        del new[v]
    else:
        return None
    return new


def apply_change(m, new):
    m.versions = {v: [s, m.versions[v][1]] for v, s in new.items()}


DECOYS = {'name': 'decoy', 'status': 'inactive', 'version': 77, 'size': 256, 'purpose': 'sign',
          'asymmetric': 'dsa'}


def argv(cmd, flags, order):
    """flags: [(name, value)] with None values left out; order: ints."""
    flags = [f for f in flags if f[1] is not None]
    flags = [f for _, f in sorted(zip(order + [0] * len(flags), flags), key=lambda t: t[0])]
    # an earlier value of a flag does not count
    early = [(n, DECOYS[n]) for i, (n, v) in enumerate(flags)
             if n in DECOYS and order[4:] and order[4] >= 7 and (order[3] + i) % 2]
    return [cmd] + ['--%s=%s' % f for f in early + flags]
