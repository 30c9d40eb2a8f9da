"""C32: readers and writers can be plugged in and are chosen by location."""
import importlib
import json
import os
import shutil
import sys
import traceback
import warnings

from hypothesis import strategies as st

import gens
import keypool
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are sets of plug-in modules in plug-in directories, a history of changes to the '
          'environment, and locations opened with every class, written to, and given to the tool. '
          'Non-trivial: a plug-in was consulted, or an in-memory key was used.')

PLUGIN = '''
import os
from keyczar import errors, readers, writers
STORE, PREFIX, LOG = %(store)r, %(prefix)r, %(log)r

def place(location):
  if not isinstance(location, str) or not location.startswith(PREFIX):
    return None
  return os.path.join(STORE, 'at_' + location[len(PREFIX):].replace('/', '_').replace(':', '_'))

def note(what):
  with open(LOG, 'a') as f:
    f.write(what + '\\n')
'''
READER = '''
class R(readers.Reader):
  def __init__(self, d):
    self.d = d
  def _get(self, name):
    try:
      with open(os.path.join(self.d, name)) as f:
        return f.read()
    except IOError:
      raise errors.KeyczarError('nothing there')
  def GetMetadata(self):
    note('meta')
    return self._get('meta')
  def GetKey(self, version_number):
    note('key')
    return self._get(str(version_number))
  def Close(self):
    pass
  @classmethod
  def CreateReader(cls, location):
    d = place(location)
    return cls(d) if d else None
'''
WRITER = '''
class W(writers.Writer):
  def __init__(self, d):
    self.d = d
  def _put(self, name, text):
    os.makedirs(self.d, exist_ok=True)
    with open(os.path.join(self.d, name), 'w') as f:
      f.write(text)
  def WriteMetadata(self, metadata, overwrite=True):
    note('write meta')
    if not overwrite and os.path.exists(os.path.join(self.d, 'meta')):
      raise errors.KeyczarError('exists')
    self._put('meta', str(metadata))
  def WriteKey(self, key, version_number, encrypter=None):
    note('write key')
    key = str(key)
    self._put(str(version_number), encrypter.Encrypt(key) if encrypter else key)
  def Remove(self, version_number):
    os.remove(os.path.join(self.d, str(version_number)))
  def Close(self):
    pass
  @classmethod
  def CreateWriter(cls, location):
    d = place(location)
    return cls(d) if d else None
'''


def in_child(fn):
    """Runs fn in a child process, which keeps the plug-ins it imports."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                fn()
                out = ['ok', '']
            except Violation as v:
                out = ['violation', str(v)]
            except BaseException as e:
                from harness import is_sut_error
                out = ['violation' if is_sut_error(e) else 'error', traceback.format_exc()[-3000:]]
            os.write(w, json.dumps(out).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    os.waitpid(pid, 0)
    require(chunks, 'the process ended')
    kind, text = json.loads(b''.join(chunks).decode())
    if kind == 'violation':
        raise Violation(text)
    if kind == 'error':
        raise RuntimeError(text)


CLASSES = {'crypt': ['Crypter', 'Encrypter', 'GenericKeyczar'],
           'sign': ['Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier',
                    'GenericKeyczar']}
LOCS = ['mem:', 'mem:a', 'mem:b', 'mem://host/a', 'db:a', 'db:b', 'dbx:a', 'd', 'x:a',
        'http://host/keys', '/nonexistent/a', 'file', 'me']
PREFIXES = ['mem:', 'mem:', 'mem://', 'db', 'db:', 'dbx:', 'm', 'http', '/nonexistent', '']


@st.composite
def worlds(draw):
    nd = draw(st.integers(1, 4))
    dirs = []
    for _ in range(nd):
        mods = draw(st.lists(st.tuples(st.sampled_from(PREFIXES),
                                       st.sampled_from(['rw', 'rw', 'r', 'w'])),
                             min_size=0, max_size=2))
        # no overlap within a directory: its order is not specified
        kept = []
        for p, what in mods:
            if not any(p.startswith(q) or q.startswith(p) for q, _ in kept):
                kept.append([p, what])
        dirs.append(kept)
    steps = []
    cur = draw(st.lists(st.integers(-3, nd - 1), max_size=4))
    steps.append(['env', cur])
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['read', 'read', 'read', 'write', 'write', 'env', 'tool', 'here',
                                  'newmod']))
        if k == 'env':
            cur = cur + draw(st.lists(st.integers(-3, nd - 1), min_size=1, max_size=2))
            if draw(st.booleans()):
                cur = draw(st.permutations(cur))
            steps.append(['env', list(cur)])
        elif k == 'read':
            steps.append(['read', draw(st.sampled_from(LOCS)),
                          draw(st.sampled_from(['crypt', 'sign'])), draw(st.integers(0, 4))])
        elif k == 'newmod':
            i = draw(st.integers(0, nd - 1))
            p = draw(st.sampled_from(PREFIXES))
            # two modules of a directory that come in together must not overlap
            if not any(p.startswith(q) or q.startswith(p) for q, _ in dirs[i]) and \
                    not any(t[0] == 'newmod' and t[1] == i and
                            (p.startswith(t[2]) or t[2].startswith(p)) for t in steps):
                steps.append(['newmod', i, p, draw(st.sampled_from(['rw', 'rw', 'r', 'w']))])
        elif k == 'here':
            steps.append(['here', draw(st.sampled_from(['mem:a', 'db:a', 'd'])),
                          draw(st.sampled_from(['crypt', 'sign'])), draw(st.integers(0, 4))])
        else:
            steps.append([k, draw(st.sampled_from(LOCS)), draw(st.integers(0, 3))])
    return {'dirs': dirs, 'steps': steps, 'sep': draw(st.booleans()),
            'onpath': draw(st.lists(st.integers(0, nd - 1), max_size=2, unique=True))}


COUNTER = [0]


class Plugs(object):
    def __init__(self, case, root):
        self.root = root
        self.case = case
        self.loaded = []         # plug-in ids, in the order of their registration
        COUNTER[0] += 1
        self.tag = '%d_%d' % (os.getpid(), COUNTER[0])
        self.mods = {}
        self.env = []
        os.mkdir(os.path.join(root, 'stores'))
        for i, mods in enumerate(case['dirs']):
            d = os.path.join(root, 'plug%d' % i)
            os.mkdir(d)
            with open(os.path.join(d, 'README.txt'), 'w') as f:
                f.write('not a module')
            with open(os.path.join(d, 'broken.pyx'), 'w') as f:
                f.write('raise RuntimeError("not a module")')
            for prefix, what in mods:
                self.add(i, prefix, what)
        for i in case.get('onpath', []):
            sys.path.append(os.path.join(root, 'plug%d' % i))

    def add(self, i, prefix, what):
        j = len([p for p in self.mods if p.startswith('%d.' % i)])
        pid = '%d.%d' % (i, j)
        store = os.path.join(self.root, 'stores', pid)
        os.mkdir(store)
        text = PLUGIN % {'store': store, 'prefix': prefix,
                         'log': os.path.join(self.root, 'log.' + pid)}
        name = ['R', 'A', 'Z', 'Backend', 'File'][(2 * i + 3 * j) % 5]
        if 'r' in what:
            text += READER.replace('class R(', 'class %sReader(' % name)
        if 'w' in what:
            text += WRITER.replace('class W(', 'class %sWriter(' % name)
        with open(os.path.join(self.root, 'plug%d' % i,
                               '%skzplug_%s_%d_%d.py' % (
                                   ['', '_', 'X', '__'][(i + j) % 4], self.tag, i, j)), 'w') as f:
            f.write(text)
        self.mods[pid] = (prefix, what, store)
        importlib.invalidate_caches()

    def set_env(self, items):
        paths = []
        for i in items:
            if i == -1:
                paths.append(os.path.join(self.root, 'missing'))
            elif i == -2:
                paths.append('/nonexistent/plugins')
            elif i == -3:
                paths.append(os.path.join(self.root, 'stores', 'none'))
            else:
                paths.append(os.path.join(self.root, 'plug%d' % i))
        if paths or self.case['sep']:
            os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(paths)
        else:
            os.environ.pop('KEYCZAR_BACKEND_PATHS', None)
        self.env = [i for i in items if i >= 0]

    def load(self):
        for i in self.env:
            self.loaded += [p for p in sorted(self.mods) if p.startswith('%d.' % i) and
                            p not in self.loaded]

    def resolve(self, location, what):
        """'files', a plug-in or None."""
        self.load()
        if os.path.exists(location):
            return 'files'
        for pid in self.loaded:
            prefix, has, _ = self.mods[pid]
            if what in has and location.startswith(prefix):
                return pid
        return None

    def place(self, pid, location):
        if pid == 'files':
            return location
        prefix, _, store = self.mods[pid]
        return os.path.join(store, 'at_' + location[len(prefix):].replace('/', '_').replace(
            ':', '_'))

    def used(self):
        """The plug-ins used since the last call."""
        out = []
        for pid in sorted(self.mods):
            p = os.path.join(self.root, 'log.' + pid)
            if os.path.exists(p):
                out.append(pid)
                os.remove(p)
        return out


SETS = {
    'crypt': lambda name: KeySet(CRYPT, [(1, 'ACTIVE', ref.AesKey(b'1' * 16, b'm' * 32)),
                                         (2, 'PRIMARY', ref.AesKey(b'2' * 16, b'n' * 32))], name),
    'sign': lambda name: KeySet(SIGN, [(1, 'PRIMARY', ref.HmacKey(b'h' * 32))], name)}


def opened(k, ks, cls):
    """The object behaves as the key set ks, opened with this class."""
    m = k.metadata
    require(m.name == ks.name, 'opened the set %s, not %s', m.name, ks.name)
    require(len(k.versions) == len(ks.entries), '%d versions', len(k.versions))
    if cls == 'Crypter':
        require(B(k.Decrypt(S(ref.b64e(ks.primary.encrypt(b'text', b'v' * 16)).encode()))) ==
                b'text', 'Decrypt')
    elif cls == 'Encrypter':
        require(ks.primary.decrypt(ref.b64d(k.Encrypt('text'))) == b'text', 'Encrypt')
    elif cls == 'Signer':
        require(k.Verify('text', k.Sign('text')), 'Sign')


def expect_read(pl, location, kind, ci, root):
    cls = CLASSES[kind][ci % len(CLASSES[kind])]
    pid = pl.resolve(location, 'r')
    pl.used()
    n = [0]

    def fill(p):
        n[0] += 1
        return SETS[kind]('set %s %d' % (p, n[0])).to_dir(pl.place(p, location))
    want = None
    if pid is not None and pid != 'files':
        # every plug-in that would accept it has a set of its own there
        for p, (prefix, has, _) in pl.mods.items():
            if location.startswith(prefix):
                fill(p)
        want = SETS[kind](json.load(open(os.path.join(pl.place(pid, location), 'meta')))['name'])
    elif pid == 'files':
        want = SETS[kind]('files')
        want.to_dir(location)
    if pid is None:
        raises(lambda: getattr(keyczar, cls).Read(location))
        raises(lambda: readers.CreateReader(location))
        require(not pl.used(), 'a plug-in read it')
        return
    k = getattr(keyczar, cls).Read(location)
    require(type(k) is getattr(keyczar, cls), '%s.Read gives a %s', cls, type(k).__name__)
    opened(k, want, cls)
    require(pl.used() == [p for p in [pid] if p != 'files'], 'other plug-ins were used')
    # also with the reader by itself
    r = readers.CreateReader(location)
    require(json.loads(r.GetMetadata())['name'] == want.name, 'CreateReader gives another set')


def only_changed(pl, before, place):
    after = tool.snapshot(os.path.join(pl.root))
    rel = os.path.relpath(place, pl.root) if place else None
    for p in tool.diff(before, after):
        if p.startswith('log.') or '__pycache__' in p or p.endswith('.pyc'):
            continue
        require(rel is not None and (p == rel or p.startswith(rel + '/')),
                '%s changed, which is not at the place of the writer', p)


def clean(pl, location):
    """Empties the location in every store."""
    for p in pl.mods:
        d = pl.place(p, location)
        if os.path.isdir(d):
            shutil.rmtree(d)


def expect_write(pl, location, n):
    clean(pl, location)
    pid = pl.resolve(location, 'w')
    src = SETS['crypt' if n % 2 else 'sign']('written')
    k = keyczar.GenericKeyczar(src.reader())
    before = tool.snapshot(pl.root)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if n // 2:
                k.Write(location)
            else:
                k.Write(writers.CreateWriter(location))
    if pid is None:
        raises(go)
        only_changed(pl, before, None)
        return
    go()
    place = pl.place(pid, location)
    only_changed(pl, before, place)
    require(sorted(os.listdir(place)) == sorted(['meta'] + [str(v) for v, _, _ in src.entries]),
            'wrote %s', sorted(os.listdir(place)))


def expect_tool(pl, location, n):
    """create, addkey and the rest at a location that only a plug-in knows."""
    clean(pl, location)
    w, r = pl.resolve(location, 'w'), pl.resolve(location, 'r')
    before = tool.snapshot(pl.root)
    kind, why = tool.run(['create', '--location=' + location, '--purpose=crypt', '--name=t'])
    if w is None:
        require(kind == 'fail', 'create works at %s', location)
        only_changed(pl, before, None)
        return
    place = pl.place(w, location)
    require(kind == 'ok', 'create fails at %s: %s', location, why)
    only_changed(pl, before, place)
    require(os.listdir(place) == ['meta'], 'create wrote %s', os.listdir(place))
    if r is None:
        kind, why = tool.run(['addkey', '--location=' + location])
        require(kind == 'fail', 'addkey works without a reader')
        only_changed(pl, before, place)
        return
    if r != w:
        return                   # a reader of one store and a writer of another
    for argv, files in ((['addkey', '--status=primary'], ['1', 'meta']),
                        (['addkey'], ['1', '2', 'meta']),
                        (['promote', '--version=2'], ['1', '2', 'meta']),
                        (['demote', '--version=1'], ['1', '2', 'meta']),
                        (['revoke', '--version=1'], ['2', 'meta'])):
        kind, why = tool.run(argv + ['--location=' + location])
        require(kind == 'ok', '%s fails at %s: %s', argv, location, why)
        only_changed(pl, before, place)
        require(sorted(os.listdir(place)) == files, 'after %s: %s', argv, os.listdir(place))
    require(keyczar.Crypter.Read(location).primary_version.version_number == 2, 'primary')


@R.prop(worlds(), quick=320, thorough=16000, min_shard=80)
def plugged_in(case, ctx):
    root = ctx.scratch()

    def body():
        os.chdir(root)
        pl = Plugs(case, root)
        for s in case['steps']:
            if s[0] == 'env':
                pl.set_env(s[1])
            elif s[0] == 'newmod':
                pl.add(*s[1:])
            elif s[0] == 'read':
                expect_read(pl, s[1], s[2], s[3], root)
            elif s[0] == 'here':
                # a path that exists is a file location, whatever a plug-in accepts
                os.makedirs(s[1], exist_ok=True)
                expect_read(pl, s[1], s[2], s[3], root)
                shutil.rmtree(os.path.join(root, s[1]))
            elif s[0] == 'write':
                expect_write(pl, s[1], s[2])
            else:
                expect_tool(pl, s[1], s[2])
    in_child(body)
    ctx.label(*{s[0] for s in case['steps']})
    ctx.nontrivial(any(case['dirs']))


# In-memory keys.

@st.composite
def static(draw):
    k = draw(st.sampled_from(['aes', 'hmac', 'rsac', 'rsas', 'dsa']))
    spec = draw({'aes': gens.aes_spec(), 'hmac': gens.hmac_spec(), 'dsa': gens.dsa_spec()}.get(
        k, gens.rsa_spec((512, 1024, 2048))))
    return {'k': k, 'spec': spec, 'public': k in ('rsac', 'rsas', 'dsa') and draw(st.booleans()),
            'msg': draw(gens.messages(300)), 'bad': draw(gens.mutations())}


KINDS = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'rsac': 'RSA_PRIV', 'rsas': 'RSA_PRIV',
         'dsa': 'DSA_PRIV'}


@R.prop(static(), quick=400, thorough=12000)
def in_memory(case, ctx):
    key = keypool.make(case['spec'])
    crypt = case['k'] in ('aes', 'rsac')
    purpose = CRYPT if crypt else SIGN
    ks = single(key, purpose, False)
    kind = KINDS[case['k']]
    if case['public']:
        ks = ks.public_set()
        kind = kind.replace('PRIV', 'PUB')
    text = ks.key_jsons()[1]
    kz = keys.ReadKey(keyinfo.GetType(kind), text)
    rd = lambda: readers.StaticKeyReader(kz, keyinfo.GetPurpose(ks.purpose))
    msg = case['msg']
    path = ks.to_dir(os.path.join(ctx.scratch(), 'set'))
    if crypt:
        limit = 10000 if kind == 'AES' else key.bits // 8 - 42
        if len(msg) > limit:
            msg = msg[:limit]
        pairs = [(keyczar.Encrypter(rd()), keyczar.Encrypter.Read(path))]
        if not case['public']:
            pairs.append((keyczar.Crypter(rd()), keyczar.Crypter.Read(path)))
        priv = keyczar.Crypter(single(key, CRYPT).reader())
        for a, b in pairs:
            ct = a.Encrypt(msg)
            require(priv.Decrypt(ct) == msg, 'a stored key does not decrypt it')
            if not case['public']:
                full = keyczar.Crypter(rd())
                require(full.Decrypt(b.Encrypt(msg)) == msg, 'does not decrypt what a stored key '
                        'encrypts')
                bad = gens.mutate(ref.b64d(ct), case['bad'])
                if bad != ref.b64d(ct):
                    one = outcome(lambda: full.Decrypt(ref.b64e(bad)))
                    two = outcome(lambda: priv.Decrypt(ref.b64e(bad)))
                    require(one[0] == two[0], 'on %s: %s and %s', short(bad), one, two)
    else:
        full = keyczar.Signer(single(key, SIGN).reader())
        sig = full.Sign(msg)
        vers = [keyczar.Verifier(rd())]
        if not case['public']:
            mem = keyczar.Signer(rd())
            require(full.Verify(msg, mem.Sign(msg)), 'a stored key does not verify it')
            vers.append(mem)
            un = keyczar.UnversionedSigner(rd())
            require(keyczar.UnversionedSigner(single(key, SIGN).reader()).Verify(
                msg, un.Sign(msg)), 'unversioned')
        for v in vers:
            require(v.Verify(msg, sig), 'does not verify what a stored key signs')
            bad = gens.mutate(ref.b64d(sig), case['bad'])
            if bad != ref.b64d(sig):
                one = outcome(lambda: v.Verify(msg, ref.b64e(bad)))
                two = outcome(lambda: full.Verify(msg, ref.b64e(bad)))
                require(one[0] == two[0] and (one[0] == 'error' or one[1] == two[1]),
                        'on %s: %s and %s', short(bad), one, two)
    g = keyczar.GenericKeyczar(rd())
    require(len(g.versions) == 1 and g.primary_version is not None, 'versions')
    w = DictWriter()
    g.Write(w)
    require(json.loads(w.meta)['type'] == kind and
            json.loads(w.meta)['purpose'] == ks.purpose, 'metadata %s', w.meta)
    again = keys.ReadKey(keyinfo.GetType(kind), w.key_jsons[1])
    require(again.hash_id == kz.hash_id, 'another key was stored')
    for cls in {True: [keyczar.Signer, keyczar.Verifier],
                False: [keyczar.Crypter, keyczar.Encrypter]}[crypt]:
        raises(lambda: cls(rd()))
    ctx.label(case['k'], 'public' if case['public'] else 'private')
    ctx.nontrivial()


# The directory 'backends' beside the library.

@R.prop(st.fixed_dictionaries({'locs': st.lists(st.sampled_from(LOCS), min_size=1, max_size=4),
                               'prefix': st.sampled_from(['mem:', 'db', 'http', 'x:']),
                               'other': st.sampled_from(['mem:', 'db', 'http', 'x:', None])}),
        quick=24, thorough=400, min_shard=12)
def bundled_directory(case, ctx):
    root = ctx.scratch()

    def body():
        import env
        os.chdir(root)
        src = os.path.dirname(os.path.abspath(keyczar.__file__))
        shutil.copytree(src, os.path.join(root, 'lib', 'keyczar'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        pl = Plugs({'dirs': [[[case['prefix'], 'rw']],
                             [[case['other'], 'rw']] if case['other'] else []],
                    'sep': True}, root)
        os.rename(os.path.join(root, 'plug0'), os.path.join(root, 'lib', 'keyczar', 'backends'))
        for m in [m for m in sys.modules if m == 'keyczar' or m.startswith('keyczar.')]:
            del sys.modules[m]
        sys.path.insert(0, os.path.join(root, 'lib'))
        from keyczar import keyczar as kz2, errors as er2
        require(kz2.__file__.startswith(root), 'the copy was not imported')
        pl.loaded = ['0.0']
        pl.set_env([1])
        for loc in case['locs']:
            pid = pl.resolve(loc, 'r')
            if pid is None:
                raises(lambda: kz2.Crypter.Read(loc), er2.KeyczarError)
                continue
            for p, (prefix, _, _) in pl.mods.items():
                if loc.startswith(prefix):
                    SETS['crypt']('set ' + p).to_dir(pl.place(p, loc))
            k = kz2.Crypter.Read(loc)
            opened(k, SETS['crypt']('set ' + pid), 'Crypter')
    in_child(body)
    ctx.nontrivial()
