"""Generated configurations of the interop driver, a reference enumeration of
the tests they describe, and stand-in implementations that record their calls."""
import atexit
import collections
import importlib.util
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import traceback

from hypothesis import strategies as st

import env
from harness import Violation, require, short

DRIVER = os.path.join(env.REPO, 'interop', 'interop.py')
PURPOSES = ['sign', 'crypt', 'verify', 'encrypt']
CRYPTER = 'aes128'

_program = None


def program():
    """The stand-in implementation, built when a check is loaded."""
    global _program
    if _program is None:
        d = tempfile.mkdtemp(prefix='kzstandin.')
        _program = os.path.join(d, 'standin')
        cc = shutil.which('gcc') or shutil.which('clang') or 'cc'
        subprocess.check_call([cc, '-O1', '-w', '-o', _program,
                               os.path.join(env.VERIF, 'lib', 'native', 'standin.c')])
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(d, ignore_errors=True))
    return _program


# Configurations.

IMPLS = ['python', 'java', 'cpp', 'go', 'c++', 'java-7']
OPS = ['sign', 'encrypt', 'attached', 'unversioned', 'signedSession', 'op-1']
ALGS = ['aes', 'rsa-crypt', 'rsa-sign', 'dsa', 'hmac', 'ecdsa', 'x', 'alg0', 'v1-00']
NAMES = ['class', 'pubKey', 'cryptedKeySet', 'encoding', 'signer', 'a', 'b']
VALUES = ['', 'crypter', 'encrypter', 'public', 'aes128', 'encoded', 'unencoded', 'signer',
          'verifier', '1', '2', 'x y', 'a.b/c']
MACRO = 'ALL_SIGNING_KEYS'
SIZES = [128, 192, 256, 1024, 2048, 4096, 7]


def _option_pool():
    """Sets of options, from a fixed pseudo-random choice; the simplest first."""
    import random
    rnd = random.Random(5)
    pool = [{}]
    for n in (1, 1, 1, 2, 2, 2, 3):
        for _ in range(9):
            names = rnd.sample(NAMES, n)
            pool.append({k: rnd.sample(VALUES, rnd.choice([1, 1, 2, 2, 3])) for k in names})
    return pool


POOL = _option_pool()
REAL = [  # as in the committed configuration
    {'cryptedKeySet': ['', 'aes128']},
    {'class': ['verifier', 'signer'], 'pubKey': ['']},
    {'class': ['crypter', 'encrypter'], 'pubKey': [''], 'cryptedKeySet': ['', 'aes128']},
    {'class': ['verifier'], 'pubKey': ['public']},
    {'class': ['encrypter'], 'pubKey': ['public'], 'cryptedKeySet': ['', 'aes128']},
    {'encoding': ['encoded', 'unencoded']}]
MACROS = [{'signer': MACRO}, {'signer': MACRO, 'encoding': ['encoded', 'unencoded']},
          {'a': MACRO}]
FLAGS = [[], ['--purpose=crypt'], ['--purpose=sign', '--asymmetric=rsa'], ['--x', '--x2=y']]


def half(*pools):
    o = st.sampled_from([x for p in pools for x in p])
    return st.fixed_dictionaries({'generateOptions': o, 'testOptions': o})


def some(pool, most):
    return st.one_of(st.just(['*']), st.lists(st.sampled_from(pool), min_size=1, max_size=most,
                                              unique=True))


def _too_many(cfg, calls):
    return (sum(1 for _ in itertools.islice(tests(cfg), calls + 1)) > calls or
            sum(1 for _ in itertools.islice(generated(cfg), calls + 1)) > calls)


def trim(cfg, calls):
    """Takes things away until there are not too many tests."""
    for _ in range(60):
        if not _too_many(dict(cfg, ignored=[]), calls):
            return cfg
        lists = [d[w] for d in list(cfg['options'].values()) + list(cfg['operations'].values())
                 for w in ('generateOptions', 'testOptions')]
        long = max(((len(v), i, k) for i, d in enumerate(lists) for k, v in d.items()
                    if v != MACRO), default=(0, 0, 0))
        if len(cfg['operations']) > 1:
            cfg['operations'].popitem()
        elif any(len(d['keySizes']) > 1 for d in cfg['algorithms'].values()):
            for d in cfg['algorithms'].values():
                d['keySizes'] = d['keySizes'][:max(1, len(d['keySizes']) - 1)]
        elif long[0] > 1:
            lists[long[1]][long[2]] = lists[long[1]][long[2]][:1]
        elif len(cfg['algorithms']) > 1:
            cfg['algorithms'].popitem()
        elif len(cfg['implementations']) > 1:
            cfg['implementations'].pop()
        else:
            return cfg
    return cfg


@st.composite
def configs(draw, calls=60, plain=False):
    impls = draw(st.lists(st.sampled_from(IMPLS), min_size=1, max_size=3, unique=True))
    algs, ops = {}, {}
    for a in draw(st.lists(st.sampled_from(ALGS), min_size=1, max_size=4, unique=True)):
        algs[a] = {'purpose': draw(st.sampled_from(['crypt', 'sign'])),
                   'asymmetric': draw(st.booleans()),
                   'keySizes': list(draw(st.sampled_from(
                       [[128], [1024], [128, 256], [1024, 2048, 4096], [7], [256, 128], []]))),
                   'createFlags': draw(st.sampled_from(FLAGS)),
                   'addKeyFlags': draw(st.sampled_from(FLAGS))}
    kso = {p: draw(half(POOL, REAL)) for p in PURPOSES}
    rules = []
    if not plain:
        kinds = sorted({d['purpose'] for d in algs.values()})
        for n, o in enumerate(draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=3,
                                            unique=True))):
            ops[o] = dict(draw(half(POOL, REAL, MACROS)),
                          keytype=draw(st.sampled_from(kinds if n == 0 else ['sign', 'crypt'])))
        names = [a + str(s) for a in algs for s in algs[a]['keySizes']]
        used = sorted({k for d in list(kso.values()) + list(ops.values())
                       for w in ('generateOptions', 'testOptions') for k in d[w]})
        for i in range(draw(st.integers(0, 3))):
            kind = draw(st.integers(0, 3))
            if kind <= 1 and used:
                ks = draw(st.lists(st.sampled_from(used), min_size=1, max_size=2, unique=True))
                opts = {k: draw(st.lists(st.sampled_from(VALUES), min_size=1, max_size=5,
                                         unique=True)) for k in ks}
            else:
                opts = [{'*': '*'}, {}][kind % 2]
            rules.append({
                'implementation': draw(some(impls + ['java'], 2)),
                'operation': draw(some(sorted(ops) + ['attached'], 2)),
                'algorithm': draw(some(names + ['aes128'], 3)),
                'options': opts, 'reason': 'REASON%d.' % i})
    cfg = {'implementations': impls, 'algorithms': algs, 'operations': ops, 'options': kso,
           'ignored': rules,
           'extra': draw(st.sampled_from([[], ['-ea', '-cp', 'a b'], ['']]))}
    return trim(json.loads(json.dumps(cfg)), calls)


# The reference enumeration.

def key_sets(cfg, purpose):
    """(algorithm and size, purpose of the key set) for data of this purpose."""
    for a, d in cfg['algorithms'].items():
        if d['purpose'] != purpose:
            continue
        for s in d['keySizes']:
            yield a, s, purpose
            if purpose == 'crypt' and d['asymmetric']:
                yield a, s, 'encrypt'


def signing_names(cfg):
    return [a + str(s) for a, s, _ in key_sets(cfg, 'sign')]


def choices(cfg, op, ks_purpose, which):
    merged = dict(cfg['options'][ks_purpose][which])
    merged.update(cfg['operations'][op][which])
    names = sorted(merged)
    lists = [signing_names(cfg) if merged[n] == MACRO else merged[n] for n in names]
    return [dict(zip(names, c)) for c in itertools.product(*lists)]


def rule_matches(rule, impl, op, name, opts):
    for v, k in ((impl, 'implementation'), (op, 'operation'), (name, 'algorithm')):
        if v not in rule[k] and '*' not in rule[k]:
            return False
    return all(n == '*' or (n in opts and opts[n] in vals)
               for n, vals in rule['options'].items())


def ignoring(cfg, *what):
    return [r for r in cfg['ignored'] if rule_matches(r, *what)]


def generated(cfg):
    """(implementation, operation, key set, its purpose, options)."""
    for impl in cfg['implementations']:
        for op in cfg['operations']:
            for a, s, p in key_sets(cfg, cfg['operations'][op]['keytype']):
                for o in choices(cfg, op, p, 'generateOptions'):
                    if not ignoring(cfg, impl, op, a + str(s), o):
                        yield impl, op, a, s, p, o


def tests(cfg):
    """Every test: (tested, generating, operation, key set, options of the
    generation, options of the test); with repetitions where the options do
    not tell key sets apart."""
    for gi, op, a, s, p, go in generated(cfg):
        if p == 'sign':
            tps = ['sign', 'verify'] if cfg['algorithms'][a]['asymmetric'] else ['sign']
        else:
            tps = ['crypt']
        for ti in cfg['implementations']:
            for tp in tps:
                for to in choices(cfg, op, tp, 'testOptions'):
                    both = dict(to)
                    both.update(go)
                    if not ignoring(cfg, ti, op, a + str(s), both):
                        yield ti, gi, op, a + str(s), go, to


def name_key(test):
    """A form of the name of a test that does not depend on the order of options."""
    ti, gi, op, name, go, to = test
    return canonical('test_%s_generated_by_%s_%s_%s' % (ti, gi, op, name),
                     ['%s=%s' % o for o in go.items()] + ['%s=%s' % o for o in to.items()])


def canonical(head, tokens):
    return head + ' ' + '|'.join(sorted(t for t in tokens if t))


def parse_name(text):
    m = re.match(r'(test_.*?_generated_by_[^_]*_[^_]*_[^_]*)_(.*)$', text)
    if not m:
        return text
    return canonical(m.group(1), m.group(2).split('_'))


def freeze(v):
    return json.dumps(v, sort_keys=True)


# Running the driver.

Call = collections.namedtuple('Call', 'impl extra param text looks')


class Site(object):
    """A scratch copy of an interop directory with a configuration."""

    def __init__(self, root, cfg, outputs=('{}',), fate=(0, 0, 0)):
        self.root, self.cfg = root, cfg
        self.outputs = list(outputs)
        self.fate = fate
        self.cwd = os.path.join(root, 'interop')
        self.aux = os.path.join(root, 'aux')
        os.makedirs(os.path.join(self.cwd, 'config'))
        os.mkdir(self.aux)
        self.write('implementations', {i: [program(), self.aux, i] + cfg['extra']
                                       for i in cfg['implementations']})
        self.write('interopAlgorithms', cfg['algorithms'])
        self.write('operations', cfg['operations'])
        self.write('keySetOptions', cfg['options'])
        self.write('ignoredTests', cfg['ignored'])
        with open(os.path.join(self.aux, 'fate'), 'w') as f:
            f.write('%d %d %d %d\n' % ((len(self.outputs),) + tuple(fate)))
        for i, o in enumerate(self.outputs):
            with open(os.path.join(self.aux, 'out.%d' % i), 'w') as f:
                f.write(o)

    def write(self, name, value):
        with open(os.path.join(self.cwd, 'config', name + '.json'), 'w') as f:
            json.dump(value, f)

    def run(self, argv):
        """Runs the driver; (status, stdout, stderr)."""
        out, err = (os.path.join(self.aux, n) for n in ('stdout', 'stderr'))
        sys.stdout.flush()
        load()
        pid = os.fork()
        if pid == 0:
            status = 120
            try:
                for fd, p in ((1, out), (2, err)):
                    h = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                    os.dup2(h, fd)
                    os.close(h)
                sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False),
                                              write_through=True, encoding='utf-8')
                sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False),
                                              write_through=True, encoding='utf-8')
                os.chdir(self.cwd)
                try:
                    m = load()
                    r = m.main(list(argv))
                    status = 0 if r is None else int(r) if isinstance(r, int) else 1
                except SystemExit as e:
                    status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                except BaseException:
                    traceback.print_exc()
                    status = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(status & 255)
        _, st_ = os.waitpid(pid, 0)
        return (os.waitstatus_to_exitcode(st_), open(out, encoding='utf-8').read(),
                open(err, encoding='utf-8').read())

    def calls(self):
        """The calls since the last time."""
        p = os.path.join(self.aux, 'log')
        if not os.path.exists(p):
            return []
        with open(p, 'rb') as f:
            data = f.read()
        os.remove(p)
        out = []
        for rec in data.split(b'\n\n\0')[:-1]:
            fields = rec.decode().split('\0')[:-1]
            looks = [x for x in fields[1:] if x.startswith('@')]
            rest = [x for x in fields[1:] if not x.startswith('@')]
            try:
                param = json.loads(rest[-1])
            except (ValueError, IndexError):
                raise Violation('called with %s, which is not JSON' % short(rest))
            out.append(Call(fields[0], rest[:-1], param, rest[-1], looks))
        return out

    def hash(self, call):
        h = 2166136261
        for c in (call.impl + '|' + call.text).encode():
            h = ((h ^ c) * 16777619) & 0xffffffff
        return h ^ (h >> 15)

    def fails(self, call):
        m = self.fate[{'create': 0, 'generate': 1, 'test': 2}[call.param['command']]]
        return bool(m) and self.hash(call) % m == 0

    def output(self, call):
        return self.outputs[self.hash(call) % len(self.outputs)]

    def files(self):
        """Everything below the directory, links not followed."""
        out = {}
        for d, ds, fs in os.walk(self.root):
            if d.startswith(self.aux):
                continue
            for n in ds + fs:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, self.root)
                if '__pycache__' in rel or rel == 'aux':
                    continue
                if os.path.islink(p):
                    out[rel] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    out[rel] = ('dir',)
                else:
                    with open(p, 'rb') as f:
                        out[rel] = ('file', f.read())
        return out


_module = None


def load():
    global _module
    if _module is None:
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location('interop_driver', DRIVER)
        _module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_module)
    return _module


def results(err):
    """(number of tests run, names that failed) from the report on stderr."""
    ran = re.findall(r'^Ran (\d+) tests? in', err, re.M)
    require(len(ran) == 1, 'the report says "Ran" %d times: %s', len(ran), short(err, 500))
    bad = re.findall(r'^(?:ERROR|FAIL): (test_.*?) \(', err, re.M)
    return int(ran[0]), bad


def extra_of(cfg):
    return list(cfg['extra'])
