"""C37: genkey rebuilds the reference key sets and touches nothing else."""
import os
import random

from hypothesis import strategies as st

import fastgen
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are the prior contents of the directories of the reference sets (stale key '
          'files, key sets, links, subdirectories), further files beside them, and missing '
          'directories. Non-trivial: genkey ran in directories that were not all empty, or '
          'had to fail.')

TEXT = b'This is some test data'
SETS = {'aes': (CRYPT, 'AES', 128), 'aes-crypted': (CRYPT, 'AES', 128),
        'hmac': (SIGN, 'HMAC_SHA1', 256), 'rsa': (CRYPT, 'RSA_PRIV', 2048),
        'rsa-sign': (SIGN, 'RSA_PRIV', 2048), 'dsa': (SIGN, 'DSA_PRIV', 1024)}
EXPORTS = {'dsa.public': 'dsa', 'rsa-sign.public': 'rsa-sign'}
NAMES = ['meta', '1', '2', '3', '7', '1.out', '2.out', '3.out', 'junk', '.hidden', 'x y', 'meta~']

STALE = st.lists(st.tuples(
    st.sampled_from(['file', 'file', 'file', 'sub', 'link', 'dirlink', 'dangling']),
    st.sampled_from(NAMES), st.sampled_from(['', '{}', 'text', '{"name": "Old"}'])).map(list),
    max_size=5, unique_by=lambda t: t[1])


@st.composite
def places(draw):
    return {'stale': {n: draw(STALE) for n in sorted(SETS) if draw(st.booleans())},
            'pub': {n: draw(st.lists(st.sampled_from(['meta', '1', '2', '5', 'junk']), max_size=3,
                                     unique=True)) for n in sorted(EXPORTS)},
            'beside': draw(st.lists(st.sampled_from(['note', 'rsa.public', 'aes.old', 'hmac2']),
                                    max_size=3, unique=True)),
            'again': draw(st.integers(0, 3)) == 0, 'rel': draw(st.booleans())}


def lay_out(root, case):
    """The location, and what must be left alone there: {path: content}."""
    loc = os.path.join(root, 'keys')
    out = os.path.join(root, 'outside')
    os.makedirs(out)
    os.mkdir(loc)
    with open(os.path.join(out, 'target'), 'w') as f:
        f.write('do not touch')
    os.mkdir(os.path.join(out, 'targetdir'))
    with open(os.path.join(out, 'targetdir', '1'), 'w') as f:
        f.write('do not touch')
    keep = set()
    for n in SETS:
        d = os.path.join(loc, n)
        os.mkdir(d)
        for what, name, text in case['stale'].get(n, []):
            p = os.path.join(d, name)
            # names that genkey must write, and may use on the way, are files before
            if name in ('meta', '1', '2', '1.out', '2.out', 'meta~') and what in ('sub', 'dirlink'):
                what = 'file'
            if what == 'file':
                with open(p, 'w') as f:
                    f.write(text)
            elif what == 'sub':
                os.mkdir(p)
                with open(os.path.join(p, '1'), 'w') as f:
                    f.write('kept ' + text)
                keep.add(os.path.join(n, name))
            elif what == 'link':
                os.symlink(os.path.join(out, 'target'), p)
            elif what == 'dirlink':
                os.symlink(os.path.join(out, 'targetdir'), p)
                keep.add(os.path.join(n, name))
            else:
                os.symlink(os.path.join(out, 'nothing'), p)
    for n, names in case['pub'].items():
        d = os.path.join(loc, n)
        os.mkdir(d)
        for name in names:
            with open(os.path.join(d, name), 'w') as f:
                f.write('old')
    for n in case['beside']:
        d = os.path.join(loc, n)
        os.mkdir(d)
        for name in ('meta', '1', '1.out'):
            with open(os.path.join(d, name), 'w') as f:
                f.write('beside')
    return loc, keep


def read(*p):
    with open(os.path.join(*p)) as f:
        return f.read()


def check_set(loc, name, keep, wrap=None):
    purpose, kind, size = SETS[name]
    d = os.path.join(loc, name)
    files = sorted(f for f in os.listdir(d) if os.path.join(name, f) not in keep)
    require(files == ['1', '1.out', '2', '2.out', 'meta'], '%s holds %s', name, files)
    try:
        meta = ref.parse_meta(read(d, 'meta'))
        require(meta[1:4] == (purpose, kind, wrap is not None), '%s: metadata %s', name, meta[:4])
        require(meta[0] == 'Test', 'the name is %r', meta[0])
        require(sorted(meta[4])[0][:2] == (1, 'ACTIVE') and sorted(meta[4])[1][:2] ==
                (2, 'PRIMARY') and len(meta[4]) == 2, '%s: versions %s', name, meta[4])
        keys = []
        for v in '12':
            text = read(d, v)
            if wrap:
                text = wrap.decrypt(ref.b64d(text)).decode('latin-1')
            keys.append(ref.parse_key(kind, text))
        for v, k in zip('12', keys):
            require(tool.bits_of(k) == size, '%s: a key of %d bits', name, tool.bits_of(k))
            blob = ref.b64d(read(d, v + '.out'))
            require(blob[:5] == k.header(), '%s: %s.out is not by key %s', name, v, v)
            if purpose == CRYPT:
                require(k.decrypt(blob) == TEXT, '%s: %s.out decrypts to another text', name, v)
            else:
                require(k.verify(TEXT + b'\0', blob[5:]), '%s: %s.out does not verify', name, v)
    except ref.RefError as e:
        raise Violation('%s: the reference refuses it: %s' % (name, e))
    require(ref.material(keys[0]) != ref.material(keys[1]), '%s: the keys are the same', name)
    return keys


def check_export(loc, name, keys, old):
    d = os.path.join(loc, name)
    require(sorted(os.listdir(d)) == sorted(set(old) | {'meta', '1', '2'}), '%s holds %s', name,
            sorted(os.listdir(d)))
    v = keyczar.Verifier.Read(d)
    for i, k in zip('12', keys):
        sig = read(loc, EXPORTS[name], i + '.out')
        require(v.Verify(S(TEXT), sig) is True, '%s does not verify %s.out', name, i)
        require(ref.parse_key(k.kind.replace('PRIV', 'PUB'), read(d, i)).hash() == k.hash(),
                '%s: the key %s', name, i)
    meta = ref.parse_meta(read(d, 'meta'))
    require(meta[:4] == ('Test', VERIFY, keys[0].kind.replace('PRIV', 'PUB'), False) and
            sorted(x[:2] for x in meta[4]) == [(1, 'ACTIVE'), (2, 'PRIMARY')],
            '%s: metadata %s', name, meta)


def others(root, keep, case):
    """What genkey must not change."""
    out = {}
    for p, c in tool.snapshot(root).items():
        parts = p.split('/')
        if parts[0] == 'keys' and len(parts) > 2 and parts[1] in SETS and \
                '/'.join(parts[1:3]) not in keep:
            continue
        if parts[0] == 'keys' and len(parts) > 2 and parts[1] in EXPORTS and \
                parts[2] in ('meta', '1', '2'):
            continue
        out[p] = c
    return out


@R.prop(places(), quick=60, thorough=1600, min_shard=15)
def rebuilt(case, ctx):
    root = ctx.scratch()
    loc, keep = lay_out(root, case)
    before = others(root, keep, case)
    seen = set()
    arg = loc
    if case['rel']:
        os.chdir(root)
        arg = 'keys'
    try:
        for _ in range(2 if case['again'] else 1):
            with fastgen.fast():
                kind, why = tool.run(['genkey', '--location=' + arg])
            require(kind == 'ok', 'genkey fails: %s', why)
            after = others(root, keep, case)
            require(after == before, 'genkey changed %s', tool.diff(before, after))
            keys = {}
            for n in ('aes', 'hmac', 'rsa', 'rsa-sign', 'dsa'):
                keys[n] = check_set(loc, n, keep)
            keys['aes-crypted'] = check_set(loc, 'aes-crypted', keep, keys['aes'][1])
            for n in EXPORTS:
                check_export(loc, n, keys[EXPORTS[n]], case['pub'][n])
            new = {ref.material(k) for n in ('aes', 'hmac', 'aes-crypted') for k in keys[n]}
            require(len(new) == 6 and not new & seen, 'the same key twice')
            seen |= new
    finally:
        os.chdir('/')
    ctx.label('again' if case['again'] else 'once')
    ctx.nontrivial(any(case['stale'].values()) or any(case['pub'].values()))


@R.enum(lambda tier: [{'missing': m} for m in sorted(SETS) + [None, 'all', 'file']])
def cannot_be_rebuilt(case, ctx):
    root = ctx.scratch()
    loc, keep = lay_out(root, {'stale': {}, 'pub': {n: [] for n in EXPORTS}, 'beside': ['note']})
    m = case['missing']
    argv = ['genkey', '--location=' + loc]
    if m is None:
        argv = ['genkey']
    elif m == 'all':
        argv[1] += '/nothing'
    elif m == 'file':
        argv[1] += '/note/meta'
    else:
        os.rmdir(os.path.join(loc, m))
    before = others(root, keep, case)
    cwd = os.getcwd()
    os.chdir(ctx.scratch())
    try:
        with fastgen.fast():
            kind, why = tool.run(argv)
        require(os.listdir('.') == [], 'files in the working directory: %s', os.listdir('.'))
    finally:
        os.chdir(cwd)
    require(kind == 'fail', 'genkey works without %s', m)
    require(others(root, keep, case) == before, 'it changed something else')
    ctx.nontrivial()
