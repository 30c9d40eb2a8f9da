"""C12: the command-line tool does to the stored key set what it says."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

import env
import fastgen
import gens
import keypool
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are histories of commands (create, addkey, promote, demote, revoke, pubkey) on up '
          'to four key set directories, with names, sizes, crypters and flag orders drawn. '
          'Non-trivial: at least three commands ran and one of them changed an existing key set.')

NAMES = st.one_of(st.none(), st.sampled_from(['', 'a name', 'x=y', '"q"', '--name=z', 'ü€', '\\',
                                               ' x ', 'x ', '\tq', ' ', 'x\n', '\udcff']),
                  st.text(st.characters(blacklist_categories=['Cs'], blacklist_characters='\0'),
                          max_size=8))
ORDER = st.lists(st.integers(0, 9), min_size=5, max_size=5)
DIRS = [['a', 'b c', 'k=1', 'ü'], ['1', 'meta', 'x.y', '--location=z']]

OP = st.one_of(
    st.tuples(st.just('create'), st.integers(0, 3), st.sampled_from(['crypt', 'crypt', 'sign']),
              st.sampled_from([None, None, None, 'rsa', 'dsa', 'RSA']), NAMES, ORDER),
    st.tuples(st.just('add'), st.integers(0, 3),
              st.sampled_from([None, 'primary', 'PRIMARY', 'Primary', 'primary', 'active',
                               'ACTIVE', 'inactive', 'INACTIVE']),
              st.one_of(st.none(), st.integers(0, 2)), st.one_of(st.none(), st.integers(0, 3)),
              ORDER),
    st.tuples(st.just('add'), st.integers(0, 3), st.sampled_from([None, 'primary']), st.none(),
              st.none(), ORDER),
    st.tuples(st.sampled_from(['promote', 'promote', 'demote', 'demote', 'revoke']),
              st.integers(0, 3), st.integers(0, 5), ORDER),
    st.tuples(st.sampled_from(['promote', 'demote', 'revoke']),
              st.integers(0, 3), st.integers(0, 5), ORDER),
    st.tuples(st.just('renumber'), st.integers(0, 3), st.sampled_from([0, -1, -1, 3, 4, 8, 9, 95, 98, 99,
                                                                       997, 65530, 2 ** 31])),
    st.tuples(st.just('pubkey'), st.integers(0, 3), ORDER)).map(list)


@st.composite
def history(draw):
    sets = draw(st.lists(st.tuples(st.sampled_from(['crypt', 'crypt', 'sign']),
                                   st.sampled_from([None, None, 'rsa', 'dsa'])).map(list),
                         min_size=1, max_size=3))
    first = []
    z = [0] * 5
    if draw(st.booleans()):      # a crypter, and a set encrypted with it
        first = [['create', 3, 'crypt', draw(st.sampled_from([None, None, 'rsa'])), None, z],
                 ['add', 3, 'primary', 0, None, z], ['add', 0, 'primary', None, 3, z]]
    for _ in range(draw(st.integers(0, 2))):
        first.append(['add', 0, draw(st.sampled_from([None, 'primary'])), None, None, z])
    return {'dirs': draw(st.integers(0, 1)), 'sets': sets,
            'ops': first + draw(st.lists(OP, min_size=3, max_size=16))}


@R.prop(history(), quick=400, thorough=7000)
def command_histories(case, ctx):
    with fastgen.fast():
        _histories(case, ctx)


def ok(argv):
    kind, r = tool.run(argv)
    require(kind == 'ok', 'the command %s failed: %s', argv, r)


def _histories(case, ctx):
    w = tool.World(ctx.scratch(), DIRS[case['dirs']])
    out = ctx.scratch()
    done = changed = 0
    ops = [['create', i, p, a, None, [0] * 5] for i, (p, a) in enumerate(case['sets'])]
    exports = 0
    for op in ops + case['ops']:
        i = op[1]
        if op[0] != 'create' and w.sets[i] is None:
            made = [j for j, x in w.sets.items() if x is not None]
            i = made[i % len(made)]
        m = w.sets[i]
        others = {j: tool.snapshot(w.path(j)) for j in w.sets if j != i}
        if op[0] == 'create':
            if m is not None:
                continue
            purpose, kind = tool.kind_for(op[2], op[3] if op[3] is None else op[3].lower())
            ok(tool.argv('create', [('location', w.path(i)), ('purpose', op[2]),
                                    ('asymmetric', op[3]), ('name', op[4])], op[5]))
            w.sets[i] = tool.SetModel('Test' if op[4] is None else op[4], purpose, kind)
            w.verify_set(i)
        elif m is None:
            continue
        elif op[0] == 'renumber':
            # as after a long history: the same set with greater version numbers
            renumber(w, i, op[2])
            continue
        elif op[0] == 'add':
            c = op[4]
            if m.encrypted and c is None:
                c = op[5][1]
            if c is not None:
                fit = [j for j in w.sets if j != i and w.crypter_state(i, j) == 'ok']
                c = fit[c % len(fit)] if fit else None
            if c == i or len(m.versions) >= 5 or w.crypter_state(i, c) != 'ok':
                continue
            sizes = tool.SIZES[m.kind]
            size = None if op[3] is None else sizes[op[3] % len(sizes)]
            if m.kind == 'RSA_PRIV' and (size is None or size > 2048 and op[5][1] > 2):
                size = [1024, None][op[5][0] % 2]
            ok(tool.argv('addkey', [('location', w.path(i)), ('status', op[2]), ('size', size),
                                    ('crypter', None if c is None else w.path(c))], op[5]))
            v = tool.add(w, i, (op[2] or 'ACTIVE').upper(), size, c)
            tool.check_added(w, i, v, size, None if c is None else w.sets[c].primary)
            ctx.label('addkey %s%s' % (m.kind, ' encrypted' if c is not None else ''))
            changed += len(m.versions) > 1
        elif op[0] == 'pubkey':
            if m.encrypted or m.kind not in tool.PUBLIC:
                continue
            exports += 1
            dest = os.path.join(out, 'dest %d' % exports)
            os.mkdir(dest)
            before = tool.snapshot(w.path(i))
            ok(tool.argv('pubkey', [('location', w.path(i)), ('destination', dest)], op[2]))
            require(tool.snapshot(w.path(i)) == before, 'pubkey changed the private set')
            check_export(m, dest)
            ctx.label('pubkey %s of %d' % (m.kind, len(m.versions)))
        else:
            if not m.versions or m.encrypted:
                continue
            cmd = op[0]
            fit = [v for v in sorted(m.versions) if tool.change(m, cmd, v) is not None]
            if not fit:
                cmd = 'demote'
                fit = [v for v in sorted(m.versions) if tool.change(m, cmd, v) is not None]
            if not fit:
                continue
            v = fit[op[2] % len(fit)]
            new = tool.change(m, cmd, v)
            ok(tool.argv(cmd, [('location', w.path(i)), ('version', v)], op[3]))
            tool.apply_change(m, new)
            w.verify_set(i)
            ctx.label(cmd)
            changed += 1
        for j, s in others.items():
            require(tool.snapshot(w.path(j)) == s, 'another key set changed')
        done += 1
    w.verify_all()
    for i, m in w.sets.items():
        if m is not None and m.primary is not None:
            check_use(w, i)
            ctx.label('used')
    ctx.nontrivial(done >= 3 and changed)


def renumber(w, i, by):
    m = w.sets[i]
    by = max(by, -min(m.versions or [0]))
    path = os.path.join(w.path(i), 'meta')
    with open(path) as f:
        meta = json.load(f)
    for v in meta['versions']:
        v['versionNumber'] += by
        v['exportable'] = bool((by + v['versionNumber']) % 3)
    m.exportable = {v['versionNumber'] for v in meta['versions'] if v['exportable']}
    with open(path, 'w') as f:
        json.dump(meta, f)
    for v in sorted(m.versions, reverse=by > 0):
        os.rename(os.path.join(w.path(i), str(v)), os.path.join(w.path(i), str(v + by)))
    m.versions = {v + by: e for v, e in m.versions.items()}
    w.verify_set(i)


def check_export(m, dest):
    require(sorted(os.listdir(dest)) == sorted(['meta'] + [str(v) for v in m.versions]),
            'the export holds %s', sorted(os.listdir(dest)))
    try:
        with open(os.path.join(dest, 'meta')) as f:
            meta = ref.parse_meta(f.read())
        require(meta[:4] == (m.name, ENCRYPT if m.purpose == CRYPT else VERIFY,
                             tool.PUBLIC[m.kind], False), 'metadata %r', meta)
        require(sorted((v, s) for v, s, _ in meta[4]) ==
                sorted((v, e[0]) for v, e in m.versions.items()), 'versions %r', meta[4])
        for v, (s, k) in m.versions.items():
            with open(os.path.join(dest, str(v))) as f:
                p = ref.parse_key(tool.PUBLIC[m.kind], f.read())
            a, b = ((k.n, k.e), (p.n, p.e)) if m.kind == 'RSA_PRIV' else (
                (k.p, k.q, k.g, k.y), (p.p, p.q, p.g, p.y))
            require(a == b, 'public key of version %d', v)
    except ref.RefError as e:
        raise Violation('the export is damaged: %r' % e)


def check_use(w, i):
    """The library opens the set and uses its primary key."""
    m = w.sets[i]
    rd = readers.CreateReader(w.path(i))
    if m.encrypted:
        c = [j for j, x in w.sets.items() if x is not None and x.purpose == CRYPT
             and m.wrapped_by in [k.header() for _, k in x.versions.values()]]
        if not c or w.sets[c[0]].encrypted:
            return
        rd = readers.EncryptedReader(rd, keyczar.Crypter.Read(w.path(c[0])))
    if m.purpose == CRYPT:
        ct = keyczar.Encrypter(rd).Encrypt('hello', None)
        require(m.primary.decrypt(B(ct)) == b'hello', 'not encrypted with the primary key')
    else:
        sig = B(keyczar.Signer(rd).Sign('hello', None))
        require(sig[:5] == m.primary.header() and m.primary.verify(b'hello\0', sig[5:]),
                'not signed with the primary key')


@R.prop(st.fixed_dictionaries({
    'name': NAMES, 'crypt': st.booleans(), 'status': st.sampled_from(['primary', 'active']),
    'v': st.integers(1, 2), 'op': st.sampled_from(['promote', 'demote'])}), quick=8, thorough=60)
def as_a_program(case, ctx):
    """The tool as a separate process, on symmetric sets."""
    w = tool.World(ctx.scratch(), ['set'])
    m = w.sets[0] = None

    def prog(args):
        e = dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'keyczar.keyczart'] + args,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=env.SRC)
        require(p.returncode == 0, '%s exits with %d: %s', args, p.returncode,
                p.stdout.decode('utf-8', 'replace')[-300:])
    loc = ('location', w.path(0))
    name = case['name']
    prog(tool.argv('create', [loc, ('purpose', 'crypt' if case['crypt'] else 'sign'),
                              ('name', name)], []))
    w.sets[0] = tool.SetModel('Test' if name is None else name,
                              *tool.kind_for('crypt' if case['crypt'] else 'sign', None))
    w.verify_set(0)
    for s in ('primary', case['status']):
        prog(tool.argv('addkey', [loc, ('status', s)], []))
        v = tool.add(w, 0, s.upper(), None, None)
        tool.check_added(w, 0, v, None, None)
    new = tool.change(w.sets[0], case['op'], case['v'])
    if new is not None:
        prog(tool.argv(case['op'], [loc, ('version', case['v'])], []))
        tool.apply_change(w.sets[0], new)
        w.verify_set(0)
    ctx.nontrivial(new is not None)


@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from([['crypt', None], ['sign', None], ['sign', 'dsa'], ['crypt', 'rsa']]),
    'modes': st.lists(st.sampled_from([0o600, 0o640, 0o660, 0o604, 0o644]), min_size=3,
                      max_size=3),
    'ops': st.lists(st.sampled_from(['promote 1', 'promote 2', 'demote 1', 'demote 2', 'addkey',
                                     'revoke 2', 'demote 2', 'revoke 1']), min_size=1,
                    max_size=5)}), quick=120, thorough=3000)
def permissions(case, ctx):
    """Files that a command writes again keep the permissions they were given."""
    with fastgen.fast():
        d = ctx.scratch()
        purpose, kind = case['kind']
        size = 1024 if kind == 'rsa' else None
        ok(tool.argv('create', [('location', d), ('purpose', purpose), ('asymmetric', kind)], []))
        for s in ('primary', 'active'):
            ok(tool.argv('addkey', [('location', d), ('status', s), ('size', size)], []))
        want = dict(zip(['meta', '1', '2'], case['modes']))
        for f, mode in want.items():
            os.chmod(os.path.join(d, f), mode)
        done = 0
        for op in case['ops']:
            before = tool.snapshot(d)
            if op == 'addkey':
                argv = tool.argv(op, [('location', d), ('size', size)], [])
            else:
                argv = tool.argv(op.split()[0], [('location', d), ('version', op.split()[1])], [])
            tool.run(argv)
            done += tool.snapshot(d) != before
            want = {f: m for f, m in want.items() if os.path.exists(os.path.join(d, f))}
            for f in os.listdir(d):
                mode = os.stat(os.path.join(d, f)).st_mode & 0o777
                require(want.setdefault(f, mode) == mode,
                        '%s changes the permissions of %s from %o to %o', op, f, want[f], mode)
        ctx.nontrivial(done)
