"""C13: a failing command changes nothing on disk."""
import os
import subprocess
import sys

from hypothesis import strategies as st

import env
import fastgen
import gens
import keypool
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are several stored key sets (any statuses and versions, plain and encrypted, empty, '
          'or with a missing key file) and a sequence of commands of which each must fail. '
          'Non-trivial: at least one command concerned a key set that holds keys.')

KINDS = {'aes': (CRYPT, gens.aes_spec()), 'rsac': (CRYPT, gens.rsa_spec((1024, 2048))),
         'hmac': (SIGN, gens.hmac_spec()), 'rsas': (SIGN, gens.rsa_spec((1024,))),
         'dsa': (SIGN, gens.dsa_spec())}
I = st.integers(0, 40)

OP = st.one_of(
    st.tuples(st.just('create existing'), I, st.sampled_from(['crypt', 'sign']),
              st.sampled_from([None, 'rsa', 'dsa'])),
    st.tuples(st.just('create bad purpose'), I,
              st.sampled_from([None, '', 'encrypt', 'verify', 'foo', 'crypt sign', 'test'])),
    st.tuples(st.just('create nowhere'), st.sampled_from(['missing', 'none', 'file', 'empty'])),
    st.tuples(st.just('add bad size'), I, I, st.sampled_from([None, 'primary'])),
    st.tuples(st.just('add bad status'), I,
              st.sampled_from(['', 'foo', 'primar', 'PRIMARY ', 'revoked', '0'])),
    st.tuples(st.just('add crypter'), I, I, st.sampled_from([None, 'primary'])),
    st.tuples(st.just('add crypter'), I, I, st.sampled_from([None, 'primary'])),
    st.tuples(st.just('add no crypter'), I, st.sampled_from([None, 'primary'])),
    st.tuples(st.just('change'), st.sampled_from(['promote', 'demote', 'revoke']), I, I),
    st.tuples(st.just('change'), st.sampled_from(['promote', 'demote', 'revoke']), I, I),
    st.tuples(st.just('change unknown'), st.sampled_from(['promote', 'demote', 'revoke']), I,
              st.sampled_from([None, '-1', '-2', '0', '61', '1000000', '', 'x', '1.0', '2 3',
                               '1e1', 'None'])),
    st.tuples(st.just('change encrypted'), st.sampled_from(['promote', 'demote', 'revoke']), I, I),
    st.tuples(st.just('pubkey none'), I, st.sampled_from(['none', 'missing', 'file'])),
    st.tuples(st.just('pubkey unsuitable'), I),
    st.tuples(st.just('nowhere'), st.sampled_from(['addkey', 'pubkey', 'promote', 'demote',
                                                   'revoke']),
              st.sampled_from(['missing', 'none', 'nometa'])),
    st.tuples(st.just('incomplete'), st.sampled_from(['addkey', 'pubkey', 'promote', 'demote',
                                                      'revoke']), I, I),
    st.tuples(st.just('malformed'), st.sampled_from(['addkey', 'pubkey', 'promote', 'demote',
                                                     'revoke', 'create']), I, I,
              st.sampled_from(['--version', '--', '--size', '--foo=1', '--Status=primary',
                               '--size=big', '--size=', '--version=two', '--locationX=/nowhere',
                               '---size=1', '--=1', '--status', '--purpose'])),
    st.tuples(st.just('command'), st.sampled_from(['', 'delete', 'CREATE', 'Promote', 'add', 'key',
                                                   '--location=x', 'addkey ', 'usekey']),
              I, I)).map(list)


@st.composite
def cases(draw):
    sets = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(sorted(KINDS)))
        enc = draw(st.sampled_from([False, False, True]))
        sets.append([k, enc, draw(st.one_of(gens.entries(KINDS[k][1], primary=None, max_size=3),
                                            st.just([]) if not enc else st.nothing()))])
    wrap = draw(gens.entries(gens.aes_spec(), max_size=2, primary=None))
    return {'sets': sets, 'wrap': wrap, 'ops': draw(st.lists(OP, min_size=1, max_size=8))}


def build(case, root):
    """World with the sets, the crypter set (last), and places that hold no set."""
    n = len(case['sets'])
    w = tool.World(root, ['s%d' % i for i in range(n)] + ['crypter', 'nometa'])
    with open(os.path.join(root, 'file'), 'w') as f:
        f.write('a file')
    os.mkdir(os.path.join(root, 'dest'))
    os.mkdir(os.path.join(root, 'bare'))
    with open(os.path.join(root, 'dest', 'meta'), 'w') as f:
        f.write('older export')
    sets = case['sets'] + [['aes', False, case['wrap']]]
    wraps = KeySet.from_case(CRYPT, case['wrap'])
    for i, (k, enc, entries) in enumerate(sets):
        purpose = KINDS[k][0]
        kind = {'aes': 'AES', 'rsac': 'RSA_PRIV', 'rsas': 'RSA_PRIV', 'hmac': 'HMAC_SHA1',
                'dsa': 'DSA_PRIV'}[k]
        m = tool.SetModel('test', purpose, kind)
        m.versions = {v: [s, keypool.make(sp)] for v, s, sp in entries}
        m.encrypted = enc
        w.sets[i] = m
        with open(os.path.join(w.path(i), 'meta'), 'w') as f:
            f.write(ref.metadata('test', purpose, kind, [(v, s) for v, s, _ in entries], enc))
        by = wraps.primary or wraps.entries[0][2]
        for v, (s, key) in m.versions.items():
            text = key.json()
            if enc:
                m.wrapped_by = by.header()
                text = ref.b64e(by.encrypt(text.encode(), bytes((v + i) % 256 for i in range(16))))
            with open(os.path.join(w.path(i), str(v)), 'w') as f:
                f.write(text)
    return w


@R.prop(cases(), quick=1400, thorough=30000)
def failing_commands(case, ctx):
    with fastgen.fast():
        _failing(case, ctx)


def _failing(case, ctx):
    root = ctx.scratch()
    w = build(case, root)
    sets = [i for i, m in w.sets.items() if m is not None]
    before = w.snapshot()
    places = {'missing': os.path.join(root, 'not there'), 'none': None,
              'file': os.path.join(root, 'file'), 'empty': '',
              'nometa': os.path.join(root, 'nometa')}
    dest = os.path.join(root, 'dest')
    nontrivial = False

    def pick(n, pred):
        fit = [i for i in sets if pred(w.sets[i])]
        return fit[n % len(fit)] if fit else None

    for op in case['ops']:
        name = op[0]
        i = None
        a = None
        if name == 'create existing':
            i = pick(op[1], lambda m: True)
            a = tool.argv('create', [('location', w.path(i)), ('purpose', op[2]),
                                     ('asymmetric', op[3])], [])
        elif name == 'create bad purpose':
            loc = places['nometa'] if op[1] % 2 else w.path(op[1] % len(sets))
            a = tool.argv('create', [('location', loc), ('purpose', op[2])], [])
        elif name == 'create nowhere':
            a = tool.argv('create', [('location', places[op[1]]), ('purpose', 'crypt')], [])
        elif name == 'add bad size':
            i = pick(op[1], lambda m: True)
            bad = tool.BAD_SIZES[w.sets[i].kind]
            crypter = w.path(len(case['sets'])) if w.sets[i].encrypted else None
            a = tool.argv('addkey', [('location', w.path(i)), ('size', bad[op[2] % len(bad)]),
                                     ('status', op[3]), ('crypter', crypter)], [])
        elif name == 'add bad status':
            i = pick(op[1], lambda m: True)
            a = tool.argv('addkey', [('location', w.path(i)), ('status', op[2])], [])
        elif name == 'add crypter':
            pairs = [(t, c) for t in sets for c in sets + ['nometa', 'missing', 'empty']
                     if (isinstance(c, str) or c != t and w.crypter_state(t, c) == 'fail')
                     and not (w.sets[t].kind == 'RSA_PRIV' and not w.sets[t].versions)]
            if not pairs:
                continue
            i, c = pairs[op[1] * 41 + op[2] if op[1] * 41 + op[2] < len(pairs) else
                         (op[1] * 41 + op[2]) % len(pairs)]
            a = tool.argv('addkey', [('location', w.path(i)), ('status', op[3]),
                                     ('crypter', places[c] if isinstance(c, str) else w.path(c))],
                          [])
        elif name == 'add no crypter':
            i = pick(op[1], lambda m: m.encrypted)
            if i is None:
                continue
            a = tool.argv('addkey', [('location', w.path(i)), ('status', op[2])], [])
        elif name == 'change':
            fit = [(t, v) for t in sets for v in w.sets[t].versions
                   if tool.change(w.sets[t], op[1], v) is None]
            if not fit:
                continue
            i, v = fit[(op[2] + op[3]) % len(fit)]
            a = tool.argv(op[1], [('location', w.path(i)), ('version', v)], [])
        elif name == 'change unknown':
            i = pick(op[2], lambda m: not m.encrypted)
            a = tool.argv(op[1], [('location', w.path(i)), ('version', op[3])], [])
        elif name == 'change encrypted':
            i = pick(op[2], lambda m: m.encrypted)
            if i is None:
                continue
            vs = sorted(w.sets[i].versions)
            a = tool.argv(op[1], [('location', w.path(i)), ('version', vs[op[3] % len(vs)])], [])
        elif name == 'pubkey none':
            i = pick(op[1], lambda m: m.kind in tool.PUBLIC)
            if i is None:
                continue
            a = tool.argv('pubkey', [('location', w.path(i)), ('destination', places[op[2]])], [])
        elif name == 'pubkey unsuitable':
            i = pick(op[1], lambda m: m.kind not in tool.PUBLIC or m.encrypted)
            if i is None:
                continue
            to = os.path.join(root, 'bare') if op[1] % 3 == 0 else dest
            a = tool.argv('pubkey', [('location', w.path(i)), ('destination', to)], [])
        elif name == 'nowhere':
            a = tool.argv(op[1], [('location', places[op[2]]), ('version', 1),
                                  ('destination', dest)], [])
        elif name == 'incomplete':
            i = pick(op[2], lambda m: m.versions and not m.encrypted)
            if i is None:
                continue
            m = w.sets[i]
            v = sorted(m.versions)[op[3] % len(m.versions)]
            fit = [x for x in sorted(m.versions) if tool.change(m, op[1], x) is not None]
            path = os.path.join(w.path(i), str(v))
            os.rename(path, os.path.join(root, 'moved'))
            try:
                bef = w.snapshot()
                a = tool.argv(op[1], [('location', w.path(i)), ('destination', dest),
                                      ('version', fit[0] if fit else 1)], [])
                kind, r = tool.run(a)
                require(kind == 'fail', '%s succeeded although version %d has no key file', a, v)
                d = tool.diff(bef, w.snapshot())
                require(not d, '%s failed (%s) but changed %s', a, r, d)
            finally:
                os.rename(os.path.join(root, 'moved'), path)
            ctx.label(name)
            nontrivial = True
            continue
        elif name == 'malformed':
            i = pick(op[2], lambda m: not m.encrypted)
            if op[1] == 'create':
                a = tool.argv('create', [('location', places['nometa']), ('purpose', 'crypt')], [])
            else:
                m = w.sets[i]
                fit = [x for x in sorted(m.versions) if tool.change(m, op[1], x) is not None]
                a = tool.argv(op[1], [('location', w.path(i)), ('destination', dest),
                                      ('version', (fit or [1])[0])], [])
            if op[3] % 2 and op[4] not in ('--version=two',):
                a.insert(1, op[4])
            else:
                a.append(op[4])
        elif name == 'command':
            i = pick(op[2], lambda m: not m.encrypted)
            a = tool.argv(op[1], [('location', w.path(i)), ('version', 1), ('purpose', 'crypt'),
                                  ('destination', dest)], [])
        kind, r = tool.run(a)
        require(kind == 'fail', 'the command %s (%s) succeeded: %s', a, name, short(r))
        d = tool.diff(before, w.snapshot())
        require(not d, 'the command %s (%s) failed (%s) but changed %s', a, name, r, d)
        ctx.label(name)
        if i is not None and w.sets[i].versions:
            nontrivial = True
    # the sets still work as before
    for i in sets:
        m = w.sets[i]
        if not m.encrypted:
            keyczar.GenericKeyczar.Read(w.path(i))
    ctx.nontrivial(nontrivial)


@R.prop(st.fixed_dictionaries({
    'entries': gens.entries(gens.hmac_spec(), primary=None, max_size=3),
    'args': st.sampled_from([['promote', '--version=99'], ['revoke', '--version=99'], ['promote'],
                             ['addkey', '--size=1'], ['addkey', '--status=x'],
                             ['create', '--purpose=sign'], ['pubkey', '--destination=.'],
                             ['nonsense'], ['addkey', '--crypter=/nonexistent'],
                             ['promote', '--version'], ['demote', '--version=x']])}),
    quick=10, thorough=60)
def as_a_program(case, ctx):
    """The exit status of the tool as a separate process."""
    d = ctx.scratch()
    ks = KeySet.from_case(SIGN, case['entries'])
    ks.to_dir(d)
    before = tool.snapshot(d)
    e = dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'keyczar.keyczart'] + case['args'] +
                       ['--location=' + d], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=d)
    require(p.returncode != 0, '%s exits with 0', case['args'])
    require(tool.snapshot(d) == before, '%s changed the key set', case['args'])
    ctx.nontrivial()
