"""C34: the interop driver creates every key set it will use."""
import collections
import os

from hypothesis import strategies as st

import interopkit as ik
from harness import Registry, Violation, require, short

R = Registry()
R.rule = ('Cases are generated configurations, prior contents of the directories, and earlier '
          'runs, with recording stand-ins as implementations. Non-trivial: a key set is created.')
ik.program()


def sets(cfg):
    """{(implementation, directory): commands}"""
    out = {}
    for i in cfg['implementations']:
        for a, d in cfg['algorithms'].items():
            for s in d['keySizes']:
                name = a + str(s)
                loc = 'keys/%s/%s' % (i, name)

                def create(loc):
                    return ['create', '--name=' + name, '--location=' + loc] + d['createFlags']

                def addkey(loc, *more):
                    return ['addkey', '--status=primary', '--size=%d' % s, '--location=' + loc] + \
                        list(more) + d['addKeyFlags']
                cmds = [create(loc), addkey(loc), addkey(loc)]
                if d['asymmetric']:
                    cmds.append(['pubkey', '--location=' + loc, '--destination=' + loc + 'public'])
                out[i, loc] = cmds
                enc = loc + ik.CRYPTER
                out[i, enc] = [create(enc), addkey(enc, '--crypter=keys/%s/%s' % (i, ik.CRYPTER))]
    return out


def norm(cmds):
    return [[c[0]] + sorted(c[1:]) for c in cmds]


def location(cmds):
    for f in cmds[0]:
        if f.startswith('--location='):
            return f[len('--location='):]
    return None


PRIOR = ['file', 'sub', 'subfile', 'link', 'dangling', 'dirlink', 'empty']


def place(site, loc, items):
    """Puts things into a directory; returns what must remain."""
    d = os.path.join(site.cwd, loc)
    os.makedirs(d, exist_ok=True)
    outside = os.path.join(site.root, 'outside')
    os.makedirs(outside, exist_ok=True)
    with open(os.path.join(outside, 'precious'), 'w') as f:
        f.write('precious')
    for n, it in enumerate(items):
        p = os.path.join(d, '%s%d' % (it, n))
        if os.path.lexists(p):
            continue
        if it == 'file':
            for q in (p, os.path.join(d, 'meta'), os.path.join(d, '.hidden')):
                with open(q, 'w') as f:
                    f.write('old')
        elif it in ('sub', 'subfile'):
            os.mkdir(p)
            if it == 'subfile':
                with open(os.path.join(p, 'inner'), 'w') as f:
                    f.write('inner')
        elif it == 'link':
            os.symlink(os.path.join(outside, 'precious'), p)
        elif it == 'dangling':
            os.symlink(os.path.join(outside, 'gone'), p)
        elif it == 'dirlink':
            os.symlink(outside, p)


@R.prop(st.tuples(ik.configs(calls=400, plain=True), st.lists(st.tuples(
    st.integers(0, 30), st.lists(st.sampled_from(PRIOR), max_size=4)), max_size=4),
    st.booleans(), st.booleans()), quick=420, thorough=14000, min_shard=50)
def created(case, ctx):
    cfg, prior, twice, verbose = case
    # only the key sets matter here
    cfg = dict(cfg, operations={})
    site = ik.Site(ctx.scratch(), cfg)
    want = sets(cfg)
    dirs = sorted({l for _, l in want} | {l + 'public' for (_, l), c in want.items()
                                          if c[-1][0] == 'pubkey'})
    for n, items in prior:
        locs = dirs + ['keys/other', 'keys/%s' % cfg['implementations'][0], 'elsewhere']
        place(site, locs[n % len(locs)], items)
    for round_ in range(2 if twice else 1):
        before = site.files()
        status, out, err = site.run(['--create=y', '--verbose=%s' % 'ny'[verbose]])
        require(status == 0, 'ends with %d: %s', status, short(err, 600))
        calls = site.calls()
        got = collections.Counter()
        seen = {}
        for k, c in enumerate(calls):
            require(c.param['command'] == 'create', 'called with %s', short(c.text))
            require(c.extra == cfg['extra'], 'called with %s', c.extra)
            cmds = c.param['keyczartCommands']
            loc = location(cmds)
            key = (c.impl, loc)
            require(key in want, 'creates %s with %s', loc, c.impl)
            got[key] += 1
            seen[key] = k
            require(norm(cmds) == norm(want[key]), '%s: %s, expected %s', loc, cmds, want[key])
            for l in c.looks:
                _, kind, n = l.rsplit(' ', 2)
                require(kind == 'dir', '%s is no directory when the set is created', l)
                require(n == '0', 'files are left in %s', l)
        for key in want:
            require(got[key] == 1, '%s was created %d times', key, got[key])
            if key[1].endswith(ik.CRYPTER) and key[1] != 'keys/%s/%s' % (key[0], ik.CRYPTER):
                c = (key[0], 'keys/%s/%s' % (key[0], ik.CRYPTER))
                if c in seen:
                    require(seen[c] < seen[key], 'the crypter is created after %s', key)
        # what changed on disk
        after = site.files()
        full = ['interop/' + d for d in dirs]
        for p in set(before) | set(after):
            if before.get(p) == after.get(p):
                continue
            if p in before and p not in after:
                ok = os.path.dirname(p) in full and (before[p][0] == 'file' or (
                    before[p][0] == 'link' and before[p][1].endswith('precious')))
                require(ok, '%s was removed', p)
            else:
                require(p not in before and after[p] == ('dir',) and any(
                    f == p or f.startswith(p + '/') for f in full), '%s appeared or changed', p)
        for f in full:
            require(after.get(f) == ('dir',), '%s is not there', f)
            left = [p for p in after if os.path.dirname(p) == f and after[p][0] == 'file']
            require(not left, 'files are left: %s', left)
        require(('CREATED' in out) == (verbose and bool(want)), 'prints the output of creation: '
                '%s, verbose %s', 'CREATED' in out, verbose)
        # the implementations now write their sets
        for key in want:
            for v in ('meta', '1', '2'):
                with open(os.path.join(site.cwd, key[1], v), 'w') as f:
                    f.write('set')
            if want[key][-1][0] == 'pubkey':
                with open(os.path.join(site.cwd, key[1] + 'public', 'meta'), 'w') as f:
                    f.write('set')
    ctx.label('twice' if twice else 'once', 'prior' if any(i for _, i in prior) else 'no prior')
    ctx.nontrivial(want)


@R.prop(st.tuples(ik.configs(calls=10), st.integers(0, 40), st.sampled_from(
    ['file', 'fails'])), quick=60, thorough=2000, min_shard=30)
def not_created(case, ctx):
    """A set that cannot be created stops the driver before any data is made."""
    cfg, n, how = case
    want = sets(cfg)
    if not want:
        return
    site = ik.Site(ctx.scratch(), cfg, fate=(1 + n % 4 if how == 'fails' else 0, 0, 0))
    if how == 'file':
        p = os.path.join(site.cwd, sorted(want)[n % len(want)][1])
        os.makedirs(os.path.dirname(p))
        with open(p, 'w') as f:
            f.write('in the way')
    before = site.files()
    status, out, err = site.run([])
    calls = site.calls()
    failed = how == 'file' or any(c.param['command'] == 'create' and site.fails(c) for c in calls)
    creates = [c for c in calls if c.param['command'] == 'create']
    if failed:
        require(status != 0, 'ends with status 0 though a set was not created')
        require(len(creates) == len(calls), 'goes on to other commands')
    else:
        require(len(creates) == len(want), 'created %d of %d', len(creates), len(want))
    if how == 'file':
        require(site.files()[os.path.relpath(p, site.root)] == ('file', b'in the way'),
                'the file in the way is gone')
    ctx.nontrivial(failed)
