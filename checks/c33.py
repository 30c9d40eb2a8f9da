"""C33: the interop driver runs every configured combination exactly once."""
import ast
import collections

from hypothesis import strategies as st

import interopkit as ik
from harness import Registry, Violation, require, short

R = Registry()
R.rule = ('Cases are generated configurations (implementations, algorithms, sizes, operations, '
          'options, macros and ignore rules). Non-trivial: the reference enumeration has a test, '
          'or an ignore rule removes one.')
R.assumptions = ['Option names and values have no underscore or equals sign, which names of tests '
                 'use as separators.']
ik.program()


def count(items):
    return collections.Counter(items)


def compare(got, want, what, least=None):
    """As multisets; between least and want, where the options do not tell two
    key sets apart and so want has repetitions."""
    least = want if least is None else least
    g, w = count(got), count(want)
    for x in (count(least) - g):
        raise Violation('%s: missing %s (has %d, expected %d)' % (
            what, short(x, 300), sum(g.values()), len(least)))
    for x in (g - w):
        raise Violation('%s: unexpected %s (has %d, expected %d)' % (
            what, short(x, 300), sum(g.values()), len(want)))


def note(cfg, ctx):
    tests = list(ik.tests(cfg))
    bare = dict(cfg, ignored=[])
    all_tests = sum(1 for _ in ik.tests(bare)) if cfg['ignored'] else len(tests)
    ctx.label('tests' if tests else 'no tests', 'ignored' if all_tests > len(tests) else
              'none ignored')
    ctx.nontrivial(all_tests)
    return tests


@R.prop(ik.configs(calls=200), quick=900, thorough=40000, min_shard=150)
def listed(cfg, ctx):
    want = note(cfg, ctx)
    site = ik.Site(ctx.scratch(), cfg)
    before = site.files()
    status, out, err = site.run(['display'])
    require(status == 0, 'display ends with %d: %s', status, short(err, 600))
    lines = [l for l in out.splitlines() if l.strip()]
    got = [ik.parse_name(l) for l in lines]
    distinct = {ik.freeze(t): t for t in want}
    compare(got, [ik.name_key(t) for t in want], 'display',
            [ik.name_key(t) for t in distinct.values()])
    require(not site.calls(), 'display calls an implementation')
    require(site.files() == before, 'display changes files')


@R.prop(ik.configs(calls=200), quick=250, thorough=10000)
def options_shown(cfg, ctx):
    site = ik.Site(ctx.scratch(), cfg)
    before = site.files()
    status, out, err = site.run(['options'])
    require(status == 0, 'options ends with %d: %s', status, short(err, 600))
    got, section, op = {'g': {}, 't': {}}, None, None
    for l in out.splitlines():
        if not l.strip():
            continue
        if not l.startswith(' '):
            section = 'g' if l.lower().startswith('gen') else 't'
        elif not l.startswith('    '):
            op = l.strip().rstrip(':')
            got[section][op] = {}
        else:
            name, vals = l.strip().split(':', 1)
            got[section][op][name] = sorted(ast.literal_eval(vals.strip()))
    want = {'g': {}, 't': {}}
    for o in cfg['operations']:
        for a, s, p in ik.key_sets(cfg, cfg['operations'][o]['keytype']):
            tps = {'encrypt': ['crypt'], 'crypt': ['crypt'], 'sign': ['sign']}[p]
            if p == 'sign' and cfg['algorithms'][a]['asymmetric']:
                tps = ['sign', 'verify']
            for sec, ps, which in (('g', [p], 'generateOptions'), ('t', tps, 'testOptions')):
                d = want[sec].setdefault(o, {})
                for q in ps:
                    for c in ik.choices(cfg, o, q, which):
                        for n, v in c.items():
                            d.setdefault(n, set()).add(v)
    for sec in want:
        for o in want[sec]:
            w = {n: sorted(v) for n, v in want[sec][o].items()}
            require(got[sec].get(o, {}) == w, 'options of %s: %s, expected %s', o,
                    got[sec].get(o), w)
        for o in got[sec]:
            require(not got[sec][o] or o in want[sec], 'options of %s', o)
    require(not site.calls() and site.files() == before, 'options does something')
    ctx.nontrivial(any(want['g'].values()) or any(want['t'].values()))


@R.prop(ik.configs(calls=25), quick=280, thorough=12000, min_shard=40)
def run(cfg, ctx):
    want = note(cfg, ctx)
    site = ik.Site(ctx.scratch(), cfg)
    status, out, err = site.run(['--create=n'])
    require(status == 0, 'ends with %d: %s', status, short(err, 600))
    calls = site.calls()
    for c in calls:
        require(c.extra == cfg['extra'], 'called with %s, configured %s', c.extra, cfg['extra'])
    gens = [c for c in calls if c.param['command'] == 'generate']
    runs = [c for c in calls if c.param['command'] == 'test']
    require(len(gens) + len(runs) == len(calls), 'other commands were called')
    all_gens = [ik.freeze([i, op, a + str(s), o]) for i, op, a, s, p, o in ik.generated(cfg)]
    compare([ik.freeze([c.impl, c.param['operation'], c.param['algorithm'],
                        c.param['generateOptions']]) for c in gens], all_gens, 'generate',
            sorted(set(all_gens)))
    distinct = {ik.freeze(t): t for t in want}
    got = []
    for c in runs:
        # the key path names the generating implementation
        gi = c.param['keyPath'].rsplit('/', 1)[-1]
        got.append(ik.freeze([c.impl, gi, c.param['operation'], c.param['algorithm'],
                              c.param['generateOptions'], c.param['testOptions']]))
    compare(got, [ik.freeze(t) for t in want], 'run', list(distinct))
    ran, bad = ik.results(err)
    require(ran == len(got) and not bad, 'reports %d tests, %d failed', ran, len(bad))
    # rules that remove something are named
    reasons = set()
    bare = dict(cfg, ignored=[])
    for gi, op, a, s, p, go in ik.generated(bare):
        reasons.update(r['reason'] for r in ik.ignoring(cfg, gi, op, a + str(s), go))
    kept = {ik.freeze(t) for t in want}
    for t in ik.tests(bare):
        both = dict(t[5])
        both.update(t[4])
        reasons.update(r['reason'] for r in ik.ignoring(cfg, t[0], t[2], t[3], both))
    shown = {r['reason'] for r in cfg['ignored'] if r['reason'] in out}
    require(shown <= reasons, 'says it ignored tests because %s', shown)
    require(bool(shown) == bool(reasons), 'does not say why it ignored tests')
