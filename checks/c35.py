"""C35: an interop test passes exactly when the implementation accepts the data."""
import collections
import json

from hypothesis import strategies as st

import interopkit as ik
from harness import Registry, Violation, require, short

R = Registry()
R.rule = ('Cases are generated configurations, JSON outputs of the generating implementations, and '
          'which calls fail; the real driver calls real stand-in processes. Non-trivial: a test '
          'ran, or flags were refused.')
R.assumptions = ['Implementations print ASCII JSON without floating-point numbers.']
ik.program()

JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70),
                              st.text(max_size=12), st.sampled_from(
                                  ['a"b', "it's", '\\', '\n', '\r\n', '$HOME', '%s', '{0}', '',
                                   ' ', '\t', '\x00', '\u20ac', 'null', '*'])),
                    lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(
                        st.text(max_size=6), s, max_size=3)), max_leaves=8)


def dumped(v, style):
    text = json.dumps(v, indent=[None, 2, None, None][style % 4],
                      separators=[None, None, (',', ':'), None][style % 4])
    return ['', '\n', ' ', '\n\n'][style % 4] + text + ['\n', '', '\n', '\r\n'][style // 4 % 4]


@st.composite
def cases(draw):
    cfg = draw(ik.configs(calls=20))
    outs = draw(st.lists(st.tuples(JSON, st.integers(0, 15)), min_size=1, max_size=4))
    texts = [dumped(v, s) for v, s in outs]
    if draw(st.integers(0, 7)) == 0:
        texts.append(draw(st.sampled_from(['', 'Error', '{"output": ', '{} {}', 'None'])))
    return {'cfg': cfg, 'outputs': texts,
            'fate': [0, draw(st.sampled_from([0, 0, 0, 0, 7])),
                     draw(st.sampled_from([0, 1, 2, 3, 5, 11]))],
            'flags': draw(st.lists(st.sampled_from(['--verbose=y', '--verbose=n', '--create=n']),
                                   max_size=3)) + ['--create=n']}


def parsed(text):
    try:
        return True, json.loads(text)
    except ValueError:
        return False, None


@R.prop(cases(), quick=300, thorough=15000, min_shard=40)
def passes(case, ctx):
    cfg = case['cfg']
    site = ik.Site(ctx.scratch(), cfg, case['outputs'], case['fate'])
    status, out, err = site.run(case['flags'])
    calls = site.calls()
    gens = [c for c in calls if c.param['command'] == 'generate']
    runs = [c for c in calls if c.param['command'] == 'test']
    require(len(gens) + len(runs) == len(calls), 'other commands were called')
    made = collections.defaultdict(list)
    for c in gens:
        p = c.param
        require(set(p) == {'command', 'operation', 'keyPath', 'algorithm', 'generateOptions',
                           'testData'}, 'generate has the parameters %s', sorted(p))
        require(p['keyPath'] == 'keys/' + c.impl, 'generates with the keys in %s', p['keyPath'])
        require(isinstance(p['testData'], str) and p['testData'], 'test data')
        made[ik.freeze([c.impl, p['operation'], p['algorithm'], p['generateOptions']])].append(c)
    if any(site.fails(c) for c in gens):
        require(status != 0 and not runs, 'goes on after a failed generate call')
        ctx.label('generate fails')
        ctx.nontrivial()
        return
    require(status == 0, 'ends with %d: %s', status, short(err, 600))
    # Where options do not tell key sets apart, a test may run once or be repeated.
    often = collections.Counter(ik.freeze(t) for t in ik.tests(cfg))
    wanted = {ik.freeze(t): t for t in ik.tests(cfg)}
    fate = {k: [] for k in wanted}
    broken = set()
    for k, (ti, gi, op, alg, go, to) in wanted.items():
        g = made[ik.freeze([gi, op, alg, go])]
        require(g, 'no data was generated for %s', k)
        if not all(parsed(site.output(c))[0] for c in g):
            broken.add(k)
    for c in runs:
        p = c.param
        require(set(p) == {'command', 'operation', 'keyPath', 'algorithm', 'generateOptions',
                           'testOptions', 'output', 'testData'}, 'test has the parameters %s',
                sorted(p))
        require(p['keyPath'].startswith('keys/'), 'key path %s', p['keyPath'])
        gi = p['keyPath'][len('keys/'):]
        k = ik.freeze((c.impl, gi, p['operation'], p['algorithm'], p['generateOptions'],
                       p['testOptions']))
        require(k in fate, 'unexpected test %s', k)
        g = made[ik.freeze([gi, p['operation'], p['algorithm'], p['generateOptions']])]
        require(any(parsed(site.output(x)) == (True, p['output']) for x in g),
                '%s gets %s, but %s was generated', k, short(p['output']),
                short([site.output(x) for x in g]))
        require(all(p['testData'] == x.param['testData'] for x in g), 'other test data')
        require(len(fate[k]) < often[k], '%s ran too often', k)
        fate[k].append(site.fails(c))
    ran, failed = ik.results(err)
    require(len(wanted) <= ran <= sum(often.values()), 'reports %d tests, expected %d', ran,
            len(wanted))
    failed = collections.Counter(ik.parse_name(f) for f in failed)
    least, most = collections.Counter(), collections.Counter()
    for k, t in wanted.items():
        name = ik.name_key(t)
        if not fate[k]:
            # data that is no JSON cannot be handed on
            require(k in broken, '%s never called the implementation', k)
            least[name] += 1
            most[name] += often[k]
        elif k in broken:
            least[name] += sum(fate[k])
            most[name] += sum(fate[k]) + often[k] - len(fate[k])
        else:
            least[name] += sum(fate[k])
            most[name] += sum(fate[k])
    for name in most:
        require(least[name] <= failed[name] <= most[name],
                '%s: the implementation %s, but the test %s', name,
                'fails' if least[name] else 'accepts', 'fails' if failed[name] else 'passes')
    require(not set(failed) - set(most), 'other tests fail: %s', set(failed) - set(most))
    ctx.label('some fail' if +failed else 'all pass', 'ran' if runs else 'none')
    ctx.nontrivial(runs)


BAD = ['--create', '--verbose', '--create=', '--create=yes', '--create=Y', '--verbose=x',
       '--verbose=', '--create=y=n', '--foo=y', '--=y', '--', '-h', '-c', 'create', '--help', '--h',
       'run', '', 'y', '--create y', '--Create=y', 'displays', '--display', '--options']
GOOD = ['--create=y', '--create=n', '--verbose=y', '--verbose=n']
ONE = {'implementations': ['python', 'cpp'],
       'algorithms': {'aes': {'purpose': 'crypt', 'asymmetric': False, 'keySizes': [128],
                              'createFlags': [], 'addKeyFlags': []}},
       'operations': {'encrypt': {'keytype': 'crypt', 'generateOptions': {}, 'testOptions': {}}},
       'options': {p: {'generateOptions': {}, 'testOptions': {}} for p in ik.PURPOSES},
       'ignored': [{'implementation': ['cpp'], 'operation': ['*'], 'algorithm': ['*'],
                    'options': {'*': '*'}, 'reason': 'REASON.'}], 'extra': []}


@R.prop(st.tuples(st.lists(st.sampled_from(GOOD), max_size=3), st.one_of(
    st.none(), st.sampled_from(BAD), st.sampled_from(['display', 'options'])),
    st.lists(st.sampled_from(GOOD), max_size=2)), quick=300, thorough=6000)
def flags(case, ctx):
    before, odd, after = case
    site = ik.Site(ctx.scratch(), ONE)
    files = site.files()
    argv = before + ([] if odd is None else [odd]) + after
    if odd is not None and '=' in odd and odd.split('=')[0] in ('--create', '--verbose') and any(
            a.startswith(odd.split('=')[0]) for a in after):
        argv = before + [odd]            # a later flag would replace it
    status, out, err = site.run(argv)
    calls = site.calls()
    if odd in ('display', 'options'):
        require(status == 0 and out.strip() and not calls and site.files() == files,
                '%s does something else: %d calls', argv, len(calls))
    elif odd is not None:
        require(status != 0, '%s is accepted', argv)
        require('--create' in out + err and '--verbose' in out + err, 'no usage text for %s', argv)
        require(not calls and site.files() == files, '%s runs something', argv)
    else:
        last = {'create': 'y', 'verbose': 'n'}
        for a in argv:
            last[a[2:].split('=')[0]] = a.split('=')[1]
        kinds = collections.Counter((c.impl, c.param['command']) for c in calls)
        want = {('python', 'generate'): 1, ('python', 'test'): 1}
        if last['create'] == 'y':
            want.update({(i, 'create'): 2 for i in ('python', 'cpp')})
        require(status == 0, '%s ends with %d: %s', argv, status, short(err, 500))
        require(kinds == want, '%s: %s', argv, kinds)
        order = [c.param['command'] for c in calls]
        require(order == sorted(order, key=['create', 'generate', 'test'].index), '%s', order)
        require(('CREATED' in out) == (last['create'] == last['verbose'] == 'y'),
                '%s: prints what the implementations print on creation: %s', argv,
                'CREATED' in out)
        require('REASON' in out, 'ignored tests are not mentioned')
        ran, bad = ik.results(err)
        require(ran == 1 and not bad, 'reports %d tests', ran)
    ctx.label('bad' if odd in BAD else odd or 'good')
    ctx.nontrivial()
