"""C11: key status changes follow the life-cycle rules."""
import json

from hypothesis import strategies as st

import fastgen
import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are an initial key set (any statuses, versions with gaps, or empty) and a sequence '
          'of add, promote, demote, revoke requests with valid and invalid arguments, with reloads. '
          'Non-trivial: at least one request changed the set and at least two requests were made.')

KIND = {'AES': (CRYPT, [128, 192, 256]), 'HMAC_SHA1': (SIGN, [256]),
        'RSA_PRIV': (CRYPT, [1024, 2048]), 'DSA_PRIV': (SIGN, [1024])}
BAD_SIZES = {'AES': [0, 1, 8, 64, 127, 129, 512, 1024, -1, 1 << 40],
             'HMAC_SHA1': [0, 1, 128, 255, 512, -256],
             'RSA_PRIV': [0, 256, 1023, 1025, 1536, 3072, 8192, -1024],
             'DSA_PRIV': [0, 512, 768, 1025, 2048, 3072]}

OP = st.one_of(
    st.tuples(st.just('add'), st.sampled_from(['PRIMARY', 'ACTIVE', 'INACTIVE']),
              st.one_of(st.none(), st.integers(0, 2))),
    st.tuples(st.just('badadd'), st.sampled_from(['PRIMARY', 'ACTIVE', 'INACTIVE']),
              st.integers(0, 9)),
    st.tuples(st.sampled_from(['promote', 'promote', 'demote', 'demote', 'revoke']),
              st.integers(0, 7)),
    st.tuples(st.sampled_from(['promote', 'demote', 'revoke']), st.integers(0, 7)),
    st.tuples(st.sampled_from(['promote', 'demote', 'revoke']),
              st.sampled_from([-1, -5, 1000, 61, 2 ** 40])),
    st.tuples(st.just('reload'))).map(list)


@st.composite
def history(draw):
    kind = draw(st.sampled_from(['AES', 'AES', 'HMAC_SHA1', 'HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV']))
    spec = {'AES': gens.aes_spec(), 'HMAC_SHA1': gens.hmac_spec(),
            'RSA_PRIV': gens.rsa_spec((1024,)), 'DSA_PRIV': gens.dsa_spec()}[kind]
    entries = draw(st.one_of(st.just([]), gens.entries(spec, primary=None)))
    return {'kind': kind, 'entries': entries,
            'exportable': draw(st.lists(st.integers(0, 3), max_size=3, unique=True)),
            'ops': draw(st.lists(OP, min_size=1, max_size=16))}


def observe(gk):
    """(metadata, {version: key JSON}, version numbers, primary key JSON)"""
    w = DictWriter()
    gk.Write(w)
    meta = ref.parse_meta(str(gk.metadata))
    require(ref.parse_meta(w.meta)[:4] == meta[:4], 'written metadata differs')
    vs = sorted(v.version_number for v in gk.versions)
    kind, p = outcome(lambda: str(gk.primary_key), errors.NoPrimaryKeyError)
    return {'meta': meta[:4], 'versions': sorted(meta[4]),
            'keys': {v: json.loads(j) for v, j in w.key_jsons.items()},
            'numbers': vs, 'primary': json.loads(p) if kind == 'ok' else None}


@R.prop(history(), quick=500, thorough=12000)
def life_cycle(case, ctx):
    with fastgen.fast():
        _life_cycle(case, ctx)


def _life_cycle(case, ctx):
    kind = case['kind']
    purpose, sizes = KIND[kind]
    if case['entries']:
        ks = KeySet.from_case(purpose, case['entries'])
        rd = ks.reader()
    else:
        rd = DictReader(ref.metadata('test', purpose, kind, []), {})
    model = {v: s for v, s, _ in case['entries']}
    flags = {case['entries'][i][0] for i in case['exportable'] if i < len(case['entries'])}
    meta = json.loads(rd.meta)
    for x in meta['versions']:
        x['exportable'] = x['versionNumber'] in flags
    rd.meta = json.dumps(meta)
    gk = keyczar.GenericKeyczar(rd)
    before = observe(gk)
    check(before, model, {}, flags)
    changes = 0
    for op in case['ops']:
        if op[0] == 'reload':
            w = DictWriter()
            gk.Write(w)
            gk = keyczar.GenericKeyczar(w.reader())
            require(observe(gk) == before, 'reloading changed the set')
            continue
        want = dict(model)
        size = None
        if op[0] == 'add':
            if len(model) >= 8:
                continue
            size = None if op[2] is None else sizes[op[2] % len(sizes)]
            v = max(model or [0]) + 1
            if op[1] == 'PRIMARY':
                want = {k: 'ACTIVE' if s == 'PRIMARY' else s for k, s in want.items()}
            want[v] = op[1]
            call = lambda: gk.AddVersion(keyinfo.GetStatus(op[1]), size)
        elif op[0] == 'badadd':
            bad = BAD_SIZES[kind]
            call = lambda: gk.AddVersion(keyinfo.GetStatus(op[1]), bad[op[2] % len(bad)])
        else:
            v = op[1]
            if 0 <= v < 8 and model and v < 6:
                v = sorted(model)[v % len(model)]
            s = model.get(v)
            if op[0] == 'promote':
                call = lambda: gk.Promote(v)
                if s == 'INACTIVE':
                    want[v] = 'ACTIVE'
                elif s == 'ACTIVE':
                    want = {k: 'ACTIVE' if x == 'PRIMARY' else x for k, x in want.items()}
                    want[v] = 'PRIMARY'
            elif op[0] == 'demote':
                call = lambda: gk.Demote(v)
                if s == 'PRIMARY':
                    want[v] = 'ACTIVE'
                elif s == 'ACTIVE':
                    want[v] = 'INACTIVE'
            else:
                call = lambda: gk.Revoke(v)
                if s == 'INACTIVE':
                    del want[v]
            ctx.label('%s %s' % (op[0], s or 'unknown'))
        if want == model:
            raises(call)
            require(observe(gk) == before, 'a refused request changed the set: %s', op)
            ctx.label('refused')
            continue
        call()
        after = observe(gk)
        flags &= set(want)
        check(after, want, before['keys'], flags)
        if op[0] == 'add':
            new = ref.parse_key(kind, json.dumps(after['keys'][max(want)]))
            bits = getattr(new, 'bits', None) or 8 * len(getattr(new, 'key', new.__dict__.get('mac')))
            want_bits = size or {'AES': 128, 'HMAC_SHA1': 256, 'RSA_PRIV': 2048,
                                 'DSA_PRIV': 1024}[kind]
            require(bits == want_bits, 'size %d instead of %d', bits, want_bits)
        require(after['meta'] == before['meta'], 'name, purpose or type changed')
        model, before = want, after
        changes += 1
    ctx.label(kind)
    ctx.nontrivial(changes and len(case['ops']) > 1)


def check(seen, model, old_keys, exportable=()):
    require({v for v, _, x in seen['versions'] if x} == set(exportable),
            'exportable versions: %s, expected %s', seen['versions'], sorted(exportable))
    require([(v, s) for v, s, _ in seen['versions']] == sorted(model.items()),
            'versions %s, expected %s', seen['versions'], sorted(model.items()))
    require(seen['numbers'] == sorted(model), 'versions() gives %s', seen['numbers'])
    require(sorted(seen['keys']) == sorted(model), 'keys of versions %s', sorted(seen['keys']))
    for v, k in seen['keys'].items():
        if v in old_keys:
            require(old_keys[v] == k, 'the key of version %d changed', v)
    prim = [v for v, s in model.items() if s == 'PRIMARY']
    want = seen['keys'][prim[0]] if prim else None
    require(seen['primary'] == want, 'wrong primary key')


@R.enum(lambda tier: [{'kind': k, 'status': s} for k in ('RSA', 'DSA')
                      for s in ('PRIMARY', 'ACTIVE', 'INACTIVE')])
def public_sets_do_not_grow(case, ctx):
    k = keypool.make([case['kind'], 0, 'signed'])
    gk = keyczar.GenericKeyczar(single(k, SIGN).public_set().reader())
    before = observe(gk)
    raises(lambda: gk.AddVersion(keyinfo.GetStatus(case['status']), 1024))
    require(observe(gk) == before, 'the set changed')
    ctx.nontrivial()


@R.enum(lambda tier: [{'s': list(s), 'op': op, 'v': v}
                      for s in _status_sets() for op in ('promote', 'demote', 'revoke')
                      for v in range(0, len(s) + 2)])
def every_small_set(case, ctx):
    """Every combination of up to three statuses and every request."""
    specs = [['HMAC', '%02x' % (i + 1) * 32] for i in range(len(case['s']))]
    entries = [[i + 1, s, sp] for i, (s, sp) in enumerate(zip(case['s'], specs))]
    n = case['v']
    _life_cycle_raw(entries, case['op'], n)
    ctx.nontrivial()


def _status_sets():
    import itertools
    for n in (1, 2, 3):
        for s in itertools.product(['PRIMARY', 'ACTIVE', 'INACTIVE'], repeat=n):
            if s.count('PRIMARY') <= 1:
                yield s


def _life_cycle_raw(entries, op, v):
    gk = keyczar.GenericKeyczar(KeySet.from_case(SIGN, entries).reader())
    model = {e[0]: e[1] for e in entries}
    before = observe(gk)
    s = model.get(v)
    want = dict(model)
    if (op, s) == ('promote', 'INACTIVE') or (op, s) == ('demote', 'PRIMARY'):
        want[v] = 'ACTIVE'
    elif (op, s) == ('promote', 'ACTIVE'):
        want = {k: 'ACTIVE' if x == 'PRIMARY' else x for k, x in want.items()}
        want[v] = 'PRIMARY'
    elif (op, s) == ('demote', 'ACTIVE'):
        want[v] = 'INACTIVE'
    elif (op, s) == ('revoke', 'INACTIVE'):
        del want[v]
    call = {'promote': gk.Promote, 'demote': gk.Demote, 'revoke': gk.Revoke}[op]
    if want == model:
        raises(lambda: call(v))
        require(observe(gk) == before, 'a refused request changed the set')
    else:
        call(v)
        check(observe(gk), want, before['keys'])
