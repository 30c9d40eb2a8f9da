"""C15: a stored key set reads back unchanged."""
import json
import os

from hypothesis import strategies as st

import env
import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets of every type with drawn names, versions, statuses, flags, numbers and '
          'number encodings, written by the reference, read and written by Keyczar and read by the '
          'reference again. Non-trivial: the set holds at least one key.')

NAMES = st.one_of(st.sampled_from(['', 'Test', '"', '\\', '\n', 'ü', '\u20ac', '\U0001f511', '\0',
                                   "it's", '</a>', '{"name": 1}', ' ', ' x ',
                                   'x\n', '\ud800', '\udcffx', '\x7f', '\x85', '\u2028']), st.text(max_size=20))
TYPES = {'AES': [CRYPT], 'HMAC_SHA1': [SIGN], 'DSA_PRIV': [SIGN], 'RSA_PRIV': [CRYPT, SIGN],
         'DSA_PUB': [VERIFY], 'RSA_PUB': [ENCRYPT, VERIFY]}


def spec_for(kind):
    if kind == 'AES':
        return gens.aes_spec()
    if kind == 'HMAC_SHA1':
        return gens.hmac_spec()
    if kind.startswith('RSA'):
        return gens.varied_rsa()
    return gens.varied_dsa()


make = keypool.make_varied


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['AES', 'HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV', 'RSA_PRIV', 'DSA_PUB',
                                 'RSA_PUB']))
    return {'kind': kind, 'purpose': draw(st.sampled_from(TYPES[kind])), 'name': draw(NAMES),
            'entries': draw(st.one_of(gens.entries(spec_for(kind), primary=None, max_size=4, many=True),
                                      gens.entries(spec_for(kind), primary=None, min_size=0))),
            'exp': draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            'layout': draw(st.integers(0, 3)), 'disk': draw(st.sampled_from([0, 0, 1, 2]))}


def reformat(text, layout):
    """The same JSON as other writers lay it out."""
    d = json.loads(text)
    if layout == 1:
        return json.dumps(d, indent=2, sort_keys=True)
    if layout == 2:
        return json.dumps(d, separators=(',', ':'))
    if layout == 3:
        return json.dumps(dict(reversed(list(d.items()))), ensure_ascii=True) + '\n'
    return text


def contents(meta, keys, kind):
    try:
        m = ref.parse_meta(meta)
        return (m[:4], sorted(m[4])), {v: ref.material(ref.parse_key(kind, t))
                                       for v, t in keys.items()}
    except ref.RefError as e:
        raise Violation('not the published format: %s' % e)


@R.prop(cases(), quick=1200, thorough=30000)
def round_trip(case, ctx):
    kind = case['kind']
    pub = kind.endswith('_PUB')
    entries = [(v, s, make(sp)) for v, s, sp in case['entries']]
    meta = json.loads(ref.metadata(case['name'], case['purpose'], kind,
                                   [(v, s) for v, s, _ in entries]))
    for v, e in zip(meta['versions'], case['exp']):
        v['exportable'] = e
    meta = reformat(json.dumps(meta), case['layout'])
    keys = {v: reformat(k.public_json() if pub else k.json(), case['layout'])
            for v, s, k in entries}
    want = contents(meta, keys, kind)
    gk = keyczar.GenericKeyczar(DictReader(meta, keys))
    check_object(gk, want, entries)
    if case['disk']:
        path = ctx.scratch()
        if case['disk'] == 1:
            gk.Write(writers.FileWriter(path))
        else:
            gk.Write(path)
        ctx.label('disk')
        require(sorted(os.listdir(path)) == sorted(['meta'] + [str(v) for v in keys]),
                'files %s', os.listdir(path))
        meta2 = open(os.path.join(path, 'meta')).read()
        keys2 = {v: open(os.path.join(path, str(v))).read() for v in keys}
        rd = readers.FileReader(path)
    else:
        w = DictWriter()
        gk.Write(w)
        meta2, keys2, rd = w.meta, w.key_jsons, w.reader()
    got = contents(meta2, keys2, kind)
    require(got == want, 'written %s, expected %s', short(got, 900), short(want, 900))
    gk2 = keyczar.GenericKeyczar(rd)
    check_object(gk2, want, entries)
    w2 = DictWriter()
    gk2.Write(w2)
    require(json.loads(w2.meta) == json.loads(meta2), 'metadata changes when written again')
    require({v: json.loads(t) for v, t in w2.key_jsons.items()} ==
            {v: json.loads(t) for v, t in keys2.items()}, 'keys change when written again')
    # the fields of the published format, and only strings, numbers and objects
    for v, t in keys2.items():
        fields(kind, json.loads(t))
    ctx.label(kind)
    ctx.nontrivial(bool(entries))


FIELDS = {'AES': {'mode', 'size', 'aesKeyString', 'hmacKey'},
          'HMAC_SHA1': {'size', 'hmacKeyString'},
          'RSA_PUB': {'modulus', 'publicExponent', 'size'},
          'RSA_PRIV': {'publicKey', 'privateExponent', 'primeP', 'primeQ', 'primeExponentP',
                       'primeExponentQ', 'crtCoefficient', 'size'},
          'DSA_PUB': {'p', 'q', 'g', 'y', 'size'}, 'DSA_PRIV': {'publicKey', 'x', 'size'}}


def fields(kind, d):
    require(FIELDS[kind] <= set(d), 'fields %s', sorted(d))
    for sub, k in (('publicKey', kind.replace('PRIV', 'PUB')), ('hmacKey', 'HMAC_SHA1')):
        if sub in FIELDS[kind]:
            fields(k, d[sub])


def check_object(gk, want, entries):
    (name, purpose, kind, enc), versions = want[0]
    m = gk.metadata
    require((m.name, str(m.purpose), str(m.type), m.encrypted) == (name, purpose, kind, enc),
            'read as %r', (m.name, str(m.purpose), str(m.type), m.encrypted))
    require(sorted((v.version_number, str(v.status), v.exportable) for v in m.versions) == versions,
            'versions read differ')
    require(json.loads(str(gk)) == json.loads(str(m)), 'str() of the set is not its metadata')
    for v in gk.versions:
        k = [x for n, _, x in entries if n == v.version_number][0]
        key = gk.GetKey(v)
        bits = getattr(k, 'bits', None)
        if bits is None:
            bits = 8 * len(k.key if k.kind == 'AES' else k.mac)
        require(key.size == bits, 'size of version %d is read as %r', v.version_number, key.size)
        require(ref.b64d(key.hash_id) == k.hash(), 'identifier of version %d', v.version_number)


@R.prop(st.fixed_dictionaries({'kind': st.sampled_from(['AES', 'HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV',
                                                        'DSA_PUB', 'RSA_PUB'])}).flatmap(
    lambda d: st.fixed_dictionaries({'kind': st.just(d['kind']), 'spec': spec_for(d['kind'])})),
    quick=500, thorough=10000)
def single_keys(case, ctx):
    """keys.ReadKey and str() of one key."""
    k = make(case['spec'])
    kind = case['kind']
    text = k.public_json() if kind.endswith('_PUB') else k.json()
    key = keys.ReadKey(keyinfo.GetType(kind), text)
    out = str(key)
    try:
        got = ref.parse_key(kind, out)
    except ref.RefError as e:
        raise Violation('not the published format: %s' % e)
    require(ref.material(got) == ref.material(ref.parse_key(kind, text)), 'the numbers changed')
    again = keys.ReadKey(keyinfo.GetType(kind), out)
    require(json.loads(str(again)) == json.loads(out), 'writing again gives something else')
    require(again == key and not again != key, 'the key read back is not equal')
    ctx.label(kind)
    ctx.nontrivial()


def golden_dirs(tier):
    tops = ['python/testdata', 'python/jtestdata', 'cpp/src/keyczar/data/06b', 'java/code/testdata']
    for top in tops:
        for d, subs, files in sorted(os.walk(os.path.join(env.REPO, top))):
            if 'meta' in files:
                with open(os.path.join(d, 'meta')) as f:
                    try:
                        if ref.parse_meta(f.read())[3]:
                            continue
                    except ref.RefError:
                        continue
                yield {'dir': os.path.relpath(d, env.REPO)}


@R.enum(golden_dirs)
def stored_by_others(case, ctx):
    """Key sets in the repository that earlier releases and other implementations wrote."""
    d = os.path.join(env.REPO, case['dir'])
    with open(os.path.join(d, 'meta')) as f:
        text = f.read()
    meta = ref.parse_meta(text)
    try:
        keys_ = {}
        for v, _, _ in meta[4]:
            with open(os.path.join(d, str(v))) as f:
                keys_[v] = f.read()
        want = contents(text, keys_, meta[2])
    except (Violation, OSError):
        ctx.label('skipped')
        return
    gk = keyczar.GenericKeyczar(readers.CreateReader(d))
    w = DictWriter()
    gk.Write(w)
    require(contents(w.meta, w.key_jsons, meta[2]) == want, 'read with another meaning')
    ctx.label(meta[2])
    ctx.nontrivial(bool(keys_))


@R.enum(lambda tier: [{'name': n, 'keys': k} for n, k in ((70000, 1), (300000, 0), (3, 900))])
def large(case, ctx):
    """Long names and sets of hundreds of keys, on disk."""
    name = big(case['name'])
    ks = [ref.HmacKey(b'%032d' % i) for i in range(case['keys'])]
    meta = ref.metadata(name, SIGN, 'HMAC_SHA1',
                        [(i + 1, 'ACTIVE' if i else 'PRIMARY') for i in range(len(ks))])
    keys = {i + 1: k.json() for i, k in enumerate(ks)}
    path = ctx.scratch()
    keyczar.GenericKeyczar(DictReader(meta, keys)).Write(writers.FileWriter(path))
    with open(os.path.join(path, 'meta')) as f:
        got = f.read()
    files = {}
    for v in keys:
        with open(os.path.join(path, str(v))) as f:
            files[v] = f.read()
    require(contents(got, files, 'HMAC_SHA1') == contents(meta, keys, 'HMAC_SHA1'), 'written')
    w = DictWriter()
    keyczar.GenericKeyczar(readers.FileReader(path)).Write(w)
    require(contents(w.meta, w.key_jsons, 'HMAC_SHA1') == contents(meta, keys, 'HMAC_SHA1'),
            'read back')
    ctx.nontrivial()
