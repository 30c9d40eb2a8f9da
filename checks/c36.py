"""C36: an inconsistent key set is refused."""
import json
import os

from hypothesis import strategies as st

import gens
import keypool
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are generated key sets with one injected defect, opened with every suitable class '
          'and in several ways. Non-trivial: every case that injects a defect (all).')

KINDS = {'aes': (CRYPT, gens.aes_spec()), 'rsac': (CRYPT, gens.rsa_spec((512, 1024))),
         'hmac': (SIGN, gens.hmac_spec()), 'rsas': (SIGN, gens.rsa_spec((512, 1024))),
         'dsa': (SIGN, gens.dsa_spec())}
WRAP = ref.AesKey(b'k' * 16, b'm' * 32)
WORDS = st.one_of(st.sampled_from(['', 'AES ', 'aes', 'Primary', 'primary', 'REVOKED', 'SIGN',
                                   'CRYPT', 'TEST', 'HMAC_SHA256', 'EC_PRIV', 'RSA', 'DSA', 'None',
                                   'GCM', 'cbc', 'CFB', 'SIGN_AND_VERIFY ', 'DECRYPT', '0', 'CBC,', ' PRIMARY', 'ACTIVE ', 'INACTIVE\n', '\tPRIMARY',
                                   ' CBC', 'CBC\n', 'RSA_PRIV ', '\nAES', ' VERIFY', 'ENCRYPT ',
                                   'PRIMARY,ACTIVE', 'ACTIV', 'CTR', 'ECB', 'DET_CBC', 'CTR', 'ECB', 'PRIMARYX', 'ECB ', 'Ctr']),
                  st.text(st.sampled_from('ABCDEIMNPRSTVYacp_ 01'), max_size=8))
VALID = {'purpose': {CRYPT, ENCRYPT, SIGN, VERIFY},
         'type': {'AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB'},
         'status': {'PRIMARY', 'ACTIVE', 'INACTIVE'}, 'mode': {'CBC'}}

# what stale copies of a file are called
SPARE = ['', '.tmp', '~', '.bak', '.old', '.json', '.new', '.orig', '', '.swp', '_', '.1']


@st.composite
def cases(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    defect = draw(st.sampled_from(['primaries', 'purpose', 'type', 'status', 'mode', 'no key',
                                   'no key', 'no meta', 'key is a directory', 'extra version',
                                   'repeated version']))
    if defect == 'mode':
        k = 'aes'
    public = k in ('rsac', 'rsas', 'dsa') and draw(st.booleans())
    entries = draw(gens.entries(KINDS[k][1], primary=None, max_size=4,
                                min_size=2 if defect == 'primaries' else 1, many=True))
    word = draw(WORDS.filter(lambda w: w not in VALID[defect])) if defect in VALID else None
    return {'k': k, 'public': public, 'entries': entries, 'defect': defect, 'word': word,
            'n': draw(st.integers(0, 11)), 'enc': draw(st.booleans())}


def classes(purpose):
    return {CRYPT: [keyczar.Crypter, keyczar.Encrypter], ENCRYPT: [keyczar.Encrypter],
            SIGN: [keyczar.Signer, keyczar.Verifier, keyczar.UnversionedSigner,
                   keyczar.UnversionedVerifier],
            VERIFY: [keyczar.Verifier, keyczar.UnversionedVerifier]}[purpose] + [
                keyczar.GenericKeyczar]


@R.prop(cases(), quick=900, thorough=25000)
def injected_defects(case, ctx):
    ks = KeySet.from_case(KINDS[case['k']][0], case['entries'])
    if case['public']:
        ks = ks.public_set()
    defect, n = case['defect'], case['n']
    enc = case['enc']
    meta = json.loads(ks.meta(enc))
    keys_ = ks.key_jsons()
    vs = meta['versions']
    missing = None
    if defect == 'primaries':
        i, j = n % len(vs), (n // len(vs)) % (len(vs) - 1)
        j += j >= i
        vs[i]['status'] = vs[j]['status'] = 'PRIMARY'
    elif defect in ('purpose', 'type'):
        meta[defect] = case['word']
    elif defect == 'status':
        vs[n % len(vs)]['status'] = case['word']
    elif defect == 'mode':
        v = sorted(keys_)[n % len(keys_)]
        d = json.loads(keys_[v])
        d['mode'] = case['word']
        keys_[v] = json.dumps(d)
    elif defect == 'extra version':
        missing = max(keys_) + 1 + n
        vs.insert(n % (len(vs) + 1), {'versionNumber': missing, 'exportable': False,
                                      'status': ['ACTIVE', 'INACTIVE'][n % 2]})
    elif defect == 'repeated version':
        v = dict(vs[n % len(vs)])
        if n % 3 and v['status'] != 'PRIMARY':
            v['status'] = ['PRIMARY', 'ACTIVE', 'INACTIVE'][n // 3 % 3]
            if v['status'] == 'PRIMARY' and any(x['status'] == 'PRIMARY' for x in vs):
                v['status'] = 'ACTIVE'
        vs.insert(n * 7 % (len(vs) + 1), v)
    elif defect in ('no key', 'key is a directory'):
        missing = sorted(keys_)[n % len(keys_)]
    path = ctx.scratch()
    if defect != 'no meta' or SPARE[n % len(SPARE)]:
        name = 'meta' + (SPARE[n % len(SPARE)] if defect == 'no meta' else '')
        with open(os.path.join(path, name), 'w') as f:
            f.write(json.dumps(meta))
    for v, t in keys_.items():
        if v == missing and defect == 'no key':
            if SPARE[n % len(SPARE)]:
                with open(os.path.join(path, str(v) + SPARE[n % len(SPARE)]), 'w') as f:
                    f.write(ref.b64e(WRAP.encrypt(t.encode(), b'i' * 16)) if enc else t)
            continue
        p = os.path.join(path, str(v))
        if v == missing and defect == 'key is a directory':
            os.mkdir(p)
            continue
        with open(p, 'w') as f:
            f.write(ref.b64e(WRAP.encrypt(t.encode(), b'i' * 16)) if enc else t)
    crypter = keyczar.Crypter(single(WRAP, CRYPT).reader())
    for cls in classes(ks.purpose):
        if enc:
            raises(lambda: cls(readers.EncryptedReader(readers.CreateReader(path), crypter)))
        else:
            raises(lambda: cls(readers.FileReader(path)))
            raises(lambda: cls.Read(path))
    if not enc:
        # nor does the tool do anything with it
        before = tool.snapshot(path)
        for args in (['addkey'], ['promote', '--version=%d' % sorted(keys_)[0]],
                     ['demote', '--version=%d' % sorted(keys_)[0]]):
            kind, r = tool.run(args + ['--location=' + path])
            require(kind == 'fail', '%s works on it', args)
            require(tool.snapshot(path) == before, '%s changed files', args)
        if defect not in ('no key', 'no meta', 'key is a directory', 'extra version'):
            for cls in classes(ks.purpose):
                raises(lambda: cls(DictReader(json.dumps(meta), keys_)))
    ctx.label(defect, case['k'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'k': st.sampled_from(sorted(KINDS))}).flatmap(lambda d: st.fixed_dictionaries({
        'k': st.just(d['k']), 'entries': gens.entries(KINDS[d['k']][1], primary=None,
                                                      max_size=5)})), quick=300, thorough=6000)
def sound_sets_open_completely(case, ctx):
    """A set without defect opens with all of its keys, each under its version."""
    ks = KeySet.from_case(KINDS[case['k']][0], case['entries'])
    for cls in classes(ks.purpose):
        z = cls(ks.reader())
        require(sorted(v.version_number for v in z.versions) == sorted(
            v for v, _, _ in ks.entries), 'opened with versions %s', z.versions)
        for v in z.versions:
            require(ref.b64d(z.GetKey(v).hash_id) == ks.by_version(v.version_number).hash(),
                    'another key under version %d', v.version_number)
    ctx.nontrivial()


@R.enum(lambda tier: [{'k': k, 'place': p} for k in sorted(KINDS)
                      for p in ('missing', 'file', 'empty dir', '')])
def no_key_set_there(case, ctx):
    d = ctx.scratch()
    path = os.path.join(d, case['place']) if case['place'] else ''
    if case['place'] == 'file':
        open(path, 'w').close()
    elif case['place'] == 'empty dir':
        os.mkdir(path)
    for cls in classes(KINDS[case['k']][0]):
        raises(lambda: cls.Read(path))
    ctx.nontrivial()
