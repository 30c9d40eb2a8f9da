"""C17: a public key export holds the public keys only, and matches."""
import json
import os

from hypothesis import strategies as st

import gens
import keypool
import secrets_in
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are asymmetric key sets with drawn keys, number encodings, versions and statuses, '
          'exported through the library or the tool; and sets that have no public half. '
          'Non-trivial: at least one key was exported or an unsuitable set was refused.')

ASYM = st.one_of(
    st.tuples(st.just(CRYPT), gens.entries(gens.rsa_spec((512, 1024, 2048)), primary=None, many=True)),
    st.tuples(st.just(SIGN), gens.entries(gens.rsa_spec((512, 1024, 2048)), primary=None, many=True)),
    st.tuples(st.just(SIGN), gens.entries(gens.dsa_spec(), primary=None, many=True)))


def public_numbers(k):
    return (k.n, k.e) if k.kind.startswith('RSA') else (k.p, k.q, k.g, k.y)


@R.prop(st.fixed_dictionaries({
    'set': ASYM.map(list), 'name': st.sampled_from(['', 'n', 'ü"\\']), 'msg': gens.bstr(0, 20),
    'via': st.sampled_from(['library', 'tool', 'encrypted', 'history']),
    'enc': st.booleans(), 'stale': st.booleans(), 'exportable': st.lists(st.booleans(), min_size=4, max_size=4)}),
    quick=500, thorough=12000)
def export(case, ctx):
    purpose, entries = case['set']
    ks = KeySet.from_case(purpose, entries)
    ks.name = case['name']
    src, dest = ctx.scratch(), ctx.scratch()
    ks.to_dir(src)
    with open(os.path.join(src, 'meta')) as f:
        meta = json.load(f)
    for v, e in zip(meta['versions'], case['exportable']):
        v['exportable'] = e
    with open(os.path.join(src, 'meta'), 'w') as f:
        json.dump(meta, f)
    if case['stale']:
        # an earlier export of another set of keys with the same version numbers
        other = {'RSA_PRIV': keypool.rsa(0), 'DSA_PRIV': keypool.dsa(0)}[ks.kind]
        old = KeySet(purpose, [(v, s, other) for v, s, _ in ks.entries]).public_set()
        old.to_dir(dest)
    before = tool.snapshot(src)
    if case['via'] == 'tool':
        kind, r = tool.run(['pubkey', '--location=' + src, '--destination=' + dest])
        require(kind == 'ok', 'the tool failed: %s', r)
        gk = None
    else:
        rd = readers.FileReader(src)
        if case['via'] == 'encrypted':
            c = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'm' * 32), CRYPT).reader())
            enc_dir = ctx.scratch()
            keyczar.GenericKeyczar(rd).Write(writers.FileWriter(enc_dir), c)
            rd = readers.EncryptedReader(readers.FileReader(enc_dir), c)
        gk = keyczar.GenericKeyczar(rd)
        statuses = {v: s for v, s, _ in ks.entries}
        if case['via'] == 'history':
            v = sorted(statuses)[0]
            if statuses[v] != 'PRIMARY':
                gk.Promote(v)
                gk.Demote(v)
            else:
                gk.Demote(v)
                gk.Promote(v)
        state = (str(gk.metadata), {v.version_number: str(gk.GetKey(v)) for v in gk.versions})
        gk.PublicKeyExport(dest)
        require(state == (str(gk.metadata),
                          {v.version_number: str(gk.GetKey(v)) for v in gk.versions}),
                'the private set in memory changed')
        ks.entries = [(v, next(str(x.status) for x in gk.versions if x.version_number == v), k)
                      for v, _, k in ks.entries]
    require(tool.snapshot(src) == before, 'the private set on disk changed')
    files = tool.snapshot(dest)
    files.pop('.')
    require(sorted(files) == sorted(['meta'] + [str(v) for v, _, _ in ks.entries]),
            'exported files %s', sorted(files))
    pubkind = tool.PUBLIC[ks.kind]
    try:
        meta = ref.parse_meta(files['meta'].decode())
        keys_ = {v: ref.parse_key(pubkind, files[str(v)].decode()) for v, _, _ in ks.entries}
    except ref.RefError as e:
        raise Violation('the export is not a public key set: %r' % e)
    require(meta[:4] == (case['name'], ENCRYPT if purpose == CRYPT else VERIFY, pubkind, False),
            'exported metadata %r', meta[:4])
    require(sorted((v, s) for v, s, _ in meta[4]) == sorted((v, s) for v, s, _ in ks.entries),
            'exported versions %r', meta[4])
    for v, s, k in ks.entries:
        require(public_numbers(keys_[v]) == public_numbers(k), 'public numbers of version %d', v)
    private = []
    for v, _, k in ks.entries:
        private += k.secret_ints() if hasattr(k, 'secret_ints') else k.secrets()
    for f, b in files.items():
        hit = secrets_in.find(b, private)
        require(hit is None, 'file %s holds the private number %s', f, hit)
    for v in keys_:
        allowed = ({'modulus', 'publicExponent', 'size'} if pubkind == 'RSA_PUB' else
                   {'p', 'q', 'g', 'y', 'size'})
        extra = set(json.loads(files[str(v)])) - allowed
        require(not extra & {'privateExponent', 'primeP', 'primeQ', 'primeExponentP',
                             'primeExponentQ', 'crtCoefficient', 'x', 'publicKey'},
                'private fields %s', extra)
    use(ks, dest, case['msg'])
    ctx.label(pubkind, case['via'])
    ctx.nontrivial()


def use(ks, dest, msg):
    """The public set works with the private one."""
    if ks.purpose == CRYPT:
        pub, priv = keyczar.Encrypter.Read(dest), keyczar.Crypter(ks.reader())
        raises(lambda: keyczar.Crypter.Read(dest))
        if ks.primary:
            ct = pub.Encrypt(msg[:20])
            require(priv.Decrypt(ct) == msg[:20], 'the private set does not open it')
            require(ref.b64d(ct)[:5] == ks.primary.header(), 'not the primary key')
        else:
            raises(lambda: pub.Encrypt('x'), errors.NoPrimaryKeyError)
        return
    pub = keyczar.Verifier.Read(dest)
    raises(lambda: keyczar.Signer.Read(dest))
    for v, s, k in ks.entries:
        require(pub.Verify(msg, S(ref.versioned_sig(k, B(msg), 7)), None) is True,
                'the public set refuses a signature of version %d', v)
    if ks.primary:
        sig = keyczar.Signer(ks.reader()).Sign(msg)
        require(pub.Verify(msg, sig) is True, 'the public set refuses a signature')
        require(pub.Verify(msg + '!', sig) is False, 'the public set accepts another message')


UNSUITABLE = st.one_of(
    st.tuples(st.just(CRYPT), gens.entries(gens.aes_spec(), primary=None)),
    st.tuples(st.just(SIGN), gens.entries(gens.hmac_spec(), primary=None)),
    st.tuples(st.just('public'), st.one_of(gens.entries(gens.rsa_spec((512,)), primary=None),
                                           gens.entries(gens.dsa_spec(), primary=None))),
    st.tuples(st.just('misfit'), gens.entries(gens.dsa_spec(), primary=None)),
    st.tuples(st.sampled_from([ENCRYPT, VERIFY]),
              st.one_of(gens.entries(gens.rsa_spec((512,)), primary=None),
                        gens.entries(gens.dsa_spec(), primary=None))))


@R.prop(st.tuples(UNSUITABLE.map(list), st.booleans(), st.booleans()).map(list), quick=400,
        thorough=8000)
def no_public_half(case, ctx):
    """Sets that cannot be exported are refused and nothing is written."""
    (purpose, entries), by_tool, old = case
    if purpose == 'public':
        ks = KeySet.from_case(SIGN, entries).public_set()
    elif purpose == 'misfit':
        ks = KeySet.from_case(CRYPT, entries)      # DSA keys that claim to encrypt
    else:
        ks = KeySet.from_case(purpose, entries)
    src, dest = ctx.scratch(), ctx.scratch()
    ks.to_dir(src)
    if old:
        with open(os.path.join(dest, 'meta'), 'w') as f:
            f.write('older')
    before = tool.snapshot(src), tool.snapshot(dest)
    if by_tool:
        kind, r = tool.run(['pubkey', '--location=' + src, '--destination=' + dest])
        require(kind == 'fail', 'the tool exported %s %s', ks.purpose, ks.kind)
    else:
        gk = keyczar.GenericKeyczar(readers.FileReader(src))
        raises(lambda: gk.PublicKeyExport(dest))
    require((tool.snapshot(src), tool.snapshot(dest)) == before, 'files changed')
    ctx.label('%s %s' % (ks.purpose, ks.kind))
    ctx.nontrivial()


@R.prop(st.one_of(gens.rsa_spec((512, 1024, 2048)), gens.dsa_spec()).flatmap(
    lambda s: st.tuples(st.just(s), st.one_of(gens.rsa_spec((512, 1024)), gens.dsa_spec())).map(
        list)), quick=250, thorough=4000)
def public_key_of_a_key(case, ctx):
    """The public_key of a private key: its numbers, its identifier, and equality."""
    a, b = keypool.make(case[0]), keypool.make(case[1])
    ka = keys.ReadKey(keyinfo.GetType(a.kind), a.json())
    kb = keys.ReadKey(keyinfo.GetType(b.kind), b.json())
    pub = ka.public_key
    p = ref.parse_key(tool.PUBLIC[a.kind], str(pub))
    require(public_numbers(p) == public_numbers(a), 'public numbers')
    require(pub.hash_id == ka.hash_id, 'identifier')
    direct = keys.ReadKey(keyinfo.GetType(tool.PUBLIC[a.kind]), a.public_json())
    require(pub == direct and not pub != direct, 'a public key is not equal to itself')
    same = ref.material(a) == ref.material(b)
    if a.kind == b.kind:
        require((pub == kb.public_key) == same, 'equality of public keys')
        require((ka == kb) == same, 'equality of private keys')
    ctx.nontrivial()
