"""C10: key rotation keeps old data usable and uses the new primary."""
import io
import os

from hypothesis import strategies as st

import fastgen
import gens
import keypool
from harness import Registry, require, short
from kz import *

R = Registry()
R.rule = ('Cases are histories of add, promote, demote, revoke, reload and use on a key set of one '
          'type, in memory or on disk. Non-trivial: data was made with at least one key, the '
          'primary then changed or a key was revoked, and all data was checked again.')

KINDS = {'AES': (CRYPT, [None, 128, 192, 256]), 'RSA_CRYPT': (CRYPT, [1024]),
         'HMAC_SHA1': (SIGN, [None, 256]), 'RSA_SIGN': (SIGN, [1024]), 'DSA': (SIGN, [None])}
TYPE = {'AES': 'AES', 'RSA_CRYPT': 'RSA_PRIV', 'HMAC_SHA1': 'HMAC_SHA1', 'RSA_SIGN': 'RSA_PRIV',
        'DSA': 'DSA_PRIV'}

OP = st.one_of(
    st.tuples(st.just('add'), st.sampled_from(['PRIMARY', 'PRIMARY', 'ACTIVE', 'INACTIVE']),
              st.integers(0, 3)),
    st.tuples(st.just('promote'), st.integers(0, 13)),
    st.tuples(st.just('promote'), st.integers(0, 13)),
    st.tuples(st.just('demote'), st.integers(0, 13)),
    st.tuples(st.just('demote'), st.integers(0, 13)),
    st.tuples(st.just('revoke'), st.integers(0, 13)),
    st.tuples(st.just('use'), gens.bstr(0, 20)),
    st.tuples(st.just('use'), gens.bstr(0, 20)),
    st.tuples(st.just('reload'))).map(list)

OLD = {'AES': ['AES', '5a' * 16, '77' * 32], 'HMAC_SHA1': ['HMAC', '5a' * 32],
       'DSA': ['DSA', 0, 'signed'],
       'RSA_CRYPT': ['RSA', keypool.RSA_BY_SIZE[512][0], 'signed'],
       'RSA_SIGN': ['RSA', keypool.RSA_BY_SIZE[512][0], 'signed']}


@st.composite
def history(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    ops = [['add', 'PRIMARY', 0], ['use', 'first']]
    # some sets are large from the start
    more = draw(st.sampled_from([0, 0, 0, 2, 4, 8]))
    for i in range(more if kind in ('AES', 'HMAC_SHA1') else min(more, 4)):
        ops.append(['add', draw(st.sampled_from(['PRIMARY', 'ACTIVE', 'INACTIVE'])), i])
    n_max = 14 if kind in ('AES', 'HMAC_SHA1') else 9
    ops += draw(st.lists(OP, min_size=1, max_size=n_max))
    return {'kind': kind, 'disk': draw(st.booleans()), 'ops': ops,
            'past': draw(st.sampled_from([0, 0, 0, 7, 8, 97, 998]))}


class Store(object):
    def __init__(self, path):
        self.path = path

    def write(self, gk):
        if self.path:
            gk.Write(writers.FileWriter(self.path))
        else:
            self.w = DictWriter()
            gk.Write(self.w)

    def reader(self):
        return readers.FileReader(self.path) if self.path else self.w.reader()


def outputs(kind, store, msg):
    """Everything that can be made from msg with the current primary."""
    if KINDS[kind][0] == CRYPT:
        cr = keyczar.Crypter(store.reader())
        out = [['crypt', cr.Encrypt(msg)], ['crypt', keyczar.Encrypter(store.reader()).Encrypt(msg)]]
        if kind == 'AES':
            f = io.StringIO(newline='')
            w = cr.CreateEncryptingStreamWriter(f)
            w.write(msg)
            w.flush()
            w.close()
            out.append(['crypt', f.getvalue()])
            s = keyczar.SessionEncrypter(cr)
            out.append(['session', s.session_material, s.Encrypt(msg)])
        return out
    s = keyczar.Signer(store.reader())
    return [['sign', s.Sign(msg)], ['attached', s.AttachedSign(msg, 'nonce')],
            ['unversioned', keyczar.UnversionedSigner(store.reader()).Sign(msg)]]


def usable(kind, store, o, msg):
    """True if the output o still opens to msg, False if it is refused."""
    if KINDS[kind][0] == CRYPT:
        cr = keyczar.Crypter(store.reader())
        if o[0] == 'session':
            k, r = outcome(lambda: keyczar.SessionDecrypter(cr, o[1]).Decrypt(o[2]))
        else:
            k, r = outcome(lambda: cr.Decrypt(o[1]))
            if kind == 'AES':
                k2, r2 = outcome(lambda: _stream(cr, o[1]))
                require(k == k2 and (k == 'error' or r == r2), 'stream and one-shot differ')
        if k == 'ok':
            require(r == msg, 'opens to %s', short(r))
        return k == 'ok'
    v = keyczar.Verifier(store.reader())
    if o[0] == 'sign':
        k, r = outcome(lambda: v.Verify(msg, o[1]))
    elif o[0] == 'attached':
        k, r = outcome(lambda: v.AttachedVerify(o[1], 'nonce'))
        if k == 'ok' and r is not None:
            require(r == msg, 'attached data %s', short(r))
            r = True
    else:
        k, r = outcome(lambda: keyczar.UnversionedVerifier(store.reader()).Verify(msg, o[1]))
    return k == 'ok' and r is True


def _stream(cr, text):
    rd = cr.CreateDecryptingStreamReader(io.StringIO(text, newline=''))
    out = ''
    while True:
        r = rd.read()
        if r == '':
            return out
        out += r or ''


@R.prop(history(), quick=260, thorough=5000)
def rotation(case, ctx):
    with fastgen.fast():
        _rotation(case, ctx)


def _rotation(case, ctx):
    kind = case['kind']
    purpose, sizes = KINDS[kind]
    store = Store(ctx.scratch() if case['disk'] else None)
    first = DictReader(ref.metadata('n', purpose, TYPE[kind], []), {})
    model = {}       # version -> [status, key number]
    made = []        # (key number, message, output)
    n_keys = 0
    if case['past']:             # what is left of a longer history
        first = KeySet(purpose, [(case['past'], 'INACTIVE', keypool.make(OLD[kind]))]).reader()
        n_keys = 1
        model = {case['past']: ['INACTIVE', 1]}
    gk = keyczar.GenericKeyczar(first)
    ids = {}         # key number -> header
    hash_ids = {}    # key number -> identifier in the object
    changed = False
    interesting = False
    for op in case['ops']:
        if op[0] == 'add':
            if len(model) >= (14 if kind in ('AES', 'HMAC_SHA1') else 7):
                continue
            if op[1] == 'PRIMARY':
                for e in model.values():
                    if e[0] == 'PRIMARY':
                        e[0] = 'ACTIVE'
            gk.AddVersion(keyinfo.GetStatus(op[1]), sizes[op[2] % len(sizes)])
            n_keys += 1
            model[max(model or [0]) + 1] = [op[1], n_keys]
            changed = True
        elif op[0] in ('promote', 'demote', 'revoke'):
            if not model:
                continue
            v = sorted(model)[op[1] % len(model)]
            s = model[v][0]
            if op[0] == 'promote' and s != 'PRIMARY':
                gk.Promote(v)
                if s == 'ACTIVE':
                    for e in model.values():
                        if e[0] == 'PRIMARY':
                            e[0] = 'ACTIVE'
                model[v][0] = 'ACTIVE' if s == 'INACTIVE' else 'PRIMARY'
            elif op[0] == 'demote' and s != 'INACTIVE':
                gk.Demote(v)
                model[v][0] = 'ACTIVE' if s == 'PRIMARY' else 'INACTIVE'
            elif op[0] == 'revoke' and s == 'INACTIVE':
                gk.Revoke(v)
                del model[v]
                if store.path:
                    writers.FileWriter(store.path).Remove(v)
            changed = True
        elif op[0] == 'reload':
            store.write(gk)
            gk = keyczar.GenericKeyczar(store.reader())
            continue
        store.write(gk)
        prim = [e[1] for e in model.values() if e[0] == 'PRIMARY']
        if op[0] == 'use':
            if not prim:
                raises(lambda: outputs(kind, store, op[1]), errors.NoPrimaryKeyError)
                continue
            for o in outputs(kind, store, op[1]):
                made.append((prim[0], op[1], o))
                if o[0] != 'unversioned':
                    hdr = ref.b64d(o[1])[:5]
                    require(ids.setdefault(prim[0], hdr) == hdr,
                            'output of key %d carries the header %s', prim[0], hdr.hex())
                    require([n for n, h in ids.items() if h == hdr] == [prim[0]],
                            'header of another key')
        live = {e[1] for e in model.values()}
        found, key = outcome(lambda: gk.primary_key.hash_id, errors.NoPrimaryKeyError)
        require((found == 'ok') == bool(prim), 'the object has %s primary key',
                'a' if found == 'ok' else 'no')
        if prim:
            number = [n for n, e in model.items() if e[0] == 'PRIMARY'][0]
            require(gk.GetKey([v for v in gk.versions if v.version_number == number][0]).hash_id
                    == key, 'the primary key of the object is not that of version %d', number)
        for v in gk.versions:
            hash_ids[model[v.version_number][1]] = gk.GetKey(v).hash_id
        for n, h in hash_ids.items():
            # the object itself finds exactly the keys that are in the set
            kind_, k = outcome(lambda: gk.GetKey(h), errors.KeyNotFoundError)
            require((kind_ == 'ok') == (n in live), 'key %d (%s) is %s by its identifier', n,
                    'in the set' if n in live else 'revoked',
                    'found' if kind_ == 'ok' else 'not found')
        for n, msg, o in made:
            ok = usable(kind, store, o, msg)
            require(ok == (n in live), '%s made with key %d (%s) is %s', o[0], n,
                    'in the set' if n in live else 'revoked', 'usable' if ok else 'refused')
            if n not in live:
                ctx.label('revoked output refused')
                interesting = True
            elif n not in prim:
                ctx.label('output of an old key usable')
                interesting = True
    ctx.label(kind, 'disk' if case['disk'] else 'memory')
    ctx.nontrivial(interesting and changed)


@R.prop(st.fixed_dictionaries({'entries': gens.crypt_entries(rsa_sizes=(512,), max_size=4, many=True),
                               'msg': gens.bstr(0, 20)}), quick=150, thorough=3000)
def any_status_decrypts(case, ctx):
    """Every key of a set, whatever its status and version, opens its data, and the primary is
    the one used."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    cr = keyczar.Crypter(ks.reader())
    for v, s, k in ks.entries:
        raw = k.encrypt(B(case['msg']), b's' * (16 if k.kind == 'AES' else 20))
        require(cr.Decrypt(S(raw), None) == case['msg'], 'version %d (%s)', v, s)
    require(B(cr.Encrypt('m', None))[:5] == ks.primary.header(), 'not the primary key')
    ctx.nontrivial(len(ks.entries) > 1)


@R.prop(st.fixed_dictionaries({'entries': gens.sign_entries(rsa_sizes=(512,), max_size=4, many=True),
                               'msg': gens.bstr(0, 20)}), quick=150, thorough=3000)
def any_status_verifies(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    sg = keyczar.Signer(ks.reader())
    for v, s, k in ks.entries:
        sig = S(ref.versioned_sig(k, B(case['msg']), 77))
        require(sg.Verify(case['msg'], sig, None) is True, 'version %d (%s)', v, s)
        blob = S(ref.attached_sig(k, B(case['msg']), b'n', 77))
        require(sg.AttachedVerify(blob, 'n', None) == case['msg'], 'attached %d (%s)', v, s)
    require(B(sg.Sign('m', None))[:5] == ks.primary.header(), 'not the primary key')
    ctx.nontrivial(len(ks.entries) > 1)
