"""C19: without a primary key nothing is produced, but old data stays readable."""
import io

from hypothesis import strategies as st

import fastgen
import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key sets without a primary key (private, public, empty, or made so by demoting '
          'the primary) and messages. Non-trivial: the set holds at least one key, whose data was '
          'read.')

NPE = errors.NoPrimaryKeyError


def produce_crypt(open_enc):
    """Every way to produce encrypted data with the set behind open_enc()."""
    e = open_enc()
    return [('Encrypt', lambda: e.Encrypt('data')), ('Encrypt raw', lambda: e.Encrypt('', None)),
            ('stream', lambda: e.CreateEncryptingStreamWriter(io.StringIO())),
            ('raw stream', lambda: e.CreateEncryptingStreamWriter(io.StringIO(), None)),
            ('session', lambda: keyczar.SessionEncrypter(open_enc())),
            ('signed session', lambda: keyczar.SignedSessionEncrypter(open_enc(), SIGNER)),
            ('primary_key', lambda: e.primary_key)]


def produce_sign(open_signer, open_unversioned):
    s, u = open_signer(), open_unversioned()
    return [('Sign', lambda: s.Sign('data')), ('Sign raw', lambda: s.Sign('', None)),
            ('AttachedSign', lambda: s.AttachedSign('data', 'nonce')),
            ('AttachedSign empty', lambda: s.AttachedSign('', '', None)),
            ('unversioned', lambda: u.Sign('data')), ('unversioned raw', lambda: u.Sign('', None)),
            ('signed session',
             lambda: keyczar.SignedSessionEncrypter(CRYPTER, open_signer()).Encrypt('data')),
            ('primary_key', lambda: s.primary_key)]


SIGNER = keyczar.Signer(single(ref.HmacKey(b's' * 32), SIGN).reader())
CRYPTER = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'm' * 32), CRYPT).reader())


def refused(ways, ctx):
    for name, fn in ways:
        try:
            r = fn()
        except NPE:
            ctx.label(name)
            continue
        except KeyczarError as e:
            raise Violation('%s raises %s, not the no-primary-key error' % (name, type(e).__name__))
        raise Violation('%s produced %s' % (name, short(r)))


HOW = st.sampled_from(['given', 'demoted', 'demoted in memory'])


def demote(ks, how):
    """A reader of the set without a primary, made as `how` says."""
    if how == 'given' or not ks.entries:
        return ks.reader
    vs = [(v, s) for v, s, _ in ks.entries]
    ks2 = KeySet(ks.purpose, [(v, 'PRIMARY' if i == 0 else s, k)
                              for i, (v, s, k) in enumerate(ks.entries)])
    gk = keyczar.GenericKeyczar(ks2.reader())
    gk.Demote(vs[0][0])
    if how == 'demoted in memory':
        raises(lambda: gk.primary_key, NPE)
    w = DictWriter()
    gk.Write(w)
    return w.reader


@R.prop(st.fixed_dictionaries({
    'entries': st.one_of(gens.entries(gens.aes_spec(), primary=False, min_size=0, many=True),
                         gens.entries(gens.rsa_spec((512, 1024)), primary=False)),
    'how': HOW, 'msg': gens.bstr(0, 20)}), quick=500, thorough=10000)
def crypting(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    if not ks.entries:
        meta = ref.metadata('n', CRYPT, 'AES', [])
        reader = lambda: DictReader(meta, {})
    else:
        reader = demote(ks, case['how'])
    refused(produce_crypt(lambda: keyczar.Crypter(reader())), ctx)
    refused(produce_crypt(lambda: keyczar.Encrypter(reader())), ctx)
    if ks.entries and ks.kind == 'RSA_PRIV':
        pub = ks.public_set()
        refused(produce_crypt(lambda: keyczar.Encrypter(pub.reader())), ctx)
        ctx.label('public')
    cr = keyczar.Crypter(reader())
    for v, s, k in ks.entries:
        raw = k.encrypt(B(case['msg']), b's' * (16 if k.kind == 'AES' else 20))
        require(cr.Decrypt(S(raw), None) == case['msg'], 'version %d does not decrypt', v)
        require(cr.Decrypt(ref.b64e(raw)) == case['msg'], 'version %d does not decrypt', v)
        if k.kind == 'AES':
            rd = cr.CreateDecryptingStreamReader(io.StringIO(S(raw), newline=''), None)
            require((rd.read() or '') == case['msg'], 'version %d does not decrypt as a stream', v)
    refused(produce_crypt(lambda: cr), ctx)
    ctx.nontrivial(bool(ks.entries))


@R.prop(st.fixed_dictionaries({
    'entries': st.one_of(gens.entries(gens.hmac_spec(), primary=False, min_size=0, many=True),
                         gens.entries(gens.dsa_spec(), primary=False),
                         gens.entries(gens.rsa_spec((512, 1024)), primary=False)),
    'how': HOW, 'msg': gens.bstr(0, 20)}), quick=500, thorough=10000)
def signing(case, ctx):
    ks = KeySet.from_case(SIGN, case['entries'])
    if not ks.entries:
        meta = ref.metadata('n', SIGN, 'HMAC_SHA1', [])
        reader = lambda: DictReader(meta, {})
    else:
        reader = demote(ks, case['how'])
    ways = lambda: produce_sign(lambda: keyczar.Signer(reader()),
                                lambda: keyczar.UnversionedSigner(reader()))
    refused(ways(), ctx)
    msg = case['msg']
    for cls, ucls in ((keyczar.Signer, keyczar.UnversionedSigner),
                      (keyczar.Verifier, keyczar.UnversionedVerifier)):
        s, u = cls(reader()), ucls(reader())
        for v, _, k in ks.entries:
            require(s.Verify(msg, S(ref.versioned_sig(k, B(msg), 7)), None) is True,
                    'version %d does not verify', v)
            require(s.AttachedVerify(S(ref.attached_sig(k, B(msg), b'n', 7)), 'n', None) == msg,
                    'version %d does not verify attached', v)
            require(u.Verify(msg, S(k.sign(B(msg), 7)), None) is True,
                    'version %d does not verify unversioned', v)
        require(u.Verify(msg, 'x' * 20, None) is False, 'nonsense verifies')
    refused(ways(), ctx)
    ctx.nontrivial(bool(ks.entries))
