"""C38: objects do not influence one another, also in concurrent threads."""
import io
import json

from hypothesis import strategies as st

import gens
import keypool
import sched
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are several key sets (some opened more than once), objects on them, and an '
          'interleaving of their operations: as a sequence, or as threads that are switched at '
          'drawn lines of the library. Non-trivial: at least two objects took part and, with '
          'threads, at least two switches happened inside of operations.')

SPECS_C = [['AES', '11' * 16, '21' * 32], ['AES', '12' * 24, '22' * 32],
           ['AES', '13' * 32, '23' * 32], ['RSA', keypool.RSA_BY_SIZE[512][0], 'signed'],
           ['RSA', keypool.RSA_BY_SIZE[512][1], 'signed']]
SPECS_S = [['HMAC', '31' * 32], ['HMAC', '32' * 32], ['DSA', 0, 'signed'], ['DSA', 1, 'signed'],
           ['RSA', keypool.RSA_BY_SIZE[512][0], 'signed'],
           ['RSA', keypool.RSA_BY_SIZE[512][1], 'signed']]


@st.composite
def sets(draw, specs, aes_only=False):
    kind = draw(st.sampled_from(sorted({s[0] for s in specs})))
    of = [s for s in specs if s[0] == kind]
    n = draw(st.integers(1, len(of)))
    picked = draw(st.permutations(of))[:n]
    p = draw(st.integers(0, n - 1))
    return [[i + 1, 'PRIMARY' if i == p else draw(st.sampled_from(['ACTIVE', 'INACTIVE'])), s]
            for i, s in enumerate(picked)]


CSETS, SSETS = sets(SPECS_C), sets(SPECS_S)
AESSETS = sets([s for s in SPECS_C if s[0] == 'AES'])
OPS = {'crypt': ['enc', 'enc', 'dec', 'dec', 'bad', 'sess'],
       'sign': ['sign', 'sign', 'ver', 'ver', 'forged', 'att', 'attver', 'un', 'unver'],
       'stream': ['write', 'write', 'read', 'read'],
       'session': ['send', 'sign', 'send', 'get', 'get', 'get', 'bad']}
MSG = st.one_of(gens.bstr(0, 20), st.builds(lambda n, c: chr(c) * n, st.integers(0, 22),
                                            st.integers(0, 255)))
LONG = st.builds(lambda n, c: chr(c) * n, st.integers(0, 120), st.integers(0, 255))


WRAP_KEY = ref.AesKey(bytes(range(16)), bytes(range(32)))
_wrap = []


def opened(ks, encrypted):
    """A reader of the set, all the encrypted ones with one and the same crypter object."""
    if not encrypted:
        return ks.reader()
    if not _wrap:
        _wrap.append(keyczar.Crypter(single(WRAP_KEY, CRYPT).reader()))
    keys_ = {v: ref.b64e(WRAP_KEY.encrypt(B(j), bytes(range(16)))) for v, j in ks.key_jsons().items()}
    return readers.EncryptedReader(DictReader(ks.meta(encrypted=True), keys_), _wrap[0])


class Actor(object):
    """One object (or pair of objects) of the library and its key set."""

    def __init__(self, ks):
        self.ks = ks
        self.n = 0

    def key(self, msg):
        self.n += 1
        return self.ks.entries[(self.n + len(msg)) % len(self.ks.entries)][2]


def ref_encrypt(key, msg):
    if key.kind == 'AES':
        return key.encrypt(B(msg), bytes(range(16)))
    return key.encrypt(B(msg), bytes(range(20)))


def opens(key, blob, msg, what):
    try:
        got = key.decrypt(blob)
    except ref.RefError as e:
        raise Violation('%s: the reference refuses it: %s' % (what, e))
    require(got == B(msg), '%s: the reference reads %s, not %s', what, short(got), short(msg))


class Crypt(Actor):
    def __init__(self, ks, encrypted=False):
        Actor.__init__(self, ks)
        self.c = keyczar.Crypter(opened(ks, encrypted))
        self.session = None

    def do(self, op, msg):
        key = self.key(msg)
        limit = None if key.kind == 'AES' else 20
        msg = msg[:limit]
        if op == 'enc':
            opens(self.ks.primary, ref.b64d(self.c.Encrypt(msg)), msg, 'Encrypt')
        elif op == 'dec':
            got = self.c.Decrypt(ref.b64e(ref_encrypt(key, msg)))
            require(got == msg, 'Decrypt gives %s, not %s', short(got), short(msg))
        elif op == 'bad':
            blob = bytearray(ref_encrypt(key, msg))
            blob[-1 - len(msg) % 8] ^= 1
            raises(lambda: self.c.Decrypt(ref.b64e(bytes(blob))))
        elif op == 'sess':
            if key.kind != 'AES':
                return
            se = keyczar.SessionEncrypter(self.c)
            ct = se.Encrypt(msg)
            got = keyczar.SessionDecrypter(self.c, se.session_material).Decrypt(ct)
            require(got == msg, 'the session gives %s', short(got))


class Sign(Actor):
    def __init__(self, ks, encrypted=False):
        Actor.__init__(self, ks)
        self.s = keyczar.Signer(opened(ks, encrypted))
        self.v = keyczar.Verifier((ks if ks.kind == 'HMAC_SHA1' else ks.public_set()).reader())
        self.u = keyczar.UnversionedSigner(ks.reader())

    def do(self, op, msg):
        key = self.key(msg)
        prim = self.ks.primary
        if op == 'sign':
            b = ref.b64d(self.s.Sign(msg))
            require(b[:5] == prim.header() and prim.verify(B(msg) + b'\0', b[5:]),
                    'Sign: the reference refuses the signature of %s', short(msg))
        elif op in ('ver', 'forged'):
            sig = ref.versioned_sig(key, B(msg), 12345)
            for o in (self.s, self.v):
                kind, r = outcome(lambda: o.Verify(msg + ('x' if op == 'forged' else ''),
                                                   ref.b64e(sig)))
                require(kind == 'ok' and r is (op == 'ver'), 'Verify (%s) gives %r', op, r)
        elif op == 'att':
            b = ref.b64d(self.s.AttachedSign(msg, 'nonce'))
            want = prim.header() + ref.lp(B(msg))
            require(b[:len(want)] == want and
                    prim.verify(ref.signed_form(B(msg), b'nonce'), b[len(want):]), 'AttachedSign')
        elif op == 'attver':
            blob = ref.b64e(ref.attached_sig(key, B(msg), b'nonce', 12345))
            r = self.v.AttachedVerify(blob, 'nonce')
            require(r == msg, 'AttachedVerify gives %s', short(r))
            kind, r = outcome(lambda: self.s.AttachedVerify(blob, 'other'))
            require(kind == 'error' or r is None, 'AttachedVerify with another nonce')
        elif op == 'un':
            require(prim.verify(B(msg), ref.b64d(self.u.Sign(msg))), 'unversioned Sign')
        elif op == 'unver':
            require(self.u.Verify(msg, ref.b64e(key.sign(B(msg), 12345))) is True,
                    'unversioned Verify')


class Stream(Actor):
    """An encrypting and a decrypting stream, advanced a piece at a time."""

    def __init__(self, ks, text, encrypted=False):
        Actor.__init__(self, ks)
        self.c = keyczar.Crypter(opened(ks, encrypted))
        self.sink = streams.Sink()
        self.w = self.c.CreateEncryptingStreamWriter(self.sink)
        self.written = []
        self.text = text
        self.got = []
        self.r = self.c.CreateDecryptingStreamReader(
            streams.Source(ref.b64e(ref_encrypt(self.key(text), text))))

    def do(self, op, msg):
        if op == 'write':
            self.written.append(msg)
            self.w.write(msg)
        else:
            self.read(1 + len(msg) % 20)

    def read(self, n):
        r = self.r.read(n)
        if r:
            self.got.append(r)
            require(self.text.startswith(''.join(self.got)), 'read %s of %s',
                    short(''.join(self.got)), short(self.text))
        return r

    def finish(self):
        self.w.flush()
        opens(self.ks.primary, ref.b64d(self.sink.data), ''.join(self.written), 'stream')
        self.w.close()
        for _ in range(300):
            if self.read(7) == '':
                break
        require(''.join(self.got) == self.text, 'the stream gives %s', short(''.join(self.got)))


class Session(Actor):
    """A session and a signed session, with both ends, used over and over."""

    def __init__(self, ks, encrypted=False):
        Actor.__init__(self, ks)
        c = keyczar.Crypter(opened(ks, encrypted))
        signer = keyczar.Signer(single(SIGNED_BY, SIGN).reader())
        self.e = keyczar.SessionEncrypter(c)
        self.d = keyczar.SessionDecrypter(c, self.e.session_material)
        self.se = keyczar.SignedSessionEncrypter(c, signer)
        self.sd = keyczar.SignedSessionDecrypter(c, signer, self.se.session_material)
        self.sent = []

    def do(self, op, msg):
        if op == 'send':
            self.sent.append((msg, self.d, self.e.Encrypt(msg)))
        elif op == 'sign':
            self.sent.append((msg, self.sd, self.se.Encrypt(msg)))
        elif op == 'bad':
            for got, e in ((self.d, self.se), (self.sd, self.e)):
                kind, r = outcome(lambda: got.Decrypt(e.Encrypt(msg)))
                require(kind == 'error' or r is None, 'data of the other session gives %s', short(r))
        elif self.sent:
            msg, d, ct = self.sent.pop(0)
            got = d.Decrypt(ct)
            require(got == msg, 'the session gives %s, not %s', short(got), short(msg))

    def finish(self):
        while self.sent:
            self.do('get', '')


SIGNED_BY = ref.HmacKey(b's' * 32)


def make(kind, entries, text):
    encrypted = len(text) % 3 == 1
    if kind == 'crypt':
        return Crypt(KeySet.from_case(CRYPT, entries), encrypted)
    if kind == 'sign':
        return Sign(KeySet.from_case(SIGN, entries), encrypted)
    if kind == 'session':
        return Session(KeySet.from_case(CRYPT, entries), encrypted)
    return Stream(KeySet.from_case(CRYPT, entries), text, encrypted)


SETOF = {'crypt': CSETS, 'sign': SSETS, 'stream': AESSETS, 'session': AESSETS}


@st.composite
def actors(draw, most):
    out = []
    for _ in range(draw(st.integers(2, most))):
        same = [a for a in out]
        if same and draw(st.integers(0, 2)) == 0:
            a = draw(st.sampled_from(same))
            out.append([a[0], a[1], draw(LONG)])
        else:
            kind = draw(st.sampled_from(['crypt', 'sign', 'stream', 'session']))
            out.append([kind, draw(SETOF[kind]), draw(LONG)])
    return out


def op_for(kind, i):
    return OPS[kind][i % len(OPS[kind])]


STEPS = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 17), MSG).map(list), min_size=2,
                 max_size=24)


@R.prop(st.fixed_dictionaries({'actors': actors(5), 'steps': STEPS}), quick=500, thorough=16000)
def in_sequence(case, ctx):
    _wrap.clear()
    objs = [make(*a) for a in case['actors']]
    used = set()
    for i, op, msg in case['steps']:
        i %= len(objs)
        used.add(i)
        objs[i].do(op_for(case['actors'][i][0], op), msg)
    for o in objs:
        if isinstance(o, (Stream, Session)):
            o.finish()
    ctx.label(*{a[0] for a in case['actors']})
    ctx.nontrivial(len(used) > 1)


SCHEDULE = st.lists(st.tuples(st.integers(0, 1), st.one_of(
    st.integers(1, 12), st.integers(1, 60), st.integers(1, 400))).map(list),
    min_size=1, max_size=30)


@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from(['crypt', 'sign']), 'c': CSETS, 's': SSETS,
    'threads': st.lists(st.lists(st.tuples(st.integers(0, 17), MSG).map(list), min_size=1,
                                 max_size=4), min_size=2, max_size=3),
    'schedule': SCHEDULE}), quick=500, thorough=20000)
def one_object_in_threads(case, ctx):
    """The same object is used by all threads."""
    kind = case['kind']
    entries = case['c'] if kind == 'crypt' else case['s']
    obj = make(kind, entries, '')
    s = sched.Scheduler(case['schedule'])

    def worker(ops):
        def go():
            for op, msg in ops:
                obj.do(op_for(kind, op), msg)
        return go
    s.run([worker(ops) for ops in case['threads']])
    ctx.label(obj.ks.kind, 'switches: %s' % ('0-1' if s.switches < 2 else '2-9'
                                             if s.switches < 10 else '10 or more'))
    ctx.nontrivial(s.switches > 1)


@R.prop(st.fixed_dictionaries({
    'actors': actors(3),
    'ops': st.lists(st.lists(st.tuples(st.integers(0, 17), MSG).map(list), min_size=1,
                             max_size=5), min_size=3, max_size=3),
    'schedule': SCHEDULE}), quick=400, thorough=16000)
def an_object_per_thread(case, ctx):
    """Also opened, and streams finished, inside of the threads."""
    _wrap.clear()
    s = sched.Scheduler(case['schedule'])

    def worker(a, ops):
        def go():
            o = make(*a)
            for op, msg in ops:
                o.do(op_for(a[0], op), msg)
            if isinstance(o, (Stream, Session)):
                o.finish()
        return go
    s.run([worker(a, ops) for a, ops in zip(case['actors'], case['ops'])])
    ctx.label(*{a[0] for a in case['actors']})
    ctx.nontrivial(s.switches > 1)


# A key set that is being changed, and objects that were opened on it before.

@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from(['crypt', 'sign']), 'c': AESSETS, 's': sets(SPECS_S[:2]),
    'disk': st.booleans(), 'static': st.integers(0, 3).map(lambda n: n == 0),
    'steps': st.lists(st.one_of(
        st.tuples(st.just('add'), st.integers(0, 2), st.integers(0, 1)),
        st.tuples(st.sampled_from(['promote', 'demote', 'revoke']), st.integers(1, 5),
                  st.integers(0, 1)),
        st.tuples(st.just('use'), st.integers(0, 17), MSG)).map(list), min_size=2, max_size=14)}),
    quick=400, thorough=12000)
def changed_elsewhere(case, ctx):
    """Two copies of a set are opened and changed; neither the other copy nor the objects
    that use the set notice."""
    kind = case['kind']
    entries = case['c'] if kind == 'crypt' else case['s']
    if case['static']:
        entries = [[1, 'PRIMARY', entries[0][2]]]
    obj = make(kind, entries, '')
    rd = obj.ks.reader
    if case['static']:
        key = keys.ReadKey(keyinfo.GetType(obj.ks.kind), obj.ks.key_jsons()[1])
        rd = lambda: readers.StaticKeyReader(key, keyinfo.GetPurpose(obj.ks.purpose))
    elif case['disk']:
        path = obj.ks.to_dir(ctx.scratch() + '/set')
        rd = lambda: readers.CreateReader(path)
    copies = [keyczar.GenericKeyczar(rd()) for _ in range(2)]
    models = [{v: s for v, s, _ in obj.ks.entries} for _ in range(2)]
    import tool
    changes = 0
    for s in case['steps']:
        if s[0] == 'use':
            obj.do(op_for(kind, s[1]), s[2])
            continue
        g, m = copies[s[2]], models[s[2]]
        if s[0] == 'add':
            st_ = ['PRIMARY', 'ACTIVE', 'INACTIVE'][s[1]]
            g.AddVersion(keyinfo.GetStatus(st_))
            if st_ == 'PRIMARY':
                for v in m:
                    if m[v] == 'PRIMARY':
                        m[v] = 'ACTIVE'
            m[max(m or [0]) + 1] = st_
            changes += 1
        else:
            sm = tool.SetModel('', '', '')
            sm.versions = {v: [x, None] for v, x in m.items()}
            new = tool.change(sm, s[0], s[1])
            fn = getattr(g, s[0].capitalize())
            if new is None:
                raises(lambda: fn(s[1]))
            else:
                fn(s[1])
                models[s[2]] = new
                changes += 1
        for g, m in zip(copies, models):
            got = {v.version_number: str(v.status) for v in g.versions}
            require(got == m, 'a set holds %s, expected %s', got, m)
        got = {v.version_number: str(v.status) for v in
               (obj.c if kind == 'crypt' else obj.s).versions}
        require(got == {v: x for v, x, _ in obj.ks.entries}, 'the object in use has %s', got)
    for op in range(6):
        obj.do(op_for(kind, op), 'text')
    fresh = keyczar.GenericKeyczar(rd())
    require({v.version_number: str(v.status) for v in fresh.versions} ==
            {v: x for v, x, _ in obj.ks.entries}, 'a set opened afterwards')
    ctx.nontrivial(changes > 0)


# Systematic: every point at which one operation can be interrupted by another one.

KINDS = {'aes': ('crypt', [[1, 'PRIMARY', SPECS_C[0]], [2, 'ACTIVE', SPECS_C[2]]]),
         'rsac': ('crypt', [[1, 'PRIMARY', SPECS_C[3]], [2, 'ACTIVE', SPECS_C[4]]]),
         'hmac': ('sign', [[1, 'PRIMARY', SPECS_S[0]], [2, 'ACTIVE', SPECS_S[1]]]),
         'dsa': ('sign', [[1, 'PRIMARY', SPECS_S[2]], [2, 'ACTIVE', SPECS_S[3]]]),
         'rsas': ('sign', [[1, 'PRIMARY', SPECS_S[4]], [2, 'ACTIVE', SPECS_S[5]]])}
HUGE_STEP = 10 ** 9


def pairs(tier):
    for kind in sorted(KINDS):
        ops = sorted(set(OPS[KINDS[kind][0]]))
        for a in ops:
            for b in ops:
                if kind == 'rsac' and 'sess' in (a, b):
                    continue
                if tier == 'quick' and kind in ('dsa', 'rsas', 'rsac') and b not in (
                        'sign', 'ver', 'enc', 'dec'):
                    continue
                yield {'kind': kind, 'a': a, 'b': b, 'back': 0}
                if tier == 'thorough':
                    for back in (3, 9, 27):
                        yield {'kind': kind, 'a': a, 'b': b, 'back': back}
                    yield {'kind': kind, 'a': a, 'b': b, 'back': 0, 'opcodes': True}


@R.enum(pairs, shards=8)
def every_preemption(case, ctx):
    """Operation a on an object is interrupted after every line by operation b on the same
    object in another thread (to its end, or for `back` lines)."""
    kind, entries = KINDS[case['kind']]
    obj = make(kind, entries, '')
    k = 1
    points = 0
    opcodes = case.get('opcodes', False)
    while True:
        sched_ = [[0, k], [0, case['back'] or HUGE_STEP], [0, HUGE_STEP]]
        s = sched.Scheduler(sched_, opcodes)

        def go(op, msg):
            return lambda: obj.do(op, msg)
        try:
            s.run([go(case['a'], 'the first message'), go(case['b'], 'another one, longer')])
        except Violation as e:
            raise Violation('interrupted after %d steps: %s' % (k, e))
        except KeyczarError as e:
            raise Violation('interrupted after %d steps: %r' % (k, e))
        if not s.switches or s.free:
            break
        points += 1
        k += 1 if not opcodes else 3
        require(k < 20000, 'the operation does not end')
    ctx.label(case['kind'])
    ctx.nontrivial(points > 2)
