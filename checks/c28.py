"""C28: every secret is fresh and full-strength."""
import json
import os
import random
import subprocess
import sys
import time

from hypothesis import strategies as st

import env
import gens
import keypool
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are a kind of secret, how it comes about (one object or many, seeded generators and '
          'frozen clocks or not) and how often; the secrets are recovered with the reference keys. '
          'Judged: no repeats, no 8-byte part repeats, none occurs in an earlier output, full rank '
          'of the bits over GF(2), and forked processes differ. Non-trivial: all.')
R.assumptions = ['The statistical oracles raise a false alarm with a probability below 2^-50 per '
                 'case, and see less than about 24 bits of entropy.']

AES = ref.AesKey(b'\x11' * 16, b'\x22' * 32)
RSA = keypool.rsa(keypool.RSA_BY_SIZE[512][0])
DSA = keypool.dsa(0)
SESSION_RSA = keypool.rsa(keypool.RSA_BY_SIZE[2048][0])


class Maker(object):
    """Makes secrets of one kind; one() returns (secrets as bytes, output as text)."""

    def __init__(self, kind, reuse):
        self.kind, self.reuse = kind, reuse
        self.objects = {}
        self.i = 0

    def get(self, name, fn):
        if not self.reuse:
            return fn()
        if name not in self.objects:
            self.objects[name] = fn()
        return self.objects[name]

    def one(self):
        self.i += 1
        return getattr(self, self.kind.replace(' ', '_'))()

    def aes_iv(self):
        c = self.get('c', lambda: keyczar.Crypter(single(AES, CRYPT).reader()))
        out = B(c.Encrypt('same message', encoder=None))
        return [out[5:21]], out

    def stream_iv(self):
        c = self.get('c', lambda: keyczar.Crypter(single(AES, CRYPT).reader()))
        sink = streams.Sink()
        w = c.CreateEncryptingStreamWriter(sink, encoder=None)
        w.write('same message')
        w.flush()
        out = B(sink.data)
        return [out[5:21]], out

    def rsa_seed(self):
        c = self.get('c', lambda: keyczar.Encrypter(single(RSA, ENCRYPT, public=True).reader()))
        out = B(c.Encrypt('same message', encoder=None))
        em = RSA.power(int.from_bytes(out[5:], 'big')).to_bytes(RSA.k, 'big')
        return [ref.xor(em[1:21], ref.mgf1(em[21:], 20))], out

    def dsa_number(self):
        c = self.get('c', lambda: keyczar.Signer(single(DSA, SIGN).reader()))
        out = ref.b64d(c.Sign('same message'))
        r, s = DSA.parse(out[5:])
        h = int.from_bytes(ref.sha1(b'same message' + b'\0'), 'big')
        k = (h + DSA.x * r) * pow(s, -1, DSA.q) % DSA.q
        require(pow(DSA.g, k, DSA.p) % DSA.q == r, 'not a signature')
        return [k.to_bytes(20, 'big')], out

    def _key(self, kind):
        text = str(keys.GenKey(kind))
        d = json.loads(text)
        if 'aesKeyString' in d:
            return [ref.b64d(d['aesKeyString']), ref.b64d(d['hmacKey']['hmacKeyString'])], text
        return [ref.b64d(d['hmacKeyString'])], text

    def aes_key(self):
        return self._key(keyinfo.AES)

    def hmac_key(self):
        return self._key(keyinfo.HMAC_SHA1)

    def rsa_pair(self):
        k = ref.parse_key('RSA_PRIV', str(keys.GenKey(keyinfo.RSA_PRIV, 1024)))
        return [b'p' * 60, b'q' * 60], ''      # only their number counts

    def dsa_pair(self):
        k = ref.parse_key('DSA_PRIV', str(keys.GenKey(keyinfo.DSA_PRIV, 1024)))
        return [b'x' * 19, b'q' * 18], ''

    def set_key(self):
        """Keys added to a key set."""
        meta = keydata.KeyMetadata('x', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
        g = self.get('g', lambda: keyczar.GenericKeyczar(DictReader(str(meta), {})))
        if self.i % 8 == 0:                    # sets do not grow without bound
            self.objects.pop('g', None)
        g.AddVersion(keyinfo.PRIMARY)
        w = DictWriter()
        g.Write(w)
        text = w.key_jsons[max(w.key_jsons)]
        k = ref.parse_key('AES', text)
        return [k.key, k.mac], text

    def session(self):
        c = self.get('c', lambda: keyczar.Crypter(single(AES, CRYPT).reader()))
        s = keyczar.SessionEncrypter(c)
        b = AES.decrypt(ref.b64d(s.session_material))
        out = ref.b64d(s.Encrypt('same message'))
        return [b[8:24], b[28:60], out[5:21], ref.b64d(s.session_material)[5:21]], s.session_material

    def signed_session(self):
        c = self.get('c', lambda: keyczar.Crypter(single(AES, CRYPT).reader()))
        h = self.get('s', lambda: keyczar.Signer(single(ref.HmacKey(b's' * 32), SIGN).reader()))
        s = keyczar.SignedSessionEncrypter(c, h)
        d = json.loads(AES.decrypt(ref.b64d(s.session_material)).decode('latin-1'))
        k = ref.parse_key('AES', json.dumps(d['key']))
        out = ref.b64d(s.Encrypt('same message'))
        require(len(ref.b64d(d['nonce'])) >= 16, 'a nonce of %d bytes', len(ref.b64d(d['nonce'])))
        return [k.key, k.mac, ref.b64d(d['nonce']), out[9 + 5:9 + 21],
                ref.b64d(s.session_material)[5:21]], s.session_material


KINDS = ['aes iv', 'stream iv', 'rsa seed', 'dsa number', 'aes key', 'hmac key', 'set key', 'session',
         'signed session']


class Frozen(object):
    """Ordinary sources of "randomness" stand still."""

    def __init__(self, on):
        self.on = on
        self.saved = None

    def __enter__(self):
        self.saved = (time.time, time.time_ns, time.perf_counter, time.monotonic, os.getpid)
        if self.on:
            time.time = lambda: 1500000000.0
            time.time_ns = lambda: 1500000000 * 10 ** 9
            time.perf_counter = time.monotonic = lambda: 1000.0
            os.getpid = lambda: 4242
        self.state = random.getstate()
        return self

    def step(self):
        if self.on:
            random.seed(7)

    def __exit__(self, *exc):
        time.time, time.time_ns, time.perf_counter, time.monotonic, os.getpid = self.saved
        random.setstate(self.state)


def rank(vectors):
    basis = {}
    for v in vectors:
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = v
                break
            v ^= basis[h]
    return len(basis)


def judge_bits(name, values):
    """The values (byte strings of one length) have full rank with the constant 1."""
    n = 8 * len(values[0])
    vs = [int.from_bytes(v, 'big') << 1 | 1 for v in values]
    require(len(vs) >= n + 60, 'too few samples')
    r = rank(vs)
    require(r == n + 1, '%s: the bits are not independent (rank %d of %d)', name, r, n + 1)


def judge_repeats(name, values, outputs=()):
    seen = set()
    for v in values:
        parts = set(v[i:i + 8] for i in range(0, len(v) - 7, 8))
        require(len(parts) == len(v) // 8, '%s: a value repeats itself: %s', name, v.hex())
        require(not parts & seen, '%s: a value or part of it is used again: %s', name, v.hex())
        seen |= parts


def situations(tier):
    for again in range(1 if tier == 'quick' else 12):
        for kind in KINDS:
            for reuse in (True, False):
                for frozen in (True, False):
                    yield {'kind': kind, 'reuse': reuse, 'frozen': frozen, 'again': again}


@R.enum(situations, real_random=True, shards=4)
def full_strength(case, ctx):
    m = Maker(case['kind'], case['reuse'])
    columns = None
    outputs = []
    with Frozen(case['frozen']) as f:
        for i in range(330):
            f.step()
            secrets, out = m.one()
            out = out if isinstance(out, bytes) else out.encode('latin-1')
            earlier = outputs[-3:]
            for s in secrets:
                require(not any(s in o for o in earlier), 'a secret occurs in an earlier output')
            outputs.append(out)
            if columns is None:
                columns = [[] for _ in secrets]
            for c, s in zip(columns, secrets):
                c.append(s)
    require(len(set(outputs)) == len(outputs), 'an output repeats')
    for i, c in enumerate(columns):
        name = '%s, part %d' % (case['kind'], i)
        judge_bits(name, c)
    judge_repeats(case['kind'], [v for c in columns for v in c])
    if case['kind'] == 'dsa number':
        high = sum(int.from_bytes(v, 'big') > DSA.q // 2 for v in columns[0])
        require(80 < high < 250, 'the secret numbers are not spread evenly: %d of 330', high)
    ctx.label(case['kind'])
    ctx.nontrivial()


@R.enum(lambda tier: [{'kind': k, 'reuse': r, 'n': 400 if tier == 'quick' else 4000} for k in KINDS
                      for r in (True, False)] + [
                          {'kind': k, 'reuse': False, 'n': 2 if tier == 'quick' else 20}
                          for k in ('rsa pair', 'dsa pair')], real_random=True, shards=4)
def drawn_from_the_system(case, ctx):
    """In a process of its own, at least as many random bytes come from the operating system as
    the secrets have, so none is stretched from a shorter one."""
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, 'lib', 'entropy_child.py'),
                        case['kind'], str(case['reuse']), str(case['n'])], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, cwd=ctx.scratch())
    require(p.returncode == 0, 'making secrets fails: %s', p.stderr[-600:])
    drawn, need, other = json.loads(p.stdout.splitlines()[-1])
    require(other or drawn >= need, '%d bytes of secrets come from %d random bytes', need, drawn)
    ctx.label(case['kind'])
    ctx.nontrivial()


def many(tier):
    for kind in ('aes iv', 'stream iv', 'hmac key', 'aes key'):
        for reuse in (True,) if tier == 'quick' else (True, False):
            yield {'kind': kind, 'reuse': reuse, 'n': 12000 if tier == 'quick' else 150000}


@R.enum(many, real_random=True)
def no_repeats_in_many(case, ctx):
    m = Maker(case['kind'], case['reuse'])
    values = []
    for i in range(case['n']):
        values += m.one()[0]
    judge_repeats(case['kind'], values)
    ctx.label(case['kind'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'before': st.integers(0, 3), 'frozen': st.booleans()}),
    quick=150, thorough=2000, real_random=True)
def forked_processes_differ(case, ctx):
    """Two processes that continue from one state, also at the same (frozen) time."""
    m = Maker(case['kind'], True)
    with Frozen(case['frozen']) as f:
        for _ in range(case['before']):
            m.one()
        seen = []
        for _ in range(2):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    f.step()
                    out = [s.hex() for _ in range(2) for s in m.one()[0]]
                    os.write(w, json.dumps(out).encode())
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, 'rb') as p:
                data = p.read()
            os.waitpid(pid, 0)
            require(data, 'the child failed')
            seen.append(json.loads(data))
        mine = [s.hex() for s in m.one()[0]]
    both = seen[0] + seen[1] + mine
    require(len(set(both)) == len(both), 'forked processes share a secret: %s', short(both))
    ctx.label(case['kind'])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({'order': st.lists(st.sampled_from(KINDS), min_size=20, max_size=60),
                               'frozen': st.booleans(), 'reuse': st.booleans()}),
        quick=60, thorough=1500, real_random=True)
def mixed_histories(case, ctx):
    """No secret of any kind turns up again as one of another kind."""
    makers = {k: Maker(k, case['reuse']) for k in KINDS}
    values, outputs = [], []
    with Frozen(case['frozen']) as f:
        for k in case['order']:
            f.step()
            secrets, out = makers[k].one()
            out = out if isinstance(out, bytes) else out.encode('latin-1')
            for s in secrets:
                require(not any(s in o for o in outputs), 'a secret occurs in an earlier output')
            values += secrets
            outputs.append(out)
    judge_repeats('mixed', values)
    ctx.nontrivial(len(set(case['order'])) > 1)


@R.prop(st.fixed_dictionaries({'kind': st.sampled_from(['RSA', 'DSA']), 'frozen': st.booleans()}),
        quick=4, thorough=30, real_random=True, min_shard=1)
def generated_key_pairs(case, ctx):
    """Freshly generated RSA and DSA keys share nothing."""
    import math
    nums = []
    kind = keyinfo.RSA_PRIV if case['kind'] == 'RSA' else keyinfo.DSA_PRIV
    with Frozen(case['frozen']) as f:
        for _ in range(6):
            f.step()
            d = json.loads(str(keys.GenKey(kind, 1024)))
            k = ref.parse_key(case['kind'] + '_PRIV', json.dumps(d))
            nums.append(k)
    if case['kind'] == 'RSA':
        primes = [x for k in nums for x in (k.p, k.q)]
        require(len(set(primes)) == len(primes), 'keys share a prime')
        require(all(math.gcd(a.n, b.n) == 1 for a in nums for b in nums if a is not b),
                'moduli share a factor')
        for i, a in enumerate(primes):
            for b in primes[:i]:
                require(abs(a - b).bit_length() > 380, 'two primes are close')
    else:
        for name in ('p', 'q', 'x', 'y'):
            vals = [getattr(k, name) for k in nums]
            require(len(set(vals)) == len(vals), 'keys share %s', name)
        require(max(k.x.bit_length() for k in nums) > 140, 'small private numbers')
    ctx.label(case['kind'])
    ctx.nontrivial()


@R.enum(lambda tier: [{'n': n, 'frozen': f} for n in [1, 2, 7, 8, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65,
                                                      100, 128, 255, 256, 257, 512, 1024, 4096, 65536]
                      for f in (True, False)], real_random=True)
def random_strings(case, ctx):
    """The random strings themselves, of every length."""
    n = case['n']
    with Frozen(case['frozen']) as f:
        f.step()
        many = [B(util.RandBytes(n)) for _ in range(max(3, 600 // n))]
        f.step()
        many.append(B(util.RandBytes(n)))
    require(all(len(x) == n for x in many), 'lengths %s', sorted(set(map(len, many))))
    if n >= 8:
        judge_repeats('%d random bytes' % n, many)
    whole = b''.join(many)
    require(len(set(whole)) > 100, 'only %d of 256 byte values occur', len(set(whole)))
    vs = [int.from_bytes(whole[i:i + 4], 'big') << 1 | 1 for i in range(0, len(whole) - 3, 4)]
    require(rank(vs) == 33, 'the bits are not independent')
    ctx.nontrivial()
