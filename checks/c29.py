"""C29: the choice of crypto library does not change results."""
from hypothesis import strategies as st

import gens
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are AES key sets, messages and chunkings, each run with both libraries active and '
          'the same random source. Non-trivial: both libraries were used and the message is not '
          'empty, or the data was altered.')
R.assumptions = ['PyCrypto\'s own AES module cannot be imported on this Python, so the PyCrypto side '
                 'runs on a pure-Python AES-CBC with the same interface.']

SETS = gens.entries(gens.aes_spec(), max_size=2)
LIBS = ['pycrypto', 'm2crypto']
NAMES = st.tuples(st.sampled_from(['pycrypto', 'PyCrypto', 'PYCRYPTO']),
                  st.sampled_from(['m2crypto', 'M2Crypto', 'M2CRYPTO'])).map(list)


class Active(object):
    def __init__(self, lib):
        self.lib = lib

    def __enter__(self):
        self.saved = keys.ACTIVE_CRYPT_LIB
        keys.ACTIVE_CRYPT_LIB = self.lib

    def __exit__(self, *exc):
        keys.ACTIVE_CRYPT_LIB = self.saved


def same_random(seed='x'):
    env.set_urandom(env.Drbg(seed).read)


def stream_out(c, msg, cuts):
    sink = streams.Sink()
    w = c.CreateEncryptingStreamWriter(sink, encoder=None)
    for p in streams.pieces(msg, cuts):
        w.write(p)
    w.flush()
    return sink.data


def stream_in(c, blob, total, case):
    src = streams.Source(blob, case['schedule'])
    r = c.CreateDecryptingStreamReader(src, decoder=None)
    return streams.drain(r.read, total, case['reads'], extra=len(case['schedule']) + len(blob))[0]


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'msg': gens.messages(2500), 'cuts': streams.CUTS, 'schedule': streams.SCHEDULE,
    'reads': streams.READS, 'names': NAMES}), quick=1200, thorough=40000)
def same_bytes(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    msg = case['msg']
    outs = []
    for lib in case['names']:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            same_random()
            one = c.Encrypt(msg, encoder=None)
            same_random()
            many = stream_out(c, msg, case['cuts'])
            outs += [one, many]
    require(len(set(outs)) == 1, 'the libraries give different bytes: %s',
            short([B(o).hex() for o in outs]))
    try:
        require(ks.primary.decrypt(B(outs[0])) == B(msg), 'the reference reads another message')
    except ref.RefError as e:
        raise Violation('the reference refuses it: %s' % e)
    for lib in case['names']:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            x = c.Decrypt(outs[0], decoder=None)
            require(x == msg, '%s decrypts to %s', lib, short(x))
            x = stream_in(c, outs[0], len(msg), case)
            require(x == msg, '%s reads %s', lib, short(x))
    ctx.label('key of %d bits' % (8 * len(ks.primary.key)))
    ctx.nontrivial(len(msg) > 0)


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'msg': gens.messages(300), 'muts': st.lists(gens.mutations(), min_size=1,
                                                                 max_size=2),
    'resign': st.booleans(), 'schedule': streams.SCHEDULE, 'reads': streams.READS}),
    quick=1500, thorough=40000)
def same_refusals(case, ctx):
    """Altered data, also with a MAC that fits the alteration."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    key = ks.primary
    b = key.encrypt(B(case['msg']), bytes(range(16)))
    if case['resign']:
        b = b[:-20]
        head, rest = b[:5], b[5:]
        for m in case['muts']:
            rest = gens.mutate(rest, m)
        b = head + rest
        b += ref.HmacKey(key.mac).sign(b)
    else:
        for m in case['muts']:
            b = gens.mutate(b, m)
    seen = []
    for lib in LIBS:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            one = outcome(lambda: c.Decrypt(S(b), decoder=None))
            many = outcome(lambda: stream_in(c, S(b), len(b), case))
            seen.append([x if x[0] == 'ok' else ('error', type(x[1]).__name__)
                         for x in (one, many)])
    require(seen[0] == seen[1], 'the libraries differ: %s', short(seen))
    ctx.label('resigned' if case['resign'] else 'altered', seen[0][0][0])
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'ops': st.lists(st.tuples(
        st.sampled_from(['enc', 'dec', 'stream', 'read', 'switch', 'session']), gens.bstr(0, 70)
    ).map(list), min_size=2, max_size=14)}), quick=500, thorough=12000)
def switching(case, ctx):
    """One object, with the library switched between the calls."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    lib = 0
    blobs = []
    with Active(LIBS[0]):
        for op, msg in case['ops']:
            if op == 'switch':
                lib = 1 - lib
                keys.ACTIVE_CRYPT_LIB = LIBS[lib]
            elif op == 'enc':
                blobs.append((msg, c.Encrypt(msg, encoder=None)))
            elif op == 'stream':
                blobs.append((msg, stream_out(c, msg, [7])))
            elif op == 'session':
                s = keyczar.SessionEncrypter(c)
                t = s.Encrypt(msg)
                keys.ACTIVE_CRYPT_LIB = LIBS[1 - lib]
                x = keyczar.SessionDecrypter(c, s.session_material).Decrypt(t)
                keys.ACTIVE_CRYPT_LIB = LIBS[lib]
                require(x == msg, 'the session decrypts to %s', short(x))
            else:
                for m, b in blobs:
                    x = (c.Decrypt(b, decoder=None) if op == 'dec' else
                         stream_in(c, b, len(m), {'schedule': [], 'reads': [11]}))
                    require(x == m, 'decrypts to %s', short(x))
        for l in LIBS:
            keys.ACTIVE_CRYPT_LIB = l
            for m, b in blobs:
                require(c.Decrypt(b, decoder=None) == m, 'decrypts to something else')
    ctx.nontrivial(len(blobs) > 0)


def lengths(tier):
    for n in range(0, 50 if tier == 'quick' else 300):
        for size in (16, 24, 32):
            yield {'n': n, 'size': size}


@R.enum(lengths)
def every_length(case, ctx):
    n = case['n']
    ks = single(ref.AesKey(b'k' * case['size'], b'h' * 32), CRYPT)
    msg = S(bytes(i * 5 % 256 for i in range(n)))
    outs = set()
    for lib in LIBS:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            for cuts in (None, [1], [16], [5, 16]):
                same_random()
                outs.add(c.Encrypt(msg, encoder=None) if cuts is None else stream_out(c, msg, cuts))
    require(len(outs) == 1, 'different bytes')
    blob = outs.pop()
    for lib in LIBS:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            require(c.Decrypt(blob, decoder=None) == msg, '%s decrypts to something else', lib)
            require(stream_in(c, blob, n, {'schedule': [3], 'reads': [5]}) == msg, '%s', lib)
    ctx.nontrivial(n > 0)


@R.enum(lambda tier: [{'n': n, 'size': s} for s in (16, 32) for n in
                      ([4095, 4096, 4097, 8192, 8193, 16400] + ([] if s == 32 else [65537])
                       if tier == 'quick' else LARGE)])
def large(case, ctx):
    n = case['n']
    ks = single(ref.AesKey(b'k' * case['size'], b'h' * 32), CRYPT)
    msg = big(n)
    outs = set()
    for lib in LIBS:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            for cuts in (None, [], [4096], [1000, 7001]):
                same_random()
                outs.add(c.Encrypt(msg, encoder=None) if cuts is None else stream_out(c, msg, cuts))
    require(len(outs) == 1, 'different bytes')
    blob = outs.pop()
    for lib in LIBS:
        with Active(lib):
            c = keyczar.Crypter(ks.reader())
            require(c.Decrypt(blob, decoder=None) == msg, '%s decrypts to something else', lib)
            for sched, reads in (([], [-1]), ([], [8192]), ([5000, 0, 10000], [3001])):
                require(stream_in(c, blob, n, {'schedule': sched, 'reads': reads}) == msg, '%s', lib)
    ctx.nontrivial()
