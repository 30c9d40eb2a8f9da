"""C22: streaming and one-shot encryption are interchangeable."""
import io

from hypothesis import strategies as st

import gens
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are AES key sets, a message, how it is cut into writes, how the source delivers '
          '(sizes and pauses), the read sizes and the buffer size. Non-trivial: a message of at '
          'least one block, or at least two pieces or pauses.')

SETS = gens.entries(gens.aes_spec(), max_size=3, many=True)
BASE = {'entries': SETS, 'msg': gens.messages(6000), 'b64': st.booleans(), 'cuts': streams.CUTS}
READING = {'schedule': streams.SCHEDULE, 'reads': streams.READS, 'buffer': streams.BUFFER}


def write_stream(enc, msg, cuts, b64, sink=None):
    sink = sink or streams.Sink()
    w = (enc.CreateEncryptingStreamWriter(sink) if b64
         else enc.CreateEncryptingStreamWriter(sink, encoder=None))
    ps = streams.pieces(msg, cuts)
    for p in ps:
        w.write(p)
    w.flush()
    data = sink.data
    w.close()
    require(sink.data == data, 'closing the stream wrote something')
    require(not sink.closed, 'closing the stream closed the sink')
    return data, len(ps)


def reader_of(crypter, blob, case, b64):
    src = streams.Source(blob, case['schedule'])
    kw = {} if case['buffer'] == 4096 else {'buffer_size': case['buffer']}
    if not b64:
        kw['decoder'] = None
    return crypter.CreateDecryptingStreamReader(src, **kw), src


def read_all(crypter, blob, total, case, b64):
    r, src = reader_of(crypter, blob, case, b64)
    out, n = streams.drain(r.read, total, case['reads'], extra=len(case['schedule']) + len(blob))
    for k in (-1, 5):
        more = r.read(k)
        require(more == '', 'after the end the stream gives %s', short(more))
    r.close()
    return out


def meaningful(case):
    return len(case['msg']) >= 16 or len(case.get('cuts', ())) + len(case.get('schedule', ())) > 1


@R.prop(st.fixed_dictionaries(dict(BASE, public=st.booleans())), quick=1200, thorough=40000)
def written_stream_decrypts_in_one_shot(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    enc = (keyczar.Encrypter if case['public'] else keyczar.Crypter)(ks.reader())
    msg = case['msg']
    blob, n = write_stream(enc, msg, case['cuts'], case['b64'])
    raw = ref.b64d(blob) if case['b64'] else B(blob)
    if case['b64']:
        require(ref.b64e(raw) == blob, 'not the Base64 form')
    require(len(raw) == 5 + 16 + 16 * (len(msg) // 16 + 1) + 20, 'length %d', len(raw))
    try:
        require(ks.primary.decrypt(raw) == B(msg), 'the reference reads another message')
    except ref.RefError as e:
        raise Violation('the reference refuses what was written: %s' % e)
    c = keyczar.Crypter(ks.reader())
    out = c.Decrypt(blob) if case['b64'] else c.Decrypt(blob, decoder=None)
    require(out == msg, 'decrypts to %s', short(out))
    ctx.label('pieces: %s' % min(n, 3))
    ctx.nontrivial(meaningful(case))


@R.prop(st.fixed_dictionaries(dict(BASE, ref=st.booleans(), **READING)), quick=1500, thorough=50000)
def ciphertext_decrypts_through_the_stream(case, ctx):
    ks = KeySet.from_case(CRYPT, case['entries'])
    msg = case['msg']
    if case['ref']:
        v = len(msg) % len(ks.entries)
        raw = ks.entries[v][2].encrypt(B(msg), bytes(range(16)))
        blob = ref.b64e(raw) if case['b64'] else S(raw)
    else:
        c = keyczar.Encrypter(ks.reader())
        blob = c.Encrypt(msg) if case['b64'] else c.Encrypt(msg, encoder=None)
    out = read_all(keyczar.Crypter(ks.reader()), blob, len(msg), case, case['b64'])
    require(out == msg, 'reads %s', short(out))
    ctx.label('pauses' if any(k <= 0 for k in case['schedule']) else 'no pauses')
    ctx.nontrivial(meaningful(case))


@R.prop(st.fixed_dictionaries(dict(BASE, turn=st.integers(0, 5), **READING)),
        quick=1200, thorough=40000)
def stream_to_stream(case, ctx):
    """Also with another key primary at the reader."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    msg = case['msg']
    blob, _ = write_stream(keyczar.Crypter(ks.reader()), msg, case['cuts'], case['b64'])
    n = len(ks.entries)
    p = case['turn'] % n
    other = KeySet(CRYPT, [(v, 'PRIMARY' if i == p else 'INACTIVE', k)
                           for i, (v, s, k) in enumerate(ks.entries)])
    out = read_all(keyczar.Crypter(other.reader()), blob, len(msg), case, case['b64'])
    require(out == msg, 'reads %s', short(out))
    ctx.label('another primary' if ks.entries[p][1] != 'PRIMARY' else 'same primary')
    ctx.nontrivial(meaningful(case))


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'b64': st.booleans(),
    'streams': st.lists(st.tuples(gens.messages(300), st.lists(streams.SIZE, min_size=1, max_size=3))
                        .map(list), min_size=2, max_size=4),
    'order': st.lists(st.integers(0, 3), max_size=40)}), quick=600, thorough=20000)
def streams_in_turns(case, ctx):
    """Several streams of one crypter, written and read in turns, with one-shot calls."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    kw = {} if case['b64'] else {'encoder': None}
    n = len(case['streams'])
    sinks = [streams.Sink() for _ in range(n)]
    ws = [c.CreateEncryptingStreamWriter(s, **kw) for s in sinks]
    todo = [streams.pieces(m, cuts) for m, cuts in case['streams']]
    order = [i % n for i in case['order']] + [i for i in range(n) for _ in range(400)]
    for i in order:
        if todo[i]:
            ws[i].write(todo[i].pop(0))
        elif ws[i]:
            ws[i].flush()
            ws[i] = None
            x = c.Decrypt(sinks[i].data, **({} if case['b64'] else {'decoder': None}))
            require(x == case['streams'][i][0], 'decrypts to %s', short(x))
    require(len(set(s.data for s in sinks)) == n, 'two streams are equal')
    kw = {} if case['b64'] else {'decoder': None}
    rs = [c.CreateDecryptingStreamReader(io.StringIO(s.data, newline=''), **kw) for s in sinks]
    got = [''] * n
    done = [False] * n
    for i in order:
        if not done[i]:
            size = case['streams'][i][1][0]
            r = rs[i].read(size)
            if r == '':
                done[i] = True
            elif r is not None:
                require(len(r) <= size, 'asked for %d, got %d', size, len(r))
                got[i] += r
    require(all(done), 'a stream does not end')
    require(got == [m for m, _ in case['streams']], 'reads %s', short(got))
    ctx.nontrivial()


def small(tier):
    top = 70 if tier == 'quick' else 200
    for n in range(0, top):
        for step in (1, 3, 7, 16, 17, 37) if tier == 'quick' else range(1, 50):
            yield {'n': n, 'step': step}


@R.enum(small)
def every_length(case, ctx):
    """Every length around the block size, each with writes, deliveries and reads of a size."""
    ks = single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT)
    c = keyczar.Crypter(ks.reader())
    n, step = case['n'], case['step']
    msg = S(bytes((i * 7) % 256 for i in range(n)))
    for b64 in (True, False):
        blob, _ = write_stream(c, msg, [step], b64)
        x = c.Decrypt(blob) if b64 else c.Decrypt(blob, decoder=None)
        require(x == msg, 'one-shot: %s', short(x))
        for sched in ([], [step], [0, step], [step, 0, 0]):
            out = read_all(c, blob, n, {'schedule': sched, 'reads': [step], 'buffer': 4096}, b64)
            require(out == msg, 'stream: %s', short(out))
    ctx.nontrivial(n > 0)


@R.prop(st.fixed_dictionaries({
    'entries': SETS, 'msg': gens.bstr(0, 60), 'cuts': streams.CUTS, 'b64': st.booleans(),
    'reads': streams.READS}), quick=250, thorough=5000)
def real_files_and_closed_streams(case, ctx):
    """Files as source and sink; a closed stream is refused with ValueError."""
    ks = KeySet.from_case(CRYPT, case['entries'])
    c = keyczar.Crypter(ks.reader())
    path = os.path.join(ctx.scratch(), 'f')
    with open(path, 'w', encoding='latin-1', newline='') as f:
        blob, _ = write_stream_to(c, case, f)
    with open(path, encoding='latin-1', newline='') as f:
        r = (c.CreateDecryptingStreamReader(f) if case['b64']
             else c.CreateDecryptingStreamReader(f, decoder=None))
        out, _ = streams.drain(r.read, len(case['msg']), case['reads'])
        require(out == case['msg'], 'reads %s', short(out))
        r.close()
        raises(lambda: r.read(), ValueError)
    ctx.nontrivial(len(case['msg']) > 0)


def write_stream_to(c, case, f):
    w = (c.CreateEncryptingStreamWriter(f) if case['b64']
         else c.CreateEncryptingStreamWriter(f, encoder=None))
    ps = streams.pieces(case['msg'], case['cuts'])
    for p in ps:
        w.write(p)
    w.flush()
    w.close()
    raises(lambda: w.write('x'), ValueError)
    raises(lambda: w.flush(), ValueError)
    return None, len(ps)


ENDS = ['\n', '\r\n', '\0', ' ', '\x01', '\x10' * 16, '=', 'A\n\n', '\0' * 16, '\xff']


@R.enum(shards=4, cases=lambda tier: [{'len': n, 'cut': c, 'read': r, 'b64': b} for n in
                      ([8191, 8192, 8193, 10007, 16384, 20000, 32768, 65537, 100003] if tier == 'quick'
                       else LARGE + HUGE)
                      for c, r in ((0, -1), (4096, 4096), (1000, 8192), (7777, 333), (8192, 5000),
                                   (65536, 70000), (0, 65536), (30000, 2 ** 40)) for b in (True, False)])
def large(case, ctx):
    """Long messages, in one write or in large and uneven ones."""
    ks = single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT)
    c = keyczar.Crypter(ks.reader())
    msg = big(case['len'])
    b64 = case['b64']
    blob, _ = write_stream(c, msg, [case['cut']] if case['cut'] else [], b64)
    x = c.Decrypt(blob) if b64 else c.Decrypt(blob, decoder=None)
    require(x == msg, 'one-shot: %d characters', len(x))
    blob2 = c.Encrypt(msg) if b64 else c.Encrypt(msg, encoder=None)
    for end in ENDS[:3] if case['cut'] else ENDS:
        m = msg[:-len(end)] + end
        t, _ = write_stream(c, m, [case['cut']] if case['cut'] else [], b64)
        x = c.Decrypt(t) if b64 else c.Decrypt(t, decoder=None)
        require(x == m, 'one-shot of a message that ends in %s', short(end))
    for t in (blob, blob2):
        for sched, buf in (([], 4096), ([5000, 0, 9000], 4096), ([], -1), ([], 70000), ([16384], 16384)):
            out = read_all(c, t, len(msg), {'schedule': sched, 'reads': [case['read']],
                                            'buffer': buf}, b64)
            require(out == msg, 'stream: %d characters', len(out))
    ctx.nontrivial()


@R.enum(lambda tier: [{'len': n, 'read': r} for n in (70000, 100003) for r in (60000, 65535, 65536, 66001)])
def reads_that_ask_for_nothing(case, ctx):
    """Whatever a reader holds back, it hands out no more of it than asked for."""
    c = keyczar.Crypter(single(ref.AesKey(b'k' * 16, b'h' * 32), CRYPT).reader())
    msg = big(case['len'])
    rd = c.CreateDecryptingStreamReader(io.StringIO(c.Encrypt(msg, None), newline=''), decoder=None)
    for _ in range(case['len'] // 16 + 9):
        require(not rd.read(0), 'read(0) returned something')
    out = ''
    for _ in range(case['len']):
        r = rd.read(case['read'])
        require(r is None or len(r) <= case['read'], 'asked for %d, got %s', case['read'],
                r and len(r))
        if r == '':
            break
        out += r or ''
    require(out == msg, 'read %d characters', len(out))
    ctx.nontrivial()
