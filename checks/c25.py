"""C25: streaming Base64 equals one-shot Base64."""
from hypothesis import strategies as st

import gens
import streams
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are byte strings, how they are cut, how the source delivers (sizes, pauses) and '
          'the read sizes. Non-trivial: at least one byte and at least two pieces or pauses.')


@R.prop(st.fixed_dictionaries({'data': gens.messages(3000), 'cuts': streams.CUTS,
                               'close': st.booleans()}), quick=2000, thorough=60000)
def writer(case, ctx):
    sink = streams.Sink()
    w = util.IncrementalBase64WSStreamWriter(sink)
    ps = streams.pieces(case['data'], case['cuts'])
    for p in ps:
        w.write(p)
        sofar = sink.data
        require(ref.b64e(B(case['data'])).startswith(sofar), 'wrote %s', short(sofar))
    if case['close']:
        w.close()
    else:
        w.flush()
    require(sink.data == ref.b64e(B(case['data'])), 'wrote %s', short(sink.data))
    if not case['close']:
        w.flush()
        require(sink.data == ref.b64e(B(case['data'])), 'a second flush wrote again')
    ctx.label('pieces: %d' % min(len(ps), 3), 'length mod 3: %d' % (len(case['data']) % 3))
    ctx.nontrivial(len(ps) > 1)


@R.prop(st.fixed_dictionaries({
    'data': gens.messages(3000), 'schedule': streams.SCHEDULE, 'reads': streams.READS,
    'how': st.sampled_from(['chars', 'size', 'both'])}), quick=3000, thorough=100000)
def reader(case, ctx):
    """Reads with sizes in `chars` never give more than asked for; `size` is only a hint for
    how much to fetch."""
    data = case['data']
    src = streams.Source(ref.b64e(B(data)), case['schedule'], block_errors=True)
    r = util.IncrementalBase64WSStreamReader(src)
    if case['how'] == 'chars':
        def read(n):
            return r.read(chars=n)
    elif case['how'] == 'both':
        def read(n):
            return r.read(max(n, 1), n)
    else:
        def read(n):
            x = r.read(n)
            return x
    out, nothing = drain_hint(read, len(data), case['reads'], len(case['schedule']),
                              strict=case['how'] != 'size')
    require(out == data, 'reads %s', short(out))
    for _ in range(2):
        x = r.read()
        require(x == '', 'after the end gives %s', short(x))
    ctx.label(case['how'], 'pauses' if nothing else 'no pauses')
    ctx.nontrivial(len(data) > 0 and len(case['schedule']) + len(case['reads']) > 2)


def drain_hint(read, total, sizes, extra, strict):
    if strict:
        return streams.drain(read, total, sizes, extra)
    out, nothing = [], 0
    sizes = sizes if any(sizes) else [-1]
    for i in range(100 + extra + 8 * total + 4 * len(sizes)):
        n = sizes[i % len(sizes)]
        x = read(n)
        if x is None:
            nothing += 1
        elif x == '':
            if n == 0:
                continue
            return ''.join(out), nothing
        else:
            require(isinstance(x, str), 'read returned %s', short(x))
            out.append(x)
    raise Violation('no end; got %s' % short(''.join(out)))


@R.prop(st.fixed_dictionaries({'data': gens.messages(600), 'cuts': streams.CUTS,
                               'final': st.booleans(), 'reset': st.booleans()}),
        quick=2000, thorough=60000)
def incremental_coders(case, ctx):
    data = case['data']
    text = ref.b64e(B(data))
    enc = util.BufferedIncrementalBase64WSEncoder()
    dec = util.BufferedIncrementalBase64WSDecoder()
    if case['reset']:
        enc.encode('x')
        enc.reset()
        dec.decode('A')
        dec.reset()
    for coder, fn, whole, want in ((enc, 'encode', data, text), (dec, 'decode', text, data)):
        got = ''
        ps = streams.pieces(whole, case['cuts'])
        for i, p in enumerate(ps):
            final = case['final'] and i == len(ps) - 1
            x = getattr(coder, fn)(p, final=True) if final else getattr(coder, fn)(p)
            got += x[0]
            require(want.startswith(got), '%s gave %s', fn, short(got))
        got += coder.flush()
        require(got == want, '%s gives %s in all', fn, short(got))
        require(coder.flush() == '', 'a second flush of %s gave something', fn)
    ctx.nontrivial(len(data) > 0 and len(case['cuts']) > 0)


def splits(tier):
    top = 12 if tier == 'quick' else 30
    for n in range(0, top):
        yield {'n': n}


@R.enum(splits)
def every_split(case, ctx):
    """Every split in two, and every pair of delivery and read size."""
    n = case['n']
    data = S(bytes((i * 37 + 250) % 256 for i in range(n)))
    text = ref.b64e(B(data))
    for i in range(n + 1):
        sink = streams.Sink()
        w = util.IncrementalBase64WSStreamWriter(sink)
        w.write(data[:i])
        w.write(data[i:])
        w.flush()
        require(sink.data == text, 'cut at %d: %s', i, short(sink.data))
    for i in range(len(text) + 1):
        for chars in list(range(1, 8)) + [-1]:
            for sched in ([max(i, 1)], [0, max(i, 1)], [max(i, 1), 0, 1], [max(i, 1), -1, -1, 2, 0]):
                r = util.IncrementalBase64WSStreamReader(
                    streams.Source(text, sched, block_errors=True))
                out, _ = streams.drain(lambda k: r.read(chars=k), n, [chars], 10)
                require(out == data, 'delivery %s, chars %d: %s', sched, chars, short(out))
    ctx.nontrivial(n > 0)


@R.enum(lambda tier: [{'len': n + d, 'cut': c} for n in
                      ([5000, 8192, 16384, 65536] if tier == 'quick' else LARGE)
                      for d in (0, 1, 2) for c in (0, 1000, 4096, 8191, 50000)])
def large(case, ctx):
    data = big(case['len'])
    text = ref.b64e(B(data))
    cuts = [case['cut']] if case['cut'] else []
    sink = streams.Sink()
    w = util.IncrementalBase64WSStreamWriter(sink)
    for p in streams.pieces(data, cuts):
        w.write(p)
    w.flush()
    require(sink.data == text, 'wrote %d characters, not %d', len(sink.data), len(text))
    for sched in ([], [case['cut'] or 9999], [3, 0, 10000]):
        for size in (-1, case['cut'] or 7000, 4099):
            r = util.IncrementalBase64WSStreamReader(streams.Source(text, sched, block_errors=True))
            out, _ = streams.drain(lambda k: r.read(chars=k), len(data), [size], 10)
            require(out == data, 'reads %d characters', len(out))
    enc = util.BufferedIncrementalBase64WSEncoder()
    dec = util.BufferedIncrementalBase64WSDecoder()
    for coder, fn, whole, want in ((enc, 'encode', data, text), (dec, 'decode', text, data)):
        got = ''.join([getattr(coder, fn)(p)[0] for p in streams.pieces(whole, cuts)])
        require(got + coder.flush() == want, '%s gives another result', fn)
    ctx.nontrivial()
