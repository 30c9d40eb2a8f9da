"""Sources and sinks that follow a generated schedule, and strategies for them."""
from hypothesis import strategies as st

from harness import Violation, require, short

PAUSE, BLOCK = 0, -1          # entries of a schedule that give no data this time


class Source(object):
    """A file-like source: each read follows the next entry of the schedule: at most that
    many characters, or no data for now.  After the schedule it repeats its last positive
    entry, or gives all it is asked for."""

    def __init__(self, data, schedule=(), block_errors=False):
        self.data, self.schedule, self.pos, self.i = data, list(schedule), 0, 0
        self.block_errors = block_errors
        self.ends = 0
        last = [k for k in self.schedule if k > 0]
        self.rest = last[-1] if last else None

    def read(self, size=-1):
        if self.i < len(self.schedule) and not self.ends:
            k = self.schedule[self.i]
            self.i += 1
            if k == BLOCK and self.block_errors:
                raise BlockingIOError()
            if k <= 0:
                return None
        else:
            k = self.rest
        n = len(self.data) - self.pos
        if size is not None and size >= 0:
            n = min(n, size)
        if k is not None:
            n = min(n, k)
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        if not r and size != 0:
            self.ends += 1
            if self.ends > 200000:
                raise Violation('reads on and on after the end of the source')
        return r

    def close(self):
        pass


class Sink(object):
    def __init__(self):
        self.parts = []
        self.flushes = 0
        self.closed = False

    def write(self, data):
        require(not self.closed, 'write to a closed sink')
        require(isinstance(data, str), 'the sink was given %s', short(data))
        self.parts.append(data)
        return len(data)

    def flush(self):
        require(not self.closed, 'flush of a closed sink')
        self.flushes += 1

    def close(self):
        self.closed = True

    @property
    def data(self):
        return ''.join(self.parts)


def pieces(data, cuts):
    """data in pieces of the sizes in cuts, repeated."""
    out, i, k = [], 0, 0
    cuts = cuts or [len(data)]
    empty = 0
    while i < len(data):
        n = cuts[k % len(cuts)]
        k += 1
        if n <= 0:
            empty += 1
            if empty > 20:
                n = len(data)
            else:
                out.append('')
                continue
        out.append(data[i:i + n])
        i += n
    return out


def drain(read, total, sizes, extra=0):
    """Reads to the end with the given sizes in turn; (text, how often nothing came).
    An answer '' to a request for at least one character is the end."""
    out = []
    got = 0
    nothing = 0
    limit = 60 + extra + 8 * total + 8 * len(sizes)
    sizes = sizes if any(sizes) else [-1]
    i = 0
    while True:
        n = sizes[i % len(sizes)]
        i += 1
        r = read(n)
        if r is None:
            nothing += 1
        else:
            if not isinstance(r, str):
                raise Violation('read returned %s' % short(r))
            require(n < 0 or len(r) <= n, 'asked for %d characters, got %d', n, len(r))
            if r == '' and n != 0:
                return ''.join(out), nothing
            out.append(r)
            got += len(r)
        require(i < limit, 'no end after %d reads (%d of %d characters)', i, got, total)
        if got > total + 1000:
            raise Violation('more than the message: %s' % short(''.join(out)))


# sizes of pieces: small ones, block edges, large
SIZE = st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 3, 4, 5, 15, 16, 17, 20, 21, 41, 64]),
                 st.integers(41, 5000))
CUTS = st.lists(st.one_of(SIZE, SIZE, st.just(0)), max_size=6)
SCHEDULE = st.lists(st.one_of(SIZE, st.sampled_from([PAUSE, BLOCK])), max_size=12)
# read sizes: also far more than there is
FAR = st.sampled_from([8192, 65535, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 40])
READS = st.lists(st.one_of(SIZE, SIZE, SIZE, st.just(-1), st.just(0), FAR), min_size=1, max_size=6)
BUFFER = st.one_of(st.just(4096), st.sampled_from([-1, 0, 1, 15, 16, 17, 20, 64, 1000]),
                   st.integers(-1, 200), st.sampled_from([8192, 65536, 2 ** 20]))
