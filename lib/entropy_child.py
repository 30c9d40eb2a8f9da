"""Run as a program of its own: counts what is drawn from the operating system's random source
while secrets are made, and prints [bytes drawn, bytes of secrets, other sources opened]."""
import builtins
import io
import json
import os
import sys

drawn = [0]
other = [0]
_urandom, _open, _os_open = os.urandom, builtins.open, os.open


def urandom(n):
    drawn[0] += n
    return _urandom(n)


def getrandom(n, *flags):
    drawn[0] += n
    return _getrandom(n, *flags)


def opened(name):
    if name in ('/dev/urandom', '/dev/random'):
        other[0] += 1


def open_(file, *args, **kw):
    opened(file)
    return _open(file, *args, **kw)


def os_open(file, *args, **kw):
    opened(file)
    return _os_open(file, *args, **kw)


os.urandom = urandom
if hasattr(os, 'getrandom'):
    _getrandom = os.getrandom
    os.getrandom = getrandom
builtins.open = io.open = open_
os.open = os_open
if 'random' in sys.modules:
    sys.modules['random']._urandom = urandom


def main(kind, reuse, n):
    import random
    random._urandom = urandom
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, os.path.join(os.path.dirname(here), 'checks')]
    try:                                    # OpenSSL's own generator is not counted
        from M2Crypto import Rand

        def rand_bytes(*args):
            other[0] += 1
            return _rand_bytes(*args)
        _rand_bytes = Rand.rand_bytes
        Rand.rand_bytes = rand_bytes
    except (ImportError, AttributeError):
        pass
    import env
    import c28
    m = c28.Maker(kind, reuse)
    need = 0
    for _ in range(n):
        for s in m.one()[0]:
            need += len(s) - (kind == 'dsa number')     # the range is no whole number of bytes
    sys.stdout.write('\n' + json.dumps([drawn[0], need, other[0]]) + '\n')


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2] == 'True', int(sys.argv[3]))
