"""Keeps what the code under test does to files inside of the scratch directory.

An audit hook refuses, while a case runs, to remove, rename, truncate or write
files elsewhere, whatever the code under test (or a change to it) asks for.
"""
import os
import sys
import tempfile

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
# event -> positions of paths
PATHS = {'os.remove': (0,), 'os.rmdir': (0,), 'os.rename': (0, 1), 'os.truncate': (0,),
         'os.mkdir': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'os.link': (1,),
         'os.symlink': (1,), 'os.utime': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1)}
state = {'active': False, 'error': None, 'installed': False}


def roots():
    r = [os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()]
    return [os.path.realpath(p) for p in r] + ['/dev/null', '/dev/shm', '/dev/fd', '/dev/tty']


def inside(path):
    try:
        path = os.fsdecode(path)
    except TypeError:
        return True              # a file descriptor, or nonsense that the call will refuse
    path = os.path.abspath(path)
    real = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
    return any(real == r or real.startswith(r + '/') for r in state['roots'])


def hook(event, args):
    if not state['active']:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(flags, int) or not flags & WRITE or isinstance(path, int):
            return
        bad = None if inside(path) else path
    elif event in PATHS:
        if event in ('os.remove', 'os.rmdir', 'os.mkdir') and args[-1] not in (-1, None):
            return               # relative to a directory that was opened (shutil.rmtree)
        bad = None
        for i in PATHS[event]:
            if not isinstance(args[i], int) and not inside(args[i]):
                bad = args[i]
    else:
        return
    if bad is not None:
        state['active'] = False
        raise state['error']('%s outside of the scratch directory: %s' % (event, bad))


def start(error):
    state['error'] = error
    state['roots'] = roots()
    if not state['installed']:
        state['installed'] = True
        sys.addaudithook(hook)
    state['active'] = True


def stop():
    state['active'] = False
