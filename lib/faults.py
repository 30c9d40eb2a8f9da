"""Fault injection at the C library's file operations (lib/native/faults.c)."""
import ctypes
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

import env

COUNT, CRASH_BEFORE, CRASH_WITHIN, FAIL_ONCE, FAIL_ON, SHORT, READ_FAIL, FULL, FULL_WITHIN = range(9)
CRASHED = 77
VAR = 'VERIF_FAULTLIB'


def rerun_with_library(argv):
    """Builds the library and runs this check again with it preloaded; returns
    the exit status, or None if it is loaded already."""
    if os.environ.get(VAR):
        return None
    d = tempfile.mkdtemp(prefix='kzfault.')
    try:
        lib = os.path.join(d, 'faults.so')
        cc = shutil.which('gcc') or shutil.which('clang') or 'cc'
        subprocess.check_call([cc, '-shared', '-fPIC', '-O1', '-w', '-o', lib,
                               os.path.join(env.VERIF, 'lib', 'native', 'faults.c'), '-ldl'])
        e = dict(os.environ, LD_PRELOAD=lib)
        e[VAR] = lib
        return subprocess.call([sys.executable] + argv, env=e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ[VAR])
        _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        _lib.fault_ops.restype = _lib.fault_reads.restype = ctypes.c_long
        _lib.fault_trace.restype = ctypes.c_char_p
        os.environ.pop('LD_PRELOAD', None)
    return _lib


def run(fn, root, mode, target=0, err=5):
    """Calls fn() in a child, with one fault below root.  Returns
    {'crashed': True} or {'kind', 'what', 'ops', 'reads', 'trace'}, where fn
    returned (kind, what)."""
    L = lib()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            L.fault_arm(os.fsencode(root), mode, target, err)
            try:
                kind, what = fn()
            except BaseException as e:
                import traceback
                kind, what = 'exception', '%s: %s\n%s' % (
                    type(e).__name__, e, traceback.format_exc()[-600:])
            L.fault_disarm()
            out = json.dumps({'kind': kind, 'what': str(what)[:600], 'ops': L.fault_ops(),
                              'reads': L.fault_reads(),
                              'trace': L.fault_trace().decode()}).encode()
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASHED:
        return {'crashed': True}
    return dict(json.loads(data), crashed=False)
