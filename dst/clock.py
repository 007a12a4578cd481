"""The simulated wall clock of a process started with the shim preloaded (see clock.c)."""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

from . import core

_lib = None


def ensure(argv):
    """Restart this interpreter under the shim. Without a C compiler the clock stays real."""
    if os.environ.get('DST_CLOCK'):
        return
    d = tempfile.mkdtemp(prefix='dstclk', dir=core.scratch_base())
    so = os.path.join(d, 'clock.so')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'clock.c')
    cc = shutil.which('gcc') or shutil.which('clang') or shutil.which('cc')
    ok = cc and subprocess.run([cc, '-O1', '-shared', '-fPIC', '-o', so, src], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    env = dict(os.environ, DST_CLOCK=so if ok else 'none')
    if ok:
        env['LD_PRELOAD'] = so
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'dst.main'] + argv, env=env)
    shutil.rmtree(d, ignore_errors=True)
    sys.exit(r.returncode)


def lib():
    global _lib
    so = os.environ.get('DST_CLOCK')
    if _lib is None and so and so != 'none':
        _lib = ctypes.CDLL(so)
        _lib.dst_clock_set.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
        _lib.dst_clock_reads.restype = ctypes.c_longlong
    return _lib


def set(base_ns, step_ns):
    if lib():
        _lib.dst_clock_set(1, base_ns, step_ns)


def off():
    """Back to the real clock; how often the simulated one was read."""
    if not lib():
        return 0
    n = _lib.dst_clock_reads()
    _lib.dst_clock_set(0, 0, 0)
    return n
