"""Deterministic threads and asynchronous interrupts for library code.

The library's code runs on real threads, but only the thread holding the baton
runs; a line-level trace function inside library frames is the yield point at
which the plan's schedule may pass the baton on.
"""
import gc
import os
import sys
import threading
import types
import _thread

from . import core

_real_lock = threading.Lock
_real_rlock = threading.RLock
LIB = os.path.join(os.path.realpath(core.REPO), 'shipgrav') + os.sep
LIB2 = os.path.join(core.REPO, 'shipgrav') + os.sep
current = None          # the active scheduler, if any


def in_lib(filename):
    return (filename.startswith(LIB) or filename.startswith(LIB2)) and os.sep + 'tests' + os.sep not in filename


def place_of(frame, ops):
    k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0)
    return k + (frame.f_code.co_name, frame.f_lasti) if ops else k


class SimLock:
    """Lock created by library code while it is imported: blocks in simulated time only."""

    def __init__(self, reentrant=False):
        self.re = reentrant
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            s = current
            if s is None or not s.block():
                raise RuntimeError('deadlock on a library lock')
        self.owner = me
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.owner = None
            self.n = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def patch_locks():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)

    def undo():
        threading.Lock = _real_lock
        threading.RLock = _real_rlock
    return undo


class Sched:
    """Runs callables on threads, one at a time.

    ``switches``: sorted list of [step, thread]; when the global count of
    executed library lines reaches ``step`` the baton goes to ``thread`` if it
    is alive (otherwise to the next one that is). ``rr``: additionally switch
    every rr lines (0: never). ``stops``: (thread, place, pass, to): the thread
    hands over when it comes to that place for the pass-th time. ``ops``: the
    unit is a byte-code instruction instead of a line.
    """

    def __init__(self, fns, switches, rr=0, stops=(), ops=False):
        self.ops = ops
        self.stops = {}
        for t, place, occ, to in stops:
            self.stops.setdefault((t, tuple(place)), []).append([occ, to])
        self.fns = fns
        self.n = len(fns)
        self.switches = sorted((int(a), int(b)) for a, b in switches)
        self.rr = rr
        self.step = 0
        self.sp = 0
        self.alive = [True] * self.n
        self.gate = [_thread.allocate_lock() for _ in fns]
        self.mine = set()
        for g in self.gate:
            g.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.results = [None] * self.n
        self.cur = 0
        self.trace_log = []
        self.switched = 0
        self.where = set()
        self.blocked = set()

    def _on_line(self, code, line):
        if threading.get_ident() in self.mine:
            self.point((os.path.basename(code.co_filename), line))

    def _on_op(self, code, off):
        if threading.get_ident() in self.mine:
            self.point((os.path.basename(code.co_filename), line_at(code, off), code.co_name, off))

    def point(self, place):
        me = self.cur
        self.step += 1
        to = None
        while self.sp < len(self.switches) and self.switches[self.sp][0] <= self.step:
            to = self.switches[self.sp][1]
            self.sp += 1
        if to is None and self.rr and self.step % self.rr == 0:
            to = (me + 1) % self.n
        for st in self.stops.get((me, place), ()):
            st[0] -= 1
            if st[0] == 0:
                to = st[1]
        if to is None:
            return
        to = self._pick(to % self.n)
        if to is not None and to != me:
            self.where.add(place[:2])
            self._pass(me, to)

    def _pick(self, to):
        for d in range(self.n):
            t = (to + d) % self.n
            if self.alive[t]:
                return t
        return None

    def block(self):
        """The running thread waits for a lock: let another one run. False if none can."""
        me = self.cur
        for d in range(1, self.n):
            t = (me + d) % self.n
            if self.alive[t]:
                self._pass(me, t)
                return True
        return False

    def _pass(self, me, to):
        self.switched += 1
        self.cur = to
        self.gate[to].release()
        self.gate[me].acquire()

    def _body(self, i):
        self.gate[i].acquire()
        self.mine.add(threading.get_ident())
        try:
            self.results[i] = ('ok', self.fns[i]())
        except BaseException as e:
            self.results[i] = ('exc', e)
        self.mine.discard(threading.get_ident())
        self.alive[i] = False
        t = self._pick((i + 1) % self.n)
        if t is None:
            self.done.release()
        else:
            self.cur = t
            self.gate[t].release()

    def run(self):
        # sys.monitoring rather than settrace: CPython 3.12 crashes when settrace with
        # instruction events is switched while other threads are inside traced code
        global current
        current = self
        mon = sys.monitoring
        ev = mon.events.INSTRUCTION if self.ops else mon.events.LINE
        codes = lib_codes()
        mon.use_tool_id(TOOL, 'dst')
        try:
            mon.register_callback(TOOL, ev, self._on_op if self.ops else self._on_line)
            for c in codes:
                mon.set_local_events(TOOL, c, ev)
            ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
            for t in ths:
                t.start()
            self.cur = 0
            self.gate[0].release()
            if not self.done.acquire(timeout=250):
                raise RuntimeError('threads did not finish')
            for t in ths:
                t.join(5)
        finally:
            for c in codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, ev, None)
            mon.free_tool_id(TOOL)
            current = None
        return self.results


TOOL = 4
_lines = {}


def line_at(code, off):
    m = _lines.get(code)
    if m is None:
        m = _lines[code] = {}
        for a, b, ln in code.co_lines():
            for o in range(a, b, 2):
                m[o] = ln or 0
    return m.get(off, 0)


_codes = []


def lib_codes():
    """Every code object of the library that can run: functions, methods, and those nested in them."""
    if _codes:
        return _codes
    out, seen = [], set()

    def walk(c):
        if id(c) not in seen and in_lib(c.co_filename):
            seen.add(id(c))
            out.append(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
    # module bodies are gone by now; what they define is reached through the functions
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    _codes.extend(out)
    return out


class LineCounter:
    """Counts executed library lines (or, with ``ops``, byte-code instructions), by place."""

    def __init__(self, ops=False):
        self.n = 0
        self.by = {}
        self.ops = ops

    def _tracer(self, frame, event, arg):
        if event == 'call' and in_lib(frame.f_code.co_filename):
            if self.ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    place = lambda self, frame: place_of(frame, self.ops)

    def hit(self, event):
        return event == ('opcode' if self.ops else 'line')

    def _local(self, frame, event, arg):
        if self.hit(event):
            self.n += 1
            k = self.place(frame)
            self.by[k] = self.by.get(k, 0) + 1
        return self._local

    def call(self, fn):
        if self.ops:
            sys._getframe().f_trace_opcodes = True      # 3.12: must be set somewhere before settrace
        sys.settrace(self._tracer)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Interrupter(LineCounter):
    """Raises ``exc`` at the occ-th execution of the given place."""

    def __init__(self, key, occ, exc, ops=False):
        super().__init__(ops)
        self.key = tuple(key)
        self.occ = occ
        self.exc = exc
        self.fired = False

    def _local(self, frame, event, arg):
        if self.hit(event) and not self.fired:
            if self.place(frame) == self.key:
                self.occ -= 1
                if self.occ <= 0:
                    self.fired = True
                    raise self.exc
        return self._local
