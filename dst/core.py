"""Engine of the simulator: seeds, runs in forked processes, search, shrinking, replay, evidence.

A *plan* is a JSON object made by ``prop.gen(rng, index)`` from
sha256(VERIF_SEED:property:index).  A *run* executes one plan in a process of
its own, forked from a zygote in which the library was imported but never
called, and is a pure function of the plan.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SHIPGRAV_REPO', '/repo')
WORKERS = int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
CPU_LIMIT = 60      # seconds of CPU for a run that normally takes well below one
WALL_LIMIT = 300


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Rng(random.Random):
    """Seeded from a string; the only source of randomness of a plan."""

    def __new__(cls, key):
        return super().__new__(cls)

    def __init__(self, key):
        super().__init__(int.from_bytes(hashlib.sha256(key.encode()).digest(), 'big'))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        return self.sample(seq, self.randint(min(lo, hi), hi))


def unit(*key):
    """Deterministic number in [0,1) for a key: per-record values that survive shrinking."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0**64


class Ctx:
    """What a run reports: faults that fired, simulated time, state signature, log."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = {}
        self.sim_s = 0.0
        self.sig = []
        self.nontrivial = False
        self.h = hashlib.sha256()
        self.notes = []
        self.known = []
        self.steps = 0

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def cover(self, *key):
        self.sig.append(repr(key) if len(key) > 1 else str(key[0]))

    def observe(self, obj):
        """Everything observed goes into the run's digest (determinism is checked on it)."""
        self.h.update(repr(obj).encode())


def fresh_stdio():
    """Library chatter (print, progress bars) is not part of a check's output."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    os.close(dn)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)


def raised_in_library(e):
    """file:function of the innermost library frame of an exception that came out of a library call."""
    if isinstance(e, MemoryError):
        return None
    lib = os.path.join(os.path.realpath(REPO), 'shipgrav') + os.sep
    where = None
    tb = e.__traceback__
    while tb:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(lib):
            where = '%s:%s' % (os.path.basename(f), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


def exec_plan(prop, plan, scratch):
    """Run one plan in this process. Returns a plain dict."""
    ctx = Ctx(scratch)
    out = {'viol': None, 'harness': None}
    try:
        try:
            if plan.get('host_zone'):
                os.environ['TZ'] = plan['host_zone']
                time.tzset()
                ctx.fault('host_zone')
            prop.run(plan, ctx)
        except Violation as e:
            out['viol'] = {'cls': e.cls, 'msg': e.msg[:2000]}
        except Exception as e:
            where = raised_in_library(e)
            if where is None:
                raise
            # no check expects this: what a check allows the library to raise, it handles itself
            out['viol'] = {'cls': 'raised', 'msg': ('%r raised at %s' % (e, where))[:2000]}
    except BaseException:
        out['harness'] = traceback.format_exc()[-4000:]
    if plan.get('host_zone'):
        os.environ['TZ'] = 'UTC'
        time.tzset()
    out.update(faults=ctx.faults, sim_s=ctx.sim_s, sig=ctx.sig, nontrivial=bool(ctx.nontrivial),
               digest=ctx.h.hexdigest(), notes=ctx.notes[:5], known=ctx.known, steps=ctx.steps)
    if out['viol']:
        out['digest'] = hashlib.sha256((out['digest'] + json.dumps(out['viol'], sort_keys=True)).encode()).hexdigest()
    return out


def forked(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """Call fn() in a forked child; returns ('ok', value) | ('exc', text) | ('hang', why) | ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            try:
                val = ('ok', fn())
            except BaseException:
                val = ('exc', traceback.format_exc())
            data = pickle.dumps(val, protocol=4)
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    t0 = time.monotonic()
    res = None
    while True:
        left = wall - (time.monotonic() - t0)
        if left <= 0:
            res = ('hang', 'no result within %d s' % wall)
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if res is not None:
        return res
    data = b''.join(buf)
    if data:
        try:
            return pickle.loads(data)
        except Exception:
            pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
        return ('hang', 'used more than %d s of CPU (or was killed, signal %d)' % (cpu, os.WTERMSIG(st)))
    return ('died', 'status %d' % st)


def scratch_base():
    for b in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    return tempfile.gettempdir()


def run_plan(prop, plan, base):
    """One simulated run in a forked child with a scratch directory of its own."""
    d = tempfile.mkdtemp(prefix='run', dir=base)

    def go():
        fresh_stdio()
        # the path seen by the library is the same in every run
        os.chdir(d)
        return exec_plan(prop, plan, d)
    try:
        st, val = forked(go)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st == 'ok':
        return val
    blank = dict(viol=None, harness=None, faults={}, sim_s=0.0, sig=[], nontrivial=False,
                 digest='-', notes=[], known=[], steps=0)
    if st == 'hang' and 'CPU' in val:
        blank['viol'] = {'cls': 'hang', 'msg': val}
        blank['digest'] = 'hang'
    else:
        blank['harness'] = '%s: %s' % (st, val)
    return blank


HOST_ZONES = ['EST5EDT,M3.2.0,M11.1.0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30', '<+14>-14', '<-12>12', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
              'CET-1CEST,M3.5.0,M10.5.0/3', 'HST10']


def make_plan(prop, seed, i):
    rng = Rng('%s:%s:%d' % (seed, prop.ID, i))
    plan = prop.gen(rng, i)
    if getattr(prop, 'HOST_ZONE', True):    # where the host that reads the data is
        zone = Rng('%s:%s:%d:zone' % (seed, prop.ID, i))
        if zone.chance(0.4):
            plan['host_zone'] = zone.pick(HOST_ZONES)
    return json.loads(json.dumps(plan))      # what is run is exactly what is recorded


# ---------------------------------------------------------------- parallel search

def _worker(prop, seed, base, rfd, wfd):
    inp = os.fdopen(rfd, 'r')
    out = os.fdopen(wfd, 'w')
    for line in inp:
        i = int(line)
        try:
            plan = make_plan(prop, seed, i)
            res = run_plan(prop, plan, base)
        except BaseException:
            res = {'harness': traceback.format_exc()[-3000:], 'viol': None, 'faults': {}, 'sim_s': 0,
                   'sig': [], 'nontrivial': False, 'digest': '-', 'notes': [], 'known': [], 'steps': 0}
        out.write(json.dumps([i, res]) + '\n')
        out.flush()
    os._exit(0)


def search(prop, seed, n, base, workers=None, stop_on_violation=True, wall=None):
    """Run plans 0..n-1; returns {index: result} (a prefix-closed set when it stops early)."""
    workers = workers or WORKERS
    ch = []
    for _ in range(workers):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for c in ch:
                os.close(c['w'].fileno())
                os.close(c['r'])
            try:
                _worker(prop, seed, base, r1, w2)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        ch.append({'pid': pid, 'w': os.fdopen(w1, 'w'), 'r': r2, 'buf': b'', 'busy': False})
    results = {}
    nxt = 0
    t0 = time.monotonic()
    limit = n
    live = {c['r']: c for c in ch}

    def give(c):
        nonlocal nxt
        if nxt < limit:
            c['w'].write('%d\n' % nxt)
            c['w'].flush()
            nxt += 1
            c['busy'] = True
        else:
            c['busy'] = False
    for c in ch:
        give(c)
    try:
        while any(c['busy'] for c in ch):
            rs = select.select(list(live), [], [], 30)[0]
            for fd in rs:
                c = live[fd]
                b = os.read(fd, 1 << 20)
                if not b:
                    raise RuntimeError('worker died')
                c['buf'] += b
                while b'\n' in c['buf']:
                    line, c['buf'] = c['buf'].split(b'\n', 1)
                    i, res = json.loads(line)
                    results[i] = res
                    if (res['viol'] and stop_on_violation) or res['harness']:
                        limit = min(limit, nxt)      # finish what was given out, then stop
                    give(c)
            if wall and time.monotonic() - t0 > wall:
                limit = min(limit, nxt)
    finally:
        for c in ch:
            try:
                c['w'].close()
            except OSError:
                pass
            os.close(c['r'])
        for c in ch:
            try:
                os.waitpid(c['pid'], 0)
            except ChildProcessError:
                pass
    return results


# ---------------------------------------------------------------- shrinking

def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _set(plan, path, val):
    plan = json.loads(json.dumps(plan))
    t = plan
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = val
    return plan


def _paths(prop, plan):
    """Paths of lists that may be cut and numbers that may be reduced."""
    lists, ints = [], []
    keep = set(getattr(prop, 'SHRINK_LISTS', ('faults', 'ops', 'events', 'threads', 'switches')))
    nums = dict(getattr(prop, 'SHRINK_INTS', {}))

    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(v, list) and k in keep:
                    lists.append(path + [k])
                if isinstance(v, int) and not isinstance(v, bool) and k in nums:
                    ints.append((path + [k], nums[k]))
                walk(v, path + [k])
        elif isinstance(o, list):
            for j, v in enumerate(o):
                walk(v, path + [j])
    walk(plan, [])
    return lists, ints


def shrink(prop, plan, cls, base, budget=250, wall=120):
    """Delta debugging: smallest plan found that still gives a violation of the same class."""
    t0 = time.monotonic()
    used = [0]

    def bad(p):
        if used[0] >= budget or time.monotonic() - t0 > wall:
            return False
        used[0] += 1
        try:
            r = run_plan(prop, p, base)
        except Exception:
            return False
        return bool(r['viol']) and r['viol']['cls'] == cls and not r['harness']

    changed = True
    while changed and used[0] < budget:
        changed = False
        lists, ints = _paths(prop, plan)
        for path in lists:
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError):
                continue
            step = max(1, len(cur) // 2)
            while step >= 1 and cur:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + step:]
                    p = _set(plan, path, cand)
                    if len(cand) >= getattr(prop, 'SHRINK_MIN', {}).get(path[-1], 0) and bad(p):
                        plan, cur, changed = p, cand, True
                    else:
                        i += step
                step //= 2
        lists, ints = _paths(prop, plan)
        for path, lo in ints:
            try:
                v = _get(plan, path)
            except (KeyError, IndexError):
                continue
            while v > lo:
                for c in (lo, (v + lo) // 2, v - 1):
                    if c < v and bad(_set(plan, path, c)):
                        plan, v, changed = _set(plan, path, c), c, True
                        break
                else:
                    break
        away = [{k: v for k, v in plan.items() if k != 'host_zone'}] if plan.get('host_zone') else []
        for cand in away + list(getattr(prop, 'simplify', lambda p: [])(plan)):
            cand = json.loads(json.dumps(cand))
            if cand != plan and bad(cand):
                plan, changed = cand, True
                break
    return plan, used[0]


def write_replay(prop, plan, res, seed, index, original):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop.ID, 'seed': seed, 'index': index, 'plan': plan, 'violation': res['viol'],
            'digest': res['digest'], 'original_plan': original}
    name = '%s-%s.json' % (prop.ID, hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path
