"""Discrete-event ship: sensors, a faulty transport, loggers with clocks that lie, files that rotate.

The plan of an acquisition (all times in microseconds):

  start, period, n      when the sensors speak
  vseed                 seed of the values they say
  loggers: [ {skew, latency, faults:[...]} ]     one file sequence per logger
  faults of a logger:
    {k:drop,  m}            message m is lost on the way
    {k:dup,   m, d}         message m arrives a second time, d later
    {k:delay, m, d}         message m arrives d late (and so out of order)
    {k:step,  at, d}        the logger's clock is stepped by d at start+at
    {k:rotate,at}           the logger starts a new file
    {k:crash, at, down, lose}  the logger dies; the last `lose` records were still
                            in its buffer; it is back `down` later with a new file
  faults of the sensors:
    {k:dropout, i, n}       n epochs from i on have no position

A message is one serial sentence (or one block, on the Revelle).
"""
import heapq
import os

from . import core


class Rec:
    """One logged record: its bytes, what a reader must make of it, and provenance."""
    __slots__ = ('data', 'row', 'msg', 'stamp')

    def __init__(self, data, row, msg, stamp):
        self.data, self.row, self.msg, self.stamp = data, row, msg, stamp


class File:
    def __init__(self, name, head=b''):
        self.name = name
        self.head = head
        self.recs = []

    def bytes(self):
        return self.head + b''.join(r.data for r in self.recs)

    def rows(self):
        return [r.row for r in self.recs if r.row is not None]


def clock(lg, t, start):
    """What the logger's clock shows at true time t."""
    v = t + lg.get('skew', 0) + int(lg.get('drift', 0) * (t - start))
    for f in lg.get('faults', ()):
        if f['k'] == 'step' and t >= start + f['at']:
            v += f['d']
    return v


def acquire(messages, lg, fmt, start, ctx, prefix='f', head=b'', quantum=1):
    """Deliver messages [(t, payload)] to a logger; returns its files in order.

    fmt(stamp, payload) -> list of (bytes, row). quantum: resolution of stamps.
    """
    q = []
    seq = 0
    by = {}
    for f in lg.get('faults', ()):
        if 'm' in f:
            by.setdefault(f['m'], []).append(f)
    lat = lg.get('latency', 0)
    for m, (t, payload) in enumerate(messages):
        jit = int(core.unit('lat', lg.get('seed', 0), m) * lat)
        t_arr = t + jit
        lost = False
        for f in by.get(m, ()):
            if f['k'] == 'drop':
                lost = True
                ctx.fault('msg_loss')
            elif f['k'] == 'delay':
                t_arr += f['d']
                ctx.fault('msg_delay_reorder')
            elif f['k'] == 'dup':
                heapq.heappush(q, (t + jit + f['d'], seq, 'msg', m))
                seq += 1
                ctx.fault('msg_dup')
        if not lost:
            heapq.heappush(q, (t_arr, seq, 'msg', m))
            seq += 1
    for f in lg.get('faults', ()):
        if f['k'] in ('rotate', 'crash'):
            heapq.heappush(q, (start + f['at'], -1000000 + seq, f['k'], f))
            seq += 1
        elif f['k'] == 'step':
            heapq.heappush(q, (start + f['at'], -1000000 + seq, 'step', f))
            seq += 1
    files = [File('%s%03d' % (prefix, 0), head)]
    down_until = None
    t = start
    while q:
        t, _, kind, x = heapq.heappop(q)
        if kind == 'rotate':
            if down_until is None or t >= down_until:
                files.append(File('%s%03d' % (prefix, len(files)), head))
                ctx.fault('file_rotation')
        elif kind == 'step':
            ctx.fault('clock_step')
        elif kind == 'crash':
            if down_until is not None and t < down_until:
                continue
            cur = files[-1]
            lose = min(x.get('lose', 0), len(cur.recs))
            if lose:
                del cur.recs[len(cur.recs) - lose:]
            files.append(File('%s%03d' % (prefix, len(files)), head))
            down_until = t + x.get('down', 0)
            ctx.fault('logger_crash_restart')
        else:
            if down_until is not None and t < down_until:
                ctx.fault('msg_lost_logger_down')
                continue
            st = clock(lg, t, start)
            st -= st % quantum
            for data, row in fmt(st, messages[x][1]):
                files[-1].recs.append(Rec(data, row, x, st))
    return files


def write_files(files, root, nonl=False, blanks=(), spread=0, ctx=None):
    """nonl: the last line of each file is complete but for its line end. blanks: places of empty lines between records,
    as a logger leaves them when it starts. spread: every file in a folder of its own (1), and all with one name (2)."""
    paths = []
    places = [(k, j) for k, f in enumerate(files) for j in range(len(f.recs) + 1)]
    at = {}
    for a in blanks or ():
        x = places[int(a * len(places))] if places else None
        at[x] = at.get(x, 0) + 1
        if ctx is not None:
            ctx.fault('empty_line')
    for k, f in enumerate(files):
        p = os.path.join(root, f.name)
        if spread:
            os.makedirs(os.path.join(root, 'leg%d' % k))
            p = os.path.join(root, 'leg%d' % k, files[0].name if spread == 2 else f.name)
        b = f.head + b''.join(b'\n' * at.get((k, j), 0) + r.data for j, r in enumerate(f.recs)) + b'\n' * at.get((k, len(f.recs)), 0)
        with open(p, 'wb') as fo:
            fo.write(b.rstrip(b'\r\n') if nonl else b)
        paths.append(p)
    return paths


def gen_layout(rng):
    """How the files lie on the disk: parameters of write_files."""
    return {'nonl': rng.chance(0.15), 'blanks': [round(rng.random(), 6) for _ in range(rng.pick([1, 1, 2, 5]))] if rng.chance(0.1) else [],
            'spread': rng.pick([0, 0, 0, 0, 0, 1, 2])}


def layout(rd):
    return {k: rd.get(k, d) for k, d in (('nonl', False), ('blanks', []), ('spread', 0))}


def gen_link_faults(rng, nmsg, span, rate=1.0, max_delay=5000000, rotations=True, steps=None):
    """A seeded list of transport/logger faults."""
    fs = []
    for kind in rng.some(['drop', 'dup', 'delay', 'burst', 'rotate', 'crash', 'step'], 0, 7):
        k = 1 + int(rng.expovariate(0.5) * rate)
        for _ in range(min(k, 8)):
            m = rng.randrange(max(1, nmsg))
            if kind == 'drop':
                fs.append({'k': 'drop', 'm': m})
            elif kind == 'burst':
                for j in range(m, min(nmsg, m + rng.randint(2, 8))):
                    fs.append({'k': 'drop', 'm': j})
                break
            elif kind == 'dup':
                fs.append({'k': 'dup', 'm': m, 'd': rng.randint(0, max_delay)})
            elif kind == 'delay':
                fs.append({'k': 'delay', 'm': m, 'd': rng.randint(1, max_delay)})
            elif kind == 'rotate' and rotations:
                fs.append({'k': 'rotate', 'at': rng.randint(0, max(1, span))})
            elif kind == 'crash' and rotations:
                fs.append({'k': 'crash', 'at': rng.randint(0, max(1, span)), 'down': rng.randint(0, max(1, span // 4)),
                           'lose': rng.randint(0, 4)})
                break
            elif kind == 'step' and steps:
                fs.append({'k': 'step', 'at': rng.randint(0, max(1, span)), 'd': rng.randint(-steps, steps)})
                break
    if rotations and rng.chance(0.04):      # a logger that starts a new file on schedule
        n = rng.randint(8, 40)
        fs += [{'k': 'rotate', 'at': span * (j + 1) // (n + 1)} for j in range(n)]
    return fs
