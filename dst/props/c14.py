"""C14: the interactive picker keeps exactly the picks the user made."""
import copy
import warnings

import numpy as np
import pandas as pd

from .. import core
from ..core import Violation

ID = 'C14'
TITLE = 'The interactive picker keeps exactly the picks the user made'
TECHNIQUE = 'deterministic simulation: seeded user-event histories with lost, duplicated and reordered events against a stack model, simulated display'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('a run makes a seeded data set and one or two pickers on a simulated figure, and delivers up to 700 seeded mouse events, some of them '
        'lost, duplicated or swapped; after every event the pickers, the artists and what was last drawn are compared with the model; '
        'non-trivial: at least one pick and one undo')
STATE_MEASURE = 'tuples (previous event, event, picks held (0, 1, more), cross-hair before, same point as before)'
REAL = ['shipgrav.utils._SnappingCursor', 'numpy, pandas']
STUB = ['matplotlib figure, axes, lines, canvas and mouse events (dst/props/c14.py)', 'the user and the event queue']
ASSUMPTIONS = ['the point selected by the cursor is the first plotted sample at or after it, or the last one',
               'of two samples equally near to a click either may be picked']
SHRINK_LISTS = ('events',)
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('event_lost', 'event_duplicated', 'event_swapped', 'off_axis', 'other_axis')


class Artist:
    """What the picker may do to a line."""

    def __init__(self, x, y):
        self.x, self.y = self.own(x), self.own(y)
        self.vis = True

    @staticmethod
    def own(v):
        return [v] if np.isscalar(v) else [copy.copy(e) for e in v]

    def update(self, props):
        for k, v in props.items():
            getattr(self, 'set_' + k)(v)

    def set(self, **kw):
        self.update(kw)

    def set_xdata(self, v):
        self.x = self.own(v)

    def set_ydata(self, v):
        self.y = self.own(v)

    def set_data(self, x, y=None):
        if y is None:
            x, y = x
        self.x, self.y = self.own(x), self.own(y)

    def get_xdata(self, orig=True):
        return np.array(self.x)

    def get_ydata(self, orig=True):
        return np.array(self.y)

    def get_data(self, orig=True):
        return np.array(self.x), np.array(self.y)

    def set_visible(self, b):
        self.vis = bool(b)

    def get_visible(self):
        return self.vis

    def state(self):
        return (list(self.x), list(self.y), self.vis)


class Canvas:
    def __init__(self):
        self.artists = []
        self.shown = None

    def draw(self, *a, **k):
        self.shown = [a.state() for a in self.artists]

    draw_idle = draw


class Figure:
    def __init__(self):
        self.canvas = Canvas()


class Axis:
    def __init__(self, fig, xlim, ylim):
        self.figure = fig
        self.xlim, self.ylim = xlim, ylim
        self.h = self.v = None

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def _add(self, x, y):
        a = Artist(x, y)
        self.figure.canvas.artists.append(a)
        return a

    def axhline(self, y=0, *a, **k):
        self.h = self._add([0, 1], [y, y])
        return self.h

    def axvline(self, x=0, *a, **k):
        self.v = self._add([x, x], [0, 1])
        return self.v

    def plot(self, x, y, *a, **k):
        self.last = self._add(x, y)
        return [self.last]


class Event:
    def __init__(self, inaxes, x, y, button=None):
        self.inaxes, self.xdata, self.ydata, self.button = inaxes, x, y, button
        self.x = self.y = 100
        self.dblclick = False
        self.key = None
        self.name = 'motion_notify_event' if button is None else 'button_press_event'


def gen(rng, i):
    n = rng.pick([1, 2, 3, 10, 50, 200])
    events = []
    long = rng.chance(0.03)         # a session of many picks
    for _ in range(rng.pick([5, 20, 60, 200, 400]) if not long else rng.pick([300, 700])):
        k = rng.pick(['move', 'move', 'pick', 'pick', 'pick', 'undo', 'undo', 'other']) if not long else rng.pick(['move'] + ['pick'] * 14 + ['undo'])
        e = {'k': k, 'on': rng.pick(['1', '1', '1', '1', '2', '-']), 'at': rng.random(), 'how': rng.pick(['between', 'between', 'exact', 'edge', 'outside']), 'cur': 0}
        if k == 'undo' and rng.chance(0.5):
            e['on'] = '1'
        if k == 'other':
            e['b'] = rng.pick([2, 8, 9, 'up'])
        if k in ('pick', 'undo') and rng.chance(0.1):
            e['dbl'] = True
        if rng.chance(0.05):
            e['key'] = rng.pick(['shift', 'control', 'alt', 'z'])
        if rng.chance(0.12):
            e['net'] = rng.pick(['lost', 'dup', 'swap'])
        events.append(e)
    two = rng.chance(0.25)
    if two:
        for e in events:
            e['cur'] = rng.randrange(2)
    # bursts of undo, more than there are picks
    if rng.chance(0.3):
        at = rng.randrange(len(events))
        events[at:at] = [{'k': 'undo', 'on': '1', 'at': .5, 'how': 'between', 'cur': 0}] * rng.randint(2, 12)
    return {'n': n, 'vseed': rng.randrange(10 ** 9), 'step': rng.pick([1, 0.1, 10, 60]), 't0': rng.pick([0, 5e4, 1.6e9]), 'decim': rng.pick([1, 1, 1, 3]),
            'index': rng.pick(['plain', 'plain', 'offset', 'time', 'same']), 'holes': rng.chance(0.4), 'two': two, 'events': [dict(e) for e in events]}


def simplify(plan):
    for k, v in (('two', False), ('holes', False), ('index', 'plain'), ('decim', 1), ('t0', 0), ('step', 1)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for j, e in enumerate(plan['events']):
        if 'net' in e:
            ev = [dict(x) for x in plan['events']]
            del ev[j]['net']
            yield dict(plan, events=ev)


class Picker:
    """A picker, its figure, and the model of what it must hold."""

    def __init__(self, plan, j):
        from shipgrav.utils import _SnappingCursor
        n, s = plan['n'], plan['vseed'] + j
        t, x = plan['t0'], []
        for i in range(n):
            x.append(t)
            t += plan['step'] * (1 + (int(30 * core.unit(s, 'h', i)) if plan['holes'] and core.unit(s, 'hole', i) < .1 else 0))
        x = np.array(x, dtype=float)
        lon = np.array([-170 + 340 * core.unit(s, 'lon', i) for i in range(n)])
        lat = np.array([-80 + 160 * core.unit(s, 'lat', i) for i in range(n)])
        faa = np.array([-100 + 200 * core.unit(s, 'f', i) for i in range(n)])
        self.data = pd.DataFrame({'tsec': x, 'faa': faa, 'lon_new': lon, 'lat_new': lat, 'other': faa})
        if plan['index'] == 'offset':
            self.data.index = np.arange(n) + 1000
        elif plan['index'] == 'time':
            self.data.index = pd.to_datetime(x, unit='s', utc=True)
        elif plan['index'] == 'same':
            self.data.index = [0] * n
        self.before = self.data.copy()
        self.x, self.y = x[::plan['decim']].copy(), faa[::plan['decim']].copy()
        self.fig = Figure()
        self.ax1 = Axis(self.fig, (x[0] - 1, x[-1] + 1), (-100, 100))
        self.ax2 = Axis(self.fig, (-180, 180), (-90, 90))
        line = Artist(self.x, self.y)
        self.dot = self.ax2.plot([lon[0]], [lat[0]])[0]
        self.cur = _SnappingCursor(self.ax1, self.ax2, line, self.dot, self.data)
        self.h, self.v = self.ax1.h, self.ax1.v
        self.sc = self.ax2.last
        self.fig.canvas.draw()
        self.stack = []            # sets of acceptable indices
        self.vis = True
        self.at = None             # index of the cross-hair on the line
        self.lon, self.lat, self.faa, self.t = lon, lat, faa, x

    def event(self, e, ctx):
        span = self.t[-1] - self.t[0]
        if e['how'] == 'exact':
            x = float(self.t[int(e['at'] * len(self.t))])
        elif e['how'] == 'edge':
            x = float(self.t[0] if e['at'] < .5 else self.t[-1])
        elif e['how'] == 'outside':
            x = float(self.t[0] - 5 if e['at'] < .5 else self.t[-1] + 5)
        else:
            x = float(self.t[0] + e['at'] * (span or 1))
        y = 50.0 * e['at']
        if e['on'] == '2':
            ctx.fault('other_axis')
            ax, x, y = self.ax2, -180 + 360 * e['at'], y
        elif e['on'] == '-':
            ctx.fault('off_axis')
            ax, x, y = None, None, None
        else:
            ax = self.ax1
        k = e['k']
        button = {'move': None, 'pick': 1, 'undo': 3}.get(k, e.get('b'))
        ev = Event(ax, x, y, button)
        if button is not None and k != 'move':     # the second press of a quick pair; a key held down
            ev.dblclick = bool(e.get('dbl'))
            ev.key = e.get('key')
            ev.guiEvent, ev.modifiers, ev.step = None, frozenset([ev.key] if ev.key else []), 0
        if k == 'move':
            self.cur.on_mouse_move(ev)
            if ax is self.ax1:
                self.vis = True
                self.at = min(int(np.searchsorted(self.x, x)), len(self.x) - 1)
            else:
                self.vis = False
        else:
            self.cur.on_mouse_click(ev)
            if k == 'pick' and ax is self.ax1:
                self.stack.append(self.near(x))
            elif k == 'undo' and self.stack:
                self.stack.pop()

    def near(self, x):
        d = np.abs(self.t - x)
        return set(np.nonzero(d <= d.min() * (1 + 1e-9))[0].tolist())

    def check(self, what):
        c = self.cur
        if not (len(c.x_seg) == len(c.y_seg) == len(c.i_seg)):
            raise Violation('lengths', '%s: lists of lengths %d, %d, %d' % (what, len(c.x_seg), len(c.y_seg), len(c.i_seg)))
        if len(c.i_seg) != len(self.stack):
            raise Violation('picks', '%s: %d picks held, the user made %d' % (what, len(c.i_seg), len(self.stack)))
        for j, ok in enumerate(self.stack):
            i = int(c.i_seg[j])
            if i not in ok:
                raise Violation('picks', '%s: pick %d is sample %d, the click was nearest to %s' % (what, j, i, sorted(ok)))
            if c.x_seg[j] != self.lon[i] or c.y_seg[j] != self.lat[i]:
                raise Violation('position', '%s: pick %d (sample %d) is held at %r, %r' % (what, j, i, c.x_seg[j], c.y_seg[j]))
        shown = self.fig.canvas.shown
        for now, a in zip(shown, self.fig.canvas.artists):
            if a is self.sc and (now[0] != list(c.x_seg) or now[1] != list(c.y_seg)):
                raise Violation('plotted', '%s: the plot shows %d picks at %s, held are %d at %s' % (what, len(now[0]), now[0][-3:], len(c.x_seg), list(c.x_seg)[-3:]))
            if a in (self.h, self.v) and now[2] != self.vis:
                raise Violation('crosshair', '%s: the cross-hair is %s' % (what, 'shown' if now[2] else 'hidden'))
            if self.vis and self.at is not None:
                i = self.at
                if a is self.h and set(now[1]) != {self.y[i]}:
                    raise Violation('crosshair', '%s: horizontal line at %s, not %r (sample %d)' % (what, now[1], self.y[i], i))
                if a is self.v and set(now[0]) != {self.x[i]}:
                    raise Violation('crosshair', '%s: vertical line at %s, not %r (sample %d)' % (what, now[0], self.x[i], i))
                if a is self.dot:
                    ok = [([self.lon[m]], [self.lat[m]]) for m in self.near(self.x[i])]
                    if (now[0], now[1]) not in ok:
                        raise Violation('dot', '%s: dot at %s %s, not at %s' % (what, now[0], now[1], ok[0]))
        if not self.data.equals(self.before):
            raise Violation('data', '%s: the data were modified' % what)


def run(plan, ctx):
    warnings.simplefilter('ignore')
    ps = [Picker(plan, j) for j in range(2 if plan['two'] else 1)]
    q = []
    for e in plan['events']:
        net = e.get('net')
        if net == 'lost':
            ctx.fault('event_lost')
        elif net == 'dup':
            ctx.fault('event_duplicated')
            q += [e, e]
        elif net == 'swap' and q:
            ctx.fault('event_swapped')
            q.insert(len(q) - 1, e)
        else:
            q.append(e)
    last, undone = '', 0
    for j, e in enumerate(q):
        p = ps[e['cur'] % len(ps)]
        what = 'event %d (%s%s on axis %s) with %d picks' % (j, e['k'], e.get('b', ''), e['on'], len(p.stack))
        st = (len(p.stack[:2]), p.vis, p.at)
        try:
            p.event(e, ctx)
        except Exception as ex:
            raise Violation('raised', '%s raised %r' % (what, ex))
        for x in ps:
            x.check(what)
        ctx.cover(last, e['k'] + e['on'], st[0], st[1], st[2] == p.at)
        if e['k'] == 'undo' and st[0]:
            undone += 1
        last = e['k'] + e['on']
        ctx.steps += 1
        ctx.observe((what, [int(i) for i in p.cur.i_seg], p.fig.canvas.shown))
    ctx.nontrivial = undone > 0
    ctx.sig = sorted(set(ctx.sig))
