"""One simulated data set of any supported kind, read by the library's matching reader.

A *case* plan is {'kind': nav|bgm|rgs|lap|raw|feed, 'p': acquisition plan, 'feed': index}.
"""
import math
import os

import numpy as np
import pandas as pd

from . import core, formats as F, gravworld as G, navworld as N, world
from .core import Violation

KINDS = ['nav', 'bgm', 'rgs', 'lap', 'raw', 'feed']


def gen(rng, kind=None, n=None, link=True):
    from .props import c06, c07
    kind = kind or rng.pick(['nav', 'nav', 'nav', 'bgm', 'rgs', 'lap', 'lap', 'raw', 'raw', 'feed'])
    n = n or rng.pick([1, 2, 3, 4, 6])
    if kind == 'nav':
        p = N.gen_acq(rng, n=n)
        p['decoys'] = p['decoys'][:2]
        p['vn'], p['ve'] = rng.uniform(-1e-4, 1e-4), rng.uniform(-1e-4, 1e-4)
        p['sensor_faults'] = N.gen_dropouts(rng, n) if rng.chance(0.3) else []
        lg = N.gen_logger(rng, p, rate=0.3)
    elif kind == 'feed':
        p = c07.gen(rng, 0)
        p['n'] = max(2, n)
        p['feeds'] = p['feeds'][:3]
        for fd in p['feeds']:
            fd['every'] = 1
        p['nonl'] = False
        lg = p['loggers'][0]
        lg['faults'] = [f for f in lg['faults'] if f.get('at', 0) < n * 500000 and f.get('m', 0) < n * len(p['feeds'])][:4]
    elif kind == 'raw':
        while True:
            p = c06.gen(rng, 0)
            if 'acquired' not in p:
                break
        p['n'] = n
        p['read']['scale'] = None
        p['meter_faults'] = []
        lg = p['loggers'][0]
    else:
        p = G.gen(rng, kind, rng.pick({'bgm': list(F.BGM_SCALE), 'rgs': ['Atlantis', 'NBP'], 'lap': F.LAP_SHIPS}[kind]), n=n)
        lg = p['loggers'][0]
    if not link:
        lg['faults'] = []
    elif rng.chance(0.4):
        lg['faults'] = [{'k': 'rotate', 'at': rng.randint(0, n * p['period'])}]
    p['loggers'] = [lg]
    return {'kind': kind, 'p': p}


class Case:
    def __init__(self, plan, ctx, root=None, prefix='f', keep_empty=False):
        from .props import c06, c07
        self.plan = plan
        self.kind = kind = plan['kind']
        self.p = p = plan['p']
        self.root = root or ctx.scratch
        if kind == 'nav':
            self.files = [f for f in N.build(p, ctx, prefix) if f.rows()]
            self.ship = F.shipname(p['ship'])
        elif kind == 'feed':
            self.files = [f for f in c07.files_of(p, ctx, prefix) if f.recs]
            text, self.desc = c07.spec(p)
            self.yaml = os.path.join(self.root, prefix + 'spec.yaml')
            with open(self.yaml, 'w') as f:
                f.write(text)
            self.ship = 'SimDevice'
        elif kind == 'raw':
            self.files, _ = c06.files_of(p, ctx, True, prefix)
            self.ship = p['ship']
        else:
            self.files = [f for f in G.build(p, ctx, True, prefix) if f.recs]
            self.ship = p['ship']
            if kind == 'bgm':
                for f in self.files:
                    for r in f.recs:
                        r.row['rgrav'] = r.row['counts'] * F.BGM_SCALE[p['ship']]
        self.paths = [os.path.join(self.root, f.name) for f in self.files]
        self.k = plan.get('feed', 0)        # which feed is read

    def write(self):
        for f, path in zip(self.files, self.paths):
            with open(path, 'wb') as fo:
                fo.write(f.bytes())

    def names(self):
        """All files a read opens."""
        return ([self.yaml] if self.kind == 'feed' else []) + self.paths

    def call(self, paths=None, progressbar=False, ship=None, talker=None, **opts):
        """The library call."""
        from shipgrav import io as sio
        paths = list(self.paths) if paths is None else paths
        ship = self.ship if ship is None else ship
        if self.kind == 'nav':
            tk = talker or self.p.get('talker')
            kw = dict(opts, talker=tk) if tk else opts
            return sio.read_nav(ship, paths, progressbar=progressbar, **kw)
        if self.kind == 'bgm':
            return sio.read_bgm_raw(paths, ship, progressbar=progressbar, **opts)
        if self.kind == 'rgs':
            return sio.read_bgm_rgs(paths, ship, progressbar=progressbar)
        if self.kind == 'lap':
            return sio.read_dgs_laptop(paths, ship, progressbar=progressbar, **opts)
        if self.kind == 'raw':
            return sio.read_dgs_raw(paths, ship, progressbar=progressbar, **opts)
        return sio.read_other_stuff(self.yaml, paths[0] if isinstance(paths, list) else paths, talker or self.p['feeds'][self.k]['tag'])

    def rows(self, k):
        """What the records of file k must give."""
        rr = [r.row for r in self.files[k].recs if r.row is not None]
        if self.kind == 'feed':
            rr = [r for r in rr if r[0] == self.k]
        return rr

    def verify(self, res, rows_by_file=None, tag=''):
        """Result against the ledger."""
        from .props import c07
        rb = rows_by_file if rows_by_file is not None else [self.rows(k) for k in range(len(self.files))]
        if self.kind == 'nav':
            N.compare(res, N.model(rb), tag=tag)
        elif self.kind == 'feed':
            c07.check(res, self.p['feeds'][self.k], rb[0], self.desc)
        else:
            G.compare(res, [r for rr in rb for r in rr], tag=tag, rtol=1e-10)


# ------------------------------------------------------------- comparing results

def same(a, b, rtol=1e-9, path='result'):
    """None when equal, else a description of the first difference."""
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return '%s: %s against %s' % (path, type(a).__name__, type(b).__name__)
        if list(a.columns) != list(b.columns):
            return '%s: columns %s against %s' % (path, list(a.columns), list(b.columns))
        if len(a) != len(b):
            return '%s: %d rows against %d' % (path, len(a), len(b))
        if list(map(str, a.dtypes)) != list(map(str, b.dtypes)):
            return '%s: column types %s against %s' % (path, list(map(str, a.dtypes)), list(map(str, b.dtypes)))
        if list(a.index) != list(b.index):
            return '%s: index differs' % path
        for j, c in enumerate(a.columns):
            d = seq(list(a.iloc[:, j]), list(b.iloc[:, j]), rtol, '%s.%s' % (path, c))
            if d:
                return d
        return None
    if isinstance(a, pd.Series) and isinstance(b, pd.Series):
        return same(a.values, b.values, rtol, path) if a.dtype != object else seq(list(a), list(b), rtol, path)
    if isinstance(a, pd.Index) and isinstance(b, pd.Index):
        return seq(list(a), list(b), rtol, path) if type(a) is type(b) and str(a.dtype) == str(b.dtype) else '%s: %r against %r' % (path, a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return '%s: %s against %s' % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return '%s: shape %s against %s' % (path, a.shape, b.shape)
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            scale = np.nanmax(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0.0
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-3 * scale))
            if not np.all(ok):
                k = int(np.argmin(ok.ravel()))
                return '%s[%d]: %r against %r' % (path, k, a.ravel()[k], b.ravel()[k])
            return None
        return seq(list(a.ravel()), list(b.ravel()), rtol, path)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b):
            return '%s: %s against %s' % (path, type(a).__name__, type(b).__name__)
        return seq(a, b, rtol, path)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and sorted(map(repr, a)) != sorted(map(repr, b)):
            return '%s: keys %s against %s' % (path, list(a), list(b))
        for k in a:
            d = same(a[k], b[k], rtol, '%s[%r]' % (path, k))
            if d:
                return d
        return None
    return scalar(a, b, rtol, path)


def seq(a, b, rtol, path):
    if len(a) != len(b):
        return '%s: length %d against %d' % (path, len(a), len(b))
    for j, (x, y) in enumerate(zip(a, b)):
        if x is y:
            continue
        d = same(x, y, rtol, '%s[%d]' % (path, j)) if isinstance(x, (list, tuple, dict, np.ndarray, pd.DataFrame, pd.Series)) else \
            scalar(x, y, rtol, '%s[%d]' % (path, j))
        if d:
            return d
    return None


def scalar(a, b, rtol, path):
    if a is b:
        return None
    try:
        if a is pd.NaT or b is pd.NaT:
            return None if a is b else '%s: %r against %r' % (path, a, b)
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating, int, np.integer)):
            if math.isnan(a) and math.isnan(b):
                return None
            if a == b or abs(a - b) <= rtol * abs(b):
                return None
        elif type(a) is type(b) or isinstance(a, (int, np.integer)):
            if bool(a == b):
                return None
            if type(a) is type(b) and hasattr(a, '__dict__') and a.__dict__ == b.__dict__ and a.__dict__:
                return None
    except (TypeError, ValueError):
        pass
    return '%s: %r against %r' % (path, a, b)


def text(res):
    """Everything visible in a result, for the run's digest."""
    if isinstance(res, pd.DataFrame):
        return ['df', len(res)] + [[str(c), str(res.iloc[:, j].dtype)] + [repr(x) for x in res.iloc[:, j]] for j, c in enumerate(res.columns)]
    if isinstance(res, (tuple, list)):
        return [text(x) for x in res]
    if isinstance(res, np.ndarray):
        return [str(res.dtype), res.shape] + [repr(x) for x in res.ravel()[:2000]]
    return repr(res)
