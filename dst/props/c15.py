"""C15: a disturbance spreads through a processing operator only as far as its stencil."""
import warnings

import numpy as np
import pandas as pd

from .. import core
from ..core import Violation

ID = 'C15'
TITLE = 'A disturbance spreads through a processing operator only as far as its stencil'
TECHNIQUE = 'deterministic simulation: a processing stream run twice, undisturbed and under sensor faults and crashes, compared outside the stencil; FIR reference'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('a run makes a seeded record, passes it through one operator undisturbed (compared with the reference evaluation of its stencil) and then '
        'under up to 8 sets of seeded spikes, steps, missing samples, frozen sensors and crashes; outside the stencils of the faults the output must be '
        'the undisturbed one; non-trivial: at least one fault fired away from the edges')
STATE_MEASURE = 'tuples (operator, filter length or rate class, fault kind, position class, container type)'
REAL = ['gaussian_filter, center_diff, eotvos_full, latlon_to_EN of shipgrav', 'numpy, pandas']
STUB = ['sensors and their faults', 'process crash (record truncated at a sample)']
ASSUMPTIONS = ['equality is to rounding: 1e-9 of the signal for smoothing and differences, 1e-5 mGal (times rate squared) for Eotvos, 1e-6 m/s (times rate) for velocities']
SHRINK_LISTS = ('sets', 'faults')
SHRINK_INTS = {'n': 12}
MUST_FIRE = ('spike', 'step', 'missing', 'dropout', 'frozen', 'crash', 'infinite')
TAY = np.array([1 / 1260, -5 / 504, 5 / 84, -5 / 21, 5 / 6, 0, -5 / 6, 5 / 21, -5 / 84, 5 / 504, -1 / 1260])


def gen(rng, i):
    op = rng.pick(['gauss', 'gauss', 'diff', 'eotvos', 'eotvos', 'vel', 'vel'])
    n = rng.pick([12, 20, 60, 200, 500])
    plan = {'op': op, 'n': n, 'vseed': rng.randrange(10 ** 9), 'as': rng.pick(['array', 'array', 'array', 'series', 'offset', 'permuted', 'time'])}
    if op == 'gauss':
        plan['fl'] = rng.pick([1, 2, 3, 4, 5, 10, 11, 60, 61, 240, 499])
        plan['fl'] = min(plan['fl'], n - 1)
    elif op == 'diff':
        plan['order'] = rng.pick([1, 2])
    if op in ('gauss', 'diff') and rng.chance(.15):      # counts, as a meter gives them
        plan['int'] = True
    plan['samp'] = rng.pick([1, 1, 2, 10, 0.1, 0.5, 3.7])
    plan['chan'] = rng.randrange(3)
    sets = []
    for _ in range(rng.pick([1, 2, 4, 8])):
        fs = []
        for _ in range(rng.pick([1, 1, 2, 4])):
            k = rng.pick(['spike', 'spike', 'missing', 'missing', 'dropout', 'step', 'frozen', 'crash', 'infinite'])
            fs.append({'k': k, 'at': rng.pick([rng.random(), rng.random(), rng.random(), 0.0, 0.9999]), 'm': rng.pick([1, 2, 5, 20]), 'a': rng.pick([1e-3, 1, 1e3, -1e6]),
                       'ch': rng.randrange(3)})
        sets.append({'faults': fs})
    plan['sets'] = sets
    return plan


def record(plan):
    n, s = plan['n'], plan['vseed']
    u = np.random.RandomState(s % (2 ** 31))
    if plan['op'] in ('gauss', 'diff'):
        x = np.cumsum(u.standard_normal(n)) * 10 ** u.uniform(-3, 3) + u.uniform(-1000, 1000)
        return [np.round(x * 10) if plan.get('int') else x]
    t = np.arange(n) / plan['samp']
    v = u.uniform(0, 1e-4)
    lat = u.uniform(-70, 70) + v * t * u.uniform(-1, 1) + np.cumsum(u.standard_normal(n)) * 1e-6
    lon = u.uniform(-170, 170) + v * t * u.uniform(-1, 1) + np.cumsum(u.standard_normal(n)) * 1e-6
    return [lon, lat] + ([np.cumsum(u.standard_normal(n)) * .05] if plan['op'] == 'eotvos' else [])


def dress(plan, x):
    """The container the user keeps the record in."""
    k = plan['as']
    if plan.get('int') and np.isfinite(x).all() and np.array_equal(x, np.round(x)):
        x = x.astype(int)
    if k == 'array':
        return x.copy()
    n = len(x)
    idx = {'series': np.arange(n), 'offset': np.arange(n) + 17, 'time': pd.date_range('2022-01-01', periods=n, freq='s'),
           'permuted': np.random.RandomState(plan['vseed'] % 1000).permutation(n)}[k]
    return pd.Series(x.copy(), index=idx)


def call(plan, xs):
    a = [dress(plan, x) for x in xs]
    try:
        r = operate(plan, a)
    except Exception as e:
        if plan['op'] == 'vel' and plan['as'] != 'array':   # documented for arrays: a Series may be refused, not misread
            return call(dict(plan, **{'as': 'array'}), xs)
        raise Violation('raised', '%s of %d samples (%s) raised %r' % (plan['op'], len(xs[0]), plan['as'], e))
    for x, b in zip(xs, a):
        if not np.array_equal(x, np.asarray(b), equal_nan=True):
            raise Violation('argument', '%s modified its argument' % plan['op'])
    return [np.asarray(y, dtype=float) for y in r]


def operate(plan, a):
    from shipgrav import grav, nav, utils
    if plan['op'] == 'gauss':
        r = [utils.gaussian_filter(a[0], plan['fl'])]
    elif plan['op'] == 'diff':
        r = [grav.center_diff(a[0], plan['order'], plan['samp'])]
    elif plan['op'] == 'eotvos':
        r = [grav.eotvos_full(a[0], a[1], a[2], plan['samp'])]
    else:
        r = list(nav.latlon_to_EN(a[0], a[1], plan['samp']))
    return r


def tol(plan, xs):
    if plan['op'] == 'gauss':
        return 1e-9 * (1 + np.nanmax(np.abs(xs[0])))
    if plan['op'] == 'diff':
        return 1e-9 * (1 + np.nanmax(np.abs(xs[0]))) * plan['samp'] ** plan['order']
    if plan['op'] == 'eotvos':
        return 1e-5 * max(1, plan['samp'] ** 2)
    return 1e-6 * max(1, plan['samp'])


def apply(plan, xs, fs, ctx):
    """The disturbed record; the samples it damaged; how long it is."""
    n = plan['n']
    ys = [x.copy() for x in xs]
    hit = np.zeros(n, bool)
    end = n
    least = {'gauss': plan.get('fl', 0) + 1, 'diff': 3, 'eotvos': 4, 'vel': 11}[plan['op']]
    for f in fs:
        p = int(f['at'] * n)
        y = ys[f['ch'] % len(ys)]
        k = f['k']
        if k == 'crash':
            end = min(end, max(p, least))
        elif k == 'spike':
            y[p] += f['a']
            hit[p] = True
        elif k == 'missing':
            y[p] = np.nan
            hit[p] = True
        elif k == 'infinite':
            y[p] = np.inf
            hit[p] = True
        elif k == 'dropout':
            y[p:p + f['m']] = np.nan
            hit[p:p + f['m']] = True
        elif k == 'frozen':
            y[p:p + f['m']] = y[p]
            hit[p:p + f['m']] = True
        elif k == 'step':
            y[p:] += f['a']
            hit[p:] = True
        ctx.fault(k)
    return [y[:end] for y in ys], hit[:end], end


def run(plan, ctx):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    xs = record(plan)
    ref = call(plan, xs)
    check_shape(plan, xs, ref)
    eps = tol(plan, xs)
    w = None
    if plan['op'] == 'gauss':
        w = impulse(plan)
    against(plan, ref, reference(plan, xs, w), eps, 'undisturbed')
    ctx.observe([r.tobytes() for r in ref])
    n = plan['n']
    for j, s in enumerate(plan['sets']):
        fs = s['faults']
        if any(f['k'] == 'step' for f in fs) and plan['op'] != 'gauss':
            fs = [f for f in fs if f['k'] != 'step']
        ys, hit, end = apply(plan, xs, fs, ctx)
        got = call(plan, ys)
        check_shape(plan, ys, got)
        far = spread(plan, hit, end)
        what = '%s with %s' % (plan['op'], [(f['k'], int(f['at'] * n)) for f in fs])
        for r, g in zip(ref, got):
            if plan['op'] == 'vel':
                far[:5], far[-5:] = True, True
            keep = ~far
            m = len(g)
            a, b = g[keep[:m]], r[:m][keep[:m]]
            bad = ~((np.abs(a - b) <= eps) | (np.isnan(a) & np.isnan(b)))
            if bad.any():
                p = np.nonzero(keep[:m])[0][np.nonzero(bad)[0][0]]
                raise Violation('spread', '%s of %d samples: output %d is %r, undisturbed %r, and no damaged sample lies within its stencil' % (what, end, p, g[p], r[p]))
        # what an infinite sample makes is not a number to be used
        inf = np.nonzero(np.isinf(ys[0]))[0] if plan['op'] in ('gauss', 'diff') else ()
        for p in inf:
            at = range(p, min(end, p + len(w))) if plan['op'] == 'gauss' else [q for q in (p - 2, p) if 0 <= q < len(got[0])]
            for q in at:
                if np.isfinite(got[0][q]):
                    raise Violation('hidden', '%s: output %d is %r, though sample %d in its stencil is infinite' % (what, q, got[0][q], p))
        # a value that needs a missing sample is undefined, not invented
        if plan['op'] in ('eotvos', 'vel'):
            five = [q for q in range(-5, 6) if q]
            for y, g, reach in [(ys[1], got[0], five), (ys[0], got[1], five)] if plan['op'] == 'vel' else \
                    [(ys[0], got[0], [-1, 1]), (ys[1], got[0], [-1, 0, 1]), (ys[2], got[0], [-1, 0, 1])]:
                for p in np.nonzero(np.isnan(y))[0]:
                    for q in reach:
                        if (plan['op'] == 'vel' or 1 <= p + q <= end - 2) and 0 <= p + q < end and np.isfinite(g[p + q]):
                            raise Violation('invented', '%s: output %d is %r, though sample %d in its stencil is missing' % (what, p + q, g[p + q], p))
        # within the stencil a finite disturbance acts as in the reference
        if not any(f['k'] == 'infinite' for f in fs):
            big = max([abs(f['a']) for f in fs if f['k'] in ('spike', 'step')] + [0])
            if plan['op'] in ('gauss', 'diff'):
                # the summing order may cost rounding at the size of the disturbance
                against(plan, got, reference(plan, ys, w), eps + 1e-9 * big * max(1, plan['samp'] ** 2), what, undefined(plan, ys[0]))
        ctx.cover(plan['op'], plan.get('fl', plan.get('order')), plan['as'], [(f['k'], int(4 * f['at'])) for f in fs])
        if any(0 < int(f['at'] * n) < n - 1 for f in fs):
            ctx.nontrivial = True
        ctx.observe([g.tobytes() for g in got])


def check_shape(plan, xs, out):
    n = len(xs[0])
    want = n - 2 if plan['op'] == 'diff' else n
    for r in out:
        if r.shape != (want,):
            raise Violation('shape', '%s of %d samples (%s) returned shape %s' % (plan['op'], n, plan['as'], r.shape))
    if plan['op'] == 'vel':
        for r in out:
            if not (np.isnan(r[:5]).all() and np.isnan(r[-5:]).all()):
                raise Violation('edges', 'the five samples at an edge are not undefined: %s ... %s' % (r[:5], r[-5:]))
            if all(np.isfinite(x).all() for x in xs) and np.isnan(r[5:-5]).any():
                raise Violation('edges', 'undefined velocities inside a complete record of %d' % n)
    if plan['op'] == 'eotvos':
        r = out[0]
        if not (same(r[0], r[1]) and same(r[-1], r[-2])):
            raise Violation('edges', 'edge values %r %r are not repeats of %r %r' % (r[0], r[-1], r[1], r[-2]))


def same(a, b):
    return a == b or (np.isnan(a) and np.isnan(b))


def spread(plan, hit, end):
    """Outputs whose stencil holds a damaged sample (or that the crash took the neighbours of)."""
    m = len(hit)
    far = np.zeros(m, bool)
    idx = np.nonzero(hit)[0]
    op = plan['op']
    if op == 'gauss':
        for p in idx:
            far[p:p + plan['fl'] + 1] = True
        return far
    if op == 'diff':          # output k belongs to sample k+1
        for p in idx:
            far[max(0, p - 2):p + 1] = True
        return far[:m - 2] if m > 2 else far
    r = 1 if op == 'eotvos' else 5
    for p in idx:
        far[max(0, p - r):p + r + 1] = True
    if op == 'eotvos':
        far[0] |= far[1]
        far[-1] |= far[-2]
        if end < plan['n']:
            far[-1] = True
    return far


def impulse(plan):
    """The filter's weights, from its answer to one unit sample."""
    n, fl = plan['n'], plan['fl']
    e = np.zeros(max(n, 2 * fl + 4))
    p = fl // 2
    e[p] = 1
    r = call(dict(plan, n=len(e)), [e])[0]
    w = r[p:p + fl + 1]
    if np.any(r[:p] != 0) or np.any(r[p + fl + 1:] != 0):
        raise Violation('stencil', 'a unit sample at %d gives output outside %d..%d (filter length %d)' % (p, p, p + fl, fl))
    w = np.trim_zeros(w, 'b')
    if len(w) == 0 or np.any(w <= 0):
        raise Violation('weights', 'weights of length %d are not positive: %s' % (fl, w[:6]))
    if abs(w.sum() - 1) > 1e-9:
        raise Violation('weights', 'weights of filter length %d sum to %r' % (fl, w.sum()))
    if np.max(np.abs(w - w[::-1])) > 1e-12:
        raise Violation('weights', 'weights of filter length %d are not symmetric' % fl)
    return w


def reference(plan, xs, w):
    """Independent evaluation of the stencil."""
    x = xs[0]
    n = len(x)
    if plan['op'] == 'gauss':
        out = np.zeros(n)
        for k in range(len(w)):
            out[k:] += w[k] * x[:n - k]
        return [out]
    if plan['op'] == 'diff':
        s = plan['samp']
        if plan['order'] == 1:
            return [np.array([(x[k + 1] - x[k - 1]) * s / 2 for k in range(1, n - 1)])]
        return [np.array([(x[k + 1] - 2 * x[k] + x[k - 1]) * s * s for k in range(1, n - 1)])]
    return None


def undefined(plan, x):
    """Outputs with a missing sample anywhere in their stencil may be undefined, even if its weight is zero."""
    miss = ~np.isfinite(x)
    return miss[:-2] | miss[1:-1] | miss[2:] if plan['op'] == 'diff' else False


def against(plan, got, want, eps, what, free=False):
    if want is None:
        return
    for g, w in zip(got, want):
        bad = ~((np.abs(g - w) <= eps) | (np.isnan(g) & (np.isnan(w) | free)))
        if bad.any():
            p = int(np.nonzero(bad)[0][0])
            raise Violation('value', '%s (%s): output %d is %r, its stencil gives %r' % (what, {k: plan[k] for k in ('op', 'n', 'as', 'samp', 'fl', 'order') if k in plan}, p, g[p], w[p]))
