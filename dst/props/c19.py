"""C19: the modelled gravimeter platform is a stable, damped, level-seeking system."""
import math
import warnings

import numpy as np
import pandas as pd

from ..core import Violation

ID = 'C19'
TITLE = 'The modelled gravimeter platform is a stable, damped, level-seeking system'
TECHNIQUE = 'deterministic simulation: platform driven by seeded sea states, shocks, sensor faults, flagged stretches and crashes; second, state-space platform as oracle'
RUNS = {'quick': 10000, 'thorough': 60000}
RULE = ('a run drives the platform with seeded accelerations broken by shocks, missing samples, flagged stretches holding garbage, frozen sensors and '
        'missing gravity, and integrates the tilt equations beside it; then it is run again with the future changed or cut off, with one axis silent, and '
        'with missing and flagged samples replaced by zeros; non-trivial: at least one fault fired')
STATE_MEASURE = 'tuples (periods, dampings, interval, faults with position class, containers, which axes move)'
REAL = ['up_vecs, _tilt_filter, _calc_up_vecs', 'scipy.signal, numpy, pandas']
STUB = ['platform (state-space model, trapezoidal rule), accelerometers, sea']
ASSUMPTIONS = ['damping above zero (zero selects the default), sampling at least four times per platform period',
               'either order of the two rotations is accepted at each sample (it differs by the product of the tilts)',
               'the accelerations passed in may be cleaned in place']
SHRINK_LISTS = ('faults',)
SHRINK_INTS = {'n': 2}
MUST_FIRE = ('shock', 'missing', 'flagged', 'flagged_garbage', 'frozen', 'gravity_missing', 'crash')


def gen(rng, i):
    per = lambda: rng.pick([20., 57.3, 84., 240., 300., 400., 900.])
    cper, lper = per(), per()
    if rng.chance(.4):
        lper = cper
    damp = lambda: rng.pick([math.sqrt(2) / 2, .3, .5, 1.0, 1.3, .91])
    n = rng.pick([2, 3, 20, 100, 100, 400])
    fs = []
    for _ in range(rng.pick([0, 1, 1, 2, 4])):
        fs.append({'k': rng.pick(['shock', 'missing', 'flagged', 'flagged_garbage', 'frozen', 'gravity_missing']), 'ax': rng.randrange(2),
                   'at': rng.random(), 'm': rng.pick([1, 1, 3, 20]), 'v': rng.pick([1, 1, 1, 2, .5, 16]), 'a': rng.pick([-1e5, 5e4, 2e3, 1e6])})
    return {'n': n, 'dt': rng.pick([.1, .5, 1, 1, 1, 2, 5]), 'cper': cper, 'lper': lper, 'cdamp': damp(), 'ldamp': damp(), 'vseed': rng.randrange(10 ** 9),
            'amp': rng.pick([0, 100., 5000., 20000., 20000., 2e5]), 'off': rng.pick([0, 0, 50.]), 'onset': rng.pick([0, 0, rng.random()]), 'end': rng.pick([1, 1, rng.random()]),
            'axes': rng.pick(['both', 'both', 'both', 'cross', 'long']), 'faults': fs, 'crash': rng.pick([None, rng.random()]), 'as': rng.pick(['array', 'array', 'series', 'offset']),
            'g': rng.pick(['array', 'array', 'series']), 'default': rng.chance(.15)}


def drive(p, ctx):
    n, dt = p['n'], p['dt']
    u = np.random.RandomState(p['vseed'] % (2 ** 31))
    acc = []
    for k in range(2):
        t = np.arange(n) * dt
        x = p['amp'] * (np.sin(2 * np.pi * t / max(4 * dt, u.uniform(5, 15)) + u.uniform(0, 6)) + .3 * u.standard_normal(n)) + p['off']
        x[:int(p['onset'] * n)] = 0
        x[int(p['end'] * n):] = 0
        acc.append(x)
    if p['axes'] == 'cross':
        acc[1][:] = 0
    elif p['axes'] == 'long':
        acc[0][:] = 0
    g = 978000 + 5000 * u.random_sample(n)
    flag = np.zeros(n)
    zero = [np.zeros(n, bool), np.zeros(n, bool)]
    # garbage comes last: a sensor frozen on it would not be flagged
    for f in sorted(p['faults'], key=lambda f: f['k'] == 'flagged_garbage'):
        a = min(n - 1, int(f['at'] * n))
        b = min(n, a + f['m'])
        x = acc[f['ax']]
        if (p['axes'] == 'cross' and f['ax'] == 1) or (p['axes'] == 'long' and f['ax'] == 0):
            x = acc[1 - f['ax']]
        if f['k'] == 'shock':
            x[a] += f['a']
        elif f['k'] == 'missing':
            x[a:b] = np.nan
        elif f['k'] == 'frozen':
            x[a:b] = x[a]
        elif f['k'] == 'gravity_missing':
            g[a:b] = np.nan
        else:
            flag[a:b] = f.get('v', 1)
            if f['k'] == 'flagged_garbage':
                for y in acc:
                    y[a:b] = u.choice([np.nan, np.inf, -np.inf, 1e12, -3e7], b - a)
        ctx.fault(f['k'])
    ctx.sim_s += n * dt
    return acc[0], acc[1], g, flag


def platform(drv, per, damp, dt):
    """x'' + 2 zeta w0 x' + w0^2 x = drive; tilt = (ws^2 - w0^2) x - 2 zeta w0 x', frequencies prewarped, trapezoidal rule."""
    w0 = 2 / dt * math.tan(math.pi * dt / per)
    ws = 2 / dt * math.tan(math.sqrt(9.8 / 6371100) * dt / 2)
    h = dt / 2
    # state (x, x'); solve (I - A h) s1 = (I + A h) s0 + h B (u0 + u1)
    a21, a22 = -w0 * w0, -2 * damp * w0
    det = 1 - h * a22 - h * h * a21
    x = v = u0 = 0.0
    out = np.zeros(len(drv))
    for k, u1 in enumerate(drv):
        r1 = x + h * v
        r2 = v + h * (a21 * x + a22 * v) + h * (u0 + u1)
        x = ((1 - h * a22) * r1 + h * r2) / det
        v = (h * a21 * r1 + r2) / det
        out[k] = (ws * ws - w0 * w0) * x - 2 * damp * w0 * v
        u0 = u1
    return out


def slow(per, damp):
    w0 = 2 * math.pi / per
    return damp * w0 if damp <= 1 else w0 * (damp - math.sqrt(damp * damp - 1))


def dress(k, x):
    if k == 'array':
        return x.copy()
    return pd.Series(x.copy(), index=range(9, 9 + len(x)) if k == 'offset' else None)


def call(p, c, l, g, flag):
    from shipgrav import grav as G
    ga = p['as'] if p['g'] == 'series' and p['as'] != 'array' else 'array' if p['g'] == 'array' else 'series' if p['as'] == 'array' else p['as']
    cd, ld = (False, False) if p['default'] else (p['cdamp'], p['ldamp'])
    gg = dress(ga, g)
    r = np.asarray(G.up_vecs(p['dt'], gg, dress(p['as'], c), dress(p['as'], l), dress(p['as'], flag), p['cper'], cd, p['lper'], ld), dtype=float)
    if not np.array_equal(np.asarray(gg), g, equal_nan=True):
        raise Violation('argument', 'the gravity passed in was modified')
    if r.shape != (3, len(c)):
        raise Violation('shape', 'up-vectors of %d samples have shape %s' % (len(c), r.shape))
    return r


def clean(x, g, flag):
    d = np.where((flag > 0) | ~np.isfinite(x), 0, x) / g
    return np.where(np.isnan(d), 0, d)


def run(plan, ctx):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    c, l, g, flag = drive(plan, ctx)
    n, dt = plan['n'], plan['dt']
    up = call(plan, c, l, g, flag)
    what = 'periods %s %s, damping %s %s, interval %s, faults %s' % (plan['cper'], plan['lper'], plan['cdamp'], plan['ldamp'], dt,
                                                                     [(f['k'], int(f['at'] * n)) for f in plan['faults']])
    # unit vectors
    norm = np.sqrt((up ** 2).sum(axis=0))
    if not np.all(np.abs(norm - 1) <= 1e-12):
        j = int(np.nonzero(~(np.abs(norm - 1) <= 1e-12))[0][0])
        raise Violation('unit', '%s: up-vector %d is %s, length %r' % (what, j, up[:, j], norm[j]))
    # the platform
    dc, dl = clean(c, g, flag), clean(l, g, flag)
    cd, ld = (math.sqrt(2) / 2,) * 2 if plan['default'] else (plan['cdamp'], plan['ldamp'])
    tc, tl = np.arctan(platform(dc, plan['cper'], cd, dt)), np.arctan(platform(dl, plan['lper'], ld, dt))
    one = np.array([-np.sin(tc) * np.cos(tl), -np.sin(tl), np.cos(tc) * np.cos(tl)])
    two = np.array([-np.sin(tc), -np.sin(tl) * np.cos(tc), np.cos(tc) * np.cos(tl)])
    eps = 1e-9 * max(1e-3, np.max(np.abs(tc)), np.max(np.abs(tl)))
    bad = ~((np.abs(up - one) <= eps).all(axis=0) | (np.abs(up - two) <= eps).all(axis=0))
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        raise Violation('tilt', '%s: up-vector %d is %s, the platform leans to %s' % (what, j, up[:, j], one[:, j]))
    # vertical until something moves it, and the silent axis stays level
    moved = np.nonzero((dc != 0) | (dl != 0))[0]
    first = moved[0] if len(moved) else n
    if np.any(up[:2, :first] != 0) or np.any(up[2, :first] != 1):
        raise Violation('vertical', '%s: not vertical before the first acceleration at sample %d' % (what, first))
    for k, d, name in ((0, dc, 'cross'), (1, dl, 'long')):
        if not np.any(d) and np.any(up[k] != 0):
            raise Violation('axes', '%s: no %s acceleration, but the %s component moves' % (what, name, name))
    # missing and flagged samples are samples without acceleration
    z = call(plan, np.where((flag > 0) | np.isnan(c) | np.isnan(g), 0, c), np.where((flag > 0) | np.isnan(l) | np.isnan(g), 0, l), np.where(np.isnan(g), 980000., g), np.zeros(n))
    if not np.allclose(z, up, rtol=0, atol=1e-12):
        raise Violation('missing', '%s: zeros in place of missing and flagged samples give another platform' % what)
    # no sample is affected by a later one
    if plan['crash'] is not None:
        k = max(1, int(plan['crash'] * n))
        cut = call(plan, c[:k], l[:k], g[:k], flag[:k])
        if not np.array_equal(cut, up[:, :k]):
            raise Violation('future', '%s: record cut at %d differs from the uncut record' % (what, k))
        ctx.fault('crash')
        if k < n:
            c2, l2 = c.copy(), l.copy()
            c2[k:] += 7e4
            l2[k:] = np.nan
            alt = call(plan, c2, l2, g, flag)
            if not np.array_equal(alt[:, :k], up[:, :k]):
                raise Violation('future', '%s: accelerations from %d on changed earlier up-vectors' % (what, k))
    # back to vertical a while after the last acceleration
    rest = min(slow(plan['cper'], cd), slow(plan['lper'], ld))
    m = int(30 / rest / dt) + 2
    if plan['vseed'] % 4 == 0 and m <= 6000 and n + m <= 6000:
        tail = call(plan, np.append(c, np.zeros(m)), np.append(l, np.zeros(m)), np.append(g, np.full(m, 980000.)), np.append(flag, np.zeros(m)))
        lean = np.max(np.abs(tail[:2, -1]))
        if not (lean <= 1e-9 * (1 + max(np.max(np.abs(tc)), np.max(np.abs(tl))))):
            raise Violation('settle', '%s: still leaning by %r, %d samples after the last acceleration' % (what, lean, m))
        ctx.sim_s += m * dt
    ctx.observe(np.round(up, 12).tobytes())
    ctx.cover(plan['cper'], plan['lper'], round(cd, 2), round(ld, 2), dt, [(f['k'], int(f['at'] * 4)) for f in plan['faults']], plan['as'], plan['g'], plan['axes'], bool(plan['amp']))
    ctx.nontrivial = bool(plan['faults'])
