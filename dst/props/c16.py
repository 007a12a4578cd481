"""C16: cross-coupling estimation uses all continuous data and never bridges a gap."""
import warnings

import numpy as np
import pandas as pd
from scipy.signal import firwin

from ..core import Violation

ID = 'C16'
TITLE = 'Cross-coupling estimation uses all continuous data and never bridges a gap'
TECHNIQUE = 'deterministic simulation: recordings interrupted by seeded gaps, restarts and garbage stretches; known coefficients as oracle, per-stretch reference'
RUNS = {'quick': 5000, 'thorough': 40000}
RULE = ('a run records gravity that depends on the five monitors with known coefficients, in up to 8 stretches separated by gaps, restarts with other '
        'offsets and drifts, and short gaps; stretches under 1000 samples may hold garbage or nothing usable; the regression must give the coefficients '
        'back and its rows must be those of each long stretch processed alone; non-trivial: at least one gap splits the recording')
STATE_MEASURE = 'tuples (stretch-length classes in order, gap classes in order, sampling interval, container, faults in each stretch)'
REAL = ['calc_cross_coupling_coefficients', 'statsmodels, scipy.signal, numpy, pandas']
STUB = ['meter, monitors, data system restarts']
ASSUMPTIONS = ['coefficients to 1e-5 of the largest; rows to 1e-9 of their scale', 'stretches of exactly 1000 samples are left open']
SHRINK_LISTS = ('parts', 'short', 'shocks')
SHRINK_MIN = {'parts': 1}
SHRINK_INTS = {}
MUST_FIRE = ('gap', 'short_gap', 'restart_offset', 'drift', 'garbage_short_stretch', 'missing_short_stretch', 'shock', 'thinned', 'early_or_late')
NAMES = ('ve', 'vcc', 'al', 'ax', 'lev')
TAY = np.array([1 / 1260, -5 / 504, 5 / 84, -5 / 21, 5 / 6, 0, -5 / 6, 5 / 21, -5 / 84, 5 / 504, -1 / 1260])
FIR = firwin(200, 1 / 200, window='blackman')


def gen(rng, i):
    k = rng.pick([1, 2, 2, 3, 3, 4, 5, 8])
    many = rng.chance(.04)          # a meter that keeps falling out
    if many:
        k = rng.randint(20, 60)
    must = rng.randrange(k) if not many else k - 1 - rng.randrange(3)
    parts = []
    for j in range(k):
        n = rng.pick([1, 2, 300, 998, 999, 999, 1001, 1001, 1002, 1500, 2200, 3000]) if j != must else rng.pick([1400, 1700, 2500])
        if many and j != must:
            n = rng.pick([1, 2, 3, 10, 40, 40, 200, 1001 if rng.chance(.2) else 5])
        p = {'n': n, 'gap': rng.pick([6, 6, 7, 10, 100, 86400, 3e7]), 'off': rng.pick([0, 10., -1000., 1e4]), 'drift': rng.pick([0, 0, .01, -.5]),
             'bad': rng.pick(['', 'garbage', 'nan']) if n < 1000 else '', 'short': [],
             'shocks': [[rng.random(), rng.pick([30., -300., 3000.])] for _ in range(rng.pick([0, 0, 1, 2]))]}
        for _ in range(rng.pick([0, 0, 1, 3])):
            p['short'].append([rng.random(), rng.pick([2, 3, 4, 5])])
        if rng.chance(.15):         # a stretch of which only every second (third, ...) sample was kept
            p['thin'] = rng.pick([2, 3, 4, 5])
        parts.append(p)
    jit = rng.pick([0, 0, .1, .4])          # samples a little early or late
    if jit:
        for p in parts:
            p['gap'] = max(p['gap'], 7)
            p['short'] = [[a, min(b, 4)] for a, b in p['short']]
            if 'thin' in p:
                p['thin'] = min(p['thin'], 4)
    return {'jit': jit, 'parts': parts, 'dt': rng.pick([1, 1, 1, .5, 2, 10, .125]), 't0': rng.pick([0, 1000, 1.6e9]), 'vseed': rng.randrange(10 ** 9),
            'as': rng.pick(['array', 'array', 'series', 'offset', 'time']), 'level': rng.pick(['zero', 'zero', 'live']),
            'coef': [rng.pick([0, .01, -.5, 1, 3.25, -20]) for _ in range(5)], 'times': rng.pick(['array', 'array', 'list', 'series'])}


def world(plan, ctx):
    ms, faa, ts, ends = [], [], [], []
    t = float(plan['t0'])
    dt = plan['dt']
    for j, p in enumerate(plan['parts']):
        n = p['n']
        u = np.random.RandomState((plan['vseed'] + 7919 * j) % (2 ** 31))
        m = u.standard_normal((5, n))
        # slow sea-state modulation on top of the noise
        x = np.arange(n)
        for c in range(5):
            m[c] += 3 * np.sin(2 * np.pi * x / u.uniform(300, 900) + u.uniform(0, 6))
        for pos, a in p.get('shocks', ()):     # a sea that hits the ship: monitors and gravity feel it together
            m[:4, min(n - 1, int(pos * n))] += a * u.standard_normal(4)
            ctx.fault('shock')
        if plan['level'] == 'zero':
            m[4] = 0
        g = p['off'] + p['drift'] * x
        f = g - sum(b * v for b, v in zip(plan['coef'], m))
        if p['bad'] == 'garbage' and n < 1000:
            f = u.standard_normal(n) * 1e5
            ctx.fault('garbage_short_stretch')
        elif p['bad'] == 'nan' and n < 1000:
            f = np.full(n, np.nan)
            m[u.randint(5), :] = np.nan
            ctx.fault('missing_short_stretch')
        if p['off'] and j:
            ctx.fault('restart_offset')
        if p['drift']:
            ctx.fault('drift')
        d = np.full(n, float(dt))
        for pos, mult in p['short']:
            q = int(pos * n)
            if 0 < q < n:
                d[q] = mult * dt
                ctx.fault('short_gap')
        if 'thin' in p:
            d[n // 20:] = p['thin'] * dt
            ctx.fault('thinned')
        d[0] = p['gap'] * dt if j else 0
        if j:
            ctx.fault('gap')
        tt = t + np.cumsum(d)
        t = tt[-1]
        ms.append(m)
        faa.append(f)
        ts.append(tt)
        ends.append(n)
    if plan.get('jit'):
        u = np.random.RandomState(plan['vseed'] % (2 ** 31))
        late = [u.uniform(-plan['jit'], plan['jit'], len(tt)) * dt * (u.uniform(0, 1, len(tt)) < (1 if plan['vseed'] % 2 else 3. / len(tt))) for tt in ts]
        ts = [tt + x for tt, x in zip(ts, late)]
        ctx.fault('early_or_late', sum(int(np.count_nonzero(x)) for x in late))
    ctx.sim_s += t - plan['t0']
    return np.concatenate(faa), np.concatenate(ms, axis=1), np.concatenate(ts), ends


def reference(x):
    """One stretch: two derivatives, filter, transients off."""
    n = len(x)

    def conv(a, w):
        out = np.zeros(len(a) - len(w) + 1)
        for k in range(len(w)):
            out += w[k] * a[len(w) - 1 - k:len(a) - k]
        return out
    y = conv(conv(x, TAY), TAY)
    m = n - 20
    return conv(y, FIR)[1:m - 200 - 199] if m > 400 else np.zeros(0)


def dress(plan, x):
    k = plan['as']
    if k == 'array':
        return x.copy()
    n = len(x)
    idx = {'series': np.arange(n), 'offset': np.arange(n) + 17, 'time': pd.date_range('2022-01-01', periods=n, freq='s')}[k]
    return pd.Series(x.copy(), index=idx)


def run(plan, ctx):
    warnings.simplefilter('ignore')
    from shipgrav.grav import calc_cross_coupling_coefficients as ccc
    faa, m, t, ends = world(plan, ctx)
    args = [dress(plan, a) for a in (faa, m[1], m[0], m[2], m[3], m[4])]
    kw = {}
    if len(ends) > 1 or plan['parts'][0]['short'] or plan['vseed'] % 2:
        tt = {'array': t.copy(), 'list': list(t), 'series': pd.Series(t)}[plan['times']]
        kw = {'times': tt, 'samplerate': plan['dt']}
        if plan['dt'] == 1 and plan['vseed'] % 3 == 0:      # one second is what it takes them for
            del kw['samplerate']
    df, model = ccc(*args, **kw)
    for a, b in zip(args, (faa, m[1], m[0], m[2], m[3], m[4])):
        if not np.array_equal(np.asarray(a), b, equal_nan=True):
            raise Violation('argument', 'an input was modified')
    lens = 'stretches of %s, gaps %s, interval %s' % (ends, [p['gap'] for p in plan['parts'][1:]], plan['dt'])
    # rows
    want = {k: [] for k in NAMES + ('g',)}
    a = 0
    for n in ends:
        if n >= 1000:
            for c, k in enumerate(NAMES):
                want[k].append(reference(m[c, a:a + n]))
            want['g'].append(-reference(faa[a:a + n]))
        a += n
    rows = sum(len(x) for x in want['g'])
    if len(df) != rows:
        raise Violation('rows', '%s: %d rows in the regression, the stretches of over 1000 samples give %d' % (lens, len(df), rows))
    for k in want:
        w = np.concatenate(want[k])
        g = np.asarray(df[k], dtype=float)
        eps = 1e-9 * np.max(np.abs(w)) + 1e-9 * (1e-3 + max(abs(p['off']) + abs(p['drift']) * p['n'] for p in plan['parts'])) * .01
        bad = ~(np.abs(g - w) <= eps)
        if bad.any():
            p = int(np.nonzero(bad)[0][0])
            raise Violation('bridge', '%s: row %d of %s is %r, the stretches processed alone give %r (%d rows differ)' % (lens, p, k, g[p], w[p], bad.sum()))
    # coefficients
    scale = max(abs(b) for b in plan['coef'])
    for k, b in zip(NAMES, plan['coef']):
        if k == 'lev' and plan['level'] == 'zero':
            continue
        got = model.params[k]
        if not abs(got - b) <= 1e-5 * scale + 1e-6:
            raise Violation('coefficient', '%s: %s estimated as %r, gravity was made with %r' % (lens, k, got, b))
    ctx.observe([df.to_numpy().tobytes(), np.round(np.asarray(model.params), 9).tolist()])
    ctx.cover(ends, [p['gap'] for p in plan['parts'][1:]], plan['dt'], plan['as'], [p['bad'] for p in plan['parts']], [(len(p['short']), p.get('thin')) for p in plan['parts']])
    if len(ends) > 1:
        ctx.nontrivial = True
