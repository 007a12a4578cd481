"""C17: corrections applied along a voyage are physically right at every instant."""
import datetime
import math
import os
import warnings

import numpy as np
import pandas as pd

from .. import core, formats as F, physics as P, world
from ..core import Violation

ID = 'C17'
TITLE = 'Corrections applied along a voyage are physically right at every instant'
TECHNIQUE = 'deterministic simulation: voyages of a simulated vessel, meter and receiver; independent evaluations of the published formulas as oracle'
RUNS = {'quick': 10000, 'thorough': 40000}
RULE = ('a run sails one seeded voyage (speed, course, turns, waves, height, date, sampling) and compares every correction with the independent '
        'evaluation at every sample, in memory with missing samples, or reduces the record of a simulated meter (in memory, or through the navigation '
        'and meter files of a ship whose transport loses, repeats and delays messages) to the anomaly put in; non-trivial: a rollover, a crossing of '
        'the antimeridian or the equator, a missing sample or a transport fault')
STATE_MEASURE = 'tuples (mode, sampling, rollover kind, crossings, latitude band, speed class, container types, missing inputs)'
REAL = ['longman_tide_prediction, eotvos_full, center_diff, wgs_grav, free_air_second_order', 'read_nav and read_dgs_laptop in file mode', 'numpy, pandas, scipy']
STUB = ['vessel, sea, Earth, Sun and Moon (dst/physics.py)', 'meter, GPS receiver, loggers and transport in file mode']
ASSUMPTIONS = ['tide to 5e-5 mGal of the paper (whole seconds of the time count) and 0.006 mGal of the almanac',
               'Eotvos to first order in the flattening, as published: 5e-5 of the correction and of the horizontal acceleration',
               'track longitudes are continuous, as read_nav returns them']
SHRINK_LISTS = ('missing', 'faults')
SHRINK_INTS = {'n': 12}
MUST_FIRE = ('rollover', 'antimeridian', 'equator', 'missing_position', 'missing_height', 'missing_time', 'msg_loss', 'msg_dup', 'msg_delay_reorder')
ELLS = [[6378137.0, 6356752.3141], [6378206.4, 6356583.8], [6378388.0, 6356911.946], [6377397.155, 6356078.963], [6371000.0, 6371000.0]]
UTC = datetime.timezone.utc
# meters on board, and what they must be shifted by (the values known when the repository was pinned)
METERS = {'Atlantis': ['dgs', 'bgm', 'rgs'], 'NBP': ['dgs', 'dgs', 'rgs'], 'Thompson': ['dgs', 'bgm'], 'Revelle': ['dgs', 'bgm'], 'Ride': ['dgs'], 'Langseth': ['dgs', 'bgm'],
          'Sikuliaq': ['dgs']}
BIAS = {'Atlantis': {'dgs': 969751.259, 'bgm': 855580.65}, 'Thompson': {'dgs': 969492.789, 'bgm': 855489.8}, 'Revelle': {'dgs': 968888.6465, 'bgm': 855240.81987},
        'NBP': {'dgs': 968634.2514}, 'Ride': {'dgs': 968895.7718}, 'Langseth': {'dgs': 969376.125, 'bgm': 854974.4}, 'Sikuliaq': {'dgs': 969538.8152}}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)


def gen(rng, i):
    mode = rng.pick(['fields'] * 6 + ['meter'] * 3 + ['files'])
    y = F.any_year(rng, 2001 if mode == 'files' else 1985)
    n = rng.pick([12, 20, 60, 60, 150])
    dt = rng.pick([.1, .5, 1, 1, 1, 2, 10, 60, 600])
    if mode == 'meter':
        dt = rng.pick([.5, 1, 1, 2])
    if mode == 'files':
        dt, n = 1, rng.pick([60, 150, 400])
    roll = rng.pick(['none', 'midnight', 'noon', 'year', 'leapday', 'leapend', 'month', 'hour'])
    at = {'year': F.utc(y, 1, 1), 'leapday': F.utc(2000 + 4 * rng.randint(0, 9), 2, 29), 'leapend': F.utc(2000 + 4 * rng.randint(0, 9), 3, 1),
          'month': F.utc(y, rng.randint(2, 12), 1)}.get(roll, F.utc(y, rng.randint(1, 12), rng.randint(1, 28)))
    if roll == 'noon':
        at += 12 * 3600 * F.US
    if roll == 'hour':
        at += rng.randrange(24) * 3600 * F.US
    span = int(n * dt * F.US)
    start = at - int(rng.random() * span) if roll != 'none' else at + rng.randrange(86400) * F.US
    start -= start % F.US
    if mode == 'files':
        start = max(start, F.utc(2000, 1, 1))
    v = rng.pick([0, .5, 3, 6, 10, 16, 20])
    course = rng.pick([0, 45, 90, 135, 180, 225, 270, 315, rng.uniform(0, 360), rng.uniform(0, 360)])
    lat0 = rng.pick([rng.uniform(-78, 78), rng.uniform(-60, 60), 0.0, rng.uniform(-1e-3, 1e-3)])
    lon0 = rng.pick([rng.uniform(-180, 180), rng.uniform(-180, 180), 0.0, 180.0, -180.0, 179.9995, -179.9995])
    p = {'mode': mode, 'n': n, 'dt': dt, 'start': start, 'roll': roll, 'v': v, 'course': course, 'lat0': lat0, 'lon0': lon0,
         'swing': rng.pick([0, 0, .3, 2]), 'swing_per': rng.pick([600., 1800.]), 'wave': 0, 'wave_per': rng.pick([6., 9., 15.]),
         'h0': rng.pick([0, 0, 12.5, -25.0, 300.0]), 'heave': 0, 'vseed': rng.randrange(10 ** 9), 'missing': [], 'alt': 0}
    if mode == 'fields':
        p['wave'] = rng.pick([0, 0, .5, 3])
        p['heave'] = rng.pick([0, 0, 1, 4])
        p['alt'] = rng.pick([0, 0, 0, 'h', 1234.5, 10000.0, 40000.0])
        if rng.chance(.1):
            p['h0'] = 12000.0        # airborne
            if rng.chance(.6):
                p['v'] = rng.pick([60, 120, 250])
                p['lat0'] = rng.pick([lat0, -84.0, 83.0, 87.0])
        p['ell'] = rng.pick([None] * 5 + ELLS)
        for _ in range(rng.pick([0, 0, 1, 2, 4])):
            p['missing'].append({'what': rng.pick(['lon', 'lat', 'ht', 'time']), 'at': rng.random(), 'm': rng.pick([1, 1, 3])})
        p['as'] = rng.pick(['array', 'array', 'series', 'offset'])
        p['times'] = rng.pick(['datetime', 'datetime', 'index', 'series', 'zone', 'stamps'])
        p['water'] = rng.chance(.3)
    elif mode == 'files':
        p['v'] = rng.pick([0, 3, 6, 10])
        p['swing'] = 0
        p['h0'] = rng.pick([0, 10.0])
        p['ship'] = rng.pick(list(F.NAV) + ['Atlantis', 'Revelle', 'NBP', 'Thompson'])
        p['meter'] = rng.pick(METERS[F.shipname(p['ship'])])
        if abs(p['lon0']) > 179:
            p['lon0'] = rng.pick([179.9995, -179.9995])
        p['loggers'] = []
        for which in ('nav', 'meter'):
            fs = [f for f in world.gen_link_faults(rng, n, n * F.US, rate=1.5, max_delay=5000000, steps=None)]
            lg = {'skew': rng.randint(-2000000, 2000000), 'latency': rng.pick([0, 5000, 300000]), 'seed': rng.randrange(10 ** 6), 'faults': fs}
            if F.NAV[p['ship']]['clock'] == 'log' if which == 'nav' else p['meter'] != 'dgs' or p['ship'] == 'Thompson':
                # the logger's clock is the only one: it is right, and the line is prompt
                lg.update(skew=0, latency=0, faults=[dict(f, d=0) if f['k'] == 'dup' else f for f in fs if f['k'] != 'delay'])
            p['loggers'].append(lg)
    return p


def state(p, t):
    """Position, rates and height at t seconds: (lat, lon, h, dlat, dlon, ddlat-ish acceleration scale)."""
    c = math.radians(p['course'])
    w = 2 * math.pi / p['swing_per']
    u = 2 * math.pi / p['wave_per']
    kn, ke = 111000.0, 111000.0 * math.cos(math.radians(p['lat0']))
    sw, wv = p['swing'] / w, p['wave']
    north = p['v'] * math.cos(c) * t + sw * math.sin(w * t) + wv * math.sin(u * t)
    east = p['v'] * math.sin(c) * t - sw * math.cos(w * t) + wv * math.cos(u * t + 1)
    vn = p['v'] * math.cos(c) + sw * w * math.cos(w * t) + wv * u * math.cos(u * t)
    ve = p['v'] * math.sin(c) + sw * w * math.sin(w * t) - wv * u * math.sin(u * t + 1)
    h = p['h0'] + p['heave'] * math.sin(u * t + .5)
    return p['lat0'] + north / kn, p['lon0'] + east / ke, h, math.radians(vn / kn), math.radians(ve / ke)


def zoned(us):
    return EPOCH + datetime.timedelta(microseconds=us)


def stamps(p, us, gone):
    k = p['times']
    out = [pd.NaT if j in gone else zoned(u) for j, u in enumerate(us)]
    if k == 'zone':
        z = [datetime.timezone(datetime.timedelta(minutes=m)) for m in (-720, -570, 0, 345, 840)]
        return [e if e is pd.NaT else e.astimezone(z[p['vseed'] % 5]) for e in out]
    if k == 'stamps':
        return [e if e is pd.NaT else pd.Timestamp(e) for e in out]
    if k == 'index':
        return pd.DatetimeIndex(out)
    if k == 'series':
        return pd.Series(pd.DatetimeIndex(out), index=range(5, 5 + len(out)) if p['as'] == 'offset' else None)
    return out


def dress(p, x):
    if p['as'] == 'array':
        return x.copy()
    return pd.Series(x.copy(), index=range(5, 5 + len(x)) if p['as'] == 'offset' else None)


def crossings(p, ctx, lon, lat, us):
    cr = [len({int(u // F.DAY) for u in us}) - 1, int(np.any(np.floor((lon[1:] - 180) / 360) != np.floor((lon[:-1] - 180) / 360))),
          int(np.any(np.sign(lat[1:]) != np.sign(lat[:-1])))]
    ctx.fault('rollover', cr[0])
    ctx.fault('antimeridian', cr[1])
    ctx.fault('equator', cr[2])
    ctx.sim_s += p['n'] * p['dt']
    return cr


def close(name, got, want, eps, where):
    got = np.asarray(got, dtype=float)
    if got.shape != np.asarray(want).shape:
        raise Violation('shape', '%s of %d samples has shape %s' % (name, len(want), got.shape))
    bad = ~((np.abs(got - want) <= eps) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        raise Violation(name, '%s at sample %d (%s) is %r, independent evaluation %r' % (name, j, where(j), got[j], want[j]))


def run(plan, ctx):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    n, dt = plan['n'], plan['dt']
    us = [plan['start'] + int(round(j * dt * F.US)) for j in range(n)]
    st = [state(plan, j * dt) for j in range(n)]
    lat, lon, h = (np.array([s[k] for s in st]) for k in (0, 1, 2))
    cr = crossings(plan, ctx, lon, lat, us)
    {'fields': fields, 'meter': meter, 'files': files}[plan['mode']](plan, ctx, us, st, lat, lon, h)
    ctx.cover(plan['mode'], plan.get('ship'), plan.get('meter'), dt, plan['roll'], cr, int(plan['lat0'] // 20), plan['v'], plan.get('as'), plan.get('times'), [m['what'] for m in plan['missing']],
              sorted(ctx.faults), plan['alt'], plan.get('ell'), bool(plan['wave']), bool(plan['heave']))
    if any(cr) or plan['missing'] or any(k.startswith('msg') for k in ctx.faults):
        ctx.nontrivial = True


def fields(plan, ctx, us, st, lat, lon, h):
    from shipgrav import grav as G
    n, dt = plan['n'], plan['dt']
    gone = {'lon': set(), 'lat': set(), 'ht': set(), 'time': set()}
    for m in plan['missing']:
        a = int(m['at'] * n)
        gone[m['what']] |= set(range(a, min(n, a + m['m'])))
        ctx.fault({'lon': 'missing_position', 'lat': 'missing_position', 'ht': 'missing_height', 'time': 'missing_time'}[m['what']])
    for k, x in (('lon', lon), ('lat', lat), ('ht', h)):
        x[sorted(gone[k])] = np.nan

    def where(j):
        return 'lon %r lat %r height %r at %s' % (lon[j], lat[j], h[j], zoned(us[j]).isoformat())
    ok = [not (np.isnan(lat[j]) or np.isnan(lon[j]) or j in gone['time']) for j in range(n)]
    # tide
    alt = None if plan['alt'] == 0 else h if plan['alt'] == 'h' else plan['alt']
    kw = {} if alt is None else {'alt': dress(plan, h) if plan['alt'] == 'h' else alt}
    tt = stamps(plan, us, gone['time'])
    parts = G.longman_tide_prediction(dress(plan, lon), dress(plan, lat), tt, return_components=True, **kw)
    tot = G.longman_tide_prediction(dress(plan, lon), dress(plan, lat), tt, **kw)
    ref = np.full((3, n), np.nan)
    coarse = np.full(n, np.nan)
    for j in range(n):
        a = 0.0 if alt is None else h[j] if plan['alt'] == 'h' else alt
        if ok[j] and not math.isnan(a):
            ref[:, j] = P.longman(lon[j], lat[j], us[j], a)
            coarse[j] = P.almanac(lon[j], lat[j], us[j]) * (1 + a / 6371000)
    fine = np.array([3e-6 if u % F.US == 0 else 5e-5 for u in us])     # a reader of the clock may keep whole seconds
    for name, g, w in zip(('tide', 'lunar-tide', 'solar-tide'), parts, ref):
        close(name, g, w, fine, where)
    close('tide-alone', tot, np.asarray(parts[0], dtype=float), 0, where)
    close('tide-parts', np.asarray(parts[1], dtype=float) + np.asarray(parts[2], dtype=float), np.asarray(tot, dtype=float), 1e-9, where)
    close('tide-almanac', tot, coarse, 6e-3, where)
    # normal gravity, free air
    g = G.wgs_grav(dress(plan, lat))
    close('normal-gravity', g, np.array([P.normal(x) for x in lat]), 1e-4, where)
    wat = {'free_water': True} if plan['water'] else {}
    fa = G.free_air_second_order(dress(plan, lat), dress(plan, h), **wat)
    close('free-air', fa, np.array([P.free_air(a, b, plan['water']) for a, b in zip(lat, h)]), 1e-9 * (1 + np.nanmax(np.abs(h)) if not np.isnan(h).all() else 1), where)
    # Eotvos
    s = 1 / dt
    ell = plan['ell'] or (P.A, P.B)
    kw = dict(zip('ab', ell)) if plan['ell'] else {}
    E = np.asarray(G.eotvos_full(dress(plan, lon), dress(plan, lat), dress(plan, h), s, **kw), dtype=float)
    la, lo = np.radians(lat), np.radians(lon)
    want, eps = np.full(n, np.nan), np.full(n, 1e-4)
    for j in range(1, n - 1):
        d1 = lambda x: (x[j + 1] - x[j - 1]) * s / 2
        d2 = lambda x: (x[j + 1] - 2 * x[j] + x[j - 1]) * s * s
        want[j] = P.eotvos(lat[j], h[j], d1(la), d1(lo), d2(h), ell)
        if math.isnan(lo[j]) and math.isnan(E[j]):
            want[j] = math.nan          # the published sum has a term in it that cancels
        eps[j] = 1e-4 + 5e-5 * (P.eotvos(lat[j], h[j], d1(la), abs(d1(lo)), 0) + 6.4e11 * abs(d2(la)) + 2e5 * 1.5e-4 * abs(d1(h))) + 1e-9 * abs(want[j])
    want[0], want[-1], eps[0], eps[-1] = want[1], want[-2], eps[1], eps[-2]
    close('eotvos', E, want, eps, where)
    ctx.observe([np.round(np.asarray(x, dtype=float), 9).tobytes() for x in (tot, g, fa, E)])


def anomaly(p, t):
    return 30 * math.sin(2 * math.pi * t / 900 + p['vseed'] % 7) + 5 * core.unit(p['vseed'], 'faa')


def felt(p, us, t):
    """What a perfect meter on board shows: gravity where it is, less the Eotvos effect and the pull of Moon and Sun."""
    la, lo, h, dla, dlo = state(p, t)
    return anomaly(p, t) + P.normal(la) + P.free_air(la, h) - P.eotvos(la, h, dla, dlo, 0) - P.longman(lo, la, us, 0)[0]


def reduce(g, lon, lat, h, times, samp):
    from shipgrav import grav as G
    return g - (G.wgs_grav(lat) + G.free_air_second_order(lat, h)) + G.eotvos_full(lon, lat, h, samp) + G.longman_tide_prediction(lon, lat, times)


def meter(plan, ctx, us, st, lat, lon, h):
    n, dt = plan['n'], plan['dt']
    g = np.array([felt(plan, us[j], j * dt) for j in range(n)])
    faa = reduce(g, lon, lat, h, [zoned(u) for u in us], 1 / dt)
    want = np.array([anomaly(plan, j * dt) for j in range(n)])
    E = np.array([P.eotvos(s[0], s[2], s[3], abs(s[4]), 0) for s in st])
    # the differences are second order; the flattening first
    trunc = (2 * math.pi / plan['swing_per'] * dt) ** 2 / 6
    eps = .005 + 1e-4 * np.abs(E) + plan['swing'] * 15 * trunc + 5e-5 * plan['swing'] * 2 * math.pi / plan['swing_per'] * 1e5
    for a, b in ((0, 1), (-1, -2)):       # the edge takes its neighbour's correction
        eps[a] += 1.1 * abs(P.eotvos(st[a][0], st[a][2], st[a][3], st[a][4], 0) - P.eotvos(st[b][0], st[b][2], st[b][3], st[b][4], 0))
    close('anomaly', faa, want, eps, lambda j: 'lon %r lat %r at %s' % (lon[j], lat[j], zoned(us[j]).isoformat()))
    ctx.observe(np.round(faa, 6).tobytes())


def files(plan, ctx, us, st, lat, lon, h):
    import tomli
    from shipgrav import io as sio
    from .. import gravworld as W
    ship = plan['ship']
    talker = F.NAV[ship]['talker']
    q = 10 ** (6 - F.NAV[ship]['sdig'])

    def wrap(x):
        return (x + 180) % 360 - 180

    def navfmt(stamp, j):
        txt, t, la, lo = F.gga(talker, us[j], lat[j], wrap(lon[j]), 2, 8)
        if ship == 'Revelle':
            z = F.DECOYS['ZDA']('GP', us[j], 0, 0)
            return [((F.nav_prefix(ship, stamp, z) + z + '\r\n' + txt + '\r\n\n').encode(), (t, la, lo))]
        return [((F.nav_prefix(ship, stamp, txt) + txt + '\n').encode(), (t, la, lo))]
    name, kind = F.shipname(ship), plan['meter']
    bias = BIAS[name].get(kind, 0.)
    vp = {'vseed': plan['vseed'], 'wild': 0}

    def metfmt(stamp, j):
        v = W.values(vp, j)
        g = felt(plan, us[j], j * 1.0) - bias
        if kind == 'bgm':
            return [F.bgm(name, stamp, int(round(g / F.BGM_SCALE[name])), v['flag'])]
        if kind == 'rgs':
            return [F.rgs(stamp, g, v['counts'], v['lat'], v['lon'])]
        v['rgrav'] = g
        return [F.laptop(name, stamp, us[j], v, j)]
    msgs = [(u, j) for j, u in enumerate(us)]
    nf = world.acquire(msgs, plan['loggers'][0], navfmt, plan['start'], ctx, prefix='nav', quantum=q)
    head = F.SIK_HEAD if name == 'Sikuliaq' else b''
    df = world.acquire(msgs, plan['loggers'][1], metfmt, plan['start'], ctx, prefix='grav', head=head, quantum=1000)
    nf, df = [f for f in nf if f.rows()], [f for f in df if f.rows()]
    if not nf or not df:
        ctx.cover('empty')
        return
    kw = {'talker': 'GPGGA'} if ship == 'RideGP' else {}
    nav = sio.read_nav(name, world.write_files(nf, ctx.scratch), progressbar=False, **kw)
    read = {'dgs': sio.read_dgs_laptop, 'bgm': sio.read_bgm_raw, 'rgs': sio.read_bgm_rgs}[kind]
    dgs = read(world.write_files(df, ctx.scratch), name, progressbar=False)
    with open(os.path.join(os.path.dirname(sio.__file__), 'database.toml'), 'rb') as f:
        known = tomli.load(f)['bias-values'][name].get(kind, 0.) if kind != 'rgs' else 0.
    dgs['grav'] = dgs['grav' if kind == 'rgs' else 'rgrav'] + known
    # the workflow of the example scripts
    nav = nav.sort_values('time_sec').reset_index(drop=True)
    dgs = dgs.sort_values('date_time').drop_duplicates('date_time').reset_index(drop=True)
    ts = np.array([e.timestamp() for e in dgs['date_time']])
    tn = nav['time_sec'].to_numpy()
    ctx.observe([len(ts), len(tn)])
    if len(ts) < 12 or len(tn) < 2:
        return
    lo = np.interp(ts, tn, nav['lon'])
    la = np.interp(ts, tn, nav['lat'])
    z = np.full(len(ts), plan['h0'])
    faa = np.asarray(reduce(dgs['grav'].to_numpy(), lo, la, z, dgs['date_time'], 1.0), dtype=float)
    j = np.round(ts - plan['start'] / 1e6).astype(int)
    want = np.array([anomaly(plan, float(k)) for k in j])
    # rows whose neighbours the transport lost, or that no fix reaches, are not on an even track
    use = np.zeros(len(ts), bool)
    use[1:-1] = (j[1:-1] - j[:-2] == 1) & (j[2:] - j[1:-1] == 1)
    use &= (ts >= tn[0] + 1) & (ts <= tn[-1] - 1)
    eps = .02 + (F.BGM_SCALE[name] / 2 if kind == 'bgm' else .0005) + 1e-4 * P.eotvos(st[0][0], plan['h0'], st[0][3], abs(st[0][4]), 0)
    bad = use & ~(np.abs(faa - want) <= eps)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        raise Violation('chain', '%s, %s, %s: free-air anomaly %r, put in %r (%d of %d rows differ)' % (ship, kind, dgs['date_time'][k], faa[k], want[k], bad.sum(), use.sum()))
    ctx.observe(np.round(faa, 5).tobytes())
