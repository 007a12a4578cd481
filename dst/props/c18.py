"""C18: velocities, courses and rotated accelerations reproduce the vessel's motion."""
import math
import warnings

import numpy as np
import pandas as pd

from .. import physics as P
from ..core import Violation

ID = 'C18'
TITLE = "Velocities, courses and rotated accelerations reproduce the vessel's motion"
TECHNIQUE = 'deterministic simulation: seeded vessel motions with navigation dropouts; the true motion as oracle'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('a run sails a seeded vessel (straight, turning, swinging, in waves, stopped, near a pole, across the antimeridian), samples it with dropouts, and '
        'compares the derived velocities, course, speed and rotated accelerations with the true motion at every sample; non-trivial: a dropout, a full '
        'turn, a course through north or a standstill')
STATE_MEASURE = 'tuples (motion kind, rate, latitude band, quadrants visited, turns made, dropouts, container)'
REAL = ['latlon_to_EN, ENvel_to_course_heading, rotate_acceleration_EN_to_cl', 'numpy, pandas']
STUB = ['vessel on the WGS84 ellipsoid, GPS receiver']
ASSUMPTIONS = ['velocities to the truncation of a tenth-order difference plus rounding of positions (1e-14 of the angle, times the rate)',
               'track longitudes are continuous', 'the course of a vessel at rest is left open']
SHRINK_LISTS = ('waves', 'drop')
SHRINK_INTS = {'n': 11}
MUST_FIRE = ('dropout', 'frozen_heading', 'full_turn', 'through_north', 'standstill', 'missing_acceleration')


def gen(rng, i):
    n = rng.pick([11, 12, 30, 100, 300])
    dt = rng.pick([.05, .1, .5, 1, 1, 1, 2, 10, 60])
    lat0 = rng.pick([rng.uniform(-85, 85), rng.uniform(-85, 85), 0.0, rng.uniform(-1e-3, 1e-3), 85.0, -85.0])
    p = {'n': n, 'dt': dt, 'lat0': lat0, 'lon0': rng.pick([rng.uniform(-360, 360), 0.0, 180.0, -180.0, 359.999]), 'v': rng.pick([0, 0, .1, 3, 6, 10, 25]),
         'course': rng.pick([0, 90, 180, 270, 360, rng.uniform(0, 360), rng.uniform(0, 360)]), 'waves': [], 'drop': [],
         'as': rng.pick(['array', 'array', 'list', 'series', 'offset']), 'acc': {}}
    for _ in range(rng.pick([0, 0, 1, 2, 3])):
        p['waves'].append({'a': rng.pick([.2, 1, 5, 200]), 'per': dt * rng.pick([8, 10, 20, 60, 400]), 'dir': rng.uniform(0, 360), 'ph': rng.uniform(0, 6.28)})
    for _ in range(rng.pick([0, 0, 1, 2, 3])):
        p['drop'].append({'at': rng.random(), 'm': rng.pick([1, 1, 2, 10]), 'what': rng.pick(['both', 'both', 'lon', 'lat'])})
    # a planar manoeuvre for the accelerations: speed and course as functions of time
    p['acc'] = {'v0': rng.pick([0, 2, 5, 10]), 'dv': rng.pick([0, 0, .01, -.02, .3]), 'c0': rng.pick([0, 90, -90, 180, 450, -720, rng.uniform(-1080, 1080)]),
                'rate': rng.pick([0, 0, .2, -.5, 3, -10]), 'sw': rng.pick([0, 0, .3]), 'drop': rng.pick([None, None, rng.random()]), 'frozen': rng.chance(.2), 'size': rng.pick([1, 1, 1, 1, 1e-9, 1e-6, 1e-3, 1e3, 1e6])}
    return p


def track(p):
    """Positions and true velocities."""
    n, dt = p['n'], p['dt']
    t = np.arange(n) * dt
    kn = 111000.0
    ke = kn * math.cos(math.radians(p['lat0']))
    c = math.radians(p['course'])
    comps = [(p['v'] * math.cos(c), p['v'] * math.sin(c), 0, 0, 0)]
    lat, lon = p['lat0'] + comps[0][0] * t / kn, p['lon0'] + comps[0][1] * t / ke
    dlat, dlon = np.full(n, comps[0][0] / kn), np.full(n, comps[0][1] / ke)
    trunc = 0.0
    for k in p['waves']:
        w = 2 * math.pi / k['per']
        d = math.radians(k['dir'])
        a, b = k['a'] * math.cos(d), k['a'] * math.sin(d)
        lat = lat + a * np.sin(w * t + k['ph']) / kn
        lon = lon + b * np.sin(w * t + k['ph']) / ke
        dlat = dlat + a * w * np.cos(w * t + k['ph']) / kn
        dlon = dlon + b * w * np.cos(w * t + k['ph']) / ke
        trunc += k['a'] * w * (w * dt) ** 10 * 4.4e-4
    vn = np.array([P.radii(x)[0] * math.radians(y) for x, y in zip(lat, dlat)])
    ve = np.array([P.radii(x)[1] * math.cos(math.radians(x)) * math.radians(y) for x, y in zip(lat, dlon)])
    return lon, lat, ve, vn, trunc * max(1.0, np.max(np.cos(np.radians(lat))) / math.cos(math.radians(p['lat0'])))


def dress(p, x):
    if p['as'] == 'list':
        return [float(v) for v in x]
    if p['as'] in ('series', 'offset'):
        return pd.Series(x.copy(), index=range(9, 9 + len(x)) if p['as'] == 'offset' else None)
    return x.copy()


def run(plan, ctx):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from shipgrav import nav
    n, dt = plan['n'], plan['dt']
    lon, lat, ve, vn, trunc = track(plan)
    und_n, und_e = np.zeros(n, bool), np.zeros(n, bool)
    und_n[:5] = und_n[-5:] = und_e[:5] = und_e[-5:] = True
    ndrop = 0
    for f in plan['drop']:
        a = int(f['at'] * n)
        b = min(n, a + f['m'])
        if f['what'] in ('both', 'lon'):
            lon[a:b] = np.nan
            und_e[max(0, a - 5):b + 5] = True
        if f['what'] in ('both', 'lat'):
            lat[a:b] = np.nan
            und_n[max(0, a - 5):b + 5] = True
            und_e[a:b] = True
        ctx.fault('dropout', b - a)
        ndrop += b - a
    try:
        rv = nav.latlon_to_EN(dress(plan, lon), dress(plan, lat), 1 / dt)
    except Exception:
        if plan['as'] not in ('series', 'offset'):
            raise
        plan = dict(plan, **{'as': 'array'})    # documented for arrays: a Series may be refused, not misread
        ctx.cover('series-refused')
        rv = nav.latlon_to_EN(dress(plan, lon), dress(plan, lat), 1 / dt)
    if not isinstance(rv, tuple) or len(rv) != 2:
        raise Violation('shape', 'latlon_to_EN returned %r' % type(rv))
    gn, ge = (np.asarray(x, dtype=float) for x in rv)
    eps = 3e-13 * (np.nanmax(np.abs(lon)) if not np.isnan(lon).all() else 0) * 111000 / dt * 1.0 + 1e-8 / dt + trunc + 1e-6
    where = 'dt %s, course %s, %s m/s' % (dt, plan['course'], plan['v'])
    for name, g, w, u in (('north', gn, vn, und_n), ('east', ge, ve, und_e)):
        if g.shape != (n,):
            raise Violation('shape', '%s velocity of %d fixes has shape %s' % (name, n, g.shape))
        bad = np.where(u, ~np.isnan(g), ~(np.abs(g - w) <= eps + 2e-9 * np.abs(w)))
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            raise Violation(name, '%s: %s velocity at fix %d of %d is %r, the vessel made %s' % (where, name, j, n, g[j], 'it undefined' if u[j] else repr(w[j])))
    # course and speed from what was derived
    crs, spd = (np.asarray(x, dtype=float) for x in nav.ENvel_to_course_heading(dress2(plan, ge), dress2(plan, gn)))
    check_course(crs, spd, ge, gn, 'derived')
    # every quadrant: the true course, turned over the compass
    quad = set()
    for j in range(n):
        if und_n[j] or und_e[j] or math.hypot(ve[j], vn[j]) < 1e3 * eps:
            continue
        true = bearing(ve[j], vn[j])
        if abs(angle(crs[j] - true)) > math.degrees(2 * eps / math.hypot(ve[j], vn[j])) + 1e-6:
            raise Violation('course', '%s: course at fix %d is %r, the vessel steered %r' % (where, j, crs[j], true))
        quad.add(int(true // 90))
    if plan['v'] == 0 and not plan['waves']:
        ctx.fault('standstill')
    acc(plan, ctx, nav)
    ctx.sim_s += n * dt
    ctx.observe([np.round(gn, 6).tobytes(), np.round(ge, 6).tobytes(), np.round(crs, 4).tobytes()])
    a = plan['acc']
    ctx.cover(len(plan['waves']), dt, n, int(plan['lat0'] // 20), sorted(quad), plan['as'], [f['what'] for f in plan['drop']], int(a['c0'] // 90), a['rate'], a['dv'])
    ctx.nontrivial = bool(ndrop or len(quad) > 1 or abs(a['rate']) * n * dt > 360 or plan['v'] == 0)


def dress2(p, x):
    return x.copy() if p['as'] == 'list' else dress(p, x)


def angle(d):
    return (d + 180) % 360 - 180


def bearing(e, n):
    """Degrees clockwise from north, quadrant by quadrant."""
    if e == 0 and n == 0:
        return math.nan
    if abs(e) <= abs(n):
        x = math.degrees(math.atan(e / n))
        return x % 360 if n > 0 else (180 + x) % 360
    x = math.degrees(math.atan(n / e))
    return 90 - x if e > 0 else 270 - x


def check_course(crs, spd, ve, vn, what):
    for j in range(len(ve)):
        e, n = float(ve[j]), float(vn[j])
        if math.isnan(e) or math.isnan(n):
            if not math.isnan(crs[j]) or not math.isnan(spd[j]):
                raise Violation('undefined', '%s: course %r and speed %r from missing velocities' % (what, crs[j], spd[j]))
            continue
        h = math.hypot(e, n)
        if not abs(spd[j] - h) <= 1e-9 * h:
            raise Violation('speed', '%s: speed %r from east %r north %r' % (what, spd[j], e, n))
        if h > 0 and not abs(angle(crs[j] - bearing(e, n))) <= 1e-6:
            raise Violation('course', '%s: course %r from east %r north %r' % (what, crs[j], e, n))


def acc(plan, ctx, nav):
    """A manoeuvre with known speed and rate of turn: long acceleration is dv/dt, cross acceleration v times the turn rate, to starboard."""
    a = plan['acc']
    n, dt = plan['n'], plan['dt']
    t = np.arange(n) * dt
    w = 2 * math.pi / (40 * dt)
    size = a.get('size', 1)        # the unit of the accelerations is the user's
    v = size * (a['v0'] + a['dv'] * t + a['sw'] * np.sin(w * t))
    dv = size * (a['dv'] + a['sw'] * w * np.cos(w * t))
    c = float(a['c0']) + a['rate'] * t
    r = np.radians(c % 360)
    dc = math.radians(a['rate'])
    aE = dv * np.sin(r) + v * dc * np.cos(r)
    aN = dv * np.cos(r) - v * dc * np.sin(r)
    ctx.fault('full_turn', int(abs(a['rate']) * n * dt >= 360))
    ctx.fault('through_north', int(math.floor(c[0] / 360) != math.floor(c[-1] / 360)))
    want_c, want_l = v * dc, dv.copy()
    if a['drop'] is not None:
        k = int(a['drop'] * n)
        aE[k] = np.nan
        want_c = want_c.copy()
        want_c[k] = want_l[k] = np.nan
        ctx.fault('missing_acceleration')
    head = c.copy()
    if a['frozen'] and n > 20:
        head[n // 2:n // 2 + 3] = np.nan
        want_c, want_l = want_c.copy(), want_l.copy()
        want_c[n // 2:n // 2 + 3] = want_l[n // 2:n // 2 + 3] = np.nan
        ctx.fault('frozen_heading')
    ins = [dress2(plan, x) for x in (head, aE, aN)]
    rv = nav.rotate_acceleration_EN_to_cl(*ins)
    for x, y in zip(ins, (head, aE, aN)):
        if not np.array_equal(np.asarray(x), y, equal_nan=True):
            raise Violation('argument', 'rotate_acceleration_EN_to_cl modified an argument')
    gc, gl = (np.asarray(x, dtype=float) for x in rv)
    eps = 1e-9 * np.nan_to_num(np.hypot(want_c, want_l)) + 1e-12 * size * (1 + np.abs(c))
    for name, g, x in (('cross', gc, want_c), ('long', gl, want_l)):
        if g.shape != (n,):
            raise Violation('shape', '%s acceleration has shape %s' % (name, g.shape))
        bad = ~((np.abs(g - x) <= eps) | (np.isnan(g) & np.isnan(x)))
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            raise Violation('rotate-' + name, 'heading %r, east %r, north %r: %s acceleration %r, the manoeuvre had %r' % (head[j], aE[j], aN[j], name, g[j], x[j]))
    # magnitude
    m = np.hypot(aE, aN)
    bad = ~((np.abs(np.hypot(gc, gl) - m) <= 1e-9 * (size + m)) | np.isnan(m) | np.isnan(head))
    if bad.any():
        raise Violation('magnitude', 'rotation changed the size of an acceleration')
    # back to the compass
    crs, spd = (np.asarray(x, dtype=float) for x in nav.ENvel_to_course_heading(dress2(plan, v * np.sin(r)), dress2(plan, v * np.cos(r))))
    check_course(crs, spd, v * np.sin(r), v * np.cos(r), 'manoeuvre')
