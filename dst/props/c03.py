"""C03: longitudes stay faithful and continuous across the antimeridian and gaps."""
import math

from .. import core, formats as F, navworld as N, world
from ..core import Violation

ID = 'C03'
TITLE = 'Longitudes stay faithful and continuous across the antimeridian and gaps'
RUNS = {'quick': 10000, 'thorough': 100000}
RULE = ('a run simulates a track near the 180 degree meridian (crossing it 0..n times, either way) or elsewhere with gaps of up to '
        '90 degrees, with dropouts, losses, rotation and file boundaries placed preferentially at the crossing, and reads it back; '
        'non-trivial: the antimeridian is crossed between two returned fixes, or a gap of over a degree is present; distinct by signature')
STATE_MEASURE = 'tuples (vessel, number of crossings, majority side, dropout at the crossing, gaps, files, read order, buckets of rows)'
REAL = ['shipgrav.io.read_nav and longitude repair', 'pandas', 'numpy']
STUB = ['vessel motion, GPS, transport, logger (dst/world.py)']
ASSUMPTIONS = ['a single fix more than a degree away from both neighbours, which are within a degree of each other, is a receiver '
               'glitch: the reader may return it as logged or put it halfway between its neighbours',
               'a track that crosses 180 stays within 160 degrees of it, taken the short way from fix to fix']
SHRINK_LISTS = ('faults', 'sensor_faults', 'decoys', 'loggers', 'turns', 'hops')
SHRINK_MIN = {'loggers': 1}
SHRINK_INTS = {'n': 2}
MUST_FIRE = ('antimeridian_crossing', 'position_glitch', 'dropout_at_crossing', 'track_gap', 'file_rotation')


def gen(rng, i):
    p = N.gen_acq(rng, n=rng.pick([2, 3, 4, 6, 12, 30, 60, 120]) if not rng.chance(0.004) else 3000)
    p['kind'] = 'acq'
    p['period'] = rng.pick([1000000, 1000000, 10000000, 60000000, 5000000000])
    p['cdig'] = rng.pick([0, 2])
    p['mdig'] = rng.pick([4, 6, 6, 8])
    p['decoys'] = p['decoys'][:1]
    span_s = p['n'] * p['period'] / 1e6
    mode = rng.pick(['cross', 'cross', 'cross', 'cross', 'gap', 'near', 'cross_gap', 'dither'])
    p['mode'] = mode
    ve = rng.pick([-1, 1]) * rng.pick([1e-5, 1e-4, 1e-4, 3e-4])
    if p['period'] > 10 ** 9:
        ve /= 100
    if mode == 'dither':        # to and fro over the line
        p['n'], p['period'], ve = rng.pick([60, 120, 120, 300]), rng.pick([10000000, 15000000]), rng.pick([0.0, 1e-9])
        span_s = p['n'] * p['period'] / 1e6
    p['ve'] = ve
    p['turns'] = []
    p['hops'] = []
    fx = rng.pick([rng.random(), rng.random(), 0.02, 0.98])        # where in the history the crossing is
    if mode in ('cross', 'cross_gap', 'dither'):
        p['lon0'] = N.wrap(180 - ve * span_s * fx)
    elif mode == 'near':
        p['lon0'] = rng.pick([-1, 1]) * (180 - abs(ve) * span_s * rng.uniform(1.0, 2.0) - 1e-3)
    else:
        p['lon0'] = rng.uniform(-90, 90)
    p['lat0'] = rng.uniform(-70, 70)
    if mode in ('cross',) and rng.chance(0.5):
        at = span_s * min(0.99, fx + rng.uniform(0, 0.3))
        p['turns'].append({'at': at, 'dve': -2 * ve})
        if rng.chance(0.5):
            p['turns'].append({'at': at + span_s * rng.uniform(0, 0.3), 'dve': 2 * ve})
    if mode in ('gap', 'cross_gap'):
        for _ in range(rng.pick([1, 1, 2, 2, 3, 4])):
            p['hops'].append({'at': span_s * rng.random(), 'dlon': rng.pick([-1, 1]) * rng.pick([rng.uniform(1, 3), rng.uniform(1, 20), rng.uniform(1, 30), rng.uniform(30, 115)]),
                              'dlat': rng.uniform(-2, 2)})
    ic = int(fx * p['n'])
    for _ in range(rng.pick([0, 1, 1, 2])):
        k = rng.pick([1, 1, 2, 5])
        p['sensor_faults'].append({'k': rng.pick(['dropout', 'dropout', 'silent']), 'i': max(0, min(p['n'] - 1, ic - rng.randint(-1, k + 1))), 'n': k})
    p['sensor_faults'] += N.gen_dropouts(rng, p['n'])
    for _ in range(rng.pick([0, 0, 0, 1, 1, 2, 5])):
        p['sensor_faults'].append({'k': 'glitch', 'i': rng.pick([rng.randrange(p['n']), max(0, min(p['n'] - 1, ic + rng.randint(-2, 2)))]), 'n': 1,
                                   'dlon': rng.pick([-1, 1]) * rng.pick([rng.uniform(0.9, 1.3), rng.uniform(1, 5), rng.uniform(5, 60)])})
    lg = N.gen_logger(rng, p, rate=0.4)
    if rng.chance(0.3):
        lg['faults'].append({'k': 'rotate', 'at': int(span_s * fx * 1e6)})
    p['loggers'] = [lg]
    p['order'] = rng.randrange(10 ** 6) if rng.chance(0.3) else None
    p['decimate'] = rng.pick([0, 0, 0, 2])
    return p


def too_wide(fin, d):
    """The track, taken the short way from fix to fix, gets near the meridian opposite the one it crosses."""
    u = [fin[0][2] % 360]
    for x in d:
        u.append(u[-1] + x)
    return any(not 20 < x < 340 for x in u) or any(abs(x) > 170 for x in d)


def run(plan, ctx):
    from shipgrav import io as sio
    files = [f for f in N.build(plan, ctx) if f.rows()]
    if not files:
        ctx.cover('empty')
        return
    if plan['order'] is not None:
        files.sort(key=lambda f: core.unit(plan['order'], f.name))
    paths = world.write_files(files, ctx.scratch)
    want = N.model([f.rows() for f in files], plan['decimate'])
    fin = [w for w in want if w[1] is not None]
    d = [N.short(b[2] - a[2]) for a, b in zip(fin, fin[1:])]
    cross = sum(abs(b[2] - a[2]) > 180 for a, b in zip(fin, fin[1:]))
    gaps = sum(abs(x) > 1 for x in d)
    at = [k for k, w in enumerate(want) if w[1] is not None]
    odd = [at.index(k) for k in N.glitches(want)]
    if cross and too_wide(fin, d):
        ctx.cover('too-wide')
        return
    kw = {'talker': plan['talker']} if plan['talker'] else {}
    if plan['decimate']:
        kw['decimate'] = plan['decimate']
    try:
        df = sio.read_nav(F.shipname(plan['ship']), paths, progressbar=False, **kw)
    except Exception as e:
        raise Violation('raised', 'read_nav(%r) raised %s: %s' % (plan['ship'], type(e).__name__, e))
    atx = 0
    for k in range(1, len(want) - 1):
        if want[k][1] is None:
            a = [w for w in want[:k] if w[1] is not None][-1:]
            b = [w for w in want[k:] if w[1] is not None][:1]
            if a and b and abs(a[0][2] - b[0][2]) > 180:
                atx += 1
    ctx.fault('antimeridian_crossing', cross)
    ctx.fault('track_gap', gaps)
    ctx.fault('dropout_at_crossing', atx)
    t, lon, lat = N.compare(df, want, lon_mod=bool(cross))
    got = [x for x, w in zip(lon, want) if w[1] is not None]
    for k in range(1, len(got)):
        if k not in odd and k - 1 not in odd and abs((got[k] - got[k - 1]) - d[k - 1]) > 1e-7:
            raise Violation('jump', 'longitude goes from %r to %r at %s; the vessel moved by %r degrees'
                            % (got[k - 1], got[k], N.show(fin[k][0]), d[k - 1]))
    ctx.observe([list(map(repr, df[c])) for c in ('time_sec', 'lon', 'lat')])
    pos = sum(w[2] > 0 for w in fin)
    ctx.cover(plan['ship'], min(cross.bit_length(), 8) if cross > 3 else cross, pos > len(fin) - pos, min(atx, 2), min(gaps, 3), min(len(odd), 3), min(len(files), 3), plan['order'] is not None,
              len(want).bit_length())
    ctx.nontrivial = bool(cross or gaps)
