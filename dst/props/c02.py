"""C02: navigation times are the right UTC instant under any clock behaviour."""
from .. import core, formats as F, navworld as N, world
from ..core import Violation
from .c01 import read

ID = 'C02'
TITLE = 'Navigation times are the right UTC instant under any clock behaviour'
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('a run simulates one acquisition whose clocks misbehave: logger skew up to 11.4 h, steps, drift, GPS lead/lag, transport '
        'delays, rollovers (midnight, month, leap day, year) placed inside the history, all digit counts; every returned time is '
        'compared with the instant in the ledger; non-trivial: a rollover, step or skew above a minute occurs; distinct by signature')
STATE_MEASURE = 'tuples (vessel, rollover kind, skew bucket and sign, clock steps, digits, which side of midnight each clock is on)'
REAL = ['shipgrav.io.read_nav and all date decoders', 'pandas', 'numpy', 'datetime']
STUB = ['GPS clocks, logger clock, transport (dst/world.py)']
ASSUMPTIONS = ['logger within half a day of GPS time', 'years 1985-2062 (from 2000 on the vessel whose logger writes two-digit years)', 'Thompson reader keeps whole seconds (pinned by the repository\'s tests)']
SHRINK_LISTS = ('faults', 'sensor_faults', 'decoys', 'loggers')
SHRINK_MIN = {'loggers': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('clock_step', 'clock_skew', 'midnight_straddle', 'rollover', 'edge_of_second')

H = 3600 * F.US


def gen(rng, i):
    p = N.gen_acq(rng, ship=rng.pick(list(F.NAV) + ['Atlantis', 'NBP', 'Thompson', 'Revelle']))
    p['kind'] = 'acq'
    p['period'] = rng.pick([100000, 250000, 1000000, 1000000, 7000000, 60000000, 600000000])
    if p['period'] % F.US:
        p['cdig'] = rng.pick([2, 2, 3, 4, 6])
    p['n'] = rng.pick([1, 2, 4, 10, 30, 60])
    if rng.chance(0.15):        # the receiver is silent for hours, the rest of the line is not
        p['period'] = rng.pick([600000000, 1800000000, 3600000000])
        p['n'] = 60
        p['sensor_faults'] = [{'k': 'mute', 'i': rng.randrange(p['n']), 'n': rng.randint(5, 40)} for _ in range(rng.randint(1, 2))]
        if rng.chance(0.1):     # and they go on for hundreds of lines
            p['period'], p['n'] = rng.pick([1000000, 60000000, 120000000]), 500
            p['sensor_faults'] = [{'k': 'mute', 'i': rng.randrange(30), 'n': rng.randint(100, 440)}]
    if p['ship'] == 'Revelle' and rng.chance(0.1):
        p['pad'] = (rng.randrange(p['n']), rng.pick([10, 90, 250, 1200]))
    span = p['n'] * p['period']
    y = F.any_year(rng, 2000 if p['ship'] == 'NBP' else 1985)
    roll = rng.pick(['none', 'midnight', 'midnight', 'month', 'leapday', 'leapday_end', 'year', 'feb28', 'noon', 'hour'])
    if roll == 'month':
        at = F.utc(y, rng.randint(2, 12), 1)
    elif roll == 'year':
        at = F.utc(y, 1, 1)
    elif roll == 'leapday':
        at = F.utc(rng.pick([2000, 2004, 2008, 2012, 2016, 2020, 2024, 2028, 2032, 2036]), 2, 29)
    elif roll == 'leapday_end':
        at = F.utc(rng.pick([2000, 2004, 2012, 2020, 2024, 2028]), 3, 1)
    elif roll == 'feb28':
        at = F.utc(rng.pick([2001, 2003, 2022, 2023, 2025]), 3, 1)
    else:
        at = F.utc(y, rng.randint(1, 12), rng.randint(1, 28))
        if roll == 'noon':
            at += 12 * H
        if roll == 'hour':
            at += rng.randrange(24) * H
    if roll == 'none':
        p['start'] = at + rng.randrange(24 * 3600) * F.US
    else:
        p['start'] = at - int(rng.random() * (span + 1))
    g = 10 ** (6 - p['cdig']) if p['cdig'] < 6 else 1
    p['start'] -= p['start'] % rng.pick([1000000, g, 1000, 10000])
    if p['ship'] == 'NBP' or y == 2000:
        p['start'] = max(p['start'], F.utc(2000, 1, 2))
    p['roll'] = roll
    if rng.chance(0.25 if p['ship'] != 'Revelle' else 0.4):
        p['note'] = rng.randrange(5)
    N.keep_off(p)
    p['gps_off'] = rng.pick([0, 0, 810000, 1450000, -700000, 18000000])
    if p['ship'] != 'Revelle' or rng.chance(0.5):
        p['decoys'] = p['decoys'][:2]
    sk = rng.pick([0, rng.randint(-3, 3) * F.US, rng.randint(-3000, 3000) * 1000, rng.randint(-60, 60) * 60 * F.US,
                   rng.randint(-5, 5) * H, int(rng.uniform(-11.4, 11.4) * H)])
    near = rng.chance(0.06)     # all but half a day off
    if near:
        sk = rng.pick([-1, 1]) * (12 * H - rng.randint(45, 900) * F.US)
    left = int((12 if near else 11.45) * H - abs(sk)) - (45 * F.US if near else 0)
    lg = N.gen_logger(rng, p, rate=0.5)
    lg['faults'] = [f for f in lg['faults'] if f['k'] in ('dup', 'delay', 'rotate', 'drop')]
    lg['skew'] = sk
    if rng.chance(0.5):
        for _ in range(rng.randint(1, 3)):
            d = rng.pick([rng.randint(-2000000, 2000000), rng.randint(-3600, 3600) * F.US, rng.randint(-left, left) // 3])
            d = max(-left // 3, min(left // 3, d))
            lg['faults'].append({'k': 'step', 'at': rng.randint(0, span), 'd': d})
    if rng.chance(0.2) and not near:
        lg['drift'] = rng.uniform(-1e-3, 1e-3)
    p['loggers'] = [lg]
    if rng.chance(0.12):        # instants a few digits short of a whole second, minute or day
        p['cdig'], p['period'] = rng.pick([3, 4, 6]), max(p['period'] - p['period'] % F.US, F.US)
        eps = rng.pick([1, 1, 2, 10, 100]) * 10 ** max(6 - p['cdig'], 0) * rng.pick([1, -1])
        if roll == 'none':
            p['start'] -= p['start'] % (60 * F.US)
        else:
            p['start'] = at - int(rng.random() * p['n']) * p['period']
        if F.NAV[p['ship']]['clock'] == 'log':
            p['sdig'] = rng.pick([3, 4, 6])
            eps = rng.pick([1, 1, 2, 10, 100]) * 10 ** (6 - p['sdig']) * rng.pick([1, -1])
            lg['skew'] = lg['skew'] - lg['skew'] % F.US - lg['latency'] - eps
        else:
            p['gps_off'] -= p['gps_off'] % F.US + eps
        p['edge'] = True
        if p['ship'] == 'NBP' and p['start'] < F.utc(2000, 1, 2):
            p['start'] += 366 * F.DAY
        N.keep_off(p)
    return p


def run(plan, ctx):
    from shipgrav import io as sio
    files = [f for f in N.build(plan, ctx) if f.rows()]
    if not files:
        ctx.cover('empty')
        return
    paths = world.write_files(files, ctx.scratch)
    kw = {'talker': plan['talker']} if plan['talker'] else {}
    try:
        df = sio.read_nav(F.shipname(plan['ship']), paths, progressbar=False, **kw)
    except Exception as e:
        raise Violation('raised', 'read_nav(%r) raised %s: %s' % (plan['ship'], type(e).__name__, e))
    want = N.model([f.rows() for f in files])
    lg = plan['loggers'][0]
    strad = 0
    for f in files:
        for r in f.recs:
            if r.row and F.NAV[plan['ship']]['clock'] != 'log' and r.stamp // F.DAY != r.row[0] // F.DAY:
                strad += 1
    days = len(set(w[0] // F.DAY for w in want))
    ctx.fault('midnight_straddle', strad)
    ctx.fault('rollover', days - 1)
    ctx.fault('edge_of_second', int(bool(plan.get('edge'))))
    ctx.fault('clock_skew', int(abs(lg['skew']) >= F.US))
    N.compare(df, want)
    ctx.observe([list(map(repr, df[c])) for c in ('time_sec', 'lon', 'lat')])
    ctx.cover(plan['ship'], plan['roll'], len(str(abs(lg['skew']))), lg['skew'] > 0, plan['cdig'], min(strad, 2), min(days, 3),
              plan['gps_off'], sum(f['k'] == 'step' for f in lg['faults']))
    ctx.nontrivial = bool(strad or days > 1 or abs(lg['skew']) > 60 * F.US or ctx.faults.get('clock_step'))
