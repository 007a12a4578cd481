"""C01: every logged navigation fix is returned exactly once, in time order."""
import numpy as np
import pandas as pd

from .. import core, formats as F, navworld as N, simfs, world
from ..core import Violation

ID = 'C01'
TITLE = 'Every logged navigation fix is returned exactly once, in time order'
RUNS = {'quick': 4000, 'thorough': 40000}
RULE = ('a run simulates one acquisition (vessel, talker, decoy sentences, 1-2 loggers, seeded transport, logger and sensor '
        'faults), writes the files, reads them back with a seeded read request and compares every row with the ledger; '
        'non-trivial: at least two fixes reach the files and at least one fault fires or a non-default read option is used; '
        'distinct by signature')
STATE_MEASURE = 'tuples (vessel, talker, number of files, fault kinds fired, read options, buckets of rows/duplicates/out-of-order/dropouts)'
REAL = ['shipgrav.io.read_nav and everything below it', 'pandas', 'numpy', 'tomli', 'python text I/O layers']
STUB = ['GPS receivers, transport, logger and its clock (dst/world.py)', 'raw file reads (dst/simfs.py, short reads)']
ASSUMPTIONS = ['torn records are C08, clock errors C02, antimeridian C03',
               'files without a single sentence of the talker are not passed (refused by the reader: C09)',
               'a dropout keeps its time field; receivers that blank the time as well are refused with an error']
SHRINK_LISTS = ('faults', 'sensor_faults', 'decoys', 'loggers', 'blanks')
SHRINK_MIN = {'loggers': 1}
SHRINK_INTS = {'n': 1, 'decimate': 0}
MUST_FIRE = ('msg_loss', 'msg_dup', 'msg_delay_reorder', 'file_rotation', 'logger_crash_restart', 'nav_dropout', 'clock_step', 'empty_line')

SAMPLING_FINDING = 'KF-C01-sampling'


def gen(rng, i):
    if i % 500 == 7:
        return {'kind': 'sampling', 'rate': rng.pick([10, 10, 5, 20]), 'n': 61}
    if i % 12 == 5:
        return gen_custom(rng)
    p = N.gen_acq(rng)
    p['kind'] = 'acq'
    p['sensor_faults'] = N.gen_dropouts(rng, p['n'])
    for k in range(rng.pick([1, 1, 1, 2])):
        p['loggers'].append(N.gen_logger(rng, p, steps=rng.pick([None, 500000, 5000000])))
    p['read'] = {'decimate': rng.pick([0, 0, 0, 1, 2, 3, 7]), 'order': rng.randrange(10 ** 6) if rng.chance(0.4) else None,
                 'twice': rng.chance(0.15), 'single': rng.chance(0.5), 'progress': rng.chance(0.2),
                 'chunk': rng.pick([None, None, 1, 7, 100, 5000])}
    p['read'].update(world.gen_layout(rng))
    return p


def gen_custom(rng):
    n = rng.randint(1, 60)
    return {'kind': 'custom', 'n': n, 'vseed': rng.randrange(10 ** 9), 'start': F.utc(2020, 1, 1) + rng.randrange(10 ** 6) * F.US,
            'ship': rng.pick(['Nautilus', 'Atlantis', 'Langseth']), 'talker': rng.pick(['GPGGA', 'XXNAV']),
            'files': rng.randint(1, 4), 'decimate': rng.pick([0, 0, 2, 3]),
            'faults': [{'k': rng.pick(['dup', 'swap', 'drop']), 'm': rng.randrange(n)} for _ in range(rng.randint(0, 5))]}


def read(ctx, fn, chunk=None, seed=0):
    cnt = [0]

    def chunks(n):
        cnt[0] += 1
        return 1 + int(core.unit(seed, cnt[0]) * chunk)
    with simfs.SimFS(ctx.scratch, (), ctx, chunks if chunk else None):
        return fn()


def run(plan, ctx):
    from shipgrav import io as sio
    if plan['kind'] == 'sampling':
        return run_sampling(plan, ctx, sio)
    if plan['kind'] == 'custom':
        return run_custom(plan, ctx, sio)
    files = N.build(plan, ctx)
    files = [f for f in files if f.rows()]
    if not files:
        ctx.cover('empty')
        return
    rd = plan['read']
    order = list(range(len(files)))
    if rd['order'] is not None:
        order.sort(key=lambda k: core.unit(rd['order'], k))
    if rd['twice']:
        order.append(order[0])
    paths = world.write_files(files, ctx.scratch, ctx=ctx, **world.layout(rd))
    rows = [files[k].rows() for k in order]
    plist = [paths[k] for k in order]
    ship = F.shipname(plan['ship'])
    arg = plist[0] if len(plist) == 1 and rd['single'] else list(plist)
    kw = {}
    if plan['talker']:
        kw['talker'] = plan['talker']
    if rd['decimate']:
        kw['decimate'] = rd['decimate']
    try:
        df = read(ctx, lambda: sio.read_nav(ship, arg, progressbar=rd['progress'], **kw), rd['chunk'], plan['vseed'])
    except Exception as e:
        raise Violation('raised', 'read_nav(%r) of healthy files raised %s: %s' % (ship, type(e).__name__, e))
    want = N.model(rows, rd['decimate'])
    N.compare(df, want)
    allrows = [r for rr in rows for r in rr]
    dups = len(allrows) - len(set(r[0] for r in allrows))
    ooo = sum(1 for a, b in zip(allrows, allrows[1:]) if b[0] < a[0])
    nan = sum(1 for r in want if r[1] is None)
    ctx.observe([list(map(repr, df[c])) for c in ('time_sec', 'lon', 'lat')])
    b = lambda x: min(3, x.bit_length())
    ctx.cover(plan['ship'], plan['talker'], len(order), sorted(ctx.faults), rd['decimate'], rd['order'] is not None, rd['twice'], rd['nonl'],
              b(len(want)), b(dups), b(ooo), b(nan))
    ctx.nontrivial = len(want) >= 2 and bool(ctx.faults or kw or len(order) > 1)


def run_custom(plan, ctx, sio):
    """A reader function supplied by the user."""
    recs = []
    for i in range(plan['n']):
        u = lambda k: core.unit(plan['vseed'], k, i)
        recs.append((plan['start'] + i * F.US, u('la') * 160 - 80, 10 + i * 1e-4 + u('lo') * 1e-5))
    for f in plan['faults']:
        m = min(f['m'], len(recs) - 1)
        if f['k'] == 'dup':
            recs.append(recs[m])
            ctx.fault('msg_dup')
        elif f['k'] == 'swap' and m > 0:
            recs[m], recs[m - 1] = recs[m - 1], recs[m]
            ctx.fault('msg_delay_reorder')
        elif f['k'] == 'drop' and len(recs) > plan['files'] + 1:
            del recs[m]
            ctx.fault('msg_loss')
    nf = min(plan['files'], len(recs))
    parts = [recs[k::nf] for k in range(nf)]
    paths = []
    for k, part in enumerate(parts):
        path = '%s/cus%d' % (ctx.scratch, k)
        with open(path, 'w') as f:
            for t, la, lo in part:
                f.write('%d|%r|%r|%s\n' % (t, la, lo, plan['talker']))
        paths.append(path)
    seen = []

    def fun(allnav, talker):
        import datetime
        seen.append(talker)
        lon, lat, ts = [], [], []
        for ln in allnav:
            t, la, lo, tk = str(ln).rstrip('\n').split('|')
            if tk != talker:
                continue
            lat.append(float(la))
            lon.append(float(lo))
            ts.append(N.EPOCH + datetime.timedelta(microseconds=int(t)))
        return np.array(lon), np.array(lat), np.array(ts, dtype=object)
    kw = {'decimate': plan['decimate']} if plan['decimate'] else {}
    try:
        df = sio.read_nav(plan['ship'], paths, talker=plan['talker'], ship_function=fun, progressbar=False, **kw)
    except Exception as e:
        raise Violation('raised', 'user-supplied reader function: %s: %s' % (type(e).__name__, e))
    if set(seen) != {plan['talker']}:
        raise Violation('talker', 'the supplied function was given talkers %r' % (seen,))
    N.compare(df, N.model(parts, plan['decimate']), tag='-custom')
    ctx.sim_s += plan['n']
    ctx.cover('custom', plan['ship'], nf, sorted(ctx.faults), plan['decimate'])
    ctx.nontrivial = nf > 1 or bool(ctx.faults)


def run_sampling(plan, ctx, sio):
    """The documented re-interpolation to a requested rate, on one clean 1 Hz track."""
    p = {'ship': 'Atlantis', 'talker': None, 'start': F.utc(2022, 7, 1, 12), 'period': F.US, 'n': plan['n'], 'vseed': 1,
         'cdig': 2, 'mdig': 6, 'lat0': 41.5, 'lon0': -70.6, 'vn': 1e-5, 've': 2e-5, 'decoys': ['ZDA'], 'gps_off': 0,
         'sensor_faults': [], 'loggers': [{'skew': 0, 'latency': 0, 'faults': []}]}
    files = N.build(p, ctx)
    paths = world.write_files(files, ctx.scratch)
    ctx.cover('sampling', plan['rate'])
    df = sio.read_nav('Atlantis', paths, sampling=plan['rate'], progressbar=False)
    want = N.model([f.rows() for f in files])
    t, lon, lat, st = N.columns(df)
    if len(t) == len(want):
        N.compare(df, want, tag='-sampling')
        ctx.known.append(SAMPLING_FINDING)
        return
    # a proper grid: constant step of the requested size, values on the track
    wt = np.array([w[0] for w in want]) / 1e6
    if len(t) < 2 or np.any(np.abs(np.diff(t) - plan['rate']) > 1e-6) or t[0] < wt[0] - 1e-6 or t[-1] > wt[-1] + 1e-6 \
            or np.any(np.abs(np.interp(t, wt, [w[2] for w in want]) - lon) > 1e-7) \
            or np.any(np.abs(np.interp(t, wt, [w[1] for w in want]) - lat) > 1e-7):
        raise Violation('sampling', 'neither the native fixes nor the track interpolated every %s s' % plan['rate'])
