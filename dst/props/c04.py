"""C04: BGM gravimeter records are returned complete, in order, scaled and timed right."""
import datetime

import pandas as pd

from .. import formats as F, gravworld as G, world
from ..core import Violation

ID = 'C04'
TITLE = 'BGM gravimeter records are returned complete, in order, scaled and timed right'
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('a run simulates a BGM meter (or the vessel\'s RGS system) behind 1-2 loggers with seeded transport and logger faults, writes the '
        'files and reads them back with a seeded request (one path or a list, order, supplied scale, supplied reader function, short '
        'reads); every row is compared with the ledger; non-trivial: at least two records and a fault or a non-default request')
STATE_MEASURE = 'tuples (format, vessel, number of files, fault kinds fired, buckets of rows/duplicates/out-of-order/days, scale, function, chunk)'
REAL = ['shipgrav.io.read_bgm_raw, read_bgm_rgs and below', 'pandas parsers', 'tomli']
STUB = ['meter, transport, logger and its clock (dst/world.py)', 'raw file reads (dst/simfs.py, short reads)']
ASSUMPTIONS = ['records are complete (torn ones: C08); files without any record are not passed (refused by pandas with an error)',
               'counts have the six digits the meter writes']
SHRINK_LISTS = ('faults', 'loggers', 'blanks')
SHRINK_MIN = {'loggers': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('msg_loss', 'msg_dup', 'msg_delay_reorder', 'file_rotation', 'logger_crash_restart', 'clock_step', 'short_read', 'empty_line')


def gen(rng, i):
    if rng.chance(0.3):
        p = G.gen(rng, 'rgs', rng.pick(['Atlantis', 'NBP']))
        p['blank'], p['cr'] = rng.chance(0.6), rng.chance(0.6)
    else:
        p = G.gen(rng, 'bgm', rng.pick(list(F.BGM_SCALE)))
        p['read']['scale'] = rng.pick([None, None, None, 5.0, 1, 0.1 + rng.random() * 9, 4.99, rng.pick([0, 0.0, -4.99, 1e-5, 1000])])
        p['read']['fun'] = rng.chance(0.1)
        if p['read']['fun']:
            p['read']['as'] = rng.pick(['Nautilus'] if p['read']['scale'] is not None and rng.chance(0.5) else list(F.BGM_SCALE))
    return p


def own_reader(path):
    """A reader function the user supplies, for the Atlantis format."""
    t, c = [], []
    with open(path) as f:
        for ln in f:
            w = ln.split()
            if not w:
                continue
            t.append(pd.Timestamp(w[1].replace('/', '-') + 'T' + w[2], tz='UTC'))
            c.append(int(w[4][3:]))
    return pd.DataFrame({'counts': c, 'date_time': t, 'mark': 7})


def run(plan, ctx):
    from shipgrav import io as sio
    rd = plan['read']
    fun = rd.get('fun') and plan['fmt'] == 'bgm'
    if fun:
        plan = dict(plan, ship='Atlantis')
    files = [f for f in G.build(plan, ctx) if f.recs]
    if not files:
        ctx.cover('empty')
        return
    order = G.arrange(files, rd)
    paths = world.write_files(files, ctx.scratch, ctx=ctx, **world.layout(rd))
    arg = [paths[k] for k in order]
    if len(arg) == 1 and rd['single']:
        arg = arg[0]
    rows = [dict(r) for k in order for r in files[k].rows()]
    kw = {'progressbar': rd['progress']}
    if plan['fmt'] == 'bgm':
        ship = rd.get('as', plan['ship'])
        sc = rd['scale'] if rd['scale'] is not None else F.BGM_SCALE[ship]
        for r in rows:
            r['rgrav'] = sc * r['counts']
        if rd['scale'] is not None:
            kw['scale'] = rd['scale']
        if fun:
            kw['ship_function'] = own_reader
            for r in rows:
                r['mark'] = 7
        fn = lambda: sio.read_bgm_raw(arg, ship, **kw)
    else:
        fn = lambda: sio.read_bgm_rgs(arg, plan['ship'], **kw)
    try:
        df = G.short_reads(ctx, fn, rd['chunk'], plan['vseed'])
    except Exception as e:
        raise Violation('raised', 'reading healthy %s files of %s raised %s: %s' % (plan['fmt'], plan['ship'], type(e).__name__, e))
    G.compare(df, rows)
    G.observe(ctx, df)
    G.signature(ctx, plan, rows, order, rd.get('scale') is not None, bool(fun), rd['chunk'], rd['nonl'])
    ctx.nontrivial = len(rows) >= 2 and bool(ctx.faults or len(order) > 1 or len(kw) > 1)
