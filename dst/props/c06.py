"""C06: DGS raw records are returned complete, scaled once, timed in every clock mode."""
from .. import core, formats as F, gravworld as G, world
from ..core import Violation

ID = 'C06'
TITLE = 'DGS raw records are returned complete, scaled once, timed in every clock mode'
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('a run simulates a DGS meter with a synchronised or free-running clock (or one that synchronises during the cruise) behind 1-2 '
        'loggers with seeded faults, writes the files, reads them with or without scaling and compares every channel of every row; '
        'non-trivial: at least two records and a fault or a non-default request')
STATE_MEASURE = 'tuples (clock mode, vessel, files, fault kinds fired, buckets of rows/duplicates/out-of-order/days, scaling, mixture of modes)'
REAL = ['shipgrav.io.read_dgs_raw and below', 'pandas parsers']
STUB = ['meter and its clock, transport, logger and its clock (dst/world.py)', 'raw file reads (dst/simfs.py, short reads)']
ASSUMPTIONS = ['records are complete (torn ones: C08)',
               'a meter clock that loses its synchronisation within a file is outside: the reader refuses such files with an error',
               'files of a free-running meter without the logger\'s prefix carry no UTC time: no date_time, or missing ones beside timed files']
SHRINK_LISTS = ('faults', 'loggers', 'blanks', 'meter_faults', 'modes')
SHRINK_MIN = {'loggers': 1, 'modes': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('msg_loss', 'msg_dup', 'msg_delay_reorder', 'file_rotation', 'logger_crash_restart', 'clock_step', 'short_read',
             'meter_clock_step', 'meter_sync_acquired', 'empty_line')


def gen(rng, i):
    mode = rng.pick(['general', 'general', 'general', 'Thompson', 'Sikuliaq'])
    p = G.gen(rng, 'raw', mode)
    p['mode'] = mode
    if mode == 'general':
        p['ship'] = rng.pick(G.GENERAL_RAW)
        p['modes'] = [rng.pick(['sync', 'sync', 'unsync', 'unsync', 'sync_pref', 'unsync_bare']) for _ in range(rng.pick([1, 1, 1, 2, 3]))]
        if rng.chance(0.15):
            p['modes'] = ['unsync']
            p['acquired'] = rng.randrange(p['n'])
    else:
        p['ship'] = mode
        p['head'] = rng.chance(0.5)
    p['meter_off'] = rng.pick([0, rng.randint(-500000, 500000), rng.randint(-10 ** 11, 10 ** 11)])
    p['meter_faults'] = [{'i': rng.randrange(p['n']), 'd': rng.randint(-3000000, 3000000)}] if rng.chance(0.2) else []
    if rng.chance(0.3):
        p['small'] = rng.some(['vcc', 've', 'al', 'ax', 'Gravity', 'Long', 'Cross', 'Beam'], 1, 8)
    p['read']['scale'] = rng.pick([None, True, False, False])
    return p


class Meter:
    """Chooses the record format: by file for each file's mode (the files of a general vessel may differ)."""

    def __init__(self, p, scale):
        self.p, self.scale = p, scale

    def record(self, mode, st, i):
        p = self.p
        v = G.values(p, i)
        mt = p['start'] + i * p['period'] + p.get('meter_off', 0) + sum(f['d'] for f in p['meter_faults'] if i >= f['i'])
        ts = v['num'] % 10 ** 9
        if mode == 'sync_pref':
            iso = F.raw('unsync', st, mt, v['raw'], v['num'], self.scale, p.get('dig'))[0].split(b' ')[0] + b' '
            data, row = F.raw('sync', st, mt, v['raw'], v['num'], self.scale)
            row['timestamp'] = int(data.rstrip().split(b',')[-1])
            return iso + data, row
        data, row = F.raw(mode, st, mt, v['raw'], v['num'], self.scale, p.get('dig'))
        if mode in ('sync', 'unsync', 'unsync_bare'):
            row['timestamp'] = int(data.rstrip().split(b',')[-1])
        row.setdefault('date_time', None)
        return data, row


def files_of(plan, ctx, scale=True, prefix='g'):
    """Simulate; the files with what reading them must give. Also which clock modes occur."""
    p = dict(plan)
    if plan['mode'] == 'general':
        p['mode'] = 'sync'
    files = [f for f in G.build(p, ctx, scale, prefix) if f.recs]
    meter = Meter(plan, scale)
    used = set()
    for k, f in enumerate(files):
        mode = plan['modes'][k % len(plan['modes'])] if plan['mode'] == 'general' else plan['mode']
        acq = plan.get('acquired')
        for j, r in enumerate(f.recs):
            m = mode
            if acq is not None and j and r.msg >= acq:
                ctx.fault('meter_sync_acquired')
                r.data, r.row = meter.record('sync_pref', r.stamp, r.msg)
                pre = meter.record('unsync', r.stamp, r.msg)[1]['date_time']
                r.row['date_time'] = (r.row['date_time'], pre)
                m = 'acquired'
            else:
                r.data, r.row = meter.record(m, r.stamp, r.msg)
            used.add(m)
    return files, used


def run(plan, ctx):
    from shipgrav import io as sio
    rd = plan['read']
    scale = rd['scale'] is not False
    files, used = files_of(plan, ctx, scale)
    if not files:
        ctx.cover('empty')
        return
    order = G.arrange(files, rd)
    paths = world.write_files(files, ctx.scratch, ctx=ctx, **world.layout(rd))
    arg = [paths[k] for k in order]
    if len(arg) == 1 and rd['single']:
        arg = arg[0]
    rows = [dict(r) for k in order for r in files[k].rows()]
    kw = {'progressbar': rd['progress']}
    if rd['scale'] is not None:
        kw['scale_ccp'] = rd['scale']
    try:
        df = G.short_reads(ctx, lambda: sio.read_dgs_raw(arg, plan['ship'], **kw), rd['chunk'], plan['vseed'])
    except Exception as e:
        raise Violation('raised', 'reading raw files of %s (%s) raised %s: %s' % (plan['ship'], sorted(used), type(e).__name__, e))
    G.compare(df, rows, rtol=1e-10)
    G.observe(ctx, df)
    G.signature(ctx, plan, rows, order, rd['scale'], sorted(used), rd['chunk'], rd['nonl'], bool(plan.get('head')))
    ctx.nontrivial = len(rows) >= 2 and bool(ctx.faults or len(order) > 1 or len(kw) > 1)
