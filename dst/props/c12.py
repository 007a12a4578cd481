"""C12: results do not depend on the environment the program runs in."""
import datetime
import os
import pickle
import subprocess
import sys
import time
import warnings

import numpy as np
import pandas as pd

from .. import catalog as C, clock, core, readers as R
from ..core import Violation

ID = 'C12'
TITLE = 'Results do not depend on the environment the program runs in'
TECHNIQUE = 'deterministic simulation: simulated wall clock, host time zone, working directory, display and hash seed; undisturbed run as oracle'
RUNS = {'quick': 2400, 'thorough': 15000}
RULE = ('a run makes 1-3 calls (readers of any kind, tide prediction, ini conversion, any processing function) in a plain environment and repeats them in up to 6 seeded '
        'environments (time zone, wall clock and its jumps, working directory, path form, progress display; one run in forty uses processes '
        'of their own with other hash seeds); non-trivial: at least one environment differed')
STATE_MEASURE = 'tuples (call, time zone, clock mode, directory mode, path form, progress)'
REAL = ['all public functions of shipgrav', 'pandas, numpy, tqdm, PyYAML, python datetime']
STUB = ['wall clock (dst/clock.c, preloaded below libc)', 'time zone, working directory, hash seed (set by the plan)', 'input files (dst/world.py)']
ASSUMPTIONS = ['without a C compiler the wall clock stays real (reported as a warning: the clock faults then never fire)']
SHRINK_LISTS = ('envs', 'specs')
HOST_ZONE = False      # set by the plan itself
MUST_FIRE = ('time_zone', 'clock_set', 'clock_jump', 'directory', 'directory_gone', 'relative_path', 'progress', 'hash_seed', 'zoned_times', 'decoy_files')
ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30', '<+14>-14', '<-12>12', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'CET-1CEST,M3.5.0,M10.5.0/3', '<+0545>-5:45', 'HST10', 'America/New_York', 'Europe/Dublin', 'Pacific/Apia', 'right/UTC', 'nonsense']
OPS = ['read_nav', 'read_nav', 'read_nav', 'read_bgm', 'read_rgs', 'read_lap', 'read_lap', 'read_raw', 'read_raw', 'read_feed', 'tide', 'tide', 'ini']


REST = sorted(o for o in C.OPS if o not in OPS and o != 'ccp')


def rtol(op):
    return 1e-9 if op.name in REST or op.name == 'ccp' else 0       # numerical libraries may round differently


def gen_env(rng):
    e = {'tz': rng.pick(ZONES), 'cwd': rng.pick(['same', 'other', 'decoys', 'gone', 'root']), 'path': rng.pick(['abs', 'abs', 'rel', 'dot', 'up']),
         'progress': rng.chance(0.5), 'columns': rng.pick([None, '1', '500']), 'zone_min': rng.pick([0, 0, -720, -210, 60, 345, 840]), 'clock': None}
    if rng.chance(0.7):
        y = rng.pick([1970, 1980, 1999, 2000, 2013, 2016, 2024, 2025, 2030, 2038, 2100, 2200])
        base = datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.pick([0, 11, 23]), rng.pick([0, 59]), rng.pick([0, 59]), rng.randrange(10 ** 6))
        ns = int((base - datetime.datetime(1970, 1, 1)).total_seconds()) * 10 ** 9 + 999999999 * rng.randrange(2)
        e['clock'] = [ns, rng.pick([0, 1, 10 ** 6, 10 ** 9, -10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9, -86400 * 10 ** 9 if y > 1980 else 0, 366 * 86400 * 10 ** 9])]
    return e


def gen(rng, i):
    specs = [{'op': rng.pick(OPS if rng.chance(0.7) else REST), 'seed': rng.randrange(10 ** 6)} for _ in range(rng.pick([1, 1, 2, 3]))]
    if rng.chance(0.01):
        specs.append({'op': 'ccp', 'seed': rng.randrange(10 ** 6)})
    if i % 40 == 7:
        specs = [{'op': o, 'seed': rng.randrange(10 ** 6)} for o in sorted(set(OPS)) + REST + ['ccp'] for _ in range(2 if o in OPS else 1)]
        e = gen_env(rng)
        return {'specs': specs, 'envs': [], 'proc': {'hashseed': rng.pick([0, 1, 2, 42, rng.randrange(2 ** 32)]), 'tz': e['tz'], 'clock': e['clock']}}
    return {'specs': specs, 'envs': [gen_env(rng) for _ in range(rng.pick([1, 2, 4, 6]))]}


def reform(path, form, ctx):
    if form == 'abs':
        return path
    rel = os.path.relpath(path)
    if form == 'dot':
        return os.path.join('.', rel)
    if form == 'up':
        return os.path.join(os.pardir, os.path.basename(os.getcwd()), rel)
    return rel


def run(plan, ctx):
    warnings.simplefilter('ignore')
    for d in ('data', 'other', 'decoys', 'gone'):
        os.mkdir(os.path.join(ctx.scratch, d))
    data = os.path.join(ctx.scratch, 'data')
    ops, refs = [], []
    for spec in plan['specs']:
        op = C.make(spec, ctx, data)
        if not C.usable(op):
            continue
        try:
            refs.append(op.call(op.fresh()))
        except Exception as e:
            if C.may_refuse(op):
                continue
            raise Violation('raised', '%s (seed %d) in a plain environment raised %r' % (op.name, op.seed, e))
        ops.append(op)
        utc(op, refs[-1])
        ctx.observe(R.text(refs[-1]))
    # files of the same names with other contents, and a database of other names
    for name in os.listdir(data):
        with open(os.path.join(ctx.scratch, 'decoys', name), 'w') as f:
            f.write('not the data\n')
    for name in ('database.toml', 'data/database.toml'):
        os.makedirs(os.path.join(ctx.scratch, 'decoys', 'data'), exist_ok=True)
        with open(os.path.join(ctx.scratch, 'decoys', name), 'w') as f:
            f.write('[nav-talkers]\nAtlantis = "XXGGA"\n[bgm-raw]\n')
    if plan.get('proc'):
        return process(plan, ctx, ops, refs, data)
    for j, e in enumerate(plan['envs']):
        for op, ref in zip(ops, refs):
            out = disturbed(op, e, ctx, data)
            what = '%s (seed %d) with %s' % (op.name, op.seed, {k: v for k, v in e.items() if v not in (None, False, 'abs', 'same', 'UTC', 0)})
            if out[0] != 'ok':
                raise Violation('raised', '%s raised %s' % (what, out[1]))
            d = R.same(out[1], ref, rtol(op))
            if d:
                raise Violation('differs', '%s: %s' % (what, d))
            ctx.cover(op.name, e['tz'], 'jump' if e['clock'] and e['clock'][1] else bool(e['clock']), e['cwd'], e['path'], e['progress'])
        ctx.nontrivial = True


def disturbed(op, e, ctx, data):
    """The call in another environment; everything is put back afterwards."""
    old = os.getcwd()
    cwd = {'same': ctx.scratch, 'root': '/'}.get(e['cwd']) or os.path.join(ctx.scratch, e['cwd'])
    if e['cwd'] == 'gone' and not os.path.isdir(cwd):
        os.mkdir(cwd)
    saved = {k: os.environ.get(k) for k in ('TZ', 'COLUMNS')}
    args = op.fresh()
    try:
        os.chdir(cwd)
        if e['cwd'] == 'decoys':
            ctx.fault('decoy_files')
        ctx.fault('directory')
        if e['path'] != 'abs' and e['cwd'] not in ('gone', 'root'):
            ctx.fault('relative_path')
            if 'paths' in args:
                args['paths'] = [reform(p, e['path'], ctx) for p in args['paths']]
                if op.case.kind == 'feed':
                    op.case.yaml, keep = reform(op.case.yaml, e['path'], ctx), op.case.yaml
            if 'path' in args:
                args['path'] = reform(args['path'], e['path'], ctx)
        if 'times' in args and op.name == 'tide' and e['zone_min']:
            ctx.fault('zoned_times')
            args['times'] = zoned(args['times'], e['zone_min'])
        if e['cwd'] == 'gone':
            os.rmdir(cwd)
            ctx.fault('directory_gone')
        os.environ['TZ'] = e['tz']
        time.tzset()
        if e['tz'] != 'UTC':
            ctx.fault('time_zone')
        if e['columns']:
            os.environ['COLUMNS'] = e['columns']
        if e['progress']:
            ctx.fault('progress')
        op.spec = dict(op.spec, progress=e['progress'])
        if e['clock'] and clock.lib():
            clock.set(*e['clock'])
            ctx.fault('clock_jump' if e['clock'][1] else 'clock_set')
        try:
            return 'ok', op.call(args)
        except Exception as ex:
            return 'exc', repr(ex)
    finally:
        ctx.steps += clock.off()
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        time.tzset()
        os.chdir(old)
        if 'keep' in locals():
            op.case.yaml = keep


def zoned(times, minutes):
    """The same instants with another offset from UTC."""
    z = datetime.timezone(datetime.timedelta(minutes=minutes))
    if isinstance(times, pd.DatetimeIndex):
        return times.tz_convert(z)
    if isinstance(times, pd.Series):
        return times.dt.tz_convert(z)
    if isinstance(times, np.ndarray):
        return np.array([t.astimezone(z) for t in times])
    return [t.astimezone(z) for t in times]


def utc(op, res):
    """All times returned by readers are UTC and say so."""
    if not isinstance(res, pd.DataFrame) or not op.name.startswith('read_'):
        return
    col = 'stamps' if op.name == 'read_nav' else 'date_time'
    if col not in res.columns:
        if op.name == 'read_raw':
            return          # a meter clock that counts seconds carries no time of day
        raise Violation('not-utc', '%s (seed %d) returned no %s' % (op.name, op.seed, col))
    for t in res[col]:
        if t is not pd.NaT and (getattr(t, 'tzinfo', None) is None or t.utcoffset() != datetime.timedelta(0)):
            raise Violation('not-utc', '%s (seed %d) returned the time %r' % (op.name, op.seed, t))


def process(plan, ctx, ops, refs, data):
    env = dict(os.environ, PYTHONHASHSEED=str(plan['proc']['hashseed']), TZ=plan['proc']['tz'])
    if clock.lib() is None:
        env.pop('LD_PRELOAD', None)
    ctx.fault('hash_seed')
    job = {'root': data, 'specs': [op.spec for op in ops], 'clock': plan['proc']['clock']}
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'dst.envproc'], input=pickle.dumps(job), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.join(ctx.scratch, 'decoys'))
    if r.returncode:
        raise RuntimeError('process failed: %s' % r.stderr.decode()[-1500:])
    outs, reads, _ = pickle.loads(r.stdout)
    for op, ref, out in zip(ops, refs, outs):
        what = '%s (seed %d) in a process with %s' % (op.name, op.seed, plan['proc'])
        if out[0] != 'ok':
            raise Violation('raised', '%s raised %s' % (what, out[1]))
        d = R.same(out[1], ref, rtol(op))
        if d:
            raise Violation('differs', '%s: %s' % (what, d))
        ctx.cover(op.name, 'process', plan['proc']['tz'])
    ctx.nontrivial = True
