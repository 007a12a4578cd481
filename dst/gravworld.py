"""Simulated gravity meters behind a faulty acquisition chain, and what reading their files must give."""
import datetime
import math

import numpy as np
import pandas as pd

from . import core, formats as F, simfs, world
from .core import Violation

EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
GENERAL_RAW = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Langseth']


# ---------------------------------------------------------------------- values

def values(p, i):
    """What the meter measures at epoch i (a dict over all channel names)."""
    def u(k, *a):
        return core.unit(p['vseed'], k, i, *a)

    wild = p.get('wild', 0)

    def span(k, lo, hi):
        if wild and u(k, 'w') < wild:
            x = u(k, 'x')
            if x > .85:     # values that some programs use for "no data"
                c = [z for z in (-999, 999, -99, 99, -9999, 9999, -99999, 99999, -1, 1) if lo <= z <= hi]
                return c[int(u(k, 'y') * len(c))] if c else lo
            return lo if x < .2 else hi if x < .4 else 0 if x < .7 else (lo + hi) / 2
        return lo + (hi - lo) * u(k)
    v = {
        # laptop
        'qc': span('qc', -1e4, 1e4), 'rgrav': span('g', -12000, 12000), 'long_a': span('la', -50, 50), 'crss_a': span('ca', -50, 50),
        'beam': span('b', -1, 1), 'temp': span('t', -40, 40), 'status': int(span('s', 0, 65535)), 'checksum': int(span('c', 0, 65535)),
        'press': span('pr', 0, 30), 'etemp': span('et', -20, 60), 've': span('ve', -.5, .5), 'vcc': span('vcc', -.5, .5),
        'al': span('al', -.5, .5), 'ax': span('ax', -.5, .5), 'lat': span('lat', -90, 90), 'lon': span('lon', -180, 180),
        'speed': span('sp', 0, 30), 'course': span('co', 0, 360), 'vmond': span('vm', -1, 1),
        # bgm
        'counts': int(span('cnt', 0, 999999)), 'flag': int(u('fl') * 100), 'grav': span('gr', 970000, 985000),
        'num': int(u('num') * 1e6) + i,
    }
    w = {k: int(span('r' + k, -9000000, 9000000)) for k in F.RAW}
    for k in p.get('small', ()):        # a channel that stays near zero, or is dead
        w[k] = int(w[k] / 1e6) if u('sm') < 0.8 and p['vseed'] % 3 else 0
    w['status'], w['checksum'] = v['status'], v['checksum']
    w['Temp'], w['Pressure'], w['ElecTemp'] = int(span('rT', 0, 700000)), int(span('rP', 0, 4000)), int(span('rE', 0, 4000))
    w.update(latitude=v['lat'], longitude=v['lon'], speed=v['speed'], course=v['course'])
    v['raw'] = w
    return v


QUANT = {'bgm': lambda p: 10 ** (6 - (F.BGM_DIG[p['ship']] if p.get('dig') is None else p['dig'])), 'rgs': lambda p: 1000,
         'lap': lambda p: 100 if p.get('dig') is None else 10 ** (6 - p['dig']),
         'raw': lambda p: {'Thompson': 1000, 'Sikuliaq': 100}.get(p['mode'], 1) if p.get('dig') is None else 10 ** (6 - p['dig'])}


def encode(p, scale_ccp=True):
    """fmt(stamp, epoch) -> [(bytes, row)] for the acquisition chain."""
    kind = p['fmt']

    def fmt(st, i):
        v = values(p, i)
        if kind == 'bgm':
            return [F.bgm(p['ship'], st, v['counts'], v['flag'], p.get('dig'))]
        if kind == 'rgs':
            return [F.rgs(st, v['grav'], v['counts'], v['lat'], v['lon'], blank=p.get('blank', False), cr=p.get('cr', True))]
        mt = p['start'] + i * p['period'] + p.get('meter_off', 0)
        for f in p.get('meter_faults', ()):
            if i >= f['i']:
                mt += f['d']
        mt -= mt % 10000
        if kind == 'lap':
            if any(f['i'] <= i < f['i'] + f['n'] for f in p.get('nogps', ())):
                v['lat'] = v['lon'] = None
            return [F.laptop(p['ship'], st, mt, v, v['num'], p.get('dig'))]
        mode = p['mode']
        return [F.raw(mode, st, mt, v['raw'], v['num'], scale_ccp, p.get('dig'))]
    return fmt


def build(p, ctx, scale_ccp=True, prefix='g'):
    """Run the acquisition; the files, in order."""
    msgs = [(p['start'] + i * p['period'], i) for i in range(p['n'])]
    q = QUANT[p['fmt']](p)
    head = F.SIK_HEAD if (p.get('ship') == 'Sikuliaq' and p['fmt'] == 'lap') or (p.get('mode') == 'Sikuliaq' and p.get('head')) else b''
    files = []
    for k, lg in enumerate(p['loggers']):
        files += world.acquire(msgs, lg, encode(p, scale_ccp), p['start'], ctx, prefix='%s%d_' % (prefix, k), head=head, quantum=q)
    ctx.sim_s += p['n'] * p['period'] / 1e6
    for f in p.get('meter_faults', ()):
        ctx.fault('meter_clock_step')
    for f in p.get('nogps', ()):
        ctx.fault('gps_lost')
    return files


def gen(rng, fmt, ship, n=None):
    long = n is None and rng.chance(0.005)      # a long file, now and then a whole day of it
    if long:
        n = rng.pick([1200, 4000, 4000, 7000, 7000, 12000, 12000, 12000, 12000, 30000])
        if rng.chance(0.03):
            n = 90000
    n = n or rng.pick([1, 2, 3, 5, 10, 30, 30, 100])
    period = rng.pick([1000000, 1000000, 1000000, 100000, 500000, 10000000, 1001000])
    p = {'fmt': fmt, 'ship': ship, 'n': n, 'period': period, 'vseed': rng.randrange(10 ** 9), 'wild': rng.pick([0, 0, 0.1, 0.5]),
         'start': F.utc(F.any_year(rng, 2000 if fmt == 'raw' else 1985), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                        rng.randint(0, 59)) + rng.pick([0, rng.randrange(10 ** 6), 999990, 500000]), 'loggers': []}
    if fmt != 'rgs' and rng.chance(0.2):     # stamps of another precision
        p['dig'] = rng.randint(1 if (fmt, ship) in (('bgm', 'Langseth'), ('raw', 'Thompson')) else 0, 6)
    if rng.chance(0.35):    # across a rollover
        y = F.any_year(rng, 2000 if fmt == 'raw' else 1985)
        b = rng.pick([F.utc(y, 12, 31) + F.DAY, F.utc(2024, 2, 29), F.utc(2024, 3, 1), F.utc(y, 3, 1), F.utc(2000, 2, 29), F.utc(y, 7, 1),
                      F.utc(y, rng.randint(1, 12), rng.randint(1, 28))])
        p['start'] = b - int(rng.random() * n * period)
    for k in range(rng.pick([1, 1, 1, 2])):
        span = n * period
        p['loggers'].append({'skew': rng.pick([0, rng.randint(-2000000, 2000000), rng.randint(-10 ** 11, 10 ** 11)]),
                             'latency': rng.pick([0, 5000, 300000, 1500000]), 'seed': rng.randrange(10 ** 6),
                             'faults': world.gen_link_faults(rng, n, span, max_delay=max(2, min(20000000, 5 * period)),
                                                             steps=rng.pick([None, 500000, 10 ** 8]))})
        if long and rng.chance(0.7):    # in one piece
            p['loggers'][k]['faults'] = [f for f in p['loggers'][k]['faults'] if f['k'] not in ('rotate', 'crash')]
    p['read'] = {'order': rng.randrange(10 ** 6) if rng.chance(0.4) else None, 'twice': rng.chance(0.15), 'single': rng.chance(0.5),
                 'progress': rng.chance(0.2), 'chunk': rng.pick([None, None, 5000, 60000] if n > 1000 else [None, None, 1, 7, 100, 5000])}
    p['read'].update(world.gen_layout(rng))
    return p


def arrange(files, rd):
    order = list(range(len(files)))
    if rd.get('order') is not None:
        order.sort(key=lambda k: core.unit(rd['order'], k))
    if rd.get('twice') and order:
        order.append(order[0])
    return order


def short_reads(ctx, fn, chunk, seed):
    cnt = [0]

    def chunks(n):
        cnt[0] += 1
        return 1 + int(core.unit(seed, cnt[0]) * chunk)
    with simfs.SimFS(ctx.scratch, (), ctx, chunks if chunk else None):
        return fn()


# --------------------------------------------------------------------- compare

def to_us(col, what='date_time'):
    """Time-zone aware UTC times as microseconds (None for missing)."""
    out = []
    s = pd.Series(col).reset_index(drop=True)
    for e in s:
        if e is None or e is pd.NaT or (isinstance(e, float) and math.isnan(e)):
            out.append(None)
            continue
        if getattr(e, 'tzinfo', None) is None or e.utcoffset() != datetime.timedelta(0):
            raise Violation('naive-time', '%s %r is not time-zone aware UTC' % (what, e))
        if isinstance(e, pd.Timestamp):
            e = e.as_unit('ns') if hasattr(e, 'as_unit') else e
            us, ns = divmod(e.value, 1000)
            out.append(us + ns / 1000.0)
        else:
            out.append(float((e - EPOCH) / datetime.timedelta(microseconds=1)))
    return out


def show(us):
    if us is None:
        return 'no time'
    y, mo, d, h, mi, s, f, _ = F.civil(int(round(us)))
    return '%04d-%02d-%02dT%02d:%02d:%02d.%06d' % (y, mo, d, h, mi, s, f)


def compare(df, rows, tag='', rtol=1e-12):
    """Table against the rows of the records, in order. A row's date_time may be a set of right answers."""
    if isinstance(df, (int, np.integer)) and df == -999:
        raise Violation('refused' + tag, 'reader returned the not-supported signal for data it supports')
    if not isinstance(df, pd.DataFrame):
        raise Violation('malformed' + tag, 'reader returned %r' % type(df))
    cols = []
    for r in rows:
        for k in r:
            if k not in cols:
                cols.append(k)
    for c in cols:
        if c not in df.columns and not all(r.get(c, None) is None for r in rows):
            raise Violation('column' + tag, 'no column %r in the result (columns: %s)' % (c, list(df.columns)))
    if len(df) != len(rows):
        first = ''
        c = next((k for k in cols if k != 'date_time'), None)
        if c:
            got = list(df[c])
            j = next((j for j in range(min(len(got), len(rows))) if not close(got[j], rows[j].get(c), rtol)), min(len(got), len(rows)))
            first = '; first difference at row %d' % j
        raise Violation('count' + tag, '%d rows returned, %d records logged%s' % (len(df), len(rows), first))
    if not df.index.is_unique:
        raise Violation('index' + tag, 'row labels of the result are not unique')
    for c in cols:
        if c not in df.columns:
            continue
        if c == 'date_time':
            got = to_us(df[c])
            for j, (g, r) in enumerate(zip(got, rows)):
                w = r.get(c)
                ok = w if isinstance(w, (set, tuple, list)) else (w,)
                if not any((g is None and x is None) or (g is not None and x is not None and abs(g - x) <= 0.3) for x in ok):
                    raise Violation('time' + tag, 'row %d: got %s, the record says %s' % (j, show(g), ' or '.join(show(x) for x in ok)))
            if rows and not isinstance(df[c].dtype, pd.DatetimeTZDtype) and any(g is not None for g in got):
                raise Violation('time-dtype' + tag, 'date_time column has type %s: not usable as times' % df[c].dtype)
            continue
        got = list(df[c])
        for j, (g, r) in enumerate(zip(got, rows)):
            if not close(g, r.get(c), rtol):
                raise Violation('value' + tag, 'row %d, %s: got %r, logged %r' % (j, c, g, r.get(c)))
        if rows and any(isinstance(r.get(c), (int, float)) for r in rows) and not pd.api.types.is_numeric_dtype(df[c].dtype):
            raise Violation('dtype' + tag, 'column %s of numbers has type %s' % (c, df[c].dtype))


def close(g, w, rtol):
    if w is None:
        return g is None or g is pd.NaT or (isinstance(g, float) and math.isnan(g))
    if isinstance(w, str):
        return g == w
    try:
        g = float(g)
    except (TypeError, ValueError):
        return False
    return abs(g - w) <= rtol * max(1e-300, abs(w))


def observe(ctx, df):
    ctx.observe([[str(c)] + [repr(x) for x in df[c]] for c in sorted(df.columns, key=str)])


def signature(ctx, p, rows, order, *extra):
    st = [r.get('date_time') for r in rows if isinstance(r.get('date_time'), (int, float))]
    dup = len(st) - len(set(st))
    ooo = sum(b < a for a, b in zip(st, st[1:]))
    roll = len({int(s // F.DAY) for s in st})
    b = lambda x: min(4, x.bit_length())
    ctx.cover(p['fmt'], p['ship'], p.get('mode'), b(len(order)), sorted(ctx.faults), b(len(rows)), b(dup), b(ooo), min(roll, 3), *extra)
