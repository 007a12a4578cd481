"""The navigation side of the simulated ship, and the reference model of its reader."""
import datetime
import math

import numpy as np

from . import core, formats as F, world
from .core import Violation

US = F.US
TALKERS = ['GPGGA', 'INGGA', 'GNGGA']


def wrap(lon):
    while lon > 180:
        lon -= 360
    while lon <= -180:
        lon += 360
    return lon


def position(p, t):
    """True position at true time t (us): a straight run with some swing."""
    s = (t - p['start']) / 1e6
    if p.get('still'):
        return p['lat0'], wrap(p['lon0'])
    lat = p['lat0'] + p['vn'] * s + 2e-5 * math.sin(s / 7.0)
    lon = p['lon0'] + p['ve'] * s + 2e-5 * math.cos(s / 5.0)
    for k in p.get('turns', ()):
        if s > k['at']:
            lon += k['dve'] * (s - k['at'])
    for k in p.get('hops', ()):
        if s > k['at']:
            lon += k['dlon']
            lat += k['dlat']
    return max(-90.0, min(90.0, lat)), wrap(lon)


def in_dropout(p, i):
    return any(f['k'] == 'dropout' and f['i'] <= i < f['i'] + f['n'] for f in p.get('sensor_faults', ()))


def absent(p, i):
    return any(f['k'] == 'silent' and f['i'] <= i < f['i'] + f['n'] for f in p.get('sensor_faults', ()))


def build(p, ctx, prefix=''):
    """Simulate the acquisition. Returns the list of world.File of all loggers."""
    ship = p['ship']
    talker = p.get('talker') or F.NAV[ship]['talker']
    vs = p['vseed']
    drops = set()
    silent = set()
    mute = set()
    glitch = {}
    for f in p.get('sensor_faults', ()):
        if f['k'] == 'mute':                # the receiver says nothing while the other sentences go on
            mute.update(range(f['i'], min(p['n'], f['i'] + f['n'])))
            continue
        if f['k'] == 'glitch':              # one fix somewhere else
            glitch[f['i']] = f['dlon']
            continue
        for i in range(f['i'], min(p['n'], f['i'] + f['n'])):
            (drops if f['k'] == 'dropout' else silent).add(i)
    ctx.fault('nav_dropout', len(drops))
    ctx.fault('nav_silent', len(silent))
    ctx.fault('nav_mute', len(mute))
    ctx.fault('position_glitch', len(glitch))

    def fix(i, t, tk, off=0.0):
        la, lo = position(p, t)
        lo += glitch.get(i, 0)
        ex = (int(core.unit(vs, 'q', i) * 9), int(core.unit(vs, 's', i) * 30), core.unit(vs, 'h', i) * 5, ['4.0,0402', ',', '4.0,0402', ''][vs % 4])
        return F.gga(tk, t + p.get('gps_off', 0), la + off, wrap(lo + off), p['cdig'], p['mdig'], ex, i in drops)

    msgs = []
    block = ship == 'Revelle'
    note = p.get('note')
    for i in range(p['n']):
        t = p['start'] + i * p['period']
        if i in silent:
            continue
        la, lo = position(p, t)
        sents = []
        for d in p['decoys']:
            if d in TALKERS:
                if d != talker:
                    # another receiver, somewhere else: a mixed-up talker is visible
                    sents.append((fix(i, t, d, 0.3)[0], None))
            else:
                sents.append((F.DECOYS[d]('GP' if 'GP' in talker else 'IN', t, la, lo), None))
        if note is not None and core.unit(vs, 'note', i) < .3:     # a remark of the logger with a date of its own
            sents.insert(int(core.unit(vs, 'note-at', i) * (len(sents) + 1)), (F.note(note, t), None))
        g = fix(i, t, talker)
        at = int(core.unit(vs, 'pos', i) * (len(sents) + 1)) if not block else \
            1 + int(core.unit(vs, 'pos', i) * len(sents))
        if block:
            z = F.DECOYS['ZDA']('GP', t, la, lo)
            sents.insert(0, (z, None))
            if i not in mute:
                sents.insert(at, (g[0], g[1:]))
            if i == p.get('pad', (-1,))[0]:     # a burst of satellite listings after the dated line
                sents[1:1] = [(F.DECOYS['GSA']('GP', t, la, lo), None)] * p['pad'][1]
            msgs.append((t, sents))
        else:
            if i not in mute:
                sents.insert(at, (g[0], g[1:]))
            for j, s in enumerate(sents):
                msgs.append((t + j * 1000, [s]))

    def fmt(st, sents):
        if block:
            out = []
            row = None
            for j, (txt, g) in enumerate(sents):
                out.append((F.nav_prefix(ship, st, txt, p.get('sdig')) if j == 0 else '') + txt + '\r\n')
                if g is not None:
                    row = (F.nav_time(ship, st, g[0], p['cdig'], p.get('sdig')), g[1], g[2])
            return [((''.join(out) + '\n').encode(), row)]
        txt, g = sents[0]
        row = None if g is None else (F.nav_time(ship, st, g[0], p['cdig'], p.get('sdig')), g[1], g[2])
        return [((F.nav_prefix(ship, st, txt, p.get('sdig')) + txt + '\n').encode(), row)]

    sd = p.get('sdig')
    quantum = 10 ** (6 - (F.NAV[ship]['sdig'] if sd is None else sd))
    files = []
    for k, lg in enumerate(p['loggers']):
        files += world.acquire(msgs, lg, fmt, p['start'], ctx, prefix='%snav%d_' % (prefix, k), quantum=quantum)
    ctx.sim_s += p['n'] * p['period'] / 1e6
    return files


def model(files_rows, decimate=0):
    """Reference reader: what the rows of the files, in the order given, must become."""
    out = {}
    for rows in files_rows:
        first = {}
        for t, la, lo in rows:
            first.setdefault(t, (la, lo))
        for t, _, _ in rows[::decimate or 1]:
            out.setdefault(t, first[t])
    return [(t, la, lo) for t, (la, lo) in sorted(out.items())]


def is_signal(res):
    """The documented 'not supported' result."""
    return isinstance(res, (int, np.integer)) and res == -999


def columns(df):
    """(time us, lon, lat, stamps us) of a result, checked for shape."""
    if is_signal(df):
        raise Violation('refused', 'reader returned the not-supported signal for data it supports')
    for c in ('time_sec', 'lon', 'lat', 'stamps'):
        if c not in df.columns:
            raise Violation('malformed', 'no column %r in the result' % c)
    t = np.asarray(df['time_sec'], dtype=float)
    lon = np.asarray(df['lon'], dtype=float)
    lat = np.asarray(df['lat'], dtype=float)
    st = []
    for e in df['stamps']:
        if getattr(e, 'tzinfo', None) is None or e.utcoffset() != datetime.timedelta(0):
            raise Violation('naive-stamp', 'stamp %r is not time-zone aware UTC' % (e,))
        st.append(int((e - EPOCH) / datetime.timedelta(microseconds=1)))
    return t, lon, lat, st


EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
TOL_US = 0.6         # a double holds the epoch time to a quarter of a microsecond (half of one after 2038)


def show(us):
    y, mo, d, h, mi, s, f, _ = F.civil(int(us))
    return '%04d-%02d-%02dT%02d:%02d:%02d.%06d' % (y, mo, d, h, mi, s, f)


def short(d):
    return d - 360 * round(d / 360)


def glitches(want):
    """Single fixes more than a degree away from both neighbours, which are within a degree of each other: {row: the
    longitude halfway between the neighbours, or None where that is itself open}. A reader may return either."""
    at = [k for k, w in enumerate(want) if w[1] is not None]
    fin = [want[k] for k in at]
    d = [short(b[2] - a[2]) for a, b in zip(fin, fin[1:])]
    odd, off = [], 0.0      # off: how far the fix before moved if it was smoothed
    for k in range(1, len(fin) - 1):
        apart = abs(d[k - 1]) > 0.999 and abs(d[k]) > 0.999
        if apart and min(abs(d[k - 1] + d[k]), abs(d[k - 1] - off + d[k])) < 1.001:
            odd.append(k)
            off = (d[k] - d[k - 1] + off) / 2
        else:
            off = 0.0
    return {at[k]: None if k - 1 in odd or k + 1 in odd else fin[k - 1][2] + (d[k - 1] + d[k]) / 2 for k in odd}


def compare(df, want, lon_mod=False, tag=''):
    """Result against the reference rows [(us, lat, lon)]; longitudes of glitches may be smoothed."""
    t, lon, lat, st = columns(df)
    smooth = glitches(want)
    for i in range(1, len(t)):
        if not t[i] > t[i - 1]:
            raise Violation('order' + tag, 'times not strictly increasing at row %d: %r, %r' % (i, t[i - 1], t[i]))
    for i in range(len(t)):
        if abs(t[i] * 1e6 - st[i]) > TOL_US:
            raise Violation('stamp-mismatch' + tag, 'row %d: time_sec %r but stamp %s' % (i, t[i], show(st[i])))
    n = min(len(t), len(want))
    for i in range(n):
        w = want[i]
        if abs(t[i] * 1e6 - w[0]) > TOL_US:
            raise Violation('time' + tag, 'row %d of %d (expected %d): got %s, expected %s'
                            % (i, len(t), len(want), show(round(t[i] * 1e6)), show(w[0])))
    if len(t) != len(want):
        raise Violation('count' + tag, '%d rows returned, %d fixes logged' % (len(t), len(want)))
    for i in range(n):
        w = want[i]
        if w[1] is None:
            if not (math.isnan(lat[i]) and math.isnan(lon[i])):
                raise Violation('dropout' + tag, 'row %d at %s: dropout returned as %r, %r' % (i, show(w[0]), lat[i], lon[i]))
            continue
        if not abs(lat[i] - w[1]) <= 1e-9:
            raise Violation('lat' + tag, 'row %d at %s: latitude %r, logged %r' % (i, show(w[0]), lat[i], w[1]))
        d = lon[i] - w[2]
        if lon_mod:
            d = d - 360 * round(d / 360)
        if smooth and i in smooth:
            e = lon[i] - (lon[i] if smooth[i] is None else smooth[i])
            if math.isnan(lon[i]) or not abs(e - 360 * round(e / 360)) <= 1e-7 and not abs(d - 360 * round(d / 360)) <= 1e-8:
                raise Violation('glitch' + tag, 'row %d at %s: longitude %r, logged %r, neighbours halfway at %r' % (i, show(w[0]), lon[i], w[2], smooth[i]))
            continue
        if not abs(d) <= (1e-8 if lon_mod else 1e-9):
            raise Violation('lon' + tag, 'row %d at %s: longitude %r, logged %r' % (i, show(w[0]), lon[i], w[2]))
    return t, lon, lat


def keep_off(p):
    """Steer a long track away from the antimeridian (its crossing is C03's business)."""
    span = p['n'] * p['period'] / 1e6
    if abs(p['lon0'] + p['ve'] * span) > 179.5:
        p['ve'] = -p['ve']
    return p


def gen_acq(rng, ship=None, n=None, **kw):
    """Seeded acquisition plan without clock trouble (callers add what they want)."""
    ship = ship or rng.pick(list(F.NAV))
    if n is None and rng.chance(0.004):     # a long file
        n = rng.pick([1500, 5000, 10000])
    n = n or rng.pick([1, 2, 3, 5, 8, 20, 40, 80])
    period = rng.pick([100000, 200000, 500000, 1000000, 1000000, 1000000, 2000000, 10000000])
    talker = None
    if rng.chance(0.3) and ship not in ('Ride', 'RideGP', 'Sikuliaq'):
        talker = rng.pick(TALKERS)
    if ship == 'RideGP':
        talker = 'GPGGA'
    year = max(F.any_year(rng), 2001 if ship == 'NBP' else 0)
    start = F.utc(year, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    start += rng.pick([0, 0, rng.randrange(1000) * 1000, rng.randrange(100) * 10000])
    p = {'ship': ship, 'talker': talker, 'start': start, 'period': period, 'n': n, 'vseed': rng.randrange(10 ** 9),
         'cdig': rng.pick([0, 1, 2, 2, 3, 3, 6]) if period >= US else rng.pick([1, 2, 3]), 'mdig': rng.pick([2, 3, 4, 5, 6, 6, 8]),
         'lat0': rng.pick([rng.uniform(-80, 80), rng.uniform(-0.001, 0.001), rng.uniform(-9.9, 9.9)]),
         'lon0': rng.pick([rng.uniform(-178, 178), rng.uniform(-0.001, 0.001), rng.uniform(-99, 99), rng.uniform(-9.9, 9.9)]),
         'vn': rng.uniform(-1e-4, 1e-4), 've': rng.uniform(-1e-4, 1e-4),
         'decoys': rng.some(['ZDA', 'VTG', 'HDT', 'GLL', 'RMC', 'PSXN', 'GSA', 'GPGGA', 'INGGA', 'GNGGA'], 0, 6),
         'gps_off': 0, 'sensor_faults': [], 'loggers': []}
    if rng.chance(0.25):    # stamps of another precision
        p['sdig'] = rng.randint(1 if ship in ('RideGP', 'Langseth', 'Sikuliaq') else 0, 6)
    p.update(kw)
    if rng.chance(0.03):    # in port, at the pole, on a meridian
        if rng.chance(0.5):
            p['still'] = True
            p['lon0'] = rng.pick([0, 180, 90, -90, 100, -1, p['lon0']])
        p['lat0'] = rng.pick([0, 90, -90, 89.99999, -89.9999, 10, -10, p['lat0']])
    return keep_off(p)


def gen_logger(rng, p, nlog=0, steps=None, skew=2000000, rate=1.0):
    per = 1 if p['ship'] == 'Revelle' else 1 + len([d for d in p['decoys'] if d != (p['talker'] or F.NAV[p['ship']]['talker'])])
    span = p['n'] * p['period']
    fs = world.gen_link_faults(rng, p['n'] * per, span, rate=rate, max_delay=max(2, min(20000000, 3 * p['period'])), steps=steps)
    return {'skew': rng.randint(-skew, skew), 'latency': rng.pick([0, 5000, 300000, 1500000]), 'seed': rng.randrange(10 ** 6),
            'faults': fs}


def gen_dropouts(rng, n):
    out = []
    if rng.chance(0.4):
        for _ in range(rng.randint(1, 3)):
            out.append({'k': 'dropout', 'i': rng.randrange(n), 'n': rng.pick([1, 1, 2, 5, 20])})
    return out
