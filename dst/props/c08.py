"""C08: a torn write damages at most the record it tears."""
import itertools
import math
import os

import numpy as np
import pandas as pd

from .. import core, formats as F, gravworld as G, navworld as N, readers as R
from ..core import Violation
from . import c07

ID = 'C08'
TITLE = 'A torn write damages at most the record it tears'
RUNS = {'quick': 1200, 'thorough': 15000}
RULE = ('a run simulates a small acquisition of any format and then 24 crash histories of it (or, every fifth run, one for every byte of '
        'the last record of a file): the logger stops at an arbitrary byte of the record it is writing in one or more files, and the '
        'surviving files are read and compared with the ledger of complete records; non-trivial: at least one torn file was read '
        'without an error')
STATE_MEASURE = 'tuples (kind, vessel, mode, what became of the torn record, error type, number of torn files, decile of the cut)'
REAL = ['all file readers of shipgrav.io', 'pandas parsers', 'numpy', 'PyYAML', 'mmap of real files']
STUB = ['sensors, transport, logger, its disk and its crash (dst/world.py)']
ASSUMPTIONS = ['a file ends in the middle of its last record: the bytes before the cut are on disk, those after it are not',
               'a torn navigation sentence counts as the first logged with its time and may hide another logger\'s record of that instant']
SHRINK_LISTS = ('crashes', 'tears', 'faults', 'sensor_faults', 'decoys', 'feeds', 'fields')
SHRINK_MIN = {'feeds': 1, 'fields': 1, 'crashes': 1, 'tears': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('torn_write', 'torn_several_files', 'file_rotation')

STRICT_LAPTOP = 'Langseth'


def gen(rng, i):
    plan = R.gen(rng, kind=rng.pick(['nav', 'nav', 'nav', 'nav', 'bgm', 'rgs', 'lap', 'lap', 'lap', 'raw', 'raw', 'feed']))
    if plan['kind'] == 'lap' and rng.chance(0.3):
        plan['p']['ship'] = STRICT_LAPTOP
    if plan['kind'] == 'nav':
        # a torn clock must not be able to look like the clock of another fix unless it is one
        plan['p']['decoys'] = plan['p']['decoys'][:rng.pick([0, 0, 1, 2])]
        if rng.chance(0.3):     # two loggers, so that a torn file can precede another record of the same fix
            lg = dict(plan['p']['loggers'][0], seed=rng.randrange(10 ** 6))
            plan['p']['loggers'].append(lg)
    plan['feed'] = rng.randrange(3) if plan['kind'] == 'feed' else 0
    if i % 5 == 0:
        plan['crashes'] = [{'sweep': rng.randrange(8)}]
    else:
        plan['crashes'] = [{'tears': [{'f': rng.randrange(8), 'at': rng.random(), 'after': rng.pick(['', '', '', '-', '.', ',', ':', ' ', '0', 'rgt'])} for _ in range(rng.pick([1, 1, 1, 2, 3]))]} for _ in range(24)]
    plan['order'] = rng.randrange(10 ** 6) if rng.chance(0.3) else None
    return plan


def run(plan, ctx):
    case = R.Case(plan, ctx)
    if case.kind == 'feed':
        case.k = plan['feed'] % len(case.p['feeds'])
    nf = len(case.files)
    if not nf:
        ctx.cover('empty')
        return
    case.write()
    blobs = [f.bytes() for f in case.files]
    lens = [len(f.recs[-1].data) for f in case.files]
    crashes = []
    for c in plan['crashes']:
        if 'sweep' in c:
            f = c['sweep'] % nf
            crashes += [[(f, at)] for at in range(1, lens[f])]
        else:
            d = {}
            for t in c['tears']:
                f = t['f'] % nf
                d[f] = 1 + int(t['at'] * (lens[f] - 1))
                rec = case.files[f].recs[-1].data       # right after a sign, a separator, ... or in the right half
                spots = [k for k in range(1, lens[f]) if rec[k - 1:k] == t['after'].encode()] if len(t.get('after', '')) == 1 else \
                    range(lens[f] // 2, lens[f]) if t.get('after') else []
                if spots:
                    d[f] = max(1, spots[int(t['at'] * len(spots))])
            d = {f: at for f, at in d.items() if at < lens[f]}
            if d:
                crashes.append(sorted(d.items()))
    order = list(range(nf))
    if plan['order'] is not None:
        order.sort(key=lambda k: core.unit(plan['order'], k))
    for tears in crashes:
        crash(case, ctx, dict(tears), blobs, lens, order)


def crash(case, ctx, tears, blobs, lens, order):
    ctx.fault('torn_write', len(tears))
    ctx.fault('torn_several_files', int(len(tears) > 1))
    if case.kind == 'feed':
        order = [next(iter(tears))]
    paths = []
    for k in order:
        b = blobs[k]
        if k in tears:
            b = b[:len(b) - lens[k] + tears[k]]
        with open(case.paths[k], 'wb') as f:
            f.write(b)
        paths.append(case.paths[k])
    tails = [case.files[k].recs[-1].data[:tears[k]] for k in sorted(tears)]
    what = 'torn after %s' % ', '.join(repr(t[-30:]) for t in tails)
    try:
        res = case.call(paths)
    except Exception as e:
        ctx.cover(case.kind, case.ship, case.p.get('mode'), 'error', type(e).__name__, len(tears), int(10 * list(tears.values())[0] / lens[list(tears)[0]]))
        ctx.observe(('error', type(e).__name__, str(e)[:100]))
        return
    ctx.observe(R.text(res))
    if N.is_signal(res):
        ctx.cover(case.kind, case.ship, case.p.get('mode'), 'refused')
        return
    rows = [case.rows(k) for k in order]
    torn_row = {}
    for j, k in enumerate(order):
        if k in tears:
            last = case.files[k].recs[-1].row
            if case.kind == 'feed' and last is not None and last[0] != case.k:
                last = None
            if last is not None:
                torn_row[j] = rows[j][-1]
                rows[j] = rows[j][:-1]
    torn_files = [j for j, k in enumerate(order) if k in tears]
    outcome = judge(case, res, rows, torn_row, torn_files, what)
    ctx.nontrivial = True
    ctx.cover(case.kind, case.ship, case.p.get('mode'), outcome, len(tears), int(10 * list(tears.values())[0] / lens[list(tears)[0]]))


def judge(case, res, rows, torn_row, torn_files, what):
    if case.kind == 'nav':
        return judge_nav(res, rows, torn_row, len(torn_files), what)
    if case.kind == 'feed':
        df = res[0] if isinstance(res, tuple) else None
        if df is None:
            raise Violation('malformed', '%s: result is %r' % (what, type(res)))
        extra = len(df) - len(rows[0])
        if extra not in (0, 1):
            raise Violation('rows', '%s: %d rows, %d complete sentences' % (what, len(df), len(rows[0])))
        try:
            c07.check((df.iloc[:len(rows[0])], res[1]), case.p['feeds'][case.k], rows[0], case.desc)
        except Violation as e:
            raise Violation(e.cls, '%s: %s' % (what, e.msg))
        return extra
    strict = case.kind == 'lap' and case.p['ship'] == STRICT_LAPTOP
    if not isinstance(res, pd.DataFrame):
        raise Violation('malformed', '%s: result is %r' % (what, type(res)))
    n = sum(len(r) for r in rows)
    extra = len(res) - n
    if not 0 <= extra <= len(torn_files):
        raise Violation('rows', '%s: %d rows, %d complete records, %d torn' % (what, len(res), n, len(torn_files)))
    first = None
    for sub in itertools.combinations(torn_files, extra):
        want, keep, pos = [], [], 0
        bad = None
        for j, rr in enumerate(rows):
            want += rr
            keep += range(pos, pos + len(rr))
            pos += len(rr)
            if j in sub:
                if strict:
                    keep.append(pos)
                    want = want + [torn_row[j]] if j in torn_row else want
                    if j not in torn_row:
                        bad = 1
                pos += 1
        if bad:
            continue
        part = res.iloc[keep] if len(keep) != len(res) else res
        try:
            G.compare(part, want, rtol=1e-10)
        except Violation as e:
            first = first or e
        else:
            return extra
    raise Violation(first.cls if first else 'rows', '%s: %s' % (what, first.msg if first else 'a torn record was returned'))


def judge_nav(res, rows, torn_row, ntorn, what):
    t, lon, lat, st = N.columns(res)
    first = None
    js = sorted(torn_row)
    for r in range(len(js) + 1):
        for sub in itertools.combinations(js, r):
            rb = [list(x) for x in rows]
            for j in sub:
                rb[j] = rb[j] + [torn_row[j]]
            want = N.model(rb)
            times = [w[0] for w in want]
            drop = [k for k in range(len(t)) if math.isnan(lat[k]) and math.isnan(lon[k])
                    and not any(abs(t[k] * 1e6 - x) <= N.TOL_US for x in times)]
            # a torn sentence is the first logged with its time: another logger's record of that instant stands back
            hid = 0
            for k in range(len(t)):
                for q, w in enumerate(want):
                    if w[1] is not None and abs(t[k] * 1e6 - w[0]) <= N.TOL_US and math.isnan(lat[k]) and math.isnan(lon[k]):
                        j0 = min(j for j, rr in enumerate(rb) if any(x[0] == w[0] for x in rr))
                        if any(j < j0 for j in torn_row):
                            want[q] = (w[0], None, None)
                            hid += 1
            if len(drop) + hid > ntorn:
                continue
            part = res.drop(index=res.index[drop]) if drop else res
            try:
                N.compare(part, want)
            except Violation as e:
                first = first or e
            else:
                return ('full' * bool(sub)) + ('nan' * bool(drop)) + ('hides' * bool(hid)) or 'absent'
    raise Violation(first.cls if first else 'rows', '%s: %s' % (what, first.msg if first else 'too many rows without a position'))
