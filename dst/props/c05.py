"""C05: DGS laptop records are returned complete, in the right columns, flags decoded."""
import copy

import numpy as np
import pandas as pd

from .. import core, formats as F, gravworld as G, world
from ..core import Violation

ID = 'C05'
TITLE = 'DGS laptop records are returned complete, in the right columns, flags decoded'
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('most runs simulate a DGS meter with its laptop behind 1-2 loggers with seeded faults (damaged lines on the Langseth), read the '
        'files back and compare every row and, in part of the runs, decode the status column of the result; every tenth run decodes '
        '256 consecutive status words alone and as a table (256 such runs cover all 65536 words); non-trivial: at least two records '
        'and a fault or a non-default request, or a block of status words')
STATE_MEASURE = 'tuples (vessel, files, fault kinds fired, buckets of rows/duplicates/out-of-order/days, damage kinds, decode) and blocks of status words'
REAL = ['shipgrav.io.read_dgs_laptop and below', 'shipgrav.utils.decode_dgs_status_bits', 'pandas parsers']
STUB = ['meter, laptop, transport, logger and clocks (dst/world.py)', 'raw file reads (dst/simfs.py, short reads)']
ASSUMPTIONS = ['except for the Langseth\'s damaged lines, records are complete (torn ones: C08)',
               'a damaged line has the wrong number of fields or a cut-off prefix; stray bytes that are not UTF-8 may stand in any line']
SHRINK_LISTS = ('faults', 'loggers', 'blanks', 'damage', 'meter_faults', 'nogps')
SHRINK_MIN = {'loggers': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('msg_loss', 'msg_dup', 'msg_delay_reorder', 'file_rotation', 'logger_crash_restart', 'clock_step', 'short_read', 'line_damaged',
             'meter_clock_step', 'gps_lost', 'empty_line')

FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def gen(rng, i):
    if i % 10 == 3:
        return {'kind': 'words', 'block': (i // 10) % 256, 'vseed': rng.randrange(10 ** 9), 'key': rng.pick(['status', 'status', 'flags', 'st']),
                'idx': rng.pick(['range', 'rev', 'time'])}
    p = G.gen(rng, 'lap', rng.pick(F.LAP_SHIPS + ['Langseth', 'Langseth']))
    p['kind'] = 'acq'
    p['meter_off'] = rng.pick([0, rng.randint(-500000, 500000), rng.randint(-10 ** 11, 10 ** 11)])
    p['meter_faults'] = [{'i': rng.randrange(p['n']), 'd': rng.randint(-3000000, 3000000)}] if rng.chance(0.2) else []
    p['nogps'] = [{'i': rng.randrange(p['n']), 'n': rng.pick([1, 3, 100])} for _ in range(rng.pick([1, 1, 2]))] if rng.chance(0.1) else []
    p['damage'] = []
    if p['ship'] == 'Langseth' and rng.chance(0.8):
        for _ in range(rng.pick([1, 1, 2, 5, 20])):
            p['damage'].append({'k': rng.pick(['short', 'long', 'shift', 'prefix', 'stray', 'junk', 'blank', 'space', 'seps', 'noprefix', 'lost', 'glue', 'comma', 'comma']),
                                'm': rng.randrange(max(1, p['n'])), 'a': rng.random()})
    p['read']['decode'] = rng.chance(0.3)
    p['read']['fun'] = rng.chance(0.05) and p['ship'] not in ('Thompson', 'Sikuliaq', 'Langseth')
    p['read']['all_bad'] = p['ship'] == 'Langseth' and rng.pick([0] * 12 + [1, 1, 2])
    return p


def hurt(ctx, files, d, salt):
    """The Langseth logger damages the line of record m, or writes stray ones."""
    recs = [(f, k) for f in files for k in range(len(f.recs))]
    if not recs:
        return
    f, k = recs[d['m'] % len(recs)]
    r = f.recs[k]
    new = world.Rec(r.data, r.row, r.msg, r.stamp)
    a = d['a']
    ln = r.data.rstrip(b'\n')
    fields = ln.split(b',')
    how = d['k']
    if getattr(r, 'data').startswith(b'#') or len(fields) != 26:
        return
    if how == 'short':          # fields lost
        lose = 1 + int(a * 24)
        at = int(a * 7919) % (26 - lose + 1)
        ln2 = b','.join(fields[:at] + fields[at + lose:])
        new.data, new.row = ln2 + b'\n', None
    elif how == 'long':
        at = int(a * 26)
        new.data, new.row = b','.join(fields[:at] + [b'%d' % int(a * 1000)] * (1 + int(a * 5)) + fields[at:]) + b'\n', None
    elif how == 'comma':        # an empty field at an end
        new.data, new.row = [ln + b',', ln + b', ', ln + b',,'][int(a * 97) % 3] + b'\n', None
    elif how == 'shift':        # a field cut in two
        at = int(a * 26)
        new.data, new.row = b','.join(fields[:at] + [fields[at][:1], fields[at][1:]] + fields[at + 1:]) + b'\n', None
    elif how == 'prefix':       # nothing but (part of) the prefix
        new.data, new.row = [b'dgsdata\n', b'dgsdata\t2022:001:00:00:00.0000\n', b'dgsdata \n'][int(a * 3)], None
    elif how == 'stray':        # bytes that are not text; the record itself is whole
        at = int(a * (len(ln) + 1))
        new.data = ln[:at] + [b'\xff', b'\xfe\xff', b'\xc3', b'\x80\x80\x80'][int(a * 97) % 4] + ln[at:] + b'\n'
    elif how == 'space':        # leading blanks
        new.data = b' ' * (1 + int(a * 5)) + ln + b'\n'
    elif how == 'seps':         # blanks for tabs; the record itself is whole
        sep = [b' ', b'  ', b' \t', b'\t '][int(a * 97) % 4]
        if ln.count(b'\t') < 2:
            return
        w = ln.split(b'\t', 2)
        if w[0] == b'dgsdata':
            new.data = sep.join(w) + b'\n'
    elif how == 'noprefix':     # the record without the logger's prefix
        if ln.count(b'\t') < 2:
            return
        new.data = ln.split(b'\t', 2)[2] + b'\n'
    elif how == 'lost':         # record cut by the logger, the next one on the same line
        at = int(a * len(ln))
        if k + 1 < len(f.recs):
            cand = ln[:at] + f.recs[k + 1].data
            if f.recs[k + 1].row is None or nf(cand) == 26 or nf(f.recs[k + 1].data) != 26:
                return
            new.data, new.row = cand, None
            f.recs[k] = new
            del f.recs[k + 1]
            ctx.fault('line_damaged')
            return
        return
    elif how == 'glue':         # line end lost
        if k + 1 < len(f.recs) and nf(f.recs[k + 1].data) == 26:
            new.data, new.row = ln + f.recs[k + 1].data, None
            f.recs[k] = new
            del f.recs[k + 1]
            ctx.fault('line_damaged')
        return
    else:                       # an extra line
        new.row = None
        new.data = {'blank': b'\n', 'junk': b'\xfe\xed junk, junk\n'}[how]
        f.recs.insert(k, new)
        ctx.fault('line_damaged')
        return
    f.recs[k] = new
    ctx.fault('line_damaged')


def nf(data):
    return len(data.split(b','))


def own_reader(path):
    rows = []
    with open(path) as f:
        for ln in f:
            w = ln.split(',')
            if len(w) < 25:
                continue
            rows.append((float(w[1]), pd.Timestamp('%s-%s-%sT%s:%s:00' % tuple(w[19:24]), tz='UTC') + pd.Timedelta(milliseconds=int(round(float(w[24]) * 1000)))))
    return pd.DataFrame(rows, columns=['rgrav', 'date_time'])


def run(plan, ctx):
    if plan['kind'] == 'words':
        return run_words(plan, ctx)
    from shipgrav import io as sio
    rd = plan['read']
    files = [f for f in G.build(plan, ctx) if f.recs]
    for d in plan['damage']:
        hurt(ctx, files, d, plan['vseed'])
    for f in files[:1 if rd.get('all_bad') == 1 else len(files)] if rd.get('all_bad') else ():
        f.recs = [world.Rec(b','.join(r.data.split(b',')[:20]) + b'\n', None, r.msg, r.stamp) for r in f.recs]
        ctx.fault('line_damaged', len(f.recs))
    if not files:
        ctx.cover('empty')
        return
    order = G.arrange(files, rd)
    paths = world.write_files(files, ctx.scratch, ctx=ctx, **world.layout(rd))
    arg = [paths[k] for k in order]
    if len(arg) == 1 and rd['single']:
        arg = arg[0]
    rows = [dict(r) for k in order for r in files[k].rows()]
    kw = {'progressbar': rd['progress']}
    if rd.get('fun'):
        kw['ship_function'] = own_reader
        rows = [{k: r[k] for k in ('rgrav', 'date_time')} for r in rows]
    try:
        df = G.short_reads(ctx, lambda: sio.read_dgs_laptop(arg, 'Nautilus' if rd.get('fun') else plan['ship'], **kw), rd['chunk'], plan['vseed'])
    except Exception as e:
        raise Violation('raised', 'reading laptop files of %s raised %s: %s' % (plan['ship'], type(e).__name__, e))
    if not rows and not isinstance(df, pd.DataFrame):
        raise Violation('type', 'reading files with only damaged lines gives %r' % type(df))
    if not rows and not {'rgrav', 'date_time'} <= set(df.columns):
        raise Violation('column', 'columns of an empty table: %s' % list(df.columns))
    G.compare(df, rows)
    G.observe(ctx, df)
    if rd['decode'] and rows and 'status' in df.columns:
        decode(df, [r['status'] for r in rows], 'status')
    G.signature(ctx, plan, rows, order, sorted(set(d['k'] for d in plan['damage'])), rd['decode'], rd['chunk'], rd['nonl'])
    ctx.nontrivial = len(rows) >= 2 and bool(ctx.faults or len(order) > 1 or len(kw) > 1)


def bit(x):
    try:
        return int(x)
    except (TypeError, ValueError):
        return None


def check_flags(get, word, where):
    b = format(word, '016b')
    for j, f in enumerate(FLAGS):
        if bit(get(f)) != int(b[j]):
            raise Violation('flag', '%s: status %d (%s): flag %r is %r' % (where, word, b, f, get(f)))


def decode(df, words, key):
    """Decode the words of a table; all of its other content must stay."""
    from shipgrav import utils as su
    before = df.copy(deep=True)
    try:
        out = su.decode_dgs_status_bits(df) if key == 'status' else su.decode_dgs_status_bits(df, key=key)
    except Exception as e:
        raise Violation('decode-raised', 'decoding a table raised %s: %s' % (type(e).__name__, e))
    if not isinstance(out, pd.DataFrame):
        raise Violation('decode-type', 'decoding a table returned %r' % type(out))
    if sorted(map(str, out.columns)) != sorted(list(map(str, before.columns)) + FLAGS):
        raise Violation('decode-columns', 'columns after decoding: %s' % list(out.columns))
    if len(out) != len(before) or not out.index.equals(before.index):
        raise Violation('decode-rows', 'decoding changed the rows: %d, were %d' % (len(out), len(before)))
    for c in before.columns:
        if out[c].dtype != before[c].dtype or not (out[c].equals(before[c])):
            raise Violation('decode-other', 'decoding changed column %r' % c)
    cols = {f: list(out[f]) for f in FLAGS}
    for j, w in enumerate(words):
        check_flags(lambda f: cols[f][j], w, 'row %d' % j)
    return out


def run_words(plan, ctx):
    from shipgrav import utils as su
    words = list(range(plan['block'] * 256, plan['block'] * 256 + 256))
    for w in words:
        out = su.decode_dgs_status_bits(w)
        if not isinstance(out, dict) or sorted(out) != sorted(FLAGS):
            raise Violation('decode-names', 'decoding %d gives %r' % (w, out))
        check_flags(lambda f: out[f], w, 'integer')
    words.sort(key=lambda w: core.unit(plan['vseed'], w))
    key = plan['key']
    df = pd.DataFrame({'rgrav': np.arange(256) * 1.5, key: words, 'note': ['n%d' % w for w in words]})
    if key != 'status' and plan['vseed'] % 2:
        df.insert(0, 'status', 'text')
    if plan['idx'] == 'rev':
        df.index = range(256, 0, -1)
    elif plan['idx'] == 'time':
        df.index = pd.date_range('2022-07-01', periods=256, freq='s', tz='UTC')
    decode(df, words, key)
    ctx.observe(plan['block'])
    ctx.cover('words', plan['block'], key, plan['idx'])
    ctx.nontrivial = True
