"""C07: a named feed is extracted completely from a mixed stream."""
import math
import os

import pandas as pd

from .. import core, formats as F, gravworld as G, world
from ..core import Violation

ID = 'C07'
TITLE = 'A named feed is extracted completely from a mixed stream'
RUNS = {'quick': 5000, 'thorough': 40000}
RULE = ('a run invents a device with 1-5 feeds (names, field lists, descriptions), simulates its sensors sharing one serial line to a '
        'logger with seeded faults, and reads every feed from every file; non-trivial: at least two feeds share a file and at least two '
        'rows are read')
STATE_MEASURE = 'tuples (feeds, fields of the feed, fault kinds fired, buckets of rows, line end, prefix, empty fields, tag with $, similar tags)'
REAL = ['shipgrav.io.read_other_stuff', 'PyYAML', 'pandas', 'mmap of real files']
STUB = ['sensors, serial line, logger (dst/world.py)']
ASSUMPTIONS = ['streams are ASCII; sentences are complete (torn ones: C08); a sentence starts with $ and its tag and is the last thing on its line',
               'a specification that names fewer or more fields than the sentences have is refused by the reader with an error']
SHRINK_LISTS = ('faults', 'feeds', 'fields', 'blanks')
SHRINK_MIN = {'feeds': 1, 'fields': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('msg_loss', 'msg_dup', 'msg_delay_reorder', 'file_rotation', 'logger_crash_restart', 'feed_missing', 'spec_missing')

TYPES = ['g', 'd', 'od', 'of', 'nlat_dir', 'x', 'w', 'og']
NAMES = ['GPSTime', 'HeadingTrue', 'Pitch', 'Roll', 'Heave', 'SpeedKt', 'Mode', 'Flag', 'Lat', 'Depth', 'Temp', 'HDOP', 'Acc1', 'Acc2', 'Status']
WORDS = ['NA', 'N/A', 'None', 'null', 'NULL', 'ERR', 'V', 'True', 'false', '?', '---', '01-JAN', '1:02:03', '12E', 'E5', '#N/A', '1.2.3', 'x y']
TAGS = ['PASHR', 'PHGGA', 'HEHDT', 'PHZDA', 'PSXN', 'PRDID', 'GPVTG', 'PIXSE', 'TSS1', 'DPT']


def gen(rng, i):
    tags = rng.sample(TAGS, rng.randint(1, 5))
    sim = None
    if rng.chance(0.4):      # another feed whose name contains this one's
        sim = rng.pick(['after', 'before', 'text', 'prefix'])
        if sim == 'after':
            tags.append(tags[0] + rng.pick(['2', 'X', 'R']))
        elif sim == 'before':
            tags.append(rng.pick(['X', '2']) + tags[0])
    feeds = []
    for t in tags:
        nf = rng.randint(1, 9)
        names = rng.sample(NAMES, nf)
        fields = []
        for nm in names:
            k = rng.pick(['num', 'num', 'num', 'int', 'text', 'signed', 'zero', 'const', 'some', 'hex', 'rare', 'word'])
            fields.append({'name': nm, 'type': rng.pick(TYPES), 'k': k, 'c': rng.pick(['T', 'M', 'N', 'K']), 'empty': rng.pick([0, 0, 0.1, 0.5, 1])})
        feeds.append({'tag': t, 'fields': fields, 'sum': rng.chance(0.7), 'desc': rng.randrange(2 ** len(fields)), 'every': rng.pick([1, 1, 2, 5, 50])})
    n = rng.pick([1, 2, 5, 20, 60, 60]) if not rng.chance(0.006) else rng.pick([3000, 3000, 3000, 12000])
    p = {'feeds': feeds, 'n': n, 'period': rng.pick([100000, 500000, 1000000]), 'start': F.utc(rng.randint(2001, 2037), rng.randint(1, 12), 28, 23, 59, 30),
         'vseed': rng.randrange(10 ** 9), 'prefix': rng.pick(['iso', 'iso', 'epoch', 'none', 'name', 'tab', 'long', 'comma', 'lead', 'price']), 'eol': rng.pick(['\n', '\n', '\r\n']),
         'nonl': rng.chance(0.3), 'blanks': [round(rng.random(), 6) for _ in range(rng.pick([1, 2]))] if rng.chance(0.1) else [], 'similar': sim, 'junk': rng.pick([0, 0, 0.1]), 'dollar': rng.chance(0.5), 'extra': rng.chance(0.5),
         'loggers': [{'skew': rng.randint(-1000000, 1000000), 'latency': rng.pick([0, 5000, 300000]), 'seed': rng.randrange(10 ** 6),
                      'faults': world.gen_link_faults(rng, n * len(feeds), n * 500000, max_delay=3000000, steps=5000000)}]}
    if n >= 60 and len(feeds) > 1 and rng.chance(0.3 if n == 60 else 0.6):      # a sensor switched on or off later
        feeds[rng.randrange(len(feeds))][rng.pick(['from', 'to'])] = int(rng.random() * n)
        if n > 60 and rng.chance(0.7):
            p['loggers'][0]['faults'] = [f for f in p['loggers'][0]['faults'] if f['k'] not in ('rotate', 'crash')]
    return p


def cell(p, fd, j, f, i):
    u = lambda *a: core.unit(p['vseed'], fd['tag'], j, i, *a)
    if f['empty'] and u('e') < f['empty']:
        return ''
    k = f['k']
    x = u('v')
    if k == 'num':
        return '%.*f' % (int(u('d') * 6), x * 400)
    if k == 'int':
        return '%d' % (x * 20)
    if k == 'signed':
        return '%+.2f' % (x * 20 - 10)
    if k == 'zero':
        return '%09.2f' % (x * 1000)
    if k == 'const':
        return f['c']
    if k == 'text':
        return 'ABC'[int(x * 3)] + 'xyzq'[int(u('w') * 4)]
    if k == 'some':
        return '%.1f' % x if u('m') < 0.5 else ['-', 'T', '1:2', 'A'][int(u('n') * 4)]
    if k == 'rare':
        return '%.3f' % x if u('m') < 0.9 else ['1e5', '-.5', '12.', '+0', '1E-3'][int(u('n') * 5)]
    if k == 'word':
        return WORDS[int(x * len(WORDS))] if u('m') < 0.6 else '%.2f' % x
    return ['G%X', '%02XZ'][int(u('h') * 2)] % int(x * 255)


def value(txt):
    """What a reader must make of a field's text."""
    if txt == '':
        return None
    try:
        return float(txt)
    except ValueError:
        return txt


def names(fd):
    """Column names: what follows the tag in the specification, braces removed."""
    out = []
    for f in fd['fields']:
        out.append(f['c'] + f['name'] if f['k'] == 'const' else '%s:%s' % (f['name'], f['type']))
    if fd['sum']:
        out[-1] += '*CheckSum:x'
    return out


def spec(p):
    """The YAML specification file of the device."""
    lines = ['# made by the simulator', 'SimDevice:', '  category: "device_type"', '  description: "simulated"', '', '  format:']
    desc = {}
    for fd in p['feeds']:
        parts = []
        for f in fd['fields']:
            parts.append(f['c'] + f['name'] if f['k'] == 'const' else '{%s:%s}' % (f['name'], f['type']))
        lines.append("    %s: '$%s,%s%s'" % (fd['tag'], fd['tag'], ','.join(parts), '*{CheckSum:x}' if fd['sum'] else ''))
        for j, f in enumerate(fd['fields']):
            if fd['desc'] >> j & 1:
                key = f['c'] + f['name'] if f['k'] == 'const' else f['name']
                if fd['sum'] and j == len(fd['fields']) - 1 and f['k'] == 'const':
                    continue
                desc.setdefault(key, {'units': 'u' + key, 'description': 'what %s is' % key})
    if p['extra']:
        desc['Unused'] = {'units': '', 'description': 'in no feed'}
        desc['CheckSum'] = {'description': 'sum'}
    lines.append('  fields:')
    for k, d in sorted(desc.items()):
        lines.append('    %s:' % k)
        for a, b in d.items():
            lines.append('      %s: "%s"' % (a, b))
    if not desc:
        lines[-1] = '  fields: {}'
    return '\n'.join(lines) + '\n', desc


def prefix(p, st):
    y, mo, d, h, mi, s, f, doy = F.civil(st)
    iso = '%04d-%02d-%02dT%02d:%02d:%02d.%06dZ' % (y, mo, d, h, mi, s, f)
    k = p['prefix']
    if p['similar'] == 'prefix':
        return '%s_log ' % p['feeds'][0]['tag']
    return {'iso': iso + ' ', 'epoch': '%d.%03d ' % (st // F.US, f // 1000), 'none': '', 'name': 'mru ' + iso + ' ', 'tab': 'mru\t' + iso + '\t',
            'long': 'host=%s; ' % ('bridge' * (1 + p['vseed'] % 60)) + iso + ' ', 'comma': 'mru,%s,1.5,, ' % iso,
            'price': 'mru $%d$ ' % (p['vseed'] % 100) + iso + ' ',
            'lead': ['  ', '\t', ' '][p['vseed'] % 3] + iso + ' '}[k]


def files_of(p, ctx, prefix_='f'):
    msgs = []
    for i in range(p['n']):
        for k, fd in enumerate(p['feeds']):
            if i % fd['every'] == 0 and fd.get('from', 0) <= i < fd.get('to', p['n']):
                msgs.append((p['start'] + i * p['period'] + k * 1000, (k, i)))

    def fmt(st, payload):
        k, i = payload
        fd = p['feeds'][k]
        cells = [cell(p, fd, j, f, i) for j, f in enumerate(fd['fields'])]
        body = fd['tag'] + ',' + ','.join(cells)
        if fd['sum']:
            body += '*' + F.checksum(body)
        pre = prefix(p, st)
        out = []
        if p['junk'] and core.unit(p['vseed'], 'junk', k, i) < p['junk']:
            junk = ['', '# comment', 'restarted', '$', '$PTXT,hello*00'][int(core.unit(p['vseed'], 'jk', k, i) * 5)]
            if p['similar'] == 'text':
                junk = '$PTXT,no %s for 3 s*11' % p['feeds'][0]['tag']
            out.append(((junk + p['eol']).encode(), None))
        out.append(((pre + '$' + body + p['eol']).encode(), (k, pre, body.split(',')[1:])))
        return out

    files = [f for f in world.acquire(msgs, p['loggers'][0], fmt, p['start'], ctx, prefix=prefix_) if f.recs]
    ctx.sim_s += p['n'] * p['period'] / 1e6
    return files


def run(plan, ctx):
    from shipgrav import io as sio
    p = plan
    files = files_of(p, ctx)
    paths = world.write_files(files, ctx.scratch, blanks=p.get('blanks', ()), ctx=ctx)
    text, desc = spec(p)
    ypath = os.path.join(ctx.scratch, 'spec.yaml')
    with open(ypath, 'w') as f:
        f.write(text)
    total = 0
    shared = False
    for path, fl in zip(paths, files):
        if p['nonl']:
            with open(path, 'rb') as f:
                b = f.read().rstrip(b'\r\n')
            if not b:
                continue
            with open(path, 'wb') as f:
                f.write(b)
        shared |= len({r.row[0] for r in fl.recs if r.row}) > 1
        for k, fd in enumerate(p['feeds']):
            want = [r.row for r in fl.recs if r.row and r.row[0] == k]
            arg = ('$' if p['dollar'] else '') + fd['tag']
            try:
                res = sio.read_other_stuff(ypath, path, arg)
            except Exception as e:
                if not want:
                    ctx.fault('feed_missing')
                    continue
                raise Violation('raised', 'reading feed %s raised %s: %s' % (arg, type(e).__name__, e))
            if not want:
                raise Violation('not-refused', 'feed %s is not in the file, yet %r was returned' % (arg, type(res)))
            check(res, fd, want, desc)
            total += len(want)
            ctx.observe([[repr(x) for x in res[0].iloc[:, c]] for c in range(res[0].shape[1])])
            ctx.cover(len(p['feeds']), len(fd['fields']), sorted(ctx.faults), min(5, len(want).bit_length()), p['eol'], p['prefix'],
                      any(c == '' for w in want for c in w[2]), p['dollar'], p['similar'], p['nonl'])
        try:
            res = sio.read_other_stuff(ypath, path, 'NOSUCH')
        except Exception:
            ctx.fault('spec_missing')
        else:
            raise Violation('not-refused', 'a feed missing from the specification gave %r' % (type(res),))
    ctx.nontrivial = total >= 2 and shared


def check(res, fd, want, desc):
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Violation('malformed', 'result is %r' % type(res))
    df, info = res
    cols = names(fd)
    if list(df.columns) != cols + ['mystery']:
        raise Violation('columns', 'columns %s, specification says %s' % (list(df.columns), cols))
    if len(df) != len(want):
        raise Violation('count', 'feed %s: %d rows, %d sentences in the file' % (fd['tag'], len(df), len(want)))
    for j, c in enumerate(cols + ['mystery']):
        got = list(df.iloc[:, j])
        for r, (g, w) in enumerate(zip(got, want)):
            t = w[2][j] if j < len(cols) else w[1]
            v = value(t)
            if j == len(cols) and t == '' and g == '':
                continue
            ok = same(g, v) or (isinstance(v, float) and c == 'mystery' and g == t)
            if not ok:
                raise Violation('value', 'row %d, %s: got %r, the sentence says %r' % (r, c, g, t))
    exp = {}
    for c in cols:
        if c.split(':')[0] in desc:
            exp[c] = desc[c.split(':')[0]]
    if info != exp:
        raise Violation('info', 'descriptions %r, specification says %r' % (info, exp))


def same(g, v):
    if v is None:
        return g is None or (isinstance(g, float) and math.isnan(g))
    if isinstance(v, str):
        return isinstance(g, str) and g == v
    try:
        return not isinstance(g, str) and abs(float(g) - v) <= 1e-12 * max(1, abs(v))
    except (TypeError, ValueError):
        return False
