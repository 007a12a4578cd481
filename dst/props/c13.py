"""C13: converting an ini file is complete or fails visibly, and a re-run repairs it."""
import os
import warnings

from .. import core, simfs
from ..core import Violation

ID = 'C13'
TITLE = 'Converting an ini file is complete or fails visibly, and a re-run repairs it'
TECHNIQUE = 'deterministic simulation with fault injection: crashes, torn and lost writes, full disk at every output operation; reference model of the format'
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('a run makes a seeded meter ini file, converts it undisturbed (judged by a reference model through an independent TOML parser) and then '
        'up to 8 more times under seeded faults of its input and output, each time from the state the last one left, with undisturbed '
        're-runs in between; non-trivial: at least one fault fired')
STATE_MEASURE = 'tuples (fault kind and error, quarter of the output, outcome, state left behind: none, empty, partial, whole, longer)'
REAL = ['shipgrav.utils.clean_ini_to_toml', 'python text and buffer layers', 'tomli (reading the output)']
STUB = ['open, raw read, raw write, close, process crash, loss of cached data (dst/simfs.py)', 'the meter that wrote the ini file']
ASSUMPTIONS = ['names are bare TOML keys; numbers are decimal; text holds no comment mark and, when quoted, no quote or backslash',
               'data the operating system accepted before the call returned survives (only crashes during the call lose data)']
SHRINK_LISTS = ('sections', 'entries', 'attempts')
SHRINK_MIN = {'sections': 1}
MUST_FIRE = ('wopen:ENOSPC', 'write:ENOSPC', 'write:EIO', 'close:EIO', 'close:ENOSPC', 'crash', 'short_write', 'lost_cache', 'open:EIO', 'read:EIO', 'stale_output')
WORDS = ['AT1M', 'meter', 'TRUE', 'FALSE', 'north', 'x=y', 'C:\\data\\new', 'a/b', '12.5.1', 'COM3:', '(main)', 'it\'s', '50%', 'true', 'Ride', '-', '[x]', '{y}',
         'GPS,ZDA', '0x1F', '12:30:00', '2020-01-01', '1,5', '$GPGGA', 'e5', 'TRUENORTH', 'b*c', '12_34', '1_0.5', 'AT1M_9', 'True', 'False', 'tRue', 'yes', 'On', 'None', 'Infinite', 'x\u2028y', 'a\x85b', 'end;', 'a;b', ';', 'last,', 'k:', '!', '&', '%s', '{0}', '~', '\'', '\\', 'a\\nb', '</a>']


def gen_text(rng):
    while True:
        t = ' '.join(rng.pick(WORDS) for _ in range(rng.pick([1, 1, 2, 4])))
        if rng.chance(0.1):
            t += ' "q" end'
        try:
            float(t.replace('_', 'x'))
        except ValueError:
            if t not in ('TRUE', 'FALSE', 'true', 'false') and t.lower() not in ('nan', 'inf'):
                return t


def gen_number(rng):
    k = rng.randrange(10)
    if k < 3:
        return str(rng.randint(-10 ** rng.pick([1, 4, 9, 15]), 10 ** 6))
    if k < 6:
        return '%.*f' % (rng.pick([1, 3, 8]), rng.uniform(-1000, 1000))
    if k == 6:
        return '%.*e' % (rng.pick([0, 2, 6]), rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20))
    if k == 7:
        return rng.pick(['+5', '0', '-0', '0.0', '1E5', '1e-05', '+1.5', '-0.25'])
    if k == 8:
        return rng.pick(['.5', '-.25', '5.', '007', '-012', '+.5e3', '00.5', '1.e2', '.123456789', '-00123456789', '123456789.', '0009007199254740991', '00.1234567890123'])
    return '%d' % rng.randrange(100)


def gen(rng, i):
    used = set()

    def key():
        while True:
            k = rng.pick(['Gain', 'Cal', 'On', 'TRUEHDG', 'FALSEPOS', 'g0', 'x-1', 'Long_Cal', 'BAUD', '3', 'toml', 'ini', 'e']) + rng.pick(['', '', str(rng.randrange(100)), '_a'])
            if k not in used:
                used.add(k)
                return k
    sections = []
    big = rng.chance(0.12)
    huge = big and rng.chance(0.04)
    for s in range(rng.pick([1, 2, 3]) if not big else rng.pick([1, 6])):
        name = None if s == 0 and rng.chance(0.2) else 'S%d%s' % (s, rng.pick(['', 'ensor', '-TRUE', '_x']))
        entries = []
        if name is not None:
            used = set()
        for _ in range(rng.pick([0, 1, 2, 5]) if not big else rng.pick([60, 90]) if not huge else 1500):
            kind = rng.pick(['num', 'num', 'bool', 'text', 'text', 'quoted', 'empty', 'comment', 'blank'])
            e = {'t': kind, 'sep': rng.pick(['=', ' = ', '= ', '\t=\t', ' =  ']), 'c': rng.pick(['', '', '', ' // note', '//TRUE', '\t# x = FALSE', ' // a//b', '  // 5" pipe'])}
            if kind not in ('comment', 'blank'):
                if big and len(used) > 400 and not huge:
                    continue
                e['k'] = key() if not big else 'k%d' % len(used)
                used.add(e['k'])
                e['d'] = rng.chance(0.05)
            if kind == 'num':
                e['v'] = gen_number(rng)
            elif kind == 'bool':
                e['v'] = rng.pick(['TRUE', 'FALSE'])
            elif kind == 'text':
                e['v'] = gen_text(rng) if not rng.chance(0.02) else '9.8 \u00b5m/s\u00b2'
                if '"' in e['v']:
                    e['c'] = ''
            elif kind == 'quoted':
                e['v'] = rng.pick(['', 'http://x.y/z', 'a # b', 'TRUE', 'x = y', '5', 'two  blanks', 'tab\there', '[Sensor]', gen_text(rng).replace('"', '').replace('\\', '/')])
            elif kind == 'comment':
                e['v'] = rng.pick(['// remark', '# remark', '//', '//x = TRUE', '// "half', '#' * 40])
            entries.append(e)
        sections.append({'name': name, 'c': rng.pick(['', '', '', ' // main']), 'entries': entries})
    attempts = []
    for _ in range(rng.pick([1, 2, 4, 8]) if not huge else 1):
        k = rng.pick(['wopen', 'write', 'write', 'close', 'crash', 'crash', 'crash', 'wshort', 'open', 'read', 'stale', 'none'])
        a = {'k': k, 'rerun': rng.chance(0.5)}
        if k in ('wopen', 'write', 'close', 'open', 'read'):
            a['err'] = rng.pick({'wopen': ['ENOSPC', 'EACCES', 'EROFS', 'EMFILE'], 'write': ['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT'], 'close': ['EIO', 'ENOSPC', 'EDQUOT'],
                                 'open': ['EIO', 'ENOENT', 'EACCES'], 'read': ['EIO', 'ESTALE']}[k])
        a['at'] = rng.pick([0.0, rng.random(), rng.random(), 0.999])
        if k == 'crash':
            a['op'] = rng.pick([1, 2, 2, 2, 3, 4, 6])
            a['part'] = rng.pick([0, rng.random(), 1])
            a['keep'] = rng.pick([1, 1, 0, rng.random()])
        if k == 'wshort':
            a['max'] = rng.pick([1, 7, 100, 4096])
        if k == 'stale':
            a['n'] = rng.pick([0, 1, 3, 50])
        attempts.append(a)
    return {'sections': sections, 'crlf': rng.chance(0.15), 'nonl': rng.chance(0.3), 'bufsize': rng.pick([8192, 8192, 512, 64, 16]),
            'name': rng.pick(['Meter.ini', 'mini.ini', 'a.b.ini', 'ini.ini', 'tin.ini', 'n.ini']), 'attempts': attempts}


def simplify(plan):
    for k, v in (('crlf', False), ('nonl', False), ('bufsize', 8192), ('name', 'Meter.ini')):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for j, s in enumerate(plan['sections']):
        for m, e in enumerate(s['entries']):
            for k, v in (('c', ''), ('sep', ' = '), ('d', False)):
                if e.get(k, v) != v:
                    p = dict(plan, sections=[dict(x, entries=[dict(y) for y in x['entries']]) for x in plan['sections']])
                    p['sections'][j]['entries'][m][k] = v
                    yield p


def render(plan):
    """The ini text, and the values it holds."""
    lines, want = [], {}
    for s in plan['sections']:
        t = want
        if s['name'] is not None:
            t = want.setdefault(s['name'], {})
            lines.append('[%s]%s' % (s['name'], s['c']))
        for e in s['entries']:
            if e['t'] == 'blank':
                lines.append('')
                continue
            if e['t'] == 'comment':
                lines.append(e['v'])
                continue
            raw = {'empty': '', 'quoted': '"%s"' % e.get('v', '')}.get(e['t'], e.get('v'))
            lines.append(('$' if e.get('d') else '') + e['k'] + e['sep'] + raw + e['c'])
            if e['t'] == 'num':
                v = float(e['v'])
            elif e['t'] == 'bool':
                v = e['v'] == 'TRUE'
            elif e['t'] == 'empty':
                v = ''
            else:
                v = e['v']
                if e.get('d'):
                    v = v.replace('$', '')
            t[e['k']] = v
    nl = '\r\n' if plan['crlf'] else '\n'
    return nl.join(lines) + ('' if plan['nonl'] else nl), want


def judge(path, want, what):
    import tomli
    try:
        with open(path, 'rb') as f:
            raw = f.read()
    except FileNotFoundError:
        raise Violation('no-output', '%s: the call returned but %s does not exist' % (what, os.path.basename(path)))
    try:
        got = tomli.loads(raw.decode())
    except Exception as e:
        raise Violation('not-toml', '%s: the output is not TOML (%s): ...%r' % (what, e, raw[-300:]))
    diff(got, want, what, '')
    return raw


def diff(got, want, what, at):
    for k in want:
        if k not in got:
            raise Violation('lost-key', '%s: %s%s is missing from the output' % (what, at, k))
        a, b = got[k], want[k]
        if isinstance(b, dict):
            if not isinstance(a, dict):
                raise Violation('wrong-value', '%s: section %s became %r' % (what, k, a))
            diff(a, b, what, at + k + '.')
        elif isinstance(b, bool) or isinstance(b, str):
            if type(a) is not type(b) or a != b:
                raise Violation('wrong-value', '%s: %s%s is %r, the input says %r' % (what, at, k, a, b))
        elif isinstance(a, bool) or not isinstance(a, (int, float)) or float(a) != b:
            raise Violation('wrong-value', '%s: %s%s is %r, the input says %r' % (what, at, k, a, b))
    for k in got:
        if k not in want:
            raise Violation('extra-key', '%s: the output has %s%s, which the input has not' % (what, at, k))


def convert(ctx, ini, faults, bufsize):
    from shipgrav import utils as su
    fs = simfs.SimFS(ctx.scratch, faults, ctx)
    fs.bufsize = lambda: bufsize
    with fs:
        try:
            res = ('ok', su.clean_ini_to_toml(ini))
        except simfs.SimCrash:
            res = ('crash', None)
        except Exception as e:
            res = ('err', '%s: %s' % (type(e).__name__, str(e)[:150]))
        if res[0] == 'crash':
            fs.dead = True
        import gc
        gc.collect()          # a dead or failed process flushes nothing more; a live one may
    return res, fs


def run(plan, ctx):
    warnings.simplefilter('ignore')
    text, want = render(plan)
    ini = os.path.join(ctx.scratch, plan['name'])
    toml = ini[:-3] + 'toml'
    base = os.path.basename(toml)
    data = text.encode()
    with open(ini, 'wb') as f:
        f.write(data)
    res, fs = convert(ctx, ini, (), plan['bufsize'])
    if res[0] != 'ok':
        raise Violation('raised', 'an undisturbed conversion raised %s of %r' % (res[1], text[-400:]))
    if os.path.realpath(res[1]) != os.path.realpath(toml):
        raise Violation('wrong-path', 'the conversion of %s returned %s' % (plan['name'], res[1]))
    if base not in fs.opens and not os.path.exists(toml):
        raise Violation('no-output', 'the conversion wrote no %s' % base)
    whole = judge(toml, want, 'undisturbed')
    extra(ctx, plan, data, ini, base)
    ctx.observe(whole)
    crashed = False
    for j, a in enumerate(plan['attempts']):
        fl = []
        k = a['k']
        if k in ('write', 'close', 'wopen'):
            fl = [{'k': k, 'err': a['err'], 'at': int(a['at'] * len(whole)), 'times': -1 if k == 'write' else 1}]
        elif k in ('open', 'read'):
            fl = [{'k': k, 'file': plan['name'], 'err': a['err'], 'at': int(a['at'] * len(data))}]
        elif k == 'wshort':
            fl = [{'k': 'wshort', 'max': a['max'], 'times': -1}]
        elif k == 'crash':
            fl = [{'k': 'crash', 'op': a['op'], 'part': a['part']}]
        elif k == 'stale':
            with open(toml, 'wb') as f:
                f.write((b'[stale]\nold = 1\n' * a['n'] + whole)[:a['n'] * 40])
            ctx.fault('stale_output')
        res, fs = convert(ctx, ini, fl, plan['bufsize'])
        what = 'attempt %d (%s)' % (j, ' '.join('%s=%s' % kv for kv in sorted(a.items()) if kv[0] != 'rerun'))
        fired = [f['k'] for f in fs.fired]
        if fired:
            ctx.nontrivial = True
        if res[0] == 'ok':
            if set(fired) & {'write', 'close', 'wopen', 'open', 'read'}:
                raise Violation('silent', '%s: the call returned although the fault struck' % what)
            got = judge(toml, want, what)
            if got != whole:
                raise Violation('differs', '%s: the output differs from that of an undisturbed run' % what)
            if not crashed:
                extra(ctx, plan, data, ini, base)
        elif res[0] == 'err':
            if not fired:
                raise Violation('raised', '%s: no fault struck, yet the call raised %s' % (what, res[1]))
            crashed = True          # it may leave what it likes beside the file, too
        else:
            crashed = True
            if os.path.exists(toml) and a['keep'] < 1:
                with open(toml, 'r+b') as f:
                    f.truncate(int(os.path.getsize(toml) * a['keep']))
                ctx.fault('lost_cache')
        with open(ini, 'rb') as f:
            if f.read() != data:
                raise Violation('input', '%s: the input file was modified' % what)
        size = os.path.getsize(toml) if os.path.exists(toml) else -1
        state = 'none' if size < 0 else 'empty' if size == 0 else 'partial' if size < len(whole) else 'whole' if size == len(whole) else 'longer'
        ctx.cover(k, a.get('err'), int(a['at'] * 4), res[0], state)
        ctx.observe((what, res[0], size, fired))
        if a['rerun']:
            rerun(ctx, plan, ini, toml, want, whole, 'the re-run after %s' % what)
    rerun(ctx, plan, ini, toml, want, whole, 'the last re-run')


def rerun(ctx, plan, ini, toml, want, whole, what):
    res, fs = convert(ctx, ini, (), plan['bufsize'])
    if res[0] != 'ok':
        raise Violation('rerun', '%s raised %s' % (what, res[1]))
    got = judge(toml, want, what)
    if got != whole:
        raise Violation('rerun', '%s gives another file than an undisturbed run' % what)


def extra(ctx, plan, data, ini, base):
    """Only the output appears, and the input stays."""
    names = sorted(os.listdir(ctx.scratch))
    if names != sorted([plan['name'], base]):
        raise Violation('extra-file', 'after the conversion the directory holds %s' % names)
    with open(ini, 'rb') as f:
        if f.read() != data:
            raise Violation('input', 'the input file was modified')
