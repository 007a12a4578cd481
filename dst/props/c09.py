"""C09: a read fault makes a read fail, never shrink or change its result."""
import gc
import os

import numpy as np
import pandas as pd

from .. import core, navworld as N, readers as R, simfs
from ..core import Violation

ID = 'C09'
TITLE = 'A read fault makes a read fail, never shrink or change its result'
RUNS = {'quick': 2500, 'thorough': 20000}
RULE = ('a run simulates a small data set of any format, reads it undisturbed (checked against the ledger) and then up to 12 times with '
        'faults at seeded opens, byte offsets and maps of its files, each followed by an undisturbed retry; or sends requests the readers '
        'do not support; non-trivial: at least one fault fired or one unsupported request was made')
STATE_MEASURE = 'tuples (kind, vessel, mode, fault kind and error, which file of how many, quarter of the file, transient or lasting, outcome)'
REAL = ['all file readers of shipgrav.io', 'pandas parsers', 'python text and buffer layers', 'PyYAML', 'mmap of real files']
STUB = ['open, raw read, mmap (dst/simfs.py)', 'sensors, transport, logger (dst/world.py)']
ASSUMPTIONS = ['a call that gives its complete normal result although a fault struck (a retry, or a fault after the last byte) is not blamed',
               'a descriptor counts as left open when the file object survives garbage collection']
SHRINK_LISTS = ('attempts', 'faults', 'sensor_faults', 'decoys', 'feeds', 'fields')
SHRINK_MIN = {'feeds': 1, 'fields': 1}
SHRINK_INTS = {'n': 1}
MUST_FIRE = ('open:ENOENT', 'open:EACCES', 'open:EMFILE', 'open:EIO', 'read:EIO', 'read:ESTALE', 'read:ENOMEM', 'mmap:ENOMEM', 'short_read', 'file_removed',
             'unsupported_request')


def gen(rng, i):
    plan = R.gen(rng, n=rng.pick([1, 2, 3, 5, 8, 40]))
    p = plan['p']
    if plan['kind'] != 'feed' and rng.chance(0.6):      # more than one file
        for _ in range(rng.pick([1, 1, 2])):
            p['loggers'][0]['faults'].append({'k': 'rotate', 'at': rng.randint(0, p['n'] * p['period'])})
    plan['feed'] = rng.randrange(3) if plan['kind'] == 'feed' else 0
    plan['attempts'] = []
    for _ in range(rng.pick([4, 8, 12])):
        k = rng.pick(['open', 'open', 'read', 'read', 'read', 'read', 'mmap', 'chunk', 'removed', 'chunkread', 'unsupported', 'unsupported'])
        a = {'k': k, 'f': rng.randrange(8), 'times': rng.pick([1, -1])}
        if k == 'open':
            a['err'] = rng.pick(['ENOENT', 'EACCES', 'EMFILE', 'EIO', 'ENFILE', 'ESTALE', 'EISDIR', 'ENOMEM'])
        elif k in ('read', 'chunkread'):
            a['err'] = rng.pick(['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EBADF', 'ETIMEDOUT'])
            a['at'] = rng.pick([0, rng.random(), rng.random(), rng.random(), 0.999, 1.0])
        elif k == 'mmap':
            a['err'] = rng.pick(['ENOMEM', 'EACCES', 'ENODEV'])
        elif k == 'unsupported':
            a['what'] = rng.randrange(1000)
        if k in ('chunk', 'chunkread'):
            a['chunk'] = rng.pick([1, 2, 13, 100, 4096])
        plan['attempts'].append(a)
    return plan


def run(plan, ctx):
    case = R.Case(plan, ctx)
    if case.kind == 'feed':
        case.k = plan['feed'] % len(case.p['feeds'])
        case.files, case.paths = case.files[:1], case.paths[:1]
    if not case.files or (case.kind == 'feed' and not case.rows(0)):
        ctx.cover('empty')
        return
    case.write()
    ref = attempt(case, ctx, (), None, 'undisturbed')
    if ref[0] != 'ok':
        raise Violation('raised', 'reading healthy files (%s, %s) raised %s' % (case.kind, case.ship, ref[1]))
    case.verify(ref[1])
    ctx.observe(R.text(ref[1]))
    names = [os.path.relpath(x, ctx.scratch) for x in case.names()]
    for j, a in enumerate(plan['attempts']):
        k = a['f'] % len(names)
        name, path = names[k], case.names()[k]
        size = os.path.getsize(path)
        fs, chunk = [], None
        hidden = None
        if a['k'] == 'unsupported':
            unsupported(case, ctx, a['what'])
            continue
        if a['k'] == 'open':
            fs = [{'k': 'open', 'file': name, 'err': a['err'], 'times': a['times']}]
        elif a['k'] in ('read', 'chunkread'):
            fs = [{'k': 'read', 'file': name, 'err': a['err'], 'at': int(a['at'] * size), 'times': a['times']}]
        elif a['k'] == 'mmap':
            fs = [{'k': 'mmap', 'file': name, 'err': a['err'], 'times': a['times']}]
        elif a['k'] == 'removed':
            hidden = path + '.away'
            os.rename(path, hidden)
            ctx.fault('file_removed')
        if a['k'] in ('chunk', 'chunkread'):
            cnt = [0]

            def chunk(n, a=a):
                cnt[0] += 1
                return 1 + int(core.unit(j, cnt[0]) * a['chunk'])
        where = '%s of %s (%s, %s)' % (a['k'] + (':' + a['err'] if 'err' in a else ''), name, case.kind, case.ship)
        got = attempt(case, ctx, fs, chunk, where)
        if hidden:
            os.rename(hidden, path)
        fired = got[2] or ([1] if hidden else [])
        if fired:
            if got[0] == 'ok':
                d = R.same(got[1], ref[1])
                if hidden or d:
                    raise Violation('swallowed', '%s: the call returned a result%s' % (where, '; ' + d if d else ''))
        elif got[0] != 'ok':
            raise Violation('raised', '%s did not strike, yet the call raised %s' % (where, got[1]))
        else:
            d = R.same(got[1], ref[1])
            if d:
                raise Violation('changed', '%s changed the result: %s' % (where, d))
        ctx.cover(case.kind, case.ship, case.p.get('mode'), a['k'], a.get('err'), k, len(names), int(4 * a.get('at', 0)), a['times'], got[0], bool(fired))
        ctx.observe((where, got[0], got[1] if got[0] != 'ok' else R.text(got[1]), len(fired)))
        if fired:
            ctx.nontrivial = True
            again = attempt(case, ctx, (), None, 'retry')
            if again[0] != 'ok':
                raise Violation('retry', 'after %s had cleared, the call raised %s' % (where, again[1]))
            d = R.same(again[1], ref[1])
            if d:
                raise Violation('retry', 'after %s had cleared, the result differs: %s' % (where, d))


def attempt(case, ctx, faults, chunk, where):
    fs = simfs.SimFS(ctx.scratch, faults, ctx, chunk)
    with fs:
        try:
            res = ('ok', case.call())
        except Exception as e:
            res = ('err', '%s: %s' % (type(e).__name__, str(e)[:160]))
    if not fs.opens:
        raise RuntimeError('the reader does not read through the seam')
    gc.collect()
    left = fs.leaked()
    if left:
        raise Violation('leak', '%s: %s left open after the call' % (where, left))
    if res[0] == 'ok' and N.is_signal(res[1]):
        res = ('err', 'not-supported signal')
        if fs.fired:
            raise Violation('signal', '%s: the call gave the not-supported signal instead of raising' % where)
    return res + (list(fs.fired),)


def given(lines, talker):
    """A reader function of the user's own; it must not be asked without a talker."""
    return np.array([10.0]), np.array([20.0]), np.array([N.EPOCH], dtype=object)


def counted(path):
    """A reader function of the user's own that needs a scale."""
    return pd.DataFrame({'date_time': [pd.Timestamp('2022-07-01', tz='UTC')], 'counts': [25000]})


def unsupported(case, ctx, what):
    """Requests that have no right answer."""
    from shipgrav import io as sio
    opts = []
    if case.kind == 'nav':
        opts += [lambda: case.call(ship='Nautilus'), lambda: case.call(ship='Nautilus', talker='GPGGA'), lambda: case.call(ship='atlantis'),
                 lambda: case.call(talker='ZZGGA'), lambda: case.call(ship=''), lambda: nav_missing(case, ctx),
                 lambda: case.call(ship='DGStest'), lambda: sio.read_nav('Nautilus', list(case.paths), ship_function=given, progressbar=False)]
        if case.p['ship'] == 'Sikuliaq':
            opts.append(lambda: case.call(talker='INGGA'))
    elif case.kind == 'bgm':    # vessels without a serial format stay unsupported when a scale is given
        others = ('NBP', 'Ride', 'Nautilus', 'thompson', 'Sikuliaq', 'DGStest', 'LANGSETH', '')
        opts += [lambda s=s: case.call(ship=s) for s in others]
        opts += [lambda s=s: sio.read_bgm_raw(list(case.paths), s, scale=5.0, progressbar=False) for s in others]
        opts += [lambda s=s: sio.read_bgm_raw(list(case.paths), s, ship_function=counted, progressbar=False) for s in ('NBP', 'Nautilus', 'Sikuliaq')]
    elif case.kind == 'rgs':
        opts += [lambda s=s: case.call(ship=s) for s in ('Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq', 'DGStest', 'nbp', 'Nautilus')]
    elif case.kind == 'lap':
        opts += [lambda s=s: case.call(ship=s) for s in ('Nautilus', 'langseth', 'Healy', '')]
    elif case.kind == 'feed':
        opts += [lambda: case.call(talker='NOSUCH'), lambda: case.call(talker='$NOSUCH')]
    else:
        return
    ctx.fault('unsupported_request')
    try:
        res = opts[what % len(opts)]()
    except Exception as e:
        ctx.cover(case.kind, 'unsupported', what % len(opts), type(e).__name__)
    else:
        if not N.is_signal(res):
            raise Violation('data-for-unsupported', 'unsupported request %d (%s) returned %r' % (what % len(opts), case.kind, type(res)))
        ctx.cover(case.kind, 'unsupported', what % len(opts), 'signal')
    ctx.nontrivial = True


def nav_missing(case, ctx):
    """One file of the list has no sentence of the talker."""
    path = os.path.join(ctx.scratch, 'other')
    with open(path, 'w') as f:
        f.write('NAV 2022/07/01 00:00:00.123 GPS $GPZDA,000000.12,01,07,2022,00,00*6A\n' * 3)
    k = len(case.paths) // 2
    return case.call(case.paths[:k] + [path] + case.paths[k:])
