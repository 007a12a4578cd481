"""C11: calls are independent of each other, in any order and on any threads."""
import datetime
import traceback
import warnings

import numpy as np
import pandas as pd

from .. import catalog as C, core, readers as R, sched
from ..core import Violation

ID = 'C11'
TITLE = 'Calls are independent of each other, in any order and on any threads'
TECHNIQUE = 'deterministic simulation: seeded thread schedules at line and instruction granularity and seeded call histories, fresh-process oracle'
RUNS = {'quick': 1200, 'thorough': 12000}
RULE = ('a run makes a seeded history of up to 6 stages; a stage is one call, or 2-4 calls on simulated threads whose interleaving the plan '
        'decides, possibly sharing argument objects; between two calls their arguments may be changed in place and their files written anew (with the same names and dates); after a stage results may be scribbled over; every result is compared with the same '
        'call made alone in a fresh forked process; non-trivial: at least two calls ran')
STATE_MEASURE = 'distinct sets of (call, where the baton was passed) per run'
REAL = ['all public functions of shipgrav', 'numpy, scipy, pandas, statsmodels, PyYAML, tqdm']
STUB = ['thread scheduling (dst/sched.py): baton passed at library lines or instructions, locks created by library code at import', 'input files (dst/world.py)']
ASSUMPTIONS = ['switches inside numpy, pandas and scipy are not simulated: their calls are atomic for the scheduler',
               'two calls that write the same output file at the same time are outside the property',
               'equality is to a relative 1e-9 (numbers) and exact (times, text, types, order)']
SHRINK_LISTS = ('stages', 'switches', 'stops')
MUST_FIRE = ('switch', 'scribble', 'shared_arguments', 'argument_edited', 'file_rewritten')


def gen(rng, i):
    stages = []
    base = 10 * rng.randrange(1000)
    pool = [C.gen(rng, slow=0.02, base=base) for _ in range(rng.pick([2, 3, 4]))]
    for o in pool:
        if o['op'].startswith('read_') or o['op'] == 'ini':
            o['alt'] = False
            if o['op'] != 'ini':
                o['rel'] = rng.chance(0.6)
    for _ in range(rng.pick([1, 2, 3, 4, 6])):
        k = 1 if rng.chance(0.4) else rng.pick([2, 2, 2, 3, 4])
        threads = []
        same = dict(rng.pick(pool)) if rng.chance(0.5) else None
        for _ in range(k):
            o = dict(same) if same and rng.chance(0.8) else dict(rng.pick(pool))
            if same and rng.chance(0.4):
                o['seed'] = base + rng.randrange(6)        # the same function with other arguments
            if o['op'].startswith('read_') and rng.chance(0.2):
                o['progress'] = True
            if rng.chance(0.3):         # the same data with other options
                o['opt'] = rng.randrange(3)
            if k == 1 and 'alt' in o and rng.chance(0.4):
                o['alt'] = True             # the file has been written anew
            threads.append(o)
        fine = rng.chance(0.3)
        if k == 1 and 'alt' not in threads[0] and rng.chance(0.3):
            threads[0]['edit'] = rng.pick([1, 2])      # the call is made, its arguments are changed in place, and it is made again
        st = {'threads': threads, 'fine': fine, 'shared': rng.chance(0.4), 'scribble': rng.chance(0.6), 'rr': 0, 'switches': [], 'stops': []}
        if k > 1:
            mode = rng.pick(['rr', 'random', 'stops', 'stops', 'both'])
            if mode in ('rr', 'both'):
                st['rr'] = rng.pick([1, 1, 2, 3, 7, 20] if not fine else [1, 3, 10, 37])
            if mode in ('random', 'both'):
                st['switches'] = [[rng.random(), rng.randrange(k)] for _ in range(rng.pick([1, 2, 4, 8]))]
            if mode in ('stops', 'both'):
                st['stops'] = [[rng.randrange(k), rng.random(), rng.pick([0.0, 0.0, rng.random()]), rng.randrange(k)] for _ in range(rng.pick([1, 2, 3, 6]))]
        stages.append(st)
    return {'stages': stages}


def simplify(plan):
    for j, st in enumerate(plan['stages']):
        for key, v in (('rr', 0), ('fine', False), ('shared', False), ('scribble', False)):
            if st[key] != v:
                p = dict(plan, stages=list(plan['stages']))
                p['stages'][j] = dict(st, **{key: v})
                yield p
        if len(st['threads']) > 1:
            p = dict(plan, stages=list(plan['stages']))
            p['stages'][j] = dict(st, threads=st['threads'][:-1])
            yield p


def key(spec):
    return '%s:%d%s%s%s' % (spec['op'], spec['seed'], "'" if spec.get('alt') else '', '/%d' % spec['opt'] if spec.get('opt') else '',
                            '+%d' % spec['edit'] if spec.get('edit') else '')


def edit(x, how):
    """What a user may do to an argument between two calls: change it in place. False if it cannot be."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size > 1:
            x[...] = x[::-1].copy() if how == 1 else np.concatenate([x[2:], x[:2]])
    elif isinstance(x, pd.DataFrame):
        for j in range(x.shape[1]):
            x.isetitem(j, x.iloc[::-1, j].to_numpy(copy=True))
    elif isinstance(x, pd.Series):
        x.iloc[:] = x.iloc[::-1].to_numpy(copy=True) if x.dtype.kind in 'fiu' else x.iloc[::-1].array.copy()
    elif isinstance(x, list):
        if how == 1:
            x.reverse()
        elif len(x) > 1 and not isinstance(x[0], datetime.datetime):
            x.append(x.pop(0))
    elif isinstance(x, dict):
        for k in x:
            edit(x[k], how)


def reference(spec, ctx):
    def go():
        warnings.simplefilter('ignore')
        op = C.make(spec, ctx, ctx.scratch)
        if not C.usable(op):
            return None
        a = op.fresh()
        if spec.get('edit'):
            edit(a, spec['edit'])
        try:
            res = op.call(a)
        except Exception:
            return ('refused', None) if spec.get('edit') or C.may_refuse(op) else ('raised', traceback.format_exc())
        by = []
        for fine in (False, True):
            lc = sched.LineCounter(ops=fine)
            lc.call(lambda: op.call(op.fresh()))
            by.append(sorted(lc.by.items()))
        return 'ok', res, by
    st, val = core.forked(go)
    if st == 'hang':
        raise Violation('hang', '%s alone: %s' % (spec['op'], val))
    if st != 'ok':
        raise RuntimeError('reference of %s: %s %s' % (spec['op'], st, val))
    if val and val[0] == 'raised':
        raise Violation('raised', '%s (seed %d) alone raised: %s' % (spec['op'], spec['seed'], val[1][-600:]))
    return val


def run(plan, ctx):
    warnings.simplefilter('ignore')
    refs = {}
    for st in plan['stages']:
        for spec in st['threads']:
            if key(spec) not in refs:
                refs[key(spec)] = reference(spec, ctx)
    made = 0
    kept = []            # results never touched by anyone
    for j, st in enumerate(plan['stages']):
        specs = []
        for s in st['threads']:
            if refs[key(s)] is None or refs[key(s)][0] == 'refused' or (s['op'] == 'ini' and any(key(x) == key(s) for x in specs)):
                continue
            specs.append(s)
        if not specs:
            continue
        ops = [C.make(s, ctx, ctx.scratch) for s in specs]
        if any(s.get('alt') for s in specs):
            ctx.fault('file_rewritten')
        args, shared = [], {}
        for s, op in zip(specs, ops):
            if st['shared'] and not op.inplace and key(s) in shared:
                ctx.fault('shared_arguments')
            elif st['shared'] and not op.inplace:
                shared[key(s)] = op.fresh()
            args.append(shared[key(s)] if key(s) in shared else op.fresh())
        for s, op, a in zip(specs, ops, args):
            if s.get('edit') and not op.inplace:
                ctx.fault('argument_edited')
                try:
                    op.call(a)
                except Exception as e:
                    raise Violation('raised', 'stage %d: %s raised %r' % (j, key(s), e))
                edit(a, s['edit'])
            elif s.get('edit'):
                edit(a, s['edit'])
        before = [C.snapshot(a) for a in args]
        fns = [lambda op=op, a=a: op.call(a) for op, a in zip(ops, args)]
        what = 'stage %d (%s)' % (j, ' | '.join(key(s) for s in specs))
        if len(fns) == 1:
            try:
                outs = [('ok', fns[0]())]
            except Exception as e:
                outs = [('exc', e)]
        else:
            by = [refs[key(s)][2][1 if st['fine'] else 0] for s in specs]
            total = sum(c for b in by for _, c in b)
            stops = []
            for t, w, o, to in st['stops']:
                b = by[t % len(by)]
                place, cnt = b[int(w * len(b))]
                stops.append((t % len(by), place, 1 + int(o * (cnt - 1)), to % len(by)))
            s = sched.Sched(fns, [[int(w * total), to % len(fns)] for w, to in st['switches']], st['rr'], stops, st['fine'])
            outs = s.run()
            ctx.fault('switch', s.switched)
            ctx.steps += s.step
            ctx.cover(*(sorted(key(x) for x in specs) + sorted('%s:%d' % w for w in s.where)[:40] + [st['fine']]))
        made += len(fns)
        for s, op, a, b, (k, res) in zip(specs, ops, args, before, outs):
            ctx.cover(s['op'], len(fns))
            if k != 'ok':
                raise Violation('raised', '%s: %s raised %r' % (what, key(s), res))
            d = R.same(res, refs[key(s)][1], 1e-9)
            if d:
                raise Violation('differs', '%s: %s differs from the same call alone in a fresh process: %s' % (what, key(s), d))
            d = C.changed(op, b, a)
            if d:
                raise Violation('argument', '%s: %s modified its argument %s' % (what, key(s), d))
            ctx.observe(R.text(res))
        if st['scribble']:
            for s, op, a, b, (k, res) in zip(specs, ops, args, before, outs):
                ctx.fault('scribble')
                scribble(res)
                d = C.changed(op, b, a)
                if d:
                    raise Violation('shared', '%s: changing the result of %s changed its argument %s' % (what, key(s), d))
        else:
            kept += [(s, res) for s, op, (k, res) in zip(specs, ops, outs) if not op.inplace]
        for s, res in kept:
            d = R.same(res, refs[key(s)][1], 1e-9)
            if d:
                raise Violation('shared', 'after %s, an earlier result of %s has changed: %s' % (what, key(s), d))
    ctx.nontrivial = made >= 2


def scribble(res, depth=0):
    """What a user may do to a result: change it in place."""
    if isinstance(res, np.ndarray):
        if res.flags.writeable and res.size:
            try:
                res[...] = -77
            except (TypeError, ValueError):
                res[...] = None
    elif isinstance(res, pd.DataFrame):
        for j in range(res.shape[1]):
            try:
                v = res.iloc[::-1, j].to_numpy(copy=True)
                res.iloc[:, j] = v
                if v.dtype.kind in 'fiu':
                    res.iloc[:, j] = np.full(len(res), 7, dtype=v.dtype)
            except (TypeError, ValueError):
                pass
        res['scribble'] = 1
        res.drop(columns=list(res.columns)[:1], inplace=True)
        res.index = np.arange(len(res))[::-1]
        if len(res):
            res.drop(index=[0], inplace=True)
    elif isinstance(res, pd.Series):
        if res.dtype.kind in 'fiu' and len(res):
            res.iloc[:] = 7
    elif isinstance(res, list):
        for x in res[:50]:
            scribble(x, depth + 1)
        del res[:]
    elif isinstance(res, dict):
        for x in list(res.values())[:50]:
            scribble(x, depth + 1)
        res.clear()
    elif isinstance(res, tuple) and depth < 3:
        for x in res:
            scribble(x, depth + 1)
