"""C10: interrupts and failed allocations are never mistaken for data."""
import traceback
import warnings

from .. import catalog as C, core, readers as R, sched
from ..core import Violation

ID = 'C10'
TITLE = 'Interrupts and failed allocations are never mistaken for data'
TECHNIQUE = 'deterministic simulation with fault injection: asynchronous exceptions at every line and instruction, compared with a fresh process'
RUNS = {'quick': 1200, 'thorough': 15000}
RULE = ('a run makes a seeded history of 1-4 public calls; each is first made undisturbed in a fresh forked process, which also records every '
        'library line (or byte-code instruction) it executes, and then in the run\'s process under up to 12 strikes of KeyboardInterrupt or '
        'MemoryError at seeded places and occurrences, with undisturbed retries in between; non-trivial: at least one strike fired')
STATE_MEASURE = 'sets of (function file, line struck, exception, outcome) per run'
REAL = ['all public functions of shipgrav', 'numpy, scipy, pandas, statsmodels, PyYAML']
STUB = ['delivery of signals and allocation failures (dst/sched.py, Interrupter)', 'input files (dst/world.py)']
ASSUMPTIONS = ['a strike lands on an instruction of library code; one landing inside numpy or pandas reaches the library at the calling instruction',
               'the result of a fresh process is the one forked from an interpreter that imported the library and never called it']
SHRINK_LISTS = ('ops', 'strikes')
MUST_FIRE = ('strike:KeyboardInterrupt', 'strike:MemoryError')
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def gen(rng, i):
    ops = []
    base = 10 * rng.randrange(1000)
    for _ in range(rng.pick([1, 1, 2, 3, 4])):
        o = dict(C.gen(rng, slow=0.02, base=base)) if not (ops and rng.chance(0.3)) else dict(rng.pick(ops))
        o['strikes'] = [{'where': rng.random(), 'occ': rng.pick([0.0, rng.random(), 1.0]), 'exc': rng.pick(sorted(EXC)),
                         'fine': rng.chance(0.4), 'retry': rng.chance(0.5)} for _ in range(rng.pick([3, 6, 12]))]
        ops.append(o)
    return {'ops': ops}


def reference(spec, ctx):
    """Result and executed places of one call in a fresh process."""
    def go():
        warnings.simplefilter('ignore')
        op = C.make(spec, ctx, ctx.scratch)
        if not C.usable(op):
            return None
        try:
            res = op.call(op.fresh())
        except Exception:
            return None if C.may_refuse(op) else ('raised', traceback.format_exc())
        by = []
        for fine in (False, True):
            lc = sched.LineCounter(ops=fine)
            lc.call(lambda: op.call(op.fresh()))
            by.append(sorted(lc.by.items()))
        return res, by
    st, val = core.forked(go)
    if st == 'hang':
        raise Violation('hang', 'undisturbed %s: %s' % (spec['op'], val))
    if st != 'ok':
        raise RuntimeError('reference of %s: %s %s' % (spec['op'], st, val))
    if val and isinstance(val[0], str) and val[0] == 'raised':
        raise Violation('raised', 'undisturbed %s (seed %d) raised: %s' % (spec['op'], spec['seed'], val[1][-600:]))
    return val


def run(plan, ctx):
    warnings.simplefilter('ignore')
    refs = []
    for spec in plan['ops']:                  # before this process has called anything
        refs.append(reference({k: v for k, v in spec.items() if k != 'strikes'}, ctx))
    for spec, ref in zip(plan['ops'], refs):
        if ref is None:
            continue
        want, by = ref
        op = C.make(spec, ctx, ctx.scratch)
        for s in spec['strikes']:
            places = by[1 if s['fine'] else 0]
            key, cnt = places[int(s['where'] * len(places))]
            occ = 1 + int(s['occ'] * (cnt - 1))
            exc = EXC[s['exc']]('simulated')
            it = sched.Interrupter(key, occ, exc, ops=s['fine'])
            args = op.fresh()
            before = C.snapshot(args)
            where = '%s at %s line %d (pass %d) of %s (seed %d)' % (s['exc'], key[0], key[1], occ, spec['op'], spec['seed'])
            try:
                res = ('ok', it.call(lambda: op.call(args)))
            except BaseException as e:
                res = ('exc', e)
            if it.fired:
                ctx.fault('strike:' + s['exc'])
                ctx.nontrivial = True
            ctx.steps += it.n
            if res[0] == 'ok':
                d = R.same(res[1], want, 1e-9)
                if d:
                    raise Violation('mistaken', '%s: the call returned normally with another result: %s' % (where, d))
            elif not it.fired:
                raise Violation('raised', 'a call that was not struck (%s) raised %r' % (where, res[1]))
            elif not from_(res[1], exc):
                raise Violation('replaced', '%s: the call raised %r instead' % (where, res[1]))
            d = C.changed(op, before, args)
            if d:
                raise Violation('argument', '%s: argument modified: %s' % (where, d))
            ctx.cover(spec['op'], key[0], key[1], s['exc'], res[0], it.fired)
            ctx.observe((where, res[0], it.fired))
            if s['retry']:
                again(op, want, 'after ' + where, ctx)
        again(op, want, 'at the end of the strikes on it', ctx)
    for spec, ref in zip(plan['ops'], refs):
        if ref is not None:
            again(C.make(spec, ctx, ctx.scratch), ref[0], 'after the whole history', ctx)


def from_(e, exc):
    """The strike itself; an allocation failure may be wrapped."""
    if isinstance(e, type(exc)):
        return True
    n = 0
    while e is not None and n < 10 and isinstance(exc, MemoryError):
        if e is exc:
            return True
        e, n = e.__cause__ or e.__context__, n + 1
    return False


def again(op, want, when, ctx):
    try:
        res = op.call(op.fresh())
    except Exception as e:
        raise Violation('retry', '%s, %s (seed %d) raised %r' % (when, op.name, op.seed, e))
    d = R.same(res, want, 1e-9)
    if d:
        raise Violation('retry', '%s, %s (seed %d) differs from a fresh process: %s' % (when, op.name, op.seed, d))
    ctx.observe(R.text(res))
