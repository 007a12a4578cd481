"""Command line: run a check, replay a violation, or self-test determinism."""
import collections
import gc
import importlib
import json
import os
import re
import shutil
import sys
import tempfile
import time

from . import clock, core

NEED_CLOCK = ('C12',)      # checks that run under the simulated wall clock
KNOWN = os.path.join(core.VERIF, 'known_findings.txt')


def load(pid):
    from . import libload
    libload.load()
    return importlib.import_module('dst.props.' + pid.lower())


def known_for(pid):
    """Listed, unrepaired findings of a property: {id: what fails}."""
    out = {}
    with open(KNOWN) as f:
        for ln in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', ln)
            if m and m[1] == pid:
                out[m[2]] = m[3].strip()
    return out


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'selftest':
        return selftest(argv[1:])
    return check(argv[0], argv[1:])


def check(pid, opts):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if pid in NEED_CLOCK:
        clock.ensure([pid] + opts)
    prop = load(pid)
    n = prop.RUNS[tier]
    for o in opts:
        if o.startswith('--runs='):
            n = int(o.split('=')[1])
        if o.startswith('--only='):
            i = int(o.split('=')[1])
            plan = core.make_plan(prop, seed, i)
            print(json.dumps(plan, indent=1)[:6000])
            base = tempfile.mkdtemp(prefix='dst', dir=core.scratch_base())
            try:
                print(json.dumps(core.run_plan(prop, plan, base), indent=1)[:6000])
            finally:
                shutil.rmtree(base, ignore_errors=True)
            return 0
    base = tempfile.mkdtemp(prefix='dst', dir=core.scratch_base())
    gc.collect()
    gc.freeze()
    try:
        if hasattr(prop, 'prepare'):
            prop.prepare(base)
        results = core.search(prop, seed, n, base)
        return report(prop, tier, seed, n, results, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(prop, tier, seed, n, results, base, t0):
    broken = [(i, r['harness']) for i, r in sorted(results.items()) if r['harness']]
    viol = [(i, r) for i, r in sorted(results.items()) if r['viol']]
    faults = collections.Counter()
    sigs = set()
    nontriv = 0
    sim = 0.0
    steps = 0
    for r in results.values():
        faults.update(r['faults'])
        sim += r['sim_s']
        steps += r['steps']
        s = tuple(r['sig'])
        if r['nontrivial'] and s not in sigs:
            nontriv += 1
        sigs.add(s)
    # declared findings that were seen
    known = {}
    for r in results.values():
        for k in r['known']:
            known[k] = known.get(k, 0) + 1
    listed = known_for(prop.ID)
    search_s = time.monotonic() - t0
    code = 0
    lines = []
    for k in sorted(known):
        if k in listed:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop.ID, listed[k]))
        else:
            broken.append((-1, 'finding %s is not listed' % k))
    seen = collections.OrderedDict()
    for i, r in viol:
        seen.setdefault(r['viol']['cls'], (i, r))
    if viol:
        # shrink the first failing run; the other classes are kept as they are
        first = True
        for cls, (i, r) in list(seen.items())[:4]:
            plan = core.make_plan(prop, seed, i)
            small, used = (core.shrink(prop, plan, cls, base) if first else (plan, 0))
            res = core.run_plan(prop, small, base)
            again = core.run_plan(prop, small, base)
            if not res['viol'] or res['digest'] != again['digest'] or res['viol'] != again['viol']:
                # never report what does not reproduce from its minimised plan; use the original
                small = plan
                res = core.run_plan(prop, plan, base)
                if not res['viol']:
                    broken.append((i, 'violation did not reproduce: %r' % (r['viol'],)))
                    continue
            path = core.write_replay(prop, small, res, seed, i, plan)
            lines.append('run %d, class %s, shrunk with %d runs: %s' % (i, res['viol']['cls'], used, res['viol']['msg'][:600]))
            lines.append('VIOLATION property=%s replay=%s' % (prop.ID, path))
            code = 1
            first = False
    if broken and code == 0:
        code = 2
    wall = time.monotonic() - t0
    nres = len(results)
    sample_ids = [i for i in (0, 1, 2) if i in results]
    samples = []
    for i in sample_ids:
        plan = core.make_plan(prop, seed, i)
        txt = json.dumps(plan)
        samples.append({'index': i, 'plan': plan if len(txt) < 3000 else txt[:3000],
                        'faults_fired': results[i]['faults'], 'signature': results[i]['sig'][:12],
                        'simulated_s': round(results[i]['sim_s'], 3), 'digest': results[i]['digest'][:16]})
    cov = {
        'evaluations': nres,
        'distinct_nontrivial': nontriv,
        'rule': prop.RULE,
        'samples': samples,
        'distinct_states': len(sigs),
        'state_measure': prop.STATE_MEASURE,
        'runs_per_hour': round(nres / max(search_s, 1e-9) * 3600),
        'seeds_per_hour': round(nres / max(search_s, 1e-9) * 3600),
        'simulated_time_s': round(sim, 3),
        'scheduler_steps': steps,
        'faults_injected': dict(sorted(faults.items())),
        'real_components': prop.REAL,
        'stubbed_components': prop.STUB,
        'workers': core.WORKERS,
        'known_findings_seen': known,
    }
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall, 3), 'violations': len(viol)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s' % (prop.ID, prop.TITLE))
    print('  %d simulated runs (seed %d, %s), %d distinct states, %d distinct non-trivial, %.0f s simulated, %.1f s wall'
          % (nres, seed, tier, len(sigs), nontriv, sim, wall))
    print('  faults fired: %s' % (', '.join('%s=%d' % kv for kv in sorted(faults.items())) or 'none'))
    missing = [k for k in getattr(prop, 'MUST_FIRE', ()) if not faults.get(k)]
    if missing and code == 0 and nres >= n:
        # evidence would be hollow: say so loudly, but it is not a violation
        print('  WARNING: fault kinds never fired: %s' % ', '.join(missing))
    for i, h in broken[:3]:
        print('HARNESS ERROR run %d: %s' % (i, h))
    for ln in lines:
        print(ln)
    return code


def replay(path):
    with open(path) as f:
        body = json.load(f)
    if body['property'] in NEED_CLOCK:
        clock.ensure(['replay', path])
    prop = load(body['property'])
    base = tempfile.mkdtemp(prefix='dst', dir=core.scratch_base())
    try:
        if hasattr(prop, 'prepare'):
            prop.prepare(base)
        res = core.run_plan(prop, body['plan'], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps({'plan': body['plan'], 'result': {k: res[k] for k in ('viol', 'faults', 'sig', 'digest', 'harness')}}, indent=1))
    if res['viol']:
        same = res['viol'] == body['violation'] and res['digest'] == body['digest']
        print('reproduced exactly' if same else 'violates, but differs from the recording')
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    print('no violation on this tree')
    return 2 if res['harness'] else 0


def selftest(args):
    """Every plan twice, under different worker counts: digests must be identical."""
    clock.ensure(['selftest'] + args)
    pids = [a for a in args if not a.startswith('-')] or ['C%02d' % i for i in range(1, 20)]
    n = 60
    for a in args:
        if a.startswith('--runs='):
            n = int(a.split('=')[1])
    bad = 0
    for pid in pids:
        try:
            prop = load(pid)
        except ModuleNotFoundError:
            continue
        base = tempfile.mkdtemp(prefix='dst', dir=core.scratch_base())
        try:
            if hasattr(prop, 'prepare'):
                prop.prepare(base)
            a = core.search(prop, 7, n, base, workers=8, stop_on_violation=False)
            b = core.search(prop, 7, n, base, workers=3, stop_on_violation=False)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        diff = [i for i in a if a[i] != b.get(i)]
        import hashlib
        d = hashlib.sha256(''.join(a[i]['digest'] for i in sorted(a)).encode()).hexdigest()[:16]
        print('%s: %d plans run twice, %d differ, digest %s' % (pid, n, len(diff), d))
        for i in diff[:2]:
            print('  ', i, a[i], b.get(i))
        bad += len(diff)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
