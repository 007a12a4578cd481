"""Every public call of the library with seeded arguments, for the properties about calls in general.

An operation is {'op': name, 'seed': n, 'size': k}. ``Op.fresh()`` makes its
arguments anew (always the same ones), ``Op.call(args)`` makes the call.
"""
import copy
import datetime
import os

import numpy as np
import pandas as pd

from . import core, readers as R, world

UTC = datetime.timezone.utc


def vec(seed, key, n, lo=-1.0, hi=1.0, smooth=True):
    """A seeded series: a few sines, and noise."""
    r = core.Rng('%s:%s' % (seed, key))
    t = np.arange(n)
    y = np.zeros(n)
    for _ in range(3):
        y = y + r.uniform(0.2, 1) * np.sin(2 * np.pi * t / r.uniform(5, 200) + r.uniform(0, 6))
    if not smooth:
        g = np.random.RandomState(r.randrange(2 ** 31))
        y = y + g.standard_normal(n)
    return lo + (hi - lo) * (y + 3) / 6


def live(seed, key, n, lo=-1.0, hi=1.0, smooth=True):
    """A series as measured: in some histories with missing samples, or as a column of a table."""
    y = vec(seed, key, n, lo, hi, smooth)
    if core.unit(seed, 'gap', key) < .25:
        k = int(core.unit(seed, 'gap-at', key) * n)
        y[k:k + 1 + seed % 3] = np.nan
    return pd.Series(y) if as_column(seed) else y


def as_column(seed):
    return core.unit(seed, 'container') < .2


class Op:
    """One call. inplace: names of arguments the call may change (documented)."""
    inplace = ()
    group = 'math'

    def __init__(self, spec, ctx, root):
        self.spec = spec
        self.seed = spec['seed']
        self.size = spec.get('size', 1)
        self.ctx = ctx
        self.root = root
        self.rng = core.Rng('op:%s:%s' % (spec['op'], self.seed))
        self.setup()

    def setup(self):
        pass

    def fresh(self):
        raise NotImplementedError

    def call(self, a):
        raise NotImplementedError

    def par(self, key, *vals):
        """A parameter, from few values: histories contain calls that agree in some and differ in others."""
        u = core.unit(self.seed, 'par', self.name, key)
        opt = self.spec.get('opt', 0)       # the same data with some of the parameters changed
        if opt and core.unit(opt, 'vary', self.seed, key) < .5:
            u = (u + .5) % 1
        return vals[int(u * len(vals))]

    def n(self, lo=16, hi=60):
        return lo + core.Rng('n:%s' % self.seed).randrange(hi - lo)


OPS = {}


def op(name, group='math', inplace=()):
    def deco(cls):
        cls.name, cls.group, cls.inplace = name, group, inplace
        OPS[name] = cls
        return cls
    return deco


# ------------------------------------------------------------------- the readers

def own_serial(path):
    """A user's own reader function."""
    return pd.DataFrame({'date_time': pd.date_range('2022-07-01', periods=2, tz='UTC'), 'counts': [25000, os.path.getsize(path)]})


def own_nav(lines, talker):
    k = sum(talker in ln for ln in lines)
    return np.arange(k) * 1e-3, np.arange(k) * 1e-3, np.array([datetime.datetime(2022, 7, 1, tzinfo=UTC) + datetime.timedelta(seconds=i) for i in range(k)], dtype=object)


NONE = ({}, {}, {})
READ_OPTS = {'bgm': ({}, {'scale': 5.5}, {'ship_function': own_serial}), 'raw': ({}, {'scale_ccp': False}, {'scale_ccp': True}),
             'lap': ({}, {'ship_function': own_serial}, {}), 'nav': ({}, {'decimate': 2}, {'ship_function': own_nav})}


class Read(Op):
    kind = None

    def setup(self):
        # 'alt': the same file names with other contents
        rng = core.Rng('read:%s:%s:%s' % (self.kind, self.seed, 'alt' if self.spec.get('alt') else ''))
        plan = R.gen(rng, kind=self.kind, n=rng.pick([3, 4, 6]), link=True)
        if self.kind == 'nav' and rng.chance(0.3):      # across the antimeridian
            p = plan['p']
            p['lon0'] = rng.pick([-1, 1]) * (180 - rng.pick([1e-6, 1e-4, 1e-3]))
            p['ve'] = (1 if p['lon0'] > 0 else -1) * 1e-3
            p['period'], p['mdig'], p['cdig'] = 1000000, 6, 2
        self.case = R.Case(plan, _Quiet(self.ctx), self.root, prefix='%s%s_' % (self.kind, self.seed))
        if self.kind == 'feed':
            self.case.files, self.case.paths = self.case.files[:1], self.case.paths[:1]
            ks = [k for k in range(len(self.case.p['feeds'])) if self.case.files and any(r.row and r.row[0] == k for r in self.case.files[0].recs)]
            self.case.k = ks[0] if ks else 0
        else:           # in any order, some twice
            order = list(range(len(self.case.files)))
            if self.seed % 2:
                order.sort(key=lambda k: core.unit(self.seed, 'order', k))
            if order and self.seed % 5 == 0:
                order.append(order[0])
            self.case.files, self.case.paths = [self.case.files[k] for k in order], [self.case.paths[k] for k in order]
        self.case.write()
        if self.spec.get('rel'):   # relative to the folder the program runs in
            self.case.paths = [os.path.relpath(x) for x in self.case.paths]
            if self.kind == 'feed':
                self.case.yaml = os.path.relpath(self.case.yaml)

    def fresh(self):
        if 'alt' in self.spec:
            self.case.write()
            for path in self.case.names():      # the date of a file says nothing
                os.utime(path, (1.6e9, 1.6e9))
        return {'paths': list(self.case.paths)}

    def call(self, a):
        return self.case.call(a['paths'], progressbar=self.spec.get('progress', False), **READ_OPTS.get(self.kind, NONE)[self.spec.get('opt', 0)])


class _Quiet:
    """Context for files made as material: their faults are not this check's."""

    def __init__(self, ctx):
        self.scratch = ctx.scratch
        self.sim_s = 0.0

    def fault(self, *a):
        pass

    def cover(self, *a):
        pass


for _k in R.KINDS:
    OPS['read_' + _k] = type('Read_' + _k, (Read,), {'kind': _k, 'name': 'read_' + _k, 'group': 'read'})


@op('ini', 'write')
class Ini(Op):
    def setup(self):
        self.path = os.path.join(self.root, 'm%s.ini' % self.seed)
        r = core.Rng('ini:%s:%s' % (self.seed, self.spec.get('alt', False)))
        if self.spec.get('alt') is not None or not os.path.exists(self.path):
            lines = ['[Sensor]', 'Name = AT1M %d' % r.randrange(100), 'Gain=%.4f' % r.random(), 'On=TRUE', '//note', '', '[Port%d]' % r.randrange(9),
                     'Baud = 9600', 'Title="x y"', 'Flag= FALSE']
            with open(self.path, 'w') as f:
                f.write('\n'.join(lines))

    def fresh(self):
        if 'alt' in self.spec:
            self.setup()
            os.utime(self.path, (1.6e9, 1.6e9))
        return {'path': self.path}

    def call(self, a):
        from shipgrav import utils as su
        o = su.clean_ini_to_toml(a['path'])
        with open(o, 'rb') as f:
            return (os.path.basename(o), f.read().decode())


# ---------------------------------------------------------------- numerical calls

@op('tide', 'tide')
class Tide(Op):
    def fresh(self):
        n = 4
        r = core.Rng('t%s' % self.seed)
        t0 = datetime.datetime(r.randint(1950, 2050), r.randint(1, 12), 27, r.randint(0, 23), tzinfo=UTC)
        kind = r.pick(['obj', 'index', 'series', 'list'])
        ts = [t0 + datetime.timedelta(seconds=i * 40000) for i in range(n)]
        ts = {'obj': np.array(ts), 'index': pd.DatetimeIndex(ts), 'series': pd.Series(ts), 'list': ts}[kind]
        return {'lon': live(self.seed, 'lon', n, -180, 180), 'lat': live(self.seed, 'lat', n, -90, 90), 'times': ts,
                'alt': r.pick([0, 12.5, vec(self.seed, 'alt', n, 0, 900)]), 'comp': r.chance(0.5)}

    def call(self, a):
        from shipgrav import grav
        return grav.longman_tide_prediction(a['lon'], a['lat'], a['times'], alt=a['alt'], return_components=a['comp'])


@op('eotvos')
class Eotvos(Op):
    def fresh(self):
        n = self.n()
        return {'lon': live(self.seed, 'lon', n, -10, 10), 'lat': live(self.seed, 'lat', n, -60, 60), 'ht': live(self.seed, 'h', n, 0, 10), 'samp': self.par('samp', 1, 2, 0.1),
                'kw': self.par('kw', {}, {}, {'a': 6378388.0, 'b': 6356911.9})}

    def call(self, a):
        from shipgrav import grav
        return grav.eotvos_full(a['lon'], a['lat'], a['ht'], a['samp'], **a['kw'])


@op('freeair')
class FreeAir(Op):
    def fresh(self):
        n = self.n()
        return {'lat': live(self.seed, 'lat', n, -90, 90), 'ht': live(self.seed, 'h', n, -100, 1000), 'w': bool(self.seed % 2)}

    def call(self, a):
        from shipgrav import grav
        return grav.free_air_second_order(a['lat'], a['ht'], free_water=a['w'])


@op('wgs')
class Wgs(Op):
    def fresh(self):
        return {'lat': live(self.seed, 'lat', self.n(), -90, 90)}

    def call(self, a):
        from shipgrav import grav
        return grav.wgs_grav(a['lat'])


@op('ccp', 'slow')
class Ccp(Op):
    def fresh(self):
        n = 1500
        d = {k: vec(self.seed, k, n, smooth=False) for k in ('vcc', 've', 'al', 'ax')}
        d['faa'] = 3 * d['vcc'] - 2 * d['ve'] + vec(self.seed, 'n', n, smooth=False)
        d['level'] = np.zeros(n) if self.seed % 2 else vec(self.seed, 'le', n, smooth=False)
        d['times'] = None if self.seed % 3 else np.arange(n) + (np.arange(n) > 1450) * 100.0
        return d

    def call(self, a):
        from shipgrav import grav
        df, m = grav.calc_cross_coupling_coefficients(a['faa'], a['vcc'], a['ve'], a['al'], a['ax'], a['level'], times=a['times'])
        return (df, m.params)


@op('diff')
class Diff(Op):
    def fresh(self):
        return {'y': live(self.seed, 'y', self.n(), smooth=False), 'n': 1 + self.seed % 2, 's': self.par('s', 1.0, 2.0)}

    def call(self, a):
        from shipgrav import grav
        return grav.center_diff(a['y'], a['n'], a['s'])


@op('upvecs', 'math', ('cacc', 'lacc'))
class UpVecs(Op):
    def fresh(self):
        n = self.n(12, 30)
        c, l = vec(self.seed, 'c', n), vec(self.seed, 'l', n)
        c[3], l[5] = np.nan, np.nan
        on = np.zeros(n)
        on[7:9] = 1
        return {'dt': self.par('dt', 1.0, 1.0, 0.5), 'per': [self.par('p1', 240., 260.), self.par('p2', 240., 260.)],
                'damp': [self.par('d1', 0.7071, 0.8), self.par('d2', 0.7071, 0.4)], 'g': live(self.seed, 'g', n, 978000, 983000), 'cacc': c * 1e4, 'lacc': l * 1e4, 'on': on}

    def call(self, a):
        from shipgrav import grav
        return grav.up_vecs(a['dt'], a['g'], a['cacc'], a['lacc'], a['on'], a['per'][0], a['damp'][0], a['per'][1], a['damp'][1])


@op('grav1d')
class Grav1d(Op):
    def fresh(self):
        n = self.n()
        return {'x': np.arange(n) * self.par('dx', 500.0, 1000.0), 't': vec(self.seed, 't', n, -4000, -2000, smooth=False), 'z': self.par('z', 0.0, 100.0), 'rho': self.par('rho', 1700.0, 600.0)}

    def call(self, a):
        from shipgrav import grav
        return grav.grav1d_padded(a['x'], a['t'], a['z'], a['rho'])


@op('grav2d')
class Grav2d(Op):
    def fresh(self):
        nx = ny = 8
        return {'X': np.arange(nx) * 1.0, 'Y': np.arange(ny) * 1.0, 'Z': vec(self.seed, 'z', nx * ny, -4000, -2000, smooth=False).reshape(ny, nx),
                'fold': bool(self.seed % 2), 'd': [self.par('dx', 1.0, 1.5), self.par('dy', 1.0, 1.5)],
                'kw': self.par('kw', {}, {'drho': 1.7}, {'dz': 5000}, {'npower': 3})}

    def call(self, a):
        from shipgrav import grav
        return grav.grav2d_folding(a['X'], a['Y'], a['Z'], a['d'][0], a['d'][1], ifold=a['fold'], **a['kw'])


@op('layer')
class Layer(Op):
    def fresh(self):
        return {'rho': vec(self.seed, 'r', 48, 2500, 3300, smooth=False).reshape(6, 8),
                'd': [self.par('dx', 1.0, 1.5), self.par('dy', 1.0, 1.5), self.par('z1', 3.0, 2.0), self.par('z2', 9.0, 8.0)]}

    def call(self, a):
        from shipgrav import grav
        return grav.grav2d_layer_variable_density(a['rho'], *a['d'])


class Therm(Op):
    def fresh(self):
        return {'x': np.linspace(1000, 90000, 7) if self.seed % 2 else np.linspace(0.5, 20, 7), 'z': np.linspace(0, 1.2e5, 9),
                'time': not self.seed % 2, 'T': np.array([400., 900.]), 'zsp': self.par('zsp', 5e3, 8e3),
                'kw': {'u': self.par('u', 0.01, 0.02), 'Tm': self.par('Tm', 1350, 1300), 'k': self.par('k', 1e-6, 8e-7), 'a': self.par('a', 3e-5, 2.5e-5)}}


@op('halfspace')
class Half(Therm):
    def call(self, a):
        from shipgrav import grav
        return grav.therm_halfspace(a['x'], a['z'], time=a['time'], **a['kw'])


@op('halfspaceZ')
class HalfZ(Therm):
    def call(self, a):
        from shipgrav import grav
        return grav.therm_Z_halfspace(a['x'], 600.0, time=a['time'], **a['kw'])


@op('plate')
class Plate(Therm):
    def call(self, a):
        from shipgrav import grav
        return grav.therm_plate(a['x'], a['z'], time=a['time'], **a['kw'])


@op('plateZ')
class PlateZ(Therm):
    def call(self, a):
        from shipgrav import grav
        return grav.therm_Z_plate(a['x'], a['T'], time=a['time'], **a['kw'], zsp=a['zsp'])


@op('crust')
class Crust(Op):
    def fresh(self):
        return {'ur': vec(self.seed, 'u', 40, -30, 30), 'back': bool(self.seed % 2), 'dx': self.par('dx', 5.0, 4.0),
                'kw': {'zdown': self.par('zd', 10, 8), 'rho': self.par('rho', .4, .5), 'wlarge': self.par('wl', 45, 60), 'wsmall': self.par('ws', 25, 30)}}

    def call(self, a):
        from shipgrav import grav
        return grav.crustal_thickness_2D(a['ur'], nx=40, dx=a['dx'], back=a['back'], **a['kw'])


@op('latlon')
class LatLon(Op):
    def fresh(self):
        n = self.n()
        return {'lon': live(self.seed, 'lon', n, -10, 10), 'lat': live(self.seed, 'lat', n, -60, 60)}

    def call(self, a):
        from shipgrav import nav
        return nav.latlon_to_EN(a['lon'], a['lat'], freq=1 + self.seed % 3)


@op('course')
class Course(Op):
    def fresh(self):
        n = self.n()
        return {'ve': live(self.seed, 'e', n, -5, 5), 'vn': live(self.seed, 'n', n, -5, 5)}

    def call(self, a):
        from shipgrav import nav
        return nav.ENvel_to_course_heading(a['ve'], a['vn'])


@op('rotate')
class Rotate(Op):
    def fresh(self):
        n = self.n()
        return {'h': live(self.seed, 'h', n, 0, 360) * self.par('steady', 1, 1, 1, 0), 'e': live(self.seed, 'e', n), 'n': live(self.seed, 'n', n)}

    def call(self, a):
        from shipgrav import nav
        return nav.rotate_acceleration_EN_to_cl(a['h'], a['e'], a['n'])


@op('gauss')
class Gauss(Op):
    def fresh(self):
        return {'x': live(self.seed, 'x', self.n(), smooth=False), 'fl': 3 + self.seed % 5 if self.seed % 4 else 1}

    def call(self, a):
        from shipgrav import utils as su
        return su.gaussian_filter(a['x'], a['fl'])


@op('status')
class Status(Op):
    def fresh(self):
        return {'w': self.seed * 7919 % 65536}

    def call(self, a):
        from shipgrav import utils as su
        return su.decode_dgs_status_bits(a['w'])


@op('statusdf', 'math', ('df',))
class StatusDf(Op):
    def fresh(self):
        n = self.n(3, 9)
        return {'df': pd.DataFrame({'a': vec(self.seed, 'a', n), 'status': [(self.seed + i) * 7919 % 65536 for i in range(n)]})}

    def call(self, a):
        from shipgrav import utils as su
        return su.decode_dgs_status_bits(a['df'])


@op('extreme')
class Extreme(Op):
    """Arguments at which the arithmetic overflows, underflows or is undefined on the way."""

    def fresh(self):
        n = self.n(12, 30)
        k = self.par('k', 'tiny', 'huge', 'zero', 'age')
        x = live(self.seed, 'x', n) * (1e-200 if k == 'tiny' else 1e200)
        return {'k': k, 'x': x, 'y': live(self.seed, 'y', n) * (1e-200 if k == 'tiny' else 1e200), 'g': np.zeros(n)}

    def call(self, a):
        from shipgrav import grav, nav, utils as su
        n = len(a['x'])
        if a['k'] in ('tiny', 'huge'):
            return (nav.ENvel_to_course_heading(a['x'], a['y']), su.gaussian_filter(a['x'], 4), grav.center_diff(a['x'], 2, 1.0))
        if a['k'] == 'zero':        # no gravity reading
            return grav.up_vecs(1.0, a['g'], np.zeros(n), np.zeros(n), np.zeros(n), 240., .7071, 240., .7071)
        return (grav.therm_halfspace(np.array([0., 1., 2.]), np.array([0., 1e3, 1e5]), time=True), grav.wgs_grav(np.array([0., 90., np.nan])))


# ----------------------------------------------------------------------- helpers

def make(spec, ctx, root):
    return OPS[spec['op']](spec, ctx, root)


def gen(rng, slow=0.05, seeds=6, base=0):
    """One seeded call; few seeds, so that calls with equal arguments meet in a history."""
    if rng.chance(0.5):
        name = 'read_' + rng.pick(R.KINDS)
    elif rng.chance(slow):
        name = 'ccp'
    else:
        name = rng.pick([n for n in sorted(OPS) if n != 'ccp' and not n.startswith('read_')])
    o = {'op': name, 'seed': base + rng.randrange(seeds)}
    if rng.chance(.3):
        o['opt'] = rng.randrange(3)
    return o


def may_refuse(op_):
    """Columns of a table given to a function that is documented for arrays only."""
    return as_column(op_.seed) and not isinstance(op_, Read)


def snapshot(args):
    return {k: copy.deepcopy(v) for k, v in args.items()}


def changed(op_, before, after):
    """Name of an argument that was modified against the rules, or None."""
    for k in before:
        if k in op_.inplace:
            continue
        d = R.same(after[k], before[k], rtol=0)
        if d:
            return '%s: %s' % (k, d)
    return None


def usable(op_):
    """Material may be empty (all records lost): such calls are left out."""
    return not isinstance(op_, Read) or bool(op_.case.paths and (op_.kind != 'feed' or op_.case.rows(0)))


def buffers(obj, out=None, depth=0):
    """Writable arrays reachable in a result or argument."""
    out = [] if out is None else out
    if isinstance(obj, np.ndarray):
        out.append(obj)
    elif isinstance(obj, pd.DataFrame):
        for j in range(obj.shape[1]):
            buffers(obj.iloc[:, j], out, depth + 1)
    elif isinstance(obj, pd.Series):
        try:
            v = obj.to_numpy(copy=False) if not isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.array._ndarray
            if isinstance(v, np.ndarray):
                out.append(v)
        except (TypeError, ValueError, AttributeError):
            pass
    elif isinstance(obj, (tuple, list)) and depth < 3:
        for x in obj[:200]:
            buffers(x, out, depth + 1)
    elif isinstance(obj, dict) and depth < 3:
        for x in obj.values():
            buffers(x, out, depth + 1)
    return out
