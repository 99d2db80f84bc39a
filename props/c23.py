"""Extractors: the capacity is the largest of the cycles; the points handed to the spline fit are exactly the samples, in ascending
order of SOC, weighted inversely to their current, with knots at the inner SOC points requested, and the curve returned passes
through the fit at these points.  The spline fit (LSQUnivariateSpline) is under contract in the proofs (its arguments are compared,
its values are symbols) and compared with an independent least squares fit when evaluated"""
import contextlib
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from .frame import Picture
from moirae.extractors.base import BaseExtractor
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage

LEVEL = 'other'
RUNS = 6
BUDGET = 100.


def configs(tier):
    out = [dict(what='capacity', n=n, more=m) for n in (1, 2, 4) for m in (False, True)]
    for n in (1, 2, 3):
        for soc in (3, 'array', 'few'):
            for cap in ('float', 'parameter'):
                for style in ('cubic', 'linear'):
                    if n < 3 or style == 'linear' and cap == 'float' and soc == 3:
                        out.append(dict(what='fit', n=n, soc=soc, cap=cap, style=style))
    out += [dict(what='required', n=n, req=r, cap=c) for n in (1, 3) for r in ('default', 'free') for c in ('float', 'parameter')]
    out += [dict(what='exactly', short=s) for s in (False, True)]
    out += [dict(what='missing', n=n, at=at, _concrete=True) for n in (2, 4) for at in range(n)]
    out += [dict(what='unknown', n=n, how=h, _concrete=True) for n in (1, 2, 4) for h in ('nan', 'none', 'computed') if n < 4 or h != 'computed']
    out += [dict(what='points', soc=s) for s in (2, 5, 'default', 'array')]
    out += [dict(what='recovers', curve=c, style=st, order=o, rate=r, _concrete=True) for c in ('line', 'cubic', 'spline') for st in ('linear', 'cubic')
            for o in ('charge', 'both', 'shuffled') for r in ('constant', 'free')]
    out += [dict(what='weighs', soc=s, zero=z, _concrete=True) for s in (5, 11) for z in (False, True)]
    out += [dict(what='computed', cycles=c, partial=p, _concrete=True) for c in (1, 2, 4) for p in (False, True)]
    out += [dict(what='refused')]
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def frame(K, **cols):
    dt = object if K.symbolic else float
    return pd.DataFrame({k: np.array(v, dtype=dt if k != 'cycle_number' else int) for k, v in cols.items()})


def biggest(K, v):
    m = v[0]
    for x in v[1:]:
        m = K.ite(x > m, x, m)
    return m


def do_capacity(K, cfg):
    q = K.arr('q', (cfg['n'],), nonneg=True, box=(.5, 20.))
    cols = dict(cycle_number=range(cfg['n']), capacity_charge=q)
    if cfg['more']:
        cols['capacity_discharge'] = K.arr('d', (cfg['n'],), nonneg=True, box=(.5, 30.))
        cols['energy_charge'] = K.arr('e', (cfg['n'],), nonneg=True, box=(.5, 30.))
    data = CellDataset(cycle_stats=frame(K, **cols))
    pic = Picture(K, stats=data.tables['cycle_stats'])
    got = MaxCapacityExtractor().extract(data)
    K.same('type', type(got), MaxTheoreticalCapacity)
    K.eq('capacity', got.base_values, np.array([[biggest(K, list(q))]]))
    K.eq('capacity in ampere hours', got.amp_hour, np.array([[biggest(K, list(q))]]))
    K.eq('capacity in coulombs', got.value, np.array([[biggest(K, list(q)) * 3600]]))
    pic.check('extraction')


def soc_points(K, kind):
    if kind == 'array':
        return np.array([0., 1 / 7, 1 / 3, .6, 1.])
    if kind == 'few':
        return np.array([0.05, .5, .9])
    return kind


def capacity_of(K, cfg, cap):
    return MaxTheoreticalCapacity(base_values=cap) if cfg['cap'] == 'parameter' else cap


@contextlib.contextmanager
def plain_float(K):
    """conversion of a number to float keeps it"""
    if not K.symbolic:
        yield
        return
    with K.contracts():
        import moirae.extractors.ecm as m
        m.float = lambda x: x if not isinstance(x, (int, str)) else float(x)
        try:
            yield
        finally:
            del m.float


class Spline:
    """stand-in for the fit"""
    made = []

    def __init__(self, x, y, t=None, w=None, bbox=(None, None), k=3, **kw):
        self.x, self.y, self.t, self.w, self.k, self.kw = np.array(x), np.array(y), np.array(t), np.array(w), k, kw
        Spline.made.append(self)

    def __call__(self, x, *a, **k):
        from vc import terms as T
        self.at = np.array(x)
        return np.array([T.var(f'spline[{i}]') for i in range(len(self.at))], dtype=object)


def do_fit(K, cfg):
    n = cfg['n'] if K.symbolic else 40
    q, v, i = K.arr('q', (n,), box=(0., 2.)), K.arr('v', (n,), box=(2., 4.)), K.arr('i', (n,))
    cap = K.real('cap', pos=True, box=(.5, 4.))
    if n == 3 and K.symbolic:
        cap = K.const(2)
        i[1:] = K.const(-.5), K.const(0)
    K.assume(cap != 0)
    df = frame(K, voltage=v, cycle_capacity=q, current=i, test_time=K.arr('t', (n,)))
    if cfg['style'] == 'linear':       # part of a longer table
        df.index = 2 * np.arange(n)[::-1] + 17
    data = CellDataset(raw_data=df)
    soc = soc_points(K, cfg['soc'])
    grid = np.linspace(0, 1, soc) if isinstance(soc, int) else soc
    with plain_float(K):
        ex = OCVExtractor(capacity_of(K, cfg, cap), soc_points=soc, interpolation_style=cfg['style'])
    pic = Picture(K, raw=data.raw_data)
    Spline.made.clear()
    if not K.symbolic:
        x = np.sort(q / cap)
        K.assume(np.diff(x).min() > 1e-5 and x[0] < grid[1] and x[-1] > grid[-2])
        cells = np.histogram(x, np.concatenate([[x[0]], grid[1:-1], [x[-1]]]))[0]
        K.assume(len(x) > len(grid) + 4 and cells.min() >= 4)
        ocv = ex.extract(data)
        want = least_squares(q / cap, v, 1 / np.maximum(abs(i), 1e-6), grid[1:-1])(grid)
        scale = np.abs(want).max()
        K.eq('curve', ocv.ocv_ref.base_values[0] / scale, want / scale, rtol=1e-4, atol=1e-4)
    else:
        with K.contracts(extractors__ecm__LSQUnivariateSpline=Spline):
            ocv = ex.extract(data)
        K.same('one fit', len(Spline.made), 1)
        s = Spline.made[0]
        K.same('cubic', (s.k, len(s.x), len(s.y), len(s.w), s.kw), (3, n, n, n, {}))
        K.eq('knots', s.t, grid[1:-1])
        K.eq('evaluated at', s.at, grid)
        for k in range(n - 1):
            K.holds(f'ascending {k}', s.x[k] <= s.x[k + 1])
        # which sample is it?
        left, c = set(range(n)), []
        for k in range(n):
            j = [j for j in left if s.y[k] is v[j] or not (s.y[k] - v[j]).terms][0]
            left.discard(j)
            K.eq(f'SOC of point {k}', s.x[k] * cap, q[j])
            c.append(K.ite(K.abs(i[j]) > 1e-6, K.abs(i[j]), K.const(1e-6)))
        K.same('all samples', left, set())
        for k in range(n):
            K.eq(f'weight of point {k}', s.w[k] * c[k], s.w[0] * c[0])
            K.holds(f'positive weight {k}', s.w[k] > 0)
        K.eq('curve', ocv.ocv_ref.base_values, s(grid)[None])
    K.same('type', type(ocv), OpenCircuitVoltage)
    K.eq('SOC points', ocv.ocv_ref.soc_pinpoints, grid, rtol=0, atol=0)
    K.same('interpolation', ocv.ocv_ref.interpolation_style, cfg['style'])
    if cfg['style'] == 'linear' and not K.symbolic:
        K.eq('values', ocv(grid[None]).ravel(), ocv.ocv_ref.base_values[0])
    pic.check('extraction')


def do_points(K, cfg):
    arr = np.array([0., .25, .5, 1.])
    kw = {} if cfg['soc'] == 'default' else dict(soc_points=arr if cfg['soc'] == 'array' else cfg['soc'])
    ex = OCVExtractor(2., **kw)
    want = {'default': np.linspace(0, 1, 11), 'array': arr.copy()}.get(cfg['soc'])
    if want is None:
        want = np.linspace(0, 1, cfg['soc'])
    arr[:] = 7.
    K.eq('SOC points', ex.soc_points, want)
    K.eq('requirement', ex.soc_requirement, .95)
    K.same('interpolation', ex.interpolation_style, 'cubic')
    K.eq('capacity', K.const(float(ex.capacity)), K.const(2.))


def do_missing(K, cfg):
    """cycles without a capacity do not count"""
    q = K.arr('q', (cfg['n'],), nonneg=True, box=(.5, 20.))
    q[cfg['at']] = np.nan
    for null in (np.nan, None):
        stats = pd.DataFrame(dict(cycle_number=range(cfg['n']), capacity_charge=[null if np.isnan(x) else x for x in q]))
        data = CellDataset(cycle_stats=stats)
        K.eq('capacity', MaxCapacityExtractor().extract(data).amp_hour, [[np.nanmax(q)]])
        data = CellDataset(raw_data=frame(K, voltage=K.arr('v', (2,)), current=K.arr('i', (2,)), test_time=K.arr('t', (2,))), cycle_stats=stats)
        OCVExtractor(np.nanmax(q)).check_data(data)
        K.raises('not enough', lambda: OCVExtractor(np.nanmax(q) * 1.1).check_data(data))


def do_unknown(K, cfg):
    """a dataset of which no capacity is known is refused"""
    n, raw = cfg['n'], {}
    i = K.arr('i', (n,), box=(.5, 2.))
    df = frame(K, voltage=K.arr('v', (n,)), current=i, test_time=np.arange(n) * 3600., cycle_number=[0] * n)
    if cfg['how'] != 'computed':
        raw['cycle_stats'] = pd.DataFrame(dict(cycle_number=range(n), capacity_charge=[np.nan if cfg['how'] == 'nan' else None] * n))
    for req in (.95, 1e-9):
        K.raises('nothing is known to be sampled',
                 lambda: OCVExtractor(1., soc_requirement=req).check_data(CellDataset(raw_data=df.copy(), **{k: v.copy() for k, v in raw.items()})))


def do_required(K, cfg):
    q = K.arr('q', (cfg['n'],), nonneg=True, box=(.5, 2.))
    cap = K.real('cap', pos=True, box=(.5, 4.))
    req = K.const(.95) if cfg['req'] == 'default' else K.real('req', pos=True, box=(.1, 2.))
    data = CellDataset(raw_data=frame(K, voltage=K.arr('v', (2,)), current=K.arr('i', (2,)), test_time=K.arr('t', (2,))),
                       cycle_stats=frame(K, cycle_number=range(cfg['n']), capacity_charge=q))
    with plain_float(K):
        ex = OCVExtractor(capacity_of(K, cfg, cap), **({} if cfg['req'] == 'default' else dict(soc_requirement=req)))
    pic = Picture(K, raw=data.raw_data, stats=data.tables['cycle_stats'])
    m = biggest(K, list(q))
    if not K.symbolic:
        K.assume(abs(m - req * cap) > 1e-9)
    enough = K.decide(m >= req * cap)
    try:
        ex.check_data(data)
        K.same('accepted', True, enough)
    except ValueError:
        K.same('accepted', False, enough)
    pic.check('checking')


def do_exactly(K, cfg):
    """datasets that sample exactly the required range are enough"""
    q = 1.5 - (1e-9 if cfg['short'] else 0.)
    ex = OCVExtractor(2., soc_requirement=.75)
    data = CellDataset(raw_data=frame(K, voltage=K.arr('v', (2,)), current=K.arr('i', (2,)), test_time=K.arr('t', (2,))),
                       cycle_stats=frame(K, cycle_number=[0, 1], capacity_charge=[.5, q]))
    if cfg['short']:
        K.raises('not enough', lambda: ex.check_data(data), ValueError)
    else:
        K.same('accepted', ex.check_data(data), None)


def do_refused(K, cfg):
    stats = frame(K, cycle_number=[0], capacity_charge=[5.])
    ex = OCVExtractor(2.)
    K.raises('no time series', lambda: ex.check_data(CellDataset(cycle_stats=stats)))
    K.raises('nothing', lambda: ex.check_data(CellDataset()))
    BaseExtractor().check_data(CellDataset())
    K.raises('no algorithm', lambda: BaseExtractor().extract(CellDataset()), NotImplementedError)


# ---------------------------------------------------------------- evaluated only
def least_squares(x, y, w, knots):
    """weighted least squares cubic spline, by its own basis"""
    from scipy.interpolate import BSpline
    t = np.concatenate([[x.min()] * 4, knots, [x.max()] * 4])
    n = len(t) - 4
    A = np.stack([BSpline(t, np.eye(n)[j], 3, extrapolate=True)(x) for j in range(n)], axis=1)
    w = w / w.max()
    c = np.linalg.lstsq(A * w[:, None], y * w, rcond=1e-14)[0]
    return BSpline(t, c, 3, extrapolate=True)


def cycle(K, cfg, cap, curve, noise=0.):
    n = 120
    up = np.linspace(0, 1, n)
    s = up if cfg['order'] == 'charge' else np.concatenate([up, np.linspace(.995, .002, n)])
    i = np.where(np.arange(len(s)) < n, 1., -1.) * (.5 if cfg['rate'] == 'constant' else 1.)
    if cfg['rate'] == 'free':
        i = i * np.array([K.sampled(f'i{k}', lambda r: r.uniform(.2, 3.)) for k in range(len(s))])
    df = pd.DataFrame(dict(test_time=np.arange(len(s)) * 1., current=i, voltage=curve(s) + noise, cycle_capacity=s * cap))
    if cfg['order'] == 'shuffled':
        df = df.sample(frac=1., random_state=3)
        if cfg['rate'] == 'free':
            df = df.reset_index(drop=True)
    return CellDataset(raw_data=df)


def do_recovers(K, cfg):
    cap = K.real('cap', pos=True, box=(.5, 20.))
    c = [K.real(f'c{k}') for k in range(5)]
    grid = np.linspace(0, 1, 6)
    if cfg['curve'] == 'spline':
        from scipy.interpolate import CubicSpline
        curve = CubicSpline(grid, c + [1.], bc_type='natural')
    else:
        curve = np.polynomial.Polynomial(c[:2] if cfg['curve'] == 'line' else c[:4])
    ocv = OCVExtractor(cap, soc_points=6, interpolation_style=cfg['style']).extract(cycle(K, cfg, cap, curve))
    K.eq('values at the SOC points', ocv.ocv_ref.base_values[0], curve(grid), rtol=1e-6, atol=1e-6)
    s = np.linspace(0.02, .98, 17)
    if cfg['curve'] == 'line' or cfg['curve'] == 'cubic' and cfg['style'] == 'cubic':
        K.eq('values between', ocv(s[None]).ravel(), curve(s), rtol=1e-6, atol=1e-6)


def do_weighs(K, cfg):
    """voltages that depend on the direction"""
    cap = K.real('cap', pos=True, box=(.5, 20.))
    curve = np.polynomial.Polynomial([K.real(f'c{k}') for k in range(4)])
    data = cycle(K, dict(order='both', rate='free'), cap, curve)
    df = data.raw_data
    if cfg['zero']:
        df.loc[[17, 90, 130], 'current'] = [0., 1e-9, -1e-8]
    df['voltage'] += .3 * df['current'] * np.array([1. + .1 * K.sampled(f'n{k}', lambda r: r.uniform(-1, 1)) for k in range(len(df))])
    grid = np.linspace(0, 1, cfg['soc'])
    ocv = OCVExtractor(cap, soc_points=cfg['soc']).extract(data)
    w = 1 / np.maximum(np.abs(df['current'].to_numpy()), 1e-6)
    want = least_squares(df['cycle_capacity'].to_numpy() / cap, df['voltage'].to_numpy(), w, grid[1:-1])(grid)
    K.eq('curve', ocv.ocv_ref.base_values[0], want, rtol=1e-4 if cfg['zero'] else 1e-6, atol=1e-4 if cfg['zero'] else 1e-6)


def do_computed(K, cfg):
    """capacities that have to be computed from the time series"""
    rows, want, t = [], [], 0.
    for c in range(cfg['cycles']):
        i = K.sampled(f'i{c}', lambda r: r.uniform(.5, 3.))
        h = K.sampled(f'h{c}', lambda r: r.uniform(.5, 2.)) if not (cfg['partial'] and c % 2) else .25
        want.append(i * h)
        for sgn in (1., -1.):
            for k in range(101):
                rows.append((t, sgn * i, 3. + .1 * sgn, c))
                if k < 100:
                    t += h * 36.
            t += 1e-6
    df = pd.DataFrame(rows, columns=['test_time', 'current', 'voltage', 'cycle_number'])
    stats = pd.DataFrame(dict(cycle_number=range(cfg['cycles']), energy_charge=np.ones(cfg['cycles'])))
    for other in ({}, dict(cycle_stats=stats)):      # a table of cycles without capacities is of no use
        got = MaxCapacityExtractor().extract(CellDataset(raw_data=df.copy(), **{k: v.copy() for k, v in other.items()}))
        K.eq('capacity', got.amp_hour[0, 0], max(want), rtol=1e-4)
        data = CellDataset(raw_data=df.copy(), **{k: v.copy() for k, v in other.items()})
        OCVExtractor(max(want)).check_data(data)
        K.raises('too little is sampled', lambda: OCVExtractor(max(want) * 1.2).check_data(data))
    for cap, ok in ((max(want), True), (max(want) * 1.2, False)):
        data = CellDataset(raw_data=df.copy())
        try:
            OCVExtractor(cap).check_data(data)
            K.same(f'accepted for {"the" if ok else "a larger"} capacity', True, ok)
        except ValueError:
            K.same(f'accepted for {"the" if ok else "a larger"} capacity', False, ok)
