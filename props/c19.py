"""A run over a dataset: the estimator is stepped with the inputs and measurements of the rows in order (25 degrees where there is no
temperature), the table holds the mean and standard deviation of what it returned for each row, under the names of the
states and outputs, and what is written on the way is the same.  The estimator is any estimator: what its steps return are
symbols"""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import h5py
from pathlib import Path
from battdat.data import CellDataset
from .ukflib import sym
from .onlinelib import chol_definite
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.joint import JointEstimator
from moirae.models.base import GeneralContainer, ScalarParameter
from moirae.models.ecm import EquivalentCircuitModel, ECMInput, ECMMeasurement
from . import ecmlib

LEVEL = 'other'
RUNS = 3
T6 = dict(rtol=1e-6, atol=1e-8)
T12 = dict(rtol=1e-12, atol=1e-14)


def configs(tier):
    out = []
    for temp in ('all', 'none', 'nan', 'some', 'inf'):
        for rows in (2, 4):
            for ns, m, kind in ((1, 1, 'any'), (1, 1, 'gauss'), (3, 2, 'any'), (2, 1, 'delta')):
                out.append(dict(what='run', temp=temp, rows=rows, ns=ns, m=m, kind=kind, cycles=rows > 2 and kind != 'gauss', index=ns > 1,
                                table=not (temp == 'none' and ns == 3), record=ns != 2))
    for gap in ('voltage', 'current', 'test_time'):
        out.append(dict(what='run', temp='all', rows=4, ns=2, m=1, kind='any', cycles=True, index=True, table=True, record=True, gap=gap))
    out += [dict(what='row', temp=t, default=d, dictionary=x) for t in ('yes', 'no', 'nan', 'inf') for d in (False, True) for x in (False, True)]
    for source in ('dataset', 'path', 'string'):
        for to in ('none', 'path', 'string', 'group', 'writer'):
            for cycles in (True, False):
                out.append(dict(what='files', source=source, to=to, cycles=cycles, rows=7, _concrete=True))
    out.append(dict(what='refused', _concrete=True))
    for nrc in (0, 1, 2):
        out.append(dict(what='real', nrc=nrc, rows=8, temp='some', _concrete=True))
    out.append(dict(what='bar', _concrete=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def value(x):
    return np.asarray(x).reshape(-1)[0]


class Notes(GeneralContainer):
    x: ScalarParameter = 0.


class AnyEstimator:
    """returns the given distributions, and notes what it was given"""

    def __init__(self, results, ns, m):
        self.results, self.calls = results, []
        self.state_names = tuple(f's{ns - i}' for i in range(ns))
        self.output_names = tuple(f'o{m - i}' for i in range(m))
        self.num_state_dimensions, self.num_output_dimensions = ns, m
        self.state = results[0][0]
        self.asoh = self.transients = Notes()
        self.cell_model = EquivalentCircuitModel()

    def step(self, inputs, measurements):
        self.calls.append((inputs, measurements))
        return self.results[len(self.calls) - 1]


class Record:
    def __init__(self, K):
        self.K, self.opened, self.closed, self.prepared, self.steps = K, 0, 0, [], []

    def __enter__(self):
        self.opened += 1
        return self

    def __exit__(self, *a):
        self.closed += 1

    def prepare(self, **kw):
        self.prepared.append(kw)

    def append_step(self, time, cycle, state, output):
        self.K.same('written while open', (self.opened, self.closed, len(self.prepared)), (1, 0, 1))
        self.steps.append((time, cycle, state, output))


class Estimate:
    """any distribution"""

    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov

    def get_mean(self):
        return self.mean

    def get_covariance(self):
        return self.cov


def estimates(K, n, ns, m, kind):
    out = []
    for k in range(n):
        r = []
        for tag, d in (('s', ns), ('o', m)):
            if kind == 'delta' and tag == 's':
                r.append(DeltaDistribution(mean=K.arr(f'{tag}{k}', (d,))))
            else:
                mean = K.arr(f'{tag}{k}', (d,))
                if kind == 'any':
                    cov = sym(K, f'{tag}c{k}', d)
                    for i in range(d):
                        cov[i, i] = K.real(f'{tag}v{k}[{i}]', nonneg=True)
                    r.append(Estimate(mean, cov))
                else:
                    r.append(MultivariateGaussian(mean=mean, covariance=chol_definite(K, f'{tag}{k}', d)[1]))
        out.append(tuple(r))
    return out


def table(K, cfg, rows):
    dt = object if K.symbolic else float
    cols = {k: K.arr(k, (rows,), **kw) for k, kw in (('test_time', {}), ('voltage', {}), ('current', {}))}
    if cfg['temp'] != 'none':
        t = np.array(K.arr('temperature', (rows,)), dtype=dt)
        for i in range(rows):
            if cfg['temp'] in ('nan', 'inf') or cfg['temp'] == 'some' and i % 3 != 1:
                t[i] = float('inf' if cfg['temp'] == 'inf' else 'nan')
        cols['temperature'] = t
    if cfg.get('cycles'):
        cols['cycle_number'] = np.array([i // 2 * 3 for i in range(rows)])     # cycles may be missing
    if cfg.get('index'):
        cols['further'] = np.arange(rows) + 100.
        for n in ('cycle_time', 'cycle_capacity', 'internal_temperature'):
            cols[n] = K.arr(n, (rows,))
    if cfg.get('gap') is not None:
        cols[cfg['gap']] = np.array(cols[cfg['gap']], dtype=dt)
        cols[cfg['gap']][rows // 2] = float('nan')
    names = list(cols)
    return pd.DataFrame({n: cols[n] for n in (names[::-1] if cfg.get('index') else names)},
                        index=list(range(rows))[::-1] if cfg.get('index') else None), cols


def given(K, name, u, y, cols, i):
    """the inputs and measurements are those of row i"""
    K.eq(f'{name}: time', value(u.time), cols['test_time'][i])
    K.eq(f'{name}: current', value(u.current), cols['current'][i])
    t = cols['temperature'][i] if 'temperature' in cols else None
    known = t is not None and not (isinstance(t, float) and not np.isfinite(t))
    K.eq(f'{name}: temperature', value(u.temperature), t if known else K.const(25))
    K.eq(f'{name}: voltage', value(y.terminal_voltage), cols['voltage'][i])


def first_row(K, calls, rows):
    """index of the row of the first step: all rows are visited, or all but the first (a known finding)"""
    K.same('number of steps', calls in (rows, rows - 1), True)
    K.finding('the estimator is stepped with every row', calls == rows, 'first-row-skipped')
    return rows - calls


def check_table(K, df, est, results, rows, calls):
    K.same('columns', list(df.columns), [f'{n}{s}' for names in (est.state_names, est.output_names) for s in ('', '_std') for n in names])
    K.same('rows', len(df) in (rows, calls), True)
    for k in range(calls):
        for names, d in zip((est.state_names, est.output_names), results[k]):
            mean, cov = d.get_mean(), d.get_covariance()
            for i, n in enumerate(names):
                K.eq(f'{n} of step {k}', df[n].iloc[k], mean[i], **T12)
                K.eq(f'standard deviation of {n} of step {k}', df[n + '_std'].iloc[k], K.sqrt(cov[i, i]), **T12)
    if len(df) > calls:
        K.eq('no more estimates', df.iloc[calls:].to_numpy(), np.zeros((len(df) - calls, df.shape[1])))


def do_run(K, cfg):
    rows = cfg['rows']
    df, cols = table(K, cfg, rows)
    res = estimates(K, rows, cfg['ns'], cfg['m'], cfg['kind'])
    est = AnyEstimator(res, cfg['ns'], cfg['m'])
    rec = Record(K) if cfg['record'] else None
    was = df.copy()
    data = CellDataset(raw_data=df)
    out, back = run_online_estimate(data, est, output_states=cfg['table'], hdf5_output=rec)
    K.same('estimator returned', back is est, True)
    K.same('the dataset keeps its columns and index', (list(df.columns), list(df.index)), (list(was.columns), list(was.index)))
    calls = len(est.calls)
    skip = rows - calls if calls in (rows, rows - 1) else 0
    for k, (u, y) in enumerate(est.calls[:rows]):
        given(K, f'step {k}', u, y, cols, k + skip)
    if cfg['table']:
        check_table(K, out, est, res, rows, calls)
    else:
        K.same('no table', out, None)
    if rec is not None:
        K.same('opened and closed', (rec.opened, rec.closed, len(rec.prepared)), (1, 1, 1))
        p = rec.prepared[0]
        K.same('prepared for the estimator', p['estimator'] is est, True)
        K.same('expected steps', p['expected_steps'] in (rows, calls), True)
        if cfg['cycles']:
            K.same('expected cycles', int(p['expected_cycles']), max(cols['cycle_number']) + 1)
        K.same('steps written', len(rec.steps), calls)
        for k, (t, c, s, o) in enumerate(rec.steps):
            K.eq(f'time written {k}', t, cols['test_time'][k + skip])
            K.same(f'cycle written {k}', int(c), int(cols['cycle_number'][k + skip]) if cfg['cycles'] else 0)
            for n, a, b in (('state', s, res[k][0]), ('output', o, res[k][1])):
                K.eq(f'{n} written {k}', a.get_mean(), b.get_mean())
                K.eq(f'covariance of {n} written {k}', a.get_covariance(), b.get_covariance())
    first_row(K, calls, rows)


def do_row(K, cfg):
    row = dict(test_time=K.real('time'), current=K.real('current'), voltage=K.real('voltage'), other=K.real('other'))
    if cfg['temp'] != 'no':
        row['temperature'] = K.real('temperature') if cfg['temp'] == 'yes' else float(cfg['temp'])
    default = K.real('default') if cfg['default'] else K.const(25)
    u, y = row_to_inputs(row if cfg['dictionary'] else pd.Series(row, dtype=object if K.symbolic else float),
                         **(dict(default_temperature=default) if cfg['default'] else {}))
    K.same('types', (type(u), type(y)), (ECMInput, ECMMeasurement))
    K.eq('inputs', u.to_numpy(), np.array([[row['test_time'], row['current'], row['temperature'] if cfg['temp'] == 'yes' else default]]))
    K.eq('measurements', y.to_numpy(), np.array([[row['voltage']]]))


def scratch(fn):
    def wrapped(K, cfg):
        d = tempfile.mkdtemp(prefix='c19.')
        try:
            fn(K, cfg, d)
        finally:
            shutil.rmtree(d)
    return wrapped


@scratch
def do_files(K, cfg, d):
    rows = cfg['rows']
    df, cols = table(K, dict(temp='some', cycles=cfg['cycles']), rows)
    data = CellDataset(raw_data=df)
    source = data
    if cfg['source'] != 'dataset':
        source = os.path.join(d, 'data.h5')
        data.to_hdf(source)
        if cfg['source'] == 'path':
            source = Path(source)
    res = estimates(K, rows, 2, 1, 'gauss')
    est = AnyEstimator(res, 2, 1)
    out_path = os.path.join(d, 'out.h5')
    group = None
    if cfg['to'] == 'group':
        group = h5py.File(out_path, 'w')
        target = group.create_group('sub')
    elif cfg['to'] == 'writer':
        target = HDF5Writer(hdf5_output=out_path, per_timestep='full', per_cycle='mean')
    else:
        target = dict(none=None, path=Path(out_path), string=out_path)[cfg['to']]
    out, back = run_online_estimate(source, est, hdf5_output=target)
    K.same('estimator returned', back is est, True)
    calls = len(est.calls)
    skip = rows - calls if calls in (rows, rows - 1) else 0
    for k, (u, y) in enumerate(est.calls[:rows]):
        given(K, f'step {k}', u, y, cols, k + skip)
    check_table(K, out, est, res, rows, calls)
    if target is not None:
        if group is not None:
            K.same('a group is left open', bool(group), True)
            group.close()
        with h5py.File(out_path) as f:
            g = f['sub/state_estimates' if group is not None else 'state_estimates']
            steps = list(read_state_estimates(g))
            cycles = list(read_state_estimates(g, per_timestep=False))
        K.same('steps read back', len(steps), calls)
        full = cfg['to'] == 'writer'
        for k, (t, s, o) in enumerate(steps):
            K.eq(f'time {k}', t, cols['test_time'][k + skip])
            for n, a, b in (('state', s, res[k][0]), ('output', o, res[k][1])):
                K.eq(f'{n} {k}', a.get_mean(), b.get_mean())
                if full:
                    K.eq(f'covariance of {n} {k}', a.get_covariance(), b.get_covariance())
        label = [int(cols['cycle_number'][i]) if cfg['cycles'] else 0 for i in range(skip, rows)]
        first = [label.index(c) for c in sorted(set(label))]
        K.same('cycles read back', len(cycles), len(first))
        for k, (t, s, o) in zip(first, cycles):
            K.eq(f'time of the cycle at {k}', t, cols['test_time'][k + skip])
            K.eq(f'state of the cycle at {k}', s.get_mean(), res[k][0].get_mean())
            K.eq(f'output of the cycle at {k}', o.get_mean(), res[k][1].get_mean())
            if not full:
                K.eq(f'covariance of the cycle at {k}', s.get_covariance(), res[k][0].get_covariance())
    first_row(K, calls, rows)


def do_refused(K, cfg):
    est = AnyEstimator(estimates(K, 1, 1, 1, 'gauss'), 1, 1)
    K.raises('no time series', lambda: run_online_estimate(CellDataset(), est))
    K.raises('no dataset', lambda: run_online_estimate(None, est))
    K.raises('no dataset but a table', lambda: run_online_estimate(table(K, dict(temp='all'), 3)[0], est))
    K.same('no steps', est.calls, [])


def make(K, cfg):
    cell = ecmlib.Cell(K, nrc=cfg['nrc'], c0=False)
    a, s = cell.asoh(), cell.state()
    a.mark_updatable('r0.base_values')
    n = len(s.all_names)
    return JointEstimator.initialize_unscented_kalman_filter(
        cell_model=EquivalentCircuitModel(), initial_asoh=a, initial_transients=s, initial_inputs=ECMInput(time=0., current=0., temperature=25.),
        covariance_transient=np.eye(n) * 1e-2, covariance_asoh=np.eye(1) * 1e-5, transient_covariance_process_noise=np.eye(n) * 1e-8,
        asoh_covariance_process_noise=np.eye(1) * 1e-9, covariance_sensor_noise=np.eye(1) * 1e-5)


def do_real(K, cfg):
    """the joint estimator of an equivalent circuit: the run is the sequence of its steps"""
    rows = cfg['rows']
    df, cols = table(K, cfg, rows)
    df['test_time'] = cols['test_time'] = np.cumsum(np.abs(cols['test_time']) + .1)
    est, other = make(K, cfg), make(K, cfg)
    out, back = run_online_estimate(CellDataset(raw_data=df), est)
    used = int((np.abs(out.to_numpy()).sum(axis=1) > 0).sum())
    skip = rows - used
    K.same('number of steps', skip in (0, 1), True)
    res = []
    for k in range(skip, rows):
        t = cols['temperature'][k]
        res.append(other.step(ECMInput(time=cols['test_time'][k], current=cols['current'][k], temperature=t if np.isfinite(t) else 25.),
                              ECMMeasurement(terminal_voltage=cols['voltage'][k])))
    check_table(K, out, est, res, rows, used)
    K.eq('final state', back.state.get_mean(), other.state.get_mean(), **T6)
    K.eq('final covariance', back.state.get_covariance(), other.state.get_covariance(), **T6)
    first_row(K, used, rows)


def do_bar(K, cfg):
    """showing progress changes nothing"""
    import contextlib
    import io
    df, cols = table(K, dict(temp='all'), 4)
    res = estimates(K, 4, 1, 1, 'gauss')
    est = AnyEstimator(res, 1, 1)
    with contextlib.redirect_stderr(io.StringIO()):
        out, _ = run_online_estimate(CellDataset(raw_data=df), est, pbar=True)
    check_table(K, out, est, res, 4, len(est.calls))
