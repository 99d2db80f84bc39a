"""The loss of candidates: for each, the mean over the dataset of the squared difference between the recorded voltage and what the
model (any model) gives when it is started from the state with the health parameters of that candidate and steps along the rows"""
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from .frame import Picture, poke
from .onlinelib import World, Any, ORDER
from . import ecmlib
from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'
RUNS = 4
TOL = 30.
SELECT = {'none': (), 'one': ('p',), 'default': ('p', 'part.r'), 'list': ('q', 'k'), 'permuted': ('part.s', 'q'), 'all': ('p', 'q', 'part.r', 'part.s', 'k')}


def configs(tier):
    out = []
    for sel in SELECT:
        for B in (1, 2, 4):
            for rows in (1, 2, 4):
                out.append(dict(what='loss', sel=sel, B=B, rows=rows, nz=(B + rows) % 3, temp=('all', 'none', 'some')[(B + rows) % 3], index=rows == 2,
                                same=B > 2))
    out += [dict(what='unknown', at=i, _concrete=True) for i in (0, 2, 3)]
    for sel in SELECT:
        for nz in (0, 2):
            out.append(dict(what='start', sel=sel, nz=nz))
    for nrc in (0, 1, 2):
        for B in (1, 3):
            out.append(dict(what='ecm', nrc=nrc, B=B, rows=3 if nrc < 2 else 2))
    out.append(dict(what='ecm', nrc=2, B=5, rows=30, _concrete=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def dataset(K, cfg, increasing=False, tag=''):
    n = cfg['rows']
    dt = object if K.symbolic else float
    t = np.array([K.const(0)] * n, dtype=dt)
    for i in range(n):
        t[i] = K.real(f't{tag}{i}', pos=True) + (t[i - 1] if i else K.const(0)) if increasing else K.real(f't{tag}{i}')
    cols = dict(test_time=t, current=K.arr('current' + tag, (n,)), voltage=K.arr('voltage' + tag, (n,)))
    temps = [K.const(25)] * n
    if cfg['temp'] != 'none':
        v = np.array(K.arr('temperature' + tag, (n,), box=(10., 40.)), dtype=dt)
        for i in range(n):
            if cfg['temp'] == 'some' and i % 2:
                v[i] = float('nan')
            else:
                temps[i] = v[i]
        cols['temperature'] = v
    df = pd.DataFrame(cols, index=[7, 3, 9, 1, 5, 0][:n] if cfg.get('index') else None)
    return CellDataset(raw_data=df), [[a, b, c] for a, b, c in zip(t, cols['current'], temps)], list(cols['voltage'])


def expected(K, w, candidates, us, vs, names):
    want = []
    for c in candidates:
        hv = dict(w.h)
        i = w.nt
        for n in names:
            k = hv[n].shape[1]
            hv[n] = c[None, i:i + k]
            i += k
        K.same('all values are used', i, len(c))
        h = [v for n in ORDER for v in hv[n][0]]
        x, total, prev = list(c[:w.nt]), K.const(0), None
        for u, v in zip(us, vs):
            if prev is not None:
                x = w.model.f(prev, u, x, h)
            prev = u
            e = w.model.g(u, x, h)[0] - v
            total = total + e * e
        want.append(total / len(us))
    return np.array(want, dtype=candidates.dtype)


def do_loss(K, cfg):
    w = World(K, cfg['nz'], updatable=SELECT[cfg['sel']])
    w.model = Any(cfg['nz'])
    data, us, vs = dataset(K, cfg)
    a, s = w.asoh(), w.state()
    pic0 = Picture(K, a=a, s=s)
    loss = MeanSquaredLoss(w.model, a, s, data)
    pic0.check('construction')
    poke(a, s)
    X, x0 = K.arr('X', (cfg['B'], w.nt + w.na)), loss.get_x0()
    if cfg['same']:
        X[-1] = X[0]
    was = X.copy()
    pic = Picture(K, asoh=loss.asoh, state=loss.state, raw=data.raw_data)
    names = loss.asoh.updatable_names
    want = expected(K, w, was, us, vs, names)
    K.eq('losses', loss(X), want)
    pic.check('evaluation')
    K.eq('candidates are left alone', X, was)
    K.eq('losses, once more', loss(X), want)
    for i in range(cfg['B']):
        K.eq(f'loss of candidate {i} alone', loss(X[i:i + 1]), want[i:i + 1])
    if cfg['B'] > 1:
        K.eq('losses in another order', loss(X[::-1].copy()), want[::-1].copy())
    pic.check('evaluations')
    # other observations
    data2, us2, vs2 = dataset(K, dict(cfg, rows=cfg['rows'] + 1, index=False), tag='2')
    loss.observations = data2
    K.eq('losses for other observations', loss(X), expected(K, w, was, us2, vs2, names))
    loss.observations = data
    K.eq('starting point afterwards', loss.get_x0(), x0)
    K.eq('loss of the starting point', loss(x0[None])[0], loss(np.array([list(x0)], dtype=x0.dtype))[0])


def do_unknown(K, cfg):
    """a candidate for which the model gives no number at some time has no number as loss, and the others are not touched"""
    w = World(K, 0, updatable=('p',))
    data, us, vs = dataset(K, dict(rows=4, temp='all'))

    class Breaks(Any):
        """breaks down where the parameter is negative, from the given step on"""

        def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
            out = super().calculate_terminal_voltage(new_inputs, transient_state, asoh)
            if new_inputs.time[0, 0] == us[cfg['at']][0]:
                v = out.terminal_voltage.copy()
                v[1] = float('nan')
                out.terminal_voltage = v
            return out
    X = K.arr('X', (3, w.nt + w.na))
    got = MeanSquaredLoss(Breaks(0), w.asoh(), w.state(), data)(X)
    K.same('no number', bool(got[1] != got[1]), True)
    want = expected(K, w, X, us, vs, ('p',))
    K.eq('the others', got[[0, 2]], want[[0, 2]])
    # nor is there one where a voltage is not known
    data.raw_data.loc[data.raw_data.index[cfg['at']], 'voltage'] = float('nan')
    got = MeanSquaredLoss(Any(0), w.asoh(), w.state(), data)(X)
    K.same('voltage not known', bool(np.isnan(np.asarray(got, dtype=float)).all()), True)


def do_start(K, cfg):
    w = World(K, cfg['nz'], updatable=SELECT[cfg['sel']])
    a, s = w.asoh(), w.state()
    data, _, _ = dataset(K, dict(rows=2, temp='none'))
    for cls in (MeanSquaredLoss, BaseLoss):
        loss = cls(Any(cfg['nz']), a, s, data)
        x0 = loss.get_x0()
        h = w.h
        want = list(w.x) + [v for n in a.updatable_names for v in h[n][0]]
        K.eq('starting point', x0, np.array(want, dtype=w.x.dtype))
        K.same('parameters of the starting point', sorted(a.updatable_names), sorted(w.updatable))
        x0 += 1
        K.eq('starting point, once more', loss.get_x0(), np.array(want, dtype=w.x.dtype))
    K.raises('no loss', lambda: BaseLoss(Any(cfg['nz']), a, s, data)(K.arr('X', (1, len(want)))), NotImplementedError)


def do_ecm(K, cfg):
    """the equivalent circuit, by the steps of the model"""
    cell = ecmlib.Cell(K, nrc=cfg['nrc'], c0=cfg['nrc'] == 1, tdf='zero')
    model = EquivalentCircuitModel()
    a, s = cell.asoh(), cell.state()
    ups = ['q_t.base_values', 'r0.base_values'] + [f'rc_elements.{i}.r.base_values' for i in range(cfg['nrc'])]
    for n in ups:
        a.mark_updatable(n)
    data, us, vs = dataset(K, dict(cfg, temp='none'), increasing=True)
    loss = MeanSquaredLoss(model, a, s, data)
    X = np.repeat(loss.get_x0()[None], cfg['B'], axis=0)
    K.same('width', X.shape[1], len(s) + len(ups))
    for b in range(cfg['B']):
        for j in range(X.shape[1]):
            if j >= len(s) or b % 2 and j == 0:
                X[b, j] = K.real(f'X{b},{j}', pos=True, box=(.05, .9))
    names = loss.asoh.updatable_names
    want = []
    for c in X:
        y = s.make_copy(c[None, :len(s)])
        h = a.model_copy(deep=True)
        h.update_parameters(c[None, len(s):], names)
        total, prev = K.const(0), None
        for u, v in zip(us, vs):
            u = ecmlib.inputs(K, '', *u)
            if prev is not None:
                y = model.update_transient_state(prev, u, y, h)
            prev = u
            e = model.calculate_terminal_voltage(u, y, h).to_numpy()[0, 0] - v
            total = total + e * e
        want.append(total / len(us))
    K.eq('losses', loss(X), np.array(want, dtype=X.dtype))
