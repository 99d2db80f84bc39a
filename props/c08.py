"""Hysteresis relaxes exponentially with charge throughput towards the value of the current's direction"""
import numpy as np
from .ecmlib import Cell, WHOLES, inputs, s, value_at
from moirae.models.ecm.components import HysteresisParameters
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'


def configs(tier):
    out = []
    for mode in ('constant', 'linear'):
        for nrc in (0, 1, 2):
            for width in (1, 3):
                out.append(dict(mode=mode, nrc=nrc, width=width, temp=nrc == 1, c0=nrc == 2))
        out.append(dict(mode=mode, nrc=0, width=1, temp=False, c0=False, split=True))
        for whole in ('state', 'health', 'both'):
            out.append(dict(mode=mode, nrc=1, width=2, temp=True, c0=True, whole=whole))
        out.append(dict(mode=mode, nrc=0, width=1, temp=False, c0=False, bound=True, _budget=120.))
    for n in (1, 2):
        out.append(dict(what='rate', n=n))
    return out


def rate(K, cfg):
    """with a negative rate, hysteresis would run away from its limit: refused"""
    g = K.arr('gamma', (cfg['n'], 1), box=(-2., 50.), special=(0., -1e-3))
    def make():
        return HysteresisParameters(base_values=[[.1]], gamma=g.copy())
    if K.decide(K.or_(*[v < 0 for v in g[:, 0]])):
        K.raises('negative rate', make, ValueError)
    else:
        K.eq('rate', make().gamma, g)


def relax(K, h, target, x):
    e = K.exp(-x)
    return h * e + (1 - e) * target


def law(K, mode, h, M, i0, i1, dt, kappa):
    """kappa: gamma / capacity when discharging, times the efficiency when charging"""
    charging, discharging = kappa
    if mode == 'constant':
        if K.decide(i0 >= 0):
            return relax(K, h, M, charging * i0 * dt)
        return relax(K, h, -M, -discharging * i0 * dt)
    if K.decide(i0 >= 0):
        if K.decide(i1 >= 0):
            return relax(K, h, M, charging * (i0 + i1) / 2 * dt)
        if K.decide(i0 > 0):
            phi = dt * i0 / (i0 - i1)
            return relax(K, relax(K, h, M, charging * i0 / 2 * phi), -M, -discharging * i1 / 2 * (dt - phi))
        return relax(K, h, -M, -discharging * i1 / 2 * dt)
    if K.decide(i1 <= 0):
        return relax(K, h, -M, -discharging * (i0 + i1) / 2 * dt)
    phi = dt * i0 / (i0 - i1)
    return relax(K, relax(K, h, -M, -discharging * i0 / 2 * phi), M, charging * i1 / 2 * (dt - phi))


def contract(K, cfg):
    if cfg.get('what') == 'rate':
        return rate(K, cfg)
    w, nrc, mode = cfg['width'], cfg['nrc'], cfg['mode']
    cell = Cell(K, nrc=nrc, c0=cfg['c0'], widths=dict(ocv=w, h0=w), whole=WHOLES.get(cfg.get('whole'), ()))
    model = EquivalentCircuitModel(mode)
    asoh, state = cell.asoh(), cell.state()
    t = 0 if 'whole' in cfg else K.real('t0', box=(0, 100))
    i0 = 2 if 'whole' in cfg else K.real('I0', box=(-5, 5), special=(0., 1., -1.))
    i1 = K.real('I1', box=(-5, 5), special=(0., 1., -1.))
    dt = K.real('dt', box=(0.1, 300), nonneg=True, special=(0.,))
    T0 = K.real('T0', box=(0, 50)) if cfg['temp'] else None
    v = cell.v
    soc, h = s(v['soc']), s(v['hyst'])
    M = value_at(K, cell, 'h0', v['h0'], soc)
    slow = s(v['gamma']) / (3600 * s(v['qt']))
    kappa = s(v['ce']) * slow, slow
    new = model.update_transient_state(inputs(K, '0', t, i0, T0), inputs(K, '1', t + dt, i1, T0), state, asoh)
    got = s(new.hyst)
    want = law(K, mode, h, M, i0, i1, dt, kappa)
    K.eq('hysteresis', new.hyst, np.array([[want]]))
    if cfg.get('bound'):
        lim = K.real('limit', nonneg=True, box=(0.3, 1))
        K.assume(K.and_(h <= lim, h >= -lim, M <= lim))
        K.le('upper bound', got, lim)
        K.le('lower bound', -lim, got)
    if cfg.get('split'):
        d1 = K.real('d1', pos=True, box=(0.1, 100))
        K.assume(d1 < dt)
        im = i0 if mode == 'constant' else i0 + (i1 - i0) * d1 / dt
        # the parameters are held constant over a step: a constant M makes the steps comparable
        mid = model.update_transient_state(inputs(K, '0', t, i0, T0), inputs(K, '1', t + d1, im, T0), state, asoh)
        end = model.update_transient_state(inputs(K, '1', t + d1, im, T0), inputs(K, '2', t + dt, i1, T0), mid, asoh)
        K.eq('split step', end.hyst, new.hyst)
