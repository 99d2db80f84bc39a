"""RC currents follow the exact solution of the RC equation over a step"""
import numpy as np
from .ecmlib import Cell, WHOLES, inputs, s, value_at
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'


def configs(tier):
    out = []
    for mode in ('constant', 'linear'):
        for nrc in (1, 2, 3):
            for temp in (True, False):
                out.append(dict(mode=mode, nrc=nrc, temp=temp, width=1, c0=nrc == 2))
                out.append(dict(mode=mode, nrc=nrc, temp=temp, width=1 + nrc, c0=nrc == 1))
        out.append(dict(mode=mode, nrc=4, temp=True, width=2, c0=True))
        out.append(dict(mode=mode, nrc=2, temp=True, width=1, c0=False, split=True))
        for whole in ('state', 'health', 'both'):
            out.append(dict(mode=mode, nrc=2, temp=True, width=2, c0=True, whole=whole))
        out.append(dict(mode=mode, nrc=12, temp=True, width=1, c0=True))
        for tdf in ('free', 'zero', 'mixed'):
            out.append(dict(mode=mode, nrc=1 if tdf == 'free' else 2, temp=True, width=1, c0=False, tdf=tdf))
    return out


def solution(K, mode, i, tau, dt, i0, i1):
    e = K.exp(-dt / tau)
    if mode == 'constant':
        return i * e + (1 - e) * i1
    if K.decide(dt == 0):
        return i
    a = (i1 - i0) / dt
    return i * e + (1 - e) * (i0 - a * tau) + a * dt


def contract(K, cfg):
    w, nrc, mode = cfg['width'], cfg['nrc'], cfg['mode']
    cell = Cell(K, nrc=nrc, c0=cfg['c0'], widths=dict(ocv=w, r0=w, h0=w, r=w, c=w), tdf=cfg.get('tdf', 'nonzero'), whole=WHOLES.get(cfg.get('whole'), ()))
    model = EquivalentCircuitModel(mode)
    asoh, state = cell.asoh(), cell.state()
    t = 0 if 'whole' in cfg else K.real('t0', box=(0, 100))
    i0 = 2 if 'whole' in cfg else K.real('I0', box=(-5, 5), special=(0., 1., -1.))
    i1 = K.real('I1', box=(-5, 5), special=(0., 1., -1.))
    dt = K.real('dt', box=(0.1, 300), nonneg=True, special=(0.,))
    T0 = K.real('T0', box=(0, 50)) if cfg['temp'] else None
    T1 = K.real('T1', box=(0, 50)) if cfg['temp'] else None
    soc, v = s(cell.v['soc']), cell.v

    def taus(temp):
        out = []
        for j in range(nrc):
            r = value_at(K, cell, 'r', v[f'ra{j}'], soc)
            if temp is not None:
                r = r * K.exp(-s(v[f'rt{j}']) * (temp - 25))
            tau = r * value_at(K, cell, 'c', v[f'ca{j}'], soc)
            K.assume(tau > 0)
            out.append(tau)
        return out
    tau = taus(T0)
    full = model.update_transient_state(inputs(K, '0', t, i0, T0), inputs(K, '1', t + dt, i1, T1), state, asoh)
    want = [solution(K, mode, v['irc'][0, j], tau[j], dt, i0, i1) for j in range(nrc)]
    K.eq('RC currents', full.i_rc, np.array([want]))
    if cfg.get('split'):
        # splitting the step does not change the outcome
        d1 = K.real('d1', pos=True, box=(0.1, 100))
        K.assume(d1 < dt)
        im = i1 if mode == 'constant' else i0 + (i1 - i0) * d1 / dt
        mid = model.update_transient_state(inputs(K, '0', t, i0, T0), inputs(K, '1', t + d1, im, T0), state, asoh)
        end = model.update_transient_state(inputs(K, '1', t + d1, im, T0), inputs(K, '2', t + dt, i1, T1), mid, asoh)
        K.eq('split step', end.i_rc, full.i_rc)
