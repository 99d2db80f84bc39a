"""Charge bookkeeping of the equivalent-circuit model"""
import numpy as np
from .ecmlib import Cell, WHOLES, inputs, s
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'


def configs(tier):
    out = []
    for mode in ('constant', 'linear'):
        for c0 in (True, False):
            for nrc in (0, 1, 2, 3):
                out.append(dict(mode=mode, c0=c0, nrc=nrc, temp=(nrc % 2 == 0), width=1 + nrc))
        out.append(dict(mode=mode, c0=True, nrc=1, temp=True, width=2, steps=2))
        for whole in ('state', 'health', 'both'):
            out.append(dict(mode=mode, c0=True, nrc=1, temp=False, width=2, steps=2, whole=whole))
        out.append(dict(mode=mode, c0=True, nrc=0, temp=False, width=1, split=True))
    return out


def counted(K, mode, ce, i0, i1, dt):
    """the charge that flows in, times the efficiency, less the charge that flows out"""
    if mode == 'constant':
        return (dt * i0) if K.decide(i0 < 0) else ce * dt * i0
    if K.decide(K.or_(K.and_(i0 <= 0, i1 <= 0), K.and_(i0 >= 0, i1 >= 0))):
        moved = dt * (i0 + i1) / 2
        return moved if K.decide(K.or_(i0 < 0, i1 < 0)) else ce * moved
    width = dt * i0 / (i0 - i1)      # from the beginning to the change of the sign
    before, after = i0 * width / 2, i1 * (dt - width) / 2
    return before + ce * after if K.decide(i0 < 0) else ce * before + after


def contract(K, cfg):
    if cfg.get('split'):
        return split(K, cfg)
    w = cfg['width']
    cell = Cell(K, nrc=cfg['nrc'], c0=cfg['c0'], temp=cfg['temp'], widths=dict(ocv=w, r0=w, h0=w, r=w, c=w, c0=w), whole=WHOLES.get(cfg.get('whole'), ()))
    model = EquivalentCircuitModel(cfg['mode'])
    asoh, state = cell.asoh(), cell.state()
    t = 0 if 'whole' in cfg else K.real('t0', box=(0, 100))
    i0 = 2 if 'whole' in cfg else K.real('I0', box=(-5, 5), special=(0., 1., -1.))
    temp = K.real('T0', box=(0, 50)) if cfg['temp'] else None
    prev = inputs(K, '0', t, i0, temp)
    soc, q0 = s(cell.v['soc']), s(cell.v['q0']) if cfg['c0'] else None
    qt, ce = s(cell.v['qt']), s(cell.v['ce'])
    for k in range(cfg.get('steps', 1)):
        dt = K.real(f'dt{k}', box=(0.1, 600), nonneg=True, special=(0.,))
        i1 = K.real(f'I{k + 1}', box=(-5, 5), special=(0., 1., -1.))
        new = inputs(K, '1', t + dt, i1, temp)
        state = model.update_transient_state(prev, new, state, asoh)
        moved = dt * i0 if cfg['mode'] == 'constant' else dt * (i0 + i1) / 2
        soc = soc + counted(K, cfg['mode'], ce, i0, i1, dt) / (3600 * qt)
        K.eq(f'soc after step {k + 1}', state.soc, np.array([[soc]]))
        if cfg['c0']:
            q0 = q0 + moved
            K.eq(f'q0 after step {k + 1}', state.q0, np.array([[q0]]))
        else:
            K.same(f'no series charge without series capacitor {k + 1}', state.q0 is None, True)
        t, i0, prev = t + dt, i1, new


def split(K, cfg):
    """a step split in two, of the same current, counts the same charge"""
    cell = Cell(K, nrc=cfg['nrc'], c0=cfg['c0'], temp=cfg['temp'], widths=dict(ocv=1, r0=1, h0=1, c0=1))
    model = EquivalentCircuitModel(cfg['mode'])
    asoh, state = cell.asoh(), cell.state()
    t, i0, i1 = K.real('t0', box=(0, 100)), K.real('I0', box=(-5, 5), special=(0.,)), K.real('I1', box=(-5, 5), special=(0.,))
    dt, d1 = K.real('dt', box=(1, 600), pos=True), K.real('d1', box=(.1, 600), pos=True)
    K.assume(d1 < dt)
    im = i0 if cfg['mode'] == 'constant' else i0 + (i1 - i0) * d1 / dt
    ins = [inputs(K, str(k), a, b, None) for k, (a, b) in enumerate(((t, i0), (t + d1, im), (t + dt, i1)))]
    once = model.update_transient_state(ins[0], ins[2], state, asoh)
    twice = model.update_transient_state(ins[1], ins[2], model.update_transient_state(ins[0], ins[1], state, asoh), asoh)
    K.eq('state of charge', twice.soc, once.soc)
    K.eq('charge on the series capacitor', twice.q0, once.q0)
