"""Terminal voltage is the sum of its circuit elements"""
import numpy as np
from .ecmlib import Cell, WHOLES, inputs, s, value_at
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'


def configs(tier):
    out = []
    for c0 in (True, False):
        for nrc in (0, 1, 2, 3, 4):
            for temp in (True, False):
                for w in (1, 2, 4):
                    out.append(dict(c0=c0, nrc=nrc, temp=temp, width=w, mode='linear' if (nrc + w) % 2 else 'constant'))
    for temp in (True, False):
        for whole in WHOLES:
            out.append(dict(c0=True, nrc=2, temp=temp, width=2, mode='linear', whole=whole))
        out.append(dict(c0=True, nrc=12, temp=temp, width=1, mode='linear'))
    return out


def voltage(K, cell, i, T, soc, q0, irc, h):
    v = cell.v
    out = value_at(K, cell, 'ocv', v['ocv'], soc)
    r0 = value_at(K, cell, 'r0', v['r0'], soc)
    if T is not None:
        out = out + (T - s(v['tref'])) * value_at(K, cell, 'ent', v['ent'], soc)
        r0 = r0 * K.exp(-s(v['r0t']) * (T - cell.rtref))
    out = out + i * r0
    if cell.has_c0:
        out = out + q0 / value_at(K, cell, 'c0', v['c0'], soc)
    for j in range(cell.nrc):
        r = value_at(K, cell, 'r', v[f'ra{j}'], soc)
        if T is not None:
            r = r * K.exp(-s(v[f'rt{j}']) * (T - cell.rtref))
        out = out + irc[j] * r
    return out + h


def contract(K, cfg):
    w, nrc = cfg['width'], cfg['nrc']
    cell = Cell(K, nrc=nrc, c0=cfg['c0'], widths=dict(ocv=w, ent=w, r0=w, r=w, c=w, c0=w, h0=w),
                tdf='free' if nrc < 2 else 'mixed' if nrc == 2 else 'nonzero', rtref=25. if w == 1 else 20., whole=WHOLES.get(cfg.get('whole'), ()))
    v = cell.v
    i = K.real('I', box=(-5, 5), special=(0., 1., -1.))
    T = K.real('T', box=(0, 50), special=(25., 0.)) if cfg['temp'] else None
    t = K.real('t', box=(0, 1000))
    soc = s(v['soc'])
    if cfg['c0']:
        c = value_at(K, cell, 'c0', v['c0'], soc)
        K.assume(c > 0)
    out = EquivalentCircuitModel(cfg['mode']).calculate_terminal_voltage(inputs(K, '', t, i, T), cell.state(), cell.asoh())
    want = voltage(K, cell, i, T, soc, s(v['q0']) if cfg['c0'] else None, v['irc'][0] if nrc else (), s(v['hyst']))
    K.eq('terminal voltage', out.terminal_voltage, np.array([[want]]))
    K.eq('output vector', out.to_numpy(), np.array([[want]]))
