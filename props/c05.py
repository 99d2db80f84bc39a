"""Evaluating a batch of cells gives, member by member, what evaluating each cell on its own gives.

Relational contract of the model's two operations: row b of the result for a batched A-SOH / transient state equals
the result of the same function for the b-th member alone.  Every field is batched alone, then in mixed subsets
(which members share a value is part of the configuration), then all together."""
import itertools
import random

import numpy as np
from .ecmlib import Cell, inputs, FIELDS, HEALTH, STATE
from moirae.models.ecm import EquivalentCircuitModel

LEVEL = 'other'
BUDGET = 100.
RUNS = 4


def configs(tier):
    out = []
    singles = ['qt', 'ce', 'ocv', 'tref', 'ent', 'r0', 'r0t', 'c0', 'ra', 'rt', 'ca', 'h0', 'gamma', 'soc', 'q0', 'irc', 'hyst']
    k = 0
    for f in singles:
        for B in (2, 3):
            out.append(dict(batch=(f,), B=B, nrc=1 + k % 3, width=1 if k % 2 else 3, mode='constant' if k % 3 else 'linear'))
            k += 1
    for f in ('ra0', 'rt1', 'ca1', 'ra1'):
        out.append(dict(batch=(f,), B=2, nrc=2, width=1, mode='constant'))
        out.append(dict(batch=(f, 'soc'), B=3, nrc=2, width=2, mode='linear'))
    out.append(dict(batch=('temp',), B=2, nrc=2, width=2, mode='constant'))
    out.append(dict(batch=('temp', 'soc', 'r0'), B=3, nrc=1, width=1, mode='constant'))
    for k, fs in enumerate((['soc'], ['r0', 'r0t'], ['ocv', 'h0', 'c0', 'q0'], ['irc', 'ra'], STATE, HEALTH, ['temp', *STATE, *HEALTH], [])):
        out.append(dict(batch=('current', *fs), B=2 + k % 2, nrc=1 + k % 3, width=1 + k % 2, mode='constant', c0=k % 3 > 0))
    for mode in ('constant', 'linear'):
        for B in (2, 3):
            for nrc in (0, 1, 2, 3, 4):
                out.append(dict(batch=tuple(singles), B=B, nrc=nrc, width=1 + (nrc + B) % 3, mode=mode, c0=nrc % 2 == 0))
            out.append(dict(batch=tuple(HEALTH), B=B, nrc=B, width=2, mode=mode))
            out.append(dict(batch=tuple(STATE), B=B, nrc=B, width=2, mode=mode))
            out.append(dict(batch=tuple(HEALTH) + ('soc',), B=B, nrc=1, width=1, mode=mode, c0=False))
            out.append(dict(batch=('soc', 'irc'), B=B, nrc=2, width=1, mode=mode))
    for B in (4, 5, 7):
        for k, fs in enumerate((('soc',), ('r0', 'ra'), ('soc', 'ocv', 'h0', 'hyst', 'c0', 'q0'), singles)):
            out.append(dict(batch=tuple(fs), B=B, nrc=k % 3, width=1 + k % 2, mode='constant' if B % 2 else 'linear', _concrete=k > 1))
    for n in (12, 50):
        out += [dict(batch=tuple(singles), B=n, nrc=2, width=3, mode=mode, _concrete=True) for mode in ('constant', 'linear')]
    out.append(dict(batch=('rt', 'r0t'), B=2, nrc=1, width=1, mode='constant', tdf='free'))
    out.append(dict(batch=('rt', 'soc'), B=2, nrc=1, width=1, mode='constant', tdf='free'))
    out.append(dict(batch=('rt', 'r0t', 'ra'), B=3, nrc=2, width=1, mode='constant', tdf='mixed'))
    out.append(dict(batch=tuple(singles), B=2, nrc=2, width=2, mode='linear', tdf='mixed'))
    out.append(dict(batch=tuple(singles), B=3, nrc=2, width=1, mode='linear', tdf='zero'))
    rng = random.Random(7)
    for n in range(12 if tier == 'quick' else 120):
        fs = tuple(f for f in singles if rng.random() < 0.4)
        out.append(dict(batch=fs, B=rng.choice((2, 3)), nrc=rng.choice((0, 1, 2, 3)), width=rng.choice((1, 2, 3)),
                        mode=rng.choice(('constant', 'linear')), c0=rng.random() < 0.6, notemp=rng.random() < 0.3))
    return out


def contract(K, cfg):
    w, nrc, mode, B = cfg['width'], cfg['nrc'], cfg['mode'], cfg['B']
    cell = Cell(K, nrc=nrc, c0=cfg.get('c0', True), batch=cfg['batch'], B=B, tdf=cfg.get('tdf', 'nonzero'),
                widths=dict(ocv=w, ent=w, r0=w, h0=w, r=w, c=w, c0=w))
    model = EquivalentCircuitModel(mode)
    t = K.real('t0', box=(0, 100))
    several = 'current' in cfg['batch']       # a batch of currents has voltages, but cannot be stepped (it is refused)
    i0 = K.arr('I0', (B, 1), box=(-5, 5)) if several else K.real('I0', box=(-5, 5), special=(0., 1., -1.))
    i1 = K.real('I1', box=(-5, 5), special=(0., 1., -1.))
    dt = K.real('dt', box=(0.1, 300), nonneg=True, special=(0.,))
    if cfg.get('notemp'):
        T0 = T1 = None
    elif 'temp' in cfg['batch']:
        T0, T1 = K.arr('T0', (B, 1), box=(0, 50)), K.arr('T1', (B, 1), box=(0, 50))
    else:
        T0, T1 = K.real('T0', box=(0, 50)), K.real('T1', box=(0, 50))

    def run(c, b=None):
        ta, tb = (T0[b:b + 1], T1[b:b + 1]) if b is not None and isinstance(T0, np.ndarray) else (T0, T1)
        prev, new = inputs(K, '0', t, i0[b:b + 1] if several and b is not None else i0, ta), inputs(K, '1', t + dt, i1, tb)
        if several:
            return None, model.calculate_terminal_voltage(prev, c.state(), c.asoh())
        asoh, st = c.asoh(), c.state()
        return (model.update_transient_state(prev, new, st, asoh),
                model.calculate_terminal_voltage(prev, c.state(), c.asoh()))

    def stack(name, got, want):
        """got: batched value; want: list of single values"""
        want = np.concatenate([np.asarray(x) for x in want], axis=0)
        if got.ndim == 2 and got.shape[0] == 1 and B > 1:     # a value shared by the whole batch
            got = np.repeat(got, B, axis=0)
        K.eq(name, got, want)
    state, volt = run(cell)
    members = [run(cell.member(b), b) for b in range(B)]
    for f in () if several else ('soc', 'q0', 'i_rc', 'hyst'):
        if getattr(state, f) is None:
            K.same(f'{f} absent', all(getattr(m[0], f) is None for m in members), True)
            continue
        stack(f, getattr(state, f), [getattr(m[0], f) for m in members])
    stack('terminal voltage', volt.terminal_voltage, [m[1].terminal_voltage for m in members])
