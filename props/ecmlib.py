"""Building equivalent-circuit models out of symbolic (or sampled) values"""
import numpy as np

from moirae.models.ecm import EquivalentCircuitModel, ECMInput, ECMTransientVector, ECMASOH
from moirae.models.ecm.components import (MaxTheoreticalCapacity, Resistance, Capacitance, RCComponent, ReferenceOCV,
                                          EntropicOCV, OpenCircuitVoltage, HysteresisParameters)

FIELDS = ['qt', 'ce', 'ocv', 'tref', 'ent', 'r0', 'r0t', 'c0', 'ra', 'rt', 'ca', 'h0', 'gamma',
          'soc', 'q0', 'irc', 'hyst', 'temp']
# whole numbers a value may be given as
WHOLE = dict(qt=3, ce=1, ocv=3, tref=20, ent=0, r0=1, c0=100, ra=1, ca=60, h0=0, gamma=10, soc=1, q0=7, irc=2, hyst=0)
HEALTH = FIELDS[:13]
STATE = ['soc', 'q0', 'irc', 'hyst']
WHOLES = dict(state=STATE, health=[k for k in WHOLE if k not in STATE], both=list(WHOLE))


class Cell:
    """values of one batched cell; `member(b)` gives the b-th cell on its own"""

    def __init__(self, K, nrc=1, c0=True, widths=None, batch=None, B=1, temp=True, tfactor=True, pins=None, tag='', tdf='free', rtref=25., whole=()):
        w = dict(ocv=1, ent=1, r0=1, c0=1, r=1, c=1, h0=1)
        w.update(widths or {})
        batch = set(batch or ())
        self.nrc, self.has_c0, self.has_temp, self.tfactor, self.B, self.w = nrc, c0, temp, tfactor, B, w
        self.pins, self.rtref = pins or {}, rtref

        def mk(name, key, width, **k):
            n = B if key in batch else 1
            return K.arr(tag + name, (n, width), **k)
        v = self.v = {}
        v['qt'] = mk('qt', 'qt', 1, pos=True, box=(1., 20.))
        v['ce'] = mk('ce', 'ce', 1, pos=True, box=(0.5, 1.))
        v['ocv'] = mk('ocv', 'ocv', w['ocv'], box=(2.5, 4.5))
        v['tref'] = mk('tref', 'tref', 1, box=(10., 40.))
        v['ent'] = mk('ent', 'ent', w['ent'], box=(-0.05, 0.05))
        v['r0'] = mk('r0', 'r0', w['r0'], pos=True, box=(0.01, 0.5))
        v['r0t'] = mk('r0t', 'r0t', 1, box=(-0.03, 0.03))
        if c0:
            v['c0'] = mk('c0', 'c0', w['c0'], pos=True, box=(10., 1000.))
        for i in range(nrc):
            v[f'ra{i}'] = mk(f'rcr{i}', 'ra' if 'ra' in batch else f'ra{i}', w['r'], pos=True, box=(0.01, 0.5))
            v[f'rt{i}'] = mk(f'rct{i}', 'rt' if 'rt' in batch else f'rt{i}', 1, box=(-0.03, 0.03))
            v[f'ca{i}'] = mk(f'rcc{i}', 'ca' if 'ca' in batch else f'ca{i}', w['c'], pos=True, box=(10., 2000.))
        v['h0'] = mk('h0', 'h0', w['h0'], nonneg=True, box=(0.01, 0.3))
        v['gamma'] = mk('gamma', 'gamma', 1, nonneg=True, box=(0.1, 50.))
        v['soc'] = mk('soc', 'soc', 1, box=(0.05, 0.95))
        if c0:
            v['q0'] = mk('q0', 'q0', 1, box=(-50., 50.))
        if nrc:
            v['irc'] = mk('irc', 'irc', nrc, box=(-2., 2.))
        v['hyst'] = mk('hyst', 'hyst', 1, box=(-0.3, 0.3))
        for k in list(v):
            # temperature dependence factors: 'free' any value, 'nonzero', 'zero', 'mixed' some members / elements zero
            if k != 'r0t' and not k.startswith('rt'):
                continue
            if not tfactor or tdf == 'zero':
                v[k] = np.zeros((1, 1))
                continue
            for n, i in enumerate(np.ndindex(v[k].shape)):
                if tdf == 'mixed' and (n == 0 and len(v[k]) > 1 or k == 'rt0'):
                    v[k][i] = K.const(0)
                elif tdf != 'free':
                    K.assume(v[k][i] != 0)

        for k in v:     # given as whole numbers, as one writes them down
            name = k.rstrip('0123456789') if k not in ('r0', 'c0', 'h0', 'q0') else k
            if name in whole:
                first = WHOLE[name]
                v[k] = np.array([[first + (a + b) % 3 for b in range(v[k].shape[1])] for a in range(len(v[k]))]
                               if name not in ('soc', 'tref') else [[first]] * len(v[k]), dtype=int)

    def copy(self):
        new = object.__new__(Cell)
        new.__dict__.update(self.__dict__)
        new.v = dict(self.v)
        return new

    def member(self, b):
        new = self.copy()
        new.v = {k: (x[b:b + 1].copy() if x.shape[0] > 1 else x.copy()) for k, x in self.v.items()}
        new.B = 1
        return new

    def soc_pins(self, key):
        return {} if key not in self.pins else {'soc_pinpoints': np.array(self.pins[key])}

    def asoh(self, style='linear'):
        v, w, rtref = self.v, self.w, self.rtref

        def c(x):
            return x.copy()

        def st(k):
            return dict(interpolation_style=style, **self.soc_pins(k)) if w[k] > 1 else {}
        rcs = tuple(RCComponent(r=Resistance(base_values=c(v[f'ra{i}']), temperature_dependence_factor=c(v[f'rt{i}']),
                                             reference_temperature=rtref, **st('r')),
                                c=Capacitance(base_values=c(v[f'ca{i}']), **st('c'))) for i in range(self.nrc))
        return ECMASOH(
            q_t=MaxTheoreticalCapacity(base_values=c(v['qt'])), ce=c(v['ce']),
            ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=c(v['ocv']), reference_temperature=c(v['tref']), **st('ocv')),
                                   ocv_ent=EntropicOCV(base_values=c(v['ent']), **st('ent'))),
            r0=Resistance(base_values=c(v['r0']), temperature_dependence_factor=c(v['r0t']), reference_temperature=rtref, **st('r0')),
            c0=Capacitance(base_values=c(v['c0']), **st('c0')) if self.has_c0 else None,
            rc_elements=rcs,
            h0=HysteresisParameters(base_values=c(v['h0']), gamma=c(v['gamma']), **st('h0')))

    def state(self):
        v = self.v
        return ECMTransientVector(soc=v['soc'].copy(), q0=v['q0'].copy() if self.has_c0 else None,
                                  i_rc=v['irc'].copy() if self.nrc else np.zeros((1, 0)), hyst=v['hyst'].copy())


def s(x):
    """scalar inside a (1, 1) array"""
    return np.asarray(x).reshape(-1)[0]


def inputs(K, tag, time, current, temp=None):
    one = lambda x: x if isinstance(x, np.ndarray) else np.array([[x]], dtype=int if isinstance(x, int) else object if K.symbolic else float)   # noqa: E731
    return ECMInput(time=one(time), current=one(current), temperature=None if temp is None else (
        temp if isinstance(temp, np.ndarray) else one(temp)))


def value_at(K, cell, key, member_row, soc, style='linear'):
    """contract of an SOC-dependent parameter with one row of values: constant, or the interpolant at soc"""
    row = np.asarray(member_row).reshape(-1)
    if len(row) == 1:
        return row[0]
    pins = cell.pins.get(key)
    x = np.linspace(0, 1, len(row)) if pins is None else np.array(pins)
    return interp(K, x, row, soc, style)


def interp(K, x, row, q, style='linear'):
    if K.symbolic:
        from vc import shim
        return shim.interp1d(x, np.array([row], dtype=object), kind=style, fill_value='extrapolate').one(row, q)
    from scipy.interpolate import interp1d
    return float(interp1d(x, np.asarray(row, dtype=float), kind=style, fill_value='extrapolate')(float(q)))
