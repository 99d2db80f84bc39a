"""Containers and arrays: one row per member, one column per stored value in field order; loading an array sets exactly
those values; absent optional fields have no column and stay absent; values shared by the batch are broadcast"""
import random
from typing import Optional
import numpy as np
from .trees import columns
from moirae.models.base import GeneralContainer, ScalarParameter, ListParameter, InputQuantities, OutputQuantities
from moirae.models.ecm import ECMTransientVector, ECMInput, ECMMeasurement, ECMASOH
from .ecmlib import Cell

LEVEL = 'other'
RUNS = 4


class Free(GeneralContainer):
    p: ScalarParameter = 0.
    q: Optional[ListParameter] = None
    r: ListParameter = (0.,)
    s: Optional[ScalarParameter] = None
    t: ScalarParameter = 7.


KINDS = {
    'free': (Free, dict(p=0, q=1, r=1, s=0, t=0), {'q', 's'}),
    'ecm state': (ECMTransientVector, dict(soc=0, q0=0, i_rc=1, hyst=0), {'q0'}),
    'ecm input': (ECMInput, dict(time=0, current=0, temperature=0), {'temperature'}),
    'input': (InputQuantities, dict(time=0, current=0), set()),
    'measurement': (ECMMeasurement, dict(terminal_voltage=0), set()),
    'output': (OutputQuantities, dict(terminal_voltage=0), set()),
}


def configs(tier):
    out = []
    for kind in KINDS:
        for B in (1, 2, 3, 4):
            for k in range((4 if tier == 'quick' else 20) if kind in ('free', 'ecm state') else 2):
                out.append(dict(kind=kind, B=B, seed=k))
    for kind in ('free', 'ecm state'):
        out += [dict(kind=kind, B=B, seed=0, more=9) for B in (1, 2, 12)]
    out.append(dict(kind='whole'))
    out += [dict(kind='template', nrc=n, c0=c) for n in (0, 1, 2, 4) for c in (False, True)]
    return out


def contract(K, cfg):
    if cfg['kind'] == 'template':
        return template(K, cfg)
    if cfg['kind'] == 'whole':
        return whole(K)
    cls, fields, optional = KINDS[cfg['kind']]
    rng = random.Random(f'{cfg}')
    B = cfg['B']
    vals = {}
    for f, dim in fields.items():
        if f in optional and (rng.random() < 0.5):
            continue
        w = 1 if dim == 0 else rng.randint(1, 4) + cfg.get('more', 0)
        if cfg['kind'] == 'ecm state' and f == 'i_rc' and rng.random() < 0.2:
            w = 0
        vals[f] = K.arr(f, (B if rng.random() < 0.6 else 1, w), box=(-5, 5))
    given = {}
    for f, v in vals.items():
        # scalars may be given as numbers, vectors of one value per member, or (members, 1) arrays
        if fields[f] == 0:
            given[f] = v[0, 0] if v.shape[0] == 1 and rng.random() < .5 else v[:, 0].copy() if rng.random() < .5 else v.copy()
        else:
            given[f] = v[0].copy() if v.shape[0] == 1 and rng.random() < .5 else v.copy()
    box = cls(**given)
    order = [f for f in fields if f in vals]
    for f in fields:
        if f in vals:
            K.eq(f'stored {f}', getattr(box, f), vals[f])
        elif f in optional:
            K.same(f'{f} absent', getattr(box, f), None)
    present = {f: np.asarray(getattr(box, f)) for f in fields if getattr(box, f) is not None}
    order = [f for f in fields if f in present]
    n = max(v.shape[0] for v in present.values())
    width = sum(v.shape[1] for v in present.values())
    K.same('batch size', box.batch_size, n)
    K.same('length', len(box), width)
    for f in fields:
        K.same(f'length of {f}', box.length_field(f), present[f].shape[1] if f in present else 0)
    arr = box.to_numpy()
    K.eq('to array', arr, columns([present[f] for f in order], n))

    def loaded(label, obj, new):
        pos = 0
        for f in fields:
            if f not in present:
                K.same(f'{label}: {f} stays absent', getattr(obj, f), None)
                continue
            w = present[f].shape[1]
            K.eq(f'{label}: {f}', getattr(obj, f), new[:, pos:pos + w])
            pos += w
        K.eq(f'{label}: array', obj.to_numpy(), new)
        K.same(f'{label}: batch', obj.batch_size, len(new))

    def original(label):
        for f in present:
            K.eq(f'{label}: {f} of the original', getattr(box, f), present[f])
    present = {f: v.copy() for f, v in present.items()}
    for m in sorted({1, n, 3}):
        new = K.arr(f'new{m}', (m, width), box=(-5, 5))
        loaded(f'copy with {m} rows', box.make_copy(new.copy()), new)
        original(f'copy with {m} rows')
        if m == 1:
            loaded('flat vector', box.make_copy(new[0].copy()), new)
        other = box.model_copy(deep=True)
        other.from_numpy(new.copy())
        loaded(f'loaded {m} rows', other, new)
    for m in range(width):     # arrays that leave values unset
        K.raises(f'only {m} columns', lambda: box.make_copy(new[:, :m].copy()))
        K.raises(f'only {m} values', lambda: box.make_copy(new[0, :m].copy()))
        K.raises(f'loading only {m} columns', lambda: box.from_numpy(new[:, :m].copy()))
        original(f'only {m} columns')
    if all(w for w in [v.shape[1] for v in present.values()]):
        again = box.make_copy(box.to_numpy())
        loaded('round trip', again, columns([present[f] for f in order], n))
    box.from_numpy(new.copy())
    loaded('loaded in place', box, new)


def template(K, cfg):
    """templates built from a circuit description have one slot per element and the given values"""
    nrc, c0 = cfg['nrc'], cfg['c0']
    v = K.arr('v', (4,), box=(-1, 1))
    irc = K.arr('irc', (nrc,), box=(-1, 1))
    t = ECMTransientVector.provide_template(has_C0=c0, num_RC=nrc, soc=v[0], q0=v[1], i_rc=irc.copy(), hysteresis=v[2])
    K.eq('array', t.to_numpy(), np.concatenate([v[:1], v[1:2] if c0 else v[:0], irc, v[2:3]])[None, :])
    K.same('no capacitor', t.q0 is None, not c0)
    d = ECMTransientVector.provide_template(has_C0=c0, num_RC=nrc)
    K.eq('default', d.to_numpy(), np.zeros((1, 2 + c0 + nrc)))
    if nrc:
        K.raises('too few currents', lambda: ECMTransientVector.provide_template(has_C0=c0, num_RC=nrc, i_rc=np.zeros(nrc - 1)))
    K.raises('too many currents', lambda: ECMTransientVector.provide_template(has_C0=c0, num_RC=nrc, i_rc=np.zeros(nrc + 1)))
    cell = Cell(K, nrc=nrc, c0=c0, tdf='zero')
    f = ECMTransientVector.from_asoh(cell.asoh())
    K.eq('from a circuit', f.to_numpy(), np.zeros((1, 2 + c0 + nrc)))
    K.same('from a circuit without capacitor', f.q0 is None, not c0)


def whole(K):
    """whole numbers given for some of the values do not round the others, nor what is loaded later"""
    x = K.arr('x', (2, 2), box=(-5, 5))
    for cls, kw, want in ((Free, dict(p=1, r=x.copy(), t=2), [[1, *r, 2] for r in x]),
                          (Free, dict(p=x[:, 0].copy(), q=[3, 4], r=5), [[r[0], 3, 4, 5, 7] for r in x]),
                          (ECMTransientVector, dict(soc=1, q0=0, i_rc=x.copy(), hyst=0), [[1, 0, *r, 0] for r in x]),
                          (ECMTransientVector, dict(soc=0, i_rc=[1, 2, 3], hyst=x[:, 0].copy()), [[0, 1, 2, 3, r[0]] for r in x]),
                          (ECMInput, dict(time=3600, current=x[:, 0].copy(), temperature=25), [[3600, r[0], 25] for r in x])):
        box = cls(**kw)
        K.eq(f'{cls.__name__} read', box.to_numpy(), want)
        new = K.arr('new', np.shape(want), box=(-5, 5))
        K.eq(f'{cls.__name__} copy', box.make_copy(new.copy()).to_numpy(), new)
        K.eq(f'{cls.__name__} after the copy', box.to_numpy(), want)
        box.from_numpy(new.copy())
        K.eq(f'{cls.__name__} loaded', box.to_numpy(), new)
