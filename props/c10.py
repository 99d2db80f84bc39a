"""SOC-dependent parameters: values at the nodes, straight lines between (and beyond) them, even spacing by default,
one value per (parameter batch, SOC batch, SOC point); exponential temperature dependence; time constant; OCV."""
import numpy as np
from moirae.models.ecm.components import (Resistance, Capacitance, RCComponent, ReferenceOCV, EntropicOCV,
                                          OpenCircuitVoltage, HysteresisParameters, MaxTheoreticalCapacity)
from moirae.models.ecm.utils import SOCInterpolatedHealth

LEVEL = 'other'
INTERP = 'exact'
PINS = {1: None, 2: None, 3: [0., 0.25, 1.], 4: [0.1, 0.2, 0.7, 0.9], 5: None}
SHAPES = {'scalar': (), 'vec1': (1,), 'vec3': (3,), 'mat11': (1, 1), 'mat21': (2, 1), 'mat12': (1, 2), 'mat23': (2, 3),
          'mat31': (3, 1)}


def configs(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        for bh in (1, 2, 3):
            for k, sh in enumerate(SHAPES):
                if (k + n + bh) % 2 and tier == 'quick' and n > 2 and int(np.prod(SHAPES[sh])) > 2:
                    continue
                if int(np.prod(SHAPES[sh])) * n * bh > 24:
                    continue
                out.append(dict(what='interp', n=n, bh=bh, soc=sh, pins=(n + bh) % 2 == 0))
    for bh in (1, 2):
        for bf in (1, 2):
            for btr in ('none', 'scalar', 'mat11', 'mat21'):
                out.append(dict(what='resistance', n=1 + bh, bh=bh, bf=bf, temp=btr, soc='mat21' if btr != 'none' else 'scalar'))
        for bt in (1, 2):
            for be in (1, 2):
                for temp in ('none', 'scalar', 'mat21'):
                    out.append(dict(what='ocv', n=2, bh=bh, bt=bt, be=be, temp=temp, soc='mat21' if temp == 'mat21' else 'mat11'))
        out.append(dict(what='tau', n=2, bh=bh, temp='scalar', soc='mat21'))
        out.append(dict(what='qt', bh=bh))
        for n in (1, 2, 3):
            out.append(dict(what='whole', n=n, bh=bh))
            out.append(dict(what='change', n=n, bh=bh))
    for n in (3, 4):
        for bh in (1, 2):
            out.append(dict(what='order', n=n, bh=bh))
    for style in ('nearest', 'nearest-up', 'zero', 'slinear', 'quadratic', 'cubic', 'previous', 'next'):
        out.append(dict(what='style', style=style, n=5, bh=2, _concrete=True))
    return out


def lin(K, x, y, q):
    """the piecewise linear function through (x_i, y_i), its end segments continued beyond the ends"""
    n, x = len(x), [K.const(float(v)) for v in x]
    for i in range(n - 1):
        if i == n - 2 or K.decide(q <= x[i + 1]):
            return y[i] + (q - x[i]) * (y[i + 1] - y[i]) / (x[i + 1] - x[i])


def temp_arr(K, kind):
    if kind == 'none':
        return None
    if kind == 'scalar':
        return K.real('T', box=(0, 50))
    return K.arr('T', SHAPES[kind], box=(0, 50))


def at(a, *i):
    """broadcasting access"""
    return a[tuple(j if n > 1 else 0 for j, n in zip(i, a.shape))]


def expected(K, cls_pins, vals, socs):
    n = vals.shape[1]
    x = np.linspace(0, 1, n) if cls_pins is None else np.array(cls_pins)
    out = np.empty((vals.shape[0],) + socs.shape, dtype=vals.dtype)
    for b in range(vals.shape[0]):
        for i in np.ndindex(socs.shape):
            out[(b,) + i] = vals[b, 0] if n == 1 else lin(K, x, vals[b], socs[i])
    return out


def parts(v):
    """one of every kind of parameter, with everything updatable, from a row (or rows) of values per name"""
    out = dict(plain=SOCInterpolatedHealth(base_values=v['plain'].copy()), h0=HysteresisParameters(base_values=v['plain'].copy()),
               c=Capacitance(base_values=v['c'].copy()),
               rc=RCComponent(r=Resistance(base_values=v['r'].copy(), temperature_dependence_factor=v['rt'].copy(), reference_temperature=20.),
                              c=Capacitance(base_values=v['c'].copy())),
               ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=v['ocv'].copy(), reference_temperature=v['tref'].copy()),
                                      ocv_ent=EntropicOCV(base_values=v['ent'].copy())))
    for p in out.values():
        p.mark_all_updatable()
    return out


PATHS = dict(plain=dict(base_values='plain'), h0=dict(base_values='plain'), c=dict(base_values='c'),
             rc={'r.base_values': 'r', 'r.temperature_dependence_factor': 'rt', 'c.base_values': 'c'},
             ocv={'ocv_ref.base_values': 'ocv', 'ocv_ref.reference_temperature': 'tref', 'ocv_ent.base_values': 'ent'})


def do_change(K, cfg):
    """values follow the parameters as they are now, however often they have been evaluated before"""
    n, bh = cfg['n'], cfg['bh']
    soc, temp = K.real('soc', box=(0., 1.)), K.real('T', box=(0, 50))

    def fresh(tag):
        mk = lambda name, w, box: K.arr(name + tag, (bh, w), pos=True, box=box)     # noqa: E731
        return dict(plain=mk('p', n, (.5, 4)), c=mk('c', n, (10, 100)), r=mk('r', n, (.1, 1)), rt=mk('rt', 1, (.01, .03)),
                    ocv=mk('o', n, (3, 4)), tref=mk('tr', 1, (10, 40)), ent=mk('e', n, (.01, .05)))

    def look(p):
        if isinstance(p, RCComponent):
            return p.time_constant(soc, temp)
        return p.get_value(soc, temp) if isinstance(p, OpenCircuitVoltage) else p.get_value(soc)
    old, new = fresh('0'), fresh('1')
    want = {k: look(p) for k, p in parts(new).items()}
    before = {k: look(p) for k, p in parts(old).items()}
    for how in ('copy', 'update', 'set', 'assign', 'overwrite'):
        for k, p in parts(old).items():
            K.eq(f'{k}: before ({how})', look(p), before[k])
            given = parts(new)[k]
            # in the order in which the parameters are read
            row = np.concatenate([new[PATHS[k][name]] if name in PATHS[k] else given.get_parameters([name]) for name in p.all_names], axis=1)
            if how == 'copy':
                q = p.make_copy(row, list(p.all_names))
                K.eq(f'{k}: the original of a copy', look(p), before[k])
            else:
                q = p
            if how == 'update':
                q.update_parameters(row, list(p.all_names))
            for path, field in PATHS[k].items() if how in ('set', 'assign', 'overwrite') else ():
                *way, last = path.split('.')
                at_ = q
                for w in way:
                    at_ = getattr(at_, w)
                if how == 'set':
                    q.set_value(path, new[field].copy())
                elif how == 'assign':
                    setattr(at_, last, new[field].copy())
                else:
                    getattr(at_, last)[...] = new[field]
            K.eq(f'{k}: after the change ({how})', look(q), want[k])


def contract(K, cfg):
    what = cfg['what']
    if what == 'change':
        return do_change(K, cfg)
    if what == 'qt':
        q = K.arr('q', (cfg['bh'], 1), pos=True, box=(1, 10))
        m = MaxTheoreticalCapacity(base_values=q.copy())
        K.eq('coulombs', m.value, q * 3600)
        K.eq('ampere hours', m.amp_hour, q)
        other = K.arr('as', (cfg['bh'], 1), pos=True, box=(3000, 40000))
        m.value = other.copy()
        K.eq('coulombs set', m.value, other)
        K.eq('ampere hours after coulombs were set', m.amp_hour * 3600, other)
        for how, x in (('number', other[0, 0]), ('whole number', 36000), ('one per member', other[:, 0].copy())):
            m.value = x
            want = other if np.ndim(x) else [[x]]
            K.eq(f'coulombs set, {how}', m.value, want)
            K.same(f'still a parameter, {how}', (list(m.all_names), m.batch_size), (['base_values'], len(want)))
            K.eq(f'ampere hours read, {how}', m.get_parameters(['base_values']) * 3600, want)
        return
    n, bh = cfg['n'], cfg['bh']
    vals = K.arr('v', (bh, n), pos=True, box=(0.5, 4))
    if what == 'style':
        from scipy.interpolate import interp1d
        x = np.array([0., 0.2, 0.5, 0.7, 1.])
        h = SOCInterpolatedHealth(base_values=vals.copy(), soc_pinpoints=x.copy(), interpolation_style=cfg['style'])
        K.eq('value at the nodes', h.get_value(x[None, :]), vals[:, None, :])
        q = K.arr('soc', (2, 3), lo=-0.2, hi=1.2, box=(-0.2, 1.2))
        K.eq('interpolant', h.get_value(q), interp1d(x, vals, kind=cfg['style'], bounds_error=False, fill_value='extrapolate')(q))
        return
    sh = SHAPES[cfg.get('soc', 'mat11')]
    soc = K.real('soc', box=(-0.3, 1.3), special=(0., 0.25, 1.)) if sh == () else K.arr('soc', sh, box=(-0.3, 1.3), special=(0., 0.25, 1.))
    socs = np.asarray(soc).reshape((1, -1) if len(sh) < 2 else sh)
    pins = PINS[n] if cfg.get('pins') else None
    kw = {} if pins is None else dict(soc_pinpoints=np.array(pins))
    if what == 'whole':
        # whole numbers: values, places and states of charge
        count = 1 + np.arange(bh * n).reshape(bh, n) ** 2
        for cls in (SOCInterpolatedHealth, Capacitance, HysteresisParameters, ReferenceOCV, EntropicOCV):
            K.eq(f'{cls.__name__} of whole numbers', cls(base_values=count.copy()).get_value(soc), expected(K, None, count.astype(object), socs))
            for at_end in (0, 1, np.array([0, 1]), np.array([[1, 0], [0, 0]])):
                if n > 1 or np.ndim(at_end):
                    where = np.atleast_2d(at_end)
                    want = vals[:, np.array(where) * (n - 1)]
                    K.eq(f'{cls.__name__} at the ends, {np.shape(at_end)}', cls(base_values=vals.copy()).get_value(at_end), want)
        temp = K.real('T', box=(0, 50))
        f = K.arr('f', (1, 1), box=(-.03, .03))
        r = Resistance(base_values=count.copy(), temperature_dependence_factor=f.copy(), reference_temperature=20)
        ref = expected(K, None, count.astype(object), socs)
        K.eq('resistance of whole numbers', r.get_value(soc, temp), ref * K.exp(-f[0, 0] * (temp - 20)))
        r = Resistance(base_values=vals.copy(), temperature_dependence_factor=1, reference_temperature=20)
        K.eq('resistance of a whole factor', r.get_value(soc, temp), expected(K, None, vals, socs) * K.exp(-(temp - 20)))
        r = Resistance(base_values=vals.copy(), temperature_dependence_factor=f.copy(), reference_temperature=20)
        K.eq('resistance at a whole temperature', r.get_value(soc, 22), expected(K, None, vals, socs) * K.exp(-f[0, 0] * 2))
        ocv = OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=count.copy(), reference_temperature=25),
                                 ocv_ent=EntropicOCV(base_values=vals.copy()))
        K.eq('open circuit voltage of whole numbers', ocv(soc=soc, temp=temp), ref + (temp - 25) * expected(K, None, vals, socs))
        K.eq('open circuit voltage at a whole temperature', ocv(soc=soc, temp=27), ref + 2 * expected(K, None, vals, socs))
        return
    if what == 'order':
        # the places of the values may be given in any order
        x = np.array(PINS[n] if bh == 1 else np.linspace(0, 1, n))
        for order in (np.arange(n)[::-1], np.roll(np.arange(n), 1), np.roll(np.arange(n)[::-1], 1)):
            h = SOCInterpolatedHealth(base_values=vals[:, order].copy(), soc_pinpoints=x[order].copy())
            K.eq(f'values given in the order {list(order)}', h.get_value(soc), expected(K, x, vals, socs))
        return
    if what == 'interp':
        for cls in (SOCInterpolatedHealth, Capacitance, HysteresisParameters):
            h = cls(base_values=vals.copy(), **kw)
            K.eq(f'{cls.__name__} value', h.get_value(soc), expected(K, pins, vals, socs))
        if n > 1:
            x = np.linspace(0, 1, n) if pins is None else np.array(pins)
            K.eq('value at the nodes', h.get_value(x), vals[:, None, :])
        return
    ref = expected(K, None, vals, socs)
    T = temp_arr(K, cfg['temp'])
    Ta = None if T is None else np.asarray(T).reshape((1, 1) if np.ndim(T) == 0 else np.shape(T))
    if what == 'resistance' or what == 'tau':
        rt = 20. if bh == 1 else 0.
        bf = cfg.get('bf', 1)
        f = K.arr('f', (bf, 1), box=(-0.03, 0.03))
        r = Resistance(base_values=vals.copy(), temperature_dependence_factor=f.copy(), reference_temperature=rt)
        B = max(bh, bf)
        bs = socs.shape[0]
        want = np.empty((B if T is not None else bh, max(bs, 1 if T is None else Ta.shape[0]), socs.shape[1]), dtype=vals.dtype)
        for b, i, j in np.ndindex(want.shape):
            want[b, i, j] = at(ref, b, i, j)
            if T is not None:
                want[b, i, j] = want[b, i, j] * K.exp(-at(f, b, 0) * (at(Ta, i, 0) - rt))
        if what == 'resistance':
            got = r.get_value(soc, T)
            got = np.broadcast_to(got, want.shape) if got.shape[0] == 1 else got    # no dependence: one row
            K.eq('resistance', got, want)
        else:
            cv = K.arr('c', (bh, n), pos=True, box=(10, 100))
            c = Capacitance(base_values=cv.copy())
            rc = RCComponent(r=r, c=c)
            K.eq('time constant', rc.time_constant(soc, T), want * expected(K, None, cv, socs))
            a, b = rc.get_value(soc, T)
            K.eq('r of the pair', a, want)
            K.eq('c of the pair', b, expected(K, None, cv, socs))
        return
    # open circuit voltage
    tr = K.arr('tr', (cfg['bt'], 1), box=(10, 40))
    ent = K.arr('ent', (cfg['be'], n), box=(-0.05, 0.05))
    ocv = OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=vals.copy(), reference_temperature=tr.copy()),
                             ocv_ent=EntropicOCV(base_values=ent.copy()))
    e = expected(K, None, ent, socs)
    if T is None:
        want = ref
    else:
        want = np.empty((max(bh, cfg['bt'], cfg['be']),) + socs.shape, dtype=vals.dtype)
        for b, i, j in np.ndindex(want.shape):
            want[b, i, j] = at(ref, b, i, j) + (at(Ta, i, 0) - at(tr, b, 0)) * at(e, b, i, j)
    K.eq('open circuit voltage', ocv.get_value(soc, T), want)
    K.eq('called as a function', ocv(soc=soc, temp=T), want)
