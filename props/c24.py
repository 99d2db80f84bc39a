"""Theoretical energy: the integral of the open circuit voltage over the range of SOC times the capacity, exactly where the curve is
straight and to the accuracy of a hundred points elsewhere, for every member of a batch on its own, whatever the order of the limits.
Templates hold the parameters asked for, every element its own"""
import itertools
import numpy as np
from . import ecmlib
from .frame import Picture, poke, walk
from moirae.models.ecm import ECMASOH, ECMTransientVector, EquivalentCircuitModel
from moirae.models.ecm.components import ReferenceOCV, EntropicOCV, OpenCircuitVoltage, MaxTheoreticalCapacity, Resistance
from moirae.models.ecm.utils import realistic_fake_ocv

LEVEL = 'other'
RUNS = 5
T6 = dict(rtol=1e-6, atol=1e-8)


def configs(tier):
    out = []
    for nodes, batch in itertools.product((1, 2), ((), ('ocv',), ('qt',), ('ocv', 'qt'), ('ocv', 'qt', 'ent', 'tref'))):
        for temp in (False, True):
            for limits in ('default', 'inside', 'free'):
                out.append(dict(what='straight', nodes=nodes, batch=batch, B=2 + (nodes == 2), temp=temp, limits=limits, _interp='exact'))
    for batch in ((), ('ocv',), ('qt', 'ocv'), ('ent', 'qt')):
        for style in ('linear', 'cubic'):
            out.append(dict(what='members', batch=batch, B=2, style=style, temp='ent' in batch))
    for style in ('linear', 'cubic', 'quadratic', 'nearest'):
        for n in (4, 7):
            out.append(dict(what='curved', style=style, n=n, _concrete=True, _runs=10))
    for c0, nrc in itertools.product((True, False), (0, 1, 2, 3)):
        for given in ('nothing', 'numbers', 'everything', 'arrays'):
            out.append(dict(what='template', c0=c0, nrc=nrc, given=given, _interp='exact'))
    for c0, nrc in itertools.product((True, False), (0, 1, 2)):
        for batch in (('qt',), ('CE', 'R0'), ('OCV', 'H0'), ('qt', 'CE', 'OCV', 'R0', 'H0'), ('C0', 'RC')):
            out.append(dict(what='several', c0=c0, nrc=nrc, batch=batch, B=2 + nrc % 2))
    for c0, nrc in itertools.product((True, False), (0, 1, 3)):
        for given in ('nothing', 'number', 'array'):
            out.append(dict(what='state', c0=c0, nrc=nrc, given=given))
    out += [dict(what='refused')]
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def health(K, qt, ocv, ent, tref, style='linear'):
    return ECMASOH(q_t=MaxTheoreticalCapacity(base_values=qt.copy()), r0=Resistance(base_values=.1),
                   ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=ocv.copy(), reference_temperature=tref.copy(),
                                                               **(dict(interpolation_style=style) if ocv.shape[1] > 1 else {})),
                                          ocv_ent=EntropicOCV(base_values=ent.copy())))


def parts(K, cfg, nodes):
    mk = lambda n, w, **k: K.arr(n, (cfg['B'] if n in cfg['batch'] else 1, w), **k)     # noqa: E731
    return dict(qt=mk('qt', 1, pos=True, box=(.5, 20.)), ocv=mk('ocv', nodes, box=(2., 4.5)), ent=mk('ent', 1, box=(-.05, .05)), tref=mk('tref', 1, box=(10., 40.)))


def do_straight(K, cfg):
    p = parts(K, cfg, cfg['nodes'])
    a = health(K, **p)
    lo, hi = {'default': (K.const(0), K.const(1)), 'inside': (K.const(.25), K.const(.75)),
              'free': (K.real('lo', box=(-.2, 1.2)), K.real('hi', box=(-.2, 1.2)))}[cfg['limits']]
    kw, t = {}, None
    if cfg['temp']:
        t = kw['temperature'] = K.real('temp', box=(0., 50.))
    pic = Picture(K, a=a)
    lim = {} if cfg['limits'] == 'default' else dict(soc_limits=(lo, hi))
    got = a.get_theoretical_energy(**lim, **kw)
    B = max(len(v) for v in p.values())
    up = K.decide(hi >= lo)
    x0, x1 = (lo, hi) if up else (hi, lo)

    def energy(b, x0, x1):
        at = {k: v[b if len(v) > 1 else 0] for k, v in p.items()}
        mean = at['ocv'][0] if cfg['nodes'] == 1 else at['ocv'][0] + (at['ocv'][1] - at['ocv'][0]) * (x0 + x1) / 2
        if t is not None:
            mean = mean + (t - at['tref'][0]) * at['ent'][0]
        return mean * (x1 - x0) * at['qt'][0]
    n = B if cfg['temp'] or set(cfg['batch']) & {'ocv', 'qt'} else 1
    if not cfg['temp']:
        n = max(len(p['ocv']), len(p['qt']))
    want = np.array([[energy(b, x0, x1)] for b in range(n)], dtype=p['qt'].dtype)
    got = np.asarray(got)
    K.same('one value per member', len(got), n)
    K.eq('energy', got, want, **T6)
    # order of the limits
    K.eq('energy of the range given downwards', a.get_theoretical_energy(soc_limits=(hi, lo), **kw), want, **T6)
    # additive
    mid = K.real('mid', box=(-.2, 1.2)) if cfg['limits'] == 'free' else K.const(.5)
    K.assume(mid >= x0)
    K.assume(mid <= x1)
    K.eq('additive', a.get_theoretical_energy(soc_limits=(x0, mid), **kw) + a.get_theoretical_energy(soc_limits=(mid, x1), **kw), want, **T6)
    K.eq('nothing in an empty range', a.get_theoretical_energy(soc_limits=(lo, lo), **kw), want * 0)
    pic.check('evaluation')


def do_members(K, cfg):
    p = parts(K, cfg, 4)
    kw = dict(temperature=K.real('temp', box=(0., 50.))) if cfg['temp'] else {}
    got = health(K, **p, style=cfg['style']).get_theoretical_energy(soc_limits=(.125, .875), **kw)
    n = cfg['B'] if cfg['batch'] else 1
    for b in range(n):
        one = {k: v[b:b + 1] if len(v) > 1 else v for k, v in p.items()}
        K.eq(f'member {b}', got[b], health(K, **one, style=cfg['style']).get_theoretical_energy(soc_limits=(.125, .875), **kw)[0], **T6)
    twice = dict(p, qt=p['qt'] * 2)
    K.eq('proportional to the capacity', health(K, **twice, style=cfg['style']).get_theoretical_energy(soc_limits=(.125, .875), **kw), got * 2, **T6)


def do_curved(K, cfg):
    """against the integral of the curve by a fine sum, with the error of the trapezoidal rule at a hundred points"""
    p = parts(K, dict(batch=(), B=1), cfg['n'])
    a = health(K, **p, style=cfg['style'])
    lo, hi = K.real('lo', lo=0., hi=.4), K.real('hi', lo=.6, hi=1.)
    fine = np.linspace(lo, hi, 200001)
    v = a.ocv(fine[None]).reshape(-1)
    integral = float(np.sum((v[1:] + v[:-1]) / 2) * (fine[1] - fine[0]))
    h = (hi - lo) / 99
    slope = np.diff(v) / (fine[1] - fine[0])
    if cfg['style'] == 'nearest':
        bound = h * np.abs(np.diff(v)).sum()
    else:
        bound = h * h / 4 * np.abs(np.diff(slope)).sum() + 1e-7
    got = a.get_theoretical_energy(soc_limits=(lo, hi))
    K.le('integral of the curve', abs(float(np.asarray(got).reshape(-1)[0]) / float(p['qt'][0, 0]) - integral), bound)
    whole = float(np.asarray(a.get_theoretical_energy()).reshape(-1)[0])
    K.eq('the whole range is the default', whole, float(np.asarray(a.get_theoretical_energy((0., 1.))).reshape(-1)[0]))


def alone(K, name, *objs):
    """no two arrays of the objects share memory"""
    arrs = [(p, v) for i, o in enumerate(objs) for p, v in walk(o, str(i)) if isinstance(v, np.ndarray)]
    K.same(name, [(p, q) for i, (p, v) in enumerate(arrs) for q, w in arrs[:i] if np.shares_memory(v, w)], [])


def do_several(K, cfg):
    """a template for several cells holds those of the single ones"""
    c0, nrc, B = cfg['c0'], cfg['nrc'], cfg['B']
    kw = {}
    for n, w in (('qt', 1), ('CE', 1), ('OCV', 3), ('R0', 2), ('H0', 1), ('C0', 2)):
        if n in cfg['batch']:
            kw[n] = K.arr(n, (B, w), pos=True, box=(.5, 4.))
    if 'RC' in cfg['batch']:
        kw['RC'] = [tuple(K.arr(f'{x}{i}', (B, 1 + j), pos=True) for j, x in enumerate('RC')) for i in range(nrc)]
    a = ECMASOH.provide_template(c0, nrc, **kw)
    for b in range(B):
        one = ECMASOH.provide_template(c0, nrc, **{k: [tuple(x[b:b + 1] for x in rc) for rc in v] if k == 'RC' else v[b:b + 1] for k, v in kw.items()})
        K.same('names', one.all_names, a.all_names)
        for n in one.all_names:
            v = a.get_parameters([n])
            K.eq(f'{n} of member {b}', v[b % len(v)], one.get_parameters([n])[0])


def do_template(K, cfg):
    c0, nrc, given = cfg['c0'], cfg['nrc'], cfg['given']
    kw, want = {}, {}
    if given != 'nothing':
        w = 1 if given == 'numbers' else 5 if nrc == 1 else 3
        kw['qt'], kw['CE'] = K.real('qt', pos=True, box=(1., 20.)), K.real('ce', pos=True, box=(.5, 1.5))
        for n in ('OCV', 'R0', 'H0', 'C0'):
            if given == 'everything' or n != 'C0':
                how = dict(pos=True, box=(.01, 4.)) if n == 'C0' else dict(box=(-1., 4.))
                kw[n] = K.real(n, **how) if w == 1 else K.arr(n, (w,), **how)
        if given != 'arrays' and nrc:
            kw['RC'] = [tuple(K.real(f'{t}{i}', pos=True) if w == 1 else K.arr(f'{t}{i}', (w - j,), pos=True) for j, t in enumerate('RC')) for i in range(nrc)]
            if given == 'everything' and nrc > 1:
                kw['RC'][-1] = kw['RC'][0]
    pic = Picture(K, **{k: v for k, v in kw.items() if k != 'RC'}, RC=list(kw.get('RC', ())))
    a = ECMASOH.provide_template(c0, nrc, **kw)
    b = ECMASOH.provide_template(has_C0=c0, num_RC=nrc, **kw)
    K.same('type', type(a), ECMASOH)
    K.same('elements', (a.c0 is not None, len(a.rc_elements)), (c0, nrc))
    row = lambda v: np.atleast_2d(np.asarray(v, dtype=object if K.symbolic else float))     # noqa: E731
    K.eq('capacity', a.q_t.amp_hour, row(kw.get('qt', 10.)))
    K.eq('efficiency', a.ce, row(kw.get('CE', 1.)))
    K.eq('series resistance', a.r0.base_values, row(kw.get('R0', .05)))
    K.eq('hysteresis', a.h0.base_values, row(kw.get('H0', .05)))
    if 'OCV' in kw:
        K.eq('open circuit voltage', a.ocv.ocv_ref.base_values, row(kw['OCV']))
    elif not K.symbolic:
        s = np.linspace(0, 1, 20)
        K.eq('open circuit voltage', a.ocv(s[None]).ravel(), realistic_fake_ocv(s), rtol=1e-3, atol=1e-3)
    if c0:
        if 'C0' in kw:
            K.eq('series capacitance', a.c0.base_values, row(kw['C0']))
        else:
            # a full discharge changes its voltage by 10 mV at most
            K.holds('influence of the series capacitance', a.q_t.value[0, 0] <= a.c0.base_values[0, 0] * .01 * (1 + 1e-9))
    for i, (r, c) in enumerate(kw.get('RC', ())):
        K.eq(f'resistance {i}', a.rc_elements[i].r.base_values, row(r))
        K.eq(f'capacitance {i}', a.rc_elements[i].c.base_values, row(c))
    if 'RC' not in kw:
        for i in range(nrc):
            for v, x in ((a.rc_elements[i].r.base_values, a.rc_elements[0].r.base_values), (a.rc_elements[i].c.base_values, a.rc_elements[0].c.base_values)):
                K.eq(f'default element {i}', v, x)
                K.holds('positive', v[0, 0] > 0)
    # what is given at evenly spread points is followed along straight lines
    for n, part in dict(OCV=a.ocv.ocv_ref, R0=a.r0, H0=a.h0, C0=a.c0).items():
        v = np.atleast_1d(kw.get(n, [])) if part is not None else []
        for j in range(len(v) - 1):
            at = (j + .25) / (len(v) - 1)
            K.eq(f'{n} at {at}', np.asarray(part.get_value(at)).reshape(-1), (v[j] * .75 + v[j + 1] * .25,), rtol=1e-6, atol=1e-8)
    # nothing is shared: neither between elements, nor between cells, nor with the options
    alone(K, 'arrays are separate', a, b, [v for v in kw.values() if isinstance(v, np.ndarray)], *[[v for v in rc if isinstance(v, np.ndarray)] for rc in kw.get('RC', ())][:1])
    pic.check('construction')
    pb = Picture(K, b=b)
    a.mark_all_updatable()
    names = [n for n in a.updatable_names]
    for n in names:
        other = Picture(K, b=b, **{m.replace('.', '_'): a.get_parameters([m]) for m in names if m != n})
        was = {m: a.get_parameters([m]).copy() for m in names}
        a.update_parameters(a.get_parameters([n]) + 1, [n])
        for m in names:
            K.eq(f'{m} after changing {n}', a.get_parameters([m]), was[m] + (m == n))
        other.check(f'changing {n}')
    poke(a)
    pb.check('overwriting another cell')
    pic.check('overwriting the cell')
    K.same('nothing is updatable', tuple(b.updatable_names), ())
    # and neither are the marks
    for n in names:
        b.mark_updatable(n)
        K.same(f'marked {n}', tuple(b.updatable_names), (n,))
        b.mark_all_fixed()
    for n, m in itertools.combinations(names, 2) if given == 'numbers' else ():
        b.mark_updatable(m)
        b.mark_updatable(n)
        K.same(f'marked {n} and {m}', tuple(b.updatable_names), (n, m))
        b.mark_all_fixed()


def do_state(K, cfg):
    c0, nrc, given = cfg['c0'], cfg['nrc'], cfg['given']
    kw = {}
    if given != 'nothing':
        for n in ('soc', 'q0', 'hysteresis'):
            kw[n] = K.real(n)
        if given == 'array':
            kw['i_rc'] = K.arr('i', (nrc,))
        elif not K.symbolic:
            kw['i_rc'] = K.real('i')
    pic = Picture(K, **{k: v for k, v in kw.items()})
    s = ECMTransientVector.provide_template(c0, nrc, **kw)
    row = lambda v: np.atleast_2d(np.asarray(v, dtype=object if K.symbolic else float))     # noqa: E731
    K.eq('soc', s.soc, row(kw.get('soc', 0.)))
    K.same('capacitor', s.q0 is not None, c0)
    if c0:
        K.eq('charge', s.q0, row(kw.get('q0', 0.)))
    i = kw.get('i_rc', 0.)
    K.eq('currents', s.i_rc, row(i if isinstance(i, np.ndarray) else np.ones(nrc) * i))
    K.eq('hysteresis', s.hyst, row(kw.get('hysteresis', 0.)))
    K.same('size', len(s), 2 + c0 + nrc)
    b = ECMTransientVector.provide_template(c0, nrc, **kw)
    alone(K, 'arrays are separate', s, b, [v for v in kw.values() if isinstance(v, np.ndarray)])
    pb = Picture(K, b=b)
    poke(s)
    pic.check('overwriting the state')
    pb.check('overwriting the state')
    z = ECMTransientVector.from_asoh(ECMASOH.provide_template(c0, nrc))
    K.eq('state at rest', z.to_numpy(), np.zeros((1, 2 + c0 + nrc)))
    K.same('names', z.all_names, s.all_names)


def do_refused(K, cfg):
    for n, m in ((1, 2), (2, 1), (3, 2), (2, 0)):
        K.raises(f'{m} elements given for {n}', lambda: ECMASOH.provide_template(False, n, RC=[(K.real(f'r{i}', pos=True), K.real(f'c{i}', pos=True)) for i in range(m)]))
        K.raises(f'{m} currents given for {n}', lambda: ECMTransientVector.provide_template(False, n, i_rc=K.arr(f'i{m}', (m,))))
