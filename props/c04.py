"""Evaluating something leaves what it was given alone, and copies are independent of the original.

Frame conditions.  A picture of every parameter, state, input and array is taken before each operation and compared
with what they are afterwards; for the operations that promise a copy, each side is overwritten in place and the other
side is compared with its picture."""
import contextlib
import numpy as np
from .onlinelib import World, Any, chol_definite
from .ecmlib import Cell, inputs, s
from .frame import Picture, poke, walk
from .trees import random_tree
from moirae.models.ecm import EquivalentCircuitModel, ECMInput, ECMMeasurement, ECMTransientVector, ECMASOH
from moirae.models.ecm.components import OpenCircuitVoltage, ReferenceOCV, Resistance, MaxTheoreticalCapacity
from moirae.models.utils import NoDegradation
from moirae.simulator import Simulator
from moirae.estimators.online.filters.conversions import (IdentityConversionOperator, LinearConversionOperator,
                                                          AbsoluteValueConversionOperator)
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite, calculate_gain_matrix
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator

LEVEL = 'other'
RUNS = 3
BUDGET = 90.


def configs(tier):
    out = []
    for B in (1, 2):
        for nrc in (0, 1, 2):
            for mode in ('constant', 'linear'):
                out.append(dict(what='ecm', B=B, nrc=nrc, mode=mode, width=1 + (nrc + B) % 3))
    for k in range(6 if tier == 'quick' else 30):
        for kind in ('leaf', 'wide', 'node', 'top'):
            out.append(dict(what='health', kind=kind, seed=1000 + k, B=1 + k % 2))
    for B in (1, 2, 3):
        for c0 in (False, True):
            out.append(dict(what='container', B=B, nrc=B - 1, c0=c0))
    for B in (1, 2):
        for keep in (False, True):
            for nrc in (0, 2):
                out.append(dict(what='simulator', B=B, keep=keep, nrc=nrc))
    out += [dict(what='conversion', n=n) for n in (1, 2, 3)]
    out += [dict(what='distribution', n=n) for n in (1, 2, 3)]
    out += [dict(what='filter', n=n, m=m) for n, m in ((1, 1), (2, 1), (1, 2), (2, 2))]
    out += [dict(what='wrapper', kind=k, nrc=n, mode=m) for k in ('cell', 'degradation', 'joint') for n in (0, 2)
            for m in ('constant', 'linear')]
    out += [dict(what='defaults', nrc=n) for n in (1, 3)]
    out += [dict(what='estimator', kind=k, norm=n, nrc=r, _concrete=True) for k in ('joint', 'dual') for n in (False, True) for r in (0, 1, 2)]
    out += [dict(what='owned', kind=k, norm=n, nrc=1, _concrete=True) for k in ('joint', 'dual') for n in (False, True)]
    for k in ('joint', 'dual'):
        for norm in (False, True):
            for nz, sel, steps, by in ((0, ('p',), 1, 'code'), (1, ('p', 'part.r'), 3, 'contract'), (2, ('q', 'k', 'part.s'), 2, 'contract')):
                out.append(dict(what='any estimator', kind=k, norm=norm, nz=nz, sel=sel, steps=steps, filter=by))
                out.append(dict(what='any owned', kind=k, norm=norm, nz=nz, sel=sel, steps=steps, filter=by))
    out += [dict(what='offline', nrc=r, _concrete=True) for r in (0, 1, 2)]
    out += [dict(what='online run', kind=k, _concrete=True) for k in ('joint', 'dual')]
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what'].replace(' ', '_')](K, cfg)


ALL = ('qt', 'ce', 'ocv', 'r0', 'r0t', 'c0', 'ra', 'rt', 'ca', 'gamma', 'soc', 'q0', 'irc', 'hyst', 'ent', 'tref')


def cell_of(K, cfg, tdf='nonzero'):
    w = cfg.get('width', 1)
    return Cell(K, nrc=cfg.get('nrc', 0), c0=cfg.get('c0', True), B=cfg.get('B', 1), batch=ALL if cfg.get('B', 1) > 1 else (),
                widths=dict(ocv=w, ent=w, r0=w, h0=w, r=w, c=w, c0=w), tdf=tdf)


def some_inputs(K, n, temp=True):
    t = K.real('t', box=(0, 100))
    out = [inputs(K, '', t, K.real('I0', box=(-3, 3)), K.real('T0', box=(10, 40)) if temp else None)]
    for k in range(1, n):
        t = t + K.real(f'dt{k}', box=(1, 50), pos=True)
        out.append(inputs(K, '', t, K.real(f'I{k}', box=(-3, 3)), K.real(f'T{k}', box=(10, 40)) if temp else None))
    return out


def do_ecm(K, cfg):
    cell = cell_of(K, cfg)
    asoh, state = cell.asoh(), cell.state()
    prev, new = some_inputs(K, 2)
    soc, temp = K.arr('soc_', (2, 1), box=(0, 1)), K.real('T_', box=(0, 50))
    model = EquivalentCircuitModel(cfg['mode'])
    pic = Picture(K, asoh=asoh, state=state, previous=prev, new=new, soc=soc)
    after = model.update_transient_state(prev, new, state, asoh)
    pic.check('update')
    volt = model.calculate_terminal_voltage(new, state, asoh)
    pic.check('terminal voltage')
    asoh.ocv(soc, temp)
    pic.check('open-circuit voltage')
    if cfg['B'] == 1 or cfg['width'] > 1:
        asoh.ocv(soc[:1, 0], None)
        pic.check('open-circuit voltage of a vector')
    asoh.r0.get_value(soc, temp=temp)
    asoh.c0.get_value(soc)
    asoh.h0.get_value(soc)
    asoh.ocv.ocv_ref.get_value(soc)
    asoh.ocv.ocv_ent.get_value(soc)
    for rc in asoh.rc_elements:
        rc.time_constant(soc, temp)
        rc.r.get_value(soc, temp=temp)
        rc.c.get_value(soc)
    pic.check('component values')
    asoh.get_theoretical_energy() if cfg['width'] == 1 else None
    asoh.q_t.value, asoh.q_t.amp_hour
    pic.check('energy and capacity')
    NoDegradation().update_asoh(asoh, new, state, volt)
    pic.check('degradation')
    # the same arguments give the same result again
    again = model.update_transient_state(prev, new, state, asoh)
    K.eq('same state when repeated', again.to_numpy(), after.to_numpy())
    K.eq('same voltage when repeated', model.calculate_terminal_voltage(new, state, asoh).to_numpy(), volt.to_numpy())
    # the new state is a new object
    poke(after, volt)
    pic.check('results overwritten')


def do_health(K, cfg):
    spec, rng = random_tree(K, cfg['seed'], cfg['kind'], cfg['B'])
    obj = spec.build()
    pic = Picture(K, obj=obj)
    names = list(obj.updatable_names)
    total = obj.num_updatable
    read = obj.get_parameters()
    every = obj.get_parameters(list(obj.all_names))
    obj.expand_names(obj.all_names)
    pic.check('reading')
    poke(read, every)
    pic.check('vectors read overwritten')
    if not total:
        return
    B = obj.batch_size
    new = K.arr('new', (B, total), box=(-5, 5))
    vec = Picture(K, new=new)
    copy = obj.make_copy(new)
    pic.check('making a copy')
    vec.check('making a copy')
    pc = Picture(K, copy=copy)
    poke(copy)
    pic.check('copy overwritten')
    vec.check('copy overwritten')
    copy = obj.make_copy(new)
    pc = Picture(K, copy=copy)
    poke(new)
    pc.check('vector overwritten after copying')
    copy.mark_all_fixed()
    pic.check('copy marked')
    poke(obj)
    obj.mark_all_updatable()
    copy = spec.build()
    new2 = K.arr('new2', (B, total), box=(-5, 5))
    vec = Picture(K, new=new2)
    copy.update_parameters(new2, names)
    vec.check('updating')
    pc = Picture(K, copy=copy)
    poke(new2)
    pc.check('vector overwritten after updating')
    n = names[0]
    x = K.arr('x', (1, copy.get_parameters([n]).shape[1]))
    copy.set_value(n, x)
    pc = Picture(K, copy=copy)
    poke(x)
    pc.check('value overwritten after setting')


def do_container(K, cfg):
    cell = cell_of(K, cfg)
    for label, obj in [('state', cell.state()), ('input', some_inputs(K, 1)[0]),
                       ('measurement', ECMMeasurement(terminal_voltage=K.arr('v', (cfg['B'], 1))))]:
        pic = Picture(K, obj=obj)
        arr = obj.to_numpy()
        obj.all_names, obj.expand_names(obj.all_fields), len(obj), obj.batch_size
        pic.check(f'{label}: reading')
        poke(arr)
        pic.check(f'{label}: array overwritten')
        new = K.arr(f'{label}new', (2, len(obj)))
        vec = Picture(K, new=new)
        copy = obj.make_copy(new)
        pic.check(f'{label}: copying')
        pc = Picture(K, copy=copy)
        poke(new)
        pc.check(f'{label}: array overwritten after copying')
        poke(copy)
        pic.check(f'{label}: copy overwritten')
        new = K.arr(f'{label}new2', (3, len(obj)))
        vec = Picture(K, new=new)
        obj.from_numpy(new)
        vec.check(f'{label}: loading')
        pc = Picture(K, obj=obj)
        poke(new)
        pc.check(f'{label}: array overwritten after loading')
        flat = K.arr(f'{label}flat', (len(obj),))
        obj.from_numpy(flat)
        pc = Picture(K, obj=obj)
        vec = Picture(K, flat=flat)
        poke(obj)
        vec.check(f'{label}: object overwritten after loading')
        given = K.arr(f'{label}given', (2, 1))
        if label == 'measurement':
            made = ECMMeasurement(terminal_voltage=given)
        elif label == 'state':
            made = ECMTransientVector(soc=given)
        else:
            made = ECMInput(time=given)
        pc = Picture(K, made=made)
        poke(given)
        pc.check(f'{label}: array overwritten after construction')


def do_simulator(K, cfg):
    cell = cell_of(K, cfg, tdf='zero')
    asoh, state = cell.asoh(), cell.state()
    ins = some_inputs(K, 4)
    for i in (1, 2, 3):      # the current keeps its sign: the other cases are those of a single step
        K.assume(s(ins[i].current) > 0)
    K.assume(s(ins[0].current) > 0)
    pic = Picture(K, asoh=asoh, state=state, inputs=ins)
    sim = Simulator(EquivalentCircuitModel(), asoh, state, ins[0], keep_history=cfg['keep'])
    sim.step(ins[1])
    pic.check('one step')
    sim.evolve(ins[2:])
    pic.check('evolving')
    hist = {k: list(getattr(sim, k)) for k in ('input_history', 'transient_history', 'measurement_history')} if cfg['keep'] else {}
    if cfg['keep'] and not K.symbolic:
        hp = Picture(K, history=hist)
        sim.to_dataframe()
        sim.to_batdata()
        hp.check('tables')
    # what the caller does with its objects afterwards has no influence on the simulation
    inner = Picture(K, asoh=sim.asoh, transient=sim.transient, previous=sim.previous_input, history=hist)
    poke(asoh, state, ins)
    inner.check('caller overwrites the objects it gave')
    fresh = Simulator(EquivalentCircuitModel(), cell.asoh(), cell.state(), some_inputs(K, 1)[0], keep_history=cfg['keep'])
    first = {k: list(getattr(fresh, k)) for k in ('input_history', 'transient_history', 'asoh_history', 'measurement_history')} if cfg['keep'] else {}
    fp = Picture(K, first=first)
    poke(fresh.asoh, fresh.transient, fresh.previous_input, fresh.measurement)
    fp.check('current state overwritten')


def do_conversion(K, cfg):
    n = cfg['n']
    x, P, X = K.arr('x', (n,)), K.mat('P', n), K.arr('X', (3, n))
    m, b = K.arr('m', (n,), pos=True), K.arr('b', (n,))
    for label, op in [('identity', IdentityConversionOperator()),
                      ('scaling', LinearConversionOperator(multiplicative_array=m, additive_array=b)),
                      ('absolute value', AbsoluteValueConversionOperator()),
                      ('absolute value of some', AbsoluteValueConversionOperator(indices=[n - 1]))]:
        pic = Picture(K, x=x, X=X, P=P, m=m, b=b)
        op.transform_samples(x)
        op.transform_samples(X)
        op.transform_covariance(P, x)
        op.inverse_transform_samples(x)
        op.inverse_transform_samples(X)
        op.inverse_transform_covariance(P, x)
        pic.check(label)


def do_distribution(K, cfg):
    n = cfg['n']
    x, P = K.arr('x', (n,)), K.mat('P', n)
    y, Q = K.arr('y', (2,)), K.mat('Q', 2)
    m = K.arr('m', (n,), pos=True)
    op = LinearConversionOperator(multiplicative_array=m, additive_array=K.arr('b', (n,)))
    g, h, d = MultivariateGaussian(mean=x, covariance=P), MultivariateGaussian(mean=y, covariance=Q), DeltaDistribution(mean=y.copy())
    pic = Picture(K, g=g, h=h, d=d, x=x, P=P, m=m)
    outs = [g.get_mean(), g.get_covariance(), d.get_mean(), d.get_covariance(), h.get_mean(), h.get_covariance()]
    poke(*outs)
    pic.check('moments overwritten')
    c, dc = g.combine_with((h,)), d.combine_with((DeltaDistribution(mean=x.copy()),))
    pic.check('combining')
    poke(c, dc)
    pic.check('combination overwritten')
    a, b = g.convert(op), g.convert(op, inverse=True)
    g.convert(AbsoluteValueConversionOperator())
    pic.check('converting')
    poke(a, b)
    pic.check('converted overwritten')
    a, b = g.convert(AbsoluteValueConversionOperator()), g.convert(IdentityConversionOperator())
    poke(a, b)
    pic.check('absolute value and identity overwritten')


class Plain:
    """linear model"""

    def __init__(self, K, n, m):
        self.A, self.C = K.mat('A', n), K.mat('C', n, m)
        self.num_hidden_dimensions, self.num_output_dimensions = n, m

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return np.matmul(hidden_states, self.A)

    def predict_measurement(self, hidden_states, controls):
        return np.matmul(hidden_states, self.C)


def do_filter(K, cfg):
    n, m = cfg['n'], cfg['m']
    mean = K.arr('mean', (n,))
    diag = lambda v: (np.diag(v) if not K.symbolic else _diag(v))    # noqa: E731
    P, W, V = (diag(K.arr(k, (d,), pos=True, box=(.5, 2))) for k, d in (('P', n), ('W', n), ('V', m)))
    u = K.arr('u', (2,))
    hid, con = MultivariateGaussian(mean=mean, covariance=P), DeltaDistribution(mean=u)
    new, y = DeltaDistribution(mean=K.arr('u1', (2,))), DeltaDistribution(mean=K.arr('y', (m,)))
    pic = Picture(K, mean=mean, P=P, W=W, V=V, hidden=hid, controls=con, new=new, y=y)
    f = UnscentedKalmanFilter(Plain(K, n, m), hid, con, covariance_process_noise=W, covariance_sensor_noise=V)
    pic.check('construction')
    own = Picture(K, hidden=f.hidden, controls=f.controls, w=f.cov_w, v=f.cov_v)
    sp = f.build_sigma_points()
    own.check('sigma points')
    sps = Picture(K, sp=sp)
    xk, yk, cxy = f.estimation_update(sp, new)
    own.check('prediction')
    pic.check('prediction')
    sps.check('prediction')
    mid = Picture(K, xk=xk, yk=yk, cxy=cxy)
    if m == 1 and n == 1 or not K.symbolic:
        f.correction_update(xk, yk, cxy, y)
        mid.check('correction')
        pic.check('correction')
        est, out = f.step(new, y)
        pic.check('step')
        own = Picture(K, hidden=f.hidden, controls=f.controls, w=f.cov_w, v=f.cov_v)
        poke(est, out, new, y, W, V, mean)
        own.check('results and arguments of the step overwritten')
    ensure_positive_semi_definite(P)
    calculate_gain_matrix(cxy, V)
    fresh = UnscentedKalmanFilter(Plain(K, n, m), hid, con, covariance_process_noise=W, covariance_sensor_noise=V)
    own = Picture(K, hidden=fresh.hidden, controls=fresh.controls, w=fresh.cov_w, v=fresh.cov_v)
    poke(W, V, hid, con)
    own.check('arguments of the constructor overwritten')


def _diag(v):
    from vc import shim
    return shim.diag(v)


def do_wrapper(K, cfg):
    cell = Cell(K, nrc=cfg['nrc'], c0=False, tdf='zero')
    asoh, state = cell.asoh(), cell.state()
    asoh.mark_updatable('r0.base_values')
    asoh.mark_updatable('ce')
    prev, new = some_inputs(K, 2)
    K.assume(s(prev.current) > 0)
    K.assume(s(new.current) > 0)
    kind = {'cell': CellModelWrapper, 'degradation': DegradationModelWrapper, 'joint': JointCellModelWrapper}[cfg['kind']]
    wr = kind(EquivalentCircuitModel(cfg['mode']), asoh, state, prev)
    nh = wr.num_hidden_dimensions
    H = K.arr('H', (2, nh), box=(0.1, 1.), pos=True)
    u0, u1 = prev.to_numpy()[0], new.to_numpy()[0]
    pic = Picture(K, asoh=asoh, state=state, previous=prev, new=new, H=H, u0=u0, u1=u1)
    out = wr.update_hidden_states(H, u0, u1)
    pic.check('update')
    y = wr.predict_measurement(H, u1)
    pic.check('prediction')
    poke(out, y)
    pic.check('results overwritten')
    out2 = wr.update_hidden_states(H, u0, u1)
    y2 = wr.predict_measurement(H, u1)
    K.eq('repeated update', out2 + 1000, out)
    K.eq('repeated prediction', y2 + 1000, y)


def do_defaults(K, cfg):
    """objects built separately share no parameters, templates included"""
    def make():
        return (ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=3.)),
                        r0=Resistance(base_values=.1)),
                ECMASOH.provide_template(has_C0=True, num_RC=cfg['nrc']),
                ECMASOH.provide_template(has_C0=False, num_RC=cfg['nrc'], RC=[(.1, 10.)] * cfg['nrc'], OCV=3.),
                ECMTransientVector.provide_template(has_C0=True, num_RC=cfg['nrc']), ECMInput(), ECMTransientVector())
    one, two = make(), make()
    pic = Picture(K, two=two)
    poke(one)
    for o in one[:3]:
        o.mark_all_updatable()
        o.update_parameters(K.arr('w', (1, o.num_updatable)))
        K.eq('each parameter holds its own value', o.get_parameters(), K.arr('w', (1, o.num_updatable)))
    pic.check('other object changed')
    # elements of one object are independent of each other
    for o in two[1:3]:
        for i in range(cfg['nrc']):
            rest = Picture(K, others=[rc for j, rc in enumerate(o.rc_elements) if j != i])
            poke(o.rc_elements[i])
            rest.check(f'element {i} changed')


def estimator_of(K, cfg, cell, ins, asoh, state):
    nt, na = len(state), asoh.num_updatable
    kw = dict(covariance_transient=np.diag(np.full(nt, 1e-4)), covariance_asoh=np.diag(np.full(na, 1e-6)),
              transient_covariance_process_noise=np.diag(np.full(nt, 1e-8)), asoh_covariance_process_noise=np.diag(np.full(na, 1e-10)),
              covariance_sensor_noise=np.diag([1e-4]))
    cls = JointEstimator if cfg['kind'] == 'joint' else DualEstimator
    est = cls.initialize_unscented_kalman_filter(cell_model=EquivalentCircuitModel(), initial_asoh=asoh, initial_transients=state,
                                                 initial_inputs=ins, normalize_asoh=cfg.get('norm', False), **kw)
    return est, kw


def do_estimator(K, cfg):
    cell = Cell(K, nrc=cfg['nrc'], c0=False, tdf='zero', widths=dict(ocv=3))
    asoh, state = cell.asoh(), cell.state()
    for n in ('r0.base_values', 'q_t.base_values'):
        asoh.mark_updatable(n)
    ins = some_inputs(K, 4)
    pic0 = Picture(K, asoh=asoh, state=state, ins=ins)
    est, kw = estimator_of(K, cfg, cell, ins[0], asoh, state)
    pic = Picture(K, asoh=asoh, state=state, ins=ins, **kw)
    pic0.check('construction')
    meas = [ECMMeasurement(terminal_voltage=K.real(f'v{i}', box=(3, 4))) for i in range(3)]
    mp = Picture(K, meas=meas)
    for i in range(3):
        st, out = est.step(ins[1 + i], meas[i])
        mean, cov = est.state.get_mean(), est.state.get_covariance()
        poke(st, out, est.state)
        tr, ah = est.get_estimated_state()
        poke(tr, ah)
        K.eq('state after overwriting what the step returned', est.state.get_mean(), mean)
        K.eq('covariance after overwriting what the step returned', est.state.get_covariance(), cov)
        K.eq('estimate after overwriting the previous one', est.get_estimated_state()[0].to_numpy()[0], mean[:len(state)])
        pic.check(f'step {i}')
        mp.check(f'step {i}')


def do_owned(K, cfg):
    """what the caller does with the objects it made the estimator from makes no difference to it"""
    cell = Cell(K, nrc=cfg['nrc'], c0=False, tdf='zero', widths=dict(ocv=3))
    ins = some_inputs(K, 3)
    meas = [ECMMeasurement(terminal_voltage=K.real(f'v{i}', box=(3, 4))) for i in range(2)]
    ests = []
    for spoilt in (False, True):
        asoh, state = cell.asoh(), cell.state()
        for n in ('r0.base_values', 'q_t.base_values'):
            asoh.mark_updatable(n)
        first = some_inputs(K, 1)[0]
        est, kw = estimator_of(K, cfg, cell, first, asoh, state)
        if spoilt:
            poke(asoh, state, first, *kw.values())
        ests.append(est)
    for i in range(3):
        K.eq(f'state {i}', ests[1].state.get_mean(), ests[0].state.get_mean())
        K.eq(f'covariance {i}', ests[1].state.get_covariance(), ests[0].state.get_covariance())
        (t1, a1), (t0, a0) = ests[1].get_estimated_state(), ests[0].get_estimated_state()
        K.eq(f'estimated state {i}', t1.to_numpy(), t0.to_numpy())
        for (name, v), (_, w) in zip(a1.iter_parameters(updatable_only=False), a0.iter_parameters(updatable_only=False)):
            K.eq(f'estimated {name} {i}', v, w)
        if i < 2:
            (_, o1), (_, o0) = [est.step(ins[1 + i], meas[i]) for est in ests]
            K.eq(f'output {i}', o1.get_mean(), o0.get_mean())
            K.eq(f'output covariance {i}', o1.get_covariance(), o0.get_covariance())


def keep(Sig):
    return Sig.copy()


@contextlib.contextmanager
def callees(K, cfg):
    """proofs: a step of the filter is some function of what the filter holds and is given, and leaves it alone (the contract
    discharged in the configurations `filter`)"""
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=keep):
        if not (K.symbolic and cfg['filter'] == 'contract'):
            yield
            return
        was = UnscentedKalmanFilter.step
        UnscentedKalmanFilter.step = some_step
        try:
            yield
        finally:
            UnscentedKalmanFilter.step = was


def some_step(self, new_controls, measurements, **kw):
    from vc import terms as T
    u0, u1 = self.controls.get_mean(), new_controls.get_mean()
    x = self.model.update_hidden_states(np.array([self.hidden.get_mean()]), u0, u1, **kw)
    y = self.model.predict_measurement(x, u1, **kw)
    args = [T.lift(v) for a in (self.hidden.get_mean(), self.hidden.get_covariance(), x, y, u0, u1, measurements.get_mean(), self.cov_w, self.cov_v)
            for v in np.asarray(a).reshape(-1)]
    n, m = x.shape[1], np.atleast_2d(y).shape[1]

    def some(tag, *shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = T.app(f'step {tag}', str(tuple(sorted(i))), *args)
        return out
    self.hidden = MultivariateGaussian(mean=some('mean', n), covariance=some('cov', n, n))
    self.controls = new_controls.model_copy(deep=True)
    return self.hidden.model_copy(deep=True), MultivariateGaussian(mean=some('output', m), covariance=some('output cov', m, m))


def any_estimator(K, cfg, w):
    """estimator of any model, and what it was made from"""
    n, na = w.nt, w.na
    made = dict(initial_asoh=w.asoh(), initial_transients=w.state(), initial_inputs=w.inputs(),
                covariance_transient=chol_definite(K, 'Pt', n)[1], covariance_asoh=chol_definite(K, 'Pa', na)[1],
                transient_covariance_process_noise=chol_definite(K, 'Wt', n)[1], asoh_covariance_process_noise=chol_definite(K, 'Wa', na)[1],
                covariance_sensor_noise=chol_definite(K, 'V', w.m)[1])
    cls = JointEstimator if cfg['kind'] == 'joint' else DualEstimator
    return cls.initialize_unscented_kalman_filter(cell_model=w.model, normalize_asoh=cfg['norm'], **made), made


def any_world(K, cfg):
    w = World(K, nz=cfg['nz'], updatable=cfg['sel'], pos=True)
    w.model = Any(cfg['nz'])
    return w


def do_any_estimator(K, cfg):
    w = any_world(K, cfg)
    with callees(K, cfg):
        est, made = any_estimator(K, cfg, w)
        pic = Picture(K, **made)
        for i in range(cfg['steps']):
            u, y = w.inputs(w.controls(f'u{i + 1}')), w.outputs(K.arr(f'y{i}', (w.m,)))
            given = Picture(K, u=u, y=y)
            st, out = est.step(u, y)
            pic.check(f'step {i}')
            given.check(f'step {i}')
            mean, cov, (tr, ah) = est.state.get_mean().copy(), est.state.get_covariance().copy(), est.get_estimated_state()
            tr, ah = tr.to_numpy().copy(), ah.get_parameters(w.names).copy()
            poke(st, out, est.state, *est.get_estimated_state(), u, y)
            K.eq(f'state after overwriting what the step returned {i}', est.state.get_mean(), mean)
            K.eq(f'covariance after overwriting what the step returned {i}', est.state.get_covariance(), cov)
            t2, a2 = est.get_estimated_state()
            K.eq(f'estimate after overwriting the previous one {i}', t2.to_numpy(), tr)
            K.eq(f'estimated health after overwriting the previous one {i}', a2.get_parameters(w.names), ah)
            pic.check(f'results of step {i} overwritten')


def do_any_owned(K, cfg):
    """what the caller does with the objects it made the estimator from, or gave to a step, makes no difference to it"""
    w = any_world(K, cfg)
    with callees(K, cfg):
        ests = []
        for spoilt in (False, True):
            est, made = any_estimator(K, cfg, w)
            if spoilt:
                poke(*made.values())
            ests.append(est)
        for i in range(cfg['steps'] + 1):
            K.eq(f'state {i}', ests[1].state.get_mean(), ests[0].state.get_mean())
            K.eq(f'covariance {i}', ests[1].state.get_covariance(), ests[0].state.get_covariance())
            (t1, a1), (t0, a0) = ests[1].get_estimated_state(), ests[0].get_estimated_state()
            K.eq(f'estimated state {i}', t1.to_numpy(), t0.to_numpy())
            for (name, v), (_, o) in zip(a1.iter_parameters(updatable_only=False), a0.iter_parameters(updatable_only=False)):
                K.eq(f'estimated {name} {i}', v, o)
            if i < cfg['steps']:
                u, y = w.controls(f'u{i + 1}'), K.arr(f'y{i}', (w.m,))
                outs = []
                for j, e in enumerate(ests):
                    ui, yi = w.inputs(u), w.outputs(y)
                    outs.append(e.step(ui, yi)[1])
                    if j:
                        poke(ui, yi)
                K.eq(f'output {i}', outs[1].get_mean(), outs[0].get_mean())
                K.eq(f'output covariance {i}', outs[1].get_covariance(), outs[0].get_covariance())


def do_offline(K, cfg):
    from moirae.estimators.offline.loss import MeanSquaredLoss
    from moirae.estimators.offline.scipy import ScipyMinimizer
    cell = Cell(K, nrc=cfg['nrc'], c0=False, tdf='zero')
    asoh, state = cell.asoh(), cell.state()
    asoh.mark_updatable('r0.base_values')
    ds = dataset(K, 8)
    loss = MeanSquaredLoss(EquivalentCircuitModel(), asoh, state, ds)
    x = np.repeat(loss.get_x0()[None, :], 3, axis=0)
    x[1] *= 1.01
    pic = Picture(K, asoh=asoh, state=state, x=x, raw=ds.tables['raw_data'], own_asoh=loss.asoh, own_state=loss.state)
    y = loss(x)
    pic.check('loss')
    K.eq('same loss when repeated', loss(x), y)
    ScipyMinimizer(loss, method='Nelder-Mead', options=dict(maxiter=5)).estimate()
    pic.check('minimisation')


def dataset(K, n):
    import pandas as pd
    from battdat.data import CellDataset
    t = np.cumsum(np.array([0.] + [K.real(f'ddt{i}', box=(1., 30.), pos=True) for i in range(n - 1)]))
    return CellDataset(raw_data=pd.DataFrame(dict(
        test_time=t, current=[K.real(f'di{i}', box=(-2, 2)) for i in range(n)], voltage=[K.real(f'dv{i}', box=(3, 4)) for i in range(n)],
        cycle_number=[i // 4 for i in range(n)])))


def do_online_run(K, cfg):
    from moirae.interface import run_online_estimate
    cell = Cell(K, nrc=1, c0=False, tdf='zero')
    asoh, state = cell.asoh(), cell.state()
    asoh.mark_updatable('r0.base_values')
    ins = inputs(K, '', 0., K.real('I0', box=(-2, 2)), 25.)
    est, kw = estimator_of(K, cfg, cell, ins, asoh, state)
    ds = dataset(K, 6)
    pic = Picture(K, asoh=asoh, state=state, ins=ins, raw=ds.tables['raw_data'], **kw)
    run_online_estimate(ds, est)
    pic.check('run')
