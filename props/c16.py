"""The joint estimator: every sample is evaluated by the model with its own transient state and health parameters, in the
coordinates of the model; the filter starts from the given values and covariances; what is reported is in the coordinates of
the model; normalization changes none of it"""
import itertools
import numpy as np
from .frame import Picture
from .onlinelib import World, Poly, Fade, Wear, operator, solve_rows, chol_definite, unscented
from .ukflib import definite, sym, blocks, inverse
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.filters.base import BaseFilter
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.utils.model import JointCellModelWrapper

LEVEL = 'other'
RUNS = 4
BUDGET = 90.
TOL = 30.
T6 = dict(rtol=1e-6, atol=1e-7)
SELECT = {'default': (('p', 'part.r'), None), 'list': (('q', 'k'), None), 'all': (('p', 'q', 'part.r', 'part.s', 'k'), None),
          'subset': (('p', 'q', 'part.r'), ('q',)), 'permuted': (('p', 'q', 'part.s'), ('part.s', 'p')), 'none': ((), None)}


def configs(tier):
    out = []
    for sel in SELECT:
        for hid, con, meas in (('id', 'id', 'id'), ('diag', 'bias', 'diag+bias'), ('full+bias', 'full', 'full'), ('diag+bias', 'id', 'full+bias')):
            for rows in (1, 3):
                if 'full' in hid and sel in ('all',):
                    continue
                out.append(dict(what='wrapper', sel=sel, hid=hid, con=con, meas=meas, rows=rows, nz=rows % 2, extra=con != 'id', more=sel != 'all',
                                wear='wear' if rows == 3 or hid == 'diag+bias' else 'fade' if 'full' in hid else 'no'))
    for sel in ('default', 'list', 'permuted', 'subset'):
        for hid, con, meas in (('id', 'id', 'id'), ('diag+bias', 'full', 'diag'), ('full', 'diag+bias', 'full')):
            for cov in ('joint', 'parts'):
                for noise in ('joint', 'parts', 'none', 'half'):
                    out.append(dict(what='start', sel=sel, hid=hid, con=con, meas=meas, cov=cov, noise=noise, nz=1, extra=True, more=True,
                                    uncertain=noise == 'parts'))
    for norm, cov, noise in itertools.product((False, True), ('joint', 'parts'), ('joint', 'parts', 'none')):
        out.append(dict(what='begin', norm=norm, cov=cov, noise=noise, sel='list', nz=1, extra=False, more=True, uncertain=cov == 'joint'))
        out.append(dict(what='begin', norm=norm, cov=cov, noise=noise, sel='default', nz=0, extra=True, more=False, uncertain=False))
    for sel in ('default', 'permuted'):
        for hid, con, meas in (('id', 'id', 'id'), ('diag+bias', 'full', 'diag'), ('full', 'diag+bias', 'full+bias')):
            out.append(dict(what='step', sel=sel, hid=hid, con=con, meas=meas, nz=1, extra=True, more=True))
    for sel, nz, more in (('one', 0, False), ('one', 0, True), ('default', 0, False), ('list', 1, True), ('all', 2, True)):
        for hid in ('id', 'diag', 'full'):
            if sel == 'one' and not more:
                for curved in (False,):
                    out.append(dict(what='run', sel=sel, nz=nz, extra=False, more=more, hid=hid, con='diag+bias', meas='diag+bias', steps=1, curved=curved))
            out.append(dict(what='run', sel=sel, nz=nz, extra=False, more=more, hid=hid, con='diag+bias', meas='diag+bias', steps=4, _concrete=True))
    for sel, nz, more in (('one', 0, False), ('default', 0, False), ('list', 1, True), ('all', 2, True)):
        for noise in ('parts', 'joint'):
            if sel == 'one':
                out.append(dict(what='normal', sel=sel, nz=nz, extra=False, more=more, noise=noise, steps=1))
            out.append(dict(what='normal', sel=sel, nz=nz, extra=False, more=more, noise=noise, steps=1 if sel == 'one' else 4,
                            _concrete=sel != 'one', curved=sel != 'one'))
    for nrc in (0, 1, 2):
        out.append(dict(what='ecm', nrc=nrc, steps=4, _concrete=True))
    # the same of any model
    for o in [o for o in out if not o.get('_concrete')]:
        if o['what'] == 'wrapper' or o['what'] == 'run' and o['hid'] != 'full':
            out.append(dict(o, any=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def world(K, cfg, **kw):
    up, names = {**SELECT, 'one': (('p',), None)}[cfg['sel']]
    return World(K, cfg['nz'], cfg['extra'], cfg['more'], updatable=up, names=names, curved=cfg.get('curved', True), any_model=cfg.get('any', False), **kw)


def wrapper(K, cfg, w, cls=JointCellModelWrapper, n=None, **kw):
    n = w.nt + w.na if n is None else n
    ops = dict(hidden=operator(K, cfg['hid'], n, 'H'), control=operator(K, cfg['con'], w.nu, 'C'), output=operator(K, cfg['meas'], w.m, 'O'))
    a, s, u = w.asoh(), w.state(), w.inputs()
    names = kw.pop('names', SELECT.get(cfg['sel'], (0, None))[1])
    if names is not None:
        kw['asoh_inputs'] = names
    wr = cls(w.model, a, s, u, converters={f'{k}_conversion_operator': o[0] for k, o in ops.items()}, **kw)
    return wr, {k: o[1:] for k, o in ops.items()}, (a, s, u)


def do_wrapper(K, cfg):
    w = world(K, cfg)
    kw = {'no': {}, 'fade': dict(degradation_model=Fade()), 'wear': dict(degradation_model=Wear())}[cfg['wear']]
    wr, ops, given = wrapper(K, cfg, w, **kw)
    n, k = w.nt + w.na, cfg['rows']
    (HM, Hb), (CM, Cb), (OM, Ob) = ops['hidden'], ops['control'], ops['output']
    K.same('dimensions', (wr.num_hidden_dimensions, wr.num_output_dimensions), (n, w.m))
    X, u0, u1 = K.arr('X', (k, n)), K.arr('c0', (w.nu,)), K.arr('c1', (w.nu,))
    pic = Picture(K, asoh=given[0], state=given[1], inputs=given[2], X=X, u0=u0, u1=u1)
    kept = templates(wr)
    got = wr.update_hidden_states(X, u0, u1)
    pic.check('update')
    out = wr.predict_measurement(X, u1)
    pic.check('prediction')
    for a, b in zip(templates(wr), kept):
        K.eq('values kept by the wrapper', a, b)
    raw, m0, m1 = np.matmul(X, HM) + Hb, np.matmul(u0, CM) + Cb, np.matmul(u1, CM) + Cb
    want, meas = raw.copy(), []
    for i in range(k):
        x, h = raw[i, :w.nt], raw[i, w.nt:]
        want[i, :w.nt] = w.f(x, m0, m1, h)
        # degradation is told the sample's own state and health, the previous inputs, and the output for these
        want[i, w.nt:] = w.worn(cfg['wear'], h, m0, x)
        meas.append(w.g(x, m1, h))
    meas = np.array(meas, dtype=raw.dtype)
    # compared in the coordinates of the model (the conversion is injective)
    K.eq('updated states', np.matmul(got, HM) + Hb, want, **T6)
    K.eq('outputs', np.matmul(out, OM) + Ob, meas, **T6)
    K.eq('filter coordinates', got, solve_rows(K, HM, want - Hb), **T6)
    # there and back
    ah, tr = wr.create_cell_model_inputs(X)
    K.eq('transient part', tr.to_numpy(), raw[:, :w.nt], **T6)
    if w.na:
        K.eq('health part', ah.get_parameters(w.names), raw[:, w.nt:], **T6)
        K.eq('hidden state', wr.create_hidden_state(ah, tr), X, **T6)
    pic.check('conversion')


def templates(wr):
    """the health parameters, state and inputs of a wrapper"""
    return [c.copy() for c in Poly.health_columns(wr.asoh)] + [wr.transients.to_numpy(), wr.inputs.to_numpy()]


def do_start(K, cfg):
    """the filter built from a wrapper"""
    w = world(K, cfg)
    wr, ops, given = wrapper(K, cfg, w)
    n = w.nt + w.na
    est, kw, P, W, V = build(K, cfg, w, lambda **k: JointEstimator.initialize_ukf_from_wrapper(wr, **k))
    check_start(K, cfg, w, est, ops, P, W, V)


def build(K, cfg, w, make):
    n = w.nt + w.na
    kw = {}
    if cfg['cov'] == 'joint':
        kw['covariance_joint'] = P = sym(K, 'P', n)
        if cfg['noise'] != 'parts':
            # what is given besides is not used
            kw['covariance_transient'], kw['covariance_asoh'] = sym(K, 'unused3', w.nt), sym(K, 'unused4', w.na)
    else:
        kw['covariance_transient'], kw['covariance_asoh'] = parts = sym(K, 'Pt', w.nt), sym(K, 'Pa', w.na)
        P = blocks(K, *parts)
    W = None
    if cfg['noise'] == 'joint':
        kw['joint_covariance_process_noise'] = W = sym(K, 'W', n)
        kw['transient_covariance_process_noise'] = sym(K, 'unused', w.nt)
        kw['asoh_covariance_process_noise'] = sym(K, 'unused2', w.na)
    elif cfg['noise'] == 'parts':
        kw['transient_covariance_process_noise'], kw['asoh_covariance_process_noise'] = parts = sym(K, 'Wt', w.nt), sym(K, 'Wa', w.na)
        W = blocks(K, *parts)
    elif cfg['noise'] == 'half':
        kw['transient_covariance_process_noise'] = sym(K, 'unused', w.nt)
    V = None
    if cfg['noise'] != 'none':
        kw['covariance_sensor_noise'] = V = sym(K, 'V', w.m)
    if cfg.get('uncertain'):
        kw['inputs_uncertainty'] = sym(K, 'U', w.nu)
    kw['filter_args'] = dict(alpha_param=0.5, beta_param=1.5, kappa_param=0.25)
    pic = Picture(K, **kw)
    est = make(**kw)
    pic.check('construction')
    return est, kw, P, W, V


def check_start(K, cfg, w, est, ops, P, W, V):
    (HM, Hb), (CM, Cb), (OM, Ob) = ops['hidden'], ops['control'], ops['output']
    n = w.nt + w.na
    f = est.filter
    mean = np.concatenate([w.x, np.array(w.pick(w.health_row()), dtype=w.x.dtype)])
    K.eq('mean', np.matmul(f.hidden.get_mean(), HM) + Hb, mean, **T6)
    K.eq('covariance', np.matmul(HM.T, np.matmul(f.hidden.get_covariance(), HM)), P, **T6)
    K.eq('control', np.matmul(f.controls.get_mean(), CM) + Cb, w.u, **T6)
    if cfg.get('uncertain'):
        K.eq('uncertainty of the control', np.matmul(CM.T, np.matmul(f.controls.get_covariance(), CM)), sym(K, 'U', w.nu), **T6)
    if W is not None:
        K.eq('process noise', np.matmul(HM.T, np.matmul(f.cov_w, HM)), W, **T6)
    else:
        K.eq('default process noise', f.cov_w, np.eye(n) * 1e-8)
    if V is not None:
        K.eq('sensor noise', np.matmul(OM.T, np.matmul(f.cov_v, OM)), V, **T6)
    else:
        K.eq('default sensor noise', f.cov_v, np.eye(w.m) * 1e-8)
    K.eq('tuning', np.array([f.alpha_param, f.beta_param, f.kappa_param]), np.array([.5, 1.5, .25]))
    K.eq('state', est.state.get_mean(), mean, **T6)
    K.eq('covariance of the state', est.state.get_covariance(), P, **T6)
    tr, ah = est.get_estimated_state()
    K.eq('estimated transient state', tr.to_numpy()[0], w.x, **T6)
    K.eq('estimated health', ah.get_parameters(list(('p', 'q', 'part.r', 'part.s', 'k'))) if set(w.updatable) == {'p', 'q', 'part.r', 'part.s', 'k'}
         else ah.get_parameters(w.names), np.array([w.pick(w.health_row(), None)], dtype=w.x.dtype), **T6)


def do_begin(K, cfg):
    """the filter built from values, with or without normalization"""
    w = world(K, cfg)
    n = w.nt + w.na
    a, s, u = w.asoh(), w.state(), w.inputs()
    pic = Picture(K, a=a, s=s, u=u)
    est, kw, P, W, V = build(K, cfg, w, lambda **k: JointEstimator.initialize_unscented_kalman_filter(
        cell_model=w.model, initial_asoh=a, initial_transients=s, initial_inputs=u, normalize_asoh=cfg['norm'], **k))
    pic.check('construction')
    ops = {k: operator(K, 'id', d, '')[1:] for k, d in (('hidden', n), ('control', w.nu), ('output', w.m))}
    if cfg['norm']:
        M = ops['hidden'][0]
        for i, v in enumerate(w.pick(w.health_row())):
            M[w.nt + i, w.nt + i] = K.ite(v != 0, v, K.const(1)) if K.symbolic else (v if v != 0 else 1.)
    check_start(K, cfg, w, est, ops, P, W, V)


class Recorder(BaseFilter):
    """stands for any filter"""

    def __init__(self, model, hidden, controls, results):
        super().__init__(model, hidden, controls)
        self.results, self.seen = results, []

    def step(self, new_controls, measurements, **kw):
        self.seen.append((new_controls, measurements, kw))
        self.hidden = self.results[0].model_copy(deep=True)
        return self.results[0].model_copy(deep=True), self.results[1].model_copy(deep=True)


def do_step(K, cfg):
    """what the estimator hands to the filter, and what it makes of its results"""
    w = world(K, cfg)
    wr, ops, given = wrapper(K, cfg, w)
    n = w.nt + w.na
    (HM, Hb), (CM, Cb), (OM, Ob) = ops['hidden'], ops['control'], ops['output']
    hm, hc, om, oc = K.arr('hm', (n,)), sym(K, 'hc', n), K.arr('om', (w.m,)), sym(K, 'oc', w.m)
    fil = Recorder(wr, MultivariateGaussian(mean=K.arr('i', (n,)), covariance=sym(K, 'ic', n)), DeltaDistribution(mean=K.arr('ci', (w.nu,))),
                   (MultivariateGaussian(mean=hm.copy(), covariance=hc.copy()), MultivariateGaussian(mean=om.copy(), covariance=oc.copy())))
    est = JointEstimator(fil)
    K.eq('state before', est.state.get_mean(), np.matmul(K.arr('i', (n,)), HM) + Hb, **T6)
    u, y = K.arr('u1', (w.nu,)), K.arr('y', (w.m,))
    ins, meas = w.inputs(u), w.outputs(y)
    pic = Picture(K, ins=ins, meas=meas, a=given[0], s=given[1], i=given[2])
    hid, out = est.step(ins, meas)
    pic.check('step')
    K.same('one step of the filter', len(fil.seen), 1)
    c, m, kw = fil.seen[0]
    K.same('no options', kw, {})
    K.eq('control', np.matmul(c.get_mean(), CM) + Cb, u, **T6)
    K.eq('measurement', np.matmul(m.get_mean(), OM) + Ob, y, **T6)
    for k, v in (('returned', hid), ('state', est.state)):
        K.eq(f'{k} mean', v.get_mean(), np.matmul(hm, HM) + Hb, **T6)
        K.eq(f'{k} covariance', v.get_covariance(), np.matmul(HM.T, np.matmul(hc, HM)), **T6)
    K.eq('output', out.get_mean(), np.matmul(om, OM) + Ob, **T6)
    K.eq('covariance of the output', out.get_covariance(), np.matmul(OM.T, np.matmul(oc, OM)), **T6)
    tr, ah = est.get_estimated_state()
    K.eq('estimated transient state', tr.to_numpy()[0], (np.matmul(hm, HM) + Hb)[:w.nt], **T6)
    K.eq('estimated health', ah.get_parameters(w.names)[0], (np.matmul(hm, HM) + Hb)[w.nt:], **T6)
    K.raises('a filter of another model', lambda: JointEstimator(Recorder(object(), fil.hidden, fil.controls, None)), ValueError)


def do_run(K, cfg):
    """the whole estimator against the textbook filter in filter coordinates"""
    w = world(K, cfg)
    wr, ops, given = wrapper(K, cfg, w, names=w.names)
    (HM, Hb), (CM, Cb), (OM, Ob) = ops['hidden'], ops['control'], ops['output']
    n = w.nt + w.na
    P, W, V = (chol_definite(K, k, d)[1] * .1 for k, d in (('P', n), ('W', n), ('V', w.m)))
    est = JointEstimator.initialize_ukf_from_wrapper(wr, covariance_joint=P, joint_covariance_process_noise=W, covariance_sensor_noise=V)
    to = lambda v, M, b: solve_rows(K, M, np.array([v], dtype=w.x.dtype) - b)[0]    # noqa: E731

    def back(M, S):
        return solve_rows(K, M, solve_rows(K, M, S).T).T
    mean = to(np.concatenate([w.x, w.pick(w.health_row())]), HM, Hb)
    P, W, V = back(HM, P), back(HM, W), back(OM, V)

    def f(p, u0, u1):
        r = np.matmul(p, HM) + Hb
        return to(np.concatenate([w.f(r[:w.nt], u0, u1, r[w.nt:]), r[w.nt:]]), HM, Hb)

    def g(p, u1):
        r = np.matmul(p, HM) + Hb
        return to(w.g(r[:w.nt], u1, r[w.nt:]), OM, Ob)
    u0 = w.u
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=keep):
        for k in range(cfg['steps']):
            u1, y = w.controls(f'u{k + 1}'), K.arr(f'y{k}', (w.m,))
            mean, P, ym, S = unscented(f, g, K, W, V, mean, P, u0, u1, to(y, OM, Ob))
            u0 = u1
            if not K.symbolic and np.linalg.eigvalsh(P).min() < 1e-3 * np.linalg.eigvalsh(P).max():
                break
            hid, out = est.step(w.inputs(u1), w.outputs(y))
            tol = dict(rtol=1e-5, atol=1e-6)
            K.eq(f'mean {k}', hid.get_mean(), np.matmul(mean, HM) + Hb, **tol)
            K.eq(f'covariance {k}', hid.get_covariance(), np.matmul(HM.T, np.matmul(P, HM)), **tol)
            K.eq(f'output {k}', out.get_mean(), np.matmul(ym, OM) + Ob, **tol)
            K.eq(f'output covariance {k}', out.get_covariance(), np.matmul(OM.T, np.matmul(S, OM)), **tol)


def keep(Sig):
    return Sig.copy()


def do_normal(K, cfg):
    """with and without normalization"""
    w = world(K, cfg, pos=K.symbolic)
    n = w.nt + w.na
    Pt, Pa = chol_definite(K, 'Pt', w.nt)[1] * .1, chol_definite(K, 'Pa', w.na)[1] * .1
    Wt, Wa, V = chol_definite(K, 'Wt', w.nt)[1] * .1, chol_definite(K, 'Wa', w.na)[1] * .1, chol_definite(K, 'V', w.m)[1] * .1
    kw = dict(covariance_transient=Pt, covariance_asoh=Pa, covariance_sensor_noise=V)
    if cfg['noise'] == 'parts':
        kw.update(transient_covariance_process_noise=Wt, asoh_covariance_process_noise=Wa)
    else:
        kw.update(joint_covariance_process_noise=blocks(K, Wt, Wa))
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=keep):
        ests = [JointEstimator.initialize_unscented_kalman_filter(cell_model=w.model, initial_asoh=w.asoh(), initial_transients=w.state(),
                                                                  initial_inputs=w.inputs(), normalize_asoh=nm, **kw) for nm in (False, True)]
        tol = dict(rtol=1e-5, atol=1e-6)
        K.eq('state', ests[0].state.get_mean(), ests[1].state.get_mean(), **tol)
        K.eq('covariance', ests[0].state.get_covariance(), ests[1].state.get_covariance(), **tol)
        for k in range(cfg['steps']):
            u, y = w.controls(f'u{k + 1}'), K.arr(f'y{k}', (w.m,))
            (ha, oa), (hb, ob) = (e.step(w.inputs(u), w.outputs(y)) for e in ests)
            if not K.symbolic and np.linalg.eigvalsh(ha.get_covariance()).min() < 1e-3:
                break
            K.eq(f'mean {k}', hb.get_mean(), ha.get_mean(), **tol)
            K.eq(f'covariance {k}', hb.get_covariance(), ha.get_covariance(), **tol)
            K.eq(f'output {k}', ob.get_mean(), oa.get_mean(), **tol)
            K.eq(f'output covariance {k}', ob.get_covariance(), oa.get_covariance(), **tol)


def do_ecm(K, cfg):
    """the equivalent circuit model: with and without normalization, and sample by sample"""
    from .ecmlib import Cell, inputs
    from moirae.models.ecm import EquivalentCircuitModel, ECMMeasurement
    cell = Cell(K, nrc=cfg['nrc'], c0=False, tdf='zero', widths=dict(ocv=3, r0=2))
    asoh, state = cell.asoh(), cell.state()
    for nm in ['r0.base_values', 'q_t.base_values'] + [f'rc_elements.{i}.r.base_values' for i in range(cfg['nrc'])]:
        asoh.mark_updatable(nm)
    nt, na = len(state), asoh.num_updatable
    ins = [inputs(K, '', 10. * k, K.real(f'I{k}', box=(.5, 2)), 25.) for k in range(cfg['steps'] + 1)]
    mdl = EquivalentCircuitModel()
    wr = JointCellModelWrapper(mdl, asoh, state, ins[0])
    X = np.concatenate([state.to_numpy(), asoh.get_parameters()], axis=1) * (1 + 0.02 * K.arr('dX', (4, nt + na)))
    got, out = wr.update_hidden_states(X, ins[0].to_numpy()[0], ins[1].to_numpy()[0]), wr.predict_measurement(X, ins[1].to_numpy()[0])
    for i in range(4):
        a = asoh.make_copy(X[i:i + 1, nt:])
        s = state.make_copy(X[i:i + 1, :nt])
        K.eq(f'sample {i}', got[i], np.concatenate([mdl.update_transient_state(ins[0], ins[1], s, a).to_numpy()[0], X[i, nt:]]), **T6)
        K.eq(f'output {i}', out[i], mdl.calculate_terminal_voltage(ins[1], s, a).to_numpy()[0], **T6)
    kw = dict(covariance_transient=np.diag(np.full(nt, 1e-4)), covariance_asoh=np.diag(asoh.get_parameters()[0] ** 2 * 1e-3),
              transient_covariance_process_noise=np.diag(np.full(nt, 1e-6)), asoh_covariance_process_noise=np.diag(asoh.get_parameters()[0] ** 2 * 1e-5),
              covariance_sensor_noise=np.diag([1e-4]))
    ests = [JointEstimator.initialize_unscented_kalman_filter(cell_model=mdl, initial_asoh=asoh, initial_transients=state, initial_inputs=ins[0],
                                                              normalize_asoh=nm, **kw) for nm in (False, True)]
    for k in range(cfg['steps']):
        y = ECMMeasurement(terminal_voltage=mdl.calculate_terminal_voltage(ins[k + 1], state, asoh).to_numpy() + 0.01 * K.real(f'e{k}'))
        (ha, oa), (hb, ob) = (e.step(ins[k + 1], y) for e in ests)
        K.eq(f'mean {k}', hb.get_mean(), ha.get_mean(), rtol=1e-5, atol=1e-6)
        K.eq(f'covariance {k}', hb.get_covariance(), ha.get_covariance(), rtol=1e-4, atol=1e-7)
        K.eq(f'output {k}', ob.get_mean(), oa.get_mean(), rtol=1e-5, atol=1e-6)
