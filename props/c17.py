"""The dual estimator: the filter of the transient state predicts with the health parameters of the previous posterior, the
filter of the health parameters predicts from the transient state of the previous posterior and the previous inputs; the
estimate is both posteriors side by side in the coordinates of the model, the output that of the transient filter"""
import itertools
import numpy as np
from .frame import Picture
from .onlinelib import World, Fade, Wear, operator, solve_rows, chol_definite, unscented
from .ukflib import sym, blocks
from .c16 import SELECT, Recorder, keep
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper

LEVEL = 'other'
RUNS = 4
BUDGET = 90.
TOL = 30.
T6 = dict(rtol=1e-6, atol=1e-7)
CONV = (('id', 'id', 'id'), ('diag', 'bias', 'diag+bias'), ('full+bias', 'full', 'full'), ('diag+bias', 'id', 'full+bias'))


def configs(tier):
    out = []
    for nz, rows in ((0, 1), (1, 3), (2, 2)):
        for hid, con, meas in CONV:
            out.append(dict(what='cell', sel='list', hid=hid, con=con, meas=meas, rows=rows, nz=nz, extra=con != 'id', more=nz != 1))
    for sel in SELECT:
        if sel == 'none':
            continue
        for hid, con, meas in CONV:
            for rows in (1, 3):
                out.append(dict(what='degradation', sel=sel, hid=hid, con=con, meas=meas, rows=rows, nz=rows % 2, extra=con != 'id', more=sel != 'all',
                                wear='wear' if rows == 3 or hid == 'diag+bias' else 'fade' if 'full' in hid else 'no'))
    for sel in ('default', 'list', 'permuted', 'subset'):
        for a, b in ((0, 0), (1, 2), (2, 3), (3, 0)):
            for noise in ('both', 'none', 'one'):
                out.append(dict(what='start', sel=sel, t=a, h=b, noise=noise, nz=1, extra=True, more=True, uncertain=noise == 'one'))
    for norm, noise in itertools.product((False, True), ('both', 'none', 'one')):
        out.append(dict(what='begin', norm=norm, noise=noise, sel='list', nz=1, extra=False, more=True, uncertain=noise == 'both'))
        out.append(dict(what='begin', norm=norm, noise=noise, sel='default', nz=0, extra=True, more=False, uncertain=False))
    for sel in ('default', 'permuted', 'list'):
        for a, b in ((0, 0), (1, 2), (2, 3), (3, 0)):
            out.append(dict(what='step', sel=sel, t=a, h=b, nz=1, extra=True, more=True, steps=3))
    out.append(dict(what='run', sel='one', nz=0, t=0, h=0, extra=False, more=False, steps=1, curved=False, norm=None))
    for norm in (None, False, True):
        out.append(dict(what='run', sel='one', nz=0, t=0, h=0, extra=False, more=False, steps=1, norm=norm))
    out.append(dict(what='run', sel='one', nz=0, t=1, h=1, extra=False, more=False, steps=1, norm=None))
    out.append(dict(what='run', sel='one', nz=0, t=0, h=0, extra=False, more=False, steps=2, norm=None, curved=False))
    out.append(dict(what='run', sel='one', nz=0, t=0, h=0, extra=False, more=False, steps=1, norm=None, deaf=True))
    out.append(dict(what='run', sel='list', nz=1, t=0, h=0, extra=True, more=True, steps=4, norm=True, deaf=True, _concrete=True))
    for sel, nz, more in (('one', 0, False), ('default', 0, False), ('list', 1, True), ('all', 2, True), ('permuted', 1, True)):
        for a, b in ((0, 0), (1, 2), (2, 3)):
            out.append(dict(what='run', sel=sel, nz=nz, extra=False, more=more, t=a, h=b, steps=4, norm=None, _concrete=True))
    for norm in (False, True):
        for sel, nz, more in (('default', 0, False), ('list', 1, True), ('all', 2, True)):
            out.append(dict(what='run', sel=sel, nz=nz, extra=nz == 1, more=more, t=0, h=0, steps=4, norm=norm, _concrete=True))
    # the same of any model
    for o in [o for o in out if not o.get('_concrete')]:
        if o['what'] in ('cell', 'degradation'):
            out.append(dict(o, any=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def world(K, cfg, **kw):
    up, names = {**SELECT, 'one': (('p',), None)}[cfg['sel']]
    return World(K, cfg['nz'], cfg['extra'], cfg['more'], updatable=up, names=names, curved=cfg.get('curved', True), deaf=cfg.get('deaf', False), any_model=cfg.get('any', False), **kw)


def wrapper(K, w, conv, cls, n, tag='', **kw):
    ops = dict(hidden=operator(K, conv[0], n, tag + 'H'), control=operator(K, conv[1], w.nu, tag + 'C'), output=operator(K, conv[2], w.m, tag + 'O'))
    wr = cls(w.model, w.asoh(), w.state(), w.inputs(), converters={f'{k}_conversion_operator': o[0] for k, o in ops.items()}, **kw)
    return wr, [o[1:] for o in ops.values()]


def do_cell(K, cfg):
    w = world(K, cfg)
    wr, ((HM, Hb), (CM, Cb), (OM, Ob)) = wrapper(K, w, (cfg['hid'], cfg['con'], cfg['meas']), CellModelWrapper, w.nt)
    K.same('dimensions', (wr.num_hidden_dimensions, wr.num_output_dimensions), (w.nt, w.m))
    X, u0, u1 = K.arr('X', (cfg['rows'], w.nt)), K.arr('c0', (w.nu,)), K.arr('c1', (w.nu,))
    pic = Picture(K, asoh=wr.asoh, state=wr.transients, inputs=wr.inputs, X=X, u0=u0, u1=u1)
    got, out = wr.update_hidden_states(X, u0, u1), wr.predict_measurement(X, u1)
    pic.check('evaluation')
    raw, m0, m1 = np.matmul(X, HM) + Hb, np.matmul(u0, CM) + Cb, np.matmul(u1, CM) + Cb
    K.eq('updated states', np.matmul(got, HM) + Hb, np.array([w.f(r, m0, m1) for r in raw], dtype=raw.dtype), **T6)
    K.eq('outputs', np.matmul(out, OM) + Ob, np.array([w.g(r, m1) for r in raw], dtype=raw.dtype), **T6)
    # with other health parameters
    other = K.arr('other', (w.na,))
    wr.asoh = wr.asoh.make_copy(other[None].copy(), w.names)
    got, out = wr.update_hidden_states(X, u0, u1), wr.predict_measurement(X, u1)
    K.eq('updated states with new parameters', np.matmul(got, HM) + Hb, np.array([w.f(r, m0, m1, other) for r in raw], dtype=raw.dtype), **T6)
    K.eq('outputs with new parameters', np.matmul(out, OM) + Ob, np.array([w.g(r, m1, other) for r in raw], dtype=raw.dtype), **T6)


def do_degradation(K, cfg):
    w = world(K, cfg)
    kw = {'no': {}, 'fade': dict(degradation_model=Fade()), 'wear': dict(degradation_model=Wear())}[cfg['wear']]
    if SELECT[cfg['sel']][1]:
        kw['asoh_inputs'] = w.names
    wr, ((HM, Hb), (CM, Cb), (OM, Ob)) = wrapper(K, w, (cfg['hid'], cfg['con'], cfg['meas']), DegradationModelWrapper, w.na, **kw)
    K.same('dimensions', (wr.num_hidden_dimensions, wr.num_output_dimensions), (w.na, w.m))
    X, u0, u1, u2 = K.arr('X', (cfg['rows'], w.na)), K.arr('c0', (w.nu,)), K.arr('c1', (w.nu,)), K.arr('c2', (w.nu,))
    pic = Picture(K, asoh=wr.asoh, state=wr.transients, inputs=wr.inputs, X=X, u0=u0, u1=u1)
    raw = np.matmul(X, HM) + Hb
    mi = [np.matmul(u, CM) + Cb for u in (u0, u1, u2)]

    def outputs(x, prev, new):
        return np.array([w.g(w.f(x, prev, new, h), new, h) for h in raw], dtype=raw.dtype)
    K.eq('outputs before any update', np.matmul(wr.predict_measurement(X, u1), OM) + Ob, outputs(w.x, w.u, mi[1]), **T6)
    got = wr.update_hidden_states(X, u0, u1)
    # degradation is told the sample's own health, the current transient state, the new inputs, and the output for these
    def worn(x, new):
        return np.array([w.worn(cfg['wear'], h, new, x) for h in raw], dtype=raw.dtype)
    K.eq('updated parameters', np.matmul(got, HM) + Hb, worn(w.x, mi[1]), **T6)
    K.eq('outputs', np.matmul(wr.predict_measurement(X, u1), OM) + Ob, outputs(w.x, mi[0], mi[1]), **T6)
    K.eq('outputs again', np.matmul(wr.predict_measurement(X, u1), OM) + Ob, outputs(w.x, mi[0], mi[1]), **T6)
    pic.check('evaluation')
    other = K.arr('other', (w.nt,))
    wr.transients = w.state(other)
    got = wr.update_hidden_states(X, u1, u2)
    K.eq('updated parameters with a new state and inputs', np.matmul(got, HM) + Hb, worn(other, mi[2]), **T6)
    K.eq('outputs with a new state and inputs', np.matmul(wr.predict_measurement(X, u2), OM) + Ob, outputs(other, mi[1], mi[2]), **T6)


def build(K, cfg, w, make):
    kw = dict(covariance_transient=sym(K, 'Pt', w.nt), covariance_asoh=sym(K, 'Pa', w.na))
    N = {}
    if cfg['noise'] != 'none':
        kw['transient_covariance_process_noise'] = N['t'] = sym(K, 'Wt', w.nt)
        kw['covariance_sensor_noise'] = N['v'] = sym(K, 'V', w.m)
    if cfg['noise'] == 'both':
        kw['asoh_covariance_process_noise'] = N['a'] = sym(K, 'Wa', w.na)
    if cfg['uncertain']:
        kw['inputs_uncertainty'] = sym(K, 'U', w.nu)
    kw['filter_args'] = dict(transient=dict(alpha_param=0.5, beta_param=1.5, kappa_param=0.25), asoh=dict(alpha_param=0.25, beta_param=1., kappa_param=.5))
    pic = Picture(K, **kw)
    est = make(**kw)
    pic.check('construction')
    return est, N


def check_start(K, cfg, w, est, topt, aopt, N):
    hrow = np.array(w.pick(w.health_row()), dtype=w.x.dtype)
    for who, f, ops, n, mean, P, W, tune in (
            ('transient', est.trans_filter, topt, w.nt, w.x, sym(K, 'Pt', w.nt), N.get('t'), (.5, 1.5, .25)),
            ('health', est.asoh_filter, aopt, w.na, hrow, sym(K, 'Pa', w.na), N.get('a'), (.25, 1., .5))):
        (HM, Hb), (CM, Cb), (OM, Ob) = ops
        K.eq(f'{who}: mean', np.matmul(f.hidden.get_mean(), HM) + Hb, mean, **T6)
        K.eq(f'{who}: covariance', np.matmul(HM.T, np.matmul(f.hidden.get_covariance(), HM)), P, **T6)
        K.eq(f'{who}: control', np.matmul(f.controls.get_mean(), CM) + Cb, w.u, **T6)
        if cfg['uncertain']:
            K.eq(f'{who}: uncertainty of the control', np.matmul(CM.T, np.matmul(f.controls.get_covariance(), CM)), sym(K, 'U', w.nu), **T6)
        if W is None:
            K.eq(f'{who}: default process noise', f.cov_w, np.eye(n) * 1e-8)
        else:
            K.eq(f'{who}: process noise', np.matmul(HM.T, np.matmul(f.cov_w, HM)), W, **T6)
        if 'v' not in N:
            K.eq(f'{who}: default sensor noise', f.cov_v, np.eye(w.m) * 1e-8)
        else:
            K.eq(f'{who}: sensor noise', np.matmul(OM.T, np.matmul(f.cov_v, OM)), N['v'], **T6)
        K.eq(f'{who}: tuning', np.array([f.alpha_param, f.beta_param, f.kappa_param]), np.array(tune))
    K.eq('state', est.state.get_mean(), np.concatenate([w.x, hrow]), **T6)
    K.eq('covariance of the state', est.state.get_covariance(), blocks(K, sym(K, 'Pt', w.nt), sym(K, 'Pa', w.na)), **T6)
    check_estimate(K, w, est, w.x, hrow, '')


def check_estimate(K, w, est, x, h, when):
    tr, ah = est.get_estimated_state()
    K.eq(f'estimated transient state{when}', tr.to_numpy()[0], x, **T6)
    from moirae.models.base import HealthVariable     # noqa: F401
    full = ah.model_copy(deep=True)
    full.mark_all_updatable()
    K.eq(f'estimated health{when}', full.get_parameters(['p', 'q', 'part.r', 'part.s', 'k'])[0], np.array(w.health_row(h), dtype=w.x.dtype), **T6)


def do_start(K, cfg):
    w = world(K, cfg)
    kw = dict(asoh_inputs=w.names) if SELECT[cfg['sel']][1] else {}
    tw, topt = wrapper(K, w, CONV[cfg['t']], CellModelWrapper, w.nt, 't')
    aw, aopt = wrapper(K, w, CONV[cfg['h']], DegradationModelWrapper, w.na, 'a', **kw)
    est, N = build(K, cfg, w, lambda **k: DualEstimator.initialize_ukf_from_wrappers(tw, aw, **k))
    check_start(K, cfg, w, est, topt, aopt, N)
    u = K.arr('wrong', (w.nu,))
    if not K.symbolic:
        K.assume(abs(u - w.u).max() > .1)
        for off in (u, w.u * 1.02 + .01):
            aw.inputs = w.inputs(off)
            K.raises('inputs that differ', lambda: DualEstimator.initialize_ukf_from_wrappers(tw, aw, sym(K, 'Pt', w.nt), sym(K, 'Pa', w.na)), AssertionError)


def do_begin(K, cfg):
    w = world(K, cfg)
    a, s, u = w.asoh(), w.state(), w.inputs()
    pic = Picture(K, a=a, s=s, u=u)
    est, N = build(K, cfg, w, lambda **k: DualEstimator.initialize_unscented_kalman_filter(
        cell_model=w.model, initial_asoh=a, initial_transients=s, initial_inputs=u, normalize_asoh=cfg['norm'], **k))
    pic.check('construction')
    ident = lambda n: [operator(K, 'id', d, '')[1:] for d in (n, w.nu, w.m)]    # noqa: E731
    topt, aopt = ident(w.nt), ident(w.na)
    if cfg['norm']:
        for i, v in enumerate(w.pick(w.health_row())):
            aopt[0][0][i, i] = K.ite(v != 0, v, K.const(1)) if K.symbolic else (v if v != 0 else 1.)
    check_start(K, cfg, w, est, topt, aopt, N)


class Witness(Recorder):
    """a filter that gives another result in every step, and notes what its wrapper held"""

    def step(self, new_controls, measurements, **kw):
        a = self.model.asoh.model_copy(deep=True)
        a.mark_all_updatable()
        self.seen.append((new_controls, measurements, kw, a.get_parameters(['p', 'q', 'part.r', 'part.s', 'k'])[0], self.model.transients.to_numpy()[0]))
        hid, out = self.results[len(self.seen) - 1]
        self.hidden = hid.model_copy(deep=True)
        return hid.model_copy(deep=True), out.model_copy(deep=True)


def do_step(K, cfg):
    w = world(K, cfg)
    kw = dict(asoh_inputs=w.names) if SELECT[cfg['sel']][1] else {}
    tw, topt = wrapper(K, w, CONV[cfg['t']], CellModelWrapper, w.nt, 't')
    aw, aopt = wrapper(K, w, CONV[cfg['h']], DegradationModelWrapper, w.na, 'a', **kw)
    steps = cfg['steps']

    def gauss(name, n):
        return MultivariateGaussian(mean=K.arr(name + 'm', (n,)), covariance=sym(K, name + 'c', n))
    fils = [Witness(wr, gauss(f'{t}i', n), DeltaDistribution(mean=K.arr(f'{t}c', (w.nu,))),
                    [(gauss(f'{t}h{k}', n), gauss(f'{t}o{k}', w.m)) for k in range(steps)])
            for t, wr, n in (('t', tw, w.nt), ('a', aw, w.na))]
    est = DualEstimator(*fils)
    ops = (topt, aopt)

    def there(v, o):
        (M, b) = o
        return np.matmul(v, M) + b

    def cov(S, o):
        return np.matmul(o[0].T, np.matmul(S, o[0]))
    last = [there(f.hidden.get_mean(), o[0]) for f, o in zip(fils, ops)]
    lastc = [cov(f.hidden.get_covariance(), o[0]) for f, o in zip(fils, ops)]
    K.eq('state before', est.state.get_mean(), np.concatenate(last), **T6)
    K.eq('covariance before', est.state.get_covariance(), blocks(K, *lastc), **T6)
    for k in range(steps):
        u, y = K.arr(f'u{k}', (w.nu,)), K.arr(f'y{k}', (w.m,))
        ins, meas = w.inputs(u), w.outputs(y)
        pic = Picture(K, ins=ins, meas=meas)
        hid, out = est.step(ins, meas)
        pic.check('step')
        for who, f, o, n in (('transient', fils[0], topt, w.nt), ('health', fils[1], aopt, w.na)):
            K.same(f'{who}: steps {k}', len(f.seen), k + 1)
            c, m, kws, asoh, trans = f.seen[k]
            K.same(f'{who}: no options', kws, {})
            K.eq(f'{who}: control {k}', there(c.get_mean(), o[1]), u, **T6)
            K.eq(f'{who}: measurement {k}', there(m.get_mean(), o[2]), y, **T6)
        K.eq(f'transient filter uses the previous health {k}', fils[0].seen[k][3], np.array(w.health_row(last[1]), dtype=u.dtype), **T6)
        K.eq(f'health filter uses the previous transient state {k}', fils[1].seen[k][4], last[0], **T6)
        last = [there(f.results[k][0].get_mean(), o[0]) for f, o in zip(fils, ops)]
        lastc = [cov(f.results[k][0].get_covariance(), o[0]) for f, o in zip(fils, ops)]
        for who, v in (('returned', hid), ('state', est.state)):
            K.eq(f'{who} mean {k}', v.get_mean(), np.concatenate(last), **T6)
            K.eq(f'{who} covariance {k}', v.get_covariance(), blocks(K, *lastc), **T6)
        K.eq(f'output {k}', out.get_mean(), there(fils[0].results[k][1].get_mean(), topt[2]), **T6)
        K.eq(f'covariance of the output {k}', out.get_covariance(), cov(fils[0].results[k][1].get_covariance(), topt[2]), **T6)
        check_estimate(K, w, est, last[0], last[1], f' {k}')
    K.raises('filters of the wrong kind', lambda: DualEstimator(fils[1], fils[0]), ValueError)
    K.raises('two transient filters', lambda: DualEstimator(fils[0], fils[0]), ValueError)


def do_run(K, cfg):
    """the whole estimator against two textbook filters in filter coordinates"""
    w = world(K, cfg, pos=cfg['norm'] is not None)
    Pt, Pa, Wt, Wa = (chol_definite(K, k, d)[1] * .1 for k, d in (('Pt', w.nt), ('Pa', w.na), ('Wt', w.nt), ('Wa', w.na)))
    V = chol_definite(K, 'V', w.m)[1] * .1
    kw = dict(covariance_transient=Pt, covariance_asoh=Pa, transient_covariance_process_noise=Wt, asoh_covariance_process_noise=Wa,
              covariance_sensor_noise=V)
    if cfg['norm'] is None:
        akw = dict(asoh_inputs=w.names) if SELECT.get(cfg['sel'], (0, None))[1] else {}
        tw, topt = wrapper(K, w, CONV[cfg['t']], CellModelWrapper, w.nt, 't')
        aw, aopt = wrapper(K, w, CONV[cfg['h']], DegradationModelWrapper, w.na, 'a', **akw)
        est = DualEstimator.initialize_ukf_from_wrappers(tw, aw, **kw)
    else:   # the result does not depend on the normalization
        est = DualEstimator.initialize_unscented_kalman_filter(cell_model=w.model, initial_asoh=w.asoh(), initial_transients=w.state(),
                                                               initial_inputs=w.inputs(), normalize_asoh=cfg['norm'], **kw)
        ident = lambda n: [operator(K, 'id', d, '')[1:] for d in (n, w.nu, w.m)]    # noqa: E731
        topt, aopt = ident(w.nt), ident(w.na)
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=keep):
        follow(K, cfg, w, est, topt, aopt, Pt, Pa, Wt, Wa, V)


def follow(K, cfg, w, est, topt, aopt, Pt, Pa, Wt, Wa, V):
    (TM, Tb), _, (TO, TOb) = topt
    (AM, Ab), _, (AO, AOb) = aopt
    to = lambda v, M, b: solve_rows(K, M, np.array([v], dtype=w.x.dtype) - b)[0]    # noqa: E731

    def back(M, S):
        return solve_rows(K, M, solve_rows(K, M, S).T).T
    x, h = to(w.x, TM, Tb), to(w.pick(w.health_row()), AM, Ab)
    Pt, Wt, Vt = back(TM, Pt), back(TM, Wt), back(TO, V)
    Pa, Wa, Va = back(AM, Pa), back(AM, Wa), back(AO, V)
    u0 = w.u
    tol = dict(rtol=1e-5, atol=1e-6)
    for k in range(cfg['steps']):
        u1, y = w.controls(f'u{k + 1}'), K.arr(f'y{k}', (w.m,))
        xp, hp = np.matmul(x, TM) + Tb, np.matmul(h, AM) + Ab

        def tf(p, a, b):
            return to(w.f(np.matmul(p, TM) + Tb, a, b, hp), TM, Tb)

        def tg(p, b):
            return to(w.g(np.matmul(p, TM) + Tb, b, hp), TO, TOb)

        def ag(p, b):
            v = np.matmul(p, AM) + Ab
            return to(w.g(w.f(xp, u0, b, v), b, v), AO, AOb)
        x, Pt, ym, S = unscented(tf, tg, K, Wt, Vt, x, Pt, u0, u1, to(y, TO, TOb))
        h, Pa, _, _ = unscented(lambda p, a, b: p, ag, K, Wa, Va, h, Pa, u0, u1, to(y, AO, AOb))
        u0 = u1
        if not K.symbolic and min(np.linalg.eigvalsh(P).min() / np.linalg.eigvalsh(P).max() for P in (Pt, Pa)) < 1e-3:
            break
        hid, out = est.step(w.inputs(u1), w.outputs(y))
        K.eq(f'mean {k}', hid.get_mean(), np.concatenate([np.matmul(x, TM) + Tb, np.matmul(h, AM) + Ab]), **tol)
        K.eq(f'covariance {k}', hid.get_covariance(), blocks(K, np.matmul(TM.T, np.matmul(Pt, TM)), np.matmul(AM.T, np.matmul(Pa, AM))), **tol)
        K.eq(f'output {k}', out.get_mean(), np.matmul(ym, TO) + TOb, **tol)
        K.eq(f'output covariance {k}', out.get_covariance(), np.matmul(TO.T, np.matmul(S, TO)), **tol)
