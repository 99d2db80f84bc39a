"""One step of the filter on an affine model is one step of the textbook Kalman filter: prediction with the previous
and new control, output prediction, gain, corrected mean and covariance; and a history of steps is the iteration of
that step, since state and control are all that is carried over"""
import numpy as np
from .ukflib import Affine, definite, sym, pivots, inverse, tuning
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.filters.kalman.utils import calculate_gain_matrix



class Viewing(Affine):
    """a model whose states stay what they are, and that returns an array of its own, or the one it was given"""

    def __init__(self, K, n, m, r=1):
        super().__init__(K, n, m, r)
        self.A, self.H = np.array(np.eye(n), dtype=self.A.dtype), np.array(np.eye(n, m), dtype=self.A.dtype)
        for v in (self.B, self.C, self.a, self.D, self.h):
            v[...] = K.const(0)
        self.own = []

    def update_hidden_states(self, hidden_states, previous_controls, new_controls, **kw):
        self.seen.append(('update', kw))
        self.own.append((hidden_states, hidden_states.copy()))
        return hidden_states

    def predict_measurement(self, hidden_states, controls, **kw):
        self.seen.append(('predict', kw))
        return hidden_states[:, :self.m].copy()


class ViewingOutputs(Viewing):
    """its outputs are part of the states it was given, without copying"""

    def predict_measurement(self, hidden_states, controls, **kw):
        self.seen.append(('predict', kw))
        return hidden_states[:, :self.m]


class Blind(Affine):
    """outputs that do not depend on the state, given as one row for all samples"""

    def __init__(self, K, n, m, r=1):
        super().__init__(K, n, m, r)
        self.H[...] = K.const(0)

    def predict_measurement(self, hidden_states, controls, **kw):
        self.seen.append(('predict', kw))
        return self.g(np.zeros((1, self.n)), controls)


LEVEL = 'other'
RUNS = 6
BUDGET = 90.
TOL = 30.


def configs(tier):
    out = []
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (4, 2), (6, 2)):
        out.append(dict(what='correct', n=n, m=m))
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
        for tune in ('default', 'free', 'automatic'):
            out.append(dict(what='predict', n=n, m=m, tune=tune, kappa=tune, r=1 + (n + m) % 2, diagonal=False))
    for n, m in ((3, 2), (3, 3), (4, 2), (6, 2)):
        for tune in ('default', 'automatic'):
            out.append(dict(what='predict', n=n, m=m, tune=tune, kappa=tune, r=2, diagonal=False))
    for tune in ('default', 'free', 'automatic'):
        one = dict(what='steps', tune=tune, kappa=tune, steps=1, diagonal=False, _concrete=tune == 'free')
        out.append(dict(one, n=1, m=1))
        out.append(dict(one, n=2, m=1))
        out.append(dict(one, n=1, m=2))
    out.append(dict(what='steps', n=1, m=1, tune='default', steps=2))
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (5, 3)):
        out.append(dict(what='composed', n=n, m=m, tune='default', steps=3))
    for n, m in ((1, 1), (2, 1), (2, 2), (4, 1), (3, 3), (6, 2)):
        for tune in ('default', 'free', 'automatic'):
            out.append(dict(what='steps', n=n, m=m, tune=tune, kappa=tune, steps=6, _concrete=True))
    for n, m in ((1, 1), (2, 1), (2, 2)):
        for model in ('views', 'blind'):
            out.append(dict(what='predict', n=n, m=m, tune='default', model=model, diagonal=False))
            out.append(dict(what='steps', n=n, m=m, tune='default', model=model, steps=4, _concrete=True))
    for model in ('views', 'blind'):
        out.append(dict(what='steps', n=1, m=1, tune='default', model=model, steps=1, diagonal=True))
    for n, m in ((1, 1), (2, 1), (2, 2)):
        out.append(dict(what='predict', n=n, m=m, tune='default', model='views outputs', _concrete=True))
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 3)):
        out.append(dict(what='gain', n=n, m=m))
        out.append(dict(what='gain', n=n, m=m, scales=True, _concrete=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


T6 = dict(rtol=1e-6, atol=1e-7)


def do_gain(K, cfg):
    n, m = cfg['n'], cfg['m']
    C, S = K.mat('C', n, m), definite(K, 'S', m)
    if cfg.get('scales'):       # outputs and states of very different units: everything is compared in its own
        d = np.array([10. ** K.sampled(f'd{i}', lambda r: r.uniform(-5, 3)) for i in range(m)])
        e = np.array([10. ** K.sampled(f'e{i}', lambda r: r.uniform(-5, 3)) for i in range(n)])
        G = calculate_gain_matrix(e[:, None] * C * d, d[:, None] * S * d)
        K.eq('gain in units', np.matmul(G / e[:, None] * d, S), C, **T6)
        return
    G = calculate_gain_matrix(C, S)
    K.eq('gain times output covariance', np.matmul(G, S), C, **T6)


def do_correct(K, cfg):
    """correction for arbitrary predicted moments"""
    n, m = cfg['n'], cfg['m']
    x, y, z = K.arr('x', (n,)), K.arr('yh', (m,)), K.arr('y', (m,))
    P, S, C = sym(K, 'P', n), definite(K, 'S', m), K.mat('C', n, m, box=(-.4, .4))
    if not K.symbolic:
        P = P + 3 * np.eye(n)
    f = UnscentedKalmanFilter(Affine(K, n, m), MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)),
                              DeltaDistribution(mean=np.zeros(1)))
    G = np.matmul(C, inverse(K, S))
    post = P - np.matmul(G, C.T)
    if not K.symbolic:
        for v in pivots(K, post):
            K.assume(v > 0)
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=definite_kept):
        got = f.correction_update(x_k_minus=MultivariateGaussian(mean=x.copy(), covariance=P.copy()),
                                  y_hat=MultivariateGaussian(mean=y.copy(), covariance=S.copy()), cov_xy=C.copy(),
                                  y=DeltaDistribution(mean=z.copy()))
    got = f.hidden if got is None else got
    K.eq('mean', got.get_mean(), x + np.matmul(G, z - y), **T6)
    K.eq('covariance', got.get_covariance(), post, **T6)
    K.eq('symmetric', got.get_covariance(), got.get_covariance().T, **T6)


def make(K, cfg, **kw):
    n, m, r = cfg['n'], cfg['m'], cfg.get('r', 2)
    d = cfg.get('diagonal')
    model = {None: Affine, 'views': Viewing, 'views outputs': ViewingOutputs, 'blind': Blind}[cfg.get('model')](K, n, m, r)
    mean, P = K.arr('mean', (n,)), definite(K, 'P', n, d)
    W, V = definite(K, 'W', n, d), definite(K, 'V', m, d)
    u = K.arr('u0', (r,))
    start, ctrl, noises = MultivariateGaussian(mean=mean.copy(), covariance=P.copy()), DeltaDistribution(mean=u.copy()), (W.copy(), V.copy())
    f = UnscentedKalmanFilter(model, start, ctrl, covariance_process_noise=noises[0], covariance_sensor_noise=noises[1],
                              **tuning(K, cfg, 2 * n + m))
    # the filter works on its own copies
    for a in (start.mean, start.covariance, ctrl.mean) + noises:
        a[...] = K.const(7)
    return f, model, mean, P, W, V, u, r


def predicted(K, model, mean, P, W, V, u, u1):
    A, H = model.A, model.H
    x = model.f(mean, u, u1)
    Pm = np.matmul(A.T, np.matmul(P, A)) + W
    C = np.matmul(Pm, H)
    return x, Pm, model.g(x, u1), np.matmul(H.T, C) + V, C


def do_predict(K, cfg):
    f, model, mean, P, W, V, u, r = make(K, cfg)
    u1 = K.arr('u1', (r,))
    sp = f.build_sigma_points()
    xk, yk, cxy = f.estimation_update(sigma_pts=sp, new_controls=DeltaDistribution(mean=u1.copy()))
    x, Pm, y, S, C = predicted(K, model, mean, P, W, V, u, u1)
    K.eq('state', xk.get_mean(), x, **T6)
    K.eq('covariance', xk.get_covariance(), Pm, **T6)
    K.eq('output', yk.get_mean(), y, **T6)
    K.eq('output covariance', yk.get_covariance(), S, **T6)
    if cfg.get('model') == 'views outputs':
        K.finding('cross covariance of outputs that are views of the states', bool(np.allclose(cxy, C)), 'outputs-view-states')
        return
    K.eq('cross covariance', cxy, C, **T6)
    for a, b in getattr(model, 'own', ()):
        K.eq("the model's array", a, b)


def do_steps(K, cfg):
    n, m = cfg['n'], cfg['m']
    f, model, mean, P, W, V, u, r = make(K, cfg)
    model.seen.clear()
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=definite_kept):
        run_steps(K, cfg, f, model, mean, P, W, V, u, r)


def do_composed(K, cfg):
    """a step is the prediction from the sigma points of what the last step left, followed by the correction: prediction and correction are
    replaced by their contracts (`predict`, `correct`), which give arbitrary moments"""
    if not K.symbolic:
        return do_steps(K, cfg)
    from vc import terms as T

    class Parts:     # how a step is divided is not part of the property: where it is divided otherwise, the composition is out of reach
        @staticmethod
        def eq(name, got, want):
            got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
            if got.shape != want.shape or not all(T.is_zero(T.lift(a) - T.lift(b)) for a, b in zip(got.ravel(), want.ravel())):
                raise T.Unsupported(f'composition: {name}')
            K.eq(name, got, want)

        @staticmethod
        def same(name, got, want):
            if got != want:
                raise T.Unsupported(f'composition: {name}')
            K.same(name, got, want)
    n, m = cfg['n'], cfg['m']
    f, model, mean, P, W, V, u, r = make(K, cfg)
    cov = P
    for k in range(cfg['steps']):
        calls, kw = [], {} if k % 2 else dict(option=k)
        u1, z = K.arr(f'u{k + 1}', (r,)), K.arr(f'y{k}', (m,))
        given = dict(x=K.arr(f'x{k}-', (n,)), P=sym(K, f'P{k}-', n), y=K.arr(f'yh{k}', (m,)), S=sym(K, f'S{k}', m), C=K.mat(f'C{k}', n, m))
        post, postcov = K.arr(f'x{k}+', (n,)), sym(K, f'P{k}+', n)
        points = K.mat(f'points{k}', 3, 2 * n + m)

        def last(when):
            Parts.eq(f'{when} {k}: mean of the last step', f.hidden.get_mean(), mean)
            Parts.eq(f'{when} {k}: covariance of the last step', f.hidden.get_covariance(), cov)
            Parts.eq(f'{when} {k}: control of the last step', f.controls.get_mean(), u)

        def build():
            calls.append('points')
            last('sigma points')
            return points.copy()

        def estimate(sigma_pts, new_controls, **kwargs):
            calls.append('estimation')
            last('prediction')
            Parts.eq(f'sigma points {k}', sigma_pts, points)
            Parts.eq(f'new control {k}', new_controls.get_mean(), u1)
            Parts.same(f'options {k}', kwargs, kw)
            return (MultivariateGaussian(mean=given['x'].copy(), covariance=given['P'].copy()),
                    MultivariateGaussian(mean=given['y'].copy(), covariance=given['S'].copy()), given['C'].copy())

        def correct(x_k_minus, y_hat, cov_xy, y):
            calls.append('correction')
            for name, got, want in (('predicted mean', x_k_minus.get_mean(), 'x'), ('predicted covariance', x_k_minus.get_covariance(), 'P'),
                                    ('output', y_hat.get_mean(), 'y'), ('output covariance', y_hat.get_covariance(), 'S'),
                                    ('cross covariance', cov_xy, 'C')):
                Parts.eq(f'correction {k}: {name}', got, given[want])
            Parts.eq(f'correction {k}: measurement', y.get_mean(), z)
            f.hidden = MultivariateGaussian(mean=post.copy(), covariance=postcov.copy())

        f.build_sigma_points, f.estimation_update, f.correction_update = build, estimate, correct
        new, meas = DeltaDistribution(mean=u1.copy()), DeltaDistribution(mean=z.copy())
        try:
            hid, out = f.step(new, meas, **kw)
        except TypeError as e:
            raise T.Unsupported(f'step with other parts: {e}')
        if sorted(calls) != ['correction', 'estimation', 'points']:
            raise T.Unsupported(f'step made of other parts: {calls}')
        Parts.same(f'order {k}', calls, ['points', 'estimation', 'correction'])
        mean, cov, u = post, postcov, u1
        Parts.eq(f'posterior mean {k}', hid.get_mean(), mean)
        Parts.eq(f'posterior covariance {k}', hid.get_covariance(), cov)
        Parts.eq(f'output {k}', out.get_mean(), given['y'])
        Parts.eq(f'output covariance {k}', out.get_covariance(), given['S'])
        for a in (new.mean, meas.mean, hid.mean, hid.covariance, out.mean, out.covariance):
            a[...] = K.const(7)
        last('afterwards')


def definite_kept(Sig):
    """contract of the repair of covariances (C15) for a positive definite argument: an equal matrix"""
    return Sig.copy()


def run_steps(K, cfg, f, model, mean, P, W, V, u, r):
    n, m = cfg['n'], cfg['m']
    tol = dict(rtol=1e-5, atol=1e-6)
    for k in range(cfg['steps']):
        u1, z = K.arr(f'u{k + 1}', (r,)), K.arr(f'y{k}', (m,))
        x, Pm, y, S, C = predicted(K, model, mean, P, W, V, u, u1)
        G = np.matmul(C, inverse(K, S))
        post = Pm - np.matmul(G, C.T)
        mean, P, u = x + np.matmul(G, z - y), post, u1
        new, meas = DeltaDistribution(mean=u1.copy()), DeltaDistribution(mean=z.copy())
        kw = {} if k % 2 else dict(option=k)
        hid, out = f.step(new, meas, **kw)
        K.eq(f'posterior mean {k}', hid.get_mean(), mean, **tol)
        K.eq(f'posterior covariance {k}', hid.get_covariance(), P, **tol)
        K.eq(f'output {k}', out.get_mean(), y, **tol)
        K.eq(f'output covariance {k}', out.get_covariance(), S, **tol)
        K.eq(f'kept mean {k}', f.hidden.get_mean(), mean, **tol)
        K.eq(f'kept covariance {k}', f.hidden.get_covariance(), P, **tol)
        K.eq(f'kept control {k}', f.controls.get_mean(), u1)
        K.same(f'options reach the model {k}', sorted({(w, str(a)) for w, a in model.seen}),
               [('predict', str(kw)), ('update', str(kw))])
        model.seen.clear()
        # nothing but the filter's own record is used by later steps
        for a in (new.mean, meas.mean, hid.mean, hid.covariance, out.mean, out.covariance):
            a[...] = K.const(7)
