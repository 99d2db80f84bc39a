"""Sigma points and weights: the weighted sigma points have exactly the mean and covariance of the state extended by the
noises, hence the moments obtained from them are exact for every affine function (and the mean for every quadratic
one); tuning outside the documented ranges is refused"""
import numpy as np
from .ukflib import Affine, General, definite, blocks, tuning, rotation, spectrum
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import (UnscentedKalmanFilter, assemble_unscented_estimate_from_samples,
                                                               compute_unscented_covariance)

LEVEL = 'other'
RUNS = 6
BUDGET = 60.


def configs(tier):
    out = []
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
        for tune in ('default', 'free', 'automatic'):
            out.append(dict(what='points', n=n, m=m, tune=tune, kappa=tune, diagonal=False))
            out.append(dict(what='points', n=n, m=m, tune=tune, kappa=tune, diagonal=False, noise='default'))
    for signs in ((1,), (1, 2), (1, 1), (1, 2, 2)):     # covariances that are only semi-definite
        for tune in ('default', 'free'):
            out.append(dict(what='points', n=len(signs), m=1, tune=tune, diagonal=True, signs=signs, _concrete=len(signs) > 2))
    for n, m in ((3, 3), (4, 1), (5, 2), (8, 1), (10, 3)):
        for tune in ('default', 'automatic', 'free'):
            out.append(dict(what='points', n=n, m=m, tune=tune, kappa=tune, diagonal=False, _concrete=tune == 'free' or n > 8 or n > 5 and tune != 'default'))
    for n, m in ((1, 1), (2, 1), (1, 2), (4, 2), (7, 3)):
        for kappa in ('free', 'automatic'):
            out.append(dict(what='weights', n=n, m=m, kappa=kappa))
    for n, k in ((1, 3), (2, 5), (3, 4)):
        out.append(dict(what='assemble', n=n, k=k))
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
        for tune in ('default', 'free', 'automatic') if n < 3 or tier != 'quick' else ('default',):
            out.append(dict(what='general', n=n, m=m, tune=tune, kappa=tune, r=1 + n % 2))
    out.append(dict(what='refuse', n=1, m=1))
    out.append(dict(what='refuse', n=2, m=1))
    return out


def make(K, cfg, noise=True):
    n, m = cfg['n'], cfg['m']
    mean = K.arr('mean', (n,))
    P = definite(K, 'P', n, cfg.get('diagonal'))
    kw = tuning(K, cfg, 2 * n + m)
    if cfg.get('noise') != 'default':
        kw['covariance_process_noise'] = W = definite(K, 'W', n, cfg.get('diagonal'))
        kw['covariance_sensor_noise'] = V = definite(K, 'V', m, cfg.get('diagonal'))
    else:
        W, V = np.eye(n) * 1e-8, np.eye(m) * 1e-8
    if 'signs' in cfg:
        Q, lam = rotation(K, n), spectrum(K, cfg['signs'])
        P = np.matmul(Q * lam, Q.T)
        if K.symbolic:
            from vc import shim
            shim.eigen_registry.append((blocks(K, P, W, V), blocks(K, Q, np.eye(n), np.eye(m)), np.concatenate([lam, W.diagonal(), V.diagonal()])))
    u = K.arr('u', (1,))
    model = Affine(K, n, m)
    f = UnscentedKalmanFilter(model, MultivariateGaussian(mean=mean.copy(), covariance=P.copy()), DeltaDistribution(mean=u.copy()), **kw)
    return f, model, mean, P, W, V, u, kw


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def do_weights(K, cfg):
    n, m = cfg['n'], cfg['m']
    L = 2 * n + m
    kw = tuning(K, cfg, L)
    f = UnscentedKalmanFilter(Affine(K, n, m), MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)),
                              DeltaDistribution(mean=np.zeros(1)), **kw)
    al, be = kw['alpha_param'], kw['beta_param']
    ka = 3 - L if cfg['kappa'] == 'automatic' else kw['kappa_param']
    wm, wc = f.mean_weights, f.cov_weights
    K.same('number of weights', (len(wm), len(wc)), (2 * L + 1, 2 * L + 1))
    K.eq('weights add up to one', sum(wm), 1)
    lam = al * al * (L + ka) - L
    K.eq('central weight', wm[0], lam / (L + lam))
    K.eq('central weight of the covariance', wc[0], lam / (L + lam) + 1 - al * al + be)
    for i in range(1, 2 * L + 1):
        K.eq('outer weight', wm[i], 1 / (2 * (L + lam)))
        K.eq('outer weight of the covariance', wc[i], wm[i])


def do_points(K, cfg):
    f, model, mean, P, W, V, u, kw = make(K, cfg)
    n, m = cfg['n'], cfg['m']
    L = 2 * n + m
    sp = f.build_sigma_points()
    wm, wc = f.mean_weights, f.cov_weights
    K.same('shape', sp.shape, (2 * L + 1, L))
    z = np.concatenate([mean, np.zeros(n + m)])
    K.eq('first point is the mean', sp[0], z)
    for i in range(1, L + 1):
        K.eq('points are symmetric around the mean', sp[i] + sp[i + L], 2 * z)
    dev = sp - z
    full = blocks(K, P, W, V)
    tol = dict(rtol=1e-6, atol=1e-7)
    K.eq('mean of the points', np.matmul(wm, sp), z, **tol)
    K.eq('covariance of the points', np.matmul(dev.T, dev * wc[:, None]), full, **tol)
    K.eq('covariance of the points with the weights of the mean', np.matmul(dev.T, dev * wm[:, None]), full, **tol)
    # moments of an affine function of the points
    A, b = K.mat('Z', L, 2), K.arr('zb', (2,))
    got = assemble_unscented_estimate_from_samples(np.matmul(sp, A) + b, wm, wc)
    K.eq('mean of an affine function', got['mean'], np.matmul(z, A) + b, **tol)
    K.eq('covariance of an affine function', got['covariance'], np.matmul(A.T, np.matmul(full, A)), **tol)
    K.eq('cross covariance of an affine function', compute_unscented_covariance(wc, dev, np.matmul(dev, A)), np.matmul(full, A), **tol)
    # mean of a quadratic function
    q = K.arr('q', (L,))
    quad = np.matmul(sp * sp, q)[:, None]
    want = sum(q[i] * (z[i] * z[i] + full[i, i]) for i in range(L))
    K.eq('mean of a quadratic function', assemble_unscented_estimate_from_samples(quad, wm, wc)['mean'][0], want, **tol)
    # the prediction of an affine model: exact moments of its state and output
    new = K.arr('u1', (1,))
    xk, yk, cxy = f.estimation_update(sp.copy(), DeltaDistribution(mean=new.copy()))
    A, H = model.A, model.H
    Pm = np.matmul(A.T, np.matmul(P, A)) + W
    K.eq('predicted state', xk.get_mean(), model.f(mean, u, new), **tol)
    K.eq('predicted covariance', xk.get_covariance(), Pm, **tol)
    K.eq('predicted output', yk.get_mean(), model.g(model.f(mean, u, new), new), **tol)
    K.eq('predicted output covariance', yk.get_covariance(), np.matmul(H.T, np.matmul(Pm, H)) + V, **tol)
    K.eq('predicted cross covariance', cxy, np.matmul(Pm, H), **tol)


def do_general(K, cfg):
    """any model, any points: the prediction is the weighted moments of the points moved, with the process noise of each point added
    to its state before its output is predicted and the sensor noise of each point to its output"""
    n, m, r = cfg['n'], cfg['m'], cfg['r']
    L = 2 * n + m
    model = General(K, n, m, r)
    model.unknown = K.symbolic
    before, after = K.arr('u0', (r,)), K.arr('u1', (r,))
    f = UnscentedKalmanFilter(model, MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)), DeltaDistribution(mean=before.copy()),
                              **tuning(K, cfg, L))
    pts = K.arr('p', (2 * L + 1, L))
    given = pts.copy()
    ctrl = DeltaDistribution(mean=after.copy())
    xk, yk, cxy = f.estimation_update(given, ctrl)
    x = model.f(pts[:, :n], before, after) + pts[:, n:2 * n]
    y = model.g(x, after) + pts[:, 2 * n:]
    wm, wc = f.mean_weights, f.cov_weights[:, None]
    mx, my = np.matmul(wm, x), np.matmul(wm, y)
    dx, dy = x - mx, y - my
    tol = dict(rtol=1e-6, atol=1e-7)
    K.eq('predicted state', xk.get_mean(), mx, **tol)
    K.eq('predicted covariance', xk.get_covariance(), np.matmul(dx.T, wc * dx), **tol)
    K.eq('predicted output', yk.get_mean(), my, **tol)
    K.eq('predicted output covariance', yk.get_covariance(), np.matmul(dy.T, wc * dy), **tol)
    K.eq('predicted cross covariance', cxy, np.matmul(dx.T, wc * dy), **tol)
    K.eq('points given', given, pts)
    K.eq('control given', ctrl.mean, after)
    K.eq('control kept', f.controls.mean, before)


def do_assemble(K, cfg):
    n, k = cfg['n'], cfg['k']
    s = K.arr('s', (k, n))
    w, c = K.arr('w', (k,)), K.arr('c', (k,))
    tot = sum(w)
    K.assume(tot > 0.2 if not K.symbolic else tot != 0)
    got = assemble_unscented_estimate_from_samples(s.copy(), w / tot, c.copy())
    mu = np.matmul(w / tot, s)
    tol = dict(rtol=1e-6, atol=1e-7)
    K.eq('mean', got['mean'], mu, **tol)
    d = s - mu
    K.eq('covariance', got['covariance'], np.matmul(d.T, c[:, None] * d), **tol)
    e = K.arr('e', (k, 2))
    K.eq('cross covariance', compute_unscented_covariance(c, d, e), np.matmul(d.T, c[:, None] * e), **tol)
    K.eq('own covariance', compute_unscented_covariance(c, d), np.matmul(d.T, c[:, None] * d), **tol)


def do_refuse(K, cfg):
    n, m = cfg['n'], cfg['m']
    L = 2 * n + m

    def build(**kw):
        return UnscentedKalmanFilter(Affine(K, n, m), MultivariateGaussian(mean=np.zeros(kw.pop('dim', n)), covariance=np.eye(kw.pop('cdim', n))),
                                     DeltaDistribution(mean=np.zeros(1)), **kw)
    e = (AssertionError, ValueError)
    a = K.real('a', pos=True, box=(.01, 1))
    K.raises('alpha too small', lambda: build(alpha_param=0.001 - a), e)
    K.raises('alpha too large', lambda: build(alpha_param=1. + a), e)
    K.raises('beta negative', lambda: build(beta_param=-a), e)
    K.raises('kappa too small', lambda: build(kappa_param=-L), e)
    K.raises('kappa far too small', lambda: build(kappa_param=-L - .5), e)
    K.raises('process noise of the wrong size', lambda: build(covariance_process_noise=np.eye(n + 1)), e)
    K.raises('process noise not square', lambda: build(covariance_process_noise=np.ones((n, n + 1))), e)
    K.raises('sensor noise of the wrong size', lambda: build(covariance_sensor_noise=np.eye(m + 1)), e)
    K.raises('sensor noise not square', lambda: build(covariance_sensor_noise=np.ones((m, m + 1))), e)
    K.raises('state of the wrong size', lambda: build(dim=n + 1, cdim=n + 1), e)
    f = build(kappa_param=-L + a, alpha_param=0.001, beta_param=0.)
    K.eq('accepted at the limits', sum(f.mean_weights), 1, rtol=1e-3, atol=1e-3)
    f = build()
    K.eq('default process noise', f.cov_w, np.eye(n) * 1e-8)
    K.eq('default sensor noise', f.cov_v, np.eye(m) * 1e-8)
