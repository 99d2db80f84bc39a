"""Covariances stay covariances: a symmetric matrix is replaced by the nearest positive semi-definite one - the matrix with
the negative eigenvalues set to zero - a positive definite one is kept as it is, one that is not symmetric is replaced
by the nearest to its symmetric part, and the covariance the filter keeps after a step is symmetric and positive
semi-definite whatever the model"""
import numpy as np
from .ukflib import Affine, definite, blocks, tuning, inverse, sym, rotation, spectrum
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite, enforce_positive_semi_defiteness

LEVEL = 'other'
RUNS = 6
BUDGET = 90.
TOL = 10.


def configs(tier):
    out = []
    for n in (1, 2, 3):
        for signs in sorted({tuple(sorted(s)) for s in np.ndindex(*(3,) * n)}):
            out.append(dict(what='spectral', n=n, signs=signs, asym=False))
            if n == 2:
                out.append(dict(what='spectral', n=n, signs=signs, asym=True))
                out.append(dict(what='spectral', n=n, signs=signs, asym='hardly', _runs=4))
    for n in (1, 2, 3):
        out.append(dict(what='keep', n=n))
    for n in (1, 2, 3, 4, 6, 9):
        for k in range(3):
            out.append(dict(what='nearest', n=n, k=k, _concrete=True))
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append(dict(what='correct', n=n, m=m))
    for n, m in ((1, 1), (2, 1), (3, 2), (5, 1)):
        for tune in ('default', 'free', 'automatic'):
            out.append(dict(what='filter', n=n, m=m, tune=tune, kappa=tune, steps=8, _concrete=True))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def do_spectral(K, cfg):
    """a symmetric matrix given by its eigenvectors and eigenvalues"""
    n = cfg['n']
    Q, lam = rotation(K, n), spectrum(K, cfg['signs'])
    S = np.matmul(Q * lam, Q.T)
    if K.symbolic:
        from vc import shim
        shim.eigen_registry.append((S, Q, lam))
    want = np.matmul(Q * np.array([K.ite(v >= 0, v, K.const(0)) for v in lam], dtype=lam.dtype), Q.T)
    given = S
    if cfg['asym']:
        # symmetric up to the tolerance of 1e-5 counts as symmetric
        hardly = cfg['asym'] == 'hardly'
        a = K.real('a', pos=True, box=(2e-5, 1e-3) if hardly else (.01, 2))
        if hardly:
            K.assume(a >= 2e-5)
            a = a * (1 + K.abs(S[0, 1]))
        else:
            K.assume(a >= 0.001 * (1 + K.abs(S[0, 1])))
        given = S.copy()
        given[0, 1] = given[0, 1] + a
        given[1, 0] = given[1, 0] - a
    keep = given.copy()
    tol = dict(rtol=1e-6, atol=1e-8)
    got = ensure_positive_semi_definite(given)
    K.eq('nearest', got, want, **tol)
    K.eq('symmetric', got, got.T, **tol)
    K.eq('argument kept', given, keep)
    K.eq('enforced', enforce_positive_semi_defiteness(given), want, **tol)
    for v in want.diagonal():
        K.le('variances are not negative', K.const(0), v)


def do_keep(K, cfg):
    P = definite(K, 'P', cfg['n'])
    got = ensure_positive_semi_definite(P)
    K.eq('positive definite matrices are kept', got, P)
    got[0, 0] = got[0, 0] + 1
    K.holds('a new matrix', K.eqb(got[0, 0], P[0, 0] + 1))


def do_nearest(K, cfg):
    """against the spectral decomposition"""
    n = cfg['n']
    A = K.mat('A', n)
    if cfg['k'] == 0:
        A = (A + A.T) / 2
    elif cfg['k'] == 1:
        A = np.matmul(A[:, :max(1, n - 1)], A[:, :max(1, n - 1)].T)     # singular
    S = (A + A.T) / 2
    w, Q = np.linalg.eigh(S)
    want = (Q * np.maximum(w, 0)) @ Q.T
    got = ensure_positive_semi_definite(A.copy())
    K.eq('nearest', got, want, rtol=1e-6, atol=1e-8)
    K.eq('symmetric', got, got.T, rtol=1e-6, atol=1e-8)
    K.le('no negative eigenvalue', -1e-9 * (1 + abs(w).max()), float(np.linalg.eigvalsh((got + got.T) / 2).min()))


def do_correct(K, cfg):
    """the corrected covariance is P - C S^-1 C', repaired; it is symmetric"""
    n, m = cfg['n'], cfg['m']
    seen = []

    def repair(Sig):
        seen.append(Sig)
        out = sym(K, 'repaired', n)
        return out
    P, S, C = sym(K, 'P', n), definite(K, 'S', m), K.mat('C', n, m, box=(-.4, .4))
    f = UnscentedKalmanFilter(Affine(K, n, m), MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)), DeltaDistribution(mean=np.zeros(1)))
    args = dict(x_k_minus=MultivariateGaussian(mean=K.arr('x', (n,)), covariance=P.copy()),
                y_hat=MultivariateGaussian(mean=K.arr('yh', (m,)), covariance=S.copy()), cov_xy=C.copy(),
                y=DeltaDistribution(mean=K.arr('y', (m,))))
    raw = P - np.matmul(np.matmul(C, inverse(K, S)), C.T)
    tol = dict(rtol=1e-6, atol=1e-7)
    with K.contracts(estimators__online__filters__kalman__unscented__ensure_positive_semi_definite=repair):
        got = f.correction_update(**args)
    got = f.hidden if got is None else got
    if K.symbolic:
        if len(seen) != 1:
            from vc.terms import Unsupported
            raise Unsupported('the repair is not where its contract can be put')
        K.eq('what is repaired', seen[0], raw)
        K.eq('the repaired matrix is kept', got.get_covariance(), sym(K, 'repaired', n))
    else:
        w, Q = np.linalg.eigh(raw)
        K.eq('posterior', got.get_covariance(), (Q * np.maximum(w, 0)) @ Q.T, **tol)


class Curved(Affine):
    """a model that is not affine"""

    def f(self, x, before, after):
        return np.sin(super().f(x, before, after)) * 2 + 0.3 * x ** 2 / (1 + x ** 2)

    def g(self, x, after):
        y = super().g(x, after)
        return y + 0.5 * np.tanh(y) ** 2


def do_filter(K, cfg):
    n, m = cfg['n'], cfg['m']
    model = Curved(K, n, m)
    P, W, V = definite(K, 'P', n, n > 2), definite(K, 'W', n, n > 2), definite(K, 'V', m, True)
    f = UnscentedKalmanFilter(model, MultivariateGaussian(mean=K.arr('x', (n,)), covariance=P), DeltaDistribution(mean=K.arr('u', (1,))),
                              covariance_process_noise=W, covariance_sensor_noise=V, **tuning(K, cfg, 2 * n + m))
    for k in range(cfg['steps']):
        hid, out = f.step(DeltaDistribution(mean=K.arr(f'u{k}', (1,))), DeltaDistribution(mean=K.arr(f'y{k}', (m,))))
        for name, c in (('kept', f.hidden.get_covariance()), ('returned', hid.get_covariance())):
            K.eq(f'{name} covariance symmetric {k}', c, c.T, rtol=1e-5, atol=1e-8)
            w = np.linalg.eigvalsh((c + c.T) / 2)
            K.le(f'{name} covariance positive {k}', -1e-8 * (1 + abs(w).max()), float(w.min()))
            K.holds(f'{name} covariance finite {k}', bool(np.all(np.isfinite(c))))
            K.le(f'{name} variances positive {k}', -1e-8, float(c.diagonal().min()))
