"""Models for the filter, seen as plain functions of numpy arrays, and the textbook filter to compare with"""
import numpy as np


class Affine:
    """x' = x A + u_before B + u_after C + a,   y = x H + u_after D + h   (rows are states)"""

    def __init__(self, K, n, m, r=1, seen=None, noise=''):
        self.n, self.m = n, m
        self.num_hidden_dimensions, self.num_output_dimensions = n, m
        self.A, self.B, self.C, self.a = K.mat('A', n), K.mat('B', r, n), K.mat('C', r, n), K.arr('a', (n,))
        self.H, self.D, self.h = K.mat('H', n, m), K.mat('D', r, m), K.arr('h', (m,))
        self.seen = [] if seen is None else seen

    def f(self, x, before, after):
        return np.matmul(x, self.A) + np.matmul(before, self.B) + np.matmul(after, self.C) + self.a

    def g(self, x, after):
        return np.matmul(x, self.H) + np.matmul(after, self.D) + self.h

    def update_hidden_states(self, hidden_states, previous_controls, new_controls, **kw):
        self.seen.append(('update', kw))
        return self.f(hidden_states, previous_controls, new_controls)

    def predict_measurement(self, hidden_states, controls, **kw):
        self.seen.append(('predict', kw))
        return self.g(hidden_states, controls)


class General(Affine):
    """any model whose rows do not interact: in proofs, its values are uninterpreted functions of row and controls"""
    unknown = False

    def f(self, x, before, after):
        if self.unknown:
            return self.rows('f', self.n, x, before, after)
        return np.sin(super().f(x, before, after)) + .3 * np.asarray(x) ** 2

    def g(self, x, after):
        if self.unknown:
            return self.rows('g', self.m, x, after)
        return np.cos(super().g(x, after)) + .2 * (np.asarray(x) ** 2).sum(axis=-1, keepdims=True)

    def rows(self, tag, size, x, *controls):
        from vc import terms as T
        rest = [T.lift(v) for c in controls for v in np.asarray(c).reshape(-1)]
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape[:-1] + (size,), dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = T.app(tag, i[-1], *[T.lift(v) for v in x[i[:-1]]], *rest)
        return out


def sym(K, name, n):
    """symmetric matrix"""
    out = K.mat(name, n)
    for i in range(n):
        for j in range(i):
            out[i, j] = out[j, i]
    return out


def pivots(K, P):
    """pivots of P (all positive: positive definite)"""
    P = np.array(P, dtype=object if K.symbolic else float)
    n = len(P)
    out = []
    for k in range(n):
        out.append(P[k, k])
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                P[i, j] = P[i, j] - P[i, k] * P[k, j] / P[k, k]
    return out


def definite(K, name, n, diagonal=False):
    """a positive definite matrix: any product L L' of a lower triangular one with positive diagonal and its transpose"""
    if diagonal or n == 1:
        d = K.arr(name, (n,), pos=True, box=(.2, 3))
        out = np.zeros((n, n), dtype=object if K.symbolic else float)
        if K.symbolic:
            out[...] = K.const(0)
        for i in range(n):
            out[i, i] = d[i]
        return out
    L = np.zeros((n, n), dtype=object if K.symbolic else float)
    if K.symbolic:
        L[...] = K.const(0)
    for i in range(n):
        for j in range(i + 1):
            L[i, j] = K.real(f'{name}[{i},{j}]', pos=i == j, box=(.8, 1.8) if i == j else (-.6, .6))
    return np.matmul(L, L.T)


def inverse(K, M):
    n = len(M)
    if n == 1:
        return np.array([[1 / M[0, 0]]], dtype=M.dtype)
    if n == 2:
        d = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        return np.array([[M[1, 1] / d, -M[0, 1] / d], [-M[1, 0] / d, M[0, 0] / d]], dtype=M.dtype)
    return np.linalg.inv(M)


def blocks(K, *ms):
    n = sum(len(m) for m in ms)
    out = np.zeros((n, n), dtype=object if K.symbolic else float)
    if K.symbolic:
        out[...] = K.const(0)
    p = 0
    for m in ms:
        out[p:p + len(m), p:p + len(m)] = m
        p += len(m)
    return out


def tuning(K, cfg, L):
    """alpha, beta, kappa as configured"""
    if cfg.get('tune') == 'default':
        return {}
    kw = {}
    if 'alpha' not in cfg.get('fix', ()):
        kw['alpha_param'] = K.real('alpha', lo=0.001, hi=1., box=(0.1, 1.), special=(1.,))
    kw['beta_param'] = K.real('beta', nonneg=True, box=(0, 3.), special=(0., 2.))
    if cfg.get('kappa') == 'automatic':
        kw['kappa_param'] = 'automatic'
    else:
        kw['kappa_param'] = K.real('kappa', box=(-L + .5, 4.), special=(0.,))
        K.assume(kw['kappa_param'] + L > 0)
    return kw


def rotation(K, n, name='t'):
    """orthogonal matrix with rational entries (Cayley transform): every rotation up to a closed set"""
    if n == 1:
        return np.array([[K.const(1)]], dtype=object if K.symbolic else float)
    if n == 2:
        t = K.real(name, box=(-2, 2))
        d = 1 + t * t
        return np.array([[(1 - t * t) / d, -2 * t / d], [2 * t / d, (1 - t * t) / d]], dtype=object if K.symbolic else float)
    # rotation in the plane (0, 1) composed with one in the plane (1, 2)
    out = None
    for k, ij in enumerate(((0, 1), (1, 2)) if n == 3 else ()):
        R = np.zeros((n, n), dtype=object if K.symbolic else float)
        for i in range(n):
            for j in range(n):
                R[i, j] = K.const(1 if i == j else 0)
        R[np.ix_(ij, ij)] = rotation(K, 2, f'{name}{k}')
        out = R if out is None else np.matmul(out, R)
    return out


def spectrum(K, signs):
    lam = []
    for i, s in enumerate(signs):
        v = K.real(f'l{i}', pos=True, box=(.2, 3))
        lam.append({0: -v, 1: K.const(0), 2: v}[int(s)])
    return np.array(lam, dtype=object if K.symbolic else float)
