"""A small cell model with its own state, health parameters, inputs and outputs, as plain polynomials, for the contracts of
the estimators; and the textbook unscented filter"""
from typing import Optional
import numpy as np
from pydantic import Field
from moirae.models.base import (GeneralContainer, ScalarParameter, ListParameter, HealthVariable, InputQuantities, OutputQuantities,
                                CellModel, DegradationModel)
from moirae.estimators.online.filters.conversions import IdentityConversionOperator, LinearConversionOperator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian


class Part(HealthVariable):
    r: ScalarParameter = 1.
    s: ScalarParameter = 1.


class Health(HealthVariable):
    p: ScalarParameter = 1.
    q: ListParameter = Field(default=(1., 1.))
    part: Part = Field(default_factory=Part)
    k: ScalarParameter = 1.


class State(GeneralContainer):
    x: ScalarParameter = 0.
    z: Optional[ListParameter] = None


class In(InputQuantities):
    extra: Optional[ScalarParameter] = None


class Out(OutputQuantities):
    more: Optional[ScalarParameter] = None


ORDER = ('p', 'q', 'part.r', 'part.s', 'k')
NAMES = {'p': 1, 'q': 2, 'part.r': 1, 'part.s': 1, 'k': 1}


def health(v):
    """from a dict of rows"""
    return Health(p=v['p'], q=v['q'], part=Part(r=v['part.r'], s=v['part.s']), k=v['k'])


class Poly(CellModel):
    """each new state and output is a polynomial of previous input, new input, state and health parameters"""

    def __init__(self, nz=0, extra=False, more=False, curved=True):
        self.nz, self.extra, self.more, self.curved = nz, extra, more, curved

    @staticmethod
    def health_columns(a):
        return [a.p, a.q[:, :1], a.q[:, 1:], a.part.r, a.part.s, a.k]

    def f(self, prev, new, x, h):
        """lists of columns"""
        dt = new[0] - prev[0]
        out = []
        for j in range(1 + self.nz):
            v = x[j] * (0.5 + 0.125 * j) + 0.25 * prev[1] * (j + 1) + 0.5 * new[1] + 0.125 * dt
            v = v + h[0] * (0.5 - 0.25 * j) + h[1] * 0.25 + h[2] * 0.375 + h[3] * 0.0625 * (1 + j) - h[4] * 0.5 + h[5] * 0.75
            for e, d in zip(prev[2:], new[2:]):
                v = v + 0.125 * e - 0.25 * d
            if j:
                v = v + 0.25 * x[0]
            if self.curved:
                v = v + 0.0625 * x[j] * h[0] + 0.03125 * x[0] * new[1] * h[3] + 0.015625 * h[1] * dt * prev[1]
            out.append(v)
        return out

    def g(self, new, x, h):
        out = []
        for j in range(1 + self.more):
            v = x[0] * (1. - 0.5 * j) + new[1] * (0.25 + 0.5 * j) + 0.0625 * new[0] + h[0] * 0.5 - h[1] * 0.25 + h[2] * 0.125 + h[3] * (0.5 + j)
            v = v + h[4] * 0.375 + h[5] * 0.25
            for e in new[2:]:
                v = v + 0.5 * e
            for i, z in enumerate(x[1:]):
                v = v + z * 0.125 * (i + 1 + j)
            if self.curved:
                v = v + 0.0625 * new[1] * h[3] + 0.03125 * x[-1] * h[2] * (1 - 2 * j)
            out.append(v)
        return out

    @staticmethod
    def columns(c):
        return [np.atleast_2d(np.asarray(c.to_numpy())[:, i].reshape(-1, 1)) for i in range(c.to_numpy().shape[1])]

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        v = self.f(self.columns(previous_inputs), self.columns(new_inputs), self.columns(transient_state), self.health_columns(asoh))
        return State(x=v[0], z=np.concatenate(v[1:], axis=1) if self.nz else None)

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        v = self.g(self.columns(new_inputs), self.columns(transient_state), self.health_columns(asoh))
        return Out(terminal_voltage=v[0], more=v[1] if self.more else None)


class Deaf(Poly):
    """the health parameters make no difference: one row of results stands for all of a batch of them"""

    def f(self, prev, new, x, h):
        return super().f(prev, new, x, [0.] * len(h))

    def g(self, new, x, h):
        return super().g(new, x, [0.] * len(h))


def unknown(columns):
    """is there a symbol among the values"""
    return any(isinstance(v, np.ndarray) and v.dtype == object or type(v).__name__ == 'R' for v in columns)


def apply(name, i, *args):
    """the i-th component of an uninterpreted function of columns (or of values), member by member"""
    from vc import terms as T
    flat = [a for part in args for a in part]
    if not any(isinstance(a, np.ndarray) for a in flat):
        return T.app(name, f'{i}/{",".join(str(len(p)) for p in args)}', *[T.lift(a) for a in flat])
    flat = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in flat])
    out = np.empty(flat[0].shape, dtype=object)
    for k in np.ndindex(out.shape):
        out[k] = T.app(name, f'{i}/{",".join(str(len(p)) for p in args)}', *[T.lift(a[k]) for a in flat])
    return out


class Any(Poly):
    """any model whose members do not interact: in proofs the state and the outputs are uninterpreted functions"""

    def f(self, prev, new, x, h):
        if unknown(list(prev) + list(new) + list(x) + list(h)):
            return [apply('f', j, prev, new, x, h) for j in range(1 + self.nz)]
        return Poly.f(self, prev, new, x, h)

    def g(self, new, x, h):
        if unknown(list(new) + list(x) + list(h)):
            return [apply('g', j, new, x, h) for j in range(1 + self.more)]
        return Poly.g(self, new, x, h)


class Fade(DegradationModel):
    """every parameter shrinks by its own factor"""
    factors = (0.5, 0.75, 0.875, 0.25, 0.625, 0.375)

    def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
        f = self.factors
        a = previous_asoh.model_copy(deep=True)
        a.p, a.q, a.part.r, a.part.s, a.k = (previous_asoh.p * f[0], previous_asoh.q * np.array([f[1:3]]), previous_asoh.part.r * f[3],
                                             previous_asoh.part.s * f[4], previous_asoh.k * f[5])
        return a


class Wear(DegradationModel):
    """parameters change with everything that is passed on"""

    def __init__(self, in_place=False):
        self.in_place = in_place

    @staticmethod
    def rule(h, u, x, y):
        """new parameters (columns) of old parameters, inputs, state and outputs"""
        if unknown(h + u + x + y):
            return [apply('wear', i, h, u, x, y) for i in range(len(h))]
        s = u[0] * 0.0625 + u[1] * 0.125 + x[0] * 0.25 + x[-1] * 0.5 + y[0] * 0.375 + y[-1] * 0.03125
        return [v * (0.5 + 0.0625 * i) + s * (0.25 * i + 0.125) for i, v in enumerate(h)]

    def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
        p = previous_asoh
        h = self.rule(Poly.health_columns(p), *[Poly.columns(c) for c in (new_inputs, new_transients, new_measurements)])
        a = p if self.in_place else p.model_copy(deep=True)
        a.p, a.q, a.part.r, a.part.s, a.k = h[0], np.concatenate(h[1:3], axis=1), h[3], h[4], h[5]
        return a


class World:
    """initial values of everything, and what the model makes of rows of them"""

    def __init__(self, K, nz=0, extra=False, more=False, curved=True, updatable=('p', 'part.r'), names=None, pos=False, nonzero=(), deaf=False, any_model=False):
        self.K, self.nz, self.extra, self.more = K, nz, extra, more
        self.model = (Any if any_model else Deaf if deaf else Poly)(nz, extra, more, curved)
        self.updatable = tuple(updatable)
        self.names = self.updatable if names is None else tuple(names)
        self.h = {n: K.arr(f'h.{n}', (1, w), pos=pos, box=(.4, 2.)) for n, w in NAMES.items()}
        for n in nonzero:
            for v in self.h[n][0]:
                K.assume(v != 0)
        self.x = K.arr('x', (1 + nz,))
        self.u = self.controls('u0')
        self.nt, self.na = 1 + nz, sum(NAMES[n] for n in self.names)
        self.nu, self.m = 2 + extra, 1 + more

    def controls(self, name):
        return self.K.arr(name, (2 + self.extra,))

    def asoh(self):
        a = health({n: v.copy() for n, v in self.h.items()})
        for n in self.updatable:
            a.mark_updatable(n)
        return a

    def state(self, x=None):
        x = self.x if x is None else x
        return State(x=x[:1].copy(), z=x[1:].copy() if self.nz else None)

    def inputs(self, u=None):
        u = self.u if u is None else u
        return In(time=u[:1].copy(), current=u[1:2].copy(), extra=u[2:].copy() if self.extra else None)

    def worn(self, kind, values, u, x):
        """the named parameters after degradation, which is told inputs, state and the outputs for these"""
        full = self.health_row(values)
        if kind == 'fade':
            full = [v * c for v, c in zip(full, Fade.factors)]
        elif kind == 'wear':
            full = Wear.rule(full, list(u), list(x), self.model.g(list(u), list(x), full))
        return self.pick(full)

    def outputs(self, y):
        return Out(terminal_voltage=y[:1].copy(), more=y[1:].copy() if self.more else None)

    def health_row(self, values=None, names=None):
        """flat list of all parameters, the named ones replaced by the values"""
        h = {n: list(v[0]) for n, v in self.h.items()}
        if values is not None:
            i = 0
            for n in (self.names if names is None else names):
                for j in range(NAMES[n]):
                    h[n][j] = values[i]
                    i += 1
        return [v for n in ORDER for v in h[n]]

    def pick(self, row, names=None):
        """the named entries of a flat list of all parameters"""
        at, i = {}, 0
        for n in ORDER:
            at[n] = list(row[i:i + NAMES[n]])
            i += NAMES[n]
        return [v for n in (self.names if names is None else names) for v in at[n]]

    def f(self, x, u0, u1, values=None):
        return self.model.f(list(u0), list(u1), list(x), self.health_row(values))

    def g(self, x, u1, values=None):
        return self.model.g(list(u1), list(x), self.health_row(values))


def operator(K, kind, n, name):
    """conversion operator, its matrix and its bias (from the coordinates of the filter to those of the model)"""
    dt = object if K.symbolic else float
    M, b = np.zeros((n, n), dtype=dt), np.zeros(n, dtype=dt)
    if K.symbolic:
        M[...] = K.const(0)
        b[...] = K.const(0)
    for i in range(n):
        M[i, i] = K.const(1)
    if kind == 'id':
        return IdentityConversionOperator(), M, b
    kw = {}
    if 'bias' in kind:
        b = K.arr(name + '.b', (n,))
        kw['additive_array'] = b.copy()
    if 'diag' in kind:
        d = K.arr(name + '.d', (n,), pos=True, box=(.4, 2.))
        for i in range(n):
            M[i, i] = d[i]
        kw['multiplicative_array'] = d.copy()
    if 'full' in kind:
        # any matrix with a given pattern that is regular: unit lower triangular times diagonal, columns swapped
        d = K.arr(name + '.d', (n,), pos=True, box=(.4, 2.))
        for i in range(n):
            for j in range(i + 1):
                M[i, j] = d[i] if i == j else K.real(f'{name}.m{i}{j}', box=(-.5, .5))
        if n > 1:
            M = M[:, ::-1].copy()
        kw['multiplicative_array'] = M.copy()
    return LinearConversionOperator(**kw), M, b


def solve_rows(K, M, y):
    """y M^-1 for the matrices of `operator`"""
    n = len(M)
    if all(not _nz(M[i, j]) for i in range(n) for j in range(n) if i != j):
        return np.array([[r[j] / M[j, j] for j in range(n)] for r in y], dtype=y.dtype)
    from .ukflib import inverse
    if n <= 2 or not K.symbolic:
        return np.matmul(y, inverse(K, M))
    # columns reversed lower triangular: substitution
    out = []
    for r in y:
        t = list(r)[::-1]
        x = [None] * n
        for j in reversed(range(n)):
            v = t[j]
            for i in range(j + 1, n):
                v = v - x[i] * M[i, n - 1 - j]
            x[j] = v / M[j, n - 1 - j]
        out.append(x)
    return np.array(out, dtype=y.dtype)


def _nz(v):
    from vc.terms import R
    return bool(v.terms) if isinstance(v, R) else v != 0


def chol_definite(K, name, n, diagonal=False):
    """a positive definite matrix given by its Cholesky factor"""
    L = np.zeros((n, n), dtype=object if K.symbolic else float)
    if K.symbolic:
        L[...] = K.const(0)
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                L[i, j] = K.real(f'{name}l{i}{j}', pos=True, box=(.3, 1.))
            elif not diagonal:
                L[i, j] = K.real(f'{name}l{i}{j}', box=(-.4, .4))
    return L, np.matmul(L, L.T)


def unscented(f, g, K, W, V, mean, P, u0, u1, y, alpha=1., beta=2., kappa=0.):
    """textbook unscented filter (augmented, additive noise): posterior mean, covariance, predicted output and its covariance"""
    n, m = len(mean), len(V)
    N = 2 * n + m
    lam = alpha ** 2 * (N + kappa) - N
    from .ukflib import blocks, inverse
    S = blocks(K, P, W, V)
    if K.symbolic:
        from vc import shim
        S = shim.cholesky(S)
    else:
        S = np.linalg.cholesky(S)
    wm = [K.const(lam) / (N + lam)] + [K.const(1) / (2 * (N + lam))] * (2 * N)
    wc = [wm[0] + (1 - alpha ** 2 + beta)] + wm[1:]
    pts = [np.concatenate([mean, K.const(0) * np.ones(n + m)])]
    root = K.sqrt(K.const(N + lam)) if K.symbolic else np.sqrt(N + lam)
    for sgn in (1, -1):
        for k in range(N):
            pts.append(pts[0] + sgn * root * S[:, k])
    X = np.array([f(p[:n], u0, u1) + p[n:2 * n] for p in pts])
    xm = sum(w * r for w, r in zip(wm, X))
    Y = np.array([g(r, u1) + p[2 * n:] for r, p in zip(X, pts)])
    ym = sum(w * r for w, r in zip(wm, Y))
    Pm = sum(w * np.outer(r - xm, r - xm) for w, r in zip(wc, X))
    Sy = sum(w * np.outer(r - ym, r - ym) for w, r in zip(wc, Y))
    C = sum(w * np.outer(r - xm, s - ym) for w, r, s in zip(wc, X, Y))
    G = C @ inverse(K, Sy)
    return xm + G @ (y - ym), Pm - G @ Sy @ G.T, ym, Sy
