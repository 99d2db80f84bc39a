"""External functions under assumed contracts, for object arrays of terms.

While a symbolic run is active, the globals of the moirae modules that name numpy (or one of the functions below)
are rebound to these versions; the moirae code itself is untouched.  Everything not overridden is real numpy acting
on object arrays, so indexing, views, aliasing, broadcasting, reshaping and concatenation are numpy's own.
"""
import contextlib
import math
import sys
import types

import numpy as np

from . import terms as T
from . import explore
from .terms import R, Bool, Unsupported


def is_obj(x):
    if isinstance(x, (R, Bool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_obj(y) for y in x)
    return False


def only(_given, **allowed):
    """keyword arguments outside the contract of a function are not supported"""
    for n, v in _given.items():
        ok = allowed.get(n, ())
        if v is None or v is np._NoValue or ok is Ellipsis:
            continue
        if not isinstance(ok, tuple) or not any(v is x or (isinstance(x, (int, float, str)) and isinstance(v, type(x)) and v == x) for x in ok):
            raise Unsupported(f'argument {n}={v!r}')


def kind(dtype):
    """real, or the integer type"""
    if dtype is None or dtype is object:
        return None
    d = np.dtype(dtype)
    if d.kind in 'biu':
        return d
    if d.kind == 'O' or d == np.float64:
        return None
    raise Unsupported(f'dtype {d}')


def sym_any(*xs):
    return any(is_obj(x) for x in xs)


def lift1(x):
    if isinstance(x, (R, Bool)):
        return x
    r = T.lift(x)
    if r is NotImplemented:
        raise Unsupported(f'value {x!r}')
    return r


def lift_arr(x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x.view(np.ndarray)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = lift1(a[i])
    return out


def umap(f, *xs):
    arrs = [lift_arr(x) for x in xs]
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out if out.ndim else out[()]


class NonFinite(Unsupported):
    pass


_over = {}


def over(name):
    def deco(f):
        real = np
        for p in name.split('.'):
            real = getattr(real, p)

        def g(*a, **k):
            if not _sym_args(a, k):
                return real(*a, **k)
            return f(*a, **k)
        g.__name__ = name
        g._real = real
        _over[name] = g
        return g
    return deco


def _sym_args(a, k):
    return any(is_obj(x) for x in a) or any(is_obj(x) for x in k.values())


@over('exp')
def exp(x, **k):
    return umap(lambda v: T.lift(v).exp(), x)


@over('expm1')
def expm1(x):
    return umap(lambda v: T.lift(v).exp() - 1, x)


@over('log')
def log(x):
    return umap(lambda v: T.lift(v).log(), x)


@over('sqrt')
def sqrt(x):
    return umap(lambda v: T.lift(v).sqrt(), x)


def _sqrt_any(x):
    # exact also for concrete scalars, so that sqrt(3) squared is 3
    if isinstance(x, (int, float, np.integer, np.floating)) and x >= 0:
        r = T.lift(x).sqrt()
        return np.sqrt(x) if r.is_const() else r
    return np.sqrt(x) if not _sym_args((x,), {}) else sqrt._of(x)


sqrt._of = lambda x: umap(lambda v: T.lift(v).sqrt(), x)
sqrt._real = np.sqrt
_sqrt_any._real = np.sqrt
_over['sqrt'] = _sqrt_any


@over('abs')
def abs_(x):
    return umap(lambda v: abs(T.lift(v)), x)


over('absolute')(lambda x: umap(lambda v: abs(T.lift(v)), x))
over('fabs')(lambda x: umap(lambda v: abs(T.lift(v)), x))


@over('sign')
def sign(x):
    return umap(lambda v: T.lift(v).sign(), x)


@over('square')
def square(x):
    return umap(lambda v: v * v, x)


@over('power')
def power(x, n):
    return umap(lambda v, m: T.lift(v) ** m, x, n)


@over('tanh')
def tanh(x):
    return umap(lambda v: (T.lift(2 * v).exp() - 1) / (T.lift(2 * v).exp() + 1), x)


@over('maximum')
def maximum(a, b):
    return umap(lambda x, y: T.ite(x >= y, x, y), a, b)


@over('minimum')
def minimum(a, b):
    return umap(lambda x, y: T.ite(x <= y, x, y), a, b)


@over('clip')
def clip(a, a_min=None, a_max=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    only(k, min=..., max=...)
    if a_min is not None:
        a = _over['maximum'](a, a_min)
    if a_max is not None:
        a = _over['minimum'](a, a_max)
    return a


@over('where')
def where(c, *ab):
    if not ab:
        return np.where(np.vectorize(bool, otypes=[bool])(c))
    a, b = ab
    cc = np.asarray(c)
    if cc.dtype != object:
        a, b, cc = np.broadcast_arrays(lift_arr(a), lift_arr(b), cc)
        out = np.empty(cc.shape, dtype=object)
        for i in np.ndindex(cc.shape):
            out[i] = a[i] if cc[i] else b[i]
        return out
    return umap(lambda c_, x, y: T.ite(T.lift_bool(c_), x, y), c, a, b)


def _special(test, symbols=False):
    # symbols are real numbers; plain floats among them (fill values, say) are judged as they are
    def found(x):
        a = np.asarray(x, dtype=object)
        out = np.full(a.shape, symbols)
        for i in np.ndindex(a.shape):
            if isinstance(a[i], (float, np.floating)):
                out[i] = test(a[i])
        return out if out.ndim else np.bool_(out[()])
    return found


over('isnan')(_special(math.isnan))
over('isinf')(_special(math.isinf))
over('isfinite')(_special(math.isfinite, True))


@over('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        d = T.lift(x) - T.lift(y)
        if T.is_zero(d):
            return T.TRUE
        return abs(d) <= T.R.const(atol) + T.R.const(rtol) * abs(T.lift(y))
    a, b = np.broadcast_arrays(lift_arr(a), lift_arr(b))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        out[i] = bool(f(a[i], b[i]))
    return out if out.ndim else out[()]


over('allclose')(lambda a, b, **k: bool(np.all(_over['isclose'](a, b, **k))))


@over('array_equal')
def array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


over('logical_and')(lambda a, b: _truth(a, b, lambda x, y: x and y))
over('logical_or')(lambda a, b: _truth(a, b, lambda x, y: x or y))


def _truth(a, b, f):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        out[i] = f(bool(a[i]), bool(b[i]))
    return out if out.ndim else out[()]


@over('nan_to_num')
def nan_to_num(x, **k):
    return x


@over('linspace')
def linspace(a, b, num=50, **k):
    only(k, endpoint=(True,), axis=(0,), dtype=(float,))
    a, b = lift1(a), lift1(b)
    return np.array([a + (b - a) * T.R.const(T.Fraction(i, num - 1)) for i in range(num)], dtype=object)


@over('diff')
def diff(a, n=1, axis=-1):
    only(dict(n=n), n=(1,))
    a = np.asarray(a, dtype=object)
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
    return a[tuple(sl1)] - a[tuple(sl2)]


@over('linalg.norm')
def norm(x):
    return T.lift(sum(v * v for v in lift_arr(x).ravel())).sqrt()


# ---------------------------------------------------------------- linear algebra under contract
@over('linalg.cholesky')
def cholesky(a, **k):
    """contract: the lower triangular L with positive diagonal and L L' = lower triangle symmetrised;
    LinAlgError exactly when a pivot is not positive"""
    only(k, upper=(False,))
    a = lift_arr(a)
    n = a.shape[0]
    if a.ndim > 2:
        raise Unsupported('stack of matrices')
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    L = np.full((n, n), T.ZERO, dtype=object)
    for j in range(n):
        s = a[j, j]
        for m in range(j):
            s = s - L[j, m] * L[j, m]
        s = simp(s)
        if not bool(s > 0):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        d = s.sqrt()
        L[j, j] = d
        for i in range(j + 1, n):
            t = a[i, j]
            for m in range(j):
                t = t - L[i, m] * L[j, m]
            t = simp(t)
            L[i, j] = t / d if t.terms else T.ZERO
    return L


def simp(t):
    return T.ZERO if T.is_zero(t) else t


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    s = T.ZERO
    for j in range(n):
        if not a[0, j].terms:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (a[0, j] if j % 2 == 0 else -a[0, j]) * _det(m)
    return s


over('linalg.det')(lambda a: _det(lift_arr(a)))


@over('linalg.inv')
def inv(a):
    a = lift_arr(a)
    n = a.shape[0]
    if a.ndim > 2:
        raise Unsupported('stack of matrices')
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    blocks = _blocks(a)
    if len(blocks) > 1:
        out = _filled((n, n), T.ZERO)
        for idx in blocks:
            out[np.ix_(idx, idx)] = inv_block(a[np.ix_(idx, idx)])
        return out
    return inv_block(a)


def _blocks(a):
    """connected components of the non-zero pattern"""
    n = len(a)
    comp = list(range(n))
    for i in range(n):
        for j in range(n):
            if i != j and a[i, j].terms:
                c, d = comp[i], comp[j]
                comp = [c if x == d else x for x in comp]
    return [[i for i in range(n) if comp[i] == c] for c in sorted(set(comp))]


def _triangular(a):
    """elimination order [(row, column)] in which each row has a single unknown left, if there is one"""
    left, cols, order = set(range(len(a))), set(range(len(a))), []
    while left:
        for i in sorted(left):
            nz = [j for j in sorted(cols) if a[i, j].terms]
            if len(nz) == 1:
                order.append((i, nz[0]))
                left.discard(i)
                cols.discard(nz[0])
                break
            if not nz:
                return None
        else:
            return None
    return order


def inv_block(a):
    n = len(a)
    if n > 2:
        order = _triangular(a)
        if order is not None:
            out = _filled((n, n), T.ZERO)
            for i, j in order:
                if bool(a[i, j] == 0):
                    raise np.linalg.LinAlgError('Singular matrix')
            for k in range(n):
                for i, j in order:
                    v = R.const(1 if i == k else 0)
                    for q in range(n):
                        if q != j and a[i, q].terms and out[q, k].terms:
                            v = v - a[i, q] * out[q, k]
                    out[j, k] = v / a[i, j] if v.terms else T.ZERO
            return out
    if n > 3:
        raise Unsupported('inverse of a matrix larger than 3')
    d = simp(_det(a))
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = R.const(1)
            else:
                c = _det(np.delete(np.delete(a, i, 0), j, 1))
            out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    return out


@over('linalg.solve')
def solve(a, b):
    return np.matmul(_over['linalg.inv'](a), lift_arr(b))


@over('linalg.pinv')
def pinv(a, **k):
    """contract: the inverse of a square regular matrix (Gram formula for full-rank rectangular ones)"""
    cut = k.get('rcond', k.get('rtol'))
    if cut is not None and cut is not np._NoValue and not (isinstance(cut, float) and cut <= 1e-13):
        raise Unsupported('pseudo-inverse that drops small singular values')
    a = lift_arr(a)
    m, n = a.shape
    if m == n:
        return _over['linalg.inv'](a)
    if m < n:
        return np.matmul(a.T, _over['linalg.inv'](np.matmul(a, a.T)))
    return np.matmul(_over['linalg.inv'](np.matmul(a.T, a)), a.T)


eigen_registry = []   # (matrix, Q, lambdas) with matrix = Q diag(lambdas) Q'


def _zero_here(t):
    """is the term zero on this path?"""
    from . import explore, solve
    if T.is_zero(t):
        return True
    if explore.ctx is None or not solve.ite_conds(t):
        return False
    return bool(solve.prove_zero(t, explore.ctx.pc).ok)


def _eigen(a):
    for same in (T.is_zero, _zero_here):
        for A, Q, lam in eigen_registry:
            if A.shape == a.shape and all(same(A[i] - a[i]) for i in np.ndindex(A.shape)):
                return Q, lam
    if all(_zero_here(a[i]) for i in np.ndindex(a.shape) if i[0] != i[1]):
        return lift_arr(np.eye(len(a))), np.array([a[i, i] for i in range(len(a))], dtype=object)
    raise Unsupported('spectral decomposition of an unregistered matrix')


def _sign(x):
    from . import explore, solve
    x = T.lift(x)
    if explore.ctx is not None and not x.is_const():
        if solve.check(explore.ctx.pc + [x < 0], 800) == 'unsat':
            return R.const(1)
        if solve.check(explore.ctx.pc + [x > 0], 800) == 'unsat':
            return R.const(-1)
    return T.ite(x >= 0, R.const(1), R.const(-1))


class Unordered(np.ndarray):
    """eigenvalues or singular values, in an order that is not the one of numpy"""

    def __getitem__(self, i):
        if not (isinstance(i, np.ndarray) or i is Ellipsis) and not (isinstance(i, tuple) and all(v is None or v == slice(None) for v in i)):
            raise Unsupported('order of eigenvalues')
        return np.ndarray.__getitem__(self, i).view(np.ndarray)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, out, context=None, return_scalar=False):
        return out[()] if return_scalar else np.asarray(out).view(np.ndarray)

    def copy(self, order='C'):
        return np.ndarray.copy(self, order)


@over('linalg.svd')
def svd(a, **k):
    """contract: for symmetric a = Q diag(l) Q': U = Q sign(l), S = |l|, Vh = Q' (order immaterial)"""
    only(k, full_matrices=(True, False), hermitian=(True, False), compute_uv=(True,))
    a = lift_arr(a)
    Q, lam = _eigen(a)
    sg = np.array([_sign(x) for x in lam], dtype=object)
    S = np.array([abs(x) if isinstance(s, R) and not s.is_const() else x * s for x, s in zip(lam, sg)], dtype=object)
    return Q * sg, S.view(Unordered), Q.T.copy()


@over('linalg.eigh')
def eigh(a, **k):
    only(k, UPLO=('L', 'U'))
    Q, lam = _eigen(lift_arr(a))
    return lam.copy().view(Unordered), Q.copy()


@over('diag')
def diag(a, k=0):
    a = np.asarray(a, dtype=object)
    if a.ndim == 2:
        return np.diagonal(a, k).copy()
    only(dict(k=k), k=(0,))
    n = len(a)
    out = np.full((n, n), T.ZERO, dtype=object)
    for i in range(n):
        out[i, i] = a[i]
    return out


@over('average')
def average(a, axis=None, weights=None, **k):
    only(k, returned=(False,), keepdims=(False,))
    a = lift_arr(a)
    if weights is None:
        return np.mean(a, axis=axis)
    w = lift_arr(weights)
    if axis is None:
        return np.sum(a * w) / np.sum(w)
    if a.shape != w.shape:
        if w.ndim != 1 or not isinstance(axis, (int, np.integer)) or len(w) != a.shape[axis]:
            raise Unsupported('weights of this shape')
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    s, sw = np.sum(a * w, axis=axis), np.sum(w, axis=axis)
    one = [simp(v - 1) for v in np.ravel(sw)]
    return s if not any(v.terms for v in one) else s / (sw if np.ndim(s) else np.ravel(sw)[0])


@over('mean')
def mean(a, axis=None, **k):
    a = lift_arr(a)
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    return np.sum(a, axis=axis, **k) / n


@over('trapezoid')
def np_trapezoid(y, x=None, dx=1.0, axis=-1):
    return trapezoid(y, x, dx, axis)


# creation functions always give object arrays while a symbolic run is active
def _filled(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


def _zeros(shape, dtype=None, **k):
    if kind(dtype) is not None:
        return np.zeros(shape, dtype)
    return _filled(shape, T.ZERO)


def _ones(shape, dtype=None, **k):
    if kind(dtype) is not None:
        return np.ones(shape, dtype)
    return _filled(shape, R.const(1))


def _full(shape, fill_value, dtype=None, **k):
    if kind(dtype) is not None:
        return np.full(shape, fill_value, dtype)
    if isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value)
    if isinstance(fill_value, float) and fill_value != fill_value:
        return np.full(shape, fill_value, dtype=object)
    return np.broadcast_to(lift_arr(fill_value), shape).copy() if np.ndim(fill_value) else _filled(shape, lift1(fill_value))


def _eye(n, m=None, **k):
    only(k, dtype=(float, object), k=(0,))
    m = n if m is None else m
    a = _filled((n, m), T.ZERO)
    for i in range(min(n, m)):
        a[i, i] = R.const(1)
    return a


def _array(x, dtype=None, **k):
    if dtype in (float, np.float64) and is_obj(x):
        dtype = None
    return np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)


def _asarray(x, dtype=None, **k):
    if dtype in (float, np.float64) and is_obj(x):
        dtype = None
    return np.asarray(x, dtype=dtype, **k) if dtype is not None else np.asarray(x, **k)


def _like(make, a, *v, dtype=None, shape=None, **k):
    if dtype is None:
        dtype = getattr(a, 'dtype', None) if isinstance(a, np.ndarray) else np.asarray(a).dtype if np.ndim(a) else None
    return make(np.shape(a) if shape is None else shape, *v, dtype=dtype)


_create = {
    'zeros': _zeros, 'ones': _ones, 'full': _full, 'eye': _eye, 'identity': _eye, 'empty': _zeros,
    'zeros_like': lambda a, **k: _like(_zeros, a, **k), 'ones_like': lambda a, **k: _like(_ones, a, **k),
    'empty_like': lambda a, **k: _like(_zeros, a, **k), 'full_like': lambda a, v, **k: _like(_full, a, v, **k),
    'array': _array, 'asarray': _asarray,
}


# ---------------------------------------------------------------- scipy
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(lift_arr(y), axis, -1)
    if x is None:
        d = _filled(y.shape[-1] - 1, lift1(dx))
    else:
        d = _over['diff'](lift_arr(x))
    return np.sum((y[..., 1:] + y[..., :-1]) * d, axis=-1) / 2


def block_diag(*ms):
    ms = [np.atleast_2d(m) for m in ms]
    out = _filled((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), T.ZERO)
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = lift_arr(m)
        r += m.shape[0]
        c += m.shape[1]
    return out


INTERP_EXACT = False


class interp1d:
    """contract of scipy.interpolate.interp1d: kind='linear' with extrapolation is exact piecewise-linear
    (INTERP_EXACT) or, like every other kind, an uninterpreted function of (kind, nodes, values, point)"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan,
                 assume_sorted=False):
        self.x = np.array(x)
        self.y = np.array(y)
        if self.x.ndim != 1 or self.y.shape[axis] != len(self.x):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if axis not in (-1, self.y.ndim - 1):
            raise Unsupported('interpolation axis')
        self.kind, self.fill, self.be = kind, fill_value, bounds_error
        if not is_obj(self.x):     # nodes known: scipy puts them in order, unless told that they are
            order = np.argsort(self.x, kind='mergesort')
            if (order != np.arange(len(order))).any():
                if assume_sorted:
                    raise Unsupported('interpolation between unordered nodes')
                self.x, self.y = self.x[order], np.take(self.y, order, axis=-1)
        if isinstance(fill_value, str) and fill_value == 'extrapolate':
            self.tag = (kind, 'extrapolate')
        else:
            self.tag = (kind, repr(fill_value), repr(bounds_error))

    def one(self, row, q):
        q = lift1(q)
        xs = [lift1(v) for v in self.x]
        row = [lift1(v) for v in row]
        if not INTERP_EXACT or self.kind != 'linear' or self.tag[1] != 'extrapolate':
            return T.app('interp', '/'.join(self.tag), *xs, *row, q)
        out = None
        n = len(xs)
        segs = [row[i] + (q - xs[i]) * (row[i + 1] - row[i]) / (xs[i + 1] - xs[i]) for i in range(n - 1)]
        out = segs[-1]
        for i in range(n - 3, -1, -1):
            out = T.ite(q <= xs[i + 1], segs[i], out)
        return out

    def __call__(self, q):
        q = np.asarray(q)
        rows = self.y.reshape(-1, self.y.shape[-1])
        out = np.empty((len(rows),) + q.shape, dtype=object)
        for r in range(len(rows)):
            for i in np.ndindex(q.shape):
                out[(r,) + i] = self.one(rows[r], q[i])
        return out.reshape(self.y.shape[:-1] + q.shape)


def _ext():
    import scipy.integrate
    import scipy.interpolate
    import scipy.linalg
    m = {id(scipy.interpolate.interp1d): interp1d, id(scipy.linalg.block_diag): block_diag,
         id(scipy.integrate.trapezoid): trapezoid}
    for n, f in list(_over.items()):
        m[id(f._real)] = f
    for n, f in _create.items():
        m[id(getattr(np, n))] = f
    m[id(math.isfinite)] = lambda x: True if is_obj(x) else math.isfinite(x)
    m[id(math.isnan)] = lambda x: False if is_obj(x) else math.isnan(x)
    m.pop(id(np.asarray), None)
    m.pop(id(np.array), None)
    return m


class _LinAlg(types.ModuleType):
    def __getattr__(self, n):
        f = _over.get('linalg.' + n)
        return f if f is not None else getattr(np.linalg, n)


class NP(types.ModuleType):
    """numpy as the moirae modules see it during a symbolic run"""

    def __getattr__(self, n):
        if n == 'linalg':
            return _linalg
        f = _over.get(n) or _create.get(n)
        return f if f is not None else getattr(np, n)


_linalg = _LinAlg('numpy.linalg')
npx = NP('numpy')

PREFIX = ('moirae',)


@contextlib.contextmanager
def patched():
    ext = _ext()
    undo = []
    for name, mod in list(sys.modules.items()):
        if not mod or not name.split('.')[0] in PREFIX:
            continue
        for k, v in list(vars(mod).items()):
            new = None
            if v is np:
                new = npx
            elif v is np.linalg:
                new = _linalg
            elif callable(v) and id(v) in ext and not isinstance(v, type(npx)):
                new = ext[id(v)]
            if new is not None:
                undo.append((mod, k, v))
                setattr(mod, k, new)
    try:
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)
