"""Do the contracts of numpy in `shim` agree with numpy?  Each function is called on random floats and on the same numbers as terms.

    python -m vc.conform     (run by setup.sh; prints what differs, exit 1 if anything does)

A function that refuses terms (an exception) is outside the supported subset, which is allowed; a different value is not."""
import sys
import warnings
import numpy as np
from . import shim, terms as T
from .shim import npx
import scipy.integrate
import scipy.linalg
import scipy.interpolate


def lift(x):
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        return shim.lift_arr(x)
    if isinstance(x, float):
        return T.lift(x)
    if isinstance(x, (list, tuple)):
        return type(x)(lift(v) for v in x)
    return x


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return np.array([plain(v) for v in x.ravel()]).reshape(x.shape) if x.dtype == object else x
    if isinstance(x, T.R):
        return float(T.evaluate(x, {}))
    if isinstance(x, T.Bool):
        return bool(T.evaluate(x, {}))
    return x


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) or a is None:
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9, equal_nan=True)


def cases(r):
    A = lambda *s: r.uniform(.3, 2, s) * r.choice([-1, 1], s)   # noqa: E731
    P = lambda *s: r.uniform(.3, 2, s)     # noqa: E731
    S = lambda n: (lambda m: m @ m.T + n * np.eye(n))(A(n, n))  # noqa: E731
    yield from ((f, (A(2, 3),), {}) for f in 'exp expm1 abs absolute fabs sign square tanh negative reciprocal isnan isfinite isinf sin cos '
                'log1p exp2 cbrt floor ceil rint trunc round around nan_to_num copy ravel transpose squeeze atleast_1d atleast_2d atleast_3d '
                'sum prod mean std var min max amin amax ptp median cumsum cumprod argmin argmax sort argsort any all nansum nanmean nanmax '
                'shape size ndim array asarray asanyarray ascontiguousarray diff gradient zeros_like ones_like empty flip fliplr flipud unique '
                'count_nonzero nonzero flatnonzero argwhere average positive float_power vstack hstack concatenate stack column_stack '
                'deg2rad degrees sinh cosh arctan sinc heaviside signbit spacing logical_not iscomplex isreal real imag conj trim_zeros '
                'nancumsum nanmin nanstd nanvar nanmedian nanprod nanargmax percentile quantile '
                'linalg.norm linalg.svd linalg.pinv linalg.matrix_rank linalg.cond linalg.qr'.split())
    yield from ((f, (P(2, 3),), {}) for f in 'log sqrt log10 log2 log1p sqrt power arctanh'.split())
    yield from ((f, (A(2, 3), A(2, 3)), {}) for f in 'maximum minimum fmax fmin add subtract multiply divide true_divide arctan2 hypot copysign '
                'greater less greater_equal less_equal equal not_equal isclose allclose array_equal array_equiv logaddexp heaviside '
                'outer kron append fmod remainder mod floor_divide inner vdot logical_and logical_or nextafter cross'.split())
    yield from ((f, (A(2, 3), A(1, 3)), {}) for f in 'maximum minimum add multiply isclose broadcast_arrays greater copysign'.split())
    yield from ((f, (A(3), A(3)), {}) for f in 'dot inner outer vdot matmul cross convolve correlate kron trapezoid interp polyval corrcoef cov '
                'array_equal union1d setdiff1d isin'.split())
    yield from ((f, (A(2, 3), A(3, 2)), {}) for f in 'dot matmul'.split())
    for ax in (None, 0, 1, -1):
        for f in 'sum prod mean min max amax amin cumsum any all argmax argmin std var median average nansum diff sort argsort ptp ' \
                 'count_nonzero linalg.norm flip'.split():
            if not (ax is None and f == 'diff'):
                yield f, (A(2, 3),), dict(axis=ax)
        for f in 'sum mean max min prod any all std var average'.split():
            yield f, (A(2, 3),), dict(axis=ax, keepdims=True)
    for n in (1, 2, 3):
        for f in 'inv cholesky det eigvalsh slogdet matrix_rank pinv norm'.split():
            yield f'linalg.{f}', (S(n),), {}
        yield 'linalg.solve', (A(n, n), A(n, 2)), {}
        yield 'linalg.solve', (A(n, n), A(n)), {}
        yield 'linalg.inv', (A(n, n),), {}
        yield 'linalg.inv', (np.stack([S(n), S(n)]),), {}
        yield 'linalg.solve', (np.stack([S(n), S(n)]), A(2, n, 1)), {}
        yield 'linalg.cholesky', (np.stack([S(n), S(n)]),), {}
        yield 'linalg.cholesky', (np.tril(S(n)),), {}
        yield 'linalg.multi_dot', ([A(n, 2), A(2, 3), A(3, 1)],), {}
        yield 'linalg.matrix_power', (A(n, n), 2), {}
        yield 'linalg.lstsq', (S(n), A(n, 1)), {}
        yield 'linalg.eigh', (np.diag(np.sort(P(n))),), {}
        yield 'linalg.eigvalsh', (np.diag(A(n)),), {}
        yield 'trace', (A(n, n),), {}
        yield 'diag', (A(n, n),), {}
        yield 'diag', (A(n),), {}
        yield 'diag', (A(n),), dict(k=1)
        yield 'diag', (A(n + 1, n + 1),), dict(k=1)
        yield 'diagonal', (A(n, n),), {}
        yield 'diagflat', (A(n),), {}
        yield 'tril', (A(n, n),), {}
        yield 'triu', (A(n, n),), {}
        yield 'fill_diagonal', (A(n, n), 1.5), {}
        yield 'vander', (A(n), 3), {}
    yield 'diag', (A(1, 3),), {}
    yield 'linalg.pinv', (A(2, 3),), {}
    yield 'linalg.pinv', (A(3, 2),), {}
    yield 'linalg.norm', (A(3),), {}
    yield 'linalg.norm', (A(3),), dict(ord=1)
    yield 'linalg.norm', (A(3),), dict(ord=np.inf)
    yield 'linalg.norm', (A(3), 1), {}
    yield 'linalg.norm', (A(3, 3), 2), {}
    x = np.sort(P(4))
    for y in (A(4), A(2, 4)):
        yield 'trapezoid', (y, x), {}
        yield 'trapezoid', (y,), dict(dx=.5)
        yield 'trapezoid', (y, x), dict(axis=-1)
    yield 'trapezoid', (A(4, 2), x), dict(axis=0)
    yield 'trapezoid', (A(2, 4), np.sort(P(2, 4))), {}
    for f, y in (('diff', A(4)), ('diff', A(3, 4)), ('ediff1d', A(4)), ('gradient', A(4))):
        yield f, (y,), {}
    yield 'diff', (A(4),), dict(n=2)
    yield 'diff', (A(4),), dict(prepend=0.)
    yield 'diff', (A(4),), dict(append=.5)
    yield 'diff', (A(3, 4),), dict(axis=0)
    yield 'average', (A(3, 2),), dict(axis=0, weights=P(3))
    yield 'average', (A(3, 2),), dict(weights=P(3, 2))
    yield 'average', (A(3, 2),), dict(axis=1, weights=P(3, 2))
    yield 'average', (A(3),), dict(weights=P(3), returned=True)
    yield 'average', (A(3, 2),), dict(axis=0, weights=P(3), keepdims=True)
    for k in (dict(a_min=-.5, a_max=.5), dict(a_min=0.), dict(min=-.5), dict(max=.4)):
        yield 'clip', (A(2, 3),), dict({'a_min': None, 'a_max': None} if 'a_min' in k else {}, **k)
    yield 'clip', (A(2, 3), -1., 1.), {}
    yield 'clip', (A(2, 3), None, 1.), {}
    yield 'where', (A(2, 3) > 0, A(2, 3), A(2, 3)), {}
    yield 'where', (A(2, 1) > 0, A(2, 3), 0.), {}
    yield 'where', (A(3) > 0, 1., A(2, 3)), {}
    yield 'select', ([A(3) > 0, A(3) > 1], [A(3), A(3)], 0.), {}
    yield 'linspace', (.5, 2., 7), {}
    yield 'linspace', (.5, 2.), dict(num=5)
    yield 'linspace', (.5, 2., 5), dict(endpoint=False)
    yield 'linspace', (.5, 2., 5), dict(retstep=True)
    yield 'linspace', (A(2), A(2), 3), {}
    yield 'linspace', (.5, 2., 1), {}
    yield 'arange', (0., 2., .5), {}
    yield 'full', ((2, 2), 1.5), {}
    yield 'full', ((2, 3), A(3)), {}
    yield 'full_like', (A(2, 3), 1.5), {}
    yield 'full_like', (A(2, 3), 1.5), dict(shape=(2,))
    yield 'power', (P(2, 3), 2), {}
    yield 'power', (P(2, 3), -1), {}
    yield 'power', (P(2, 3), .5), {}
    yield 'power', (P(2, 3), A(2, 3)), {}
    yield 'power', (2., A(3)), {}
    yield 'isclose', (np.zeros(3), np.array([0., 1e-9, 1e-5])), {}
    yield 'isclose', (1., 1. + 1e-9), {}
    yield 'isclose', (1., 1.1), dict(rtol=.2)
    yield 'isclose', (1., 1.1), dict(atol=.2)
    yield 'allclose', (np.ones((2, 2)), np.ones(2)), {}
    yield 'allclose', (np.ones((2, 2)), np.ones(2) * 1.1), {}
    yield 'array_equal', (np.ones((2, 2)), np.ones(2)), {}
    yield 'array_equal', (np.ones(2), np.ones(2)), {}
    for s, a in (('ij,jk->ik', (A(2, 3), A(3, 2))), ('ij,kj->ik', (A(2, 3), A(2, 3))), ('ij->j', (A(2, 3),)), ('ii->i', (A(3, 3),)), ('ii', (A(3, 3),)),
                 ('i,ij,ik->jk', (P(3), A(3, 2), A(3, 2))), ('ij,ij->i', (A(2, 3), A(2, 3))), ('i,i', (A(3), A(3))), ('...i,ij->...j', (A(2, 3), A(3, 2)))):
        yield 'einsum', (s,) + a, {}
        yield 'einsum', (s,) + a, dict(optimize=True)
    yield 'tensordot', (A(2, 3), A(3, 2)), dict(axes=1)
    yield 'tensordot', (A(2, 3), A(2, 3)), dict(axes=([0, 1], [0, 1]))
    yield 'apply_along_axis', (np.sum, 1, A(2, 3)), {}
    for f, a in (('tile', (A(2, 3), (2, 1))), ('repeat', (A(2, 3), 2)), ('reshape', (A(2, 3), (3, 2))), ('roll', (A(3), 1)), ('take', (A(3), [2, 0])),
                 ('swapaxes', (A(2, 3), 0, 1)), ('moveaxis', (A(2, 3), 0, 1)), ('expand_dims', (A(3), 0)), ('broadcast_to', (A(3), (2, 3))),
                 ('delete', (A(3), 1)), ('insert', (A(3), 1, .5)), ('pad', (A(3), 1)), ('split', (A(4), 2)), ('array_split', (A(5), 2)),
                 ('block', ([[A(2, 2), A(2, 1)], [A(1, 2), A(1, 1)]],)), ('concatenate', ([A(2, 1), A(2, 2)], 1)), ('stack', ([A(2), A(2)], 1)),
                 ('vstack', ([A(2), A(2)],)), ('hstack', ([A(2), A(2)],)), ('column_stack', ([A(2), A(2)],)), ('dstack', ([A(2), A(2)],)),
                 ('searchsorted', (x, P(3))), ('digitize', (P(3), x)), ('compress', ([True, False, True], A(3))), ('choose', ([0, 1], A(2, 2))),
                 ('ix_', ([0, 1], [0])), ('meshgrid', (A(2), A(2))), ('histogram', (A(5),)), ('bincount', (np.array([0, 1, 1]), P(3))),
                 ('interp', (P(3), x, A(4))), ('polyfit', (x, A(4), 1)), ('take_along_axis', (A(2, 3), np.array([[0], [1]]), 1)),
                 ('triu_indices', (3,)), ('tri', (3,)), ('eye', (3,)), ('identity', (2,)), ('eye', (2, 3)), ('eye', (3,)), ('zeros', ((2, 2),)),
                 ('ones', (3,)), ('lexsort', ((A(3), A(3)),)), ('fromiter', (A(3), float)), ('may_share_memory', (A(3), A(3)))):
        yield f, a, {}
    yield 'eye', (3,), dict(k=1)
    yield 'sum', (A(2, 3),), dict(where=np.array([True, False, True]))
    yield 'sum', (A(2, 3),), dict(initial=1.5)
    yield 'sum', (A(2, 3),), dict(dtype=float)
    yield 'mean', (A(2, 3),), dict(axis=(0, 1))
    yield 'mean', (A(2, 3),), dict(where=np.array([True, False, True]))
    yield 'std', (A(5),), dict(ddof=1)
    yield 'max', (A(2, 3),), dict(initial=5.)
    yield 'round', (A(3), 2), {}
    yield 'array', (A(2, 3),), dict(ndmin=3)
    yield 'array', ([.5, 1.5],), dict(dtype=float)
    yield 'asarray', ([.5, 1.5],), dict(dtype=float)
    yield 'expand_dims', (A(2, 3),), dict(axis=(0, 1))


OTHER = [(scipy.integrate.trapezoid, 'trapezoid'), (scipy.linalg.block_diag, 'block_diag'), (scipy.interpolate.interp1d, 'interp1d')]


def other(r):
    A = lambda *s: r.uniform(.3, 2, s) * r.choice([-1, 1], s)   # noqa: E731
    x = np.sort(r.uniform(.1, 2, 4))
    yield scipy.integrate.trapezoid, shim.trapezoid, (A(2, 4), x), {}
    yield scipy.integrate.trapezoid, shim.trapezoid, (A(2, 4), np.sort(r.uniform(.1, 2, (2, 4)))), {}
    yield scipy.integrate.trapezoid, shim.trapezoid, (A(4, 2), x), dict(axis=0)
    yield scipy.integrate.trapezoid, shim.trapezoid, (A(4),), dict(dx=.25)
    yield scipy.linalg.block_diag, shim.block_diag, (A(2, 2), A(1, 3), A(2)), {}
    yield scipy.linalg.block_diag, shim.block_diag, (A(1, 1),), {}

    def interpolate(cls, x, y, q, kw):
        return cls(x, y, **kw)(q)
    for y in (A(4), A(2, 4)):
        for kw in (dict(kind='linear', bounds_error=False, fill_value='extrapolate'), dict(fill_value='extrapolate')):
            for q in (A(3), A(2, 3), x):
                yield (lambda *a, kw=kw: interpolate(scipy.interpolate.interp1d, *a, kw), lambda *a, kw=kw: interpolate(shim.interp1d, *a, kw),
                       (x, y, q), {})
    # nodes in any order
    yield (lambda y, q: scipy.interpolate.interp1d(x[::-1].copy(), y, fill_value='extrapolate')(q),
           lambda y, q: shim.interp1d(x[::-1].copy(), y, fill_value='extrapolate')(q), (A(4), A(3)), {})


def methods(r):
    A = lambda *s: r.uniform(.3, 2, s) * r.choice([-1, 1], s)   # noqa: E731
    for m in 'sum prod mean std var min max cumsum argmin argmax argsort copy ravel flatten transpose squeeze any all tolist conj ptp round nonzero ' \
             'diagonal trace item __neg__ __abs__ __len__ __bool__ __float__'.split():
        yield m, A(2, 3), (), {}
        yield m, A(1), (), {}
        if m in 'sum prod mean std var min max cumsum argmin argmax argsort any all':
            for k in (0, 1, -1):
                yield m, A(2, 3), (), dict(axis=k)
                yield m, A(2, 3), (), dict(axis=k, keepdims=True)
    for m, a in (('dot', (A(3, 2),)), ('clip', (-1., 1.)), ('reshape', (3, 2)), ('reshape', ((3, 2),)), ('repeat', (2, 0)), ('take', ([0], 0)),
                 ('swapaxes', (0, 1)), ('astype', (float,)), ('astype', (object,)), ('fill', (2.,)), ('item', (0,)), ('__getitem__', (0,)),
                 ('__pow__', (2,)), ('__pow__', (3,)), ('__pow__', (0,)), ('__rpow__', (2.,)), ('__mul__', (A(2, 3),)), ('__truediv__', (A(2, 3),)),
                 ('__rtruediv__', (2.,)), ('__sub__', (A(1, 3),)), ('__rsub__', (1.,)), ('__matmul__', (A(3, 2),)), ('__lt__', (0.,)),
                 ('__floordiv__', (.5,)), ('__mod__', (.5,)), ('__divmod__', (.5,)), ('__iadd__', (A(2, 3),)), ('__imul__', (A(2, 1),)),
                 ('__eq__', (0.,)), ('__ne__', (0.,)), ('__contains__', (5.,)), ('searchsorted', (.5,)), ('std', (0,)), ('var', (None, None, None, 1))):
        yield m, A(2, 3), a, {}


def get(m, name):
    for p in name.split('.'):
        m = getattr(m, p)
    return m


def main(verbose=False):
    warnings.simplefilter('ignore')
    shim.INTERP_EXACT = True
    n = outside = 0
    bad, out = [], set()
    for seed in range(3):
        r = np.random.RandomState(seed)
        todo = [(f, get(np, f), get(npx, f), a, k) for f, a, k in cases(r) if hasattr(np, f.split('.')[0])]
        todo += [(getattr(f, '__name__', '?'), f, g, a, k) for f, g, a, k in other(r)]
        todo += [('.' + m, lambda x, *a, m=m, **k: getattr(x, m)(*a, **k), lambda x, *a, m=m, **k: getattr(x, m)(*a, **k), (x,) + a, k)
                 for m, x, a, k in methods(r)]
        for name, real, fake, a, k in todo:
            try:
                want, ok = real(*[v.copy() if isinstance(v, np.ndarray) else v for v in a], **k), True
            except Exception:       # noqa: BLE001
                ok = False
            inplace = [v.copy() if isinstance(v, np.ndarray) else v for v in a]
            try:
                got = plain(fake(*lift(tuple(inplace)), **{q: lift(v) for q, v in k.items()}))
            except Exception as e:  # noqa: BLE001
                outside += 1
                out.add(f'{name} {type(e).__name__}')
                continue
            n += 1
            if not ok:
                if name not in ('average',):
                    bad.append((name, k, 'numpy refuses'))
            elif not same(plain(want), got):
                bad.append((name, [np.shape(v) for v in a], k, want, got))
    if verbose:
        print(*sorted(out), sep='\n')
    for b in bad:
        print('DIFFERENT', *b)
    print(f'{n} calls of numpy and scipy functions on terms agree with those on floats, {outside} are refused, {len(bad)} differ')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main('-v' in sys.argv))
