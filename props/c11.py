"""Coordinate conversions: a linear conversion is x M + b with covariance M' S M, the absolute value conversion takes
absolute values with the sign matrix of the pivot, and going back after going there gives the original"""
import numpy as np
from moirae.estimators.online.filters.conversions import (IdentityConversionOperator, LinearConversionOperator,
                                                          AbsoluteValueConversionOperator)

LEVEL = 'other'
RUNS = 6


def configs(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for k in (None, 1, 2 if n > 2 else 3):       # one vector / a set of samples
            out.append(dict(op='identity', n=n, k=k))
            out.append(dict(op='scalar', n=n, k=k, b=k))
            out.append(dict(op='scalar', n=n, k=k, b='n'))
            out.append(dict(op='scalar', n=n, k=k, b=1))
            out.append(dict(op='diagonal', n=n, k=k, b='n'))
            out.append(dict(op='diagonal', n=n, k=k, b=None))
            out.append(dict(op='diagonal', n=n, k=k, b=1))
            if n <= 3:
                out.append(dict(op='matrix', n=n, m=n, k=k, b='n'))
                out.append(dict(op='matrix', n=n, m=n, k=k, b=None))
                if n <= 2:
                    out.append(dict(op='wide', n=n, m=n + 1, k=k, b='n'))
                if n <= (2 if tier == 'quick' else 3):
                    out.append(dict(op='narrow', n=n + 1, m=n, k=k, b='n'))
            out.append(dict(op='absolute', n=n, k=k, idx=None))
            for idx in ([0], [n - 1], [-1], [-n, n - 1], list(range(0, n, 2)), list(range(n))[::-1], []):
                out.append(dict(op='absolute', n=n, k=k, idx=idx))
    for k in (None, 2):
        for idx in (None, [9, 1, 10], list(range(1, 12))):
            out.append(dict(op='absolute', n=12, k=k, idx=idx, _concrete=True))
    out += [dict(op='scales', n=n, k=2, kind=kind, _concrete=True, _runs=20) for n in (1, 2, 4, 8) for kind in ('scalar', 'diagonal', 'permuted')]
    seen, uniq = set(), []
    for c in out:
        if c['op'] == 'scalar' and c.get('b') not in (None, 'n', 1):
            continue
        if str(c) not in seen:
            seen.add(str(c))
            uniq.append(c)
    return uniq


def samples(K, name, n, k, **kw):
    return K.arr(name, (n,) if k is None else (k, n), **kw)


def det(m):
    n = len(m)
    if n == 1:
        return m[0, 0]
    return sum((-1) ** j * m[0, j] * det(np.delete(np.delete(m, 0, 0), j, 1)) for j in range(n))


def contract(K, cfg):
    n, k, op = cfg['n'], cfg['k'], cfg['op']
    x, S, p = samples(K, 'x', n, k), K.mat('S', n), K.arr('p', (n,))
    before = [a.copy() for a in (x, S, p)]
    if op == 'identity':
        c = IdentityConversionOperator()
        K.eq('samples', c.transform_samples(x), x)
        K.eq('samples back', c.inverse_transform_samples(x), x)
        K.eq('covariance', c.transform_covariance(S, p), S)
        K.eq('covariance back', c.inverse_transform_covariance(S, p), S)
    elif op == 'scales':
        scales(K, cfg, x, S)
    elif op == 'absolute':
        absolute(K, cfg, x, S, p)
    else:
        linear(K, cfg, x, S, p)
    for name, a, b in zip(('samples', 'covariance', 'pivot'), (x, S, p), before):
        K.eq(f'{name} given are left as they were', a, b)


def linear(K, cfg, x, S, p):
    n, k, op = cfg['n'], cfg['k'], cfg['op']
    m = cfg.get('m', n)
    if op == 'scalar':
        a = K.real('a')
        K.assume(K.or_(a > 0.05, a < -0.05))
        M = np.array(a, dtype=object if K.symbolic else float)
        full = np.eye(n) * a
    elif op == 'diagonal':
        M = K.arr('M', (n,))
        for v in M:
            K.assume(K.or_(v > 0.05, v < -0.05))
        full = np.zeros((n, n), dtype=M.dtype)
        for i in range(n):
            full[i, i] = M[i]
    else:
        M = full = K.arr('M', (n, m))
        gram = M if n == m else np.matmul(M, M.T) if n < m else np.matmul(M.T, M)
        d = det(gram)
        if K.symbolic:
            K.assume(d != 0)
        else:
            K.assume(abs(d) > 0.05)
    b = {None: None, 1: K.arr('b1', (1,)), 'n': K.arr('b', (m,))}[cfg['b']]
    c = LinearConversionOperator(multiplicative_array=M.copy(), **({} if b is None else dict(additive_array=b.copy())))
    off = 0 if b is None else b
    y = c.transform_samples(x)
    K.eq('samples', y, np.matmul(x, full) + off)
    Sy = c.transform_covariance(S, p)
    K.eq('covariance', Sy, np.matmul(full.T, np.matmul(S, full)))
    if k is not None:
        for i in range(k):
            K.eq(f'sample {i} alone', c.transform_samples(x[i]), y[i])
    if op == 'narrow':
        # dimensionality reduction: what goes to the model comes back from it unchanged
        z, T = samples(K, 'z', m, k), K.mat('T', m)
        K.eq('there after back', c.transform_samples(c.inverse_transform_samples(z)), z, rtol=1e-5, atol=1e-6)
        K.eq('covariance there after back', c.transform_covariance(c.inverse_transform_covariance(T, p[:m]), p), T, rtol=1e-5, atol=1e-6)
        return
    back = c.inverse_transform_samples(y)
    K.eq('back after there', back, x, rtol=1e-5, atol=1e-6)
    K.eq('covariance back after there', c.inverse_transform_covariance(Sy, c.transform_samples(p)), S, rtol=1e-5, atol=1e-6)
    if n == m:
        z, T = samples(K, 'z', n, k), K.mat('T', n)
        K.eq('there after back', c.transform_samples(c.inverse_transform_samples(z)), z, rtol=1e-5, atol=1e-6)
        K.eq('covariance there after back', c.transform_covariance(c.inverse_transform_covariance(T, p), p), T, rtol=1e-5, atol=1e-6)
    if k is not None:
        for i in range(k):
            K.eq(f'sample {i} alone back', c.inverse_transform_samples(y[i]), back[i], rtol=1e-5, atol=1e-6)
    K.raises('a matrix cannot be added', lambda: LinearConversionOperator(additive_array=np.zeros((2, 2))))
    K.raises('three dimensions', lambda: LinearConversionOperator(multiplicative_array=np.zeros((2, 2, 2))))


def scales(K, cfg, x, S):
    """factors of very different size, as those of capacities and resistances: everything is compared in its own unit"""
    n = cfg['n']
    f = np.array([K.sampled(f'f{i}', lambda r: r.choice((-1, 1)) * 10 ** r.uniform(-6, 6)) for i in range(n)])
    order = np.arange(n)
    if cfg['kind'] == 'scalar':
        f[:] = f[0]
        M = np.array(f[0])
    elif cfg['kind'] == 'diagonal':
        M = f.copy()
    else:
        order = order[::-1]
        M = np.zeros((n, n))
        M[np.arange(n), order] = f
    b = np.array([K.real(f'b{i}') for i in range(n)]) * f[np.argsort(order)]
    c = LinearConversionOperator(multiplicative_array=M, additive_array=b.copy())
    y, Sy, u = c.transform_samples(x), c.transform_covariance(S), f[np.argsort(order)]
    K.eq('samples', (y - b) / u, x[:, np.argsort(order)], **T6)
    K.eq('covariance', Sy / np.outer(u, u), S[np.argsort(order)][:, np.argsort(order)], **T6)
    K.eq('samples back', c.inverse_transform_samples(y), x, **T6)
    K.eq('covariance back', c.inverse_transform_covariance(Sy), S, **T6)


T6 = dict(rtol=1e-6, atol=1e-6)


def absolute(K, cfg, x, S, p):
    n, k, idx = cfg['n'], cfg['k'], cfg['idx']
    c = AbsoluteValueConversionOperator() if idx is None else AbsoluteValueConversionOperator(indices=list(idx))
    on = set(range(n)) if idx is None else {i % n for i in idx}
    x0, y = x.copy(), c.transform_samples(x)
    K.eq('samples given are left as they were', x, x0)
    y0 = y.copy()

    def expect(a):
        out = a.copy()
        for i in np.ndindex(a.shape):
            if i[-1] in on:
                out[i] = K.ite(a[i] >= 0, a[i], -a[i])
        return out
    K.eq('samples', y, expect(x))
    K.eq('twice is once', c.transform_samples(y), y)
    K.eq('there after back', c.transform_samples(c.inverse_transform_samples(y)), y)
    K.eq('back after there', c.inverse_transform_samples(y), y)
    K.eq('samples converted back are left as they were', y, y0)
    # the sign pattern of the pivot
    D = [K.ite(p[i] >= 0, K.const(1), K.const(-1)) if i in on else K.const(1) for i in range(n)]
    Sy = c.transform_covariance(S, p)
    want = S.copy()
    for i in range(n):
        for j in range(n):
            want[i, j] = D[i] * S[i, j] * D[j]
    K.eq('covariance', Sy, want)
    K.eq('covariance back', c.inverse_transform_covariance(Sy, c.transform_samples(p)), Sy)
    for i in range(n):
        if i not in on:
            K.eq(f'coordinate {i} untouched', y[..., i], x[..., i])
