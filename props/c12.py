"""Distributions: combining independent ones concatenates means and puts covariances on the diagonal blocks with no
correlation between them; converting one converts its mean, and its covariance around that mean; malformed moments are
refused"""
import numpy as np
from moirae.estimators.online.filters.conversions import (IdentityConversionOperator, LinearConversionOperator, FirstOrderTaylorConversionOperator,
                                                          AbsoluteValueConversionOperator)
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.utils.model import convert_vals_model_to_filter
from .ecmlib import Cell, inputs

LEVEL = 'other'
RUNS = 5


class Reciprocal(FirstOrderTaylorConversionOperator):
    """a conversion of a user's own, whose slope differs from place to place and between there and back"""

    def transform_samples(self, samples):
        return 2 / samples

    def inverse_transform_samples(self, transformed_samples):
        return 2 / transformed_samples

    def get_jacobian(self, pivot):
        return np.diag(-2 / (pivot * pivot))

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(-2 / (transformed_pivot * transformed_pivot))


class Shifted(Reciprocal):
    """here 3/x - 1, back 3/(y + 1)"""

    def transform_samples(self, samples):
        return 3 / samples - 1

    def inverse_transform_samples(self, transformed_samples):
        return 3 / (transformed_samples + 1)

    def get_jacobian(self, pivot):
        return np.diag(-3 / (pivot * pivot))

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(-3 / ((transformed_pivot + 1) * (transformed_pivot + 1)))


def configs(tier):
    out = []
    for kind in ('delta', 'gaussian'):
        for dims in ((1,), (2,), (1, 1), (2, 1), (1, 3), (3, 2), (1, 1, 1), (2, 3, 1), (1, 2, 2, 1), (4, 1, 3)):
            out.append(dict(what='combine', kind=kind, dims=dims))
        for n in (1, 2, 3, 4):
            for op in ('identity', 'scalar', 'diagonal', 'matrix', 'wide', 'absolute', 'some', 'own', 'shifted'):
                if n > 3 and op in ('matrix', 'wide') or n > 2 and op == 'wide':
                    continue
                out.append(dict(what='convert', kind=kind, n=n, op=op))
    for kind in ('delta', 'gaussian'):
        for n in (2, 3, 5):
            out.append(dict(what='convert', kind=kind, n=n, op='diagonal', scales=True, _concrete=True))
    out += [dict(what='malformed', n=n) for n in (1, 2, 3)]
    out += [dict(what='from model', nrc=n, c0=c) for n in (0, 1, 3) for c in (False, True)]
    return out


def make(K, kind, name, n):
    mean = K.arr(f'{name}m', (n,))
    cov = K.mat(f'{name}c', n)
    if kind == 'delta':
        return DeltaDistribution(mean=mean.copy()), mean, np.zeros((n, n))
    return MultivariateGaussian(mean=mean.copy(), covariance=cov.copy()), mean, cov


def contract(K, cfg):
    if cfg['what'] == 'combine':
        made = [make(K, cfg['kind'], f'd{i}', n) for i, n in enumerate(cfg['dims'])]
        for d, m, c in made:
            K.eq('mean', d.get_mean(), m)
            K.eq('covariance', d.get_covariance(), c)
            K.same('dimensions', d.num_dimensions, len(m))
        both = made[0][0].combine_with([d for d, _, _ in made[1:]])
        K.same('kind', type(both).__name__, type(made[0][0]).__name__)
        total = sum(cfg['dims'])
        K.same('dimensions of the combination', both.num_dimensions, total)
        K.eq('mean of the combination', both.get_mean(), np.concatenate([m for _, m, _ in made]))
        want = np.zeros((total, total), dtype=object if K.symbolic else float)
        if K.symbolic:
            want[...] = K.const(0)
        pos = 0
        for _, m, c in made:
            want[pos:pos + len(m), pos:pos + len(m)] = c
            pos += len(m)
        K.eq('covariance of the combination', both.get_covariance(), want)
        for label, others in (('tuple', tuple(d for d, _, _ in made[1:])), ('generator', (d for d, _, _ in made[1:]))):
            again = made[0][0].combine_with(others)
            K.eq(f'mean of the combination, {label}', again.get_mean(), both.get_mean())
            K.eq(f'covariance of the combination, {label}', again.get_covariance(), want)
        for d, m, c in made:
            K.eq('combined one: mean', d.get_mean(), m)
            K.eq('combined one: covariance', d.get_covariance(), c)
        if len(made) == 3:
            step = made[0][0].combine_with((made[1][0],)).combine_with((made[2][0],))
            K.eq('one after the other: mean', step.get_mean(), both.get_mean())
            K.eq('one after the other: covariance', step.get_covariance(), want)
        K.eq('alone: mean', made[0][0].combine_with(()).get_mean(), made[0][1])
        K.eq('alone: covariance', made[0][0].combine_with(()).get_covariance(), made[0][2])
    elif cfg['what'] == 'convert':
        convert(K, cfg)
    elif cfg['what'] == 'malformed':
        n = cfg['n']
        K.raises('scalar mean', lambda: DeltaDistribution(mean=np.array(1.)))
        K.raises('matrix mean', lambda: DeltaDistribution(mean=np.zeros((n + 1, 2))))
        K.raises('matrix mean of a Gaussian', lambda: MultivariateGaussian(mean=np.zeros((2, n + 1)), covariance=np.eye(2)))
        K.raises('covariance too small', lambda: MultivariateGaussian(mean=np.zeros(n + 1), covariance=np.eye(n)))
        K.raises('covariance too large', lambda: MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n + 1)))
        K.raises('covariance not square', lambda: MultivariateGaussian(mean=np.zeros(n), covariance=np.zeros((n, n + 1))))
        K.raises('covariance a vector', lambda: MultivariateGaussian(mean=np.zeros(n), covariance=np.zeros(n)))
        g = MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n))
        K.raises('assigning a covariance of the wrong size', lambda: setattr(g, 'covariance', np.eye(n + 1)))
    else:
        cell = Cell(K, nrc=cfg['nrc'], c0=cfg['c0'], tdf='zero')
        st = cell.state()
        d = convert_vals_model_to_filter(st)
        want = st.to_numpy()[0]
        K.eq('exact state', d.get_mean(), want)
        K.same('exact state is a point', type(d).__name__, 'DeltaDistribution')
        S = K.mat('S', len(want))
        g = convert_vals_model_to_filter(st, S)
        K.eq('uncertain state', g.get_mean(), want)
        K.eq('uncertainty', g.get_covariance(), S)
        u = inputs(K, '', K.real('t'), K.real('i'), K.real('T') if cfg['c0'] else None)
        K.eq('inputs', convert_vals_model_to_filter(u).get_mean(), u.to_numpy()[0])


def convert(K, cfg):
    n, op = cfg['n'], cfg['op']
    d, mean, cov = make(K, cfg['kind'], 'd', n)
    if op in ('own', 'shifted'):
        own(K, cfg, d, mean, cov)
        return
    if op == 'identity':
        c = IdentityConversionOperator()
    elif op == 'absolute':
        c = AbsoluteValueConversionOperator()
    elif op == 'some':
        c = AbsoluteValueConversionOperator(indices=[n - 1])
    elif op == 'scalar':
        a = K.real('a', pos=True, box=(.3, 3))
        c = LinearConversionOperator(multiplicative_array=np.array(a, dtype=object if K.symbolic else float), additive_array=K.arr('b', (n,)))
    elif cfg.get('scales'):     # quantities of very different units, each compared in its own
        s = np.array([10. ** K.sampled(f's{i}', lambda r: r.uniform(-6, 6)) for i in range(n)])
        return scaled(K, d, mean, cov, s)
    elif op == 'diagonal':
        c = LinearConversionOperator(multiplicative_array=K.arr('M', (n,), pos=True, box=(.3, 3)), additive_array=K.arr('b', (n,)))
    else:
        m = n + (op == 'wide')
        M = K.arr('M', (n, m))
        from .c11 import det
        dd = det(np.matmul(M, M.T))
        K.assume(dd != 0 if K.symbolic else dd > 0.05)
        c = LinearConversionOperator(multiplicative_array=M, additive_array=K.arr('b', (m,)))
    out = d.convert(c)
    K.same('kind', type(out).__name__, type(d).__name__)
    K.eq('mean', out.get_mean(), c.transform_samples(mean))
    if cfg['kind'] == 'gaussian':
        K.eq('covariance', out.get_covariance(), c.transform_covariance(cov, mean))
    else:
        K.eq('covariance of a point', out.get_covariance(), np.zeros((len(out.get_mean()),) * 2))
    back = out.convert(c, inverse=True)
    K.eq('mean converted back', back.get_mean(), c.inverse_transform_samples(out.get_mean()), rtol=1e-5, atol=1e-6)
    if cfg['kind'] == 'gaussian':
        K.eq('covariance converted back', back.get_covariance(),
             c.inverse_transform_covariance(out.get_covariance(), out.get_mean()), rtol=1e-5, atol=1e-6)
    if op not in ('absolute', 'some'):
        K.eq('mean there and back', back.get_mean(), mean, rtol=1e-5, atol=1e-6)
        if cfg['kind'] == 'gaussian':
            K.eq('covariance there and back', back.get_covariance(), cov, rtol=1e-5, atol=1e-6)
    else:
        K.eq('absolute value: mean there, back and there', back.convert(c).get_mean(), out.get_mean())
        if cfg['kind'] == 'gaussian':
            K.eq('absolute value: covariance there, back and there', back.convert(c).get_covariance(), out.get_covariance())


def scaled(K, d, mean, cov, s):
    c = LinearConversionOperator(multiplicative_array=s.copy(), additive_array=np.zeros(len(s)))
    out = d.convert(c)
    K.eq('mean in units', out.get_mean() / s, mean)
    back = out.convert(c, inverse=True)
    K.eq('mean there and back in units', back.get_mean(), mean, rtol=1e-5, atol=1e-6)
    K.eq('covariance in units', out.get_covariance() / np.outer(s, s), cov)
    K.eq('covariance there and back in units', back.get_covariance(), cov, rtol=1e-5, atol=1e-6)


def own(K, cfg, d, mean, cov):
    c, k, off = (Reciprocal(), 2, 0) if cfg['op'] == 'own' else (Shifted(), 3, 1)
    for v in mean:
        K.assume(K.or_(v > .05, v < -.05))
    out = d.convert(c)
    K.eq('mean', out.get_mean(), k / mean - off)
    slope = -k / (mean * mean)
    K.eq('covariance around the mean', out.get_covariance(), cov * np.outer(slope, slope))
    back = out.convert(c, inverse=True)
    K.eq('mean there and back', back.get_mean(), mean)
    K.eq('covariance there and back', back.get_covariance(), cov)
    K.eq('converted one: mean', d.get_mean(), mean)
    K.eq('converted one: covariance', d.get_covariance(), cov)
