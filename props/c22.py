"""Offline estimation: the optimizer is given the starting point of the loss and a positive multiple of the loss; the point it returns
(any point) is split into the state and the health parameters in the order of the starting point.  scipy.optimize.minimize is under
the contract `evaluates the function at points of its choice and returns one`; it is also run for real"""
import contextlib
import sys
import numpy as np
import scipy.optimize
from scipy.optimize import OptimizeResult
from .frame import Picture, poke
from .onlinelib import World, Any, Poly, NAMES, unknown, apply
from .c21 import dataset, SELECT
from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer

LEVEL = 'other'
RUNS = 6
T6 = dict(rtol=1e-6, atol=1e-8)


def configs(tier):
    out = []
    for sel in SELECT:
        for nz in (0, 2):
            for sign in ('positive', 'zero', 'negative', 'tiny'):
                out.append(dict(what='any', sel=sel, nz=nz, sign=sign))
    for sel in SELECT:
        out.append(dict(what='mse', sel=sel, nz=1))
    for sel in ('none', 'one', 'permuted'):
        for method in ('Nelder-Mead', 'Powell', 'L-BFGS-B', None):
            out.append(dict(what='real', sel=sel, nz=1, method=method, _concrete=True, _runs=2))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


@contextlib.contextmanager
def minimizer(fn):
    """every reference of the package to scipy.optimize.minimize is fn"""
    real, undo = scipy.optimize.minimize, []
    for n, m in list(sys.modules.items()):
        if m is not None and (n.split('.')[0] == 'moirae' or m is scipy.optimize):
            for k, v in list(vars(m).items()):
                if v is real:
                    undo.append((m, k))
                    setattr(m, k, fn)
    try:
        yield
    finally:
        for m, k in undo:
            setattr(m, k, real)


class AnyLoss(BaseLoss):
    """any function of the candidate (up to a factor, to prescribe its sign)"""
    factor, shift = 1., 0.

    def value(self, c):
        if unknown(list(c)):
            return apply('loss', 0, list(c)) * self.factor + self.shift
        return (1. + sum((v - .25 * i) ** 2 * (i + 1) for i, v in enumerate(c))) * self.factor + self.shift

    def __call__(self, x):
        self.asked.append(x.copy())
        return np.array([self.value(c) for c in x], dtype=x.dtype)


class Minimize:
    def __init__(self, K, n):
        self.K, self.calls = K, 0
        self.points = [K.arr(f'p{i}', (n,)) for i in range(2)]
        self.best = K.arr('best', (n,))
        self.values = []

    def __call__(self, fun, x0, *args, **kw):
        self.calls += 1
        self.x0, self.kw, self.args = np.array(x0), kw, args
        for p in self.points + [self.x0, self.best]:
            q = p.copy()
            self.values.append(fun(q))
            self.K.eq('points are left alone', q, p)
        self.result = OptimizeResult(x=self.best.copy(), fun=self.values[-1], success=True)
        return self.result


def check_split(K, w, loss, state, asoh, best, names):
    K.eq('state', state.to_numpy(), np.array([best[:w.nt]]))
    h = {n: v.copy() for n, v in w.h.items()}
    i = w.nt
    for n in names:
        h[n] = best[None, i:i + NAMES[n]]
        i += NAMES[n]
    K.same('all values are used', i, len(best))
    K.same('the same parameters are updatable', tuple(asoh.updatable_names), tuple(names))
    full = asoh.model_copy(deep=True)
    full.mark_all_updatable()
    for n in h:
        K.eq(f'parameter {n}', full.get_parameters([n]), h[n])


def do_any(K, cfg):
    w = World(K, cfg['nz'], updatable=SELECT[cfg['sel']])
    a, s = w.asoh(), w.state()
    data, _, _ = dataset(K, dict(rows=2, temp='none'))
    loss = AnyLoss(Any(cfg['nz']), a, s, data)
    loss.asked = []
    if cfg['sign'] == 'negative':
        loss.factor, loss.shift = -1., 0.
    elif cfg['sign'] == 'tiny':
        loss.factor = 1e-14
    x0 = loss.get_x0()
    if cfg['sign'] == 'zero':
        loss.shift = -loss.value(x0)
    at_start = loss.value(x0)
    if K.symbolic and cfg['sign'] != 'zero':
        K.assume(at_start < 0 if cfg['sign'] == 'negative' else at_start > 0)
    pic = Picture(K, asoh=loss.asoh, state=loss.state, raw=data.raw_data, a=a, s=s)
    opt = Minimize(K, len(x0))
    est = ScipyMinimizer(loss, method='any', bounds=[(0, 1)] * len(x0), options=dict(maxiter=3))
    with minimizer(opt):
        state, asoh, res = est.estimate()
    K.same('one optimization', opt.calls, 1)
    K.same('options are passed on', (opt.kw.get('method'), opt.kw.get('bounds'), opt.kw.get('options'), sorted(opt.kw)),
           ('any', [(0, 1)] * len(x0), dict(maxiter=3), ['bounds', 'method', 'options']))
    K.eq('starting point', opt.x0, x0)
    K.same('diagnostics', res is opt.result, True)
    true = [loss.value(c) for c in opt.points + [x0, opt.best]]
    for i, (u, v) in enumerate(zip(opt.values, true)):
        for j in range(i):
            K.eq(f'multiple of the loss ({i}, {j})', u * true[j], opt.values[j] * v, **T6)
            # increasing with the loss
            up = opt.values[i] - opt.values[j], v - true[j]
            if K.symbolic:
                K.holds(f'increases with the loss ({i}, {j})', K.or_(up[1] <= 0, up[0] > 0))
            else:
                K.same(f'increases with the loss ({i}, {j})', up[0] > 0 or up[1] <= 1e-9 * abs(v), True)
    names = loss.asoh.updatable_names
    check_split(K, w, loss, state, asoh, opt.best, names)
    pic.check('estimation')
    # what is returned has the loss of the optimum
    again = AnyLoss(w.model, asoh, state, data)
    again.factor, again.shift, again.asked = loss.factor, loss.shift, []
    K.eq('candidate of what is returned', again.get_x0(), opt.best)
    K.eq('loss of what is returned', again(again.get_x0()[None]), np.array([true[-1]]), **T6)
    poke(state, asoh)
    pic.check('changing what was returned')


def do_mse(K, cfg):
    """with the mean squared loss of any model"""
    w = World(K, cfg['nz'], updatable=SELECT[cfg['sel']])
    w.model = Any(cfg['nz']) if K.symbolic else Poly(cfg['nz'])
    data, _, _ = dataset(K, dict(rows=2, temp='none'))
    loss = MeanSquaredLoss(w.model, w.asoh(), w.state(), data)
    x0 = loss.get_x0()
    at_start = loss(x0[None])[0]
    K.assume(at_start > 1e-6)
    opt = Minimize(K, len(x0))
    with minimizer(opt):
        state, asoh, res = ScipyMinimizer(loss).estimate()
    K.eq('starting point', opt.x0, x0)
    true = [loss(c[None])[0] for c in opt.points + [x0, opt.best]]
    for i in (0, 1, 3):
        K.eq(f'multiple of the loss ({i})', opt.values[i] * true[2], opt.values[2] * true[i], **T6)
    K.holds('positive', opt.values[2] > 0)
    check_split(K, w, loss, state, asoh, opt.best, loss.asoh.updatable_names)
    again = MeanSquaredLoss(w.model, asoh, state, data)
    K.eq('loss of what is returned', again(again.get_x0()[None])[0], true[-1], **T6)


def do_real(K, cfg):
    """the optimizer itself"""
    w = World(K, cfg['nz'], updatable=SELECT[cfg['sel']])
    data, _, _ = dataset(K, dict(rows=5, temp='none'))
    loss = MeanSquaredLoss(Poly(cfg['nz']), w.asoh(), w.state(), data)
    x0 = loss.get_x0()
    kw = {} if cfg['method'] is None else dict(method=cfg['method'])
    state, asoh, res = ScipyMinimizer(loss, options=dict(maxiter=30), **kw).estimate()
    check_split(K, w, loss, state, asoh, res.x, loss.asoh.updatable_names)
    y0, y = loss(x0[None])[0], loss(res.x[None])[0]
    K.assume(y0 > 1e-3)
    K.eq('value of the optimum', res.fun * y0, y, rtol=1e-6, atol=1e-9)
    K.le('no worse than the starting point', y, y0)
