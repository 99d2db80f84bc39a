"""The Thevenin interface: every batch member is solved with its own parameters, state, environment, current and duration, what the
solver gives for it is its new state, and the voltage follows from state and parameters.  The solver (package `thevenin`, not
installed here) is under contract: any function of what it is given"""
import sys
import types
import numpy as np
from .frame import Picture
from .onlinelib import apply, unknown

LEVEL = 'other'
RUNS = 4
TOL = 10.
SCALARS = ('capacity', 'mass', 'c_p', 'h_thermal', 'a_therm')
PARAMS = dict(soc0='soc', capacity='capacity', mass='mass', Cp='c_p', T_inf='t_inf', h_therm='h_thermal', A_therm='a_therm')


class Solver:
    """what the contract of `thevenin` knows of one run"""
    points = ()      # where functions of SOC and temperature are compared
    junk = None      # any number
    runs = []


def solution(i, args):
    if unknown(args):
        return apply('thevenin', i, args)
    args = [np.asarray(a, dtype=float).item() for a in args]
    return float(sum(np.sin(a * (1 + .37 * k + .21 * i)) * (1 + .1 * k) for k, a in enumerate(args)))


def one(v):
    """a number given as a number or as an array with one entry"""
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise ValueError(f'a number is needed, got shape {v.shape}')
        return v.reshape(-1)[0]
    return v


class Model:
    def __init__(self, params):
        self.params = p = dict(params)
        n = self.n = p['num_RC_pairs']
        known = {'num_RC_pairs', 'isothermal', 'ocv', 'R0', *PARAMS} | {f'{x}{j + 1}' for x in 'RC' for j in range(n)}
        if set(p) != known:
            raise ValueError(f'parameters missing or unknown: {sorted(set(p) ^ known)}')
        values = {k: one(p[k]) for k in PARAMS}
        self.values = values
        self._ptr = {'soc': 0, 'T_cell': 1, 'eta_j': np.arange(2, 2 + n), 'V_cell': 2 + n}
        self._sv0 = np.zeros(3 + n, dtype=object if unknown(values.values()) else float)
        self._sv0[0], self._sv0[1] = values['soc0'], values['T_inf']
        if self._sv0.dtype == object:
            self._sv0[2:] = [values['soc0'] * 0] * (n + 1)

    def run(self, exp):
        (current, duration), = exp.steps
        p = self.params
        funs = [p['ocv'](q) for q, _ in Solver.points]
        for name in ['R0'] + [f'{x}{j + 1}' for j in range(self.n) for x in 'RC']:
            funs += [p[name](q, t) for q, t in Solver.points]
        args = [1 if p['isothermal'] else 0] + [self.values[k] for k in PARAMS if k != 'soc0'] + list(self._sv0[:2 + self.n])
        args = [one(a) for a in args + funs + [current, duration]]
        Solver.runs.append(self._sv0[:2 + self.n].copy())
        self._sv0[...] = Solver.junk
        vs = {}
        for i, k in enumerate(['soc', 'temperature_K'] + [f'eta{j + 1}_V' for j in range(self.n)]):
            a = np.empty(exp.points, dtype=self._sv0.dtype)
            a[...] = Solver.junk
            a[-1] = solution(i, args)
            vs[k] = a
        return types.SimpleNamespace(vars=vs)


class Experiment:
    def __init__(self):
        self.steps, self.points = [], 2

    def add_step(self, mode, value, tspan):
        if mode != 'current_A' or len(tspan) != 2 or self.steps:
            from vc.terms import Unsupported
            raise Unsupported('experiment of another kind')
        self.points = max(2, int(tspan[1]))
        self.steps.append((one(value), one(tspan[0])))


stand_in = types.ModuleType('thevenin')
stand_in.Model, stand_in.Experiment = Model, Experiment
sys.modules['thevenin'] = stand_in

from moirae.models.thevenin import TheveninModel, TheveninASOH, TheveninTransient, TheveninInput  # noqa: E402
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable  # noqa: E402

FIELDS = SCALARS + ('ocv', 'r_soc', 'r_t', 'r_ref', 'c_soc', 'c_t', 'c_ref', 'soc', 'temp', 'eta', 'current', 'time', 't_inf', 'ptime')


def configs(tier):
    out = []
    for n in (0, 1, 2):
        out.append(dict(what='step', nrc=n, B=1, batch=(), degree=(1, 2, 1), iso=bool(n % 2)))
        for k, batch in enumerate([FIELDS, ('soc', 'temp', 'eta'), SCALARS, ('ocv', 'r_soc', 'c_t'), ('r_t', 'c_soc'), ('r_ref', 'c_ref'),
                                   ('current', 'time', 'ptime'), ('t_inf', 'soc', 'mass')] + [(f,) for f in FIELDS]):
            out.append(dict(what='step', nrc=n, B=2 + k % 2, batch=batch, degree=((2, 1, 3), (1, 3, 2), (3, 2, 1))[k % 3], iso=bool(k % 2)))
    out += [dict(what='step', nrc=3, B=b, batch=batch, degree=(1, 2, 1), iso=False) for b, batch in ((1, ()), (2, ('eta', 'r_soc', 'c_soc')))]
    for degree in (1, 2, 4):
        for b in (1, 2, 3):
            out.append(dict(what='polynomial', degree=degree, B=b))
            for which in range(1, 8):
                if b > 1 or which == 7:
                    out.append(dict(what='surface', degree=degree, other=1 + which % 3, B=b, which=which))
    for n in (0, 1, 2, 4):
        out.append(dict(what='shape', nrc=n))
    return out


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def poly(c, x):
    """textbook: c[0] + c[1] x + c[2] x^2 + ..."""
    s, p = 0, 1
    for v in c:
        s = s + v * p
        p = p * x
    return s


class Circuit:
    def __init__(self, K, cfg):
        self.K, self.n = K, cfg['nrc']
        self.B = cfg['B']
        d = cfg['degree']

        def mk(name, key, width, **k):
            return K.arr(name, (self.B if key in cfg['batch'] else 1, width), **k)
        v = self.v = {s: mk(s, s, 1, pos=True) for s in SCALARS}
        v['ocv'] = mk('ocv', 'ocv', d[0])
        for kind, count in (('r', self.n + 1), ('c', self.n)):
            for j in range(count):
                v[f'{kind}_soc{j}'] = mk(f'{kind}s{j}', f'{kind}_soc', d[1])
                v[f'{kind}_t{j}'] = mk(f'{kind}t{j}', f'{kind}_t', d[2])
                v[f'{kind}_ref{j}'] = mk(f'{kind}ref{j}', f'{kind}_ref', 1, box=(-1., 1.))
        v['soc'], v['temp'] = mk('soc', 'soc', 1), mk('temp', 'temp', 1)
        v['eta'] = mk('eta', 'eta', self.n)
        v['current'], v['t_inf'] = mk('current', 'current', 1), mk('tinf', 't_inf', 1)
        v['ptime'] = mk('ptime', 'ptime', 1)
        v['time'] = mk('time', 'time', 1)

    def asoh(self):
        v = self.v

        def var(kind, j):
            return SOCTempPolynomialVariable(soc_coeffs=v[f'{kind}_soc{j}'], t_coeffs=v[f'{kind}_t{j}'], t_ref=v[f'{kind}_ref{j}'])
        return TheveninASOH(**{s: v[s] for s in SCALARS}, ocv=SOCPolynomialVariable(coeffs=v['ocv']),
                            r=tuple(var('r', j) for j in range(self.n + 1)), c=tuple(var('c', j) for j in range(self.n)))

    def state(self):
        v = self.v
        return TheveninTransient(soc=v['soc'], temp=v['temp'], eta=v['eta'])

    def inputs(self):
        v = self.v
        return (TheveninInput(time=v['ptime'], current=self.K.arr('pcurrent', (1, 1)), t_inf=self.K.arr('ptinf', (1, 1))),
                TheveninInput(time=v['time'], current=v['current'], t_inf=v['t_inf']))

    def of(self, b):
        """the values of one member"""
        return {k: x[b % len(x)] for k, x in self.v.items()}

    def surface(self, m, kind, j, q, t):
        return poly(m[f'{kind}_soc{j}'], q) + poly(m[f'{kind}_t{j}'], t - m[f'{kind}_ref{j}'][0])


def do_step(K, cfg):
    c = Circuit(K, cfg)
    Solver.points = [(K.real(f'q{i}'), K.real(f'T{i}')) for i in range(2)]
    Solver.junk = K.real('junk')
    Solver.runs = []
    asoh, state = c.asoh(), c.state()
    prev, new = c.inputs()
    model = TheveninModel(isothermal=cfg['iso'])
    pic = Picture(K, asoh=asoh, state=state, prev=prev, new=new)
    got = model.update_transient_state(prev, new, state, asoh)
    pic.check('update')
    B = max(asoh.batch_size, state.batch_size, new.batch_size, prev.batch_size)
    K.same('solver runs', len(Solver.runs), B)
    starts = list(Solver.runs)
    want = []
    for b in range(B):
        m = c.of(b)
        # the temperature of the state is not handed to the solver, which starts from that of the environment
        start = starts[b][1]
        kept = differ(K, start, m['temp'][0]) and not differ(K, start, m['t_inf'][0])
        if differ(K, m['temp'][0], m['t_inf'][0]):
            K.finding('the solver starts from the temperature of the environment, not from that of the transient state', not kept,
                      'temperature-not-carried')
        args = [1 if cfg['iso'] else 0] + [m[k][0] for p, k in PARAMS.items() if p != 'soc0']
        args += [m['soc'][0], m['t_inf'][0] if kept else m['temp'][0]] + list(m['eta'])
        args += [poly(m['ocv'], q) for q, _ in Solver.points] + [c.surface(m, 'r', 0, q, t) for q, t in Solver.points]
        for j in range(c.n):
            args += [c.surface(m, 'r', j + 1, q, t) for q, t in Solver.points] + [c.surface(m, 'c', j, q, t) for q, t in Solver.points]
        args += [-m['current'][0], m['time'][0] - m['ptime'][0]]
        want.append([solution(i, args) for i in range(2 + c.n)])
    want = np.array(want, dtype=object if K.symbolic else float)
    K.same('type', type(got), TheveninTransient)
    K.eq('new state', got.to_numpy(), want)
    K.eq('state of charge', got.soc, want[:, :1])
    K.eq('temperature', got.temp, want[:, 1:2])
    K.eq('overpotentials', got.eta, want[:, 2:])
    out = model.calculate_terminal_voltage(new, state, asoh)
    pic.check('voltage')
    v = out.terminal_voltage
    K.same('voltages', v.shape[0] in (1, B), True)
    want = []
    for b in range(B):
        m = c.of(b)
        e = poly(m['ocv'], m['soc'][0]) + m['current'][0] * c.surface(m, 'r', 0, m['soc'][0], m['temp'][0])
        for x in m['eta']:
            e = e - x
        want.append([e])
    K.eq('voltage', np.broadcast_to(v, (B, 1)).copy(), np.array(want, dtype=object if K.symbolic else float))
    again = model.update_transient_state(prev, new, state, asoh)
    K.eq('new state, once more', again.to_numpy(), got.to_numpy())


def differ(K, a, b):
    if K.symbolic:
        from vc import terms as T
        return not T.is_zero(T.lift(a) - T.lift(b))
    return a != b


def do_polynomial(K, cfg):
    c = K.arr('c', (cfg['B'], cfg['degree']))
    v = SOCPolynomialVariable(coeffs=c)
    pic = Picture(K, v=v)
    q = K.real('q')
    for b in range(cfg['B'] + 1):
        K.eq(f'member {b}', np.asarray(v(q, batch_id=b)), np.asarray(poly(c[b % cfg['B']], q)))
    qs = K.arr('qs', (cfg['B'],))
    K.eq('each its own', v(qs), np.array([poly(c[b], qs[b]) for b in range(cfg['B'])]))
    K.eq('all at the same', v(qs[:1]), np.array([poly(c[b], qs[0]) for b in range(cfg['B'])]))
    K.eq('default', np.asarray(SOCPolynomialVariable()(q, batch_id=0)), np.asarray(K.const(1)))
    pic.check('evaluation')


def do_surface(K, cfg):
    B, w = cfg['B'], cfg['which']
    s, t, r = (K.arr(n, (B if w >> i & 1 else 1, d)) for i, (n, d) in enumerate((('s', cfg['degree']), ('t', cfg['other']), ('ref', 1))))
    v = SOCTempPolynomialVariable(soc_coeffs=s, t_coeffs=t, t_ref=r)
    pic = Picture(K, v=v)

    def want(b, q, temp):
        return poly(s[b % len(s)], q) + poly(t[b % len(t)], temp - r[b % len(r)][0])
    q, temp = K.real('q'), K.real('temp')
    for b in range(B):
        K.eq(f'member {b}', np.asarray(v(q, temp, batch_id=b)), np.asarray(want(b, q, temp)))
    qs, temps = K.arr('qs', (B,)), K.arr('temps', (B,))
    K.eq('each its own', v(qs, temps), np.array([want(b, qs[b], temps[b]) for b in range(B)]))
    K.eq('same temperature', v(qs, temps[:1]), np.array([want(b, qs[b], temps[0]) for b in range(B)]))
    K.eq('same SOC', v(qs[:1], temps), np.array([want(b, qs[0], temps[b]) for b in range(B)]))
    K.eq('at the reference', np.asarray(v(q, r[0][0], batch_id=0)), np.asarray(poly(s[0], q) + t[0][0]))
    pic.check('evaluation')


def do_shape(K, cfg):
    n = cfg['nrc']
    c = Circuit(K, dict(nrc=n, B=1, batch=(), degree=(2, 2, 2)))
    a = c.asoh()
    K.same('RC elements', a.num_rc_elements, n)
    s = TheveninTransient.from_asoh(a, soc=c.v['soc'], temp=c.v['temp'])
    K.eq('discharged', s.to_numpy(), np.array([[c.v['soc'][0, 0], c.v['temp'][0, 0]] + [K.const(0)] * n]))
    K.same('names', s.all_names, ('soc', 'temp') + (('eta',) if n == 1 else tuple(f'eta[{j}]' for j in range(n))))
    for extra in (1, 2):
        K.raises(f'{extra} resistors too many', lambda: TheveninASOH(r=a.r + a.r[:1] * extra, c=a.c))
        K.raises(f'{extra} capacitors too many', lambda: TheveninASOH(r=a.r, c=a.c + a.r[:1] * extra))
    K.raises('no resistor', lambda: TheveninASOH(r=(), c=()))
    K.same('default circuit', TheveninASOH().num_rc_elements, 0)
