"""Simulation: every step is the contract of the model (and of the degradation model) applied to the last state, inputs and
health parameters of every batch member on its own; the histories are the sequence of these values, whatever the caller does
with its objects; tables and datasets exported hold exactly the histories"""
import numpy as np
from .frame import Picture, poke
from .onlinelib import Poly, Any, Fade, Wear, Health, State, In, Out, NAMES, ORDER, health
from moirae.simulator import Simulator
from moirae.models.ecm import EquivalentCircuitModel
from . import ecmlib

LEVEL = 'other'
RUNS = 4
TOL = 30.


def configs(tier):
    out = []
    for B, where in ((1, ''), (2, 'state'), (2, 'health'), (3, 'inputs'), (2, 'later'), (2, 'later+health'), (3, 'state+health+inputs')):
        for wear in ('no', 'fade', 'wear', 'in-place'):
            out.append(dict(what='steps', B=B, where=where, wear=wear, steps=3, nz=B % 2, extra=B > 1, more=wear != 'fade',
                            mode=('step', 'evolve', 'mixed')[(B + len(wear)) % 3]))
    for B, where in ((1, ''), (2, 'state'), (2, 'health'), (3, 'inputs'), (2, 'later'), (3, 'state+health+inputs')):
        for n in (0, 1, 3):
            out.append(dict(what='tables', B=B, where=where, wear='wear', steps=n, nz=2 - B % 2, extra=B > 1, more=n > 0))
    out.append(dict(what='tables', B=12, where='state+inputs', wear='wear', steps=1, nz=1, extra=True, more=True))
    out.append(dict(what='tables', B=1, where='', wear='no', steps=12, nz=11, extra=True, more=True))
    for wear in ('no', 'wear'):
        out.append(dict(what='untold', B=2, where='state', wear=wear, steps=3, nz=1, extra=True, more=True))
    for B, where in ((1, ''), (2, 'health'), (3, 'state')):
        out.append(dict(what='untouched', B=B, where=where, wear='wear', steps=2, nz=1, extra=True, more=True))
    for nrc in (0, 1, 2):
        out.append(dict(what='ecm', nrc=nrc, B=2, steps=3 - (nrc > 1)))
    return out


class Batch:
    """values of everything, (1, n) or (B, n)"""

    def __init__(self, K, cfg):
        self.K, B, self.cfg = K, cfg['B'], cfg
        where = cfg['where'].split('+')
        self.B, self.nz = B, cfg['nz']
        self.model = Any(cfg['nz'], cfg['extra'], cfg['more'])
        self.h = {n: K.arr(f'h.{n}', (B if 'health' in where else 1, w)) for n, w in NAMES.items()}
        if 'health' in where and cfg['wear'] == 'no':
            self.h['k'] = self.h['k'][:1]
        self.x = K.arr('x', (B if 'state' in where else 1, 1 + cfg['nz']))
        nu = 2 + cfg['extra']
        self.u = K.arr('u0', (B if 'inputs' in where else 1, nu))
        self.us = [K.arr(f'u{i + 1}', (B if 'inputs' in where or 'later' in where and i else 1, nu)) for i in range(cfg['steps'])]

    def asoh(self):
        return health({n: v.copy() for n, v in self.h.items()})

    def state(self):
        return State(x=self.x[:, :1].copy(), z=self.x[:, 1:].copy() if self.nz else None)

    def inputs(self, u):
        return In(time=u[:, :1].copy(), current=u[:, 1:2].copy(), extra=u[:, 2:].copy() if self.cfg['extra'] else None)

    def degradation(self):
        w = self.cfg['wear']
        return {} if w == 'no' else dict(degradation_model=Fade() if w == 'fade' else Wear(w == 'in-place'))

    def trace(self):
        """for every member: lists of inputs, states, outputs and parameters over the steps"""
        out = []
        for b in range(self.B):
            at = lambda v: list(v[b if len(v) > 1 else 0])     # noqa: E731
            hd = {n: at(v) for n, v in self.h.items()}
            h = [v for n in ORDER for v in hd[n]]
            u, x = at(self.u), at(self.x)
            rec = [(u, x, self.model.g(u, x, h), h)]
            for row in self.us:
                prev, u = u, at(row)
                x = self.model.f(prev, u, x, h)
                y = self.model.g(u, x, h)
                if self.cfg['wear'] == 'fade':
                    h = [v * c for v, c in zip(h, Fade.factors)]
                elif self.cfg['wear'] != 'no':
                    h = Wear.rule(h, u, x, y)
                rec.append((u, x, y, h))
            out.append(rec)
        return out


def values(c):
    """all values, as rows, in the order of the specification"""
    if isinstance(c, Health):
        return np.concatenate(np.broadcast_arrays(*Poly.health_columns(c)), axis=1)
    return np.asarray(c.to_numpy())


def matches(K, name, c, want):
    """the rows of a container are those wanted for the members (one row when it is common to all)"""
    got = values(c)
    K.same(f'{name}: batch size', len(got) in (1, len(want)), True)
    K.eq(name, np.broadcast_to(got, (len(want), got.shape[1])), np.array(want, dtype=object if K.symbolic else float))


def contract(K, cfg):
    globals()['do_' + cfg['what']](K, cfg)


def histories(K, sim, trace, upto, when=''):
    hist = (sim.input_history, sim.transient_history, sim.measurement_history, sim.asoh_history)
    K.same(f'lengths{when}', [len(h) for h in hist], [upto + 1] * 4)
    for k in range(upto + 1):
        for i, (n, h) in enumerate(zip(('inputs', 'state', 'outputs', 'health'), hist)):
            matches(K, f'{n} {k}{when}', h[k], [r[k][i] for r in trace])


def current(K, sim, trace, k, when=''):
    for i, (n, c) in enumerate((('inputs', sim.previous_input), ('state', sim.transient), ('outputs', sim.measurement), ('health', sim.asoh))):
        matches(K, f'last {n}{when}', c, [r[k][i] for r in trace])


def do_steps(K, cfg):
    w = Batch(K, cfg)
    trace = w.trace()
    a, s, u = w.asoh(), w.state(), w.inputs(w.u)
    us = [w.inputs(v) for v in w.us]
    pic = Picture(K, a=a, s=s, u=u, us=us)
    sim = Simulator(w.model, a, s, u, keep_history=True, **w.degradation())
    histories(K, sim, trace, 0, ' (start)')
    got, k = [], 0
    while k < len(us):
        if cfg['mode'] == 'step' or cfg['mode'] == 'mixed' and k == 0:
            new, y = sim.step(us[k])
            matches(K, f'state returned by step {k + 1}', new, [r[k + 1][1] for r in trace])
            got.append(y)
            k += 1
        else:
            ys = sim.evolve(us[k:])
            K.same('number of outputs', len(ys), len(us) - k)
            got.extend(ys)
            k = len(us)
        current(K, sim, trace, k, f' after {k}')
    for i, y in enumerate(got):
        matches(K, f'outputs returned by step {i + 1}', y, [r[i + 1][2] for r in trace])
    histories(K, sim, trace, len(us))
    pic.check('simulation')
    K.same('nothing happens for no inputs', sim.evolve([]), [])
    histories(K, sim, trace, len(us), ' (end)')


def do_untold(K, cfg):
    """without histories"""
    w = Batch(K, cfg)
    trace = w.trace()
    sim = Simulator(w.model, w.asoh(), w.state(), w.inputs(w.u), **w.degradation())
    for k, v in enumerate(w.us):
        new, y = sim.step(w.inputs(v))
        matches(K, f'state {k}', new, [r[k + 1][1] for r in trace])
        matches(K, f'outputs {k}', y, [r[k + 1][2] for r in trace])
        current(K, sim, trace, k + 1, f' after {k}')
    K.same('no histories', (sim.input_history, sim.transient_history, sim.measurement_history), (None, None, None))
    K.raises('no table', sim.to_dataframe)
    K.raises('no dataset', sim.to_batdata)


def do_untouched(K, cfg):
    """the caller overwrites the objects it passed, once passed, and uses one object for the inputs of all steps"""
    w = Batch(K, cfg)
    trace = w.trace()
    a, s, u = w.asoh(), w.state(), w.inputs(w.u)
    sim = Simulator(w.model, a, s, u, keep_history=True, **w.degradation())
    poke(a, s, u)
    one = w.inputs(w.us[0])
    for k, v in enumerate(w.us):
        one.time, one.current, one.extra = v[:, :1].copy(), v[:, 1:2].copy(), v[:, 2:].copy()
        _, y = sim.step(one)
        poke(one)
        if k:
            # what the simulator reports as its last outputs and health is not what it has recorded
            poke(sim.measurement, sim.asoh) if k == len(w.us) - 1 else None
    histories(K, sim, trace, len(w.us))


def cells(df):
    return df.to_numpy()


def recorded(K, sim, b):
    """the histories of a member, to the last digit"""
    out = []
    for rec in zip(sim.input_history, sim.transient_history, sim.measurement_history):
        rows = [np.asarray(c.to_numpy()) for c in rec]
        out.append(np.concatenate([r[b if len(r) > 1 else 0] for r in rows]))
    return np.array(out, dtype=object if K.symbolic else float)


def do_tables(K, cfg):
    w = Batch(K, cfg)
    trace = w.trace()
    sim = Simulator(w.model, w.asoh(), w.state(), w.inputs(w.u), keep_history=True, **w.degradation())
    sim.evolve([w.inputs(v) for v in w.us])
    B = 1 if cfg['where'] == 'later' and len(w.us) < 2 else w.B
    names = ['time', 'current'] + ['extra'] * cfg['extra'] + ['x'] + [f'z[{i}]' for i in range(w.nz)] + ['terminal_voltage'] + ['more'] * cfg['more']
    rows = lambda b: [r[0] + r[1] + r[2] for r in trace[b]]     # noqa: E731
    df = sim.to_dataframe()
    K.same('number of rows', len(df), B * (len(w.us) + 1))
    if w.nz == 1:
        names[names.index('z[0]')] = [c for c in df.columns if c.startswith('z')][0]
    K.same('columns', list(df.columns), ['batch'] + names)
    for b in range(B):
        part = df[df['batch'] == b]
        K.eq(f'table of member {b} is the record', np.array(cells(part[names])), recorded(K, sim, b), rtol=0, atol=0)
        K.eq(f'table of member {b}', np.array(cells(part[names])), np.array(rows(b), dtype=object if K.symbolic else float))
    new = ['test_time' if n == 'time' else 'voltage' if n == 'terminal_voltage' else n for n in names]
    for extra in (False, True, False):
        data = sim.to_batdata(extra_columns=extra)
        K.same(f'datasets ({extra})', len(data), B)
        for b, d in enumerate(data):
            K.same('columns of the dataset', list(d.raw_data.columns), new)
            K.eq(f'dataset of member {b} is the record ({extra})', np.array(cells(d.raw_data)), recorded(K, sim, b), rtol=0, atol=0)
            K.eq(f'dataset of member {b} ({extra})', np.array(cells(d.raw_data)), np.array(rows(b), dtype=object if K.symbolic else float))
            known = set(d.schemas['raw_data'].extra_columns)
            K.same('further columns are described' if extra else 'no further columns are described',
                   {n for n in names if n not in ('time', 'terminal_voltage', 'current')} <= known if extra else known, True if extra else set())
    histories(K, sim, trace, len(w.us), ' after exporting')
    df.loc[:, names] = 0.
    histories(K, sim, trace, len(w.us), ' after overwriting the table')


def do_ecm(K, cfg):
    """the equivalent circuit: a batch is simulated as its members are, by the steps of the model"""
    B = cfg['B']
    cell = ecmlib.Cell(K, nrc=cfg['nrc'], c0=cfg['nrc'] != 1, batch=('soc', 'r0', 'qt', 'hyst'), B=B, tdf='zero')
    model = EquivalentCircuitModel()
    dts = [K.real(f'dt{i}', pos=True) for i in range(cfg['steps'])]
    cur = [K.real(f'i{i}') for i in range(cfg['steps'] + 1)]
    t, us = K.const(0), []
    for i in range(cfg['steps'] + 1):
        us.append(ecmlib.inputs(K, f'u{i}', t, cur[i], K.const(25.)))
        t = t + dts[i] if i < cfg['steps'] else t
    sim = Simulator(model, cell.asoh(), cell.state(), us[0], keep_history=True)
    sim.evolve(us[1:])
    rc = ['i_rc'] if cfg['nrc'] == 1 else [f'i_rc[{i}]' for i in range(cfg['nrc'])]
    names = ['time', 'current', 'temperature', 'soc'] + ['q0'] * (cfg['nrc'] != 1) + rc + ['hyst', 'terminal_voltage']
    df = sim.to_dataframe()
    K.same('columns', [c.replace('[0]', '') if cfg['nrc'] == 1 else c for c in df.columns], ['batch'] + names)
    new = ['test_time'] + names[1:-1] + ['voltage']
    for b, d in enumerate(sim.to_batdata()):
        K.same('columns of the dataset', [c.replace('[0]', '') if cfg['nrc'] == 1 else c for c in d.raw_data.columns], new)
        K.eq(f'table of member {b}', np.array(cells(df[df['batch'] == b].iloc[:, 1:])), recorded(K, sim, b), rtol=0, atol=0)
        K.eq(f'dataset of member {b}', np.array(cells(d.raw_data)), recorded(K, sim, b), rtol=0, atol=0)
    for b in range(B):
        c = cell.member(b)
        a, x = c.asoh(), c.state()
        for k, u in enumerate(us):
            if k:
                x = model.update_transient_state(us[k - 1], u, x, a)
            y = model.calculate_terminal_voltage(u, x, a)
            K.eq(f'state of member {b} after {k}', sim.transient_history[k].to_numpy()[b], x.to_numpy()[0])
            K.eq(f'voltage of member {b} after {k}', sim.measurement_history[k].to_numpy()[b], y.to_numpy()[0])
