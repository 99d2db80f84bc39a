"""Estimates written step by step and read back: per step, everything that was asked for of every estimate, in order; per cycle,
that of the first estimate of each cycle.  For all estimates and times; the sequences of cycles, the sizes expected and the chunks
of the file are enumerated.  h5py is under contract in the proofs and real when evaluated"""
import contextlib
import itertools
import json
import os
import shutil
import tempfile
from typing import Dict, Tuple
import numpy as np
import h5py
from pydantic import Field
from . import h5lib
from .c19 import AnyEstimator, Notes
from .frame import Picture, poke
from .ukflib import sym
from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian

LEVEL = 'other'
RUNS = 2
EXACT = dict(rtol=0., atol=0.)
MODES = ('full', 'mean_cov', 'mean_var', 'mean', 'none')


def configs(tier):
    out = []
    for step, cycle in itertools.product(MODES, MODES):
        out.append(dict(what='kept', step=step, cycle=cycle, cycles=(0, 0, 1, 1, 1, 2), steps=None, ncyc=None, chunk=2, ns=2, m=1, to='path', kind='gauss'))
    for n, (steps, ncyc, chunk, resizable) in enumerate(itertools.product((None, 1, 3, 5, 9), (None, 1, 4), (1, 3, 128), (True, False))):
        for cycles in ((0, 0, 0, 0, 0), (0, 1, 2, 3, 4)[:5], (2, 2, 3, 7), (0, 1, 0, 1), (3, 1, 1, 0)):
            if resizable or steps is not None and ncyc is not None and steps >= len(cycles) and ncyc > max(cycles):
                out.append(dict(what='kept', step=MODES[n % 4], cycle=MODES[(n + 1) % 4], cycles=cycles, steps=steps, ncyc=ncyc, chunk=chunk,
                                ns=1 + n % 2, m=1 + n % 3, to=('path', 'group', 'string')[n % 3], kind='gauss', resizable=resizable))
    for n, cycles in enumerate(itertools.product(range(3), repeat=4)):
        out.append(dict(what='kept', step='mean', cycle=('mean_var', 'mean')[n % 2], cycles=cycles, steps=3, ncyc=1 + n % 3, chunk=1 + n % 2, ns=1, m=1, to='group',
                        kind='delta'))
    for step in ('mean', 'mean_var', 'mean_cov'):
        out.append(dict(what='kept', step=step, cycle='mean', cycles=(0, 1, 1), steps=3, ncyc=2, chunk=128, ns=2, m=2, to='path', kind='delta'))
    for storage in ('plain', 'gzip', 'default'):
        out.append(dict(what='kept', step='full', cycle='mean_cov', cycles=(0, 1, 1, 4), steps=2, ncyc=2, chunk=2, ns=2, m=2, to='path', kind='gauss', storage=storage))
    out += [dict(what='refused', resizable=r, to=t) for r in (True, False) for t in ('path', 'group')]
    out += [dict(what='again', first=a, second=b) for a in MODES[:4] for b in MODES if a != b]
    out += [dict(what='full', resizable=False, where=w) for w in ('step', 'cycle')]
    out += [dict(what='misfit', step=a, cycle=b, resizable=r) for a, b in (('mean', 'mean'), ('mean_cov', 'none'), ('none', 'mean_var'), ('full', 'mean_cov'))
            for r in (True, False)]
    out += [dict(what='origin', cell=c, seen=seen, _concrete=True) for c in ('ecm', 'points', 'parts') for seen in (False, True)]
    out += [dict(what='neighbours'), dict(what='reuse'), dict(what='about'), dict(what='interrupted')]
    out += [dict(what='long', n=n, _concrete=True) for n in (127, 129, 400)]
    return out


def contract(K, cfg):
    d = tempfile.mkdtemp(prefix='c20.')
    try:
        with contextlib.ExitStack() as stack:
            lib = h5py
            if K.symbolic:
                lib = h5lib.module(cfg.get('chunk', 2))
                stack.enter_context(K.contracts(interface__hdf5__h5py=lib))
            globals()['do_' + cfg['what']](K, cfg, lib, os.path.join(d, 'file.h5'))
    finally:
        shutil.rmtree(d)


def draw(K, n, ns, m, kind):
    out = []
    for k in range(n):
        mk = lambda t, d: (DeltaDistribution(mean=K.arr(f'{t}{k}', (d,))) if kind == 'delta' else     # noqa: E731
                           MultivariateGaussian(mean=K.arr(f'{t}{k}', (d,)), covariance=sym(K, f'{t}c{k}', d)))
        out.append((K.real(f't{k}'), mk('s', ns), mk('o', m)))
    return out


@contextlib.contextmanager
def target(lib, to, path):
    """where to write, and how to read"""
    if to == 'group':
        with lib.File(path, 'w') as f:
            yield f.create_group('sub')
    elif to == 'path':
        from pathlib import Path
        yield Path(path)
    else:
        yield path


def read(lib, to, path, key='state_estimates', **kw):
    if to == 'group' or key != 'state_estimates':
        with lib.File(path) as f:
            return list(read_state_estimates(f[('sub/' if to == 'group' else '') + key], **kw))
    return list(read_state_estimates(path, **kw))


def still_open(lib):
    """number of files that are open"""
    if lib is h5py:
        return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    return lib.still_open()


def expect(K, name, got, want, mode):
    K.same(f'{name}: number of estimates', len(got), len(want))
    for k, ((t, s, o), (wt, ws, wo)) in enumerate(zip(got, want)):
        K.eq(f'{name}: time {k}', t, wt, **EXACT)
        for n, a, b in (('state', s, ws), ('output', o, wo)):
            K.eq(f'{name}: mean of {n} {k}', a.get_mean(), b.get_mean(), **EXACT)
            cov = b.get_covariance()
            if mode == 'mean_var':
                cov = np.array([[cov[i, j] if i == j else K.const(0) for j in range(len(cov))] for i in range(len(cov))])
            if mode == 'mean':
                cov = np.zeros(cov.shape)
            K.eq(f'{name}: covariance of {n} {k}', a.get_covariance(), cov, **EXACT)


def firsts(cycles):
    return [cycles.index(c) for c in sorted(set(cycles))]


def do_kept(K, cfg, lib, path):
    cycles = tuple(cfg['cycles'])
    est = draw(K, len(cycles), cfg['ns'], cfg['m'], cfg['kind'])
    start = AnyEstimator([draw(K, 1, cfg['ns'], cfg['m'], cfg['kind'])[0][1:]], cfg['ns'], cfg['m'])
    kw = dict(per_timestep=cfg['step'], per_cycle=cfg['cycle'], resizable=cfg.get('resizable', True))
    if cfg.get('storage', 'default') != 'default':
        kw['dataset_options'] = {} if cfg['storage'] == 'plain' else dict(compression='gzip')
    with target(lib, cfg['to'], path) as to:
        w = HDF5Writer(hdf5_output=to, **kw)
        K.same('closed before', w.is_ready, False)
        with w:
            K.same('open', w.is_ready, True)
            w.prepare(start, cfg['steps'], cfg['ncyc'])
            for i, (c, (t, s, o)) in enumerate(zip(cycles, est)):
                pic = Picture(K, s=s, o=o)
                w.append_step(t, c, s, o)
                pic.check('writing')
                est[i] = t, s.model_copy(deep=True), o.model_copy(deep=True)
                poke(s, o)
        K.same('closed after', w.is_ready, False)
        K.same('a group is left open' if cfg['to'] == 'group' else 'nothing', bool(to), True)
    for mode, tag, want in ((cfg['step'], True, est), (cfg['cycle'], False, [est[i] for i in firsts(cycles)])):
        if mode == 'none':
            K.raises(f'nothing to read ({tag})', lambda: read(lib, cfg['to'], path, per_timestep=tag))
            continue
        dist = DeltaDistribution if cfg['kind'] == 'delta' else MultivariateGaussian
        got = read(lib, cfg['to'], path, per_timestep=tag, **(dict(dist_type=dist) if mode == 'full' else {}))
        expect(K, 'steps' if tag else 'cycles', got, want, mode)


def do_refused(K, cfg, lib, path):
    est = draw(K, 2, 2, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 2, 1)
    with target(lib, cfg['to'], path) as to:
        w = HDF5Writer(hdf5_output=to, resizable=cfg['resizable'], per_timestep='full')
        K.raises('prepare before opening', lambda: w.prepare(start, 4, 4))
        K.raises('append before opening', lambda: w.append_step(est[0][0], 0, *est[0][1:]))
        with w:
            if not cfg['resizable']:
                K.raises('sizes unknown', lambda: w.prepare(start))
                K.raises('cycles unknown', lambda: w.prepare(start, 4))
                K.raises('steps unknown', lambda: w.prepare(start, expected_cycles=4))
            w.prepare(start, 4, 4)
            w.append_step(est[0][0], 0, *est[0][1:])
            K.raises('prepared twice', lambda: w.prepare(start, 4, 4))
        K.raises('prepare after closing', lambda: w.prepare(start, 4, 4))
        K.raises('append after closing', lambda: w.append_step(est[1][0], 0, *est[1][1:]))
        other = HDF5Writer(hdf5_output=to, resizable=cfg['resizable'])
        with other:
            K.raises('written before', lambda: other.prepare(start, 4, 4))
    K.raises('other distribution', lambda: read(lib, cfg['to'], path, dist_type=DeltaDistribution))
    K.raises('other distribution per cycle', lambda: read(lib, cfg['to'], path, per_timestep=False, dist_type=DeltaDistribution))
    for tag in (True, False):
        expect(K, f'what was written ({tag})', read(lib, cfg['to'], path, per_timestep=tag), est[:1], 'full')


def do_again(K, cfg, lib, path):
    """a file that holds estimates is left as it is, whatever is to be written next"""
    est = draw(K, 2, 2, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 2, 1)
    with HDF5Writer(hdf5_output=path, per_timestep=cfg['first'], per_cycle='mean') as w:
        w.prepare(start)
        for c, (t, s, o) in enumerate(est):
            w.append_step(t, c, s, o)
    with HDF5Writer(hdf5_output=path, per_timestep=cfg['second'], per_cycle='mean_cov') as w:
        K.raises('written before', lambda: w.prepare(start))
    expect(K, 'steps', read(lib, 'path', path), est, cfg['first'])
    expect(K, 'cycles', read(lib, 'path', path, per_timestep=False), est, 'mean')


def do_full(K, cfg, lib, path):
    """a file of fixed size refuses what it has no room for, and keeps the rest"""
    est = draw(K, 4, 2, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 2, 1)
    cycles = (0, 1, 1, 1) if cfg['where'] == 'step' else (0, 1, 2, 2)
    with HDF5Writer(hdf5_output=path, resizable=False, per_timestep='mean_cov', per_cycle='mean_cov') as w:
        w.prepare(start, 3 if cfg['where'] == 'step' else 4, 2)
        n = 3 if cfg['where'] == 'step' else 2
        for c, (t, s, o) in zip(cycles[:n], est):
            w.append_step(t, c, s, o)
        K.raises('no room', lambda: w.append_step(est[n][0], cycles[n], *est[n][1:]), Exception)
        if cfg['where'] == 'cycle':     # what fits takes the next place
            w.append_step(est[3][0], 1, *est[3][1:])
            del est[2]
    got = read(lib, 'path', path)
    expect(K, 'steps', got, est[:3], 'mean_cov')
    expect(K, 'cycles', read(lib, 'path', path, per_timestep=False), est[:2], 'mean_cov')


def do_misfit(K, cfg, lib, path):
    """estimates of other sizes are refused, and the record goes on without them"""
    est, start = draw(K, 3, 2, 2, 'gauss'), None
    start = AnyEstimator([est[0][1:]], 2, 2)
    with HDF5Writer(hdf5_output=path, resizable=cfg['resizable'], per_timestep=cfg['step'], per_cycle=cfg['cycle']) as w:
        w.prepare(start, 3, 3)
        for c, (t, s, o) in enumerate(est):
            if c:
                for name, (ns, m) in dict(fewer=(1, 2), more=(3, 2), single=(2, 1), outputs=(2, 3)).items():
                    (_, s2, o2), = draw(K, 1, ns, m, 'gauss')
                    K.raises(f'{name} {c}', lambda: w.append_step(t, c, s2, o2), Exception)
            w.append_step(t, c, s, o)
    if cfg['step'] != 'none':
        expect(K, 'steps', read(lib, 'path', path), est, cfg['step'])
    if cfg['cycle'] != 'none':
        expect(K, 'cycles', read(lib, 'path', path, per_timestep=False), est, cfg['cycle'])


KEYS = (('state_estimates', 'mean_cov'), ('b', 'mean'), ('c', 'full'), ('runs/first', 'mean_cov'), ('runs/b', 'mean_var'))


def do_neighbours(K, cfg, lib, path):
    """several records in one file"""
    est = draw(K, 2 * len(KEYS), 2, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 2, 1)
    with lib.File(path, 'w') as f:
        ws = [HDF5Writer(hdf5_output=f, storage_key=k, per_timestep=m, per_cycle='none') for k, m in KEYS]
        with ws[0], ws[1], ws[2], ws[3], ws[4]:
            for w in ws:
                w.prepare(start)
            for i in range(2):
                for j, w in enumerate(ws):
                    t, s, o = est[2 * j + i]
                    w.append_step(t, 0, s, o)
    for j, (k, m) in enumerate(KEYS):
        expect(K, k, read(lib, 'path', path, key=k), est[2 * j:2 * j + 2], m)


def do_reuse(K, cfg, lib, path):
    """one writer for several files"""
    est = draw(K, 5, 1, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 1, 1)
    w = HDF5Writer(hdf5_output=path, per_timestep='mean_cov', per_cycle='mean_var', resizable=False)
    for part, p in ((est[:3], path), (est[3:], path + '2')):
        w.hdf5_output = p
        with w:
            w.prepare(start, len(part), 2)
            for i, (t, s, o) in enumerate(part):
                w.append_step(t, i // 2, s, o)
        expect(K, f'steps of {len(part)}', read(lib, 'path', p), part, 'mean_cov')
        expect(K, f'cycles of {len(part)}', read(lib, 'path', p, per_timestep=False), part[::2], 'mean_var')
    expect(K, 'steps of the first', read(lib, 'path', path), est[:3], 'mean_cov')


def do_interrupted(K, cfg, lib, path):
    """an error while writing closes the file, which holds what was written"""
    est = draw(K, 3, 1, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 1, 1)
    w, before = HDF5Writer(hdf5_output=path, per_timestep='mean_cov'), still_open(lib)

    def run():
        with w:
            w.prepare(start)
            for i, (t, s, o) in enumerate(est):
                if i == 2:
                    raise KeyError('interrupted')
                w.append_step(t, 0, s, o)
    K.raises('the error is passed on', run, KeyError)
    K.same('closed', w.is_ready, False)
    K.same('no file is left open by writing', still_open(lib), before)
    expect(K, 'steps', read(lib, 'path', path), est[:2], 'mean_cov')
    # reading may be given up
    it = read_state_estimates(path)
    next(it)
    it.close()
    expect(K, 'steps again', read(lib, 'path', path), est[:2], 'mean_cov')
    K.same('no file is left open by reading', still_open(lib), before)


class Leaf(HealthVariable):
    pass


class Bud(Leaf):
    b: ScalarParameter = 1.
    c: ListParameter = Field(default=(1., 1.))


class Tree(HealthVariable):
    """parameters of kinds which the type of the field does not tell"""
    a: ScalarParameter = 1.
    one: Leaf = Field(default_factory=Bud)
    many: Tuple[Leaf, ...] = ()
    named: Dict[str, Leaf] = Field(default_factory=dict)


def do_origin(K, cfg, lib, path):
    """the health parameters and the state from which the estimation started are with the file"""
    a, b, c = K.arr('a', (2, 1), pos=True), K.arr('b', (1, 3), pos=True), K.arr('c', (4,), pos=True)
    if cfg['cell'] == 'parts':
        asoh = Tree(a=a, one=Bud(b=a[0], c=b), many=(Bud(b=a[1]), Bud(c=c)), named={'x': Bud(b=b[0, 0]), 'y': Bud(c=b)})
    else:
        asoh = ECMASOH.provide_template(has_C0=True, num_RC=2, OCV=c, R0=b, RC=[(b, c), (c, b)])
        if cfg['cell'] == 'points':
            asoh.r0.soc_pinpoints, asoh.ocv.ocv_ref.soc_pinpoints = np.array([0., .25, 1.]), np.array([.125, .5, .75, 1.])
            asoh.ocv.ocv_ref.interpolation_style = 'nearest'
    asoh.mark_updatable('a' if cfg['cell'] == 'parts' else 'r0.base_values')
    est = draw(K, 1, 1, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 1, 1)
    start.asoh, start.transients = asoh, ECMTransientVector(soc=a, i_rc=b, hyst=a[:1], q0=None)
    if cfg['seen'] and cfg['cell'] != 'parts':
        asoh.ocv(.5), asoh.r0.get_value(.5)
    with HDF5Writer(hdf5_output=path) as w:
        w.prepare(start)
    with lib.File(path) as f:
        at = dict(f['state_estimates'].attrs)
    told = json.loads(at['initial_asoh'])
    for name, value in asoh.iter_parameters(updatable_only=False):
        v = told
        for part in name.split('.'):
            v = v[int(part) if isinstance(v, list) else part]
        K.eq(f'recorded {name}', np.array(v), value, **EXACT)
    K.same('recorded as updatable', told['updatable'], sorted(asoh.updatable))
    back = ECMTransientVector.model_validate_json(at['initial_transient_state'])
    K.eq('state', back.to_numpy(), start.transients.to_numpy(), **EXACT)
    if cfg['cell'] != 'parts':
        back = ECMASOH.model_validate_json(at['initial_asoh'])
        for (m, v), (name, value) in itertools.zip_longest(back.iter_parameters(updatable_only=False), asoh.iter_parameters(updatable_only=False)):
            K.same('name', m, name)
            K.eq(f'read back {name}', v, value, **EXACT)
        K.same('names of the updatable', back.updatable_names, asoh.updatable_names)
        x = np.linspace(.05, 1., 9)
        K.eq('evaluated', back.ocv(x), asoh.ocv(x), **EXACT)
        K.eq('evaluated resistance', back.r0.get_value(x), asoh.r0.get_value(x), **EXACT)


def do_about(K, cfg, lib, path):
    """what is said about the estimator"""
    est = draw(K, 1, 3, 2, 'gauss')
    start = AnyEstimator([est[0][1:]], 3, 2)
    with HDF5Writer(hdf5_output=path, per_timestep='mean_var') as w:
        w.prepare(start)
    with lib.File(path) as f:
        at = dict(f['state_estimates'].attrs)
    K.same('states', tuple(at['state_names']), start.state_names)
    K.same('outputs', tuple(at['output_names']), start.output_names)
    K.same('names', (at['estimator_name'], at['distribution_type'], at['cell_model']), ('AnyEstimator', 'MultivariateGaussian', 'EquivalentCircuitModel'))
    K.eq('health', Notes.model_validate_json(at['initial_asoh']).to_numpy(), start.asoh.to_numpy())
    K.same('nothing to read yet', [read(lib, 'path', path, per_timestep=t) for t in (True, False)], [[], []])


def do_long(K, cfg, lib, path):
    est = draw(K, cfg['n'], 1, 1, 'gauss')
    start = AnyEstimator([est[0][1:]], 1, 1)
    with HDF5Writer(hdf5_output=path, per_timestep='mean_cov', per_cycle='mean') as w:
        w.prepare(start)
        for i, (t, s, o) in enumerate(est):
            w.append_step(t, i // 3, s, o)
    expect(K, 'steps', read(lib, 'path', path), est, 'mean_cov')
    expect(K, 'cycles', read(lib, 'path', path, per_timestep=False), est[::3], 'mean')
