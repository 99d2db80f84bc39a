"""Names line up with columns: the k-th expanded name designates the k-th column, for containers, for any selection of
health parameters or whole collections of them, and for the state, output and control vectors of the estimators"""
import random
from typing import Optional
import numpy as np
from .trees import random_tree, columns, lookup, names_of
from .ecmlib import Cell
from .frame import Picture
from moirae.estimators.online import OnlineEstimator
from moirae.models.base import GeneralContainer, ScalarParameter, ListParameter, HealthVariable
from moirae.models.ecm import EquivalentCircuitModel, ECMInput, ECMMeasurement
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper

LEVEL = 'other'
RUNS = 3


class Box(GeneralContainer):
    a: ScalarParameter = 0.
    b: Optional[ScalarParameter] = None
    c: ListParameter = ()
    d: Optional[ListParameter] = None
    e: ScalarParameter = 1.


def configs(tier):
    out = []
    for k in range(12 if tier == 'quick' else 60):
        for kind in ('leaf', 'wide', 'node', 'top'):
            out.append(dict(what='health', kind=kind, seed=k, B=1 + k % 3))
    for k in range(3):
        out.append(dict(what='health', kind='long', seed=k, B=1 + k % 2))
        out.append(dict(what='box', b=k & 1, d=[12, 0, 11][k], c=[11, 13, 1][k], B=1 + k % 2))
    for k in range(16):
        out.append(dict(what='box', b=k & 1, d=[0, 1, 3][k % 3], c=[1, 2, 4][k // 4 % 3], B=1 + k % 3))
    for est in ('joint', 'dual'):
        for nrc in (0, 1, 2, 3):
            for norm in (False, True):
                out.append(dict(what='estimator', est=est, nrc=nrc, norm=norm, c0=nrc % 2 == 1, temp=nrc % 2 == 0))
        for seed in range(6):
            out.append(dict(what='wrapper', est=est, nrc=seed % 4, norm=False, c0=seed % 2 == 0, temp=seed % 3 == 0, seed=seed))
    for nrc in (0, 1, 2, 3):
        for seed in range(3):
            out.append(dict(what='base', nrc=nrc, c0=nrc % 2 == 0, temp=seed % 2 == 0, seed=seed))
    return out


def contract(K, cfg):
    if cfg['what'] == 'health':
        spec, rng = random_tree(K, cfg['seed'], cfg['kind'], cfg['B'])
        hv, flat = spec.build(), spec.flat()
        B = max(v.shape[0] for _, v, _ in flat)
        vals = {n: v for n, v, _ in flat}
        # leaves in any order
        names = [n for n in vals if rng.random() < 0.7]
        rng.shuffle(names)
        K.same('expanded names', list(hv.expand_names(names)), names_of([(n, vals[n]) for n in names]))
        if names:
            cols = hv.get_parameters(names)
            for k, n in enumerate(hv.expand_names(names)):
                K.eq(f'column of {n}', cols[:, k:k + 1], columns([lookup(hv, n)], B))
        K.same('all names expanded', list(hv.expand_names(hv.all_names)), names_of(flat))
        # whole collections
        groups = spec.groups()
        for g, below in groups.items():
            K.same(f'collection {g}', list(hv.expand_names([g])), names_of([(n, vals[n]) for n in below]))
        if groups:
            mix = rng.sample(sorted(groups), min(3, len(groups)))
            K.same('several collections', list(hv.expand_names(mix)), names_of([(n, vals[n]) for g in mix for n in groups[g]]))
    elif cfg['what'] == 'box':
        B = cfg['B']
        val = dict(a=K.arr('a', (B, 1)), c=K.arr('c', (1, cfg['c'])), e=K.arr('e', (1, 1)))
        if cfg['b']:
            val['b'] = K.arr('b', (1, 1))
        if cfg['d']:
            val['d'] = K.arr('d', (B, cfg['d']))
        box = Box(**{k: v.copy() for k, v in val.items()})
        order = [k for k in 'abcde' if k in val]
        K.same('names', list(box.all_names), names_of([(k, val[k]) for k in order]))
        K.same('field names', list(box.all_fields), list('abcde'))
        K.same('length', len(box), len(box.all_names))
        arr = box.to_numpy()
        for k, n in enumerate(box.all_names):
            K.eq(f'column of {n}', arr[:, k:k + 1], columns([lookup(box, n)], B))
        sub = [k for k in 'ecbda' if getattr(box, k) is not None]
        K.same('selected fields', list(box.expand_names(sub)), names_of([(k, val[k]) for k in sub]))
    elif cfg['what'] == 'base':
        base(K, cfg)
    else:     # estimators with default or given selections
        estimator(K, cfg)


def cell_parts(K, cfg):
    nrc = cfg['nrc']
    cell = Cell(K, nrc=nrc, c0=cfg['c0'], widths=dict(r0=3, ocv=3, r=2), tdf='zero')
    asoh, trans = cell.asoh(), cell.state()
    for n in ['r0.base_values', 'ce', 'q_t.base_values'] + [f'rc_elements.{i}.{"rc"[i % 2]}.base_values' for i in range(nrc)]:
        asoh.mark_updatable(n)
    one = K.arr('u', (2, 1))
    inp = ECMInput(time=one[:1], current=one[1:], temperature=K.arr('T', (1, 1)) if cfg['temp'] else None)
    return asoh, trans, inp


def base(K, cfg):
    """what every estimator inherits: names by which part of the health is estimated, and parts of its own"""
    asoh, trans, inp = cell_parts(K, cfg)
    names = list(asoh.updatable_names)
    some = random.Random(cfg['seed']).sample(names, random.Random(cfg['seed'] + 1).randrange(1, len(names) + 1))
    pic = Picture(K, asoh=asoh, trans=trans, inp=inp)
    for label, given, want in (('by default', {}, names), ('all', dict(updatable_asoh=True), names), ('none', dict(updatable_asoh=False), []),
                               ('some', dict(updatable_asoh=some), some), ('as a tuple', dict(updatable_asoh=tuple(some)), some),
                               ('empty', dict(updatable_asoh=[]), [])):
        est = OnlineEstimator(EquivalentCircuitModel(), asoh, trans, inp, **given)
        K.same(f'state names {label}', list(est.state_names), list(trans.all_names) + list(asoh.expand_names(want)))
        K.same(f'number of states {label}', est.num_state_dimensions, len(trans) + asoh.get_parameters(want).shape[1] if want else len(trans))
        K.same(f'control names {label}', list(est.control_names), ['time', 'current'] + ['temperature'] * cfg['temp'])
        K.same(f'output names {label}', list(est.output_names), ['terminal_voltage'])
        K.same(f'number of outputs {label}', est.num_output_dimensions, 1)
        K.same(f'own parts {label}', (est.asoh is asoh, est.transients is trans), (False, False))
        # changing what it holds does not reach what it was given
        est.asoh.update_parameters(est.asoh.get_parameters(names) + 1, names)
        est.transients.from_numpy(est.transients.to_numpy() + 1)
        pic.check(f'own parts {label}')
    # one cell at a time
    wide = asoh.make_copy(np.concatenate([asoh.get_parameters(names)] * 2), names)
    K.raises('a batch of health', lambda: OnlineEstimator(EquivalentCircuitModel(), wide, trans, inp), AssertionError)
    double = trans.make_copy(np.concatenate([trans.to_numpy()] * 2))
    K.raises('a batch of states', lambda: OnlineEstimator(EquivalentCircuitModel(), asoh, double, inp), AssertionError)


def estimator(K, cfg):
    asoh, trans, inp = cell_parts(K, cfg)
    for x in asoh.get_parameters()[0]:
        K.assume(x != 0)
    names = list(asoh.updatable_names)
    kw = {}
    if cfg['what'] == 'wrapper':     # a selection in an order of its own
        rng = random.Random(cfg['seed'])
        names = rng.sample(names, rng.randrange(1, len(names) + 1))
        kw = dict(asoh_inputs=tuple(names))
    nt, na = len(trans), asoh.get_parameters(names).shape[1]
    cov = dict(covariance_transient=np.diag(np.arange(1., nt + 1)), covariance_asoh=np.diag(np.arange(1., na + 1) * .01))
    args = (EquivalentCircuitModel(), asoh, trans, inp)
    if not kw:
        est = (JointEstimator if cfg['est'] == 'joint' else DualEstimator).initialize_unscented_kalman_filter(
            *args, normalize_asoh=cfg['norm'], **cov)
    elif cfg['est'] == 'joint':
        est = JointEstimator.initialize_ukf_from_wrapper(JointCellModelWrapper(*args, **kw), **cov)
    else:
        est = DualEstimator.initialize_ukf_from_wrappers(CellModelWrapper(*args), DegradationModelWrapper(*args, **kw), **cov)
    want = list(trans.all_names) + list(asoh.expand_names(names))
    K.same('state names', list(est.state_names), want)
    K.same('number of states', est.num_state_dimensions, nt + na)
    K.same('control names', list(est.control_names), ['time', 'current'] + ['temperature'] * cfg['temp'])
    K.same('output names', list(est.output_names), ['terminal_voltage'])
    K.same('number of outputs', est.num_output_dimensions, 1)
    mean, cov = est.state.get_mean(), est.state.get_covariance()
    tr, ah = est.get_estimated_state()
    K.same('length of the state', np.shape(mean), (nt + na,))
    for k, n in enumerate(est.state_names):
        src = trans if k < nt else asoh
        K.eq(f'state {n}', mean[k], lookup(src, n)[0, 0])
        K.eq(f'estimated {n}', lookup(tr if k < nt else ah, n)[0, 0], mean[k])
        K.eq(f'variance of {n}', cov[k, k], np.concatenate([np.arange(1., nt + 1), np.arange(1., na + 1) * .01])[k])
