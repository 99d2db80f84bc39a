"""Reading and writing health parameters as a vector: what is read is what is stored, what is written is read back,
nothing else changes, parameters that are not updatable anywhere along their path are refused, and so is a vector of
the wrong length"""
import numpy as np
from .trees import random_tree, columns, lookup, Wide
from .ecmlib import Cell

LEVEL = 'other'
MISSING = (AttributeError, KeyError, IndexError, ValueError)
RUNS = 3


def configs(tier):
    out = []
    n = 1 if tier == 'quick' else 5
    seed = 0
    for kind in ('leaf', 'wide', 'node', 'top'):
        for B in (1, 2, 3):
            for pu in (1.0, 0.85, 0.5):
                for k in range((3 if kind != 'top' else 2) * n):
                    seed += 1
                    out.append(dict(kind=kind, B=B, pu=pu, pick=('all', 'some', 'perm')[k % 3], seed=seed))
    for B, pu, pick in ((1, 1., 'perm'), (2, 1., 'all'), (2, .85, 'some')):
        out.append(dict(kind='long', B=B, pu=pu, pick=pick, seed=B))
    for B in (1, 2):
        for nrc in (0, 1, 2, 3):
            out.append(dict(kind='ecm', B=B, nrc=nrc, pick='perm', seed=nrc))
            out.append(dict(kind='ecm', B=B, nrc=nrc, pick='all', seed=100 + nrc))
    return out


def ecm(K, cfg):
    import random
    rng = random.Random(f'ecm/{cfg["seed"]}')
    fields = ['qt', 'ocv', 'r0', 'ra', 'ca', 'gamma', 'tref', 'ent']
    cell = Cell(K, nrc=cfg['nrc'], c0=cfg['nrc'] % 2 == 0, B=cfg['B'], batch=[f for f in fields if rng.random() < .5],
                widths=dict(ocv=3, ent=1 + cfg['nrc'] % 2, r0=2, r=1 + cfg['nrc'], c=1, c0=2, h0=1))
    v = cell.v
    flat = [('q_t.base_values', v['qt']), ('ce', v['ce']), ('ocv.ocv_ref.base_values', v['ocv']),
            ('ocv.ocv_ref.reference_temperature', v['tref']), ('ocv.ocv_ent.base_values', v['ent']),
            ('r0.base_values', v['r0']), ('r0.temperature_dependence_factor', v['r0t'])]
    if cell.has_c0:
        flat.append(('c0.base_values', v['c0']))
    for i in range(cell.nrc):
        flat += [(f'rc_elements.{i}.r.base_values', v[f'ra{i}']),
                 (f'rc_elements.{i}.r.temperature_dependence_factor', v[f'rt{i}']),
                 (f'rc_elements.{i}.c.base_values', v[f'ca{i}'])]
    flat += [('h0.base_values', v['h0']), ('h0.gamma', v['gamma'])]
    asoh = cell.asoh()
    chosen = [n for n, _ in flat if rng.random() < (0.6 if cfg['pick'] == 'perm' else 1.)]
    for n in chosen:
        asoh.mark_updatable(n)
    # marking a parameter marks the collections on its way, hence exactly the chosen ones are updatable
    return asoh, [(n, x, n in chosen) for n, x in flat], rng


def contract(K, cfg):
    if cfg['kind'] == 'ecm':
        asoh, flat, rng = ecm(K, cfg)
    else:
        spec, rng = random_tree(K, cfg['seed'], cfg['kind'], cfg['B'], pu=cfg['pu'])
        asoh, flat = spec.build(), spec.flat()
    before = {n: v.copy() for n, v, _ in flat}
    B = max(v.shape[0] for _, v, _ in flat)
    K.same('all names', list(asoh.all_names), [n for n, _, _ in flat])
    upd = [(n, v) for n, v, o in flat if o]
    K.same('updatable names', list(asoh.updatable_names), [n for n, _ in upd])
    K.same('number of updatable values', asoh.num_updatable, sum(v.shape[1] for _, v in upd))
    K.same('batch size', asoh.batch_size, B)
    # reading: all updatable ones, all parameters
    K.eq('read updatable', asoh.get_parameters(), columns([v for _, v in upd], B) if upd else np.zeros((B, 0)))
    K.eq('read all', asoh.get_parameters([n for n, _, _ in flat]), columns([v for _, v, _ in flat], B))
    twice = [n for n, _, _ in flat[:3]] + [n for n, _, _ in flat[:2]]
    K.eq('read some twice', asoh.get_parameters(twice), columns([v for _, v, _ in flat[:3]] + [v for _, v, _ in flat[:2]], B))
    for n, v, _ in flat[:8]:
        K.eq(f'read {n} alone', asoh.get_parameters([n]), columns([v], B))
        # names of nothing: no such member, entry or attribute
        *way, last = n.split('.')
        wrong = [f'{n}_', '.'.join(way + ['no' + last])]
        for i, part in enumerate(way):
            if cfg['kind'] == 'ecm' and part == 'rc_elements' or part in ('nodes', 'kids'):
                wrong.append('.'.join(way[:i + 1] + ['97'] + way[i + 2:] + [last]))
            elif part in ('table', 'byname'):
                wrong.append('.'.join(way[:i + 1] + ['nowhere'] + way[i + 2:] + [last]))
        for w in wrong:
            K.raises(f'read {w}', lambda: asoh.get_parameters([w]), MISSING)
            K.raises(f'write {w}', lambda: asoh.make_copy(np.zeros((1, v.shape[1])), [w]), MISSING)
            K.raises(f'mark {w}', lambda: asoh.model_copy(deep=True).mark_updatable(w), MISSING) if w in wrong[2:] else None
    # writing
    names, sel = None, list(upd)
    if cfg['pick'] != 'all':
        sel = [u for u in upd if rng.random() < 0.6] or list(upd)
        if cfg['pick'] == 'perm':
            rng.shuffle(sel)
        names = [n for n, _ in sel]
    total = sum(v.shape[1] for _, v in sel)

    def expect(obj, label, new, Bn, done):
        pos = 0
        for n, v in sel:
            w = v.shape[1]
            K.eq(f'{label}: {n}', lookup(obj, n), new[:, pos:pos + w] if done else before[n])
            pos += w
        inside = {n for n, _ in sel}
        for n, _, _ in flat:
            if n not in inside:
                K.eq(f'{label}: {n} untouched', lookup(obj, n), before[n])
        K.same(f'{label}: updatable names', list(obj.updatable_names), [n for n, _ in upd])
    for Bn in sorted({1, B}):
        new = K.arr(f'new{Bn}', (Bn, total), box=(-5, 5))
        copy = asoh.make_copy(new.copy(), names)
        expect(copy, f'copy with {Bn} rows', new, Bn, True)
        expect(asoh, f'original of the copy with {Bn} rows', new, Bn, False)
        if total:
            again = copy.get_parameters(names)
            K.eq(f'read back {Bn}', again, np.repeat(new, copy.batch_size, axis=0) if Bn == 1 and copy.batch_size > 1 else new)
        if Bn == 1 and total:
            flatc = asoh.model_copy(deep=True)
            flatc.update_parameters(new[0].copy(), names)
            expect(flatc, 'one-dimensional vector', new, 1, True)
            lst = asoh.model_copy(deep=True)
            lst.update_parameters(list(new[0]), names)
            expect(lst, 'plain list', new, 1, True)
    # refusing
    if total:
        K.raises('too few values', lambda: asoh.make_copy(np.zeros((1, total - 1)), names))
        K.raises('too many values', lambda: asoh.make_copy(np.zeros((1, total + 1)), names))
        K.raises('far too many values', lambda: asoh.make_copy(np.zeros((2, 2 * total + 1)), names))
    for n, v, o in flat:
        if not o:
            K.raises(f'{n} is fixed', lambda: asoh.make_copy(np.zeros((1, v.shape[1])), [n]))
    expect(asoh, 'after refused updates', None, 1, False)
    given = new.copy()
    asoh.update_parameters(given, names)
    expect(asoh, 'updated in place', new, B, True)
    given[...] = K.const(7)
    expect(asoh, 'after the array given was overwritten', new, B, True)
    if upd:     # what has been read is accepted by the same names, whatever their number
        often = [n for n, _ in upd] + [n for n, _ in upd[:2]]
        again = asoh.model_copy(deep=True)
        again.update_parameters(again.get_parameters(often), often)
        every = [n for n, _, _ in flat]
        K.eq('written back what was read', again.get_parameters(every), asoh.get_parameters(every))
    # marks
    marked = asoh.model_copy(deep=True)
    if cfg['kind'] == 'ecm':        # evaluation fills in the places of the values, which are no parameters
        marked.ocv(soc=0.5, temp=20.)
        for part in [marked.r0, marked.h0] + [x for rc in marked.rc_elements for x in (rc.r, rc.c)] + ([marked.c0] if marked.c0 else []):
            part.get_value(0.5)
    marked.mark_all_updatable()
    K.same('everything updatable', list(marked.updatable_names), [n for n, _, _ in flat])
    marked.mark_all_fixed()
    K.same('nothing updatable', list(marked.updatable_names), [])
    marked.mark_all_updatable(recurse=False)
    K.same('only its own updatable', list(marked.updatable_names), [n for n, _, _ in flat if '.' not in n])
    marked.mark_all_updatable()
    marked.mark_all_fixed(recurse=False)
    K.same('on the way to all of them fixed', list(marked.updatable_names), [])
    for n, v, _ in flat[:8]:
        K.raises(f'{n} is fixed on its way', lambda: marked.make_copy(np.zeros((1, v.shape[1])), [n]))
    marked.mark_all_updatable(recurse=False)
    K.same('the way to the others is kept', list(marked.updatable_names), [n for n, _, _ in flat])
    marked.mark_all_fixed()
    pick = [n for n, _, _ in flat if rng.random() < .4]
    for n in rng.sample(pick, len(pick)):
        marked.mark_updatable(n)
    K.same('marked one by one', list(marked.updatable_names), [n for n, _, _ in flat if n in pick])
    # setting one value by name
    n, v, _ = flat[rng.randrange(len(flat))]
    for rows in sorted({1, B}):
        x = K.arr(f'single{rows}', (rows, v.shape[1]), box=(-5, 5))
        marked.set_value(n, x[0].copy() if rows == 1 else x.copy())
        K.eq(f'set value ({rows})', lookup(marked, n), x)
        if v.shape[1] == 1:     # one number per member
            marked.set_value(n, x[:, 0].copy())
            K.eq(f'set value, one-dimensional ({rows})', lookup(marked, n), x)
            marked.set_value(n, x[0, 0])
            K.eq(f'set number ({rows})', lookup(marked, n), x[:1])
    # whole numbers given at construction do not make the parameter one of whole numbers
    kept = Wide(p=[1, 2], q=3, r=[4, 5, 6])
    for way in ('value', 'vector'):
        for n, x in (('p', K.arr('wp' + way, (1, 2), box=(-5, 5))), ('q', K.arr('wq' + way, (1, 1), box=(-5, 5)))):
            whole = kept.model_copy(deep=True)
            if way == 'value':
                whole.set_value(n, x.copy())
            else:
                whole.mark_updatable(n)
                whole.update_parameters(x.copy())
            K.eq(f'whole numbers replaced, {way} of {n}', lookup(whole, n), x)
            K.eq(f'whole numbers replaced, rest after {way} of {n}', whole.get_parameters(['r']), [[4, 5, 6]])
    # nor those read along with them
    x, y = K.arr('wx', (1, 1), box=(-5, 5)), K.arr('wy', (2, 2), box=(-5, 5))
    K.eq('whole number first', Wide(p=[1, 2], q=x.copy(), r=[4]).get_parameters(['p', 'q', 'r']), [[1, 2, x[0, 0], 4]])
    K.eq('whole number last', Wide(p=y.copy(), q=3, r=[4]).get_parameters(['r', 'p', 'q']), np.concatenate([[[4], [4]], y, [[3], [3]]], axis=1))
