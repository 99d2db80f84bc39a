"""Health-parameter sets of arbitrary shape: a specification tree, the object built from it, and the flat list of
(name, array, updatable on the whole path) it stands for - computed here, independently of the code under test"""
import random
from typing import Dict, List, Optional, Tuple

import numpy as np
from moirae.models.base import HealthVariable, GeneralContainer, ScalarParameter, ListParameter


class Leaf(HealthVariable):
    a: ScalarParameter
    b: ListParameter


class Wide(HealthVariable):
    p: ListParameter
    q: ScalarParameter
    r: ListParameter


class Node(HealthVariable):
    x: ScalarParameter
    leaf: Leaf
    kids: Tuple[Leaf, ...]
    table: Dict[str, Wide]
    y: ListParameter


class Top(HealthVariable):
    z: ListParameter
    nodes: Tuple[Node, ...]
    w: ScalarParameter
    wide: Wide
    byname: Dict[str, Node]


SCALAR = {'a', 'q', 'x', 'w'}


class Spec:
    """fields: ordered list of (key, array | Spec | [Spec] | {str: Spec}); upd: set of updatable keys"""

    def __init__(self, cls, fields, upd):
        self.cls, self.fields, self.upd = cls, fields, upd

    def build(self):
        kw = {}
        for k, v in self.fields:
            if isinstance(v, Spec):
                kw[k] = v.build()
            elif isinstance(v, list):
                kw[k] = tuple(x.build() for x in v)
            elif isinstance(v, dict):
                kw[k] = {n: x.build() for n, x in v.items()}
            else:
                kw[k] = v.copy()
        return self.cls(updatable=set(self.upd), **kw)

    def flat(self, prefix='', ok=True):
        """[(name, array, updatable all along the path, [(spec, key)...])] in field order"""
        out = []
        for k, v in self.fields:
            o = ok and k in self.upd
            if isinstance(v, Spec):
                out += v.flat(f'{prefix}{k}.', o)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    out += x.flat(f'{prefix}{k}.{i}.', o)
            elif isinstance(v, dict):
                for n, x in v.items():
                    out += x.flat(f'{prefix}{k}.{n}.', o)
            else:
                out.append((prefix + k, v, o))
        return out

    def specs(self):
        yield self
        for _k, v in self.fields:
            for x in (v,) if isinstance(v, Spec) else v if isinstance(v, list) else v.values() if isinstance(v, dict) else ():
                yield from x.specs()

    def groups(self, prefix=''):
        """names of whole sub-collections -> flat names below them"""
        out = {}
        for k, v in self.fields:
            if isinstance(v, Spec):
                out[f'{prefix}{k}'] = [n for n, _, _ in v.flat(f'{prefix}{k}.')]
                out.update(v.groups(f'{prefix}{k}.'))
            elif isinstance(v, (list, dict)):
                items = list(enumerate(v)) if isinstance(v, list) else list(v.items())
                out[f'{prefix}{k}'] = [n for i, x in items for n, _, _ in x.flat(f'{prefix}{k}.{i}.')]
                for i, x in items:
                    out[f'{prefix}{k}.{i}'] = [n for n, _, _ in x.flat(f'{prefix}{k}.{i}.')]
                    out.update(x.groups(f'{prefix}{k}.{i}.'))
        return out


def random_tree(K, seed, kind, B=1, pb=0.5, pu=0.8):
    """A tree of symbolic values; its shape, batch flags and updatable marks are drawn from `seed`"""
    rng = random.Random(f'tree/{seed}')
    count = [0]

    def val(width):
        count[0] += 1
        n = B if rng.random() < pb else 1
        return K.arr(f'v{count[0]}', (n, width), box=(-5, 5), special=(0., 1.))

    def up(cls):
        return {k for k in cls.model_fields if k != 'updatable' and rng.random() < pu}

    def leaf():
        return Spec(Leaf, [('a', val(1)), ('b', val(rng.randint(1, 3)))], up(Leaf))

    def wide():
        return Spec(Wide, [('p', val(rng.randint(1, 3))), ('q', val(1)), ('r', val(rng.randint(1, 4)))], up(Wide))

    def node():
        return Spec(Node, [('x', val(1)), ('leaf', leaf()), ('kids', [leaf() for _ in range(rng.randint(0, 3))]),
                           ('table', {k: wide() for k in ('one', 'two', 'x')[:rng.randint(0, 3)]}), ('y', val(rng.randint(1, 3)))],
                    up(Node))

    def top():
        return Spec(Top, [('z', val(2)), ('nodes', [node() for _ in range(rng.randint(1, 2))]), ('w', val(1)), ('wide', wide()),
                          ('byname', {k: node() for k in ('n', 'm')[:rng.randint(0, 2)]})], up(Top))

    def long():     # more than ten of everything that is counted
        keys = [f'k{i}' for i in range(11)]
        rng.shuffle(keys)
        small = Spec(Leaf, [('a', val(1)), ('b', val(11))], up(Leaf))
        return Spec(Node, [('x', val(1)), ('leaf', small), ('kids', [Spec(Leaf, [('a', val(1)), ('b', val(1 + i % 3))], up(Leaf)) for i in range(12)]),
                           ('table', {k: Spec(Wide, [('p', val(1)), ('q', val(1)), ('r', val(1 + (i == 4)))], up(Wide)) for i, k in enumerate(keys)}),
                           ('y', val(12))], up(Node))
    return {'leaf': leaf, 'wide': wide, 'node': node, 'top': top, 'long': long}[kind](), rng


def lookup(obj, name):
    """value designated by a (possibly indexed) dotted name"""
    idx = None
    if name.endswith(']'):
        name, idx = name[:-1].split('[')
    for part in name.split('.'):
        obj = obj[int(part)] if isinstance(obj, (tuple, list)) else obj[part] if isinstance(obj, dict) else getattr(obj, part)
    return obj if idx is None else obj[:, int(idx):int(idx) + 1]


def names_of(flat):
    out = []
    for n, v, *_ in flat:
        out += [n] if v.shape[1] == 1 else [f'{n}[{i}]' for i in range(v.shape[1])]
    return out


def columns(vals, B):
    """concatenation of the values with the batch dimension broadcast"""
    out = [np.repeat(v, B, axis=0) if v.shape[0] == 1 and B > 1 else v for v in vals]
    return np.concatenate(out, axis=1)
