"""Frame conditions: a picture of every value held by some objects, compared later"""
import numpy as np
import pandas as pd
from pydantic import BaseModel


def walk(obj, path=''):
    """(path, array or plain value) of everything stored in obj"""
    if isinstance(obj, np.ndarray):
        yield path, obj
    elif isinstance(obj, BaseModel):
        for k in type(obj).model_fields:
            v = getattr(obj, k)
            if k == 'updatable':
                yield f'{path}.updatable', tuple(sorted(v))
            else:
                yield from walk(v, f'{path}.{k}')
    elif isinstance(obj, pd.DataFrame):
        yield f'{path}.columns', tuple(obj.columns)
        for c in obj.columns:
            yield f'{path}[{c}]', obj[c].to_numpy()
    elif isinstance(obj, dict):
        yield f'{path}.keys', tuple(sorted(obj))
        for k, v in obj.items():
            yield from walk(v, f'{path}.{k}')
    elif isinstance(obj, (list, tuple)):
        yield f'{path}.len', len(obj)
        for i, v in enumerate(obj):
            yield from walk(v, f'{path}.{i}')
    elif obj is None or isinstance(obj, (str, float, int, bool)):
        yield path, obj


class Picture:
    def __init__(self, K, **objs):
        self.K, self.objs = K, objs
        self.was = {n: [(p, v.copy() if isinstance(v, np.ndarray) else v) for p, v in walk(o)] for n, o in objs.items()}

    def check(self, when):
        """nothing in the picture has changed"""
        for n, o in self.objs.items():
            # the default grid of an interpolated parameter is filled in on first use and is not a parameter
            free = {p for p, v in self.was[n] if p.endswith('soc_pinpoints') and v is None}
            now = [(p, v) for p, v in walk(o) if p not in free]
            was = [(p, v) for p, v in self.was[n] if p not in free]
            self.K.same(f'{when}: structure of {n}', [p for p, _ in now], [p for p, _ in was])
            for (p, a), (_, b) in zip(now, was):
                if isinstance(b, np.ndarray):
                    if b.dtype.kind in 'OfiubM' and (b.dtype.kind != 'O' or self.K.symbolic):
                        self.K.eq(f'{when}: {n}{p}', a, b)
                    else:
                        self.K.same(f'{when}: {n}{p}', list(a.ravel()), list(b.ravel()))
                else:
                    self.K.same(f'{when}: {n}{p}', a, b)


def poke(*objs):
    """overwrite every array of the objects in place"""
    n = 0
    for o in objs:
        for _, v in walk(o):
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                v[...] = v + 1000
                n += 1
    return n
