"""HDF5 files as a contract: groups and data sets hold what was last written, entries never written hold the fill value, data sets
grow by resize up to their largest shape, and only if they are stored in chunks; numbers are kept to the precision of a float"""
import types
import numpy as np
import h5py


class Dataset:
    def __init__(self, shape, maxshape=None, dtype=float, fillvalue=0., chunk=2, **options):
        if np.dtype(dtype) != np.dtype(float):
            from vc.terms import Unsupported
            raise Unsupported('data set of another type than float')
        self.fill, self.maxshape = fillvalue, tuple(shape) if maxshape is None else tuple(maxshape)
        self.value = np.full(shape, fillvalue, dtype=object)
        self.chunks = (chunk,) + self.value.shape[1:] if maxshape is not None or options.get('compression') else None

    shape = property(lambda self: self.value.shape)
    ndim = property(lambda self: self.value.ndim)
    dtype = np.dtype(float)

    def __len__(self):
        return len(self.value)

    def __getitem__(self, i):
        return np.array(self.value, dtype=object)[i]

    def __iter__(self):
        return iter(np.array(self.value, dtype=object))

    def __setitem__(self, i, v):
        self.value[i] = np.array(v, dtype=object)

    def resize(self, size, axis=None):
        new = tuple(size) if axis is None else self.shape[:axis] + (size,) + self.shape[axis + 1:]
        if self.chunks is None:
            raise TypeError('Only chunked datasets can be resized')
        if any(m is not None and n > m for n, m in zip(new, self.maxshape)):
            raise ValueError('unable to set extent (dimension cannot exceed the existing maximal size)')
        value = np.full(new, self.fill, dtype=object)
        common = tuple(slice(0, min(a, b)) for a, b in zip(new, self.shape))
        value[common] = self.value[common]
        self.value = value


class Group(h5py.Group):
    def __init__(self, chunk=2):     # noqa: no file behind it
        self.items_, self.attrs_, self.chunk, self.open = {}, {}, chunk, True

    attrs = property(lambda self: self.attrs_)

    def _check(self):
        if not self.open:
            raise ValueError('not a location (closed)')

    def __bool__(self):
        return self.open

    def __contains__(self, k):
        self._check()
        v = self
        for part in k.strip('/').split('/'):
            if not isinstance(v, Group) or part not in v.items_:
                return False
            v = v.items_[part]
        return True

    def __getitem__(self, k):
        self._check()
        v = self
        for part in k.strip('/').split('/'):
            v = v.items_[part]
        return v

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return sorted(self.items_)

    def __iter__(self):
        return iter(sorted(self.items_))

    def __len__(self):
        return len(self.items_)

    def create_group(self, k):
        self._check()
        if k in self:
            raise ValueError('Unable to create group (name already exists)')
        g = self
        for part in k.strip('/').split('/'):
            if part not in g.items_:
                g.items_[part] = Group(self.chunk)
            g = g.items_[part]
        return g

    def require_group(self, k):
        return self.get(k) or self.create_group(k)

    def create_dataset(self, k, shape=None, data=None, **kw):
        self._check()
        if k in self.items_:
            raise ValueError('Unable to create dataset (name already exists)')
        if shape is None:
            shape = np.shape(data)
        d = self.items_[k] = Dataset(shape, chunk=self.chunk, **kw)
        if data is not None:
            d[...] = data
        return d

    def __repr__(self):
        return f'<{sorted(self.items_)}>'

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def module(chunk=2):
    """a stand-in for h5py, with a file system of its own"""
    disk, opened = {}, []

    class File(Group):
        def __init__(self, name, mode='r', **options):
            if mode == 'r' and str(name) not in disk:
                raise FileNotFoundError(name)
            if mode == 'w' or str(name) not in disk:
                disk[str(name)] = Group(chunk)
            base = disk[str(name)]
            self.items_, self.attrs_, self.chunk, self.open = base.items_, base.attrs_, chunk, True
            opened.append(self)

        def close(self):
            self.open = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    m = types.SimpleNamespace(File=File, Group=h5py.Group, Dataset=Dataset, still_open=lambda: sum(f.open for f in opened))
    return m
