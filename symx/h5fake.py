"""In-memory stand-in for h5py that can hold symbolic contents.

Files are real (empty) files on disk so that existence checks behave; their
contents live in STORE, keyed by path.
"""

import os
import types

import numpy as np
import h5py

from .arr import SymArray, mk, plain, issym
from .core import Sym, SymBool

STORE = {}


class HLObject:
    _h5fake = True


def _conv(v):
    """Value as HDF5 would store it."""
    if v is None:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if hasattr(v, "_symx_sparse"):
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(v, str):
        return v
    if isinstance(v, (bytes, bool, np.bool_)):
        return v
    if isinstance(v, (Sym, SymBool)):
        return v
    if isinstance(v, (int, np.integer)):
        return np.int64(v)
    if isinstance(v, (float, np.floating)):
        return np.float64(v)
    if isinstance(v, SymArray):
        bad = [x for x in plain(v).flat if not isinstance(x, (Sym, SymBool, int, float, np.number)) and not hasattr(x, "numerator")]
        if bad:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        return v.copy()
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            if issym(v):
                return mk(v.copy())
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        return v.copy()
    if isinstance(v, (list, tuple)):
        if any(x is None for x in v):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        a = np.array(plain(list(v)), dtype=object) if issym(v) else np.array(plain(list(v)))
        if a.dtype == object and not issym(v):
            from .arr import deobj

            a = deobj(a)
        return mk(a) if a.dtype.kind in "fO" else a
    raise TypeError(f"Object dtype dtype('O') has no native HDF5 equivalent ({type(v)})")


class Attrs(dict):
    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise TypeError("attribute name must be a string")
        dict.__setitem__(self, k, _conv(v))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(f"Unable to synchronously open attribute (can't locate attribute: '{k}')")
        v = dict.__getitem__(self, k)
        return v.copy() if isinstance(v, np.ndarray) else v

    def get(self, k, d=None):
        return self[k] if k in self else d

    def create(self, k, data, **kw):
        self[k] = data


class Dataset(HLObject):
    def __init__(self, name, data):
        self.name = name
        self._v = data
        self.attrs = Attrs()

    @property
    def shape(self):
        return np.shape(plain(self._v)) if not isinstance(self._v, str) else ()

    ndim = property(lambda self: len(self.shape))
    size = property(lambda self: int(np.prod(self.shape)))

    @property
    def dtype(self):
        d = np.asarray(plain(self._v)).dtype
        return np.dtype(float) if d == object else d

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, ix):
        if self.shape == ():
            if (isinstance(ix, tuple) and ix == ()) or ix is Ellipsis:
                return self._v
            raise ValueError("Illegal slicing argument for scalar dataspace")
        if isinstance(ix, tuple) and ix == ():
            return self._v.copy()
        v = self._v[ix]
        return v.copy() if isinstance(v, np.ndarray) else v

    def __array__(self, dtype=None, copy=None):
        a = np.asarray(plain(self._v))
        return a if dtype is None else a.astype(dtype)

    def __iter__(self):
        return iter(self._v)


class Group(HLObject):
    def __init__(self, name="/"):
        self.name = name
        self._m = {}
        self.attrs = Attrs()

    def _put(self, name, obj):
        if name in self._m:
            raise ValueError("Unable to synchronously create dataset (name already exists)")
        self._m[name] = obj
        return obj

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is None:
            if shape is None:
                raise TypeError("One of data, shape or dtype must be specified")
            v = mk(np.zeros(shape))
        else:
            v = _conv(data)
        g, last = self._parent(name)
        return g._put(last, Dataset(last, v))

    def _parent(self, name):
        parts = [p for p in name.split("/") if p]
        g = self
        for p in parts[:-1]:
            g = g.require_group(p)
            if not isinstance(g, Group):
                raise ValueError("Unable to create object (a component of the path is not a group)")
        return g, parts[-1]

    def create_group(self, name):
        g, last = self._parent(name)
        return g._put(last, Group(last))

    def require_group(self, name):
        if name in self._m:
            return self._m[name]
        return self.create_group(name)

    def __getitem__(self, name):
        g = self
        for p in [p for p in name.split("/") if p]:
            if not isinstance(g, Group) or p not in g._m:
                raise KeyError(f"Unable to synchronously open object (object '{p}' doesn't exist)")
            g = g._m[p]
        return g

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __contains__(self, name):
        try:
            self[name]
            return True
        except KeyError:
            return False

    def __delitem__(self, name):
        del self._m[name]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def keys(self):
        return sorted(self._m)

    def values(self):
        return [self._m[k] for k in self.keys()]

    def items(self):
        return [(k, self._m[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._m)


class File(Group):
    def __init__(self, filename, mode="r", **k):
        super().__init__()
        self.filename = filename
        self.mode = mode
        path = os.path.abspath(filename)
        if mode in ("w", "x", "w-"):
            if mode != "w" and os.path.exists(path):
                raise FileExistsError(path)
            open(path, "w").close()
            STORE[path] = self
        else:
            if path not in STORE:
                raise FileNotFoundError(path)
            src = STORE[path]
            self._m, self.attrs = src._m, src.attrs
            if mode == "r":
                self._ro = True

    def create_dataset(self, *a, **k):
        if getattr(self, "_ro", False):
            raise ValueError("Unable to create dataset (no write intent on file)")
        return super().create_dataset(*a, **k)

    def create_group(self, *a, **k):
        if getattr(self, "_ro", False):
            raise ValueError("Unable to create group (no write intent on file)")
        return super().create_group(*a, **k)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class H5Facade(types.ModuleType):
    def __init__(self):
        super().__init__("h5py")

    def __getattr__(self, name):
        own = {"HLObject": HLObject, "File": File, "Group": Group, "Dataset": Dataset}.get(name)
        return own if own is not None else getattr(h5py, name)
