"""In-memory model of the h5py API subset (documented semantics), able to hold symbolic values.

Contract modelled: opening modes, groups are created on demand, require_dataset returns an existing
dataset unchanged when shape and (safely castable) dtype agree and raises TypeError otherwise,
create_dataset refuses an existing name, dataset element types are fixed at creation (a float written
to an integer dataset truncates), strings are read back as bytes, items()/keys() iterate in name order.
A placeholder file on disk makes Path.is_file()/unlink() behave; removing it drops the content.
"""
import itertools
import os
import posixpath
import types

import h5py as real
import numpy as np

from . import values as V
from .values import Sym, SymB, SymF, SymI, has_sym

_FILES = {}  # token in the placeholder file -> (token, root group data)
_COUNT = itertools.count()


def reset():
    _FILES.clear()


VLEN = real.string_dtype()


def _isvlen(dt):
    return dt is not None and dt.kind == "O" and h5_is_str(dt)


def h5_is_str(dt):
    return real.check_string_dtype(dt) is not None


class _G:
    def __init__(self):
        self.kids = {}
        self.attrs = {}


class _D:
    def __init__(self, value, dtype, shape):
        self.value = value
        self.dtype = dtype
        self.shape = shape
        self.attrs = {}


def _norm(p):
    if isinstance(p, bytes):
        p = p.decode()
    if not isinstance(p, str):
        raise TypeError(f"Accessing a group is done with bytes or str, not {type(p)}")
    return [c for c in p.split("/") if c not in ("", ".")]


def _sym_dtype(els):
    if all(isinstance(e, (SymB, bool, np.bool_)) for e in els):
        return np.dtype(bool)
    if all(isinstance(e, (SymI, SymB, int, np.integer)) for e in els):
        return np.dtype(np.int64)
    return np.dtype(np.float64)


def _cast(e, dt):
    """cast one element to dtype dt"""
    if isinstance(e, Sym):
        if dt.kind == "f":
            return e if isinstance(e, SymF) else SymF(V.lift(e)[1])
        if dt.kind in "iu":
            return V.trunc_int(e) if isinstance(e, SymF) else (e if isinstance(e, SymI) else e._i())
        if dt.kind == "b":
            return e if isinstance(e, SymB) else (e != 0)
        raise TypeError("Can't implicitly convert non-string objects to strings")
    if _isvlen(dt):
        if isinstance(e, (str, np.str_)):
            return str(e).encode()
        if isinstance(e, bytes):
            return e
        if isinstance(e, float) and e != e:
            raise TypeError("Can't implicitly convert non-string objects to strings")
        raise TypeError("Can't implicitly convert non-string objects to strings")
    if isinstance(e, (str, bytes)) and dt.kind in "fiub":
        return np.asarray(e).astype(dt)[()]
    return np.asarray(e, dtype=dt)[()]


def _prep(data, dtype=None, shape=None):
    """-> (value, dtype, shape) as h5py would store it"""
    if isinstance(data, real.Empty):
        return data, data.dtype, None
    if isinstance(data, Sym):
        dt = _sym_dtype([data]) if dtype is None else np.dtype(dtype)
        return _cast(data, dt), dt, ()
    vals = getattr(data, "_values", None)
    if isinstance(vals, np.ndarray):
        data = vals
    if isinstance(data, (list, tuple)) and has_sym(data):
        data = np.array(data, dtype=object)
    if isinstance(data, (str, bytes)):
        dt = VLEN if dtype is None else np.dtype(dtype)
        return _cast(data, dt), dt, ()
    if isinstance(data, np.ndarray) and data.dtype == object and data.size and dtype is None:
        if V.all_numeric_obj(data) and (has_sym(data) or all(isinstance(e, float) for e in data.flat)):
            dt = _sym_dtype(list(data.flat))
        elif all(isinstance(e, (str, bytes)) for e in data.flat):
            dt = VLEN
        else:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    elif dtype is not None:
        dt = np.dtype(dtype)
        if dt.kind == "O" and not h5_is_str(dt):
            if (
                isinstance(data, np.ndarray)
                and data.dtype == object
                and data.size
                and V.all_numeric_obj(data)
                and (has_sym(data) or all(isinstance(e, float) for e in data.flat))
            ):
                dt = _sym_dtype(list(data.flat))
            else:
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    else:
        data = np.asarray(data)
        dt = data.dtype
        if dt.kind == "U":
            raise TypeError(f"No conversion path for dtype: {dt!r}")
        if dt.kind == "O":
            if h5_is_str(dt):
                pass
            else:
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if dt.kind == "U":
        raise TypeError(f"No conversion path for dtype: {dt!r}")
    a = data if isinstance(data, np.ndarray) else np.asarray(data)
    if shape is not None and tuple(shape) != a.shape:
        if int(np.prod(shape)) != a.size:
            raise ValueError("Shape tuple is incompatible with data")
        a = a.reshape(shape)
    if a.ndim == 0:
        return _cast(a[()], dt), dt, ()
    if has_sym(a) or dt.kind == "O":
        out = np.empty(a.shape, dtype=object)
        for i, e in np.ndenumerate(a):
            out[i] = _cast(e, dt)
    else:
        out = a.astype(dt)
    return out, dt, a.shape


class Attrs:
    def __init__(self, d):
        self._d = d

    def __setitem__(self, k, v):
        if isinstance(v, (list, tuple)):
            v = np.array(v)
        if isinstance(v, np.ndarray) and v.dtype.kind == "U":
            v = v.astype(object)
        if isinstance(v, np.str_):
            v = str(v)
        self._d[k] = v

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError(f"Unable to synchronously open attribute (can't locate attribute: '{k}')")
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def get(self, k, d=None):
        return self._d.get(k, d)

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self._d[k]) for k in sorted(self._d)]

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def values(self):
        return [self._d[k] for k in sorted(self._d)]

    def __delitem__(self, k):
        self[k]
        del self._d[k]

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data if dtype is None else np.asarray(data, dtype=dtype)

    def modify(self, name, value):
        self[name] = value

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k not in self and d:
            return d[0]
        r = self[k]
        del self[k]
        return r


class _Node:
    def __init__(self, data, file, name):
        self._data = data
        self.file = file
        self.name = name

    def _ok(self):
        if not self.file._open:
            raise ValueError("Invalid location identifier (invalid location identifier)")

    @property
    def attrs(self):
        self._ok()
        return Attrs(self._data.attrs)

    def __bool__(self):
        return self.file._open

    @property
    def parent(self):
        return self.file[posixpath.dirname(self.name) or "/"]

    def __eq__(self, o):
        return isinstance(o, _Node) and o._data is self._data

    __hash__ = object.__hash__


class Dataset(_Node):
    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def ndim(self):
        return len(self._data.shape)

    @property
    def size(self):
        return None if self._data.shape is None else int(np.prod(self._data.shape))

    def __len__(self):
        if not self.shape:
            raise TypeError("Attempt to take len() of scalar dataset")
        return self.shape[0]

    def __getitem__(self, i):
        self._ok()
        v = self._data.value
        if not self.shape:
            if i != () and i is not Ellipsis:
                raise ValueError("Illegal slicing argument for scalar dataspace")
            if i is Ellipsis:
                a = np.empty((), dtype=object if isinstance(v, (Sym, bytes)) else self.dtype)
                a[()] = v
                return a
            return v
        r = v[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __array__(self, dtype=None, copy=None):
        a = np.asarray(self[()])
        return a if dtype is None else a.astype(dtype)

    def asstr(self, *a, **k):
        ds = self

        class _S:
            def __getitem__(self, i):
                r = ds[i]
                if isinstance(r, bytes):
                    return r.decode()
                return np.array([e.decode() for e in r.flat], dtype=object).reshape(r.shape)

        return _S()

    def __setitem__(self, i, val):
        self._ok()
        self.file._writable()
        d = self._data
        if not d.shape:
            if isinstance(val, np.ndarray) and val.ndim:
                raise TypeError(f"Can't broadcast {val.shape} -> ()")
            if isinstance(val, (list, tuple)):
                raise TypeError("Can't broadcast -> ()")
            if isinstance(val, np.ndarray):
                val = val[()]
            d.value = _cast(val, d.dtype)
            return
        if isinstance(val, (Sym, str, bytes)) or np.ndim(val) == 0:
            new = np.empty(np.shape(d.value[i]), dtype=object)
            new.fill(_cast(val, d.dtype))
        else:
            vals = getattr(val, "_values", val)
            if isinstance(vals, (list, tuple)):
                vals = np.array(vals, dtype=object) if has_sym(vals) else np.asarray(vals)
            a = vals
            new = np.empty(a.shape, dtype=object)
            for k, e in np.ndenumerate(a):
                new[k] = _cast(e, d.dtype)
            sel = np.shape(d.value[i])
            if a.shape != sel and int(np.prod(a.shape)) != int(np.prod(sel)):
                try:
                    new = np.broadcast_to(new, sel)
                except ValueError:
                    raise TypeError(f"Can't broadcast {a.shape} -> {sel}")
            else:
                new = new.reshape(sel)
        v = d.value
        if v.dtype != object and has_sym(new):
            v = v.astype(object)
        else:
            v = v.copy()
        v[i] = new
        d.value = v

    def read_direct(self, *a, **k):
        raise V.EngineLimit("read_direct")

    def write_direct(self, *a, **k):
        raise V.EngineLimit("write_direct")

    def resize(self, *a, **k):
        raise TypeError("Only chunked datasets can be resized")


class Group(_Node):
    def _walk(self, path):
        n = self.file._root if (isinstance(path, str) and path.startswith("/")) else self._data
        for c in _norm(path):
            if not isinstance(n, _G) or c not in n.kids:
                return None
            n = n.kids[c]
        return n

    def _full(self, path):
        if isinstance(path, bytes):
            path = path.decode()
        return posixpath.normpath(posixpath.join("/", self.name, path)) or "/"

    def _wrap(self, n, path):
        return (Group if isinstance(n, _G) else Dataset)(n, self.file, self._full(path))

    def __getitem__(self, path):
        self._ok()
        if isinstance(path, bytes):
            path = path.decode()
        _norm(path)
        n = self._walk(path)
        if n is None:
            raise KeyError(
                f"Unable to synchronously open object (object '{_norm(path)[-1]}' doesn't exist)"
            )
        return self._wrap(n, path)

    def get(self, path, default=None, getclass=False, getlink=False):
        self._ok()
        n = self._walk(path)
        if n is None:
            return default
        if getclass:
            return Group if isinstance(n, _G) else Dataset
        return self._wrap(n, path)

    def __contains__(self, path):
        self._ok()
        if not isinstance(path, (str, bytes)):
            path = str(path)
        return self._walk(path) is not None

    def _mk(self, parts, start):
        n = start
        for c in parts:
            k = n.kids.get(c)
            if k is None:
                self.file._writable()
                k = n.kids[c] = _G()
            if not isinstance(k, _G):
                raise ValueError("Unable to synchronously create group (component is not a group)")
            n = k
        return n

    def _base(self, path):
        return self.file._root if path.startswith("/") else self._data

    def require_group(self, path):
        self._ok()
        n = self._walk(path)
        if n is not None:
            if not isinstance(n, _G):
                raise TypeError("Incompatible object (Dataset) already exists")
            return self._wrap(n, path)
        return self._wrap(self._mk(_norm(path), self._base(path)), path)

    def create_group(self, path, track_order=None):
        self._ok()
        if self._walk(path) is not None:
            raise ValueError("Unable to synchronously create group (name already exists)")
        return self._wrap(self._mk(_norm(path), self._base(path)), path)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        self._ok()
        self.file._writable()
        if isinstance(name, bytes):
            name = name.decode()
        if shape is not None and not isinstance(shape, tuple):
            shape = tuple(shape) if np.ndim(shape) else (int(shape),)
        if data is None:
            if shape is None:
                if dtype is None:
                    raise TypeError("One of data, shape or dtype must be specified")
                shape = ()
            dt = np.dtype(dtype if dtype is not None else "f4")
            val = np.zeros(shape, dtype=dt)
            rec = (val if shape else val[()], dt, shape)
        else:
            rec = _prep(data, dtype, shape)
        if self._walk(name) is not None:
            raise ValueError("Unable to synchronously create dataset (name already exists)")
        parts = _norm(name)
        g = self._mk(parts[:-1], self._base(name))
        d = g.kids[parts[-1]] = _D(*rec)
        return self._wrap(d, name)

    def require_dataset(self, name, shape, dtype, exact=False, data=None, **kw):
        self._ok()
        if isinstance(name, bytes):
            name = name.decode()
        if self._walk(name) is None:
            return self.create_dataset(name, shape=shape, dtype=dtype, data=data, **kw)
        if isinstance(shape, int):
            shape = (shape,)
        ds = self[name]
        if not isinstance(ds, Dataset):
            raise TypeError(f"Incompatible object ({type(ds).__name__}) already exists")
        if tuple(shape) != ds.shape:
            raise TypeError(f"Shapes do not match (existing {ds.shape} vs new {tuple(shape)})")
        dt = np.dtype(dtype)
        if dt.kind == "O" and not h5_is_str(dt) and data is not None and has_sym(data):
            dt = np.dtype(float)
        if exact:
            if dt != ds.dtype:
                raise TypeError("Datatypes do not exactly match")
        elif not np.can_cast(dt, ds.dtype):
            raise TypeError(f"Datatypes cannot be safely cast (existing {ds.dtype} vs new {dt})")
        return ds

    def __setitem__(self, name, obj):
        self._ok()
        self.file._writable()
        if isinstance(obj, _Node):
            parts = _norm(name)
            g = self._mk(parts[:-1], self._base(name))
            g.kids[parts[-1]] = obj._data
            return
        self.create_dataset(name, data=obj)

    def __delitem__(self, name):
        self._ok()
        self.file._writable()
        parts = _norm(name)
        n = self._base(name)
        for c in parts[:-1]:
            n = n.kids.get(c) if isinstance(n, _G) else None
        if not isinstance(n, _G) or parts[-1] not in n.kids:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del n.kids[parts[-1]]

    _gone = object()

    def pop(self, name, default=_gone):
        try:
            r = self[name]
        except KeyError:
            if default is Group._gone:
                raise
            return default
        del self[name]
        return r

    def setdefault(self, name, default=None):
        try:
            return self[name]
        except KeyError:
            self[name] = default
        return default

    def update(self, other=(), /, **kw):
        for d in (other, kw):
            for k, v in d.items() if hasattr(d, "items") else d:
                self[k] = v

    def move(self, a, b):
        d = self._walk(a)
        del self[a]
        parts = _norm(b)
        self._mk(parts[:-1], self._base(b)).kids[parts[-1]] = d

    def keys(self):
        self._ok()
        return sorted(self._data.kids)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._data.kids)

    def clear(self):
        self.file._writable()
        self._data.kids.clear()

    def visititems(self, f):
        for k, v in self.items():
            r = f(k, v)
            if r is not None:
                return r
            if isinstance(v, Group):
                r = v.visititems(lambda kk, vv, k=k: f(k + "/" + kk, vv))
                if r is not None:
                    return r

    def visit(self, f):
        return self.visititems(lambda k, v: f(k))


FAULT = None  # optional callable(path, mode) -> raises, used by fault harnesses


class File(Group):
    def __init__(self, name, mode="r", **kw):
        path = os.path.realpath(os.fspath(name))
        self.filename = os.fspath(name)
        self.mode = mode
        self._open = True
        if FAULT is not None:
            FAULT(path, mode)
        ex = os.path.exists(path)
        rec = None
        if ex:
            with open(path, "rb") as f:
                tok = f.read(64)
            rec = _FILES.get(tok)
        if mode in ("r", "r+") and not ex:
            raise FileNotFoundError(2, f"Unable to synchronously open file (unable to open file: name = '{path}')")
        if mode in ("w-", "x") and ex:
            raise FileExistsError(17, "Unable to synchronously create file (unable to open file: File exists)")
        if mode not in ("r", "r+", "a", "w", "w-", "x"):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if rec is None and ex and mode != "w":
            if os.path.getsize(path) == 0 and mode in ("a",):
                pass
            else:
                raise OSError("Unable to synchronously open file (file signature not found)")
        if rec is None or mode == "w":
            tok = b"fake-hdf5 %d" % next(_COUNT)
            with open(path, "wb") as f:
                f.write(tok)
            rec = _FILES[tok] = (tok, _G())
        self._root = rec[1]
        super().__init__(rec[1], self, "/")

    def _writable(self):
        if self.mode == "r":
            raise ValueError("Unable to synchronously create group (no write intent on file)")

    def close(self):
        self._open = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        return getattr(real, n)


module = _Mod("h5py")
module.File = File
module.Group = Group
module.Dataset = Dataset
