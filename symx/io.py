"""Files met during symbolic execution: a file system in memory, and stand-ins for the parts of
astropy.io.fits and h5py that map files are written and read with.

FITS data is big-endian on disk. An array read from a FITS file (FitsArr) therefore keeps its
elements as Swapped(value): what a native-order reading of its memory would give. Swapping bytes
in place changes that memory for everything that shares it, as it does in the real library.
"""
import types
import numpy as np
from . import snp as S
from .core import Unsupported

VFS = {}
def reset(): VFS.clear()


class Swapped:
    """the value seen when the bytes of v are read in the wrong order"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def _no(self, *a): return Garbage()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _no

class Garbage(Swapped):
    __slots__ = ()
    def __init__(self): self.v = self

def swap(x): return x.v if isinstance(x, Swapped) else Swapped(x)
_swap = np.frompyfunc(swap, 1, 1)


class _DT:
    """the dtype of big-endian data"""
    byteorder, char, kind, itemsize, name = ">", "d", "f", 8, "float64"
    type = np.float64
    def newbyteorder(self, *a): return np.dtype(float)
    def __eq__(self, o): return isinstance(o, _DT) or o == np.dtype(">f8")
    def __hash__(self): return 7
    def __repr__(self): return "dtype('>f8')"
    isnative = False
    dtype = np.dtype(float)     # what numpy makes of it


class FitsArr:
    """big-endian array: a thin layer over an object array in memory order"""
    def __init__(self, mem): self.mem = mem
    dtype = property(lambda s: _DT(), lambda s, v: (_ for _ in ()).throw(Unsupported("setting the dtype of big-endian data")))
    shape = property(lambda s: s.mem.shape)
    ndim = property(lambda s: s.mem.ndim)
    size = property(lambda s: s.mem.size)
    def __len__(self): return len(self.mem)
    def values(self):
        m = self.mem
        return np.asarray(_swap(m), object).reshape(m.shape) if m.size else m
    def native(self): return self.values().view(S.SymArr)
    def __getitem__(self, sel):
        r = np.ndarray.__getitem__(self.mem, sel)
        return FitsArr(r) if isinstance(r, np.ndarray) else swap(r)
    def __setitem__(self, sel, val): self.mem[sel] = _swap(S.base(S.toarr(val)))
    def byteswap(self, inplace=False):
        if inplace: self.mem[...] = self.values(); return self
        return FitsArr(self.values())
    def view(self, dtype=None, type=None):
        if dtype is None or isinstance(dtype, _DT): return FitsArr(self.mem)
        return self.mem.view(S.SymArr)     # the same memory, read in native order
    def newbyteorder(self, *a): return self.mem.view(S.SymArr)
    def astype(self, dtype, copy=True, **k):
        if isinstance(dtype, _DT): return FitsArr(self.mem.copy()) if copy else self
        return self.native().astype(dtype)
    def copy(self, *a, **k): return FitsArr(self.mem.copy())
    def _inplace(self, o, f):
        self.mem[...] = _swap(S.base(S.toarr(f(self.native(), o)))); return self
    def __imul__(self, o): return self._inplace(o, lambda a, b: a*b)
    def __iadd__(self, o): return self._inplace(o, lambda a, b: a+b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a-b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a/b)
    def __mul__(self, o): return self.native()*o
    __rmul__ = __mul__
    def __add__(self, o): return self.native()+o
    __radd__ = __add__
    def __sub__(self, o): return self.native()-o
    def __truediv__(self, o): return self.native()/o
    def __neg__(self): return -self.native()
    def __array__(self, dtype=None, copy=None): return self.native()


# ------------------------------------------------------------ fits

class Header(dict):
    def __init__(self, cards=(), copy=False):
        dict.__init__(self)
        for k, v in (cards.items() if isinstance(cards, dict) else cards): self[k] = v
    def __setitem__(self, k, v):
        if isinstance(v, tuple): v = v[0]
        if isinstance(v, (bytes, np.bytes_)): raise ValueError("Illegal value: %r." % (v,))
        if isinstance(v, np.ndarray): v = v.item()
        dict.__setitem__(self, k.upper(), v)
    def __getitem__(self, k): return dict.__getitem__(self, k.upper())
    def __contains__(self, k): return dict.__contains__(self, k.upper())
    def get(self, k, d=None): return dict.get(self, k.upper(), d)
    def copy(self, **k): return Header(dict(self))
    def update(self, o): [self.__setitem__(k, v) for k, v in o.items()]
    def insert(self, i, card, *a, **k):
        it = [x for x in self.items() if x[0] != card[0]]
        it.insert(i, (card[0], card[1]))
        self.clear()
        for a, b in it: self[a] = b
    def set(self, k, v, *a, **kw): self[k] = v
    def tofile(self, fname, overwrite=False, **k):
        VFS[fname] = ("fits", [(_order(self, None), None)])
    @classmethod
    def fromstring(cls, s, **k):
        if not isinstance(s, FileBytes): raise Unsupported("header text")
        return cls(list(s.cards.items())[:s.n//80])


def _order(h, data):
    """the cards in the order they are stored"""
    o = Header()
    o["SIMPLE"] = True
    o["BITPIX"] = h.get("BITPIX", -64) if data is None else -64
    shape = None if data is None else data.shape
    if shape is not None:
        o["NAXIS"] = len(shape)
        for i, n in enumerate(shape[::-1]): o["NAXIS%d" % (i+1)] = n
    for k, v in h.items():
        if k not in o and not (shape is not None and k.startswith("NAXIS")): o[k] = v
    return o


class HDU:
    def __init__(self, data=None, header=None, name=None, **k):
        self._d = None if data is None else data
        self.header = Header(dict(header)) if header is not None else Header()
    def stored(self):
        d = np.array(S.base(S.toarr(self._d)), dtype=object, copy=True)
        return (_order(self.header, d), d)

class OpenHDU:
    """an image in an opened file: its data is read once and then kept"""
    def __init__(self, header, data):
        self.header, self._disk, self._data = header.copy(), data, None
        self.section = Section(self)
    @property
    def data(self):
        if self._disk is None: return None
        if self._data is None: self._data = _load(self._disk)
        return self._data
    shape = property(lambda s: s._disk.shape)
    size = property(lambda s: s._disk.size)

class CompHDU(OpenHDU):
    """a compressed image: decompressed to native order"""
    @property
    def data(self):
        if self._data is None: self._data = self._disk.copy().view(S.SymArr)
        return self._data

def _load(d): return FitsArr(np.asarray(_swap(d), object).reshape(d.shape) if d.size else d)

class Section:
    """reads the asked for part of the file each time"""
    def __init__(self, hdu): self.hdu = hdu
    shape = property(lambda s: s.hdu.shape)
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(k is None for k in key): raise IndexError("Illegal index None")
        if isinstance(self.hdu, CompHDU): return self.hdu._disk.copy().view(S.SymArr)[key]
        return _load(self.hdu._disk)[key]

class HDUList(list):
    def writeto(self, fname, overwrite=False, **k):
        if fname in VFS and not overwrite: raise OSError("File %s already exists" % fname)
        VFS[fname] = ("fits", [h.stored() for h in self])
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self, *a, **k): pass

COMPRESSED = set()
def f_open(fname, mode="readonly", **k):
    if fname not in VFS: raise FileNotFoundError(fname)
    kind, hdus = VFS[fname]
    if kind != "fits": raise OSError("not a fits file")
    return HDUList([(CompHDU if fname in COMPRESSED else OpenHDU)(h, d) for h, d in hdus])

class FileBytes:
    def __init__(self, cards, n): self.cards, self.n = cards, n
class RawFile:
    def __init__(self, fname):
        if fname not in VFS: raise FileNotFoundError(fname)
        self.kind, self.hdus = VFS[fname]
    def read(self, n=-1): return FileBytes(self.hdus[0][0], n if n >= 0 else 10**9)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
def raw_open(fname, mode="r", *a, **k):
    if isinstance(fname, str) and (fname in VFS or fname.startswith("vfs_")): return RawFile(fname)
    return open(fname, mode, *a, **k)

fits = types.ModuleType("astropy.io.fits")
fits.Header, fits.PrimaryHDU, fits.ImageHDU, fits.HDUList, fits.open = Header, HDU, HDU, HDUList, f_open
import warnings as _w
def _fits_getattr(a):
    if a.startswith("__"): raise AttributeError(a)
    raise Unsupported("astropy.io.fits.%s" % a)
fits.__getattr__ = _fits_getattr


# ------------------------------------------------------------ hdf

class Dataset:
    def __init__(self, val):
        if isinstance(val, str): self.val = val.encode()
        elif isinstance(val, np.ndarray) or isinstance(val, (list, tuple)): self.val = np.array(S.base(S.toarr(val)), dtype=object, copy=True)
        else: self.val = val
    @property
    def shape(self): return np.shape(self.val) if isinstance(self.val, np.ndarray) else ()
    @property
    def size(self): return int(np.prod(self.shape)) if self.shape else 1
    @property
    def ndim(self): return len(self.shape)
    @property
    def dtype(self): return np.dtype(float)
    def __getitem__(self, sel):
        if not isinstance(self.val, np.ndarray): return self.val
        if sel == (): return self.val.copy().view(S.SymArr)
        r = self.val[sel]
        return r.copy().view(S.SymArr) if isinstance(r, np.ndarray) else r

class Group:
    def __init__(self, tree): self.tree = tree
    def _find(self, key, make=False):
        t = self.tree
        parts = [p for p in key.split("/") if p]
        for p in parts[:-1]:
            if p not in t:
                if not make: raise KeyError(key)
                t[p] = {}
            t = t[p]
            if not isinstance(t, dict): raise KeyError(key)
        return t, parts[-1]
    def __getitem__(self, key):
        t, k = self._find(key)
        if k not in t: raise KeyError("Unable to open object (%s)" % key)
        v = t[k]
        return Group(v) if isinstance(v, dict) else v
    def __setitem__(self, key, val):
        t, k = self._find(key, True)
        if k in t: raise OSError("Unable to create dataset (name already exists)")
        t[k] = Dataset(val)
    def __delitem__(self, key):
        t, k = self._find(key)
        if k not in t: raise KeyError(key)
        del t[k]
    def __contains__(self, key):
        try: t, k = self._find(key)
        except KeyError: return False
        return k in t
    def __iter__(self): return iter(sorted(self.tree))
    def __len__(self): return len(self.tree)
    def keys(self): return sorted(self.tree)
    def items(self): return [(k, self[k]) for k in sorted(self.tree)]
    def values(self): return [self[k] for k in sorted(self.tree)]
    def get(self, k, d=None): return self[k] if k in self else d
    def create_group(self, key):
        t, k = self._find(key, True)
        if k in t: raise ValueError("Unable to create group (name already exists)")
        t[k] = {}
        return Group(t[k])
    def require_group(self, key): return self[key] if key in self else self.create_group(key)
    def create_dataset(self, key, data=None, **k):
        self[key] = data
        return self[key]

class File(Group):
    def __init__(self, fname, mode="r", **k):
        if mode == "w" or (mode == "a" and fname not in VFS): VFS[fname] = ("hdf", {})
        if fname not in VFS: raise FileNotFoundError(fname)
        Group.__init__(self, VFS[fname][1])
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

h5py = types.ModuleType("h5py")
h5py.File, h5py.Group, h5py.Dataset = File, Group, Dataset
def _h5_getattr(a):
    if a.startswith("__"): raise AttributeError(a)
    raise Unsupported("h5py.%s" % a)
h5py.__getattr__ = _h5_getattr
