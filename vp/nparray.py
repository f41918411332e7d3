"""numpy arrays and scalars with symbolic contents.

The layout (shape, strides, offsets, byte order, base, flags) is that of a real array, made by
numpy itself; the contents are symbolic bytes found by memory address.  Views therefore share
symbolic contents exactly where the real arrays share memory.
"""
import ctypes

import numpy as np
import z3

from . import hooks, sym, vec
from .natives import Native
from .sym import (SymBool, SymByteArray, SymBytes, SymFloat, SymInt, concretize,
                  concretize_deep, conj, eq, force)

REGIONS = []      # (address, cells, owner)
BYREP = {}        # id of a real object -> (it, its stand-in)
KEPT = {}         # z3 id -> (term, little-endian codes, signed)
FLOATS = {}       # z3 id of a byte term -> (float term, position, term)


def reset():
    REGIONS.clear()
    BYREP.clear()
    KEPT.clear()
    FLOATS.clear()


def region(addr, size=1):
    for r in reversed(REGIONS):
        if r[0] <= addr and addr + size <= r[0] + len(r[1]):
            return r
    return None


def code(c):
    return c.code if type(c) is vec.Ch else c


def address(rep):
    return rep.__array_interface__["data"][0]


def places(rep):
    """(index, address) of every element in C order."""
    a = address(rep)
    for idx in np.ndindex(*rep.shape):
        yield idx, a + sum(i * s for i, s in zip(idx, rep.strides))


def own(rep, cells):
    REGIONS.append((address(rep), cells, rep))


def stand_in(rep):
    x = BYREP.get(id(rep))
    if x is None:
        x = BYREP[id(rep)] = (rep, SymNd(rep))
    return x[1]


def wrapped(rep):
    """Stand-in for a real array when its memory has symbolic contents."""
    if type(rep) is np.ndarray and rep.size and region(address(rep)) is not None:
        return stand_in(rep)
    return rep


# --------------------------------------------------------------------------- elements
def little(dtype, cells):
    big = dtype.byteorder == ">" or dtype.byteorder == "=" and np.little_endian is False
    return list(reversed(cells)) if big else list(cells)


def value(dtype, cells):
    """Python value of one element, as tolist() gives it."""
    cells = [code(c) for c in cells]
    if all(type(c) is int for c in cells):
        return np.frombuffer(bytes(cells), dtype)[0].tolist()
    if dtype.fields:
        return tuple([value(dtype.fields[n][0], cells[dtype.fields[n][1]:][
            :dtype.fields[n][0].itemsize]) for n in dtype.names])
    k = dtype.kind
    if k in "iu":
        le = little(dtype, cells)
        for e, cs, signed in KEPT.values():
            if signed == (k == "i") and len(cs) == len(le) and all(
                    a is b or type(a) is type(b) is int and a == b or
                    type(a) is not int and type(b) is not int and a.eq(b) for a, b in zip(cs, le)):
                return SymInt(e)
        e = sum((vec.term(c) * (1 << 8 * i) for i, c in enumerate(le)), z3.IntVal(0))
        if k == "i":
            top = vec.term(le[-1])
            e = z3.If(top >= 128, e - (1 << 8 * len(le)), e)
        e = z3.simplify(e)
        KEPT[e.get_id()] = (e, le, k == "i")
        return SymInt(e)
    if k == "b":
        return sym.mkbool(z3.simplify(vec.term(cells[0]) != 0))
    if k == "S":
        b = vec.data(cells)
        return b.rstrip(b"\0")
    if k == "f":
        le = little(dtype, cells)
        src = [FLOATS.get(c.get_id()) if type(c) is not int else None for c in le]
        if all(s is not None and s[0].eq(src[0][0]) and s[1] == (i, len(le))
               for i, s in enumerate(src)):
            return SymFloat(src[0][0])
    raise Concrete


class Concrete(Exception):
    """The operation needs concrete contents."""


def element(dtype, v):
    """Cells of one element holding a value."""
    v = force(v)
    if type(v) is SymScalar:
        v = v.tolist()
    if dtype.fields and type(v) is tuple and len(v) == len(dtype.names):
        cells = [0] * dtype.itemsize
        for n, x in zip(dtype.names, v):
            sub, at = dtype.fields[n][:2]
            cells[at:at + sub.itemsize] = element(sub, x)
        return cells
    if type(v) not in sym.SYM:
        return list(np.array(v, dtype=dtype).tobytes())
    k = dtype.kind
    if k in "iu":
        if type(v) is SymBool:
            v = v.as_int()
        if type(v) is not SymInt:
            raise Concrete
        n = dtype.itemsize
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if k == "i" else (0, (1 << 8 * n) - 1)
        if not (lo <= v and v <= hi):
            raise OverflowError("Python integer out of bounds for %s" % dtype)
        kept = KEPT.get(z3.simplify(v.e).get_id())
        if kept is not None and len(kept[1]) == n and kept[2] == (k == "i"):
            le = kept[1]
        else:
            e = z3.simplify(v.e)
            le = []
            for i in range(n):
                le.append(z3.simplify(vec.div(e, 1 << 8 * i) % 256) if i else z3.simplify(e % 256))
            KEPT[e.get_id()] = (e, le, k == "i")
        return little(dtype, le)
    if k == "b":
        if type(v) is SymInt:
            v = v != 0
        if type(v) is not SymBool:
            raise Concrete
        return [z3.If(v.e, z3.IntVal(1), z3.IntVal(0))]
    if k == "S":
        if type(v) is SymByteArray:
            v = v.b
        if type(v) is not SymBytes:
            raise Concrete
        cs = vec.codes(v)
        if cs is None:
            raise Concrete
        cs = [code(c) for c in cs[:dtype.itemsize]]
        return cs + [0] * (dtype.itemsize - len(cs))
    if dtype == np.dtype("f8") or dtype == np.dtype(">f8"):
        if type(v) is not SymFloat:
            raise Concrete
        e = z3.simplify(v.e)
        le = []
        for i in range(8):
            c = z3.Int("f8!%d!%d" % (e.get_id(), i))
            FLOATS[c.get_id()] = (e, (i, 8), c)
            le.append(c)
        return little(dtype, le)
    raise Concrete


class SymNd(Native):
    __slots__ = ("rep_",)
    cls = np.ndarray

    def __init__(self, rep):
        self._h = sym.ENG.next_serial()
        self.rep_ = rep
        BYREP[id(rep)] = (rep, self)

    def rep(self):
        return self.rep_

    def cells(self, addr):
        n = self.rep_.itemsize
        r = region(addr, n)
        return r[1][addr - r[0]:addr - r[0] + n]

    def terms(self):
        out = []
        for _, a in places(self.rep_):
            out.extend(code(c) for c in self.cells(a) if type(code(c)) is not int)
        return out

    def real(self, f):
        """Fill the memory of the real array."""
        if f is sym.evaluate:
            rep = self.rep_.copy()
            flat = bytearray()
            for _, a in places(self.rep_):
                flat += bytes(byte_of(c, f) for c in self.cells(a))
            return np.frombuffer(bytes(flat), self.rep_.dtype).reshape(rep.shape)
        for _, a in places(self.rep_):
            r = region(a, self.rep_.itemsize)
            for i in range(a - r[0], a - r[0] + self.rep_.itemsize):
                c = byte_of(r[1][i], f)
                r[1][i] = c
                ctypes.memset(r[0] + i, c, 1)
        return self.rep_

    def plain(self, why):
        return concretize(self, why)

    # -- layout
    shape = property(lambda s: s.rep_.shape, lambda s, v: setattr(s.rep_, "shape", v))
    strides = property(lambda s: s.rep_.strides)
    ndim = property(lambda s: s.rep_.ndim)
    size = property(lambda s: s.rep_.size)
    itemsize = property(lambda s: s.rep_.itemsize)
    nbytes = property(lambda s: s.rep_.nbytes)
    flags = property(lambda s: s.rep_.flags)
    ctypes = property(lambda s: s.rep_.ctypes)
    dtype = property(lambda s: s.rep_.dtype, lambda s, v: setattr(s.rep_, "dtype", v))
    T = property(lambda s: s.derived(s.rep_.T))
    __array_interface__ = property(lambda s: s.rep_.__array_interface__)

    @property
    def base(self):
        b = self.rep_.base
        if b is None:
            return None
        x = BYREP.get(id(b))
        if x is not None:
            return x[1]
        if type(b) is memoryview:
            return SymBuffer(b)
        return wrapped(b)

    @property
    def data(self):
        return SymBuffer(self.rep_.data)

    def setflags(self, *a, **k):
        return self.rep_.setflags(*a, **k)

    # -- contents
    def tolist(self):
        vals = {}
        try:
            for idx, a in places(self.rep_):
                vals[idx] = value(self.rep_.dtype, self.cells(a))
        except Concrete:
            return self.plain("array contents").tolist()

        def nest(pre):
            if len(pre) == self.rep_.ndim:
                return vals[pre]
            return [nest(pre + (i,)) for i in range(self.rep_.shape[len(pre)])]
        return nest(())

    def item(self, *a):
        if not a and self.rep_.size == 1:
            for _, p in places(self.rep_):
                return value(self.rep_.dtype, self.cells(p))
        return self[a[0] if len(a) == 1 else a].tolist()

    def tobytes(self, order="C"):
        rep = self.rep_
        if order in ("A", "K", "a", "k"):
            order = "F" if rep.flags.f_contiguous and not rep.flags.c_contiguous else "C"
        if order in ("F", "f"):
            rep = rep.T
        out = []
        for _, a in places(rep):
            out.extend(self.cells(a))
        return vec.data([code(c) for c in out])

    tostring = None

    def derived(self, rep, f=None):
        """Stand-in for what an operation that only moves elements made of the real array."""
        if not isinstance(rep, np.ndarray):
            return rep
        r = region(address(rep)) if rep.size else None
        if not rep.size or r is not None:
            return stand_in(rep) if rep.size else rep
        # a copy: follow the elements by their numbers
        src = self.rep_
        nums = np.empty_like(src, dtype=np.int64)
        addr = []
        for i, (idx, a) in enumerate(places(src)):
            nums[idx] = i
            addr.append(a)
        moved = f(nums)
        cells = [0] * rep.nbytes
        n = rep.itemsize
        start = address(rep)
        if moved.shape != rep.shape or rep.itemsize != src.itemsize:
            raise Concrete
        for idx, a in places(rep):
            cells[a - start:a - start + n] = self.cells(addr[moved[idx]])
        own(rep, cells)
        return SymNd(rep)

    def move(self, f):
        try:
            return self.derived(f(self.rep_), f)
        except Concrete:
            return f(self.plain("array operation"))

    def copy(self, order="C"):
        return self.move(lambda r: r.copy(order=order))

    def flatten(self, order="C"):
        return self.move(lambda r: r.flatten(order))

    def ravel(self, order="C"):
        return self.move(lambda r: r.ravel(order))

    def reshape(self, *a, **k):
        a, k = concretize_deep(a, "reshape"), concretize_deep(k, "reshape")
        return self.move(lambda r: r.reshape(*a, **k))

    def transpose(self, *a):
        return self.move(lambda r: r.transpose(*a))

    def squeeze(self, *a):
        return self.move(lambda r: r.squeeze(*a))

    def swapaxes(self, *a):
        return self.move(lambda r: r.swapaxes(*a))

    def view(self, *a, **k):
        return self.derived(self.rep_.view(*a, **k))

    def byteswap(self, inplace=False):
        return self.plain("byteswap").byteswap(inplace)

    def astype(self, dtype, *a, **k):
        dtype = np.dtype(dtype)
        if dtype == self.rep_.dtype and not a and k.get("order", "K") == "K":
            return self.copy("K")
        if dtype == object:
            r = self.rep_.astype(dtype, *a, **k)
            for idx, p in places(self.rep_):
                r[idx] = value(self.rep_.dtype, self.cells(p))
            return r
        return m_array(self.tolist(), dtype=dtype, order="F" if k.get("order", "K") in "KA" and (
            self.rep_.flags.f_contiguous and not self.rep_.flags.c_contiguous) else "C")

    def __getitem__(self, i):
        i = concretize_deep(i, "array index")
        r = self.rep_[i]
        if isinstance(r, np.ndarray):
            return self.move(lambda x: x[i])
        full = i if type(i) is tuple else (i,)
        full = tuple(x for x in full if x is not Ellipsis)
        if len(full) != self.rep_.ndim:
            return self.plain("array index")[i]
        a = address(self.rep_) + sum((x % n) * s for x, n, s in zip(
            full, self.rep_.shape, self.rep_.strides))
        return SymScalar(self.rep_.dtype, self.cells(a))

    def __setitem__(self, i, v):
        i = concretize_deep(i, "array index")
        if not self.rep_.flags.writeable:
            raise ValueError("assignment destination is read-only")
        if not isinstance(self.rep_[i], np.ndarray):
            full = tuple(x for x in (i if type(i) is tuple else (i,)) if x is not Ellipsis)
            a = address(self.rep_) + sum((x % n) * s for x, n, s in zip(
                full, self.rep_.shape, self.rep_.strides))
            try:
                cs = element(self.rep_.dtype, v)
            except Concrete:
                cs = element(self.rep_.dtype, concretize(v, "array item"))
            r = region(a)
            r[1][a - r[0]:a - r[0] + len(cs)] = cs
            return
        self.plain("array assignment")[i] = concretize_deep(v, "array assignment")

    def __len__(self):
        return len(self.rep_)

    def length(self):
        return len(self.rep_)

    def __iter__(self):
        return iter([self[i] for i in range(len(self.rep_))])

    def __bool__(self):
        return bool(self.plain("truth of an array"))

    def equal(self, o):
        if type(o) is np.ndarray:
            if o.shape != self.rep_.shape:
                return False
            return conj([eq(a, b) for a, b in zip(flat(self.tolist()), flat(o.tolist()))])
        if type(o) is not SymNd or o.shape != self.shape:
            return False
        return conj([eq(a, b) for a, b in zip(flat(self.tolist()), flat(o.tolist()))])

    def __repr__(self):
        return "<array %s %s>" % (self.rep_.dtype, self.rep_.shape)

    __str__ = __repr__


def byte_of(c, f):
    c = code(c)
    return c if type(c) is int else f(SymInt(c))


def flat(v):
    if type(v) is not list:
        return [v]
    return [y for x in v for y in flat(x)]


class SymBuffer(Native):
    """memoryview of an array or of bytes."""
    __slots__ = ("view",)
    cls = memoryview

    def __init__(self, view):
        self._h = sym.ENG.next_serial()
        self.view = view
        BYREP[id(view)] = (view, self)

    def rep(self):
        return self.view

    def array(self):
        return np.frombuffer(self.view, np.uint8) if self.view.c_contiguous and (
            self.view.nbytes) else np.ndarray(self.view.nbytes, np.uint8, self.view)

    def tobytes(self, order="C"):
        a = np.asarray(self.view)
        x = wrapped(a)
        return x.tobytes(order or "C")

    obj = property(lambda s: wrapped(s.view.obj))

    def terms(self):
        x = wrapped(np.asarray(self.view))
        return x.terms() if type(x) is SymNd else []

    def real(self, f):
        x = wrapped(np.asarray(self.view))
        if type(x) is SymNd:
            x.real(f)
        return self.view

    def equal(self, o):
        return eq(self.tobytes(), o.tobytes() if type(o) in (memoryview, SymBuffer) else o)


class SymScalar(Native):
    """numpy scalar."""
    __slots__ = ("dtype", "cs")

    @property
    def cls(self):
        return self.dtype.type

    def __init__(self, dtype, cells):
        self._h = sym.ENG.next_serial()
        self.dtype = dtype.newbyteorder("=")
        if dtype.byteorder == ">":
            cells = list(reversed(cells))
        self.cs = [code(c) for c in cells]

    def rep(self):
        return np.zeros((), self.dtype)[()]

    def terms(self):
        return [c for c in self.cs if type(c) is not int]

    def real(self, f):
        return np.frombuffer(bytes(byte_of(c, f) for c in self.cs), self.dtype)[0]

    def tolist(self):
        try:
            return value(self.dtype, self.cs)
        except Concrete:
            return concretize(self, "numpy scalar").tolist()

    item = tolist

    def tobytes(self, order="C"):
        return vec.data(self.cs)

    def __bool__(self):
        return bool(self.tolist() != 0)

    def __int__(self):
        return self.tolist()

    def equal(self, o):
        if type(o) is SymScalar or isinstance(o, np.generic):
            return eq(self.tolist(), o.tolist())
        return eq(self.tolist(), o)

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        return concretize(self, "index of a numpy scalar")[i]


# --------------------------------------------------------------------------- constructors
def symbolic(v):
    v = force(v)
    t = type(v)
    if t in sym.SYM:
        return True
    if t in (list, tuple):
        return any(symbolic(x) for x in v)
    return False


def m_array(object, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    object = force(object)
    if type(object) is SymNd:
        if (dtype is None or np.dtype(dtype) == object.dtype) and not ndmin:
            if not copy and order in ("K", "A"):
                return object
            return object.copy(order)
        object = object.tolist()
    if not symbolic(object):
        return np.array(object, dtype, copy=copy, order=order, subok=subok, ndmin=ndmin)
    dtype = None if dtype is None else np.dtype(dtype)
    try:
        if dtype is None or ndmin:
            raise Concrete
        leaves = {}
        zero = np.zeros((), dtype)[()].tolist() if dtype != np.dtype("O") else None

        def skel(v, idx):
            if type(v) is list or type(v) is tuple and not dtype.fields:
                return [skel(x, idx + (i,)) for i, x in enumerate(v)]
            leaves[idx] = v
            return zero
        rep = np.array(skel(object, ()), dtype=dtype, order=order)
        if dtype == np.dtype("O"):
            for idx, v in leaves.items():
                if len(idx) != rep.ndim:
                    raise Concrete
                rep[idx] = v
            return rep
        if set(leaves) != {i for i, _ in places(rep)}:
            raise Concrete
        cells = [0] * rep.nbytes
        start = address(rep)
        rep[...] = np.zeros((), dtype)
        for idx, a in places(rep):
            cs = element(dtype, leaves[idx])
            cells[a - start:a - start + dtype.itemsize] = cs
    except Concrete:
        object = concretize_deep(object, "numpy.array")
        return np.array(object, dtype, copy=copy, order=order, subok=subok, ndmin=ndmin)
    own(rep, cells)
    return SymNd(rep)


def buffer_of(b):
    """Real object with the buffer protocol standing for symbolic bytes."""
    b = force(b)
    if type(b) is SymBuffer:
        return b.view
    if type(b) is SymNd:
        return b.rep_
    if type(b) is SymScalar:
        b = b.tobytes()
    if type(b) in (SymBytes, SymByteArray):
        for rep, x in BYREP.values():
            if x is b:
                return rep
        cs = vec.codes(b)
        if cs is None:
            return concretize(b, "buffer")
        rep = bytes(len(cs)) if type(b) is SymBytes else bytearray(len(cs))
        if not cs:
            return rep
        if len(cs) == 1:
            rep = bytearray(1)      # single bytes are shared
        BYREP[id(rep)] = (rep, b)
        REGIONS.append((np.frombuffer(rep, np.uint8).ctypes.data, [code(c) for c in cs], rep))
        return rep
    return b


def m_ndarray(shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
    shape, offset, strides = (concretize_deep(x, "ndarray()") for x in (shape, offset, strides))
    return wrapped(np.ndarray(shape, dtype, buffer_of(buffer), offset, strides, order))


def m_frombuffer(buffer, dtype=float, count=-1, offset=0, *, like=None):
    return wrapped(np.frombuffer(buffer_of(buffer), dtype, count, offset))


def m_asarray(a, dtype=None, order=None, **k):
    a = force(a)
    if type(a) is SymNd and (dtype is None or np.dtype(dtype) == a.dtype):
        return a if order in (None, "K", "A") or a.flags["CF"[order == "F"] + "_CONTIGUOUS"] else a.copy(order)
    return m_array(a, dtype, order=order or "K")


def m_ascontiguous(order):
    def f(a, dtype=None, **k):
        a = m_asarray(a, dtype, order)
        return a
    return f


def m_shares(a, b, *r):
    a, b = (x.rep_ if type(x) is SymNd else x for x in (force(a), force(b)))
    return np.shares_memory(a, b, *r)


def m_memoryview(o):
    o = force(o)
    if type(o) in (SymNd, SymBytes, SymByteArray, SymBuffer):
        return SymBuffer(memoryview(buffer_of(o)))
    return memoryview(o)


def install():
    vec.OPAQUE = True
    sym.SYM |= {SymNd, SymBuffer, SymScalar}
    hooks.MODELS.update({
        np.array: m_array, np.ndarray: m_ndarray, np.frombuffer: m_frombuffer,
        np.asarray: m_asarray, np.asanyarray: m_asarray,
        np.ascontiguousarray: m_ascontiguous("C"), np.asfortranarray: m_ascontiguous("F"),
        np.shares_memory: m_shares, np.may_share_memory: m_shares, memoryview: m_memoryview,
        np.copy: lambda a, order="K", subok=False: m_array(a, copy=True, order=order)
        if type(force(a)) is SymNd else np.copy(concretize_deep(a, "numpy.copy"), order, subok),
    })
    hooks.STRICT |= {SymNd, SymBuffer, SymScalar}
    hooks.RESETS.append(reset)
