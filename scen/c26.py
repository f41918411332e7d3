"""C26: numpy arrays, views, scalars and dtypes."""
import bz2
import json
import zlib

import numpy as np

import jsonpickle
import jsonpickle.ext.numpy as jn
import vpmodels as M

MODELS = ("nparray",)
BOUNDS = ("arrays of up to 2 dimensions and 4 elements with symbolic contents, of integer, boolean, "
          "float, bytes, object and structured dtypes in both byte orders, C and Fortran order; "
          "views of them by slicing, reversing, transposing, reshaping; every threshold around the size")
ASSUMPTIONS = ["the layout of arrays is computed by numpy itself",
               "the bytes of a float are determined by the float and the other way round",
               "compress and decompress of zlib and bz2 are inverse to each other"]

SHAPES = [(), (1,), (2,), (2, 2), (0,), (2, 0), (1, 2), (3,), (0, 2)]
DTYPES = ["<i4", ">i4", "i1", "u2", "?", "S2", "f8", ">f8", "O", "struct", "mixed"]
STRUCT = {"struct": np.dtype([("a", "<i2"), ("b", "?")]),
          "mixed": np.dtype([("a", "<i2"), ("b", ">i2")])}
COMP = {"zlib": zlib, "bz2": bz2, "none": None}


def dtype_of(k):
    return STRUCT[k] if k in STRUCT else np.dtype(k)


def item(S, k, name):
    d = dtype_of(k)
    if k in STRUCT:
        return (S.int(name + ".a", -(2 ** 15), 2 ** 15 - 1),
                S.bool(name + ".b") if k == "struct" else S.int(name + ".b", -(2 ** 15), 2 ** 15 - 1))
    if d.kind == "i":
        n = 8 * d.itemsize - 1
        return S.int(name, -(2 ** n), 2 ** n - 1)
    if d.kind == "u":
        return S.int(name, 0, 2 ** (8 * d.itemsize) - 1)
    if d.kind == "b":
        return S.bool(name)
    if d.kind == "f":
        return S.float(name)
    if d.kind == "S":
        return S.bytes(name, 2)
    kind = S.pick(name + ".o", ["leaf", "list", "object"]) if name[-1] == "1" else "int"
    if kind == "leaf":
        return S.leaf(name)
    v = S.int(name)
    if kind == "object":
        o = M.Plain()
        o.a = v
        return o
    return [v, 1] if kind == "list" else v


def make(S, k, shape, order, name="v"):
    """An array that owns its memory."""
    n = [0]

    def nest(dims):
        if not dims:
            n[0] += 1
            return item(S, k, "%s%d" % (name, n[0]))
        return [nest(dims[1:]) for _ in range(dims[0])]
    if k == "O" or 0 in shape:
        a = np.empty(shape, dtype_of(k), order=order)
        for idx in np.ndindex(*shape):
            n[0] += 1
            a[idx] = item(S, k, "%s%d" % (name, n[0])) if shape else S.int(name)
        return a
    return np.array(nest(shape), dtype=dtype_of(k), order=order)


def same_array(S, a, r, what):
    S.check(type(r) is np.ndarray, what + ": class")
    S.check(r.shape == a.shape, what + ": shape")
    S.check(r.dtype == a.dtype, what + ": dtype")
    S.check(r.flags.writeable == a.flags.writeable, what + ": writeable")
    S.iso(a.tolist(), r.tolist(), what + ": contents")


def setup(S, size, mode="warn", n=""):
    t = S.pick("threshold" + n, ["default", None, "size", "below"])
    c = S.pick("compression" + n, S.p("compression", ["zlib", "none"])) if t == "below" else "zlib"
    kw = {} if t == "default" else {
        "ndarray_size_threshold": None if t is None else size if t == "size" else max(size - 1, 0)}
    jn.register_handlers(ndarray_mode=mode, ndarray_compression=COMP[c], **kw)
    how = "text" if t in (None, "size") else "binary" if t == "below" and size else "default"
    S.reach(how)
    return how


def own(S):
    """Arrays that own their memory."""
    k = S.pick("dtype", S.p("dtypes"))
    shape = S.pick("shape", S.p("shapes"))
    order = S.pick("order", ["C", "F"]) if len(shape) == 2 else "C"
    a = make(S, k, shape, order)
    if S.flag("readonly"):
        a.flags.writeable = False
    how = setup(S, a.size)
    where = S.pick("where", ["top", "list"])
    x = [0]
    doc = a if where == "top" else [x, a, x, a]
    s = jsonpickle.encode(doc)
    if where == "top" and k != "O":
        v = json.loads(s)["values"]
        S.check(how == "binary" if isinstance(v, str) else how != "binary", "representation")
    r = jsonpickle.decode(s)
    S.check(not S.warned(), "warning")
    if where == "list":
        S.check(r[3] is r[1], "shared array")
        S.check(r[2] is r[0] and r[0] == [0], "list around it")
        r = r[1]
    same_array(S, a, r, "array")
    S.check(r.flags.c_contiguous == a.flags.c_contiguous, "order")
    S.check(r.flags.f_contiguous == a.flags.f_contiguous, "Fortran order")
    S.reach(k)


def cast(d):
    return lambda b: b.view(d) if b.flags.c_contiguous and not b.dtype.hasobject else b[...]


VIEWS = {
    "all": lambda b: b[...],
    "tail": lambda b: b[1:],
    "reversed": lambda b: b[::-1],
    "stepped": lambda b: b[::2],
    "transposed": lambda b: b.T,
    "flat": lambda b: b.reshape(-1) if b.flags.c_contiguous else b.T.reshape(-1),
    "column": lambda b: b[..., 0:1],
    "point": lambda b: b[(slice(0, 1),) * b.ndim].reshape(()),
    "bytes": cast("u1"),
    "swapped": cast(">i2"),
    "little": cast("<u2"),
}


def views(S):
    """Views keep sharing the memory of their base."""
    k = S.pick("dtype", S.p("dtypes"))
    shape = S.pick("shape", S.p("shapes"))
    order = S.pick("order", ["C", "F"]) if len(shape) == 2 else "C"
    b = make(S, k, shape, order)
    kind = S.pick("view", S.p("views"))
    v = VIEWS[kind](b)
    S.assume(v.base is b)
    doc = S.pick("doc", ["base first", "view first", "view only", "two views"])
    if doc != "two views" and S.flag("readonly"):
        v.flags.writeable = False
    setup(S, S.pick("of", [b.size, v.size]) if b.size != v.size else b.size)
    x = [1]
    if doc == "base first":
        d = [b, v, x, x]
    elif doc == "view first":
        d = [v, b, x, x]
    elif doc == "two views":
        w = b[...]
        d = [v, w, x, x]
    else:
        d = [v, None, x, x]
    r = jsonpickle.decode(jsonpickle.encode(d))
    S.check(not S.warned(), "warning")
    S.check(r[2] == [1] and r[3] is r[2], "objects behind the arrays")
    S.reach(doc)
    S.reach(kind)
    for i, a in enumerate(d[:2]):
        if a is not None:
            same_array(S, a, r[i], "array %d" % i)
    if d[1] is not None and v.size:
        S.check(r[1].ctypes.data - r[0].ctypes.data == d[1].ctypes.data - d[0].ctypes.data,
                "memory not shared as before")
        strides = [s for s, n in zip(v.strides, v.shape) if n > 1]
        q = r[0] if d[0] is v else r[1]
        S.check([s for s, n in zip(q.strides, q.shape) if n > 1] == strides, "strides")


def buffers(S):
    """Arrays over bytes, bytearrays and memoryviews."""
    kind = S.pick("buffer", ["bytes", "bytearray", "memoryview", "of array"])
    k = S.pick("dtype", S.p("dtypes"))
    d = dtype_of(k)
    n = S.pick("n", [1, 2])
    skip = S.pick("skip", [0, 1])
    raw = S.bytes("raw", n * d.itemsize + skip)
    if kind == "bytearray":
        raw = bytearray(raw)
    elif kind == "memoryview":
        raw = memoryview(raw)
    elif kind == "of array":
        raw = memoryview(np.frombuffer(raw, "u1").copy())
    a = np.frombuffer(raw, d, n, skip)
    mode = S.pick("mode", ["warn", "ignore", "raise"])
    x = [S.int("x")]
    setup(S, n, "warn")
    s = jsonpickle.encode([x, a, a, x])
    copied = bool(S.warned())
    S.reach("copied" if copied else "kept")
    if mode != "warn":
        setup(S, n, mode, ".2")
        before = len(S.warned())
        try:
            s = jsonpickle.encode([x, a, a, x])
        except ValueError:
            S.check(mode == "raise" and copied, "refused")
            return
        S.check(mode == "ignore" or not copied, "not refused")
        S.check(len(S.warned()) == before, "warning")
    r = jsonpickle.decode(s)
    S.check(r[2] is r[1] and r[3] is r[0], "sharing")
    S.same(x, r[0], "list before")
    q = r[1]
    S.check(type(q) is np.ndarray and q.shape == a.shape and q.dtype == d, "array")
    S.check(q.tobytes() == a.tobytes(), "contents")
    S.reach(kind)
    S.reach(mode)


def scalars(S):
    """Scalars and dtypes."""
    k = S.pick("dtype", ["<i4", "i1", "u2", "?", "S2", "f8", "i8", "u8", "dtype"])
    jn.register_handlers()
    if k == "dtype":
        d = dtype_of(S.pick("d", DTYPES + ["M8[s]", "U3", "c16"]))
        r = jsonpickle.decode(jsonpickle.encode([d, S.int("i"), d]))
        S.check(isinstance(r[0], np.dtype) and r[0] == d, "dtype")
        S.check(r[2] is r[0] or r[2] == r[0], "dtype again")
        S.reach("dtype")
        return
    a = np.array([item(S, k, "v"), item(S, k, "w")], dtype=dtype_of(k))
    s = a[S.pick("i", 2)]
    x = [S.int("x")]
    r = jsonpickle.decode(jsonpickle.encode([x, s, x, {"k": s}]))
    S.check(type(r[1]) is type(s), "class")
    S.same(s.tolist(), r[1].tolist(), "value")
    S.same(s.tolist(), r[3]["k"].tolist(), "value again")
    S.check(r[2] is r[0], "objects around it")
    S.reach(k)


SCENARIOS = [
    dict(name="own", fn=own, quick=dict(dtypes=DTYPES, shapes=SHAPES[:6]),
         thorough=dict(dtypes=DTYPES, shapes=SHAPES, compression=list(COMP)),
         reach=["text", "binary", "default"] + DTYPES, sample=4),
    dict(name="views", fn=views,
         quick=dict(dtypes=["<i4", ">i4", "mixed", "O"], shapes=[(2, 2), (3,)], views=list(VIEWS)),
         thorough=dict(dtypes=DTYPES, shapes=[(2,), (2, 2), (3,), (1, 2), (2, 3)], views=list(VIEWS)),
         reach=["base first", "view first", "view only", "two views"] + list(VIEWS), sample=4),
    dict(name="buffers", fn=buffers, quick=dict(dtypes=["<i2", ">i2", "struct", "u1"]),
         thorough=dict(dtypes=["<i2", ">i2", "struct", "mixed", "u1", "<i4", "S2"]),
         reach=["bytes", "bytearray", "memoryview", "of array", "kept", "warn", "ignore"], sample=4),
    dict(name="scalars", fn=scalars, quick={}, thorough={},
         reach=["<i4", "i1", "?", "dtype"], sample=4),
]
