"""C22: the pandas text codec, dtype codes and object frames are lossless."""
import bz2
import zlib

import pandas as pd

import jsonpickle
import jsonpickle.ext.pandas as jp
import jsonpickle.tags_pd as tags

BOUNDS = ("code lists of up to %d codes; text of any length against any threshold; frames of up to "
          "3 columns and 2 rows, every dtype code, any cells in object columns" % 5)
ASSUMPTIONS = ["compress and decompress of zlib and bz2 are inverse to each other",
               "pandas moves the cells of object columns without looking at them"]


def runs(S):
    """Columns of few dtypes in any order."""
    jp.register_handlers()
    n = S.pick("n", S.p("cols", 4) + 1)
    data = {}
    for i in range(n):
        k = S.pick("k%d" % i, ["int64", "float64", "object", "nested"])
        data["c%d" % i] = (pd.Series(COLS[k]).astype(k) if k in COLS else pd.Series(
            [S.int("v%d" % i), None] if k == "object" else [[S.int("v%d" % i)], 1], dtype=object))
    df = pd.DataFrame(data, index=[0, 1])
    r = jsonpickle.decode(jsonpickle.encode(df))
    S.check(not S.warned(), "warning")
    if n:
        same_frame(S, r, df)
    S.check(r.shape[1] == n, "columns")
    for i in range(n):
        S.same(cells(r, i), cells(df, i), "cells")


def rle(S):
    if not hasattr(jp, "rle_encode"):
        S.reach("run")
        return
    n = S.pick("n", S.p("n", 4) + 1)
    codes = [S.str("c%d" % i) for i in range(n)]
    enc = jp.rle_encode(codes)
    dec = jp.rle_decode(enc)
    S.check(len(dec) == n, "length")
    for a, b in zip(dec, codes):
        S.check(a == b, "code")
    total = 0
    for i, run in enumerate(enc):
        S.check(len(run) == 2 and run[1] >= 1, "run")
        total = total + run[1]
        if i:
            S.check(run[0] != enc[i - 1][0], "neighbouring runs of the same code")
    S.check(total == n, "runs do not add up")
    if n >= 2 and len(enc) < n:
        S.reach("run")
    # a run-length code with any counts, as other versions may write
    k = S.pick("k", 3)
    runs = [[S.str("r%d" % i), S.int("n%d" % i, 0, 3)] for i in range(k)]
    want = []
    for c, m in runs:
        for i in range(m):
            want.append(c)
    got = jp.rle_decode(runs)
    S.check(len(got) == len(want), "decoded length")
    for a, b in zip(got, want):
        S.check(a == b, "decoded code")


def longruns(S):
    """Two long runs and what follows."""
    if not hasattr(jp, "rle_encode"):
        return
    a, b = S.str("a"), S.str("b")
    S.assume(a != b)
    sizes = [1, 10, 127, 128, 255, 256, 257, 300, 1000]
    n = S.pick("n", sizes)
    m = S.pick("m", sizes)
    codes = [a] * n + [b] * m + [a] * S.pick("last", 2)
    enc = jp.rle_encode(list(codes))
    dec = jp.rle_decode(enc)
    S.check(len(dec) == len(codes), "length")
    for x, y in zip(dec, codes):
        S.check(x is y or x == y, "code")
    S.check(len(enc) == 2 + (len(codes) > n + m), "number of runs")


def wide(S):
    """Many columns of one dtype, many rows."""
    jp.register_handlers()
    n = S.pick("cols", [9, 256, 300])
    rows = S.pick("rows", [1, 12])
    k = S.pick("odd", [None, 0, n - 1])
    data = {"c%d" % i: [i] * rows for i in range(n)}
    if k is not None:
        data["c%d" % k] = pd.Series([S.int("v")] + [None] * (rows - 1), dtype=object)
    df = pd.DataFrame(data)
    r = jsonpickle.decode(jsonpickle.encode(df))
    S.check(not S.warned(), "warning")
    same_frame(S, r, df)
    for i in (0, n // 2, n - 1):
        S.same(cells(r, i), cells(df, i), "cells")


def labels(S):
    """Names of the columns and of the index, also falsy ones."""
    jp.register_handlers()
    name = [None, "abc", 0, "", 5, False, 0.0]
    df = pd.DataFrame({"a": pd.Series([S.int("i"), [1]], dtype=object), "b": [1, 2]})
    df.columns.name = S.pick("cname", name)
    df.index = pd.Index(S.pick("rows", [["p", "q"], [0, 1], [5, 3], [0.5, 1.5]]),
                        name=S.pick("iname", name))
    r = jsonpickle.decode(jsonpickle.encode(df))
    S.check(not S.warned(), "warning")
    same_frame(S, r, df)
    for x, y in zip(list(r.columns.names) + list(r.index.names),
                    list(df.columns.names) + list(df.index.names)):
        S.check(type(x) is type(y), "type of a name")
    S.check(r.index.dtype == df.index.dtype, "index dtype")
    S.same(cells(r, 0), cells(df, 0), "object cells")


COMP = {"zlib": zlib, "bz2": bz2, "none": None}


def proc(S):
    if not hasattr(jp, "PandasProcessor"):
        S.reach("big")
        S.reach("small")
        return
    t = S.pick("threshold", ["default", "none", "int"])
    text = S.str("text") if t != "default" else "x" * S.pick("len", [0, 499, 500, 501, 2000])
    c = S.pick("compression", ["default", "zlib", "bz2", "none"])
    kw = {} if c == "default" else {"compression": COMP[c]}
    limit = 500 if t == "default" else None if t == "none" else S.int("limit", 0)
    if t != "default":
        kw["size_threshold"] = limit
    p = jp.PandasProcessor(**kw)
    data = {"extra": 1}
    m = S.pick("meta", ["none", "dict", "left out"])
    meta = {"k": S.int("m"), "l": [S.str("mt")]} if m == "dict" else None
    out = p.flatten_pandas(text, data) if m == "left out" else p.flatten_pandas(text, data, meta)
    S.check(out["extra"] == 1, "other data")
    big = False if limit is None else len(text) > limit
    if big:
        S.reach("big")
        S.check(out["txt"] is False, "long text stored as text")
        S.check(bool(out.get("comp")) == (c != "none"), "compression")
    else:
        S.reach("small")
        S.check(out["txt"] is True and out["values"] == text, "short text not stored as text")
        S.check(not out.get("comp"), "compressed")
    if S.flag("json"):
        out = jsonpickle.decode(jsonpickle.encode(out))
    again = S.pick("reader", ["same", "fresh"])
    q = p if again == "same" or c == "bz2" or c == "none" else jp.PandasProcessor()
    t2, m2 = q.restore_pandas(out)
    S.check(type(t2) is str and t2 == text, "text")
    S.same(m2, meta, "meta")
    S.obs(m2)


def codes(S):
    """Every dtype name has a code of its own that leads back to it."""
    if not hasattr(tags, "TYPE_MAP"):
        return
    names = list(tags.TYPE_MAP)
    a = S.pick("a", names)
    ca = tags.TYPE_MAP[a]
    S.check(list(tags.TYPE_MAP.values()).count(ca) == 1, "codes not distinct")
    S.check(tags.REVERSE_TYPE_MAP[ca] == a, "code does not lead back")
    S.check(ca != "py/jp" and ca != "object", "reserved code")


COLS = {"int64": [1, 2], "int8": [3, 4], "float64": [0.5, 2.0], "float32": [0.5, 2.0], "bool": [True, False],
        "str": ["p", "q"], "datetime64[ns]": [5, 6], "timedelta64[ns]": [7, 8], "category": ["u", "v"],
        "string": ["r", "s"], "uint64": [2 ** 64 - 1, 0], "complex128": [1j, 2.0], "datetime64[s]": [0, 86400],
        "int16": [1, 2], "int32": [3, 4], "uint8": [1, 2], "uint16": [1, 2], "uint32": [5, 6],
        "boolean": [True, False], "float16": [1.0, 2.0], "timedelta64[s]": [1, 2],
        "datetime64[us]": [1, 2], "datetime64[ms]": [1, 2]}
FEW = ["int64", "float64", "bool", "int8"]


def same_frame(S, r, df):
    S.check(type(r) is pd.DataFrame, "class")
    S.check(list(r.columns) == list(df.columns), "columns")
    S.check(r.columns.names == df.columns.names, "column names")
    S.check(type(r.columns) is type(df.columns), "columns class")
    S.check(r.index.tolist() == df.index.tolist(), "index")
    S.check(r.index.names == df.index.names, "index names")
    S.check([d.name for d in r.dtypes] == [d.name for d in df.dtypes], "dtypes")
    S.check(r.shape == df.shape, "shape")


def cells(r, c):
    return r.iloc[:, c].tolist()


def types(S):
    """Each supported dtype next to another column."""
    jp.register_handlers()
    t = S.pick("dtype", sorted(COLS))
    df = pd.DataFrame({"a": pd.Series(COLS[t]).astype(t), "b": pd.Series([S.int("i"), S.str("s")], dtype=object)})
    r = jsonpickle.decode(jsonpickle.encode(df))
    S.check(not S.warned(), "warning")
    same_frame(S, r, df)
    S.check(cells(r, 0) == cells(df, 0), "cells")
    S.same(cells(r, 1), cells(df, 1), "object cells")


def frame(S):
    """Object columns with any cells among typed columns."""
    jp.register_handlers()
    n = S.pick("n", S.p("cols", 2)) + 1
    data = {}
    obj = []
    kinds = S.p("kinds", ["num", "object", "nested", "long"])
    for i in range(n):
        k = S.pick("k%d" % i, kinds)
        name = S.pick("name%d" % i, ["c%d" % i, i]) if n == 1 else "c%d" % i
        if k == "num":
            t = S.pick("t%d" % i, S.p("few", 2))
            data[name] = pd.Series(COLS[FEW[t]]).astype(FEW[t])
            continue
        obj.append(i)
        a = S.leaf("a%d" % i, "nbifs" if i == 0 else S.p("leaf", "ns"))
        b = S.leaf("b%d" % i, S.p("leaf", "ns"))
        if k == "nested":
            S.reach("nested")
            j = S.pick("j%d" % i, ["list", "dict", "tuple"])
            a = [a] if j == "list" else {"k": a} if j == "dict" else (a, 1)
        elif k == "long":
            S.reach("long")
            b = "x" * 600
        data[name] = pd.Series([a, b], dtype=object)
    df = pd.DataFrame(data)
    ix = S.pick("index", ["default", "named", "multi"]) if n == 1 else "default"
    if ix == "named":
        df.index = pd.Index(["p", "q"], name=S.pick("iname", ["abc", 5]))
        df.columns.name = "cols"
    elif ix == "multi":
        df.index = pd.MultiIndex.from_tuples([(1, "a"), (2, "b")], names=["u", None])
    r = jsonpickle.decode(jsonpickle.encode(df))
    S.check(not S.warned(), "warning")
    same_frame(S, r, df)
    for i in range(n):
        if i in obj:
            S.same(cells(r, i), cells(df, i), "object cells")
        else:
            S.check(cells(r, i) == cells(df, i), "cells")


def index(S):
    """Indexes and series keep their items, names and dtype."""
    jp.register_handlers()
    # a series answers attribute lookups with its labels: leave out jsonpickle's own attributes
    mixed = S.flag("object")
    items = [S.leaf("a", "nbi"), S.str("b", nopre=("_",)) if S.flag("text") else S.int("i")
             ] if mixed else [7, 8]
    name = S.pick("name", [None, "abc", 5, ("t", 1)])
    dtype = object if mixed else "int64"
    x = pd.Index(items, name=name, dtype=dtype)
    v = S.pick("what", ["index", "series", "multi"])
    if v == "series":
        S.reach("series")
        x = pd.Series([1, 2], index=x, name=S.pick("sname", [None, "abc", 5]))
    elif v == "multi":
        x = pd.MultiIndex.from_tuples([(1, "a"), (2, "b")], names=[name, "z"] if type(name) is not tuple
                                      else [None, "z"])
    r = jsonpickle.decode(jsonpickle.encode([x, 5]))
    S.check(r[1] == 5, "the rest")
    r = r[0]
    S.check(type(r) is type(x), "class")
    if v == "series":
        S.check(r.name == x.name and r.tolist() == [1, 2], "series")
        r, x = r.index, x.index
    S.check(r.names == x.names, "names")
    S.check(r.dtype == x.dtype, "dtype")
    S.same(r.tolist(), x.tolist(), "items")


SCENARIOS = [
    dict(name="rle", fn=rle, quick={"n": 4}, thorough={"n": 6}, reach=["run"]),
    dict(name="longruns", fn=longruns, quick={}),
    dict(name="wide", fn=wide, quick={}),
    dict(name="labels", fn=labels, quick={}),
    dict(name="proc", fn=proc, quick={}, thorough={}, reach=["big", "small"]),
    dict(name="runs", fn=runs, quick={}, thorough={"cols": 6}),
    dict(name="codes", fn=codes, quick={}, thorough={}),
    dict(name="types", fn=types, quick={}, thorough={}),
    dict(name="frame", fn=frame, quick={}, thorough={"cols": 3}, reach=["nested", "long"]),
    dict(name="index", fn=index, quick={}, thorough={}, reach=["series"]),
]
