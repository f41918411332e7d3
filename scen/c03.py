"""C03: keys=True round-trips arbitrary dict keys; keys=False coerces them."""
import jsonpickle
import vpmodels as M
from graphs import TAGS

BOUNDS = ("dicts (plain and subclass) of up to `width` entries, nested once; keys: unbounded "
          "symbolic strings, integers, floats, booleans, None, bytes, tuples and instances; values "
          "leaves, new lists, or references to earlier objects, keys and the dict itself")

# keys that are singletons; in `coerced` also some that C03 does not ask to round-trip
MEMBERS = {"level": M.Level.HIGH, "color": M.Color.BLUE}
ODD = {"intstr": M.IntStr(4), "floatsub": M.FloatStr(0.5), "frozenset": frozenset([3]),
       "class": M.HKey, "complex": 1 + 2j, "range": range(3), "bytestr": M.BytesStr(b"x")}
KINDS = ["str", "int", "float", "bool", "none", "bytes", "tuple", "inst", "insttuple", "strtuple"]
SINGLES = list(MEMBERS)


def make_key(S, path, kind, objs):
    if kind == "str":
        return S.str(path + ".s")
    if kind == "int":
        return S.int(path + ".i")
    if kind == "float":
        return S.float(path + ".f")
    if kind == "bool":
        return S.flag(path + ".b")
    if kind == "none":
        return None
    if kind == "bytes":
        return S.bytes(path + ".y")
    if kind == "tuple":
        return (S.int(path + ".t"), None)
    if kind == "strtuple":
        return (S.str(path + ".ts"),)
    if kind in MEMBERS:
        objs.append(MEMBERS[kind])
        return MEMBERS[kind]
    o = M.HKey(S.int(path + ".a"))
    objs.append(o)
    if kind == "inst":
        return o
    return (o, 1)


def dunder(S):
    """A dict subclass with any one string key."""
    d = M.DictSub()
    d[S.str("k")] = 7
    both(S, d)


def fill(S, d, path, n, kinds, objs, used):
    for i in range(n):
        p = "%s%d" % (path, i)
        kind = S.pick(p + "k", kinds)
        k = make_key(S, p, kind, objs)
        used.add(kind)
        if kind == "str":
            if type(d) is not dict:
                S.distinct(k, ["__dict__"])
            S.distinct(k, [x for x in d if isinstance(x, str)])
        else:
            for x in d:
                if not isinstance(x, str):
                    S.assume(k != x)
        d[k] = value(S, p, objs)


def value(S, p, objs):
    o = S.pick(p + "v", ["leaf", "list"] + list(range(len(objs))))
    if o == "leaf":
        return 7
    if o == "list":
        v = [S.int(p + ".e")]
        objs.append(v)
        return v
    return objs[o]


def container(S):
    return S.pick("cls", [dict, M.DictSub])()


def both(S, v):
    r = jsonpickle.decode(jsonpickle.encode(v, keys=True), keys=True)
    S.obs(r)
    S.iso(v, r, "decode(encode(d, keys=True), keys=True) differs", order=False)


def one(S):
    """One dict, any mix of keys, values that refer to keys and earlier values."""
    d = container(S)
    objs = [d]
    used = set()
    fill(S, d, "k", S.pick("n", S.p("width")) + 1, KINDS + SINGLES, objs, used)
    both(S, d)
    for u in used:
        S.reach(u)


def nested(S):
    """A dict inside a dict, list or instance, then a reference to an object in it."""
    d = {}
    objs = []
    fill(S, d, "k", S.p("inner"), KINDS, objs, set())
    o = S.pick("outer", ["list", "dict", "plain", "tuple", "key"])
    last = objs[S.pick("ref", len(objs))] if objs else d
    if o == "list":
        v = [d, last, d]
    elif o == "tuple":
        v = (d, last)
    elif o == "dict":
        v = {"a": d, 5: last, "b": d}
    elif o == "key":
        kk = M.Plain()
        kk.a = d
        v = {kk: last, "z": kk, 3: d}
    else:
        v = M.Plain()
        v.a = d
        v.b = last
    both(S, v)


def coerced(S):
    """keys=False."""
    d = {}
    kind = S.pick("k", KINDS + SINGLES + list(ODD))
    k = ODD[kind] if kind in ODD else make_key(S, "k", kind, [])
    d[k] = S.int("v")
    if S.flag("more"):
        d["other"] = 5
        if kind == "str":
            S.assume(k != "other")
    unp = S.flag("unpicklable")
    if kind == "str":
        for t in TAGS:
            S.assume(k != t)
    flat = jsonpickle.Pickler(unpicklable=unp).flatten(d)
    S.obs([type(x).__name__ for x in flat])
    if kind == "str":
        want = k
    elif kind == "none":
        want = "null"
    else:
        want = repr(k)
    S.check(len(flat) == len(d), "an entry was lost or added")
    keys = list(flat)
    S.same(want, keys[0], "key not kept or coerced as documented")
    S.same(d[k], flat[keys[0]], "value under coerced key differs")


def twins(S):
    """Keys that are distinct by identity only."""
    d = {}
    for i in range(2):
        k = M.Plain()
        k.a = S.int("a%d" % i)
        d[k] = i
    both(S, d)


def classify(scenario, values, what):
    if scenario == "twins" and values.get("a0", 0) == values.get("a1", 0):
        return "twin-instance-keys"
    if scenario == "dunder" and values.get("k") == "__dict__":
        return "dict-subclass-dunder-dict-key"
    return None


def large(S):
    """Many keys, and keys with many parts."""
    kind = S.pick("kind", ["str", "int", "tuple", "inst", "mixed", "deep", "long"])
    n = S.pick("n", [10, 21, 70, 150])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    d = container(S)
    for i in range(n):
        if kind in ("deep", "long"):
            break
        k = "mixed" if kind == "mixed" else kind
        if k == "mixed":
            k = ["str", "int", "tuple", "inst"][i % 4]
        k = "json://%d" % i if k == "str" else i if k == "int" else (i, "t") if k == "tuple" else M.HKey(i)
        d[k] = x if i == at else i
    if kind == "deep":
        k = S.int("k")
        for i in range(n):
            k = (k,)
        d[k] = x
    elif kind == "long":
        d[tuple([S.int("k") if i == at else i for i in range(n)])] = x
    both(S, [d, x, d])


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="one", fn=one, quick=dict(width=2), thorough=dict(width=3), reach=KINDS),
    dict(name="nested", fn=nested, quick=dict(inner=2)),
    dict(name="coerced", fn=coerced, quick={}),
    dict(name="twins", fn=twins, quick={}),
    dict(name="dunder", fn=dunder, quick={}),
]
