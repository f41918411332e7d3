"""C21: dicts with a default factory keep items, factory and references."""
import collections

import jsonpickle
import vpmodels as M

BOUNDS = ("one or two default dicts of up to `width` items, each a leaf, a new or shared list or "
          "instance, the dict itself or another default dict; any factory kind; item names any "
          "strings or the name of the factory attribute; objects before and after, shared")
ASSUMPTIONS = ["function factories return an equal value at each call, unrelated to the other data",
               "a factory is not itself an item somewhere in the data"]

CLASSES = {"dd": collections.defaultdict, "sub": M.FactoryDict}
TYPES = {"int": int, "list": list, "dict": dict, "plain": M.Plain, "od": collections.OrderedDict,
         "dd": collections.defaultdict, "nested": M.Outer.Inner}


def factory(S, kind, path):
    if kind == "none":
        return None
    if kind in TYPES:
        return TYPES[kind]
    if kind == "f0":
        x = S.leaf(path + ".x", "nis")
        return lambda: x
    if kind == "flist":
        x = S.int(path + ".x")
        return lambda: [x]
    if kind == "fdd":
        return lambda: collections.defaultdict(list)
    if kind == "fdd2":
        return lambda: collections.defaultdict(lambda: 0)
    if kind == "fobj":
        def make():
            p = M.Plain()
            p.a = [1]
            return p
        return make
    if kind == "maker":
        return M.Maker(S.int(path + ".x"))
    raise AssertionError(kind)


def image(v):
    """The graph with every dict and its factory spelled out."""
    memo = {}

    def fac(f):
        if id(f) in memo:
            return memo[id(f)]
        if f is None or isinstance(f, type):
            return f
        if isinstance(f, dict):
            return go(f)
        return ("makes", image(f()))

    def go(x):
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, dict):
            r = memo[id(x)] = M.Plain()
            items = []
            for k in x:
                items.append((k, go(x[k])))
            r.cls = type(x)
            r.items = tuple(items)
            if isinstance(x, collections.defaultdict) or type(x) is M.OwnFactory:
                r.factory = fac(x.default_factory)
            return r
        if type(x) is list:
            r = memo[id(x)] = []
            r.extend([go(y) for y in x])
            return r
        if type(x) is M.Plain or type(x) is M.Maker:
            r = memo[id(x)] = type(x).__new__(type(x))
            for k in x.__dict__:
                setattr(r, k, go(x.__dict__[k]))
            return r
        return x
    return go(v)


KINDS = ["none"] + sorted(TYPES) + ["f0", "flist", "fdd", "fdd2", "fobj", "maker"]


def make(S, path, fk=None):
    c = S.pick(path + "cls", S.p("classes"))
    if c == "self":
        return M.SelfFactory()
    if c == "class":
        return M.ClassFactory()
    if fk is None:
        fk = factory(S, S.pick(path + "f", S.p("factories")), path)
    if c == "own":
        d = M.OwnFactory()
        d.default_factory = fk
        return d
    return CLASSES[c](fk)


def key(S, path, d):
    k = "default_factory" if S.p("dfkey", True) and S.flag(path + "!") else S.str(
        path + "k", nopre=("py/", "json://"), neq=("__dict__",))
    S.distinct(k, d)
    return k


def fill(S, d, path, others, width=None):
    for i in range(S.p("width") if width is None else width):
        p = "%s%d" % (path, i)
        k = key(S, p, d)
        w = S.pick(p + "?", ["leaf", "list", "self"] + list(range(len(others))))
        d[k] = (S.leaf(p + "v", S.p("leaf", "ns")) if w == "leaf" else [S.int(p + "l")] if w == "list"
                else d if w == "self" else others[w])


def trip(S, v, **kw):
    text = jsonpickle.encode(v, **kw)
    r = jsonpickle.decode(text, **kw)
    S.iso(image(v), image(r), "the dict or something around it is not the same")
    return r


def one(S):
    """One dict between shared objects."""
    shared = [1]
    d = make(S, "d")
    after = M.Plain()
    fill(S, d, "i", [shared])
    after.a = d
    kw = {"keys": True} if S.flag("keys") else {}
    r = trip(S, [shared, d, after, shared, d, after] if S.flag("before") else
             [d, after, shared, shared, after, d], **kw)
    if isinstance(d, collections.defaultdict) and d.default_factory is not None:
        # it works
        S.distinct("never used before", d)
        x = r[1] if type(r[1]) is type(d) else r[0]
        n = len(x)
        y = x["never used before"]
        S.iso(image(d.default_factory()), image(y), "value of a missing key")
        S.check(len(x) == n + 1 and x["never used before"] is y, "missing key is not kept")
        S.reach("missing key")


def two(S):
    """Two dicts, one inside the other or side by side, with the same factory or not."""
    d = make(S, "d")
    e = make(S, "e", d.default_factory if S.flag("same") and not isinstance(
        d, (M.SelfFactory, M.ClassFactory)) else None)
    shared = [d]
    fill(S, e, "e", [shared, d], 1)
    fill(S, d, "d", [shared, e], 1)
    x = [3]
    trip(S, S.pick("top", [[d, x, e, x, d], [e, d, x, x], {"a": e, "b": x, "c": x, "d": d}]))


def fresh(S):
    """Values made for missing keys are independent of each other."""
    f = factory(S, S.pick("f", ["list", "dict", "plain", "flist", "fdd", "fobj"]), "f")
    d = CLASSES[S.pick("cls", ["dd", "sub"])](f)
    r = jsonpickle.decode(jsonpickle.encode([d, [d]]))[0]
    a = r["a"]
    b = r["b"]
    S.check(a is not b, "missing keys share their value")
    S.iso(image(f()), image(a), "value of a missing key")
    S.iso(image(f()), image(b), "value of a missing key")


def inside(S):
    """As attribute, in a tuple, as list item and as the value of another dict."""
    d = make(S, "d")
    fill(S, d, "i", [])
    p = M.Plain()
    p.a = d
    p.b = [d]
    where = S.pick("where", ["attr", "list", "dict", "listsub", "state"])
    if where == "attr":
        v = [p, p.b, d]
    elif where == "list":
        v = [[d], [d], p]
    elif where == "dict":
        v = {"k": d, "m": p, "z": p.b}
    else:
        o = [d]
        p.c = o
        v = [p, o, [5], d]
    trip(S, v)


def plain(S):
    """unpicklable=False keeps the items."""
    d = make(S, "d")
    k = S.str("k", nopre=("py/", "json://"), neq=("default_factory", "__dict__"))
    x = S.leaf("x", "nbis")
    d[k] = x
    r = jsonpickle.decode(jsonpickle.encode([d], unpicklable=False))
    S.check(r[0][k] == x, "item")


def large(S):
    """Many items, and many dicts."""
    d = make(S, "d")
    n = S.pick("n", [10, 21, 70, 150])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    if S.flag("many"):
        ds = [type(d)(d.default_factory) for i in range(n)] if type(d) in (collections.defaultdict, M.FactoryDict) else []
        S.assume(bool(ds))
        ds[at]["k"] = x
        trip(S, [ds, x, ds[at], ds[0]])
    else:
        for i in range(n):
            d["k%d" % i] = x if i == at else i
        trip(S, [d, x, d])


SCENARIOS = [
    dict(name="large", fn=large, quick=dict(classes=["dd", "sub", "class"], factories=["none", "list", "flist"])),
    dict(name="one", fn=one,
         quick=dict(width=1, classes=["dd", "sub", "self", "class"], factories=KINDS),
         thorough=dict(width=2, classes=["dd", "sub", "self", "class", "own"], factories=KINDS),
         reach=["missing key"]),
    dict(name="items", fn=one,
         quick=dict(width=2, classes=["dd", "self"], factories=["none", "int", "flist"]),
         reach=["missing key"]),
    dict(name="own", fn=one, quick=dict(width=1, classes=["own"], factories=["int", "list", "plain"])),
    dict(name="two", fn=two,
         quick=dict(classes=["dd", "self"], factories=["none", "int", "flist"], dfkey=False,
                    leaf="i"),
         thorough=dict(classes=["dd", "self", "class"], leaf="i",
                       factories=["none", "int", "flist", "fobj"])),
    dict(name="fresh", fn=fresh, quick={}),
    dict(name="inside", fn=inside,
         quick=dict(width=1, classes=["dd", "self"], factories=["none", "list", "flist", "fdd2"])),
    dict(name="plain", fn=plain,
         quick=dict(classes=["dd", "sub", "class"], factories=["none", "list", "f0"])),
]
