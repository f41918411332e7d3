"""C25: values without a JSON form, modules, and the pass-through options."""
import decimal
import os.path
import xml.dom

import jsonpickle
import vpmodels as M
from graphs import G

BOUNDS = ("graphs of up to `nodes` containers and instances with up to `width` places each, sharing "
          "and cycles, with lambdas, modules and Decimals at any place; dicts of up to `width` keys "
          "of any kind under numeric_keys; leaves symbolic")

DECIMALS = [decimal.Decimal("1.50"), decimal.Decimal("-0"), decimal.Decimal("1E+400"),
            decimal.Decimal(0)]
MODULES = [M.math, xml.dom, os.path, M]
NAMELESS = [lambda: 1, lambda x=None: x]


class LG(G):
    """Graphs with values that have no JSON form."""
    lost = 0

    def mk_lambda(self, path, depth, h):
        self.left += 1
        self.lost += 1
        return NAMELESS[self.lost % 2]

    def mk_decimal(self, path, depth, h):
        self.left += 1
        return self.S.pick(path + ".d", DECIMALS[:self.S.p("few", 1)])

    def mk_mods(self, path, depth, h):
        self.left += 1
        return self.S.pick(path + ".m", MODULES[:self.S.p("few", 1)])


def nameless(v):
    return any(v is f for f in NAMELESS)


class Expected:
    """The value that has to come back: items become None, entries are left out."""

    def __init__(self):
        self.memo = {}
        self.nulls = 0

    def of(self, v):
        if nameless(v):
            self.nulls += 1
            return None
        if id(v) in self.memo:
            return self.memo[id(v)]
        t = type(v)
        if t is tuple:
            return tuple([self.of(x) for x in v])
        if t is list or t is M.ListSub:
            r = self.memo[id(v)] = t()
            for x in v:
                r.append(self.of(x))
            if t is M.ListSub:
                self.attributes(v, r)
            return r
        if t is dict:
            r = self.memo[id(v)] = {}
            for k, x in v.items():
                if not nameless(x):
                    r[k] = self.of(x)
            return r
        if t is M.Plain or t is M.Slots:
            r = self.memo[id(v)] = t()
            self.attributes(v, r)
            return r
        return v

    def attributes(self, v, r):
        for n in ("a", "b", "extra"):
            if hasattr(v, n) and not nameless(getattr(v, n)):
                setattr(r, n, self.of(getattr(v, n)))


def graph(S):
    """Round trip of graphs that contain such values."""
    g = LG(S, S.p("kinds"), S.p("nodes"), S.p("width"), leaf="i", cycles=True, keys="fixed",
           extra=S.p("extra"))
    v = g.build()
    e = Expected()
    want = e.of(v)
    warn = S.flag("warn") if e.nulls or g.left == S.p("nodes") - 1 else True
    text = jsonpickle.encode(v, warn=warn)
    n = len(S.warned())
    if not warn or e.nulls == 0:
        S.check(n == 0, "a warning although nothing had to be replaced, or without warn=True")
    else:
        S.check(n >= e.nulls, "too few warnings")
        S.reach("warned")
    r = jsonpickle.decode(text)
    S.obs([g.lost, e.nulls])
    S.iso(want, r, "decoded value")
    if g.lost:
        S.reach("lost")
    for u in g.used:
        S.reach(u)


def top(S):
    """Such values as whole document, as dict keys and inside other holders."""
    v = S.pick("v", NAMELESS + MODULES + DECIMALS)
    h = S.pick("holder", ["top", "list", "tuple", "dict", "plain", "again", "set"])
    a = M.Plain()
    a.a = S.leaf("a")
    if h == "top":
        d = v
    elif h == "list":
        d = [a, v, a]
    elif h == "tuple":
        d = (v, a, [v, a])
    elif h == "dict":
        d = {"x": v, "y": a, "z": a}
    elif h == "plain":
        d = M.Plain()
        d.a = v
        d.b = [a, a]
    elif h == "set":
        d = {v, 1}
    else:
        d = [v, v, [v], a, a]
    want = {None if nameless(v) else v, 1} if h == "set" else Expected().of(d)
    S.iso(want, jsonpickle.decode(jsonpickle.encode(d)), "decoded value")
    S.reach(h)


def numeric(S):
    """Keys left alone by numeric_keys."""
    on = S.flag("on")
    holder = S.pick("holder", ["top", "list", "plain", "sub"])
    d = M.DictSub() if holder == "sub" else {}
    want = []
    n = S.pick("n", S.p("width")) + 1
    kinds = []
    for i in range(n):
        k = S.pick("k%d" % i, ["int", "float", "bool", "str", "none", "tuple"])
        if k in kinds or (k == "bool" and "int" in kinds) or (k == "int" and "bool" in kinds):
            S.assume(False)
        kinds.append(k)
        if k == "int":
            key = S.int("i%d" % i)
        elif k == "float":
            key = S.float("f%d" % i)
        elif k == "bool":
            key = S.flag("b%d" % i)
        elif k == "str":
            key = S.str("s%d" % i, nopre=("py/",) + tuple("-0123456789niTF("),
                        neq=("__dict__", "default_factory"))
        elif k == "none":
            key = None
        else:
            key = (5,)
        for x in d:
            if k in ("int", "float", "bool") and not isinstance(x, (str, tuple)) and x is not None:
                S.assume(key != x)
        v = S.leaf("v%d" % i)
        d[key] = v
        if k in ("int", "float", "bool") and on:
            want.append((key, v))
        elif k == "none":
            want.append(("null", v))
        elif k == "str":
            want.append((key, v))
        else:
            r = repr(key)
            want.append((r, v))
        S.reach(k)
    if holder == "list":
        top = [1, d]
    elif holder == "plain":
        top = M.Plain()
        top.a = d
    else:
        top = d
    flat = jsonpickle.Pickler(numeric_keys=on).flatten(top)
    if holder == "list":
        flat = flat[1]
    elif holder == "plain":
        flat = flat["a"]
    got = [(k, x) for k, x in flat.items() if k is not None
           and not (isinstance(k, str) and (k == "py/object" or k == "__dict__"))]
    S.obs(len(got))
    S.same(want, got, "what flatten returns")
    S.reach(holder)


def decimals(S):
    """Decimals left alone by use_decimal, wherever they are."""
    d = S.pick("d", DECIMALS)
    h = S.pick("holder", ["top", "list", "dict", "plain", "deep"])
    unp = S.flag("unpicklable")
    refs = S.flag("refs")
    x = S.leaf("x")
    if h == "top":
        v, want = d, d
    elif h == "list":
        v, want = [d, x, d], [d, x, d]
    elif h == "dict":
        v, want = {"a": d, "b": x}, {"a": d, "b": x}
    elif h == "deep":
        v, want = [[{"a": [d]}], d], [[{"a": [d]}], d]
    else:
        v = M.Plain()
        v.a = d
        v.b = x
        want = {"a": d, "b": x}
        if unp:
            want = {"py/object": "vpmodels.Plain", "a": d, "b": x}
    flat = jsonpickle.Pickler(use_decimal=True, unpicklable=unp, make_refs=refs).flatten(v)
    S.same(want, flat, "what flatten returns")
    S.reach(h)


def large(S):
    """Such values among many others, and many of them."""
    w = S.pick("what", NAMELESS[:1] + MODULES[:1] + DECIMALS[:1])
    n = S.pick("n", [10, 21, 70, 150])
    at = S.pick("at", [0, n // 2, n - 1])
    a = M.Plain()
    a.a = S.leaf("a", "is")
    many = S.flag("many")
    items = [w if many or i == at else i for i in range(n)]
    h = S.pick("holder", ["list", "tuple", "dict", "listsub"])
    if h == "list":
        v = items
    elif h == "tuple":
        v = tuple(items)
    elif h == "dict":
        v = {"k%d" % i: x for i, x in enumerate(items)}
    else:
        v = M.ListSub(items)
    v = [a, v, a]
    e = Expected()
    want = e.of(v)
    warn = S.flag("warn")
    text = jsonpickle.encode(v, warn=warn)
    S.check(len(S.warned()) >= e.nulls if warn and e.nulls else not S.warned(), "warnings")
    S.iso(want, jsonpickle.decode(text), "decoded value")


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="graph", fn=graph, quick=dict(
        kinds=["list", "dict", "tuple", "plain"], nodes=2, width=2,
        extra=["lambda", "mods"]),
        thorough=dict(kinds=["list", "dict", "tuple", "plain", "slots", "listsub"], nodes=3, width=2,
                      extra=["lambda", "mods", "decimal"]),
        reach=["lost", "warned", "lambda", "mods", "list", "dict", "plain"], sample=2),
    dict(name="kinds", fn=graph, quick=dict(
        kinds=["slots", "list"], nodes=2, width=2, extra=["lambda", "decimal"]),
        thorough=dict(kinds=["list", "slots", "listsub", "plain", "dict"], nodes=2, width=3,
                      extra=["lambda", "decimal"]),
        reach=["lost", "warned", "decimal", "slots"], sample=2),
    dict(name="listsub", fn=graph, quick=dict(kinds=["listsub"], nodes=2, width=1, extra=["lambda"]),
         thorough=dict(kinds=["listsub", "list"], nodes=2, width=2, extra=["lambda"]),
         reach=["lost", "warned", "listsub"], sample=2),
    dict(name="top", fn=top, quick={}, thorough={},
         reach=["top", "list", "tuple", "dict", "plain", "again", "set"], sample=4),
    dict(name="numeric", fn=numeric, quick=dict(width=2), thorough=dict(width=3),
         reach=["int", "float", "bool", "str", "none", "tuple", "top", "list", "plain", "sub"],
         sample=4),
    dict(name="decimals", fn=decimals, quick={}, thorough={},
         reach=["top", "list", "dict", "plain", "deep"], sample=4),
]
