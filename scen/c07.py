"""C07: unpicklable=False emits plain, faithful JSON."""
import json

import jsonpickle
from graphs import G, bulk, chain
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers/instances with up to `width` places each, sharing "
          "and cycles; leaves symbolic; both make_refs settings")

FORBIDDEN = ["py/object", "py/id", "py/ref", "py/state", "py/reduce", "py/function", "py/mod",
             "py/newobj", "py/seq", "py/set",
             "py/tuple", "py/default_factory", "py/repr"]

STATE = (M.StateDict, M.StateTuple, M.StateList, M.StateOnly, M.StateNone, M.StateScalar)


class Text:
    """Stands for any string."""


def plain(v, memo, open_, cut):
    """The JSON that mirrors v; `cut` replaces a container that recurs inside itself."""
    t = type(v)
    if t in (list, tuple, set, dict) or hasattr(v, "__dict__") or hasattr(v, "__slots__"):
        if id(v) in memo:
            return memo[id(v)]
        if id(v) in open_:
            if t is not tuple:
                return cut
        open_.append(id(v))
        r = parts(v, memo, open_, cut)
        open_.pop()
        memo[id(v)] = r
        return r
    return v


def parts(v, memo, open_, cut):
    t = type(v)

    def sub(x):
        return plain(x, memo, open_, cut)

    if t in (list, tuple, set, M.ListSub, M.SetSub, M.NT):
        return [sub(x) for x in v]
    if t in (dict, M.DictSub):
        return {k: sub(x) for k, x in v.items()}
    if t in STATE:
        s = v.__getstate__()
        if s:
            return sub(s)
    if t in (M.Slots, M.SlotsKid):
        names = ("c", "a", "b") if t is M.SlotsKid else ("a", "b")
        return {n: sub(getattr(v, n)) for n in names if hasattr(v, n)}
    return {k: sub(x) for k, x in v.__dict__.items()}


def check_tags(S, j):
    """No JSON object has a key that carries Python information."""
    if isinstance(j, dict):
        for k in j:
            if k in FORBIDDEN:
                S.fail("the JSON has a %s entry" % k)
            check_tags(S, j[k])
    elif isinstance(j, list):
        for x in j:
            check_tags(S, x)


def check(S, v, **opts):
    text = jsonpickle.encode(v, unpicklable=False, **opts)
    j = json.loads(text)
    S.obs(j)
    if opts.get("make_refs", True):
        S.iso(plain(v, {}, [], None), j, "the JSON does not mirror the value", identity=False)
    else:
        mirror(S, plain(v, {}, [], Text), j)
    check_tags(S, j)


def mirror(S, want, j):
    if want is Text:
        if not isinstance(j, str):
            S.fail("a value that recurs inside itself is not replaced by text")
        return
    if type(want) is list:
        if not isinstance(j, list) or len(j) != len(want):
            S.fail("not an array of the same length")
        for a, b in zip(want, j):
            mirror(S, a, b)
    elif type(want) is dict:
        if not isinstance(j, dict) or len(j) != len(want):
            S.fail("not an object of the same size")
        for k in want:
            if k not in j:
                S.fail("entry %r is missing" % k)
            mirror(S, want[k], j[k])
    else:
        S.iso(want, j, "a leaf differs", identity=False)


def builtin(S):
    """Lists, dicts, tuples and plain instances, any sharing and cycles."""
    g = G(S, ["list", "dict", "plain", "tuple"], S.p("nodes"), width=S.p("width"), leaf="i",
          leaves=1, cycles=True, keys="conc")
    v = g.build()
    check(S, v, make_refs=S.flag("refs"))
    if g.cyclic:
        S.reach("cyclic")
    if g.shared:
        S.reach("shared")


KINDS = ["plain", "slots", "slotskid", "statedict", "statetuple", "statelist", "stateonly",
         "reduce2", "reduce3", "reduceex", "nt",
         "listsub", "dictsub", "setsub", "set"]


def classes(S):
    """One class per graph."""
    k = S.pick("cls", KINDS)
    g = G(S, [k, S.pick("second", ["list", "dict", "plain", "tuple"])], S.p("nodes"), width=2,
          leaf="i", leaves=0, cycles=True, keys="conc", minwidth=1)
    v = g.build()
    check(S, v, make_refs=S.flag("refs"))


def leaves(S):
    """Leaves of every kind, symbolic keys."""
    g = G(S, ["list", "dict", "tuple", "set", "plain"], 2, width=2, leaf="nbifs", leaves=2,
          keyneq=("default_factory",))
    v = g.build()
    check(S, v, keys=S.flag("keys"))


def silent(S):
    """Functions and modules leave no trace of themselves but null and text."""
    v = S.pick("v", [M.func, M.math])
    w = chain(S, v, 2, (5, 12))
    j = json.loads(jsonpickle.encode(w, unpicklable=False, make_refs=S.flag("refs")))
    check_tags(S, j)
    while isinstance(j, (list, dict)):
        j = j[0] if isinstance(j, list) else list(j.values())[0]
    S.check(j is None if v is M.func else isinstance(j, str), "function or module not plain")


def state(S):
    """State that is no container."""
    o = M.StateScalar()
    o.a = S.pick("st", [S.str("sv", minlen=1), [S.int("e")], (2, S.leaf("t")), 1.5, True, {"py": 1}])
    check(S, chain(S, [o, o], 1, ()), make_refs=S.flag("refs"))


def deep(S):
    """A leaf or a shared object many levels down."""
    o = S.pick("o", ["leaf", "twice", "set"])
    x = S.leaf("x", "nbis") if o == "leaf" else {S.int("x")} if o == "set" else [S.int("x")]
    v = chain(S, [x, x] if o == "twice" else x, 1, (6, 20, 40))
    if S.flag("again"):
        v = [v, x, v]
    check(S, v, make_refs=S.flag("refs"))


def large(S):
    """Many items."""
    x = S.leaf("x", "is")
    o = S.pick("o", [x, [x], {"e": x}])
    v = bulk(S, ["list", "dict", "plain", "tuple", "statedict", "listsub", "dictsub"], o)
    check(S, S.pick("v", [v, [v, o, v], {"a": [o], "b": v}]), make_refs=S.flag("refs"))


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="builtin", fn=builtin, quick=dict(nodes=3, width=2), thorough=dict(nodes=4, width=2),
         reach=["cyclic", "shared"]),
    dict(name="classes", fn=classes, quick=dict(nodes=2), thorough=dict(nodes=3)),
    dict(name="leaves", fn=leaves, quick={}),
    dict(name="silent", fn=silent, quick={}),
    dict(name="state", fn=state, quick={}),
    dict(name="deep", fn=deep, quick={}),
]
