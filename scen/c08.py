"""C08: make_refs=False never emits references and breaks every cycle."""
import json

import jsonpickle
from graphs import G, bulk, chain
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers/instances with up to `width` places each, any "
          "sharing and cycles; leaves symbolic")

CUT = (list, dict)


def no_refs(S, j):
    if isinstance(j, dict):
        for k in j:
            if k in ("py/id", "py/ref"):
                S.fail("the JSON has a reference entry")
            if k.startswith("json://"):
                no_refs(S, json.loads(k[7:]))
            no_refs(S, j[k])
    elif isinstance(j, list):
        for x in j:
            no_refs(S, x)


def inside(v):
    """The values held by a container or instance."""
    t = type(v)
    if t in (list, tuple, set):
        return list(v)
    if t is dict:
        return list(v.values())
    if isinstance(v, (list, set, M.NT)):
        return list(v) + list(getattr(v, "__dict__", {}).values())
    if isinstance(v, dict):
        return list(v.values()) + list(v.__dict__.values())
    if hasattr(v, "__dict__"):
        return list(v.__dict__.values())
    return [getattr(v, n) for n in ("a", "b", "c") if hasattr(v, n)]


def composite(v):
    return type(v) in (list, tuple, set, dict) or type(v).__module__ == "vpmodels"


def on_cycle(v):
    seen = []
    todo = inside(v)
    while todo:
        x = todo.pop()
        if not composite(x):
            continue
        if x is v:
            return True
        if any(y is x for y in seen):
            continue
        seen.append(x)
        todo.extend(inside(x))
    return False


def same(S, v, r, open_):
    """r equals v, except that a part of a cycle may be its repr() and must be where it recurs."""
    if not composite(v):
        S.iso(v, r, "a leaf differs")
        return
    recurs = any(x is v for x in open_) and type(v) is not tuple
    if isinstance(r, str):
        if not on_cycle(v):
            S.fail("text instead of a value that is on no cycle")
        S.check(r == repr(v), "the text is not the repr() of the value")
        return
    if recurs:
        S.fail("a value that recurs inside itself is not replaced")
    if type(r) is not type(v):
        S.fail("%s instead of %s" % (type(r).__name__, type(v).__name__))
    open_ = open_ + [v]
    a, b = inside(v), inside(r)
    if len(a) != len(b):
        S.fail("%d parts instead of %d" % (len(b), len(a)))
    if isinstance(v, dict):
        if list(v) != list(r):
            S.fail("keys differ")
    if hasattr(v, "__dict__"):
        if sorted(v.__dict__) != sorted(r.__dict__):
            S.fail("attributes differ")
        for k in v.__dict__:
            same(S, v.__dict__[k], r.__dict__[k], open_)
        if isinstance(v, (list, dict, set)):
            n = len(v)
            for x, y in zip(a[:n], b[:n]):
                same(S, x, y, open_)
        return
    for x, y in zip(a, b):
        same(S, x, y, open_)


def check(S, v, **opts):
    text = jsonpickle.encode(v, make_refs=False, **opts)
    no_refs(S, json.loads(text))
    r = jsonpickle.decode(text, **({"keys": True} if opts.get("keys") else {}))
    S.obs(r)
    return r


def builtin(S):
    """Lists, dicts, tuples and plain instances."""
    g = G(S, ["list", "dict", "plain", "tuple"], S.p("nodes"), width=S.p("width"), leaf="i",
          leaves=1, cycles=True, keys="conc")
    v = g.build()
    r = check(S, v)
    if g.cyclic:
        S.reach("cyclic")
        same(S, v, r, [])
    else:
        if g.shared:
            S.reach("shared")
        S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


KINDS = ["slots", "slotskid", "statedict", "statetuple", "statelist", "stateonly", "reduce2",
         "reduce3", "reduceex", "newargs", "newargsex", "newargsexpos", "nt", "listsub",
         "dictsub", "setsub", "set"]
CYCLE = ["slots", "slotskid", "listsub", "dictsub"]


def classes(S):
    """Instances of every protocol."""
    k = S.pick("cls", KINDS)
    g = G(S, [k, S.pick("second", ["list", "dict", "plain", "tuple"])], S.p("nodes"), width=2,
          leaf="i", leaves=0, cycles=k in CYCLE, keys="conc", minwidth=1)
    v = g.build()
    keys = S.flag("keys")
    r = check(S, v, keys=keys)
    if g.cyclic:
        same(S, v, r, [])
    else:
        S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


def repeated(S):
    """The same object many times at different depths, never inside itself."""
    x = S.pick("x", ["list", "dict", "plain", "slots", "nt", "reduce2", "statedict", "tuple",
                     "bytes", "set", "listsub", "dictsub", "date"])
    if x == "bytes":
        o = S.bytes("b")
    elif x == "date":
        o = M.datetime.date(2020, 1, 2)
    else:
        g = G(S, [x], 1, width=1, minwidth=1, leaf="nbifs", leaves=1, keys="conc", attrs=False)
        o = g.build()
    p = M.Plain()
    p.a = o
    v = [o, {"k": o}, (o, p), p, [[o], o]]
    n = S.pick("n", [2, 3, 4, 5])
    v = v[:n]
    if S.flag("swap"):
        v.reverse()
    r = check(S, v)
    S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


def owndict(S):
    """The instance dict of an object as a value of its own."""
    o = S.pick("cls", [M.Plain, M.DictSub, M.ListSub, M.SetSub, M.Kid])()
    o.a = S.pick("a", [S.leaf("x"), [S.int("e")]])
    if S.flag("item"):
        if isinstance(o, dict):
            o["k"] = S.leaf("i")
        elif isinstance(o, list):
            o.append(S.leaf("i"))
        elif isinstance(o, set):
            o.add(5)
        else:
            o.b = S.leaf("i")
    d = o.__dict__
    v = S.pick("v", [[o, d], [d, o], [o, d, o], [d, [o], d], {"x": [d], "y": o, "z": d}, (o, (d,))])
    r = check(S, v, keys=S.flag("keys"))
    S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


def deep(S):
    """Repetition and cycles far apart."""
    x = S.pick("x", ["list", "dict", "plain"])
    o = [S.int("e")] if x == "list" else {"e": S.int("e")} if x == "dict" else M.Plain()
    if x == "plain":
        o.e = S.int("e")
    kinds = ["list", "dict", "plain", "tuple", "slots", "dictsub"]
    w = chain(S, o, 2, (7, 20), kinds)
    how = S.pick("how", ["before", "after", "cycle"])
    if how == "cycle":
        if x == "list":
            o.append(w)
        elif x == "dict":
            o["w"] = w
        else:
            o.w = w
        S.assume(w is not o)
        r = check(S, w)
        same(S, w, r, [])
        return
    v = [o, w, w] if how == "before" else [w, w, o]
    r = check(S, v)
    S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


def keyed(S):
    """Instances as keys and values at once."""
    k = M.HKey(S.leaf("k"))
    o = S.pick("o", ["key", "list"])
    w = k if o == "key" else [k]
    v = [{"s": w, k: w}, w, k]
    r = check(S, v, keys=True)
    S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


def large(S):
    """Many items, one of them met again, and one object met many times."""
    x = S.leaf("x", "is")
    o = S.pick("o", [[x], {"e": x}, (x, [x])])
    if S.flag("many"):
        n = S.pick("n", [10, 21, 70, 260])
        v = [o] * n
        if S.flag("dict"):
            v = {"k%d" % i: y for i, y in enumerate(v)}
    else:
        v = bulk(S, ["list", "dict", "plain", "tuple", "statedict", "listsub", "dictsub"], o)
        v = [v, o, v]
    r = check(S, v)
    S.iso(v, r, "decode(encode(v)) differs from v", identity=False)


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="builtin", fn=builtin, quick=dict(nodes=3, width=2), thorough=dict(nodes=4, width=2),
         reach=["cyclic", "shared"]),
    dict(name="classes", fn=classes, quick=dict(nodes=2), thorough=dict(nodes=3)),
    dict(name="repeated", fn=repeated, quick={}),
    dict(name="keyed", fn=keyed, quick={}),
    dict(name="owndict", fn=owndict, quick={}),
    dict(name="deep", fn=deep, quick={}),
]
