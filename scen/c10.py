"""C10: encode and decode leave their arguments alone."""
import collections

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler
from graphs import G, bulk
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers/instances with up to `width` places each, sharing "
          "and cycles; leaves symbolic; one option changed at a time from the default")


def parts(o):
    """(kind, key, part) for everything the object holds."""
    r = []
    t = type(o)
    if isinstance(o, dict):
        for k in o:
            r.append(("item", k, o[k]))
        if isinstance(o, collections.defaultdict):
            r.append(("factory", "default_factory", o.default_factory))
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            r.append(("item", i, x))
    elif isinstance(o, (set, frozenset)):
        for x in o:
            r.append(("member", None, x))
    if hasattr(o, "__dict__") and not isinstance(o, type):
        for k, x in o.__dict__.items():
            r.append(("attribute", k, x))
    for c in t.__mro__:
        names = c.__dict__.get("__slots__", ())
        for n in names:
            if hasattr(o, n):
                r.append(("slot", n, getattr(o, n)))
    return r


def composite(o):
    return isinstance(o, (list, tuple, dict, set)) or hasattr(o, "__dict__") or hasattr(
        o, "__slots__")


def snapshot(v):
    seen = []
    todo = [v]
    while todo:
        o = todo.pop()
        if not composite(o) or isinstance(o, (type, M.types.FunctionType, M.types.ModuleType,
                                              M.enum.Enum)):
            continue
        if any(o is s[0] for s in seen):
            continue
        ps = parts(o)
        seen.append((o, type(o), ps))
        for p in ps:
            todo.append(p[2])
    return seen


def unchanged(S, snap):
    for o, t, ps in snap:
        if type(o) is not t:
            S.fail("an object changed its class to %s" % type(o).__name__)
        now = parts(o)
        if len(now) != len(ps):
            S.fail("a %s had %d parts and now has %d" % (t.__name__, len(ps), len(now)))
        for a, b in zip(ps, now):
            S.check(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) and a[2] is b[2],
                    "the %s %s of a %s changed" % (a[0], a[1], t.__name__))


def options(S):
    """One option set away from its default, or several together."""
    o = S.pick("option", ["none", "keys", "refs", "plain", "numeric", "depth", "iter", "warn", "b85",
                          "props", "indent", "both", "safe", "readonly"])
    return {
        "none": {}, "keys": dict(keys=True), "refs": dict(make_refs=False),
        "plain": dict(unpicklable=False), "numeric": dict(numeric_keys=True),
        "depth": dict(max_depth=1), "iter": dict(max_iter=1), "warn": dict(warn=True),
        "b85": dict(use_base85=True), "props": dict(include_properties=True),
        "indent": dict(indent=1, separators=(",", ":")),
        "both": dict(keys=True, make_refs=False, unpicklable=False),
        "safe": dict(fail_safe=lambda e: None), "readonly": dict(handle_readonly=True),
    }[o]


def encode(S):
    opts = options(S)
    g = G(S, list(S.p("kinds")), S.p("nodes"), width=S.p("width"), leaf="i", cycles=True,
          leaves=1, keys="conc", extra=S.p("extra", ()))
    v = g.build()
    snap = snapshot(v)
    jsonpickle.encode(v, **opts)
    unchanged(S, snap)
    if g.shared:
        S.reach("shared")
    if g.cyclic:
        S.reach("cycle")


def special(S):
    """Classes whose encoding handles parts of the instance in a particular way."""
    opts = options(S)
    x = [5 if "max_depth" in opts else S.leaf("x", "is")]
    kind = S.pick("kind", ["livestate", "exclude", "excludedict", "excludestate", "dd", "ddself",
                           "data", "frozen", "reduce", "pair", "prop", "keyed", "dictattr",
                           "newargs", "deque", "counter", "odict", "exc", "factory"])
    o = make(S, kind, x)
    v = [o, x, o] if S.flag("twice") else o
    snap = snapshot(v)
    try:
        jsonpickle.encode(v, **opts)
    except TypeError:
        # e.g. plain JSON with keys that are not text
        S.reach("type error")
    unchanged(S, snap)
    S.reach(kind)


def make(S, kind, x):
    if kind == "livestate":
        o = M.LiveState()
        o.a = x
        o._jsonpickle_exclude = ["b"]
        o.b = 5
    elif kind == "exclude":
        o = M.Excluding()
        o.a, o.b, o.secret = x, 1, 2
    elif kind == "excludedict":
        o = M.ExcludingDict(a=x, b=2, secret=3)
        o.attr = x
    elif kind == "excludestate":
        o = M.ExcludingState()
        o.a, o.b, o.secret = x, 1, 2
    elif kind == "dd":
        o = collections.defaultdict(S.pick("f", [list, None, M.func, M.Plain]), {"a": x})
    elif kind == "ddself":
        o = collections.defaultdict(list, {"a": x})
        o["default_factory"] = x
        o.default_factory = o.__class__
    elif kind == "data":
        o = M.Data(x, x)
    elif kind == "frozen":
        o = M.Frozen(x, 1)
    elif kind == "reduce":
        o = M.Shared()
        o.parts = (M.rebuild, (M.Plain,), {"a": x}, None, None)
    elif kind == "pair":
        o = M.StatePair()
        o.a = x
        o.s = x
    elif kind == "prop":
        o = M.Props()
        o.a = x
    elif kind == "keyed":
        o = {(1, 2): x, 3: x, None: 1, "json://x": 2, "py/object": x}
    elif kind == "dictattr":
        o = M.DictSub(a=x)
        o.b = x
    elif kind == "newargs":
        o = M.NewArgs(x)
        o.b = x
    elif kind == "deque":
        o = collections.deque([x, 1], 3)
    elif kind == "counter":
        o = collections.Counter({"a": 2})
        o.extra = x
    elif kind == "odict":
        o = collections.OrderedDict([("b", x), ("a", x)])
    elif kind == "exc":
        o = ValueError("a", x)
        o.extra = x
    else:
        o = M.DictSub(a=x)
        o.default_factory = S.pick("f", [list, M.func])
    return o


def raising(S):
    """A hook raises somewhere in the middle."""
    opts = S.pick("opts", [{}, dict(make_refs=False), dict(unpicklable=False), dict(keys=True),
                           dict(max_depth=2)])
    at = S.int("at")
    M.start_fault(at)
    x = [S.int("x")]
    a, b = M.Fault(), M.FaultProp()
    a.a = x
    a.b = b
    b.a = x
    v = S.pick("shape", [[a, {"k": x, "b": b}, a], {"a": a, "b": [b, x]}, a, M.ListSub([a, b])])
    snap = snapshot(v)
    try:
        jsonpickle.encode(v, include_properties=True, **opts)
    except ZeroDivisionError:
        S.reach("raised")
    M.start_fault(-1)
    unchanged(S, snap)


def again(S):
    """The data given to restore gives the same result a second time."""
    g = G(S, list(S.p("kinds")), S.p("nodes"), width=S.p("width"), leaf="i", cycles=True,
          leaves=1, keys="conc", extra=S.p("extra", ()))
    v = g.build()
    keys = S.flag("keys")
    data = Pickler(keys=keys).flatten(v)
    restored(S, data, keys)


def restored(S, data, keys):
    snap = snapshot(data)
    u = Unpickler(keys=keys)
    one = u.restore(data)
    unchanged(S, snap)
    two = (u if S.flag("same") else Unpickler(keys=keys)).restore(data)
    S.iso(one, two, "restoring the same data again gives something else")


def respecial(S):
    x = [S.leaf("x", "is")]
    kind = S.pick("kind", ["livestate", "exclude", "excludedict", "excludestate", "dd", "ddself",
                           "data", "frozen", "reduce", "pair", "prop", "keyed", "dictattr",
                           "newargs", "deque", "counter", "odict", "factory"])
    o = make(S, kind, x)
    v = [o, x, o] if S.flag("twice") else o
    keys = S.flag("keys")
    data = Pickler(keys=keys).flatten(v)
    restored(S, data, keys)
    S.reach(kind)


def settings(S):
    """One call's options do not leak into the next."""
    x = S.leaf("x")
    v = {"a": [x, b"bytes", (1, 2)], "b": M.Plain()}
    first = jsonpickle.encode(v)
    jsonpickle.encode(v, **options(S))
    S.check(jsonpickle.encode(v) == first, "a later plain encode() gives different text")
    S.iso(v["a"][0], jsonpickle.decode(first)["a"][0], "value")


def large(S):
    """Many items."""
    opts = options(S)
    x = [S.int("x")]
    v = bulk(S, ["list", "dict", "plain", "tuple", "statedict", "listsub", "dictsub"], x, (21, 130))
    v = [v, x, v]
    snap = snapshot(v)
    jsonpickle.encode(v, **opts)
    unchanged(S, snap)


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="builtin", fn=encode,
         quick=dict(kinds=("list", "dict", "tuple"), nodes=2, width=2),
         thorough=dict(kinds=("list", "dict", "tuple"), nodes=3, width=2),
         reach=["shared", "cycle"]),
    dict(name="classes", fn=encode,
         quick=dict(kinds=("plain", "slots", "statedict", "statelist", "reduce3", "dictsub",
                           "listsub"), nodes=2, width=1, extra=("type",)),
         thorough=dict(kinds=("plain", "slots", "statedict", "statetuple", "statelist", "reduce2",
                              "reduce3", "dictsub", "listsub", "setsub", "nt", "newargs"),
                       nodes=2, width=2), reach=["shared", "cycle"]),
    dict(name="special", fn=special, quick={}, reach=["livestate", "dd", "factory", "keyed"]),
    dict(name="raising", fn=raising, quick={}, reach=["raised"]),
    dict(name="again", fn=again,
         quick=dict(kinds=("list", "dict", "plain", "tuple"), nodes=2, width=2, extra=("type",)),
         thorough=dict(kinds=("list", "dict", "plain", "tuple"), nodes=3, width=2)),
    dict(name="again-classes", fn=again,
         quick=dict(kinds=("plain", "slots", "statedict", "statelist", "reduce3", "dictsub",
                           "listsub", "newargs"), nodes=2, width=1)),
    dict(name="respecial", fn=respecial, quick={}, reach=["dd", "factory", "pair"]),
    dict(name="settings", fn=settings, quick={}),
]
