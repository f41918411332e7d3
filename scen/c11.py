"""C11: a reused Pickler or Unpickler behaves like a fresh one."""
import collections

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler
import vpmodels as M

BOUNDS = ("histories of up to `calls` calls over small values that share objects; at most one "
          "hook call, at any position of the history, raises; leaves symbolic")

OPTS = {"default": {}, "norefs": dict(make_refs=False), "plain": dict(unpicklable=False),
        "keys": dict(keys=True), "depth": dict(max_depth=2), "props": dict(include_properties=True),
        "safe": dict(fail_safe=repr)}


class Pool:
    """Values that share objects with one another."""

    def __init__(self, S):
        x = [S.int("x")]
        f, g = M.Fault(), M.FaultProp()
        f.a = x
        g.a = f
        p = M.Plain()
        p.a = x
        p.b = f
        lst = [x, f, x]
        d = {"k": x, "l": lst}
        c = [x]
        c.append(c)
        self.values = {
            "list": x, "hook": f, "prop": g, "plain": p, "nested": lst, "dict": d, "cycle": c,
            "keyed": {(1, f): x, "z": x}, "tuple": (x, f, (x,)), "set": {1, (2, 3)},
            "sub": M.DictSub(a=x, b=f), "dd": collections.defaultdict(list, {"a": x, "b": f}),
            "new": M.NewArgs(x), "red": M.Reduce2(f, x), "hint": 5, "leaf": S.leaf("leaf", "is"),
        }


def outcome(S, fn, at):
    """("value", result) or ("error", type)."""
    M.start_fault(at)
    try:
        return "value", fn()
    except ZeroDivisionError:
        S.reach("raised")
        return "error", ZeroDivisionError
    except TypeError:
        return "error", TypeError


def same(S, a, b, what):
    S.check(a[0] == b[0], "%s: %s instead of %s" % (what, a[0], b[0]))
    S.iso(b[1], a[1], what, identity=False)


def flatten(S):
    opts = OPTS[S.pick("opts", list(S.p("opts")))]
    p = Pickler(**opts)
    values = Pool(S).values
    for i in range(S.p("calls")):
        v = values[S.pick("v%d" % i, list(S.p("values")))]
        at = S.int("at%d" % i) if i < S.p("calls") - 1 else -1
        got = outcome(S, lambda: p.flatten(v), at)
        want = outcome(S, lambda: Pickler(**opts).flatten(v), at)
        same(S, got, want, "call %d on a used Pickler" % (i + 1))


def encode(S):
    """encode() with one context, and without."""
    opts = OPTS[S.pick("opts", list(S.p("opts")))]
    values = Pool(S).values
    p = Pickler(**opts) if S.flag("context") else None
    for i in range(S.p("calls")):
        v = values[S.pick("v%d" % i, list(S.p("values")))]
        at = S.int("at%d" % i) if i < S.p("calls") - 1 else -1
        if p is None:
            got = outcome(S, lambda: jsonpickle.encode(v, **opts), at)
        else:
            got = outcome(S, lambda: jsonpickle.encode(v, context=p, **opts), at)
        want = outcome(S, lambda: M.json.dumps(Pickler(**opts).flatten(v)), at)
        same(S, got, want, "call %d of encode" % (i + 1))


DOCS = ("list", "hook", "plain", "nested", "cycle", "keyed", "sub", "dd", "new", "red", "leaf")

EXTRA = {
    "late": [{"py/id": 3}, {"py/object": "vpmodels.Plain", "a": {"py/id": 1}}, [1]],
    "missing": [{"py/object": "nowhere.Gone", "a": [1]}, {"py/id": 2}, [5], {"py/id": 3}],
    "dangling": [[1], {"py/id": 9}],
    "local": {"py/object": "nowhere.Local", "a": [1]},
    "type": [{"py/type": "Special"}, {"py/type": "vpmodels.Plain"}],
}


def documents(S, names):
    values = Pool(S).values
    docs = {}
    for n in names:
        M.start_fault(-1)
        docs[n] = EXTRA[n] if n in EXTRA else Pickler(keys=True).flatten(values[n])
    return docs


def restore(S):
    """Any history of restore calls; a __setstate__ may raise."""
    keys = S.flag("keys")
    missing = S.pick("missing", ["ignore", "error"])
    u = Unpickler(keys=keys, on_missing=missing)
    names = list(S.p("values"))
    docs = documents(S, names)
    for i in range(S.p("calls")):
        n = S.pick("v%d" % i, names)
        at = S.int("at%d" % i) if i < S.p("calls") - 1 else -1
        classes = S.pick("c%d" % i, [None, M.Local, {"Special": M.Other}, [M.Local, M.Other]]) \
            if n in ("local", "type") else None
        got = result(S, lambda: u.restore(docs[n], classes=classes), at)
        want = result(S, lambda: Unpickler(keys=keys, on_missing=missing).restore(
            docs[n], classes=classes), at)
        S.check(got[0] == want[0], "call %d on a used Unpickler: %s instead of %s" % (
            i + 1, got[0], want[0]))
        S.iso(want[1], got[1], "call %d on a used Unpickler" % (i + 1))
        if n == "type":
            S.check(isinstance(got[1][0], dict) == (type(classes) is not dict),
                    "classes of another call are used")


def result(S, fn, at):
    M.start_fault(at)
    try:
        return "value", fn()
    except ZeroDivisionError:
        S.reach("raised")
        return "error", "ZeroDivisionError"
    except jsonpickle.errors.ClassNotFoundError:
        S.reach("not found")
        return "error", "ClassNotFoundError"


def decode(S):
    """decode() with one context, and without."""
    u = Unpickler(keys=True) if S.flag("context") else None
    names = list(S.p("values"))
    docs = documents(S, names)
    for i in range(S.p("calls")):
        n = S.pick("v%d" % i, names)
        text = M.json.dumps(docs[n])
        at = S.int("at%d" % i) if i < S.p("calls") - 1 else -1
        classes = S.pick("c%d" % i, [None, M.Local, {"Special": M.Other}]) \
            if n in ("local", "type") else None
        if u is None:
            got = result(S, lambda: jsonpickle.decode(text, keys=True, classes=classes), at)
        else:
            got = result(S, lambda: jsonpickle.decode(text, context=u, classes=classes), at)
        want = result(S, lambda: Unpickler(keys=True).restore(docs[n], classes=classes), at)
        S.check(got[0] == want[0], "call %d of decode: %s instead of %s" % (
            i + 1, got[0], want[0]))
        S.iso(want[1], got[1], "call %d of decode" % (i + 1))


ALL = ("list", "hook", "prop", "plain", "nested", "dict", "cycle", "keyed", "tuple", "set", "sub",
       "dd", "new", "red", "hint", "leaf")
FEW = ("list", "hook", "plain", "nested", "cycle", "red")
DOCALL = DOCS + tuple(EXTRA)
DOCFEW = ("hook", "plain", "cycle", "late", "missing", "local", "type", "keyed")

def many(S):
    """A long history."""
    p, u = Pickler(), Unpickler()
    values = Pool(S).values
    names = ["list", "plain", "nested", "cycle", "red", "sub"]
    n = S.pick("n", [10, 33, 130])
    a = S.pick("first", names)
    b = S.pick("second", names)
    M.start_fault(-1)
    for i in range(n):
        data = p.flatten(values[b if i % 3 else a])
        got = u.restore(data)
    v = values[S.pick("last", names)]
    S.iso(Pickler().flatten(v), p.flatten(v), "a call on a used Pickler", identity=False)
    data = Pickler().flatten(v)
    S.iso(Unpickler().restore(data), u.restore(data), "a call on a used Unpickler")


SCENARIOS = [
    dict(name="many", fn=many, quick={}),
    dict(name="flatten", fn=flatten,
         quick=dict(calls=2, values=ALL, opts=tuple(OPTS)), reach=["raised"],
         thorough=dict(calls=3, values=ALL, opts=tuple(OPTS))),
    dict(name="flatten3", fn=flatten,
         quick=dict(calls=3, values=FEW, opts=("default", "norefs", "depth")),
         thorough=dict(calls=4, values=FEW, opts=("default", "norefs", "depth"))),
    dict(name="encode", fn=encode,
         quick=dict(calls=2, values=FEW, opts=("default", "plain", "safe")),
         thorough=dict(calls=3, values=ALL, opts=tuple(OPTS))),
    dict(name="restore", fn=restore, quick=dict(calls=2, values=DOCALL),
         thorough=dict(calls=3, values=DOCALL), reach=["raised", "not found"]),
    dict(name="restore3", fn=restore, quick=dict(calls=3, values=DOCFEW)),
    dict(name="decode", fn=decode, quick=dict(calls=2, values=DOCALL),
         thorough=dict(calls=3, values=DOCALL)),
]
