"""C19: fail_safe replaces exactly the failing object."""
import json

import jsonpickle
from jsonpickle import handlers
from graphs import G
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` lists, dicts, plain and hooked objects with sharing and cycles, "
          "any subset of the hooked objects failing in any one of their hooks with one of several "
          "exceptions, any scalar as replacement")
ASSUMPTIONS = ["fail_safe returns a string, number, boolean or None",
               "hooks do not raise TypeError, which marks an unsupported protocol"]


class Handler(handlers.BaseHandler):
    """Fails after it encoded a part."""

    def flatten(self, obj, data):
        data["a"] = self.context.flatten(obj.a, reset=False)
        M.maybe_fail(obj)
        return data

    def restore(self, data):
        o = M.BadHandled()
        o.a = self.context.restore(data["a"], reset=False)
        return o


KINDS = {"state": M.BadState, "newstate": M.BadNewState, "newargs": M.BadNewArgs,
         "newargsex": M.BadNewArgsEx, "reduce": M.BadReduce, "reduceex": M.BadReduceEx,
         "items": M.BadReduceItems, "prop": M.BadProp, "dict": M.BadDict, "list": M.BadList,
         "handler": M.BadHandled}


class BG(G):
    hook = None
    seen = ()

    def mk_bad(self, path, depth, h):
        cls = KINDS[self.hook]
        o = cls.__new__(cls) if cls is not M.BadNewState else M.BadNewState()
        ent = self.reg(o)
        child = self.value(path + "0", depth)
        if any(child is e[0] and not e[1] for e in self.objs):
            child = [child]
            self.reg(child)[1] = True
        if cls is M.BadDict:
            o["a"] = child
        elif cls is M.BadList:
            o.append(child)
        else:
            o.a = child
        if cls is M.BadNewState:
            o.args = (child,)
        M.BAD[id(o)] = self.S.bool(path + "!")
        self.seen = self.seen + (o,)
        ent[1] = True
        return o


def failing(o):
    return any(o is x[0] for x in M.RAISED)


def image(v, value):
    """v with every failing object replaced; the rest keeps its identity structure."""
    memo = {}

    def go(x):
        if id(x) in memo:
            return memo[id(x)]
        if failing(x):
            return value
        t = type(x)
        if t is list or t is M.BadList:
            r = memo[id(x)] = t()
            for y in list.__iter__(x):
                r.append(go(y))
            return r
        if t is tuple:
            return tuple([go(y) for y in x])
        if t is dict or t is M.BadDict:
            r = memo[id(x)] = t()
            for k in dict.keys(x):
                r[k] = go(dict.__getitem__(x, k))
            return r
        if t is M.Plain or t in KINDS.values():
            r = memo[id(x)] = t.__new__(t)
            for k in x.__dict__:
                r.__dict__[k] = go(x.__dict__[k])
            return r
        return x
    return go(v)


def setup(S):
    M.BAD.clear()
    del M.RAISED[:]
    M.BADTYPE[0] = S.pick("exc", S.p("errors", ["ZeroDivisionError"]))
    M.BADTYPE[0] = {"ZeroDivisionError": ZeroDivisionError, "Oops": M.Oops, "KeyError": KeyError,
                    "AttributeError": AttributeError, "RuntimeError": RuntimeError,
                    "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt,
                    "SystemExit": SystemExit}[M.BADTYPE[0]]


def graph(S, cycles=True):
    hook = S.pick("hook", S.p("hooks", sorted(KINDS)))
    if hook == "handler":
        handlers.register(M.BadHandled, Handler)
    g = BG(S, ["bad", S.pick("second", S.p("seconds"))], S.p("nodes"), width=S.p("width"),
           leaf="i", leaves=1, cycles=cycles, keys="conc", minwidth=S.p("minwidth", 0))
    g.hook = hook
    v = g.build()
    S.assume(bool(g.seen))
    opts = {"include_properties": True} if hook == "prop" else {}
    return v, g, opts


def replaced(S):
    setup(S)
    v, g, opts = graph(S, cycles=S.p("cycles", True))
    value = S.leaf("value", S.p("values", "ns"))
    got = []

    def fail_safe(e):
        got.append(e)
        return value

    text = jsonpickle.encode(v, fail_safe=fail_safe, **opts)
    S.check(len(got) == len(M.RAISED), "not called once per exception")
    for i in range(len(got)):
        S.check(got[i] is M.RAISED[i][1], "not called with the exception")
    if M.RAISED:
        S.reach("failed")
    if len(M.RAISED) > 1:
        S.reach("failed again")
    want = image(v, value)
    M.BAD.clear()
    r = jsonpickle.decode(text)
    handlers.unregister(M.BadHandled)
    S.obs(r)
    S.iso(want, r, "not the encoded value with the failing objects replaced", skip=["py/property"])
    if g.shared and M.RAISED:
        S.reach("shared")


def flat(S):
    """Plain JSON output and output without references."""
    setup(S)
    opts = S.pick("opts", [{"unpicklable": False}, {"make_refs": False}])
    hook = S.pick("hook", ["state", "newstate", "handler"])
    if hook == "handler":
        handlers.register(M.BadHandled, Handler)
    g = BG(S, ["bad", "list"], S.p("nodes"), width=S.p("width"), leaf="i", leaves=1, keys="conc")
    g.hook = hook
    v = g.build()
    value = S.leaf("value", "ns")
    text = jsonpickle.encode(v, fail_safe=lambda e: value, **opts)
    want = image(v, value)
    M.BAD.clear()
    handlers.unregister(M.BadHandled)
    handlers.register(M.BadHandled, Handler) if hook == "handler" else None
    if opts.get("make_refs", True):
        S.check(text == jsonpickle.encode(want, unpicklable=False), "plain JSON")
    else:
        r = jsonpickle.decode(text)
        S.iso(want, r, "without references", identity=False)
    handlers.unregister(M.BadHandled)
    if M.RAISED:
        S.reach("failed")


def iterator(S):
    """An iterator that fails after some items."""
    setup(S)
    x = [S.int("x")]
    it = M.BadIter(x)
    M.BAD[id(it)] = True
    value = S.leaf("value", "nis")
    before = S.flag("before")
    y = [2]
    v = [y, x, it, x, y] if before else [y, it, x, x, y]
    r = jsonpickle.decode(jsonpickle.encode(v, fail_safe=lambda e: value))
    want = [y, x, value, x, y] if before else [y, value, x, x, y]
    S.iso(want, r, "failing iterator")
    S.check(len(M.RAISED) == 1, "iterated again")


def key(S):
    """A dict whose key has no string form, and a key object that fails with keys=True."""
    setup(S)
    x = [S.int("x")]
    keys = S.flag("keys")
    value = S.leaf("value", "ni" if keys else "nis")
    if keys:
        k = M.BadState()
        k.a = x
        M.BAD[id(k)] = True
        d = {"a": x, k: 1}
        v = [d, x, d]
        r = jsonpickle.decode(jsonpickle.encode(v, keys=True, fail_safe=lambda e: value), keys=True)
        S.iso([x, r[0]], [r[1], r[2]], "sharing after a failing key", identity=False)
        S.check(r[0] is r[2] and r[0]["a"] is r[1] and len(r[0]) == 2, "the rest of the dict")
        other = [z for z in r[0] if z != "a"]
        S.check(len(other) == 1 and r[0][other[0]] == 1, "value of a failing key")
        S.check(other[0] == value, "key")
    else:
        k = M.BadKey()
        M.BAD[id(k)] = True
        d = {"a": x, k: 1}
        v = [d, x, [x]]
        r = jsonpickle.decode(jsonpickle.encode(v, fail_safe=lambda e: value))
        S.iso([value, x, [x]], r, "dict with a failing key")
    S.check(bool(M.RAISED), "did not fail")


def propagate(S):
    """Without fail_safe, and for exits, the exception itself gets out."""
    setup(S)
    exits = M.BADTYPE[0] in (KeyboardInterrupt, SystemExit)
    v, g, opts = graph(S)
    if exits and S.flag("safe"):
        opts["fail_safe"] = lambda e: S.fail("fail_safe called")
    try:
        jsonpickle.encode(v, **opts)
        err = None
    except (M.BADTYPE[0]) as e:
        err = e
    handlers.unregister(M.BadHandled)
    if M.RAISED:
        S.check(len(M.RAISED) == 1 and err is M.RAISED[0][1], "not the exception")
        S.reach("raised")
    else:
        S.check(err is None, "an exception of something else")
    # the next call is not affected
    M.BAD.clear()
    S.iso([1, [2]], jsonpickle.decode(jsonpickle.encode([1, [2]])), "next call")


HOLDERS = ["tuple", "dict", "plain", "slots", "slotskid", "listsub", "dictsub", "statedict",
           "statetuple", "reduce3", "reduceex", "reduce2", "newargs", "newargsex", "nt"]
ERRORS = ["ZeroDivisionError", "Oops", "KeyError", "AttributeError", "RuntimeError", "OSError"]

def large(S):
    """A failing object among many, and many that fail."""
    M.BAD.clear()
    del M.RAISED[:]
    M.BADTYPE[0] = ZeroDivisionError
    n = S.pick("n", [10, 21, 70, 150])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    fails = S.bool("fails")
    many = S.flag("many")
    v = []
    for i in range(n):
        o = KINDS["state"]() if many or i == at else M.Plain()
        o.a = x
        if many or i == at:
            M.BAD[id(o)] = fails
        v.append(o)
    v = [v, x, v[n - 1], v[0]]
    value = S.leaf("value", "ns")
    text = jsonpickle.encode(v, fail_safe=lambda e: value)
    want = image(v, value)
    M.BAD.clear()
    S.iso(want, jsonpickle.decode(text), "not the encoded value with the failing objects replaced")


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="replaced", fn=replaced,
         quick=dict(nodes=3, width=2, hooks=["state", "newstate"], seconds=["list"], values="n"),
         thorough=dict(nodes=4, width=2, hooks=["state", "newstate", "handler"],
                       seconds=["list", "plain"], values="n", minwidth=1),
         reach=["failed", "failed again", "shared"]),
    dict(name="hooks", fn=replaced,
         quick=dict(nodes=3, width=2, minwidth=2, seconds=["list", "plain"]),
         thorough=dict(nodes=3, width=2, seconds=["list", "plain", "dict"], values="nis"),
         reach=["failed", "shared"]),
    dict(name="wide", fn=replaced,
         quick=dict(nodes=3, width=3, minwidth=3, hooks=["newstate", "handler", "dict"],
                    seconds=["list", "dict"], values="s", cycles=False), reach=["failed", "shared"]),
    dict(name="errors", fn=replaced,
         quick=dict(nodes=2, width=2, errors=ERRORS, seconds=["list"], values="s"),
         reach=["failed"]),
    dict(name="flat", fn=flat, quick=dict(nodes=3, width=2), reach=["failed"]),
    dict(name="iterator", fn=iterator, quick={}),
    dict(name="key", fn=key, quick={}),
    dict(name="propagate", fn=propagate,
         quick=dict(nodes=2, width=2, seconds=["list"],
                    errors=["KeyboardInterrupt", "SystemExit", "Oops"]),
         reach=["raised"]),
    dict(name="holders", fn=propagate,
         quick=dict(nodes=2, width=1, minwidth=1, errors=ERRORS, seconds=HOLDERS),
         thorough=dict(nodes=3, width=2, minwidth=1, errors=["AttributeError", "KeyError"],
                       seconds=HOLDERS), reach=["raised"]),
]
