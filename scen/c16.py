"""C16: custom handlers see their object and data, once, with sharing intact."""
import collections
import json

import jsonpickle
from jsonpickle import handlers
from graphs import G
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` lists, dicts, plain and handled objects with up to `width` slots "
          "each, every slot a leaf, a new object or any earlier one, also inside what handlers "
          "flatten; handler styles, signatures and contexts as choices; leaves symbolic")
ASSUMPTIONS = ["handlers flatten and restore parts through the context with reset=False",
               "a handled object refers to itself only inside a list, dict or instance"]

LOG = {}


def start():
    LOG["flat"] = []
    LOG["rest"] = []
    LOG["ctx"] = []


class Fill(handlers.BaseHandler):
    """Fills the given data."""

    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        data["a"] = self.context.flatten(obj.a, reset=False)
        data["raw"] = [obj.raw, {"py/id": 1, "r": obj.raw}]
        return data

    def restore(self, data):
        o = M.HA()
        LOG["rest"].append((o, data))
        o.a = self.context.restore(data["a"], reset=False)
        o.raw = data["raw"][0]
        return o


class Fresh(Fill):
    """Returns another dict that carries the class name."""

    def flatten(self, obj, data):
        r = dict(data)
        r.update(Fill.flatten(self, obj, {}))
        return r


class Keyed(Fill):
    """Two parts, restored in the order they were flattened."""

    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        data["raw"] = [obj.raw, {"py/id": 1, "r": obj.raw}]
        data["a"] = [self.context.flatten(x, reset=False) for x in (obj.a, obj)]
        return data

    def restore(self, data):
        o = M.HA()
        LOG["rest"].append((o, data))
        o.a = self.context.restore(data["a"][0], reset=False)
        o.raw = data["raw"][0]
        return o


class AsList(Fill):
    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        return [1, self.context.flatten(obj.a, reset=False)]


class AsDict(Fill):
    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        return {"z": self.context.flatten(obj.a, reset=False)}


class AsText(Fill):
    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        self.context.flatten(obj.a, reset=False)
        return "text"


class AsNone(Fill):
    def flatten(self, obj, data):
        LOG["flat"].append(obj)
        self.context.flatten(obj.a, reset=False)


FULL = {"fill": Fill, "fresh": Fresh, "keyed": Keyed}
REPLACE = {"list": AsList, "dict": AsDict, "text": AsText, "none": AsNone}


class HG(G):
    def mk_handled(self, path, depth, h):
        o = M.HA()
        o.raw = len(self.objs)
        ent = self.reg(o)
        a = self.value(path + "0", depth)
        if any(a is e[0] and not e[1] for e in self.objs):
            a = [a]
            self.reg(a)[1] = True
        o.a = a
        ent[1] = True
        return o


def handled(g):
    return [e[0] for e in g.objs if type(e[0]) is M.HA]


def count(log, o):
    return sum(1 for x in log if x is o)


def full(S):
    """The handler writes everything into the given or another tagged dict."""
    start()
    style = S.pick("style", S.p("styles"))
    h = FULL[style]
    if S.flag("instance"):
        h = h(None)
    handlers.register(M.HA, h, base=S.p("base", False))
    kinds = ["handled", S.pick("second", S.p("seconds"))]
    g = HG(S, kinds, S.p("nodes"), width=S.p("width"), leaf="i", leaves=1, keys="conc", cycles=S.p("cycles", True),
           attrs=S.p("subattrs", True), minwidth=S.p("minwidth", 0))
    v = g.build()
    text = jsonpickle.encode(v)
    hs = handled(g)
    if len(hs) > 1:
        S.reach("two")
    for o in hs:
        S.check(count(LOG["flat"], o) == 1, "flatten was not called exactly once")
    S.check(len(LOG["flat"]) == len(hs), "flatten was called for something else")
    r = jsonpickle.decode(text)
    handlers.unregister(M.HA)
    S.obs(r)
    S.iso(v, r, "the graph with handled objects is not rebuilt")
    S.check(len(LOG["rest"]) == len(hs), "restore was not called exactly once per object")
    for o, data in LOG["rest"]:
        S.check(data["py/object"] == "vpmodels.HA", "class name")
        S.check(set(data) == {"py/object", "a", "raw"}, "data")
        S.check(data["raw"] == [o.raw, {"py/id": 1, "r": o.raw}], "raw data was changed")
    if g.shared:
        S.reach("shared")
    if g.cyclic:
        S.reach("cyclic")


def image(v, style):
    """What decoding gives when handlers replace the object."""
    memo = {}

    def go(x):
        if id(x) in memo:
            return memo[id(x)]
        if type(x) is M.HA:
            if style == "text":
                return "text"
            if style == "none":
                return None
            if style == "list":
                r = memo[id(x)] = [1]
                r.append(go(x.a))
            else:
                r = memo[id(x)] = {}
                r["z"] = go(x.a)
            return r
        if type(x) is list:
            r = memo[id(x)] = []
            r.extend([go(y) for y in x])
            return r
        if type(x) is dict:
            r = memo[id(x)] = {}
            for k in x:
                r[k] = go(x[k])
            return r
        if type(x) is M.Plain:
            r = memo[id(x)] = M.Plain()
            for k in x.__dict__:
                setattr(r, k, go(x.__dict__[k]))
            return r
        return x
    return go(v)


def replace(S):
    """The handler returns something else instead."""
    start()
    style = S.pick("style", sorted(REPLACE))
    handlers.register(M.HA, REPLACE[style], base=True)
    kinds = ["handled", S.pick("second", S.p("seconds"))]
    # what a scalar result leaves out cannot be referred to from inside itself
    g = HG(S, kinds, S.p("nodes"), width=S.p("width"), leaf="i", leaves=1, keys="conc",
           cycles=style in ("list", "dict"))
    v = g.build()
    want = image(v, style)
    text = jsonpickle.encode(v)
    if style in ("list", "dict"):
        for o in handled(g):
            S.check(count(LOG["flat"], o) == 1, "flatten was not called exactly once")
    else:
        S.check(all(count(LOG["flat"], o) >= 1 for o in handled(g)) or g.cyclic,
                "flatten was not called")
    r = jsonpickle.decode(text)
    handlers.unregister(M.HA)
    S.check(not LOG["rest"], "restore was called without data of the handler")
    S.obs(r)
    S.iso(want, r, "the handler's result is not what is stored")
    S.reach(style)


class NoCtx(handlers.BaseHandler):
    def flatten(self, obj, data):
        LOG["ctx"].append("none")
        data["a"] = obj.a
        return data

    def restore(self, data):
        LOG["ctx"].append("none")
        o = M.HA()
        o.a = data["a"]
        return o


class Given(handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=NoCtx):
        LOG["ctx"].append(handler_context)
        data["a"] = obj.a
        return data

    def restore(self, data, handler_context=NoCtx):
        LOG["ctx"].append(handler_context)
        o = M.HA()
        o.a = data["a"]
        return o


class KwOnly(Given):
    def flatten(self, obj, data, *, handler_context=NoCtx):
        return Given.flatten(self, obj, data, handler_context)

    def restore(self, data, *, handler_context=NoCtx):
        return Given.restore(self, data, handler_context)


class FlatOnly(Given):
    def restore(self, data):
        return Given.restore(self, data, "none")


class RestOnly(Given):
    def flatten(self, obj, data):
        return Given.flatten(self, obj, data, "none")


CTX = {"noctx": (NoCtx, False, False), "given": (Given, True, True), "kwonly": (KwOnly, True, True),
       "flatonly": (FlatOnly, True, False), "restonly": (RestOnly, False, True)}


def a_context(S, name):
    k = S.pick(name, ["unset", "None", "int", "str", "empty", "obj"])
    if k in ("unset", "None"):
        return ({} if k == "unset" else {"handler_context": None}), NoCtx
    v = (S.int(name + ".i") if k == "int" else S.str(name + ".s") if k == "str" else {} if k == "empty"
         else M.Plain())
    return {"handler_context": v}, v


def context(S):
    """handler_context reaches every call that has the parameter, and only those."""
    start()
    h, flat, rest = CTX[S.pick("style", sorted(CTX))]
    instance = S.flag("instance")
    handlers.register(M.HA, h(None) if instance else h)
    o = M.HA()
    o.a = S.int("a")
    where = S.pick("where", ["top", "list", "dict", "attr", "key", "state", "seq"])
    opts = {}
    p = M.Plain()
    p.v = o
    v = o
    if where == "list":
        v = [o]
    elif where == "dict":
        v = {"k": o}
    elif where == "attr":
        v = p
    elif where == "key":
        v = {o: 1}
        opts["keys"] = True
    elif where == "state":
        v = M.StateDict()
        v.v = o
    elif where == "seq":
        v = M.ListSub([o])
    eopts, ectx = a_context(S, "e")
    dopts, dctx = a_context(S, "d")
    text = jsonpickle.encode(v, **opts, **eopts)
    elog = LOG["ctx"]
    LOG["ctx"] = []
    r = jsonpickle.decode(text, **opts, **dopts)
    dlog = LOG["ctx"]
    handlers.unregister(M.HA)
    S.check(len(elog) == 1 and len(dlog) == 1, "handler not called once")
    for log, has, ctx in ((elog, flat, ectx), (dlog, rest, dctx)):
        if has:
            S.check(log[0] is ctx, "the handler context is not the one given")
            if ctx is not NoCtx:
                S.reach("passed")
        else:
            S.check(log[0] == "none", "context")
            S.reach("not passed")
    S.iso(v, r, "value") if where != "key" else S.check(next(iter(r)).a == o.a, "key")


def calls(S):
    """Contexts of one call do not show up in the next."""
    start()
    handlers.register(M.HA, Given)
    o = M.HA()
    o.a = S.int("a")
    for i in range(S.p("calls")):
        dec = S.flag("dec%d" % i)
        opts, ctx = a_context(S, "c%d" % i)
        LOG["ctx"] = []
        if dec:
            jsonpickle.decode('{"py/object": "vpmodels.HA", "a": 1}', **opts)
        else:
            jsonpickle.encode(o, **opts)
        S.check(len(LOG["ctx"]) == 1 and LOG["ctx"][0] is ctx, "context of another call")
    handlers.unregister(M.HA)


def reused(S):
    """The same with one pickler and unpickler for all calls."""
    start()
    handlers.register(M.HA, Given)
    o = M.HA()
    o.a = S.int("a")
    p = jsonpickle.Pickler()
    u = jsonpickle.Unpickler()
    for i in range(S.p("calls")):
        ctx = S.int("c%d" % i) if S.flag("k%d" % i) else M.Plain()
        LOG["ctx"] = []
        text = jsonpickle.encode([o, o], context=p, handler_context=ctx)
        r = jsonpickle.decode(text, context=u, handler_context=ctx)
        S.check(len(LOG["ctx"]) == 2 and LOG["ctx"][0] is ctx and LOG["ctx"][1] is ctx,
                "context of another call")
        S.check(r[0] is r[1] and r[0].a == o.a, "value")
    handlers.unregister(M.HA)


def plain(S):
    """unpicklable=False stores what the handler returns, without the class name."""
    start()
    style = S.pick("style", ["fill"] + sorted(REPLACE))
    handlers.register(M.HA, FULL.get(style) or REPLACE[style])
    o = M.HA()
    o.raw = 3
    o.a = [S.leaf("x", "nbis")]
    where = S.pick("where", ["top", "list", "attr"])
    p = M.Plain()
    p.v = o
    v = {"top": o, "list": [o, [o]], "attr": p}[where]
    text = jsonpickle.encode(v, unpicklable=False)
    handlers.unregister(M.HA)
    w = {"fill": {"a": o.a, "raw": [3, {"py/id": 1, "r": 3}]}, "list": [1, o.a], "dict": {"z": o.a},
         "text": "text", "none": None}[style]
    S.check(json.loads(text) == {"top": w, "list": [w, [w]], "attr": {"v": w}}[where],
            "not the handler's result")


def large(S):
    """Many handled objects, or one with much in it."""
    start()
    handlers.register(M.HA, Fill)
    n = S.pick("n", [10, 21, 70, 260])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    how = S.pick("how", ["many", "items", "deep"])
    hs = []
    for i in range(n // 4 if how == "deep" else n if how == "many" else 1):
        o = M.HA()
        o.raw = i
        o.a = x
        hs.append(o)
    if how == "many":
        v = [hs, x, hs[at]]
    elif how == "items":
        hs[0].a = [x if i == at else [i] for i in range(n)]
        v = [hs, hs[0].a, x, hs[0].a[at]]
    else:
        for i, o in enumerate(hs[1:]):
            o.a = [hs[i]]
        v = [hs[-1], x, hs[0]]
    text = jsonpickle.encode(v)
    S.check(len(LOG["flat"]) == len(hs), "flatten was not called exactly once per object")
    r = jsonpickle.decode(text)
    handlers.unregister(M.HA)
    S.iso(v, r, "the graph with handled objects is not rebuilt")
    S.check(len(LOG["rest"]) == len(hs), "restore was not called exactly once per object")


def private(cls):
    def make(o, x):
        k = cls()
        k.a = x
        k.hide(o)
        return k
    return make


def attrs(cls, *args):
    def make(o, x):
        k = cls(*args)
        k.a = x
        k.b = o
        return k
    return make


def items(make):
    return lambda o, x: make([("p", x), ("q", o)])


def attr_in(cls):
    def make(o, x):
        k = cls()
        k.up = o
        k.x = x
        return k
    return make


def reduced(o, x):
    k = M.rebuild(M.Reduce3)
    k.a = x
    k.b = o
    return k


HOLDERS = {
    "private": private(M.SlotsPrivate), "lead": private(M._Lead), "kid": private(M.PrivateKid),
    "frozen": lambda o, x: M.Frozen(x, o), "frozen first": lambda o, x: M.Frozen(o, x),
    "data": lambda o, x: M.Data(x, o), "slots": attrs(M.Slots), "plain": attrs(M.Plain),
    "kid of slots": attrs(M.KidOfSlots), "slots and dict": attrs(M.SlotsDict),
    "reduce": reduced, "newargs": attrs(M.NewArgs, 1), "newargs ex": attrs(M.NewArgsEx, 1),
    "dict": items(dict), "dict subclass": items(M.DictSub),
    "ordered": items(collections.OrderedDict),
    "default": lambda o, x: collections.defaultdict(list, {"p": x, "q": o}),
    "list": lambda o, x: [x, o], "list subclass": lambda o, x: M.ListSub([x, o]),
    "set subclass": lambda o, x: M.SetSub([1, o]), "set": lambda o, x: {1, o},
    "deque": lambda o, x: collections.deque([x, o]),
    "dict attribute": attr_in(M.DictSub), "list attribute": attr_in(M.ListSub),
    "set attribute": attr_in(M.SetSub),
}


def within(S):
    """A handled object that holds, in every kind of object, a reference to itself."""
    start()
    handlers.register(M.HA, Fill)
    x = [S.leaf("x", "nbifs")]
    o = M.HA()
    o.raw = 1
    o.a = k = HOLDERS[S.pick("holder", list(HOLDERS))](o, x)
    if S.flag("twice"):
        o.a = [HOLDERS[S.pick("second", ["plain", "private", "frozen", "list"])](k, o), k]
    v = [o] if S.flag("first") else [k, o]
    v += [x, k, o]
    text = jsonpickle.encode(v)
    S.check(len(LOG["flat"]) == 1, "flatten was not called exactly once")
    r = jsonpickle.decode(text)
    handlers.unregister(M.HA)
    S.iso(v, r, "the graph with a handled object is not rebuilt")
    S.check(len(LOG["rest"]) == 1, "restore was not called exactly once")


SCENARIOS = [
    dict(name="within", fn=within, quick={}),
    dict(name="large", fn=large, quick={}),
    dict(name="full", fn=full, quick=dict(nodes=3, width=2, styles=["fill"], seconds=["list"]),
         thorough=dict(nodes=3, width=2, styles=["fill", "fresh", "keyed"],
                       seconds=["list", "dict", "plain", "tuple"]),
         reach=["shared", "cyclic", "two"]),
    dict(name="styles", fn=full,
         quick=dict(nodes=3, width=2, minwidth=2, styles=["fill", "fresh", "keyed"],
                    seconds=["dict", "plain"]),
         thorough=dict(nodes=4, width=2, minwidth=2, styles=["fill", "keyed"],
                       seconds=["list", "plain"]), reach=["shared", "two"]),
    dict(name="cyclic", fn=full,
         quick=dict(nodes=3, width=1, minwidth=1, styles=["fill"], subattrs=False,
                    seconds=["listsub", "dictsub", "setsub", "set", "slots", "plain"]),
         thorough=dict(nodes=3, width=2, styles=["fill", "keyed"], subattrs=False,
                       seconds=["listsub", "dictsub", "setsub", "set", "slots", "plain"]),
         reach=["cyclic"]),
    dict(name="mixed", fn=full,
         quick=dict(nodes=3, width=3, minwidth=3, styles=["fill"], base=True, cycles=False,
                    seconds=["statedict", "listsub", "reduce3", "slots"]),
         reach=["shared"]),
    dict(name="replace", fn=replace, quick=dict(nodes=3, width=2, seconds=["list", "plain"]),
         thorough=dict(nodes=4, width=2, seconds=["list", "dict", "plain"]),
         reach=sorted(REPLACE)),
    dict(name="context", fn=context, quick={}, reach=["passed", "not passed"]),
    dict(name="calls", fn=calls, quick=dict(calls=2), thorough=dict(calls=3)),
    dict(name="reused", fn=reused, quick=dict(calls=2), thorough=dict(calls=4)),
    dict(name="plain", fn=plain, quick={}),
]
