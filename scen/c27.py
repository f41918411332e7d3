"""C27: exceptions raised by hooks while decoding reach the caller."""
import jsonpickle
from jsonpickle import handlers
import vpmodels as M

BOUNDS = ("one object whose hook raises when a symbolic value is above a symbolic limit, below up to `depth` holders of every kind, with symbolic leaves "
          "beside it; every hook that decoding calls and seven exception classes")
ASSUMPTIONS = ["constructors and the functions of reduce values do not raise TypeError, which means to "
               "decoding that the arguments do not fit",
               "item setters of dict subclasses do not raise TypeError (an immutable mapping), nor do "
               "hash functions",
               "attribute setters do not raise KeyError"]

ERRORS = {"ZeroDivisionError": ZeroDivisionError, "Oops": M.Oops, "KeyError": KeyError,
          "AttributeError": AttributeError, "TypeError": TypeError, "ValueError": ValueError,
          "IndexError": IndexError}


class Handler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["a"] = self.context.flatten(obj.a, reset=False)
        return data

    def restore(self, data):
        M.load_fails(data["a"])
        o = M.LoadHandled()
        o.a = self.context.restore(data["a"], reset=False)
        return o


class Passes(handlers.BaseHandler):
    """Restores what it holds."""

    def flatten(self, obj, data):
        data["a"] = [self.context.flatten(obj.a, reset=False)]
        return data

    def restore(self, data):
        o = M.HA()
        o.a = self.context.restore(data["a"][0], reset=False)
        return o


def with_a(cls):
    def make(v):
        o = cls()
        o.a = v
        return o
    return make


def with_items(cls):
    def make(v):
        o = cls()
        (o.log if cls is not M.LoadList else o).append(v)
        return o
    return make


def pairs(v):
    o = M.LoadPairs()
    o.log.append(("k", v))
    return o


def with_key(v):
    o = M.LoadDict()
    o["k"] = v
    return o


def with_member(v):
    o = M.LoadSet()
    o.add(v)
    return o


HOOKS = {
    "setstate": with_a(M.LoadState), "reduce setstate": with_a(M.LoadReduce), "new": M.LoadNew,
    "function": M.LoadFunc, "append": with_items(M.LoadItems), "extend": with_items(M.LoadExtend),
    "setitem": pairs, "list subclass": with_items(M.LoadList), "setter": with_a(M.LoadProp),
    "state setter": with_a(M.LoadSetter), "handler": with_a(M.LoadHandled),
    "dict subclass": with_key, "set subclass": with_member, "attribute": with_a(M.LoadAttr),
    "hash": M.LoadHash, "slots": with_a(M.LoadSlots), "slot state": with_a(M.LoadSlotState),
}


def hold(S, kind, v, x):
    """A value of the kind that holds v, beside x."""
    if kind == "list":
        return [x, v]
    if kind == "tuple":
        return (x, v)
    if kind == "set":
        return {v}
    if kind == "setsub":
        r = M.SetSub()
        r.add(v)
        return r
    if kind == "listsub":
        r = M.ListSub()
        r.append(v)
        return r
    if kind == "dict":
        return {"j": x, "k": v}
    if kind == "dictsub":
        r = M.DictSub()
        r["k"] = v
        return r
    if kind == "key":
        return {v: x}
    if kind == "newargs":
        return M.NewArgs(v)
    if kind == "newargsex":
        return M.NewArgsEx(x, k=v)
    if kind == "initargs":
        r = M.InitArgs()
        r.a = v
        return r
    if kind == "deque":
        return M.collections.deque([x, v])
    if kind == "odict":
        return M.collections.OrderedDict([("k", v)])
    if kind in ("reduce args", "reduce state"):
        a = (v,) if kind == "reduce args" else ()
        r = M.Rec(*a)
        if kind == "reduce state":
            r.s = v
        M.REDUCE[id(r)] = (M.Rec, a, {"s": v} if kind == "reduce state" else None)
        return r
    r = {"plain": M.Plain, "slots": M.Slots, "statedict": M.StateDict, "statetuple": M.StateTuple,
         "handled": M.HA}[kind]()
    r.a = v
    if kind == "statetuple":
        r.b = x
    return r


HOLDERS = ["list", "tuple", "set", "setsub", "listsub", "dict", "dictsub", "key", "newargs", "newargsex",
           "initargs", "deque", "odict", "reduce args", "reduce state", "plain", "slots", "statedict",
           "statetuple", "handled"]
HASHABLE = {"set", "setsub", "key"}


def raises(S):
    M.LOADERR[0] = None
    del M.LOADED[:]
    handlers.register(M.LoadHandled, Handler)
    handlers.register(M.HA, Passes)
    hook = S.pick("hook", S.p("hooks"))
    a = S.int("v")
    M.LOADLIMIT[0] = S.int("limit")
    v = HOOKS[hook](a)
    keys = False
    called = hook != "hash"
    hashable = hook not in ("list subclass", "dict subclass", "set subclass")
    for i in range(S.pick("depth", S.p("depth") + 1)):
        kind = S.pick("holder%d" % i, S.p("holders"))
        S.assume(hashable or kind not in HASHABLE)
        v = hold(S, kind, v, S.int("x%d" % i))
        keys = keys or kind == "key"
        called = called or kind in HASHABLE and i == 0
        hashable = kind in ("newargs", "newargsex", "initargs", "plain", "slots", "statedict",
                            "statetuple", "handled", "reduce args", "reduce state")
    doc = jsonpickle.encode([v, v], keys=keys)
    err = S.pick("exc", S.p("errors"))
    if err == "TypeError":
        S.assume(hook not in ("new", "function", "dict subclass", "hash"))
    if err == "KeyError":
        S.assume(hook not in ("setter", "attribute"))
    M.LOADERR[0] = ERRORS[err]
    got = None
    try:
        r = jsonpickle.decode(doc, keys=keys)
    except Exception as e:
        got = e
    M.LOADERR[0] = None
    if a <= M.LOADLIMIT[0] or not called:
        S.check(got is None, "an exception of something else")
        S.iso([v, v], r, "result")
        S.reach("quiet")
        return
    S.check(bool(M.LOADED), "the hook was not called")
    S.check(len(M.LOADED) == 1, "decoding went on")
    S.check(got is M.LOADED[0], "not the exception of the hook")
    S.iso(jsonpickle.decode('[{"k": 1}, {"py/id": 1}]')[1], {"k": 1}, "next call")
    S.reach(hook)
    S.reach(err)


def missing(S):
    """The function for missing classes raises."""
    M.LOADERR[0] = None
    del M.LOADED[:]
    handlers.register(M.HA, Passes)
    v = M.Plain()
    v.a = S.int("v")
    for i in range(S.pick("depth", S.p("depth") + 1)):
        v = hold(S, S.pick("holder%d" % i, S.p("holders")), v, S.int("x%d" % i))
    p = jsonpickle.Pickler()
    doc = rename(p.flatten(v))
    err = S.pick("exc", list(ERRORS))
    policy = S.pick("policy", ["function", "error"])

    def on_missing(name):
        e = ERRORS[err](name)
        M.LOADED.append(e)
        raise e

    got = None
    try:
        jsonpickle.Unpickler(on_missing=on_missing if policy == "function" else "error").restore(doc)
    except (Exception, jsonpickle.errors.ClassNotFoundError) as e:
        got = e
    if policy == "function":
        S.check(len(M.LOADED) == 1 and got is M.LOADED[0], "not the exception of the function")
    else:
        S.check(isinstance(got, jsonpickle.errors.ClassNotFoundError), "no ClassNotFoundError")
    S.reach(policy)


def rename(d):
    """The data with another class name for plain objects."""
    if type(d) is dict:
        return {k: "vpmodels.Gone" if k == "py/object" and v == "vpmodels.Plain" else rename(v)
                for k, v in d.items()}
    if type(d) is list:
        return [rename(v) for v in d]
    return d


SCENARIOS = [
    dict(name="raises", fn=raises,
         quick=dict(depth=2, hooks=list(HOOKS), holders=HOLDERS, errors=list(ERRORS)),
         reach=list(HOOKS) + list(ERRORS) + ["quiet"]),
    dict(name="deep", fn=raises, quick=None,
         thorough=dict(depth=3, hooks=list(HOOKS), holders=HOLDERS,
                       errors=["AttributeError", "TypeError", "KeyError"])),
    dict(name="missing", fn=missing,
         quick=dict(depth=2, holders=[h for h in HOLDERS if h not in ("key", "plain") and h not in HASHABLE]),
         reach=["function", "error"]),
]
