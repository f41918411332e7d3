"""C20: classes, functions and types resolve to the ones that were named."""
import collections
import datetime
import decimal
import json
import os.path
import sys
import types

import jsonpickle
from jsonpickle.unpickler import Unpickler
import vpmodels as M
import vpmod
import vppkg
import vppkg.sub
import vpshade
import vptwin

SHADED = sys.modules["vpshade.part"]

BOUNDS = ("a list of classes, types and functions of different kinds; names of 1 to `pieces` dotted "
          "pieces that are any strings not starting with two underscores; every form of the classes argument with up to two entries "
          "whose names are any strings or of importable classes")
ASSUMPTIONS = ("a module name other than vpmod, vppkg and vppkg.sub is not importable",)

TYPES = [int, bool, str, float, bytes, list, dict, tuple, set, frozenset, type, object, type(None),
         complex, range, bytearray, memoryview, slice, property, ValueError, KeyboardInterrupt,
         M.Plain, M.Outer.Inner, M.Color, M.NT, M.StateDict, M.ListSub, datetime.datetime,
         datetime.timezone, decimal.Decimal, collections.OrderedDict, collections.defaultdict,
         collections.deque, types.FunctionType, types.MethodType, types.ModuleType,
         types.BuiltinFunctionType, types.GeneratorType, types.SimpleNamespace, vpmod.Thing,
         vpmod.Outer.Inner, vppkg.sub.Far, jsonpickle.Pickler, vpmod.Outer.Inner.Core,
         vpmod.Outer.Inner.Core.Seed, vpmod.Outer.Inner.Core.Seed.Germ, vppkg.sub.Far.Away,
         vppkg.sub.Far.Away.Beyond, vpshade.part, SHADED.Thing, SHADED.Thing.Inner]
FUNCS = [vptwin.lambda_, vptwin.make_lambda, vptwin._hidden, vptwin.function, vptwin.None_, vptwin.λ,
         SHADED.work, M.func, len, print, json.dumps, os.path.join, M.rebuild, isinstance,
         jsonpickle.encode, datetime.datetime.now.__class__]


def place(S, v):
    p = M.Plain()
    p.a = v
    p.b = [v]
    return S.pick("where", [v, [v, v], {"k": v}, (v, 1), p, [[v], p, p.b]])


def values(S):
    """A class, type or function as a value anywhere is the same object afterwards."""
    v = S.pick("v", TYPES + FUNCS)
    x = place(S, v)
    r = jsonpickle.decode(jsonpickle.encode(x))
    S.iso(x, r, "not the same class or function")
    keys = S.flag("keys")
    if keys:
        r = jsonpickle.decode(jsonpickle.encode({v: 1}, keys=True), keys=True)
        S.check(list(r) == [v] and list(r)[0] is v, "key")


def instances(S):
    """Every importable class name of an instance is found again, with the class as given."""
    c = S.pick("c", [M.Plain, M.Outer.Inner, vpmod.Thing, vpmod.Outer, vpmod.Outer.Inner,
                     vppkg.sub.Far, M.Slots, M.StateDict, M.DictSub, vpmod.Outer.Inner.Core,
                     vpmod.Outer.Inner.Core.Seed, vpmod.Outer.Inner.Core.Seed.Germ,
                     vppkg.sub.Far.Away, vppkg.sub.Far.Away.Beyond, SHADED.Thing, SHADED.Thing.Inner])
    o = c()
    if c not in (M.DictSub, M.Slots):
        o.a = S.int("a")
    r = jsonpickle.decode(jsonpickle.encode([o, c]))
    S.check(type(r[0]) is c and r[1] is c, "class")
    if c not in (M.DictSub, M.Slots):
        S.check(r[0].a == o.a, "value")


# -- names
MODS = {"vpmod": vpmod, "vppkg": vppkg, "vppkg.sub": vppkg.sub}


def resolve(name):
    names = name.split(".")
    for i in range(len(names) - 1, 0, -1):
        mod = ".".join(names[:i])
        obj = None
        for m in MODS:
            if mod == m:
                obj = MODS[m]
        if obj is None:
            continue
        ok = True
        for n in names[i:]:
            if hasattr(obj, n):
                obj = getattr(obj, n)
            else:
                ok = False
                break
        if ok:
            return obj
    return None


def same(a, b):
    # methods are made anew each time they are looked up
    return a is b or type(a) is type(b) and a == b and isinstance(
        a, (types.MethodType, types.BuiltinMethodType, types.MethodWrapperType))


def a_name(S, path):
    n = S.p("pieces")
    ps = [S.str("%s%d" % (path, i), without=".", nopre=("__",), neq=("builtins", "exceptions"))
          for i in range(S.pick(path + "#", list(range(1, n + 1))))]
    return ".".join(ps)


class A:
    pass


class B:
    pass


def names(S):
    """Any name, without classes of the caller."""
    name = a_name(S, "n")
    k = S.pick("kind", ["py/type", "py/function"])
    want = resolve(name)
    wrap = S.flag("wrap")
    doc = {k: name}
    r = jsonpickle.decode(json.dumps([doc] if wrap else doc))
    if wrap:
        r = r[0]
    if want is not None:
        S.check(same(r, want), "not the named object")
        S.reach("found " + k)
    elif k == "py/function":
        S.check(r is None, "a function that does not exist")
        S.reach("not found")
    else:
        S.check(type(r) is dict and list(r) == [k] and r[k] == name, "a type that does not exist")


NAMED = ["vpmod.Thing", "vpmod.Outer.Inner", "vppkg.sub.Far", "nowhere.Gone", "Gone", "Thing",
         "a.b.Inner", "Inner"]


def given(S):
    """Classes of the caller take precedence, and only for names that match."""
    form = S.pick("form", ["dict", "dict2", "shadow", "both"])
    if form == "dict":
        key = S.pick("key", NAMED)
        classes = {key: A}
        reg = {key: A}
    elif form == "dict2":
        k1 = S.pick("k1", NAMED)
        k2 = S.pick("k2", NAMED)
        S.assume(k1 != k2)
        classes = {k1: A, k2: B}
        reg = {k1: A, k2: B}
    elif form == "shadow":
        classes = {vpmod.Thing: A, "Inner": B}
        reg = {"vpmod.Thing": A, "Inner": B}
    else:
        classes = [{"vpmod.Thing": A}, (vpmod.Outer.Inner, {"Far": B})]
        reg = {"vpmod.Thing": A, "vpmod.Outer.Inner": vpmod.Outer.Inner, "Far": B}
    name = a_name(S, "n") if S.p("sym") else S.pick("name", NAMED)
    matched(S, name, classes, reg)


def symbolic(S):
    """A dict entry with any name."""
    key = a_name(S, "k")
    name = a_name(S, "n")
    matched(S, name, {key: A}, {key: A})


def matched(S, name, classes, reg):
    want = None
    for k in reg:
        if name == k:
            want = reg[k]
            S.reach("full name")
            break
    else:
        last = name.split(".")[-1]
        for k in reg:
            if last == k:
                want = reg[k]
                S.reach("last component")
                break
        else:
            want = resolve(name)
            if want is not None:
                S.reach("importable")
    k = S.pick("kind", ["py/type", "py/function", "py/object"][:2 if S.p("sym") else 3])
    opts = S.pick("opts", [{}, {"on_missing": "ignore"}, {"v1_decode": True}][:S.p("opts", 1)])
    r = jsonpickle.decode(json.dumps({"x": [{k: name}]}), classes=classes, **opts)["x"][0]
    if k == "py/object":
        if want is None:
            S.check(type(r) is dict, "an instance of a class that does not exist")
        elif isinstance(want, type):
            S.check(type(r) is want, "instance of another class")
    elif want is not None:
        S.check(same(r, want), "not the class given or named")
    elif k == "py/function":
        S.check(r is None, "a function that does not exist")
    else:
        S.check(type(r) is dict and r[k] == name, "a type that does not exist")


class Local:
    pass


class Local2:
    pass


def forms(S):
    """Single class, sequences and dicts; for this call only."""
    Local.__module__ = Local2.__module__ = "hidden.place"
    form = S.pick("form", ["class", "list", "tuple", "set", "names", "classes", "nested", "short",
                           "none", "empty"])
    classes = {"class": Local, "list": [Local, Local2], "tuple": (Local2, Local),
               "set": {Local, Local2}, "names": {"hidden.place.Local": Local},
               "classes": {Local: Local}, "nested": [[Local2], (Local,)], "short": {"Local": Local},
               "none": None, "empty": []}[form]
    o = Local()
    o.a = S.int("a")
    o.b = [o]
    text = jsonpickle.encode([o, Local, o])
    reuse = S.flag("reuse")
    u = Unpickler() if reuse else None
    kw = {"context": u} if reuse else {}
    r = jsonpickle.decode(text, classes=classes, **kw)
    if form in ("none", "empty"):
        S.check(type(r[0]) is dict, "class that is not given")
    else:
        S.check(type(r[0]) is Local and r[1] is Local and r[2] is r[0], "class that is given")
        S.check(r[0].a == o.a and r[0].b[0] is r[0], "value")
        S.reach("given")
    # later calls do not know it
    r = jsonpickle.decode(text, **kw)
    S.check(type(r[0]) is dict and r[1] == {"py/type": "hidden.place.Local"}, "kept for the next call")
    S.check(r[2] is r[0], "sharing")
    # two forms in a row
    r = jsonpickle.decode(text, classes=Local2, **kw)
    S.check(type(r[0]) is dict, "another class is used")


def args(S):
    """Names inside reduce and constructor data resolve in the same way."""
    name = S.pick("name", ["vpmod.Thing", "nowhere.Thing", "Thing"])
    classes = {name: A} if S.flag("full") else {"Thing": A}
    if name == "vpmod.Thing" and S.flag("without"):
        classes = None
    want = A if classes else vpmod.Thing
    k = S.pick("k", ["reduce", "newargs", "newargsex", "state", "key"])
    t = {"py/type": name}
    if k == "reduce":
        doc = {"py/reduce": [{"py/type": "vpmodels.Reduce2"}, {"py/tuple": [t]}]}
        r = jsonpickle.decode(json.dumps(doc), classes=classes).args[0]
    elif k == "newargs":
        doc = {"py/object": "vpmodels.NewArgs", "py/newargs": {"py/tuple": [t]}}
        r = jsonpickle.decode(json.dumps(doc), classes=classes).a
    elif k == "newargsex":
        doc = {"py/object": "vpmodels.NewArgsEx", "py/newargsex": [{"py/tuple": [t]}, {"k": 1}]}
        r = jsonpickle.decode(json.dumps(doc), classes=classes).a
    elif k == "state":
        doc = {"py/object": "vpmodels.LiveState", "py/state": {"a": t}}
        r = jsonpickle.decode(json.dumps(doc), classes=classes).a
    else:
        doc = {"json://" + json.dumps(t): 1}
        r = list(jsonpickle.decode(json.dumps(doc), classes=classes, keys=True))[0]
    S.check(r is want, "class inside data")
    # made by calling the type itself
    doc = {"py/reduce": [t, {"py/tuple": []}]}
    r = jsonpickle.decode(json.dumps(doc), classes=classes)
    S.check(type(r) is want, "reduced instance")


def old(S):
    """Old names of the builtins module still resolve."""
    t = S.pick("t", [int, str, dict, ValueError, set])
    m = S.pick("m", ["builtins", "__builtin__", "exceptions"])
    r = jsonpickle.decode(json.dumps([{"py/type": m + "." + t.__name__}]))
    S.check(r[0] is t, "builtin type")
    S.check(jsonpickle.encode(t) == '{"py/type": "builtins.%s"}' % t.__name__, "name of a builtin")


SCENARIOS = [
    dict(name="values", fn=values, quick={}),
    dict(name="instances", fn=instances, quick={}),
    dict(name="names", fn=names, quick=dict(pieces=5), thorough=dict(pieces=6),
         reach=["found py/type", "found py/function", "not found"]),
    dict(name="given", fn=given, quick=dict(sym=False, opts=3),
         reach=["full name", "last component", "importable"]),
    dict(name="givensym", fn=given, quick=dict(sym=True, pieces=2),
         thorough=dict(sym=True, pieces=3), reach=["full name", "last component"]),
    dict(name="symbolic", fn=symbolic, quick=dict(sym=True, pieces=2), thorough=dict(sym=True, pieces=3),
         reach=["full name", "last component"]),
    dict(name="forms", fn=forms, quick={}, reach=["given"]),
    dict(name="args", fn=args, quick={}),
    dict(name="old", fn=old, quick={}),
]
