"""C05: instance state round-trips under every class protocol."""
import jsonpickle
import vpgrid as V
import vpmodels as M
from graphs import bulk, chain

BOUNDS = ("one instance of every protocol class, and of every combination of base class, storage, state "
          "protocol and construction protocol, optionally holding a second one; every subset of "
          "its attributes set; attribute values symbolic leaves, lists, tuples or instances; "
          "symbolic attribute names for classes with an instance dict; every kind of holder")

HOLDERS = ["top", "list", "tuple", "dict", "attr", "slot", "state"]


def value(S, p, deep):
    o = S.pick(p + "?", ["leaf", "list", "tuple", "none", "inst"] if deep else ["leaf"])
    if o == "leaf":
        return S.leaf(p)
    if o == "list":
        return [S.int(p)]
    if o == "tuple":
        return (S.int(p), 1)
    if o == "none":
        return None
    x = M.Plain()
    x.a = S.int(p)
    return x


def some(S, obj, names, deep=True):
    """Set any subset of the attributes."""
    first = True
    for n in names:
        if S.flag("set " + n):
            setattr(obj, n, value(S, "v" + n, deep and first))
            first = False


def all_of(S, obj, names):
    for n in names:
        setattr(obj, n, value(S, "v" + n, n == names[0]))


def build(S, k):
    if k in ("Plain", "Other", "StateDict", "StateOnly", "Kid", "SlotsDict",
             "KidOfSlots"):
        o = getattr(M, k)()
        some(S, o, ("a", "b"))
    elif k == "Slots":
        o = M.Slots()
        some(S, o, ("a", "b"))
    elif k == "SlotsOverDict":
        o = M.SlotsOverDict()
        some(S, o, ("a", "c"))
    elif k == "SlotsWithClassAttr":
        o = M.SlotsWithClassAttr()
        some(S, o, ("a",))
    elif k == "PrivateKid":
        o = M.PrivateKid()
        some(S, o, ("a", "b"), False)
        if S.flag("hide"):
            o.hide(S.leaf("h"))
    elif k == "_Lead":
        o = M._Lead()
        some(S, o, ("a",), False)
        if S.flag("hide"):
            o.hide(S.leaf("h"))
    elif k == "StateNone":
        o = M.StateNone()
        o.a = value(S, "va", True)
    elif k == "StateScalar":
        o = M.StateScalar()
        o.a = S.pick("st", [S.str("sv", minlen=1), [1], (2,), 1.5, True, {"py": 1}])
    elif k == "SlotsKid":
        o = M.SlotsKid()
        some(S, o, ("a", "b", "c"), False)
    elif k == "SlotStr":
        o = M.SlotStr()
        some(S, o, ("a",))
    elif k == "SlotsPrivate":
        o = M.SlotsPrivate()
        some(S, o, ("a",))
        if S.flag("hide"):
            o.hide(S.leaf("h"))
    elif k == "StatePair":
        o = M.StatePair()
        o.s = value(S, "vs", True)
        some(S, o, ("a",))
    elif k == "InitArgs":
        o = M.InitArgs()
        all_of(S, o, ("a",))
    elif k == "TupleSub":
        o = M.TupleSub((value(S, "va", True), value(S, "vb", False)))
    elif k == "NewArgsTwo":
        o = M.NewArgsTwo(value(S, "va", True), 1, k=value(S, "vb", False), m=2)
        some(S, o, ("c",), False)
    elif k in ("StateTuple", "StateList", "SlotsState", "SlotsPair"):
        o = getattr(M, k)()
        all_of(S, o, ("a", "b"))
    elif k == "NewArgs":
        o = M.NewArgs(value(S, "va", True))
        some(S, o, ("b",), False)
    elif k == "NewArgsEx":
        o = M.NewArgsEx(value(S, "va", True), k=value(S, "vk", False))
    elif k == "NewArgsExPos":
        o = M.NewArgsExPos(value(S, "va", True))
    elif k == "NewArgsState":
        o = M.NewArgsState(value(S, "va", True))
        o.b = value(S, "vb", False)
    elif k == "NT":
        o = M.NT(value(S, "va", True), value(S, "vb", False))
    elif k == "Data":
        o = M.Data(value(S, "va", True), value(S, "vb", False))
    elif k == "Frozen":
        o = M.Frozen(value(S, "va", True), value(S, "vb", False))
    elif k == "Empty":
        o = M.Empty()
    elif k == "Inner":
        o = M.Outer.Inner()
        some(S, o, ("a",))
    elif k in ("Color", "Level", "Bits", "StrEnum"):
        o = S.pick("member", list(getattr(M, k)))
    elif k == "DictSub":
        o = M.DictSub()
        if S.flag("item"):
            o[S.str("key", nopre=("py/", "json://"), neq=("__dict__",))] = value(S, "vi", True)
        some(S, o, ("a",), False)
    elif k == "ListSub":
        o = M.ListSub()
        if S.flag("item"):
            o.append(value(S, "vi", True))
            o.append(value(S, "vj", False))
        some(S, o, ("a",), False)
    elif k == "SetSub":
        o = M.SetSub()
        if S.flag("item"):
            o.add(S.leaf("vi"))
        some(S, o, ("a",), False)
    return o


KINDS = ["Plain", "Kid", "Slots", "SlotsKid", "SlotStr", "SlotsPrivate", "SlotsDict", "StateDict",
         "StateTuple", "StateList", "StateOnly", "SlotsState", "NewArgs", "NewArgsEx",
         "NewArgsExPos", "NewArgsState", "NT", "Data", "Frozen", "Empty", "Inner", "Color", "Level",
         "Bits", "StrEnum", "SlotsOverDict", "SlotsWithClassAttr", "PrivateKid", "_Lead",
         "StateNone", "StateScalar", "KidOfSlots", "StatePair", "SlotsPair",
         "InitArgs", "TupleSub", "NewArgsTwo", "DictSub", "ListSub", "SetSub"]


def hold(h, o):
    if h == "top":
        return o
    if h == "list":
        return [o]
    if h == "tuple":
        return (o, 1)
    if h == "dict":
        return {"k": o}
    if h == "attr":
        p = M.Plain()
        p.a = o
        return p
    if h == "slot":
        p = M.Slots()
        p.b = o
        return p
    p = M.StateTuple()
    p.a = o
    p.b = 1
    return p


def trip(S, v, want, **kw):
    text = jsonpickle.encode(v, **kw)
    r = jsonpickle.decode(text, **({"keys": True} if kw.get("keys") else {}))
    S.obs(r)
    S.iso(want, r, "the instance does not round-trip")


def protocols(S):
    """Every protocol, every holder."""
    k = S.pick("cls", KINDS)
    o = build(S, k)
    h = S.pick("holder", HOLDERS)
    v = hold(h, o)
    trip(S, v, v)
    S.reach(k)


def simple(S, k, p, v):
    """An instance of class k holding v."""
    if k in ("NewArgs", "NewArgsExPos"):
        return getattr(M, k)(v)
    if k == "NewArgsEx":
        return M.NewArgsEx(p, k=v)
    if k == "NewArgsState":
        o = M.NewArgsState(p)
        o.b = v
        return o
    if k in ("NT", "Data", "Frozen"):
        return getattr(M, k)(p, v)
    if k == "ListSub":
        o = M.ListSub()
        o.append(v)
        o.a = p
        return o
    if k == "DictSub":
        o = M.DictSub()
        o["k"] = p
        o.a = v
        return o
    o = M.Outer.Inner() if k == "Inner" else getattr(M, k)()
    o.a = p
    if hasattr(o, "hide"):
        o.hide(v)
    elif k not in ("SlotStr", "SlotsWithClassAttr", "StateNone"):
        o.b = v
    return o


PAIR = [k for k in KINDS if k not in ("Empty", "Color", "Level", "Bits", "StrEnum", "SetSub",
                                      "StateScalar", "StatePair", "TupleSub", "NewArgsTwo")]


def pairs(S):
    """An instance of any class inside an instance of any class, then a second reference."""
    a = simple(S, S.pick("in", PAIR), S.leaf("x"), 1)
    b = simple(S, S.pick("out", PAIR), S.leaf("y"), a)
    v = [b, a] if S.flag("after") else [a, b]
    trip(S, v, v)


def grid(S):
    """Every combination of base class, storage, state protocol and construction protocol."""
    base = S.pick("base", V.BASES)
    store = S.pick("store", V.STORES)
    # the state protocol of a container subclass replaces its items
    state = "none" if base in ("list", "dict", "set") else S.pick("state", V.STATES)
    new = S.pick("new", V.NEWS)
    cls = V.GRID[base, store, state, new]
    o = cls() if new == "none" else cls(0)
    names = V.attributes(base, store)
    if base == "dict" and store != "dict":
        # known finding, see `dictslots`
        names = [n for n in names if store == "both" and n == "b"]
        if new != "none":
            names = ["a"] + names
    unset = S.pick("unset", ["nothing"] + names[new != "none":])
    for i, n in enumerate(names):
        if n == unset:
            continue
        v = [S.int("v" + n)] if i == 1 else S.leaf("v" + n)
        if n == "*put":
            o.put(v)
        elif n.startswith("*"):
            setattr(o, "_%s__%s" % (cls.__name__, n[1:]), v)
        else:
            setattr(o, n, v)
    if base == "list":
        o.append(S.leaf("item"))
    elif base == "dict":
        o[S.str("key", nopre=("py/", "json://"), neq=("__dict__",))] = 5
    elif base == "set":
        o.add(S.leaf("item"))
    h = S.pick("holder", ["top", "tuple", "attr"])
    trip(S, hold(h, o), hold(h, o))
    S.reach(base)
    S.reach(store)
    S.reach(state)
    S.reach(new)


def dictslots(S):
    """A dict subclass with a slot."""
    o = V.GRID["dict", "slots", "none", "none"]()
    o["k"] = 1
    if S.flag("set"):
        o.a = S.int("v")
    trip(S, o, o)


def datas(S):
    """Dataclasses with slots, defaults, inheritance and keyword-only fields."""
    cls = S.pick("cls", [V.FrozenSlots, V.FrozenOwnSlots, V.DataSlots, V.DataBase, V.FrozenBase,
                         V.FrozenKid, V.DataKid, V.DataKw])
    a = value(S, "va", True)
    if cls is V.FrozenBase or cls not in (V.DataKw, V.FrozenOwnSlots) and S.flag("default"):
        o = cls(a)
    else:
        o = cls(a=a, b=S.leaf("vb"))
    if cls is V.DataKid:
        o.c = S.leaf("vc")
    h = S.pick("holder", HOLDERS)
    trip(S, hold(h, o), hold(h, o))
    S.reach(cls.__name__)


def classify(scenario, values, what):
    if scenario == "dictslots":
        return "dict-subclass-slots"
    return None


def names(S):
    """Any attribute name on a class with an instance dict."""
    o = S.pick("cls", [M.Plain, M.Kid, M.DictSub, M.StateOnly, M.Excluding])()
    k = S.str("name", nopre=("py/", "json://"), neq=("default_factory", "b"), minlen=1)
    k2 = S.str("name2", nopre=("py/", "json://"), neq=("default_factory", "b"), minlen=1)
    for x in (k, k2):
        S.assume(x not in dir(type(o)))
    S.distinct(k2, [k])
    setattr(o, k, S.leaf("v"))
    setattr(o, k2, [1])
    trip(S, o, o)


def dunders(S):
    """Slots with names that start and end with underscores."""
    o = S.pick("cls", [M.SlotsDunder, M.SlotsDunderKid])()
    if S.flag("a"):
        setattr(o, "__a__", S.leaf("va"))
    if S.flag("h"):
        o.hide([S.leaf("vh")])
    if S.flag("b"):
        o.b = o
    if isinstance(o, M.SlotsDunderKid):
        if S.flag("m"):
            setattr(o, "__more__", [S.leaf("vm")])
        if S.flag("x"):
            setattr(o, "__x", S.leaf("vx"))
    h = S.pick("holder", HOLDERS)
    trip(S, hold(h, o), hold(h, o))


def keyed(S):
    """Any attribute name when keys are escaped."""
    o = S.pick("cls", [M.Plain, M.Kid, M.StateOnly, M.StateDict, M.SlotsDict, M.Data])
    o = o(1, 2) if o is M.Data else o()
    k = S.str("name", neq=("default_factory", "a", "b"), minlen=1)
    S.assume(k not in dir(type(o)))
    setattr(o, k, S.leaf("v"))
    o.a = [1]
    trip(S, [o, o.a], [o, o.a], keys=True)


def excluded(S):
    """_jsonpickle_exclude leaves out what it lists and nothing else."""
    cls = S.pick("cls", [M.Excluding, M.ExcludingSlots, M.ExcludingState, M.ExcludingKid,
                         M.ExcludingGrandkid, M.ExcludingList, M.ExcludingSet, M.ExcludingDict,
                         M.ExcludingNew, M.ExcludingSlotsDict, M.Plain])
    o = cls()
    want = cls()
    if cls is M.Plain:
        # by the instance
        o._jsonpickle_exclude = want._jsonpickle_exclude = ["b"]
    for n in ("a", "b"):
        if S.flag("set " + n):
            v = S.leaf("v" + n)
            setattr(o, n, v)
            if n != "b":
                setattr(want, n, v)
    x = S.leaf("item")
    for w in (o, want):
        # items are not attributes
        if cls is M.ExcludingList:
            w.append(x)
        elif cls is M.ExcludingSet:
            w.add("b")
        elif cls is M.ExcludingDict:
            w["b"] = x
            w["c"] = 1
    h = S.pick("holder", HOLDERS)
    trip(S, hold(h, o), hold(h, want))


def large(S):
    """Many attributes or items, or many levels of instances."""
    x = S.leaf("x", "nis")
    if S.flag("wide"):
        v = bulk(S, ["plain", "statedict", "listsub", "dictsub", "setsub"], x)
        h = S.pick("holder", HOLDERS)
        trip(S, hold(h, v), hold(h, v))
    else:
        v = chain(S, x, 0, (12, 30), ["plain", "statedict", "slots", "listsub", "dictsub", "list"])
        trip(S, v, v)


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="protocols", fn=protocols, quick={}, reach=KINDS),
    dict(name="pairs", fn=pairs, quick={}),
    dict(name="grid", fn=grid, quick={},
         reach=sorted(set(V.BASES + V.STORES + V.STATES + V.NEWS))),
    dict(name="dictslots", fn=dictslots, quick={}),
    dict(name="datas", fn=datas, quick={}, reach=[
        "FrozenSlots", "FrozenOwnSlots", "DataSlots", "DataBase", "FrozenBase", "FrozenKid",
        "DataKid", "DataKw"]),
    dict(name="names", fn=names, quick={}),
    dict(name="dunders", fn=dunders, quick={}),
    dict(name="keyed", fn=keyed, quick={}),
    dict(name="excluded", fn=excluded, quick={}),
]
