"""C02: shared references and cycles are rebuilt exactly."""
import jsonpickle
from graphs import G, chain
import vpgrid as V
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers/instances with up to `width` reference slots each, "
          "every slot a leaf, a new object, or any earlier finished or unfinished object; "
          "lists of up to `long` elements before the alias")

SPECIAL = ["slots", "slotskid", "statedict", "statetuple", "statelist", "stateonly", "reduce2",
           "reduce3", "reduceex", "newargs", "newargsex", "newargsexpos", "nt", "listsub",
           "dictsub", "setsub"]


def trip(S, v, **opts):
    text = jsonpickle.encode(v, **opts)
    r = jsonpickle.decode(text, **({"keys": True} if opts.get("keys") else {}))
    S.obs(r)
    S.iso(v, r, "decode(encode(g)) is not isomorphic to g")


def base(S):
    """Lists, dicts and plain instances with tuples between."""
    g = G(S, ["list", "dict", "plain", "tuple"], S.p("nodes"), width=S.p("width"), leaf="i",
          leaves=1, cycles=True, keys="conc")
    v = g.build()
    trip(S, v)
    if g.shared:
        S.reach("shared")
    if g.cyclic:
        S.reach("cyclic")


def special(S):
    """One special class per graph, with lists, dicts and plain instances around it."""
    k = S.pick("cls", SPECIAL)
    g = G(S, [k, S.pick("second", ["list", "dict", "plain", "tuple"])], S.p("nodes"),
          width=S.p("width"), leaf="i", leaves=0, cycles=True, keys="conc",
          minwidth=S.p("minwidth", 0))
    v = g.build()
    trip(S, v)
    if k in g.used and g.shared:
        S.reach("shared " + k)


def chan_plain(cls, *names):
    def make(S, fill):
        o = cls()
        for n in names:
            setattr(o, n, fill(n, o))
        return o
    return make


def chan_newargs(S, fill):
    o = M.NewArgs(fill("a", None))
    o.b = fill("b", o)
    return o


def chan_newargsex(S, fill):
    o = M.NewArgsTwo(fill("a", None), 0, k=fill("k", None), m=1)
    o.b = fill("b", o)
    return o


def chan_newargsstate(S, fill):
    o = M.NewArgsState(fill("a", None))
    o.b = fill("b", o)
    return o


def chan_initargs(S, fill):
    o = M.InitArgs()
    o.a = fill("a", None)
    o.b = fill("b", o)
    return o


def chan_reduce(S, fill):
    args = (fill("a", None),)
    o = M.RecState(*args)
    state = fill("b", o)
    if state is not None:
        o.__setstate__(state)
    items = [fill("c", o), 5]
    for x in items:
        o.append(x)
    M.REDUCE[id(o)] = (M.RecState, args, state, iter(items))
    return o


def chan_reducedict(S, fill):
    o = M.Rec()
    pairs = [("k", fill("c", o)), ("m", fill("b", o))]
    for k, v in pairs:
        o[k] = v
    M.REDUCE[id(o)] = (M.Rec, (), None, None, iter(pairs))
    return o


def chan_list(cls):
    def make(S, fill):
        o = cls()
        o.append(fill("i", o))
        o.a = fill("a", o)
        o.append(fill("j", o))
        return o
    return make


def chan_set(S, fill):
    o = M.SetSub()
    o.add(M.HKey(fill("i", None)))
    o.a = fill("a", o)
    return o


def chan_dict(cls):
    def make(S, fill):
        o = cls()
        o["k"] = fill("i", o)
        o.a = fill("a", o)
        o["m"] = fill("j", o)
        return o
    return make


def chan_newlist(cls):
    def make(S, fill):
        o = cls(fill("a", None))
        if cls is M.NewArgsList:
            o.append(fill("i", o))
        else:
            o["i"] = fill("i", o)
        return o
    return make


def chan_default(S, fill):
    o = M.collections.defaultdict(S.pick("factory", [None, list]))
    o["k"] = fill("i", o)
    o["m"] = fill("j", o)
    return o


def chan_nt(S, fill):
    return M.NT(fill("a", None), fill("b", None))


def chan_tuplesub(S, fill):
    return M.TupleSub((fill("a", None), fill("b", None)))


def chan_deque(S, fill):
    o = M.collections.deque()
    o.append(fill("a", o))
    o.append(fill("b", o))
    return o


def chan_odict(S, fill):
    o = M.collections.OrderedDict()
    o["k"] = fill("a", o)
    o["m"] = fill("b", o)
    return o


CHANNELS = {
    "plain": chan_plain(M.Plain, "a", "b"),
    "slots": chan_plain(M.SlotsKid, "c", "a", "b"),
    "slotsdict": chan_plain(M.SlotsDict, "b", "a"),
    "slotsoverdict": chan_plain(M.SlotsOverDict, "a", "c"),
    "kidofslots": chan_plain(M.KidOfSlots, "a", "c"),
    "statedict": chan_plain(M.StateDict, "a", "b"),
    "statetuple": chan_plain(M.StateTuple, "a", "b"),
    "statelist": chan_plain(M.StateList, "a", "b"),
    "stateonly": chan_plain(M.StateOnly, "a", "b"),
    "statepair": chan_plain(M.StatePair, "s", "a"),
    "slotspair": chan_plain(M.SlotsPair, "a", "b"),
    "slotsstate": chan_plain(M.SlotsState, "a", "b"),
    "inner": chan_plain(M.Outer.Inner, "a"),
    "newargs": chan_newargs, "newargsex": chan_newargsex, "newargsstate": chan_newargsstate,
    "initargs": chan_initargs, "reduce": chan_reduce, "reducedict": chan_reducedict,
    "listsub": chan_list(M.ListSub), "setsub": chan_set,
    "dictsub": chan_dict(M.DictSub), "newlist": chan_newlist(M.NewArgsList),
    "newdict": chan_newlist(M.NewArgsDict), "defaultdict": chan_default, "nt": chan_nt,
    "tuplesub": chan_tuplesub, "deque": chan_deque, "odict": chan_odict,
}


def channels(S):
    """An object holding parts in every place its class has, each part referenced again."""
    kind = S.pick("cls", sorted(CHANNELS))
    parts = []
    x = [5]

    def fill(n, me):
        opts = ["leaf", "list", "dict", "tuple", "x"]
        if me is not None:
            opts.append("me")
        k = S.pick("part " + n, opts)
        if k == "leaf":
            return S.int("leaf " + n)
        if k == "x":
            return x
        if k == "me":
            return me
        v = {"list": [], "dict": {}, "tuple": ([n], n)}[k]
        parts.append(v[0] if k == "tuple" else v)
        return v

    o = CHANNELS[kind](S, fill)
    v = [x] if S.flag("before") else []
    v.append(o)
    v.append(parts)
    v.append(o)
    v.append([x, o])
    if S.flag("keys"):
        trip(S, v, keys=True)
    else:
        trip(S, v)
    S.reach(kind)


def put(c, box, i, v):
    """Put v into a container of the kind."""
    if c in ("list", "listsub", "deque"):
        box.append(v)
    elif c == "deep":
        box.append([v])
    elif c in ("set", "setsub"):
        box.add(v)
    elif c in ("plain", "slots"):
        setattr(box, "abc"[i], v)
    elif c == "rslots":
        setattr(box, "ab"[i % 2], v)
        s = {n: getattr(box, n) for n in "ab" if hasattr(box, n)}
        M.REDUCE[id(box)] = (M.RecSlots, (), (None, s))
    else:
        box["k%d" % i] = v


BOXES = {"list": list, "dict": dict, "deep": list, "set": set, "setsub": M.SetSub, "listsub": M.ListSub,
         "dictsub": M.DictSub, "plain": M.Plain, "slots": M.SlotsKid, "rslots": M.RecSlots,
         "deque": M.collections.deque, "odict": M.collections.OrderedDict}


def selfargs(S):
    """A container given to the constructor that holds the object itself."""
    k = S.pick("cls", ["newargs", "newargsex", "reduce"])
    c = S.pick("c", sorted(BOXES))
    box = BOXES[c]()
    if k == "newargs":
        o = M.NewArgs(box)
    elif k == "newargsex":
        o = M.NewArgsEx(1, k=box)
    else:
        o = M.Rec(box)
        M.REDUCE[id(o)] = (M.Rec, (box,), None)
    n = S.pick("n", [1, 2, 3])
    for i in range(n):
        put(c, box, i, o if S.flag("me%d" % i) else S.int("i%d" % i))
    trip(S, [o, box, o])
    S.reach(c)


def between(S):
    """Instances of any two classes, another value between, then a reference."""
    kinds = S.p("kinds")
    out = []
    for i in range(2):
        k = S.pick("cls%d" % i, kinds)
        g = G(S, [k], 1, width=1, minwidth=1, leaf="i", leaves=1, cycles=False, keys="conc",
              attrs=False, name="o%d" % i)
        out.append(g.build())
    gap = G(S, ["tuple", "set", "list"], 1, width=1, leaf="i", leaves=1, share=False, name="gap",
            extra=("bytes", "bytearray", "type", "function", "module", "enum"))
    m = gap.value("m", 2)
    v = [out[0], m, out[1], [m]]
    v.append(v[S.pick("r0", [0, 2, 3])])
    if S.flag("keys"):
        trip(S, v, keys=True)
    else:
        trip(S, v)


def longlist(S):
    """Many objects before the reference."""
    n = S.p("long")
    kind = S.pick("kind", ["list", "dict", "plain", "slots", "statedict", "reduce2", "newargsex",
                           "newargsexpos", "newargs", "nt", "listsub", "dictsub", "reduce3"])
    v = []
    g = G(S, [kind], n, width=2, minwidth=2, leaf="i", leaves=1, keys="conc", share=False,
          depth=1, attrs=False)
    for i in range(n):
        v.append(getattr(g, "mk_" + kind)("g%d" % i, 0, False))
    v.append(v[S.pick("alias", n)])
    trip(S, v)


def wide(S):
    """References to objects with large numbers."""
    kind = S.pick("kind", ["list", "dict", "plain"])
    n = S.pick("n", [99, 101, 256, 300])
    v = []
    for i in range(n):
        o = [i] if kind == "list" else {"i": i} if kind == "dict" else M.Plain()
        v.append(o)
    v[n // 2] = [S.int("e")]
    k = S.pick("alias", [0, 9, 10, 98, n // 2, n - 2, n - 1])
    v.append(v[k])
    v.append([v, v[n - 1 - k]])
    trip(S, v)


def deep(S):
    """A reference from or to an object many levels down."""
    x = [S.int("e")]
    w = chain(S, x, 2, (8, 25), ["list", "dict", "plain", "tuple", "slots", "listsub", "dictsub"])
    how = S.pick("how", ["before", "after", "cycle"])
    if how == "before":
        v = [x, w, x, w]
    elif how == "after":
        v = [w, w, x]
    else:
        v = [w]
        x.append(v)
        x.append(x)
    trip(S, v)


def grid(S):
    """References behind an instance of any combination of class features."""
    base = S.pick("base", V.BASES)
    store = S.pick("store", V.STORES)
    state = "none" if base in ("list", "dict", "set") else S.pick("state", V.STATES)
    new = S.pick("new", V.NEWS)
    cls = V.GRID[base, store, state, new]
    x = [S.int("x")]
    o = cls() if new == "none" else cls(x)
    names = V.attributes(base, store)
    if base == "dict" and store != "dict":
        # C05 reports that slots of a dict subclass are lost
        names = [n for n in names if store == "both" and n == "b"]
    y = [x]
    for n in names:
        w = y if n == "a" and new == "none" else x if n in ("b", "s") else [n]
        if n == "a" and new != "none":
            w = x
        if n == "*put":
            o.put(w)
        elif n.startswith("*"):
            setattr(o, "_%s__%s" % (cls.__name__, n[1:]), w)
        else:
            setattr(o, n, w)
    if base == "list":
        o.append(y)
        o.append(x)
    elif base == "dict":
        o["k"] = y
        o["l"] = x
    elif base == "set":
        o.add(M.HKey(3))
    z = [5]
    v = S.pick("v", [[o, z, z, x, y, o], [z, x, o, y, z], {"o": o, "z": z, "x": x, "w": [z, y]}])
    trip(S, v)


SCENARIOS = [
    dict(name="base", fn=base, quick=dict(nodes=3, width=2), thorough=dict(nodes=4, width=2),
         reach=["shared", "cyclic"]),
    dict(name="special", fn=special, quick=dict(nodes=2, width=2),
         reach=["shared " + k for k in SPECIAL]),
    dict(name="special3", fn=special, quick=None, thorough=dict(nodes=3, width=2, minwidth=2)),
    dict(name="channels", fn=channels, quick={}, reach=sorted(CHANNELS)),
    dict(name="selfargs", fn=selfargs, quick={}, reach=sorted(BOXES)),
    dict(name="between", fn=between, quick=dict(kinds=["list", "dict", "plain"] + SPECIAL)),
    dict(name="grid", fn=grid, quick={}),
    dict(name="wide", fn=wide, quick={}),
    dict(name="deep", fn=deep, quick={}),
    dict(name="longlist", fn=longlist, quick=dict(long=12), thorough=dict(long=40)),
]
