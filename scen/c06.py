"""C06: the __reduce__ protocol."""
import copyreg

import jsonpickle
import vpmodels as M

BOUNDS = ("reduce values of two to six elements, each optional element absent, None, empty or "
          "non-empty, contents symbolic leaves, shared lists or the object itself; one level of "
          "nesting")


def part(S, name, o, shared):
    """A leaf, a list shared by all parts, or the object itself."""
    k = S.pick(name, ["leaf", "shared", "self"] if o is not None else ["leaf", "shared"])
    if k == "leaf":
        return S.int(name + ".i")
    if k == "shared":
        return shared
    return o


def rebuild(f, args, state, items, pairs, setter):
    """What the reduce protocol prescribes; the callbacks fill in state and items."""
    if f is copyreg.__newobj__:
        return args[0].__new__(*args)
    return f(*args)


def apply_state(o, state, setter):
    if state is None:
        return
    if setter is not None:
        setter(o, state)
    elif hasattr(o, "__setstate__"):
        o.__setstate__(state)
    else:
        slots = None
        if isinstance(state, tuple) and len(state) == 2:
            state, slots = state
        if state:
            o.__dict__.update(state)
        if slots:
            for k, v in slots.items():
                setattr(o, k, v)


def make(S, p="", inner=None):
    shared = [5] if inner is None else inner
    cls = S.pick(p + "cls", [M.Rec, M.RecExtend, M.RecState, M.RecEx, M.RecSlots, M.RecNew])
    args = ()
    n = S.pick(p + "nargs", 2)
    if n:
        args = (part(S, p + "arg", None, shared),)
    if cls is M.RecNew:
        f, args = copyreg.__newobj__, (cls,) + args
    elif S.flag(p + "viafunc"):
        f, args = M.make_rec, (cls,) + args
    else:
        f = cls
    o = rebuild(f, args, None, None, None, None)
    length = S.pick(p + "len", [2, 3, 4, 5, 6])
    state = items = pairs = setter = None
    if length > 5 and S.flag(p + "setter"):
        setter = M.put_state
    if length > 2:
        state = make_state(S, p, o, cls, shared, setter)
        apply_state(o, state, setter)
    if length > 3:
        k = S.pick(p + "items", ["none", "empty", "one", "two"] if S.p("rich") else ["none", "two"])
        items = {"none": None, "empty": [], "one": 1, "two": 2}[k]
        if k in ("one", "two"):
            items = [part(S, p + "item", o, shared)]
            if k == "two":
                items.append(3)
        if items:
            for x in items:
                o.append(x)
    if length > 4:
        k = S.pick(p + "pairs", ["none", "empty", "one", "two"] if S.p("rich") else ["empty", "two"])
        if k == "empty":
            pairs = []
        elif k != "none":
            pairs = [("k", part(S, p + "pair", o, shared))]
            if k == "two":
                pairs.append((S.int(p + "pk"), 4))
        if pairs:
            for a, b in pairs:
                o[a] = b
    asiter = length > 3 and (S.flag(p + "iter") if S.p("rich") else cls is not M.Rec)
    if asiter and items is not None:
        items = iter(items)
    if asiter and pairs is not None:
        pairs = iter(pairs)
    M.REDUCE[id(o)] = (f, args, state, items, pairs, setter)[:length]
    return o, shared, state


def make_state(S, p, o, cls, shared, setter):
    kinds = ["none", "dict"]
    if cls is M.RecSlots and setter is None:
        kinds = ["none", "slots"]
    elif setter is not None or hasattr(o, "__setstate__"):
        kinds += ["empty", "tuple", "list", "str", "int", "emptylist"]
    else:
        kinds += ["empty", "pair", "pairnone"]
    k = S.pick(p + "state", kinds)
    if k == "none":
        return None
    if k == "empty":
        return {}
    if k == "dict":
        return {"a": part(S, p + "sa", o, shared)}
    if k == "tuple":
        return (part(S, p + "sa", o, shared), 1)
    if k == "list":
        return [part(S, p + "sa", o, shared)]
    if k == "emptylist":
        return []
    if k == "str":
        return S.str(p + "ss")
    if k == "int":
        return S.int(p + "si")
    d = {"a": part(S, p + "sa", o, shared)}
    if k == "pair":
        return (d, {"b": 2})
    if k == "pairnone":
        return (d, None)
    return (None, d)


def trip(S, v):
    r = jsonpickle.decode(jsonpickle.encode(v))
    S.obs(r)
    S.iso(v, r, "not what the reduce protocol prescribes")


def values(S):
    """All reduce values."""
    o, shared, state = make(S)
    after = S.pick("after", ["nothing", "refs", "state"])
    if after == "nothing":
        v = o
    elif after == "refs":
        v = [o, shared, o]
    else:
        if type(state) is not dict:
            return
        S.reach("state shared")
        v = [o, state, shared]
    trip(S, v)


def nested(S):
    """A reduced object in the arguments, state or items of another."""
    q = M.Rec(S.int("q"))
    M.REDUCE[id(q)] = (M.Rec, q.args)
    o, shared, state = make(S, inner=q)
    trip(S, [o, q, [o]])


def subclasses(S):
    """list and dict subclasses rebuilt through items."""
    if S.flag("dict"):
        o = M.RDict()
        n = S.pick("n", 3)
        for i in range(n):
            o["k%d" % i] = S.leaf("v%d" % i)
        M.REDUCE[id(o)] = (M.RDict, (), o.__dict__ or None, None, iter(list(o.items())))
    else:
        o = M.RList()
        for i in range(S.pick("n", 3)):
            o.append(S.leaf("v%d" % i))
        if S.flag("self"):
            o.append(o)
        M.REDUCE[id(o)] = (M.RList, (), o.__dict__ or None, iter(list(o)))
    x = [o]
    trip(S, [o, x, x, o])


def named(S):
    """A reduce value that is the dotted name of another object."""
    x, y = [S.int("x")], {"k": S.int("y")}
    what = S.pick("what", ["list", "dict", "plain", "tuple", "leaf", "type", "function", "shared", "none"])
    o = M.Plain()
    o.a = [S.int("a")]
    i = S.int("i")
    v = {"list": [i, x], "dict": {"a": i, "x": x}, "plain": o, "tuple": (1, x, [2]), "leaf": i,
         "type": M.Plain, "function": M.make_rec, "shared": x, "none": None}[what]
    if S.flag("deep"):
        M.BRANCH.leaf = v
        name = "vpmodels.BRANCH.leaf"
    else:
        M.NAMED = v
        name = "vpmodels.NAMED"
    p = S.pick("cls", [M.Alias, M.AliasEx])(name)
    where = S.pick("where", ["top", "list", "dict", "attr", "tuple"])
    if where == "top":
        doc, want = [p, x, y, p, x, y], [v, x, y, v, x, y]
    elif where == "list":
        doc, want = [x, [p], p, y, y, x], [x, [v], v, y, y, x]
    elif where == "dict":
        doc, want = {"p": p, "x": x, "y": y, "q": [p, y]}, {"p": v, "x": x, "y": y, "q": [v, y]}
    elif where == "attr":
        a, b = M.Plain(), M.Plain()
        a.p, b.p = p, v
        doc, want = [a, x, a, p, x], [b, x, b, v, x]
    else:
        doc, want = [(p, x), x, y, [p, y]], [(v, x), x, y, [v, y]]
    r = trip_named(doc)
    S.obs(r)
    S.iso(want, r, "not what the name stands for")
    S.reach(what)


def trip_named(doc):
    return jsonpickle.decode(jsonpickle.encode(doc))


def unnamed(S):
    """A name that is of no use: the object is encoded like any other."""
    name = S.pick("name", ["vpmodels", "no_such_module.x", "vpmodels.NAMED"])
    p = M.Alias(name)
    M.NAMED = p
    p.a = [S.int("a")]
    x = [S.int("x")]
    doc = [x, p, p, [p, x]]
    r = trip_named(doc)
    S.iso(doc, r, "not the object")
    S.reach(name)


def repeated(S):
    """Items and pairs that recur, with keys that are equal or cannot be hashed."""
    o = S.pick("cls", [M.Rec, M.RecExtend, M.RecState, M.RecEx])()
    x = [S.leaf("x")]
    parts = {"int": lambda n: S.int(n), "list": lambda n: x, "tuple": lambda n: (1, x),
             "self": lambda n: o, "str": lambda n: S.str(n, nopre=("py/", "json://"))}
    pairs = []
    for i in range(S.p("pairs")):
        k = parts[S.pick("k%d" % i, ["int", "list", "tuple", "str"])]("key%d" % i)
        pairs.append((k, parts[S.pick("v%d" % i, ["list", "self"])]("val%d" % i) if i else 0))
    items = None
    if S.flag("items"):
        items = [x, o, x, o]
        for y in items:
            o.append(y)
    for k, y in pairs:
        o[k] = y
    asiter = S.flag("iter")
    M.REDUCE[id(o)] = (type(o), (), None, iter(items) if items and asiter else items,
                       iter(pairs) if asiter else pairs)
    trip(S, [o, x, o])


def large(S):
    """Many arguments, items or pairs, the state of many entries, and many such objects."""
    n = S.pick("n", [10, 21, 70, 150])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    items = [x if i == at else i for i in range(n)]
    where = S.pick("where", ["args", "state", "items", "pairs", "many"])
    if where == "many":
        v = []
        for i in range(n):
            q = M.Rec(items[i])
            M.REDUCE[id(q)] = (M.Rec, q.args)
            v.append(q)
        trip(S, [v, x, v[at], v[0], v[n - 1]])
        return
    f, args, state, its, pairs = M.Rec, (), None, None, None
    if where == "args":
        args = tuple(items)
    elif where == "state":
        state = {"s%d" % i: y for i, y in enumerate(items)}
    elif where == "items":
        its = items
    else:
        pairs = [("k%d" % i, y) for i, y in enumerate(items)]
    o = rebuild(f, args, state, its, pairs, None)
    apply_state(o, state, None)
    for y in its or ():
        o.append(y)
    for k, y in pairs or ():
        o[k] = y
    M.REDUCE[id(o)] = (f, args, state, its, pairs)
    trip(S, [o, x, o])


SCENARIOS = [
    dict(name="repeated", fn=repeated, quick=dict(pairs=2), thorough=dict(pairs=3)),
    dict(name="large", fn=large, quick={}),
    dict(name="named", fn=named, quick={}, reach=["list", "dict", "plain", "tuple", "leaf", "type", "function",
                                                  "shared", "none"]),
    dict(name="unnamed", fn=unnamed, quick={}, reach=["vpmodels", "no_such_module.x", "vpmodels.NAMED"]),
    dict(name="values", fn=values, quick=dict(rich=0), thorough=dict(rich=1), reach=["state shared"]),
    dict(name="nested", fn=nested, quick=dict(rich=0), thorough=dict(rich=1)),
    dict(name="subclasses", fn=subclasses, quick={}, thorough={}),
]
