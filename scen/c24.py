"""C24: presentation options never change what is decoded."""
import json

import jsonpickle
from jsonpickle.backend import JSONBackend
from graphs import G, bulk
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers and instances with up to `width` places each, sharing "
          "and cycles, under each presentation option and all of them together; properties that "
          "return leaves, parts of the object, new containers, sets or other instances")

BACKENDS = ["json", "simplejson", "ujson"]
PAIRS = [(a, b) for a in BACKENDS for b in BACKENDS]


def options(S):
    o = S.pick("option", S.p("options", ["props", "warn", "indent", "separators", "b85", "backend",
                                         "all"]))
    opts = {"props": dict(include_properties=True), "warn": dict(warn=True),
            "indent": dict(indent=2), "separators": dict(separators=(", ", ": ")),
            "b85": dict(use_base85=True), "backend": {},
            "all": dict(include_properties=True, warn=True, indent=1, separators=(",", ":"),
                        use_base85=True)}[o]
    return o, opts


def pair(S, o):
    """Backends for writing and for reading."""
    if o not in ("backend", "all"):
        return {}, {}, ()
    r = []
    names = S.pick("backends", S.p("backends", PAIRS))
    for n in names:
        b = JSONBackend()
        for x in BACKENDS:
            if x != n:
                b.remove_backend(x)
        r.append({"backend": b})
    return r[0], r[1], names


class PG(G):
    def mk_props(self, path, depth, h):
        return self.attrs(M.Listing(), path, depth)

    def mk_slotprops(self, path, depth, h):
        return self.attrs(M.SlotListing(), path, depth)

    def mk_dictprops(self, path, depth, h):
        o = M.DictListing()
        ent = self.reg(o)
        for i in range(self.count(path)):
            o[self.key(path + str(i))] = self.value(path + str(i), depth)
        ent[1] = True
        return o

    def mk_listprops(self, path, depth, h):
        o = M.ListListing()
        ent = self.reg(o)
        for i in range(self.count(path)):
            o.append(self.value(path + str(i), depth))
        ent[1] = True
        return o

    def mk_stateprops(self, path, depth, h):
        return self.attrs(M.StateListing(), path, depth)

    def mk_reduceprops(self, path, depth, h):
        return self.attrs(M.rebuild(M.ReduceListing), path, depth)

    def mk_newprops(self, path, depth, h):
        o = M.NewListing(self.value(path + "0", depth))
        self.reg(o)[1] = True
        return o


def result(S):
    """The option decodes to the value itself, so to the same as without it."""
    o, opts = options(S)
    be, bd, names = pair(S, o)
    M.LISTING[0] = S.pick("what", S.p("what", ["leaf"])) if "include_properties" in opts else "leaf"
    g = PG(S, list(S.p("kinds")), S.p("nodes"), width=S.p("width"), leaf=S.p("leaf", "i"),
           leaves=S.p("leaves", 1), cycles=S.p("cycles", True), keys=S.p("keys", "conc"),
           extra=S.p("extra", ()), minwidth=S.p("minwidth", 0))
    v = g.build()
    text = jsonpickle.encode(v, **opts, **be)
    r = jsonpickle.decode(text, **bd)
    S.obs(r)
    S.iso(v, r, "the value decoded depends on a presentation option", identity=S.p("identity", True))
    if g.shared:
        S.reach("shared")
    if g.cyclic:
        S.reach("cycle")


def values(S):
    """Leaves of every kind through every backend."""
    o, opts = options(S)
    be, bd, names = pair(S, o)
    k = S.pick("k", ["leaf", "bytes", "bytearray", "key"])
    if k == "leaf":
        x = S.leaf("x", "nbis" if "ujson" in names else "nbifs")
    elif k == "key":
        x = {S.str("key", nopre=("py/", "json://")): 1}
    else:
        x = S.bytes("x")
        if k == "bytearray":
            x = bytearray(x)
    if S.pick("where", 2):
        p = M.Listing()
        p.a = x
        x = p
        M.LISTING[0] = "leaf"
    plain = jsonpickle.decode(jsonpickle.encode(x))
    S.iso(plain, jsonpickle.decode(jsonpickle.encode(x, **opts, **be), **bd),
          "the value decoded depends on a presentation option", identity=False)


def listed(S):
    """The JSON has the public properties with their current values."""
    kind = S.pick("kind", [M.Listing, M.SlotListing, M.DictListing, M.ListListing, M.StateListing,
                           M.ReduceListing, M.NewListing, M.ListingKid])
    o = M.NewListing(1) if kind is M.NewListing else kind.__new__(kind)
    M.LISTING[0] = what = S.pick("what", ["leaf", "list", "dict"])
    x = S.leaf("x", "nbis")
    if kind is M.DictListing:
        o["a"] = x
    elif kind is M.ListListing:
        o.append(x)
    else:
        o.a = x
    where = S.pick("where", ["top", "list", "attr", "second", "plain"])
    unp = {"unpicklable": False} if where == "plain" else {}
    if where in ("top", "plain"):
        v = o
    elif where == "attr":
        v = M.Other()
        v.x = o
    else:
        v = [[1], o] if where == "second" else [o]
    data = json.loads(jsonpickle.encode(v, include_properties=True, **unp))
    if where == "attr":
        data = data["x"]
    elif where not in ("top", "plain"):
        data = data[len(v) - 1]
    want = {"leaf": x, "list": [x, [x]], "dict": {"k": x}}[what]
    if where == "plain" and kind in (M.ListListing, M.StateListing):
        # only the items or the state
        return
    props = data.get("py/property")
    S.check(type(props) is dict, "no list of properties")
    S.check(props.get("prop") == want and type(props.get("prop")) is type(want),
            "not the current value of the property")
    if kind is M.ListingKid:
        S.check(props.get("own") == 5 and props.get("over") == "kid", "properties of the subclass")
    S.check("a" not in props, "an attribute among the properties")


def document(S):
    """Decoding ignores whatever is listed."""
    kind = S.pick("kind", [M.Listing, M.Plain, M.SlotListing, M.StateListing, M.ListingKid])
    x = S.int("x")
    o = kind.__new__(kind)
    o.a = x
    y = [1]
    v = [y, o, y, o]
    data = json.loads(jsonpickle.encode(v))
    inner = data[1]
    junk = S.pick("junk", [{}, {"prop": 1}, {"a": 7}, [1], None, {"zz": {"py/object": "vpmodels.Plain"}},
                           {"prop": {"py/id": 1}}, {"prop": {"py/tuple": [[], []]}}, 5, "text"])
    new = {}
    if S.flag("first"):
        new["py/property"] = junk
    for k in inner:
        new[k] = inner[k]
    if "py/property" not in new:
        new["py/property"] = junk
    data[1] = new
    S.iso(v, jsonpickle.decode(json.dumps(data)), "the list of properties is not ignored")


ALLWHAT = ["leaf", "list", "dict", "part", "set", "new", "self", "twin", "tuple"]

def large(S):
    """Many items, and many objects with properties."""
    o, opts = options(S)
    be, bd, names = pair(S, o)
    M.LISTING[0] = "list"
    x = [S.int("x")]
    v = bulk(S, ["list", "dict", "plain", "tuple"], x, (21, 130))
    ps = []
    for i in range(S.pick("listings", [1, 40])):
        p = M.Listing()
        p.a = x
        ps.append(p)
    v = [ps, v, x, ps[-1], v]
    r = jsonpickle.decode(jsonpickle.encode(v, **opts, **be), **bd)
    S.iso(v, r, "the value decoded depends on a presentation option")


SCENARIOS = [
    dict(name="large", fn=large, quick=dict(backends=[("json", "json"), ("simplejson", "simplejson"), ("ujson", "ujson")])),
    dict(name="graph", fn=result,
         quick=dict(nodes=3, width=2, kinds=["props", "list"], options=["props"]),
         thorough=dict(nodes=3, width=2, kinds=["props", "list", "dict"]),
         reach=["shared", "cycle"]),
    dict(name="classes", fn=result,
         quick=dict(nodes=2, width=2, kinds=["props", "slotprops", "dictprops", "listprops",
                                             "stateprops", "reduceprops", "newprops"],
                    options=["props", "indent", "warn"]),
         thorough=dict(nodes=3, width=2, minwidth=1,
                       kinds=["props", "slotprops", "dictprops", "listprops", "stateprops",
                              "reduceprops", "newprops"], options=["props"]),
         reach=["shared"]),
    dict(name="what", fn=result,
         quick=dict(nodes=2, width=2, kinds=["props", "list", "slotprops"], options=["props"],
                    what=ALLWHAT),
         thorough=dict(nodes=3, width=2, kinds=["props", "list"], options=["props"], what=ALLWHAT),
         reach=["shared", "cycle"]),
    dict(name="builtin", fn=result,
         quick=dict(nodes=2, width=2, kinds=["list", "tuple", "dict", "set", "plain"], cycles=False,
                    extra=["bytes"], leaf="s", identity=False,
                    options=["warn", "indent", "separators", "b85", "all"],
                    backends=[("simplejson", "ujson")]),
         thorough=dict(nodes=3, width=2, kinds=["list", "tuple", "dict", "plain"], cycles=False,
                       extra=["bytes"], leaf="s", identity=False, options=["b85", "all"],
                       backends=[("ujson", "json")])),
    dict(name="values", fn=values, quick={}),
    dict(name="listed", fn=listed, quick={}),
    dict(name="document", fn=document, quick={}),
]
