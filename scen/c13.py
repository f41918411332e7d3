"""C13: missing classes follow the on_missing policy and lose no data."""
import jsonpickle
from jsonpickle.unpickler import Unpickler
from graphs import G
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers and instances, any of them of a missing class, with "
          "up to `width` places each, sharing and cycles; leaves symbolic; class names with "
          "symbolic pieces")
ASSUMPTIONS = ("a module whose name is not vpmod, vppkg or vppkg.sub is not importable",)

POLICIES = ["ignore", "warn", "error", "call", "IGNORE", "Warn", "ERROR"]


class Missing(G):
    """Graphs with instances whose classes cannot be found."""

    def mk_gone(self, path, depth, h):
        return self.attrs(M.Local(), path, depth)

    def mk_goneslots(self, path, depth, h):
        return self.attrs(M.LocalSlots(), path, depth)

    def mk_gonestate(self, path, depth, h):
        return self.attrs(M.LocalState(), path, depth)

    def mk_gonelist(self, path, depth, h):
        o = M.LocalList()
        ent = self.reg(o)
        for i in range(self.count(path)):
            o.append(self.value(path + str(i), depth))
        ent[1] = True
        return o

    def mk_gonedict(self, path, depth, h):
        o = M.LocalDict()
        o.tag = 1
        ent = self.reg(o)
        for i in range(self.count(path)):
            o[self.key(path + str(i))] = self.value(path + str(i), depth)
        ent[1] = True
        return o

    def mk_gonenew(self, path, depth, h):
        o = M.LocalNew(self.value(path + "0", depth))
        ent = self.reg(o)
        if self.count(path) > 1:
            o.b = self.value(path + "1", depth)
        ent[1] = True
        return o


NAMES = {M.Local: "nowhere.Local", M.LocalSlots: "nowhere.LocalSlots",
         M.LocalState: "nowhere.LocalState", M.LocalList: "nowhere.LocalList",
         M.LocalDict: "nowhere.LocalDict", M.LocalNew: "nowhere.LocalNew"}


def expected(v, memo, found):
    """v with every instance of a missing class as a dict of its data."""
    t = type(v)
    if t is tuple:
        return tuple(expected(x, memo, found) for x in v)
    if t not in (list, dict, M.Plain) and t not in NAMES:
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if t is list:
        r = []
        memo[id(v)] = (v, r)
        for x in v:
            r.append(expected(x, memo, found))
        return r
    if t is M.Plain:
        r = M.Plain()
        memo[id(v)] = (v, r)
        for k in v.__dict__:
            setattr(r, k, expected(getattr(v, k), memo, found))
        return r
    r = {}
    memo[id(v)] = (v, r)
    if t is dict:
        for k in v:
            r[k] = expected(v[k], memo, found)
        return r
    found.append(NAMES[t])
    r["py/object"] = NAMES[t]
    if t is M.LocalSlots:
        for k in ("a", "b"):
            if hasattr(v, k):
                r[k] = expected(getattr(v, k), memo, found)
    elif t is M.LocalState:
        if v.__dict__:
            r["py/state"] = {"all": {k: expected(x, memo, found) for k, x in v.__dict__.items()}}
    elif t is M.LocalList:
        # written last, but assigned in between
        r["py/seq"] = [expected(x, memo, found) for x in v]
    elif t is M.LocalDict:
        for k in v:
            r[k] = expected(v[k], memo, found)
        r["__dict__"] = {"tag": 1}
    else:
        if t is M.LocalNew:
            r["py/newargs"] = (expected(v.a, memo, found),)
        for k in v.__dict__:
            r[k] = expected(v.__dict__[k], memo, found)
    return r


def graph(S):
    policy = S.pick("policy", POLICIES[:S.p("policies", 99)])
    g = Missing(S, list(S.p("kinds")), S.p("nodes"), width=S.p("width"), leaf="i", cycles=True,
                leaves=1, keys="conc")
    v = g.build()
    text = jsonpickle.encode(v)
    found = []
    want = expected(v, {}, found)
    check(S, text, policy, want, found)
    if g.shared and found:
        S.reach("shared")


def check(S, text, policy, want, found):
    calls = []
    S.warned()
    use = policy
    if policy == "call":
        def use(name):
            calls.append(name)
    try:
        if S.flag("unpickler") if S.p("both", 0) else False:
            # only decode() takes the names in any case
            r = Unpickler(on_missing=use if policy == "call" else use.lower()
                          ).restore(M.json.loads(text))
        else:
            r = jsonpickle.decode(text, on_missing=use)
    except jsonpickle.errors.ClassNotFoundError as e:
        if policy.lower() != "error" or not found:
            S.fail("ClassNotFoundError with on_missing=%s" % policy)
        S.check(found[0] in str(e), "the error does not name the class")
        S.reach("error")
        return
    warned = S.warned()
    if policy.lower() == "error" and found:
        S.fail("no error for a missing class")
    S.iso(want, r, "decoded value")
    if policy.lower() == "warn":
        S.check(len(warned) == len(found), "%d warnings for %d missing objects" % (
            len(warned), len(found)))
        for w, n in zip(warned, found):
            S.check(n in w[1], "a warning does not name the class")
    else:
        S.check(not warned, "unexpected warning")
    if policy == "call":
        S.check(calls == found, "the function was called with %s instead of %s" % (calls, found))
    if found:
        S.reach(policy)


def names(S):
    """Which names count as missing."""
    form = S.pick("form", ["module", "class", "nested", "package", "single", "short"])
    p = S.str("p", without="./")
    if form == "module":
        name = p + ".Thing"
        there = vpthing(S, p == "vpmod")
    elif form == "class":
        name = "vpmod." + p
        there = vpthing(S, p == "Thing")
    elif form == "nested":
        name = "vpmod.Outer." + p
        there = vpthing(S, p == "Inner")
    elif form == "package":
        name = "vppkg." + p + ".Far"
        there = vpthing(S, p == "sub")
    elif form == "single":
        name = p
        there = False
    else:
        name = "vpmodels.Plain"
        there = True
    if form in ("class", "nested"):
        # other names of the module are not classes
        S.assume(not p.startswith("_") and p not in ("value", "Outer", "part", "mro"))
    x = S.int("x")
    found = [] if there else [name]
    policy = S.pick("policy", POLICIES)
    text = M.json.dumps([{"py/object": name, "a": [x]}, [2], {"py/id": 3}, {"py/id": 1},
                         {"py/id": 2}])
    calls = []
    S.warned()

    def call(n):
        calls.append(n)

    try:
        r = jsonpickle.decode(text, on_missing=call if policy == "call" else policy)
    except jsonpickle.errors.ClassNotFoundError:
        S.check(policy.lower() == "error" and bool(found), "unexpected ClassNotFoundError")
        return
    S.check(not (policy.lower() == "error" and found), "no error for a missing class")
    S.check(len(S.warned()) == (len(found) if policy.lower() == "warn" else 0), "warnings")
    S.check(r[1] == [2] and r[2] is r[1] and r[3] is r[0], "references")
    if there:
        S.check(type(r[0]) is not dict and r[4] is r[0].a and r[4] == [x], "not an instance")
        S.reach("there")
    else:
        S.check(r[0]["py/object"] == name and r[0]["a"] == [x] and r[4] is r[0]["a"]
                and list(r[0]) == ["py/object", "a"], "not the data of the document")
        if policy == "call":
            S.check(calls == [name], "the function was not called once with the name")
        S.reach("gone")


def vpthing(S, cond):
    return True if cond else False


def replaced(v, memo, found):
    """Like expected, but changes the containers of v."""
    t = type(v)
    if t is tuple:
        return tuple(replaced(x, memo, found) for x in v)
    if t not in (list, dict) and t not in NAMES:
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    r = v if t in (list, dict) else {}
    memo[id(v)] = (v, r)
    if t is list:
        for i in range(len(v)):
            r[i] = replaced(v[i], memo, found)
    elif t is dict:
        for k in list(v):
            r[k] = replaced(v[k], memo, found)
    else:
        found.append(NAMES[t])
        r["py/object"] = NAMES[t]
        for k in ("a", "b"):
            if hasattr(v, k):
                r[k] = replaced(getattr(v, k), memo, found)
    return r


def rich(S):
    """Other tags inside the missing object, and around it."""
    x = S.leaf("x", "is")
    b = S.bytes("b")
    shared = [x]
    inner = S.pick("inner", ["bytes", "tuple", "set", "type", "keyed", "plain", "missing", "dd",
                             "red", "func"])
    part = {"bytes": b, "tuple": (shared, 1), "set": {1, 2}, "type": M.Plain,
            "keyed": {(1, 2): shared}, "plain": M.Plain(), "missing": M.LocalSlots(),
            "dd": M.collections.defaultdict(list, {"a": shared}), "red": M.Reduce2(shared),
            "func": M.func}[inner]
    o = S.pick("outer", [M.Local, M.LocalSlots])()
    o.a = part
    o.b = shared
    v = S.pick("around", [[shared, o, part, shared, o], {"k": o, "l": part, "m": shared},
                          [o, [o, shared], (part, [7])]])
    text = jsonpickle.encode(v, keys=True)
    found = []
    r = jsonpickle.decode(text, keys=True)
    # compare with the same document in which the class is found
    there = jsonpickle.decode(text, keys=True, classes={
        "nowhere.Local": M.Local, "nowhere.LocalSlots": M.LocalSlots})
    S.iso(replaced(there, {}, found), r, "decoded value")
    S.check(bool(found), "nothing is missing")
    S.reach(inner)


def large(S):
    """Many missing objects, or one with much in it."""
    n = S.pick("n", [10, 21, 70, 130])
    at = S.pick("at", [0, n // 2, n - 1])
    x = [S.int("x")]
    policy = S.pick("policy", POLICIES[:4])
    how = S.pick("how", ["many", "attributes", "items", "keys", "deep"])
    cls = {"many": M.Local, "attributes": M.Local, "items": M.LocalList, "keys": M.LocalDict, "deep": M.Local}[how]
    o = v = cls()
    if how == "many":
        v = [cls() for i in range(n)]
        v[at].a = o
    elif how == "deep":
        for i in range(n // 2):
            o.a = cls()
            o = o.a
    else:
        if how == "keys":
            v.tag = 1
        for i in range(n):
            y = x if i == at else i
            if how == "attributes":
                setattr(v, "a%d" % i, y)
            elif how == "items":
                v.append(y)
            else:
                v["k%d" % i] = y
    v = [v, x, o, x]
    found = []
    check(S, jsonpickle.encode(v), policy, expected(v, {}, found), found)


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="graph", fn=graph,
         quick=dict(kinds=("list", "dict", "gone"), nodes=3, width=2, policies=1),
         thorough=dict(kinds=("list", "dict", "plain", "gone", "tuple"), nodes=3, width=2,
                       policies=2), reach=["shared", "ignore"]),
    dict(name="kinds", fn=graph,
         quick=dict(kinds=("list", "gone", "goneslots", "gonestate", "gonelist", "gonedict",
                           "gonenew"), nodes=2, width=2, policies=4),
         thorough=dict(kinds=("list", "gone", "goneslots", "gonestate", "gonelist", "gonedict",
                              "gonenew"), nodes=3, width=2, policies=1),
         reach=["shared", "ignore", "warn", "error", "call"]),
    dict(name="policies", fn=graph,
         quick=dict(kinds=("list", "plain", "gone"), nodes=2, width=2, both=1),
         reach=["shared", "ignore", "warn", "error", "call", "IGNORE", "Warn"]),
    dict(name="names", fn=names, quick={}, reach=["there", "gone"]),
    dict(name="rich", fn=rich, quick={}, reach=["plain", "missing", "keyed", "dd"]),
]
