"""C12: default decoding never evaluates text from the document."""
import jsonpickle
from jsonpickle.unpickler import Unpickler
import vpmodels as M
import vpmod
import vppkg.sub

BOUNDS = ("repr texts: module/path texts with up to `pieces` dotted pieces on either side, every text with "
          "fewer than `pieces` dots and slashes, the pieces being any strings; one repr entry "
          "in any of the listed positions, or two, one inside a dict key; every option with safe "
          "left alone")
ASSUMPTIONS = ("a module name other than vpmod, vppkg and vppkg.sub is not importable",)


class Carrier:
    pass


class CarrierHandler(jsonpickle.handlers.BaseHandler):
    """Restores its payload through the context."""

    def flatten(self, obj, data):
        data["payload"] = self.context.flatten(obj.payload, reset=False)
        return data

    def restore(self, data):
        c = Carrier()
        c.payload = self.context.restore(data["payload"], reset=False)
        return c


class NestedHandler(CarrierHandler):
    """Decodes text that it stored."""

    def restore(self, data):
        c = Carrier()
        c.payload = jsonpickle.decode(M.json.dumps(data["payload"]), context=self.context,
                                      reset=False)
        return c


POSITIONS = {
    "top": (lambda e: e, lambda r: r),
    "list": (lambda e: [1, e], lambda r: r[1]),
    "dict": (lambda e: {"a": {"b": e}}, lambda r: r["a"]["b"]),
    "attr": (lambda e: {"py/object": "vpmodels.Plain", "a": e}, lambda r: r.a),
    "slot": (lambda e: {"py/object": "vpmodels.Slots", "a": e}, lambda r: r.a),
    "state": (lambda e: {"py/object": "vpmodels.LiveState", "py/state": {"a": e}}, lambda r: r.a),
    "tuple": (lambda e: {"py/tuple": [e]}, lambda r: r[0]),
    "seq": (lambda e: {"py/object": "vpmodels.ListSub", "py/seq": [e]}, lambda r: r[0]),
    "newargs": (lambda e: {"py/object": "vpmodels.NewArgs", "py/newargs": {"py/tuple": [e]}},
                lambda r: r.a),
    "newargsex": (lambda e: {"py/object": "vpmodels.NewArgsEx",
                             "py/newargsex": [{"py/tuple": [e]}, {"k": 1}]}, lambda r: r.a),
    "reduce": (lambda e: {"py/reduce": [{"py/type": "vpmodels.Reduce2"}, {"py/tuple": [e]}]},
               lambda r: r.args[0]),
    "reducestate": (lambda e: {"py/reduce": [{"py/function": "vpmodels.rebuild"}, {"py/tuple": [
        {"py/type": "vpmodels.Plain"}]}, {"a": e}]}, lambda r: r.a),
    "iterator": (lambda e: {"py/iterator": [e]}, lambda r: list(r)[0]),
    "subdict": (lambda e: {"py/object": "vpmodels.DictSub", "k": e}, lambda r: r["k"]),
    "handler": (lambda e: {"py/object": "c12.Carrier", "payload": e}, lambda r: r.payload),
    "missing": (lambda e: {"py/object": "nowhere.Gone", "a": [e]}, None),
    "initargs": (lambda e: {"py/object": "vpmodels.InitArgs", "py/initargs": {"py/tuple": [e]}},
                 None),
}

OPTIONS = [dict(), dict(keys=True), dict(v1_decode=True), dict(on_missing="warn"),
           dict(handle_readonly=True), dict(classes=[M.Plain]), dict(safe=True)]


def lookup(module, ident):
    """What the entry may resolve to."""
    if module == "vpmod":
        obj, top = vpmod, "vpmod"
    elif module == "vppkg" or module == "vppkg.sub":
        obj, top = vppkg, "vppkg"
    else:
        return None
    names = ident.split(".")
    if names[0] != top:
        return None
    for n in names[1:]:
        try:
            obj = getattr(obj, n)
        except AttributeError:
            return None
    return obj


def decode(S, doc, opts):
    try:
        r = jsonpickle.decode(M.json.dumps(doc), **opts)
    except ValueError:
        # not of the form module/path
        return False, None
    return True, r


def nothing_run(S):
    if S.evals():
        S.fail("text from the document is evaluated")


def dotted(S, name, most):
    """Any text without a slash and with fewer than `most` dots."""
    return ".".join(S.str("%s%d" % (name, i), without="./")
                    for i in range(1 + S.pick(name + "#", most)))


def entry(S):
    """module/path texts in every position."""
    where = S.pick("where", list(S.p("where", POSITIONS)))
    opts = S.pick("opts", OPTIONS[:S.p("opts", 99)])
    module = dotted(S, "m", S.p("pieces"))
    S.assume(module != "")
    ident = dotted(S, "i", S.p("pieces"))
    jsonpickle.handlers.register(Carrier, S.pick("h", [CarrierHandler, NestedHandler])
                                 if where == "handler" else CarrierHandler)
    make, get = POSITIONS[where]
    ok, r = decode(S, make({"py/repr": module + "/" + ident}), opts)
    jsonpickle.handlers.unregister(Carrier)
    nothing_run(S)
    S.check(ok, "an exception instead of a result")
    if get is not None:
        want = lookup(module, ident)
        got = get(r)
        if want is None:
            S.check(got is None, "a repr entry resolved to something else than None")
        else:
            S.check(got is want or got == want, "a repr entry resolved to the wrong object")
            S.reach("resolved")


def anything(S):
    """Any text at all; only evaluation is excluded."""
    where = S.pick("where", list(POSITIONS))
    jsonpickle.handlers.register(Carrier, CarrierHandler)
    make, get = POSITIONS[where]
    text = S.str("t0", without="./")
    for i in range(S.pick("t#", S.p("pieces"))):
        text = text + S.pick("s%d" % i, ["/", "."]) + S.str("t%d" % (i + 1), without="./")
    decode(S, make({"py/repr": text}), S.pick("opts", OPTIONS))
    jsonpickle.handlers.unregister(Carrier)
    nothing_run(S)


def key(S):
    """Repr entries inside keys."""
    ident = dotted(S, "i", 2)
    e = {"py/repr": "vpmod/vpmod." + ident}
    if S.flag("tuple"):
        e = {"py/tuple": [1, e]}
    k = "json://" + M.json.dumps(e)
    doc = {k: 1}
    where = S.pick("where", ["top", "object", "nested", "state"])
    if where == "object":
        doc = {"py/object": "vpmodels.DictSub", k: 1}
    elif where == "nested":
        doc = {"json://" + M.json.dumps({"py/tuple": [2, 3]}): [doc]}
    elif where == "state":
        doc = {"py/object": "vpmodels.LiveState", "py/state": {"a": doc}}
    text = M.json.dumps(doc)
    keys = S.flag("keys")
    try:
        if S.flag("unpickler"):
            r = Unpickler(keys=keys).restore(M.json.loads(text))
        else:
            r = jsonpickle.decode(text, keys=keys)
    except (TypeError, ValueError):
        # resolves to something that cannot be a key
        S.reach("unhashable")
    nothing_run(S)


def unsafe(S):
    """Only safe=False evaluates."""
    safe = S.flag("safe")
    where = S.pick("where", ["top", "list", "attr", "state", "tuple"])
    make, get = POSITIONS[where]
    try:
        jsonpickle.decode(M.json.dumps(make({"py/repr": "vpmod/vpmod.value"})), safe=safe)
    except (NameError, AttributeError):
        S.reach("name")
    S.check(bool(S.evals()) == (not safe), "evaluation does not follow safe=")
    S.reach("safe" if safe else "unsafe")


SCENARIOS = [
    dict(name="entry", fn=entry, quick=dict(pieces=2), reach=["resolved"]),
    dict(name="paths", fn=entry, quick=dict(pieces=3, where=("top", "attr"), opts=1),
         thorough=dict(pieces=4, where=("top", "attr"), opts=2), reach=["resolved"]),
    dict(name="anything", fn=anything, quick=dict(pieces=3), thorough=dict(pieces=5)),
    dict(name="key", fn=key, quick={}),
    dict(name="unsafe", fn=unsafe, quick={}, reach=["safe", "unsafe"]),
]
