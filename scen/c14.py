"""C14: malformed tagged payloads degrade to empty values."""
import jsonpickle
from jsonpickle.unpickler import Unpickler
import vpmodels as M

BOUNDS = ("one or two malformed entries, each with any payload of the wrong type, in any of the "
          "listed positions, with objects and references before and after")

# what a malformed entry decodes to, and a well-formed entry that is numbered alike
TAGS = {
    "py/tuple": (tuple, {"py/tuple": []}),
    "py/set": (set, {"py/set": []}),
    "py/iterator": (None, {"py/iterator": []}),
    "py/b64": (bytes, {"py/b64": ""}),
    "py/b85": (bytes, {"py/b85": ""}),
    "py/reduce": (list, {"py/reduce": [{"py/type": "builtins.list"}, {"py/tuple": []}]}),
}


def payload(S, tag, name):
    opts = ["leaf"]
    if tag in ("py/b64", "py/b85"):
        opts = ["leaf", "list", "dict", "nested", "empty", "none"]
    o = S.pick(name + ".shape", opts)
    if o == "leaf":
        return S.leaf(name, "nbif")
    if o == "list":
        return [S.leaf(name, "nifs")]
    if o == "dict":
        return {"a": S.leaf(name, "nifs")}
    if o == "nested":
        return {"py/tuple": [[1]]}
    return [] if o == "empty" else {}


def empty(S, tag, r):
    kind = TAGS[tag][0]
    if kind is None:
        S.check(hasattr(r, "__next__") and list(r) == [], "not an empty iterator")
        return
    S.check(type(r) is kind and len(r) == 0, "not an empty %s" % kind.__name__)


WHERE = {
    "top": (lambda e: e, lambda r: r),
    "item": (lambda e: [[1], e, [2], {"py/id": 1}], lambda r: r[1]),
    "value": (lambda e: {"a": [1], "k": e, "b": {"py/id": 1}}, lambda r: r["k"]),
    "attr": (lambda e: {"py/object": "vpmodels.Plain", "a": [1], "k": e, "b": {"py/id": 1}},
             lambda r: r.k),
    "slot": (lambda e: {"py/object": "vpmodels.Slots", "a": [1], "b": e}, lambda r: r.b),
    "tuple": (lambda e: {"py/tuple": [1, e]}, lambda r: r[1]),
    "state": (lambda e: {"py/object": "vpmodels.LiveState", "py/state": {"k": e}},
              lambda r: r.k),
    "seq": (lambda e: {"py/object": "vpmodels.ListSub", "py/seq": [e]}, lambda r: r[0]),
    "sub": (lambda e: {"py/object": "vpmodels.DictSub", "k": e}, lambda r: r["k"]),
    "newargs": (lambda e: {"py/object": "vpmodels.NewArgs", "py/newargs": {"py/tuple": [e]}},
                lambda r: r.a),
    "reduce": (lambda e: {"py/reduce": [{"py/type": "vpmodels.Reduce2"}, {"py/tuple": [e]}]},
               lambda r: r.args[0]),
}


def around(entry, where, refs):
    """A document with the entry in the middle and references all over."""
    return [[5], {"py/object": "vpmodels.Plain", "a": {"py/id": 1}}, WHERE[where][0](entry),
            [6], {"py/id": 1}, {"py/id": 2}] + [{"py/id": 3 + i} for i in range(refs)] + [
            {"x": {"py/id": 1}}]


def restore(S, doc):
    how = S.pick("how", ["decode", "keys", "unpickler"])
    if how == "unpickler":
        return Unpickler().restore(doc)
    return jsonpickle.decode(M.json.dumps(doc), keys=how == "keys")


def entries(S):
    tag = S.pick("tag", list(TAGS))
    where = S.pick("where", list(WHERE))
    bad = {tag: payload(S, tag, "p")}
    if where == "top":
        empty(S, tag, restore(S, bad))
        return
    r = restore(S, around(bad, where, 4))
    good = jsonpickle.decode(M.json.dumps(around(TAGS[tag][1], where, 4)))
    empty(S, tag, WHERE[where][1](r[2]))
    drop(r, good, where, tag)
    S.iso(good, r, "the rest of the document differs")
    S.reach(tag)


def drop(r, good, where, tag):
    """Put one marker in place of the entry itself, wherever it is referenced."""
    if tag not in ("py/iterator", "py/reduce"):
        return
    for doc in (r, good):
        e = WHERE[where][1](doc[2])
        for i in range(len(doc)):
            if doc[i] is e or hasattr(doc[i], "__next__") or doc[i] == []:
                doc[i] = "entry"
        if where == "item":
            doc[2][1] = "entry"
        elif where in ("value", "sub"):
            doc[2]["k"] = "entry"
        elif where in ("attr", "state"):
            doc[2].k = "entry"
        elif where == "slot":
            doc[2].b = "entry"
        elif where == "tuple":
            doc[2] = "tuple"
        elif where == "seq":
            doc[2][0] = "entry"
        elif where == "newargs":
            doc[2].a = "entry"
        else:
            doc[2].args = ()


def two(S):
    """Two malformed entries next to each other."""
    tags = [S.pick("t%d" % i, list(TAGS)) for i in range(2)]
    doc = [[1], {tags[0]: S.leaf("p0", "nbif")}, {"k": {tags[1]: S.leaf("p1", "nbif")}},
           {"py/id": 1}, [2]]
    r = restore(S, doc)
    empty(S, tags[0], r[1])
    empty(S, tags[1], r[2]["k"])
    S.check(type(r[2]) is dict and len(r[2]) == 1 and r[0] == [1] and r[4] == [2]
            and r[3] is r[0] and len(r) == 5, "the rest of the document differs")


def reference(S):
    """Reference entries with any payload."""
    kind = S.pick("kind", ["leaf", "list", "dict", "int"])
    if kind == "leaf":
        p = S.leaf("p", "nbfs")
    elif kind == "list":
        p = [1]
    elif kind == "dict":
        p = {"a": 1}
    else:
        p = S.int("p")
    where = S.pick("where", ["top", "item", "value", "attr", "slot", "sub"])
    if where == "top":
        doc = {"py/id": p}
        S.check(restore(S, doc) is None, "a reference to nothing is not None")
        return
    make, get = WHERE[where]
    doc = [[5], make({"py/id": p}), [6], {"py/id": 1}]
    # without the entry
    good = jsonpickle.decode(M.json.dumps([[5], make(None), [6], {"py/id": 1}]))
    n = len(numbered(good, []))
    if kind == "int" and p >= 0 and p < n:
        # a reference to something
        S.assume(False)
    r = restore(S, doc)
    S.check(get(r[1]) is None, "a reference to nothing is not None")
    S.iso(good, r, "the rest of the document differs")
    S.reach(kind)


def numbered(v, seen):
    """Objects that get numbers."""
    if isinstance(v, (list, dict)) or hasattr(v, "__dict__") or hasattr(v, "__slots__"):
        if not any(v is s for s in seen):
            seen.append(v)
            if isinstance(v, dict):
                sub = list(v.values())
            elif isinstance(v, list):
                sub = list(v)
            elif hasattr(v, "__dict__"):
                sub = list(v.__dict__.values())
                if type(v) is M.LiveState:
                    # its state
                    seen.append(object())
            else:
                sub = [v.a, v.b]
            for x in sub:
                numbered(x, seen)
    return seen


SCENARIOS = [
    dict(name="entries", fn=entries, quick={}, reach=list(TAGS)),
    dict(name="two", fn=two, quick={}),
    dict(name="reference", fn=reference, quick={}, reach=["leaf", "int", "list", "dict"]),
]
