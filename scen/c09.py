"""C09: max_depth and max_iter."""
import json

import jsonpickle
from graphs import G, chain
import vpmodels as M

BOUNDS = ("graphs of up to `nodes` containers and plain instances, any sharing; max_depth any "
          "integer or None; iterators of up to `items` items, max_iter any non-negative integer "
          "or None")


def composite(v):
    return isinstance(v, (list, tuple, set, dict)) or type(v) is M.Plain


def walk(S, v, r, depth, n, plain, seen):
    if not composite(v):
        S.iso(v, r, "a leaf differs")
        return
    if n is not None and depth == n:
        S.check(isinstance(r, str) and r == repr(v),
                "a value at the depth limit is not replaced by its repr()")
        S.reach("cut")
        return
    if isinstance(r, str):
        S.fail("a value above the depth limit is replaced by text")
    if seen is not None and type(v) not in (tuple, set):
        for a, b in seen:
            if a is v:
                S.check(b is r, "two places that held one object hold different ones")
                return
            if b is r:
                S.fail("two objects became one")
        seen.append((v, r))
    if plain:
        want = dict if type(v) is M.Plain else list if type(v) in (tuple, set) else type(v)
    else:
        want = type(v)
    if type(r) is not want:
        S.fail("%s instead of %s" % (type(r).__name__, want.__name__))
    if type(v) is M.Plain or type(v) is dict:
        a = v.__dict__ if type(v) is M.Plain else v
        b = r.__dict__ if type(r) is M.Plain else r
        if list(a) != list(b):
            S.fail("keys differ")
        for k in a:
            walk(S, a[k], b[k], depth + 1, n, plain, seen)
        return
    if len(v) != len(r):
        S.fail("%d items instead of %d" % (len(r), len(v)))
    for x, y in zip(v, r):
        walk(S, x, y, depth + 1, n, plain, seen)


def depth(S):
    mode = S.pick("mode", ["refs", "norefs"] if S.p("extra", 0) else ["refs", "norefs", "plain"])
    if S.flag("limit"):
        n = S.int("n")
    else:
        n = None
    g = G(S, S.p("kinds", ("list", "dict", "plain", "tuple")), S.p("nodes"), width=S.p("width"), leaf="i",
          leaves=1, cycles=mode == "refs", keys="conc",
          extra=("bytes",) if S.p("extra", 0) else ())
    v = g.build()
    if mode == "plain":
        r = json.loads(jsonpickle.encode(v, unpicklable=False, max_depth=n))
    else:
        r = jsonpickle.decode(jsonpickle.encode(v, make_refs=mode == "refs", max_depth=n))
    walk(S, v, r, 0, n, mode == "plain", [] if mode == "refs" else None)
    if g.shared:
        S.reach("shared " + mode)


def primitives(S):
    """Primitives at the limit stay what they are."""
    x = S.leaf("x", kinds="nbif")
    b = S.bytes("b")
    n = S.int("n")
    ba = bytearray(b"ab")
    v = [x, b, [x, [b, x, ba]], ba]
    r = jsonpickle.decode(jsonpickle.encode(v, max_depth=n))
    deep(S, v, r, 0, n)


def deep(S, v, r, depth, n):
    if type(v) is not list:
        S.iso(v, r, "a primitive differs")
        return
    if depth == n:
        S.check(isinstance(r, str) and r == repr(v), "not the repr()")
        return
    S.check(isinstance(r, list) and len(r) == len(v), "not a list of the same length")
    for x, y in zip(v, r):
        deep(S, x, y, depth + 1, n)


def levels(S):
    """A limit far down."""
    v = chain(S, S.int("x"), 0, (12, 30), ["list", "dict", "plain"])
    n = S.int("n")
    mode = S.pick("mode", ["refs", "norefs", "plain"])
    if mode == "plain":
        r = json.loads(jsonpickle.encode(v, unpicklable=False, max_depth=n))
    else:
        r = jsonpickle.decode(jsonpickle.encode(v, make_refs=mode == "refs", max_depth=n))
    walk(S, v, r, 0, n, mode == "plain", [] if mode == "refs" else None)


def top(S):
    v = S.pick("v", ["int", "str", "none", "bytes"])
    x = {"int": 5, "str": "s", "none": None, "bytes": b"x"}[v]
    r = jsonpickle.decode(jsonpickle.encode(x, max_depth=S.int("n")))
    S.iso(x, r, "a primitive at the top differs")


def iterators(S):
    """Any iterator, any limit."""
    mode = S.pick("mode", ["refs", "plain"])
    # what Python can pickle as an iterator is not consumed when it can be restored
    kind = S.pick("kind", ["gen", "own"] + ["iter", "map", "zip", "chain"] * (mode == "plain"))
    items = []
    lengths = S.p("lengths", None) or list(range(S.p("items") + 1))
    for i in range(S.pick("len", lengths)):
        items.append(S.int("x%d" % i) if i else [S.leaf("x0")])
    own = None
    if kind == "iter":
        it = iter(items)
    elif kind == "gen":
        it = M.produce(items)
    elif kind == "map":
        it = map(M.func, items)
    elif kind == "zip":
        it = zip(items)
    elif kind == "chain":
        it = M.itertools.chain(items[:1], items[1:])
    else:
        it = own = M.Countdown(items)
    n = None
    if S.flag("limit"):
        n = S.int("n")
        S.assume(n >= 0)
    nest = S.pick("nest", S.p("nests", ["top", "list", "attr", "twice"]))
    x = [7]
    if nest == "list":
        v = [x, it, x]
    elif nest == "attr":
        v = M.Plain()
        v.a = it
    elif nest == "twice":
        v = [it, it, x, x]
    else:
        v = it
    text = jsonpickle.encode(v, max_iter=n, unpicklable=mode == "refs")
    if n is None:
        k = len(items)
    else:
        k = 0
        while k < len(items) and k < n:
            k += 1
    if kind == "zip":
        want = [(y,) for y in items]
    else:
        want = items
    if own is not None:
        S.check(own.taken == (k if n is not None and k == n else k + 1),
                "asked %d times for %d items" % (own.taken, k))
    rest = list(it)
    S.check(len(rest) == len(items) - k, "%d items left instead of %d" % (len(rest),
                                                                        len(items) - k))
    S.iso(want[k:], rest, "the rest of the iterator differs", identity=False)
    if mode == "plain":
        r = json.loads(text)
        j = r if nest == "top" else r["a"] if nest == "attr" else r[1 if nest == "list" else 0]
        got = j["py/iterator"]
        want = [list(y) for y in want] if kind == "zip" else want
    else:
        r = jsonpickle.decode(text)
        j = r if nest == "top" else r.a if nest == "attr" else r[1 if nest == "list" else 0]
        if nest == "list":
            S.check(r[0] is r[2] and r[0] == [7], "references after the iterator are wrong")
        if nest == "twice":
            S.check(r[0] is r[1], "the iterator is not shared")
            S.check(r[2] is r[3] and r[2] == [7], "references after the iterator are wrong")
        got = list(j)
    S.check(len(got) == k, "%d items instead of %d" % (len(got), k))
    S.iso(want[:k], got, "items differ", identity=False)


SCENARIOS = [
    dict(name="depth", fn=depth, quick=dict(nodes=3, width=2, kinds=("list", "plain")), thorough=dict(nodes=4, width=2),
         reach=["cut", "shared refs", "shared norefs", "shared plain"]),
    dict(name="mixed", fn=depth, quick=dict(nodes=2, width=2, extra=1)),
    dict(name="primitives", fn=primitives, quick={}),
    dict(name="top", fn=top, quick={}),
    dict(name="levels", fn=levels, quick={}),
    dict(name="long", fn=iterators, quick=dict(lengths=[12, 40, 130], nests=["list", "top"])),
    dict(name="iterators", fn=iterators, quick=dict(items=3), thorough=dict(items=6)),
]
