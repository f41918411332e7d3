"""C23: values with built-in handlers round-trip."""
import array
import datetime
import io
import queue
import re
import sys
import threading
import uuid

import jsonpickle
import vpmodels as M

BOUNDS = ("arrays of up to 2 elements of every type code and any value; every date and time (days "
          "up to the 28th), fixed time zones; every UUID; patterns of any plain text with any of "
          "the flags; both lock states; in graphs with aliases before and after other objects")
ASSUMPTIONS = ["the text of symbolic patterns has no special characters",
               "float array elements are exactly representable"]

TZ = [None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=-3, minutes=-30), "XY")]
SPECIAL = "\\.^$*+?{}[]|()#"


def array_of(S, n):
    tc = S.pick("tc" + n, S.p("codes", "bBhHiIlLqQfdu"))
    k = S.pick("len" + n, S.p("items", 2) + 1)
    if tc in "fd":
        items = [S.int("v%s%d" % (n, i), -1000, 1000) / 2 for i in range(k)]
    elif tc == "u":
        items = [S.text("v%s%d" % (n, i), 1) for i in range(k)]
    else:
        size = array.array(tc).itemsize * 8
        lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if tc.islower() else (0, (1 << size) - 1)
        items = [S.int("v%s%d" % (n, i), lo, hi) for i in range(k)]
    return array.array(tc, items)


def date_of(S, n):
    kind = S.pick("kind" + n, ["date", "time", "datetime"])
    d = [S.int("y" + n, 1, 9999), S.int("m" + n, 1, 12), S.int("d" + n, 1, 28)]
    if kind == "date":
        return datetime.date(*d)
    t = [S.int("H" + n, 0, 23), S.int("M" + n, 0, 59), S.int("S" + n, 0, 59), S.int("u" + n, 0, 999999)]
    tz = S.pick("tz" + n, TZ)
    fold = S.pick("fold" + n, 2)
    if kind == "time":
        return datetime.time(*t, tzinfo=tz, fold=fold)
    return datetime.datetime(*d, *t, tzinfo=tz, fold=fold)


FLAGS = [0, re.I, re.M | re.S, re.X, re.A, re.I | re.A]


def pattern_of(S, n):
    flags = S.pick("flags" + n, FLAGS)
    if S.flag("bytes" + n):
        return re.compile(S.pick("bp" + n, [b"a", b"a\xff", b"b+"]), flags)
    return re.compile(S.str("p" + n, without=SPECIAL), flags)


def uuid_of(S, n):
    return uuid.UUID(bytes=S.bytes("id" + n, 16))


def lock_of(S, n):
    lock = threading.Lock()
    if S.flag("locked" + n):
        lock.acquire()
    return lock


MAKE = {"array": array_of, "date": date_of, "pattern": pattern_of, "uuid": uuid_of, "lock": lock_of}


def compare(S, r, v, kind):
    if kind == "lock":
        S.check(type(r) is type(v), "type")
        S.check(r.locked() == v.locked(), "lock state")
        return
    S.check(type(r) is type(v), "type")
    S.check(r == v, "value")
    if kind == "array":
        S.check(r.typecode == v.typecode, "typecode")
        S.check(len(r) == len(v), "length")
        for x, y in zip(r, v):
            S.same(x, y, "element")
    elif kind == "date" and type(v) is not datetime.date:
        S.check(r.tzinfo == v.tzinfo, "time zone")
        S.check(r.fold == v.fold, "fold")
    elif kind == "pattern":
        S.check(r.flags == v.flags, "flags")
        S.same(r.pattern, v.pattern, "pattern")
    elif kind == "uuid":
        S.check(r.hex == v.hex, "hex")


def value(S):
    """Each value at each kind of place."""
    kind = S.pick("type", sorted(MAKE))
    v = MAKE[kind](S, "")
    where = S.pick("where", ["top", "list", "dict", "attr", "tuple"])
    x = (v if where == "top" else [1, v] if where == "list" else {"k": v} if where == "dict"
         else (v, 2))
    if where == "attr":
        x = M.Plain()
        x.a = v
    r = jsonpickle.decode(jsonpickle.encode(x))
    S.check(type(r) is type(x), "type of the whole")
    g = (r if where == "top" else r[1] if where == "list" else r["k"] if where == "dict"
         else r[0] if where == "tuple" else r.a)
    compare(S, g, v, kind)


def graph(S):
    """Two such values, shared or not, among other shared objects."""
    k1 = S.pick("t1", sorted(MAKE))
    v1 = FEW[k1](S, "1")
    same = S.flag("same")
    k2 = k1 if same else S.pick("t2", sorted(MAKE))
    v2 = v1 if same else FEW[k2](S, "2")
    p = M.Plain()
    p.a = v1
    q = [7]
    kw = {}
    if S.flag("unref"):
        kw["make_refs"] = False
    x = [v1, q, p, v2, {"k": v2}, p, q] if S.flag("order") else [p, v2, q, v1, v2, q, p]
    r = jsonpickle.decode(jsonpickle.encode(x, **kw))
    S.check(type(r) is list and len(r) == 7, "length")
    first = [i for i in range(7) if x[i] is v1][0]
    i2 = [i for i in range(7) if x[i] is v2][0]
    ip = [i for i in range(7) if x[i] is p]
    iq = [i for i in range(7) if x[i] is q]
    compare(S, r[first], v1, k1)
    compare(S, r[i2], v2, k2)
    S.check(type(r[ip[0]]) is M.Plain, "object")
    compare(S, r[ip[0]].a, v1, k1)
    S.check(r[iq[0]] == [7], "list")
    if not kw:
        S.check(r[ip[0]] is r[ip[1]], "object no longer shared")
        S.check(r[iq[0]] is r[iq[1]], "list no longer shared")
        S.check(r[ip[0]].a is r[first], "value no longer shared")
        S.check((r[i2] is r[first]) == same, "second value")
        if S.warned():
            S.fail("warning")


def small_array(S, n):
    return array.array("h", [S.int("v" + n, -9, 9)])


def small_date(S, n):
    return datetime.datetime(2000, 1, 2, tzinfo=S.pick("tz" + n, TZ), microsecond=S.int("u" + n, 0, 999999))


def small_pattern(S, n):
    # equal patterns with equal flags are one object
    return re.compile(S.str("p" + n, without=SPECIAL), re.I if n == "1" else 0)


FEW = {"array": small_array, "date": small_date, "pattern": small_pattern, "uuid": uuid_of, "lock": lock_of}


def plain(S):
    """unpicklable=False: ISO text."""
    v = date_of(S, "")
    import json
    r = json.loads(jsonpickle.encode([v, {"k": v}], unpicklable=False))
    want = v.isoformat()
    S.check(type(r[0]) is str and r[0] == want, "ISO text")
    S.check(r[1]["k"] == want, "ISO text again")


def opaque(S):
    """Queues come back empty, text files as None."""
    q = queue.Queue()
    for i in range(S.pick("n", 3)):
        q.put(i)
    p = M.Plain()
    p.q = q
    p.f = sys.stderr if S.flag("stderr") else io.TextIOWrapper(io.BytesIO())
    z = [1]
    r = jsonpickle.decode(jsonpickle.encode([p, z, q, p.f, z, p]))
    S.check(type(r[0]) is M.Plain and r[5] is r[0], "object")
    S.check(type(r[0].q) is queue.Queue and r[0].q.empty(), "queue")
    S.check(r[2] is r[0].q, "queue no longer shared")
    S.check(r[0].f is None and r[3] is None, "file")
    S.check(r[1] == [1] and r[4] is r[1], "list")


SCENARIOS = [
    dict(name="value", fn=value, quick={}, thorough={"items": 3}),
    dict(name="graph", fn=graph, quick={}, thorough={}),
    dict(name="plain", fn=plain, quick={}, thorough={}),
    dict(name="opaque", fn=opaque, quick={}, thorough={}),
]
