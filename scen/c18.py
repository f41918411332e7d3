"""C18: binary data is exact in both base64 and base85."""
import base64
import json

import jsonpickle
import vpmodels as M

BOUNDS = ("byte strings of any length and content at every kind of place, both encodings; "
          "malformed text from a list")


def place(S, v, hashable):
    """v somewhere in a value, and how to find it again."""
    where = S.pick("where", ["top", "list", "dict", "attr", "tuple", "state", "newargs", "reduce",
                             "listsub", "dictsub", "slots"] + (["key", "set", "setsub"] if hashable
                                                              else []))
    if where == "top":
        return v, {}, lambda r: r
    if where == "list":
        return [0, v, 1], {}, lambda r: r[1]
    if where == "dict":
        return {"k": v}, {}, lambda r: r["k"]
    if where == "key":
        S.reach("key")
        return {v: 1, "z": 2}, {"keys": True}, lambda r: [k for k in r if type(k) is not str][0]
    if where == "set":
        return {v}, {}, lambda r: list(r)[0]
    if where == "setsub":
        return M.SetSub([v]), {}, lambda r: list(r)[0]
    if where == "tuple":
        return (v, 1), {}, lambda r: r[0]
    if where == "newargs":
        return M.NewArgs(v), {}, lambda r: r.a
    if where == "reduce":
        return M.Reduce2(v), {}, lambda r: r.args[0]
    if where == "listsub":
        return M.ListSub([v]), {}, lambda r: r[0]
    if where == "dictsub":
        d = M.DictSub()
        d["k"] = v
        return d, {}, lambda r: r["k"]
    o = {"attr": M.Plain, "state": M.StateDict, "slots": M.Slots}[where]()
    o.a = v
    return o, {}, lambda r: r.a


def opts85(S):
    k = S.pick("85", ["unset", "off", "on"])
    return {} if k == "unset" else {"use_base85": k == "on"}


def trip(S):
    """decode(encode(...)) gives the same bytes and type at any place."""
    data = S.bytes("data")
    ba = S.flag("bytearray")
    v = bytearray(data) if ba else data
    x, kw, get = place(S, v, not ba)
    text = jsonpickle.encode(x, **opts85(S), **kw)
    r = jsonpickle.decode(text, **kw)
    S.check(type(r) is type(x), "type")
    g = get(r)
    S.check(type(g) is type(v), "type of the data")
    S.check(g == v, "data")
    S.obs(g)
    if kw:
        S.check(len(r) == 2, "another key is lost")


def text(S):
    """The stored text is standard base64 or base85."""
    data = S.bytes("data")
    kw = opts85(S)
    ba = S.flag("bytearray")
    flat = json.loads(jsonpickle.encode(bytearray(data) if ba else data, **kw))
    if ba:
        S.check(list(flat) == ["py/bytea"], "tag")
        flat = flat["py/bytea"]
    if kw.get("use_base85"):
        S.check(list(flat) == ["py/b85"], "tag")
        S.check(flat["py/b85"] == base64.b85encode(data).decode("ascii"), "not base85")
        S.reach("85")
    else:
        S.check(list(flat) == ["py/b64"], "tag")
        S.check(flat["py/b64"] == base64.b64encode(data).decode("ascii"), "not base64")
        S.reach("64")


def both(S):
    """Two values with the same or different data, in one document."""
    a = S.bytes("a")
    b = S.bytes("b")
    kw = opts85(S)
    v = [a, bytearray(b), {"k": b}, bytearray(a)]
    r = jsonpickle.decode(jsonpickle.encode(v, **kw))
    S.check(r[0] == a and r[1] == bytearray(b) and r[2]["k"] == b and r[3] == bytearray(a), "data")
    S.check([type(x) for x in r] == [bytes, bytearray, dict, bytearray], "types")


def plain(S):
    """unpicklable=False writes the same text; older documents decode, too."""
    data = S.bytes("data")
    e = S.pick("enc", ["b64", "b85"])
    f = base64.b64encode if e == "b64" else base64.b85encode
    doc = {"py/" + e: f(data).decode("ascii")}
    ba = S.flag("bytearray")
    if ba:
        doc = {"py/bytea": doc}
    r = jsonpickle.decode(json.dumps(doc))
    S.check(type(r) is (bytearray if ba else bytes) and r == data, "decoded data")


def size(S):
    return S.pick("len", S.p("sizes", [0, 1, 2, 3, 4, 5, 6, 58]))


def exact(S):
    """Every byte survives, whatever its value and neighbours."""
    n = size(S)
    data = S.bytes("data", n)
    ba = S.flag("bytearray")
    v = bytearray(data) if ba else data
    kw = opts85(S)
    r = jsonpickle.decode(jsonpickle.encode([v, {"k": 1}], **kw))[0]
    S.check(type(r) is type(v), "type")
    S.check(len(r) == n, "length")
    for i in range(n):
        S.check(r[i] == data[i], "byte %d" % i)
    S.check(r == v, "data")
    S.obs(r)


DIGITS64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def chars(S):
    """The stored text, character by character, in standard base64."""
    n = size(S)
    data = S.bytes("data", n)
    flat = json.loads(jsonpickle.encode(data))["py/b64"]
    S.check(len(flat) == (n + 2) // 3 * 4, "length of the text")
    for i in range(len(flat)):
        bits = 0
        for j in range(3):
            k = i // 4 * 3 + j
            bits = bits * 256 + (data[k] if k < n else 0)
        d = bits // (1, 64, 64 ** 2, 64 ** 3)[3 - i % 4] % 64
        pad = i // 4 * 3 + i % 4 > n
        S.check(flat[i] == ("=" if pad else S.char(DIGITS64, d)), "character %d" % i)
    S.obs(flat)


def same85(S):
    """The stored text is what the standard library's base85 gives, for every byte."""
    n = size(S)
    data = S.bytes("data", n)
    flat = json.loads(jsonpickle.encode(data, use_base85=True))["py/b85"]
    want = base64.b85encode(data).decode("ascii")
    S.check(flat == want, "text")
    S.obs(flat)
    r = jsonpickle.decode(json.dumps({"py/b85": want}))
    S.check(r == data, "data")


def anytext(S):
    """Text of any ASCII characters: what the standard library makes of it, or empty bytes."""
    t = S.text("t", S.pick("len", S.p("max", 5) + 1), 127)
    e = S.pick("enc", ["b64", "b85"])
    try:
        want = (base64.b64decode if e == "b64" else base64.b85decode)(t)
        S.reach("good")
    except ValueError:
        want = b""
        S.reach("bad")
    r = jsonpickle.decode(json.dumps([{"py/" + e: t}, 5]))
    S.check(type(r[0]) is bytes and r[0] == want, "data")
    S.check(r[1] == 5, "the rest")


BAD64 = ["a", "abc", "=", "ab=", "é", "\ud800", "abcde"]
BAD85 = ["a", "\"", "abc def", "é", "\ud800", "~~~~~", ","]


def bad(S):
    """Undecodable text and anything that is not text gives empty bytes."""
    e = S.pick("enc", ["b64", "b85"])
    k = S.pick("kind", ["text", "int", "none", "list", "bool", "dict"])
    p = (S.pick("text", BAD64 if e == "b64" else BAD85) if k == "text" else S.int("i") if k == "int"
         else None if k == "none" else [S.int("l")] if k == "list" else S.bool("b") if k == "bool"
         else {"x": 1})
    doc = {"py/" + e: p}
    ba = S.flag("bytearray")
    if ba:
        doc = {"py/bytea": doc}
    r = jsonpickle.decode(json.dumps([doc, 5]))
    S.check(type(r[0]) is (bytearray if ba else bytes) and len(r[0]) == 0, "not empty")
    S.check(r[1] == 5, "the rest")


SCENARIOS = [
    dict(name="trip", fn=trip, quick={}, reach=["key"]),
    dict(name="text", fn=text, quick={}, reach=["85", "64"]),
    dict(name="both", fn=both, quick={}),
    dict(name="plain", fn=plain, quick={}),
    dict(name="exact", fn=exact, quick={}),
    dict(name="chars", fn=chars, quick={}),
    dict(name="same85", fn=same85, quick={}),
    dict(name="anytext", fn=anytext, quick={}, thorough={"max": 6}, reach=["good", "bad"]),
    dict(name="bad", fn=bad, quick={}),
]
