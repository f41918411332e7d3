"""C01: built-in values survive encode/decode unchanged."""
import jsonpickle
from graphs import G, bulk, chain

BOUNDS = ("values of up to `nodes` containers and `width` children per container, plus "
          "bytes/bytearrays; leaves and string keys unbounded symbolic; containers of up to 260 items and "
          "chains of 40 levels around a symbolic leaf")


def options(S):
    enc = {}
    dec = {}
    o = S.pick("opt", ["none", "keys", "norefs", "b85", "warn", "indent", "separators", "keysnorefs"])
    if o == "keys":
        enc["keys"] = dec["keys"] = True
    elif o == "norefs":
        enc["make_refs"] = False
    elif o == "b85":
        enc["use_base85"] = True
    elif o == "warn":
        enc["warn"] = True
    elif o == "indent":
        enc["indent"] = 2
    elif o == "separators":
        enc["separators"] = (",", ":")
    elif o == "keysnorefs":
        enc["keys"] = dec["keys"] = True
        enc["make_refs"] = False
    return enc, dec


def roundtrip(S, v, enc, dec, identity):
    text = jsonpickle.encode(v, **enc)
    r = jsonpickle.decode(text, **dec)
    S.obs(r)
    S.iso(v, r, "decode(encode(v)) differs from v", identity=identity)


def tree(S):
    """All nested values, default options, leaves of every kind."""
    g = G(S, ["list", "tuple", "set", "dict", "bytes", "bytearray"], S.p("nodes"),
          width=S.p("width"), leaf="nbifs", leaves=S.p("leaves"))
    v = g.build()
    roundtrip(S, v, {}, {}, False)
    if g.shared:
        S.reach("shared")


def opts(S):
    """Every option, smaller values."""
    enc, dec = options(S)
    g = G(S, ["list", "tuple", "set", "dict", "bytes", "bytearray"], S.p("nodes"),
          width=S.p("width"), leaf="nbifs", leaves=S.p("leaves"))
    v = g.build()
    roundtrip(S, v, enc, dec, False)


def scalar(S):
    """A leaf at the top."""
    enc, dec = options(S)
    k = S.pick("k", ["leaf", "bytes", "bytearray"])
    if k == "leaf":
        v = S.leaf("v")
    elif k == "bytes":
        v = S.bytes("v")
    else:
        v = bytearray(S.bytes("v"))
    roundtrip(S, v, enc, dec, False)


def large(S):
    """Many items, or many levels."""
    x = S.leaf("x", "nis")
    if S.flag("hashable"):
        v = bulk(S, ["list", "tuple", "set", "dict"], x)
    else:
        x = [x]
        v = bulk(S, ["list", "tuple", "dict"], x)
    enc, dec = options(S)
    roundtrip(S, [v, x, v] if S.flag("twice") else v, enc, dec, False)


def deep(S):
    x = S.leaf("x", "nbis")
    v = chain(S, S.pick("o", [x, [x], (x, x), {x}, b"b"]), 3, (12, 40), ["list", "tuple", "dict"])
    enc, dec = options(S)
    roundtrip(S, v, enc, dec, False)


SCENARIOS = [
    dict(name="tree", fn=tree, quick=dict(nodes=3, width=2, leaves=2), reach=["shared"]),
    dict(name="opts", fn=opts, quick=dict(nodes=2, width=2, leaves=2)),
    dict(name="scalar", fn=scalar, quick={}),
    dict(name="large", fn=large, quick={}),
    dict(name="deep", fn=deep, quick={}),
]
