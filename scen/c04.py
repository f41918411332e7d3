"""C04: plain JSON passes through decode and encode untouched."""
import json

import jsonpickle
from graphs import G, TAGS, bulk, chain

BOUNDS = ("JSON trees of up to `nodes` arrays/objects and `width` children each; unbounded "
          "symbolic strings and integers at leaves and as keys")


def decoded(S):
    """decode(text) is what the JSON library parses."""
    g = G(S, ["list", "dict"], S.p("nodes"), width=S.p("width"), leaf="nbifs",
          leaves=S.p("leaves"), share=False, keypre=(), keyneq=TAGS)
    tree = g.build() if S.flag("composite") else S.leaf("top")
    text = json.dumps(tree)
    opts = {}
    o = S.pick("opt", ["none", "unsafe", "v1", "warn", "error", "readonly", "context"])
    if o == "unsafe":
        opts["safe"] = False
    elif o == "v1":
        opts["v1_decode"] = True
    elif o == "warn" or o == "error":
        opts["on_missing"] = o
    elif o == "readonly":
        opts["handle_readonly"] = True
    elif o == "context":
        opts["context"] = jsonpickle.Unpickler()
    r = jsonpickle.decode(text, **opts)
    S.obs(r)
    S.iso(json.loads(text), r, "decode(text) is not the parsed JSON", identity=True)


def keyed(S):
    """The same with keys=True, for keys that are not escaped keys."""
    g = G(S, ["list", "dict"], S.p("nodes"), width=S.p("width"), leaf="nbifs",
          leaves=S.p("leaves"), share=False, keypre=("json://",), keyneq=TAGS)
    text = json.dumps(g.build())
    r = jsonpickle.decode(text, keys=True)
    S.obs(r)
    S.iso(json.loads(text), r, "decode(text, keys=True) is not the parsed JSON")


def encoded(S):
    """encode(v) is exactly the JSON of v."""
    enc = {}
    o = S.pick("opt", ["none", "keys", "norefs", "plain", "plainnorefs", "b85", "warn", "indent",
                       "separators", "numeric", "decimal", "properties", "failsafe",
                       "maxiter"])
    if o == "keys":
        enc["keys"] = True
    elif o == "norefs":
        enc["make_refs"] = False
    elif o == "plain":
        enc["unpicklable"] = False
    elif o == "plainnorefs":
        enc["unpicklable"] = False
        enc["make_refs"] = False
    elif o == "b85":
        enc["use_base85"] = True
    elif o == "warn":
        enc["warn"] = True
    elif o == "indent":
        enc["indent"] = S.pick("indent", [0, 3])
    elif o == "separators":
        enc["separators"] = (",", ":")
    elif o == "numeric":
        enc["numeric_keys"] = True
    elif o == "decimal":
        enc["use_decimal"] = True
    elif o == "properties":
        enc["include_properties"] = True
    elif o == "failsafe":
        enc["fail_safe"] = repr
    elif o == "maxiter":
        enc["max_iter"] = 1
    g = G(S, ["list", "dict"], S.p("nodes"), width=S.p("width"), leaf="nbifs",
          leaves=S.p("leaves"), share=False,
          keypre=("json://",) if o == "keys" else (), keyneq=TAGS)
    v = g.build() if S.flag("composite") else S.leaf("top")
    text = jsonpickle.encode(v, **enc)
    r = json.loads(text)
    S.obs(r)
    S.iso(v, r, "encode(v) is not the JSON of v")
    S.check(not S.warned(), "a warning was issued for plain JSON data")


def large(S):
    """Many items, or many levels, in either direction."""
    x = S.leaf("x", "nbis")
    x = S.pick("o", [x, [x], {"py": x}])
    if S.flag("wide"):
        v = bulk(S, ["list", "dict"], x)
        if S.flag("in"):
            v = chain(S, v, 1, (), ["list", "dict"])
    else:
        v = chain(S, x, 3, (12, 40), ["list", "dict"])
    keys = S.flag("keys")
    if S.flag("decode"):
        r = jsonpickle.decode(json.dumps(v), keys=keys)
        S.iso(v, r, "decode(text) is not the parsed JSON")
    else:
        r = json.loads(jsonpickle.encode(v, keys=keys, unpicklable=S.flag("unpicklable"), make_refs=S.flag("refs")))
        S.iso(v, r, "encode(v) is not the JSON of v")


SCENARIOS = [
    dict(name="large", fn=large, quick={}),
    dict(name="decoded", fn=decoded, quick=dict(nodes=3, width=2, leaves=1),
         thorough=dict(nodes=3, width=2, leaves=2)),
    dict(name="keyed", fn=keyed, quick=dict(nodes=3, width=2, leaves=1),
         thorough=dict(nodes=3, width=2, leaves=2)),
    dict(name="encoded", fn=encoded, quick=dict(nodes=3, width=2, leaves=1),
         thorough=dict(nodes=3, width=2, leaves=2)),
]
