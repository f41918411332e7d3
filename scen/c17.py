"""C17: JSON backends are tried in order with their own options."""
import json

import jsonpickle
from jsonpickle.backend import JSONBackend
import backend_stubs as B
import vpmodels as M
import vpb1
import vpb2
import vpbp.sub

BOUNDS = ("histories of up to `ops` management calls over `backends` stub backends (one of them a "
          "submodule, one with its own function names and error class), any option values, then an "
          "encode and a decode in which each backend succeeds, fails with its decode error or with "
          "another error")

NAMES = ["vpb1", "vpb2", "vpbp.sub"]
ARGS = {"vpb1": {}, "vpb2": {"dumps": "to_text", "loads": "from_text", "loads_exc": "Error"},
        "vpbp.sub": {"loads_exc": vpbp.sub.Error}}
ERRORS = {"vpb1": ValueError, "vpb2": vpb2.Error, "vpbp.sub": vpbp.sub.Error}


class Model:
    def __init__(self):
        self.names = []
        self.enc = {}
        self.dec = {}
        self.fall = True

    def remove(self, n):
        if n in self.names:
            self.names.remove(n)
        self.enc.pop(n, None)
        self.dec.pop(n, None)


def options(S, path):
    """Positional and keyword options with any values."""
    k = S.pick(path + "?", ["none", "kw", "pos", "indent"])
    if k == "none":
        return (), {}
    if k == "kw":
        return (), {"x": S.int(path + "x")}
    if k == "pos":
        return (S.int(path + "p"),), {"y": S.int(path + "y")}
    return (), {"indent": S.int(path + "i"), "z": 1}


def load(S, b, m, n):
    S.check(b.load_backend(n, **ARGS[n]) is True, "a backend was not loaded")
    if n not in m.names:
        m.names.append(n)


def step(S, b, m, i, names):
    op = S.pick("op%d" % i, S.p("what"))
    if op == "fallthrough":
        m.fall = S.bool("f%d" % i)
        b.enable_fallthrough(m.fall)
        return
    if op == "bad":
        k = S.pick("bad%d" % i, ["missing", "missing.sub", "vpbp.none", "dumps", "loads", "exc"])
        if k in ("dumps", "loads", "exc"):
            # a failed load leaves nothing of the backend
            n = "vpb1"
            opts = {"dumps": {"dumps": "none"}, "loads": {"loads": "none"},
                    "exc": {"loads_exc": "Missing"}}[k]
            m.remove(n)
            ok = b.load_backend(n, **opts)
        else:
            ok = b.load_backend(k)
        S.check(ok is False, "a backend that cannot be loaded was loaded")
        S.reach("bad")
        return
    n = S.pick("n%d" % i, names)
    if op == "load":
        load(S, b, m, n)
    elif op == "remove":
        b.remove_backend(n)
        m.remove(n)
        S.reach("removed")
    elif op == "prefer":
        try:
            b.set_preferred_backend(n)
        except AssertionError:
            S.check(n not in m.names, "a loaded backend is refused")
            S.reach("refused")
        else:
            S.check(n in m.names, "a backend that is not loaded is preferred")
            m.names.remove(n)
            m.names.insert(0, n)
    elif op == "enc":
        a, k = options(S, "e%d" % i)
        b.set_encoder_options(n, *a, **k)
        m.enc[n] = (a, dict(k))
    else:
        a, k = options(S, "d%d" % i)
        b.set_decoder_options(n, *a, **k)
        m.dec[n] = (a, dict(k))


def use(S, b, m, tag=""):
    plan = {}

    def ask(n, way):
        if (n, way) not in plan:
            plan[n, way] = S.pick("%s %s%s" % (n, way, tag), S.p("outcomes"))
        return plan[n, way]

    B.PLAN["ask"] = ask
    B.PLAN["errors"] = ERRORS
    # encoding
    del B.LOG[:]
    extra = {}
    if S.flag("indent" + tag):
        extra["indent"] = S.int("indent.v" + tag)
    if S.flag("sep" + tag):
        extra["separators"] = (",", ":")
    if b is jsonpickle:
        run(S, m, plan, "dumps", m.enc, extra, lambda: jsonpickle.encode([1], **extra))
    else:
        run(S, m, plan, "dumps", m.enc, extra, lambda: jsonpickle.encode([1], backend=b, **extra))
    # decoding
    del B.LOG[:]
    if b is jsonpickle:
        run(S, m, plan, "loads", m.dec, {}, lambda: jsonpickle.decode("some text"))
    else:
        run(S, m, plan, "loads", m.dec, {}, lambda: jsonpickle.decode("some text", backend=b))


def run(S, m, plan, way, opts, extra, fn):
    if not m.names:
        try:
            fn()
        except AssertionError:
            S.reach("none")
            S.check(not B.LOG, "a removed backend is used")
            return
        S.fail("no backend, but no error")
    try:
        got = fn()
        err = None
    except (ValueError, vpb2.Error, vpbp.sub.Error, B.OtherError) as e:
        got = None
        err = e
    want = None
    calls = []
    names = m.names if m.fall else m.names[:1]
    for n in names:
        calls.append(n)
        k = plan.get((n, way))
        S.check(k is not None, "a backend was not tried: " + n)
        if k == "ok":
            want = n
            break
        if k == "other" and way == "loads":
            break
    S.check([c[0] for c in B.LOG] == calls, "wrong backends or order")
    S.check(all(c[1] == way for c in B.LOG), "wrong function")
    for c in B.LOG:
        a, kw = opts.get(c[0], ((), {}))
        kw = dict(kw, **extra)
        first = c[2][0]
        S.check(first == [1] if way == "dumps" else first == "some text", "wrong input")
        S.check(c[2][1:] == tuple(a), "wrong positional options")
        S.check(set(c[3]) == set(kw), "wrong keyword options")
        for k in kw:
            S.check(c[3][k] == kw[k], "wrong option value")
    if want is None:
        S.check(err is not None and str(err) == way + " " + calls[-1], "not the last backend's error")
        S.reach("failed")
    else:
        S.check(err is None, "an error although a backend succeeded")
        if way == "dumps":
            S.check(got == "text of " + want, "not the first success")
        else:
            S.check(got == ["value of " + want], "not the first success")
        if len(calls) > 1:
            S.reach("fell through")


def fresh(S):
    return JSONBackend()


def setup(S, b, m, names):
    for n in ("simplejson", "json", "ujson"):
        b.remove_backend(n)
    for n in names:
        load(S, b, m, n)


def history(S):
    m = Model()
    if S.p("global", False):
        b = jsonpickle
    elif S.p("ctor", False):
        m.fall = S.bool("fall")
        b = JSONBackend(fallthrough=m.fall)
    else:
        b = JSONBackend()
    names = NAMES[:S.p("backends")]
    setup(S, b, m, names[:S.p("loaded")])
    for i in range(S.p("ops")):
        step(S, b, m, i, names)
    use(S, b, m)
    if S.p("twice", False):
        use(S, b, m, "+")
    if b is jsonpickle:
        for n in NAMES:
            b.remove_backend(n)
        for n in ("simplejson", "json", "ujson"):
            b.load_backend(n)
        b.enable_fallthrough(True)


class Own:
    """A backend of the caller's."""

    def __init__(self):
        self.log = []

    def encode(self, obj, indent=None, separators=None):
        self.log.append(obj)
        return json.dumps(obj)

    def decode(self, text):
        self.log.append(text)
        return json.loads(text)


def given(S):
    """The backend given to a call is the only one used, for keys too."""
    for n in ("simplejson", "json", "ujson"):
        jsonpickle.remove_backend(n)
    kind = S.pick("kind", ["tuple", "int", "inst", "text", "nested", "object"])
    x = S.int("x")
    k = {"tuple": (x, 1), "int": x, "inst": M.HKey(x), "text": "json://x", "nested": (M.HKey((x,)),),
         "object": "k"}[kind]
    d = {k: [x]}
    if kind == "object":
        d = M.DictSub()
        d[(x,)] = [x]
    v = S.pick("v", [d, [d, d], {"a": d}])
    b, c = Own(), Own()
    how = S.pick("how", ["call", "context"])
    if how == "call":
        text = jsonpickle.encode(v, keys=True, backend=b)
        r = jsonpickle.decode(text, keys=True, backend=c)
    else:
        text = jsonpickle.encode(v, keys=True, backend=b, context=jsonpickle.Pickler(keys=True, backend=b))
        r = jsonpickle.decode(text, keys=True, backend=c, context=jsonpickle.Unpickler(keys=True, backend=c))
    for n in ("simplejson", "json", "ujson"):
        jsonpickle.load_backend(n)
    S.check(bool(b.log) and bool(c.log), "the backend is not used")
    S.iso(v, r, "decoded value")
    S.reach(kind)


MANAGE = ["load", "remove", "prefer", "fallthrough"]
ALL = MANAGE + ["enc", "dec", "bad"]

SCENARIOS = [
    dict(name="given", fn=given, quick={}, reach=["tuple", "int", "inst", "text", "nested", "object"]),
    dict(name="order", fn=history,
         quick=dict(ops=3, backends=2, loaded=2, what=MANAGE, outcomes=["ok", "fail"], ctor=True),
         thorough=dict(ops=4, backends=3, loaded=2, what=MANAGE, outcomes=["ok", "fail"]),
         reach=["none", "refused", "removed", "failed", "fell through"]),
    dict(name="order3", fn=history,
         quick=dict(ops=2, backends=3, loaded=3, what=MANAGE, outcomes=["ok", "fail"]),
         thorough=dict(ops=3, backends=3, loaded=3, what=MANAGE, outcomes=["ok", "fail"]),
         reach=["removed", "failed", "fell through"]),
    dict(name="options", fn=history,
         quick=dict(ops=2, backends=2, loaded=2, what=ALL, outcomes=["ok", "other"]),
         thorough=dict(ops=3, backends=2, loaded=2, what=ALL, outcomes=["ok", "fail"]),
         reach=["failed", "bad"]),
    dict(name="faults", fn=history,
         quick=dict(ops=1, backends=3, loaded=3, what=ALL, outcomes=["ok", "fail", "other"]),
         thorough=dict(ops=2, backends=3, loaded=3, what=ALL, outcomes=["ok", "fail", "other"]),
         reach=["failed", "fell through"]),
    dict(name="global", fn=history,
         quick={"ops": 1, "backends": 2, "loaded": 2, "what": ALL, "outcomes": ["ok", "fail"],
                "global": True},
         thorough={"ops": 2, "backends": 2, "loaded": 2, "what": ALL, "outcomes": ["ok", "fail"],
                   "global": True}),
    dict(name="twice", fn=history,
         quick=dict(ops=1, backends=2, loaded=1, what=["enc", "dec", "load"],
                    outcomes=["ok", "fail"], twice=True)),
]
