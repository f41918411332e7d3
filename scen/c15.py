"""C15: handler lookup reflects the registration history."""
import jsonpickle
from jsonpickle import handlers
import vpmodels as M
import vptwin

BOUNDS = ("histories of `ops` registrations and removals, in any form, of any handler for any class "
          "of a small hierarchy, with any base flag; instance contents symbolic")

CLASSES = [M.HA, M.HB, M.HC, M.HD]


class H(handlers.BaseHandler):
    tag = None

    def flatten(self, obj, data):
        data["by"] = self.tag
        data["a"] = obj.a
        return data

    def restore(self, data):
        return M.Restored(self.tag, data["by"], data["a"])


class H1(H):
    tag = "h1"


class H2(H):
    tag = "h2"


class H3(H):
    tag = "h3"


HANDLERS = [H1, H2, H3]


def history(S):
    exact = {}
    base = {}
    classes = CLASSES[:S.p("classes")]
    for c in CLASSES:
        handlers.unregister(c)
    probe = S.flag("probe")
    for i in range(S.p("ops")):
        if probe:
            for k in CLASSES:
                look(S, k, exact, base)
        op = S.pick("op%d" % i, ["register", "decorator", "handles", "instance", "unregister"][
            :S.p("forms")] + (["unregister"] if S.p("forms") < 5 else []))
        c = S.pick("c%d" % i, classes)
        h = HANDLERS[S.pick("h%d" % i, 2) if S.p("reuse", 0) else i % 3]
        if op == "unregister":
            handlers.unregister(c)
            exact.pop(c, None)
            base.pop(c, None)
            continue
        if op == "handles":
            S.check(h.handles(c) is c, "handles() does not return the class")
            exact[c] = h
            continue
        b = S.bool("b%d" % i)
        if op == "register":
            handlers.register(c, h, base=b)
        elif op == "instance":
            h = h(None)
            handlers.register(c, h, base=b)
        else:
            S.check(handlers.register(c, base=b)(h) is h, "the decorator does not return the class")
        exact[c] = h
        if b:
            base[c] = h
    x = S.int("x")
    for c in CLASSES:
        check(S, c, exact, base, x)
    for c in CLASSES:
        handlers.unregister(c)


def look(S, c, exact, base):
    if c in exact:
        allowed = [exact[c]]
    else:
        allowed = [h for k, h in base.items() if issubclass(c, k)]
    got = handlers.get(c)
    if got is None:
        S.check(not allowed, "no handler for %s" % c.__name__)
    else:
        S.check(any(got is h for h in allowed), "wrong handler for %s" % c.__name__)
    return got, allowed


def check(S, c, exact, base, x):
    got, allowed = look(S, c, exact, base)
    S.reach("exact" if c in exact else "base" if allowed else "none")
    S.check(handlers.get(c, 7) is (7 if got is None else got), "the default is not used")
    if c in exact:
        S.check(handlers.get("vpmodels." + c.__name__) is got, "not found by name")
    else:
        S.check(handlers.get("vpmodels." + c.__name__) is None, "found by name")
    o = c()
    o.a = x
    text = jsonpickle.encode([o, o])
    r = jsonpickle.decode(text)
    S.check(r[0] is r[1], "sharing is lost")
    r = r[0]
    if got is None:
        S.check(type(r) is c and r.a == x and list(r.__dict__) == ["a"], "not a plain instance")
    else:
        tags = [h.tag for h in allowed]
        S.check(type(r) is M.Restored and r.by in tags and r.written in tags,
                "not handled by the registered handler")
        S.check(r.by == r.written, "encoded and decoded by different handlers")
        S.check(r.a == x, "value")
    plain = jsonpickle.decode(jsonpickle.encode(o, unpicklable=False))
    S.check(plain == ({"a": x} if got is None else {"by": r.by, "a": x}), "plain JSON")


def errors(S):
    """Only classes can be registered."""
    bad = S.pick("bad", ["vpmodels.HA", 5, None, M.func, M.HA()])
    try:
        handlers.register(bad, H1, base=S.bool("b"))
    except TypeError:
        S.reach("refused")
    else:
        S.fail("something that is not a class was registered")
    for c in CLASSES:
        S.check(handlers.get(c) is None, "a handler appeared")
    handlers.unregister(M.HA)


def builtins(S):
    """Handlers of other classes stay in force."""
    import datetime
    before = handlers.get(datetime.datetime)
    c = S.pick("c", CLASSES)
    handlers.register(c, H1, base=S.bool("b"))
    if S.flag("remove"):
        handlers.unregister(c)
    S.check(handlers.get(datetime.datetime) is before and before is not None, "changed")
    S.check(handlers.get("datetime.datetime") is before, "changed by name")
    S.check(handlers.get(dict) is None and handlers.get(M.Plain) is None, "appeared")
    handlers.unregister(c)


class Stranger:
    """Takes the place of a class."""


def renamed(S):
    """A handled class whose name means something else, or nothing, when decoding."""
    c = S.pick("c", CLASSES[:2])
    how = S.pick("how", ["same", "gone", "other", "nested"])
    handlers.register(c, S.pick("h", [H1, H2]), base=S.bool("b"))
    h = handlers.get(c)
    o = c()
    o.a = S.int("x")
    text = jsonpickle.encode([o, o])
    name = c.__name__
    try:
        if how == "gone":
            delattr(M, name)
        elif how == "other":
            setattr(M, name, Stranger)
        elif how == "nested":
            setattr(M, name, M.Outer.Inner)
        r = jsonpickle.decode(text)
    finally:
        setattr(M, name, c)
        handlers.unregister(c)
    S.check(r[0] is r[1], "sharing is lost")
    S.check(type(r[0]) is M.Restored and r[0].by == h.tag and r[0].a == o.a,
            "not decoded by the handler it was encoded with")


def namesakes(S):
    """Classes of the same name in other places are other classes."""
    classes = [M.HA, vptwin.HA, vptwin.Twin.HA]
    exact = {}
    for i in range(S.p("ops")):
        c = S.pick("c%d" % i, classes)
        if S.flag("u%d" % i):
            handlers.unregister(c)
            exact.pop(c, None)
        else:
            h = HANDLERS[i]
            handlers.register(c, h)
            exact[c] = h
    x = S.int("x")
    for c in classes:
        o = c()
        o.a = x
        r = jsonpickle.decode(jsonpickle.encode(o))
        if c in exact:
            S.check(type(r) is M.Restored and r.by == exact[c].tag == r.written and r.a == x,
                    "not handled by the handler of the class")
        else:
            S.check(type(r) is c and r.a == x, "handled by the handler of another class")
    for c in classes:
        handlers.unregister(c)


SCENARIOS = [
    dict(name="renamed", fn=renamed, quick={}),
    dict(name="namesakes", fn=namesakes, quick=dict(ops=3)),
    dict(name="history", fn=history, quick=dict(ops=3, classes=3, forms=2),
         thorough=dict(ops=4, classes=4, forms=2), reach=["exact", "base", "none"]),
    dict(name="forms", fn=history, quick=dict(ops=2, classes=4, forms=5),
         thorough=dict(ops=3, classes=4, forms=5), reach=["exact", "base", "none"]),
    dict(name="deep", fn=history, quick=dict(ops=4, classes=2, forms=1),
         thorough=dict(ops=5, classes=3, forms=1)),
    dict(name="reuse", fn=history, quick=dict(ops=3, classes=2, forms=1, reuse=1),
         thorough=dict(ops=4, classes=3, forms=1, reuse=1)),
    dict(name="errors", fn=errors, quick={}, reach=["refused"]),
    dict(name="builtins", fn=builtins, quick={}),
]
