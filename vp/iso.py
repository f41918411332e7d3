"""Graph comparison.

Two object graphs are compared position by position.  Types must be equal; lists, dicts and
instances are matched one to one (identity); primitive leaves give conditions that the caller
conjoins.  Works on symbolic and concrete values alike.
"""
import re
import collections
import datetime
import enum
import types

try:
    from . import sym as _sym
except ImportError:           # concrete replay without the solver
    _sym = None

_ATOMIC = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)
_PRIM = (bool, int, float, str, type(None))


class Mismatch(Exception):
    pass


def rtype(x):
    if _sym is not None:
        return _sym.real_type(x)
    return type(x)


def is_sym(x):
    return _sym is not None and type(x) in _sym.SYM


def leaf_cond(a, b):
    """Equal with equal type: bool/SymBool, or None if not both primitive-like."""
    if is_sym(a) or is_sym(b):
        if a is b:
            return True
        r = _sym.strict_leaf_eq(a, b)
        if r is NotImplemented:
            if rtype(a) is not rtype(b):
                return False
            return _sym.eq(a, b)
        return r
    return None


class Iso:
    def __init__(self, identity=True, order=True, tuples=False, atoms=(), skip=()):
        self.identity = identity
        self.order = order
        self.fwd = {}
        self.bwd = {}
        self.keep = []
        self.conds = []
        self.visited = set()
        self.atoms = atoms
        self.skip = set(skip)

    def cond(self, c, path, a=None, b=None):
        if c is True:
            return
        if c is False:
            raise Mismatch("at %s: %s instead of %s" % (path or "top", show(b), show(a)))
        self.conds.append(c)

    def go(self, a, b, path=""):
        if is_sym(a) and hasattr(type(a), "tracked") or is_sym(b) and hasattr(type(b), "tracked"):
            if not self.track(a, b, path):
                return
        c = leaf_cond(a, b)
        if c is not None:
            self.cond(c, path, a, b)
            return
        ta, tb = type(a), type(b)
        if ta is not tb:
            raise Mismatch("at %s: %s instead of %s" % (path or "top", show(b), show(a)))
        if ta in _PRIM:
            if not (a == b or (a != a and b != b)):
                raise Mismatch("at %s: %r instead of %r" % (path or "top", b, a))
            return
        if ta is bytes or ta is bytearray or ta is complex or ta is range:
            if a != b:
                raise Mismatch("at %s: %r instead of %r" % (path or "top", b, a))
            return
        if issubclass(ta, _ATOMIC) or issubclass(ta, enum.Enum):
            if a is not b:
                raise Mismatch("at %s: %s instead of %s" % (path or "top", show(b), show(a)))
            return
        if ta is tuple:
            self.seq(a, b, path)
            return
        if ta is set or ta is frozenset:
            self.match_set(list(a), list(b), path)
            return
        if ta in self.atoms:
            self.track(a, b, path)
            if a != b:
                raise Mismatch("at %s: %r instead of %r" % (path or "top", b, a))
            return
        # tracked
        if not self.track(a, b, path):
            return
        if issubclass(ta, list):
            self.seq(list.__iter__(a), list.__iter__(b), path)
            if ta is list:
                return
        elif issubclass(ta, tuple):
            self.seq(tuple.__iter__(a), tuple.__iter__(b), path)
        elif issubclass(ta, dict):
            self.dict(a, b, path)
            if ta is dict:
                return
            if issubclass(ta, collections.defaultdict):
                self.go(a.default_factory, b.default_factory, path + ".default_factory")
        elif issubclass(ta, (set, frozenset)):
            self.match_set(list(a), list(b), path)
        elif issubclass(ta, collections.deque):
            self.seq(a, b, path)
            self.go(a.maxlen, b.maxlen, path + ".maxlen")
        elif issubclass(ta, types.MethodType):
            self.go(a.__self__, b.__self__, path + ".__self__")
            self.go(a.__func__, b.__func__, path + ".__func__")
            return
        elif issubclass(ta, BaseException):
            self.go(a.args, b.args, path + ".args")
        elif hasattr(ta, "__next__"):
            self.seq(list(a), list(b), path)
            return
        elif ta.__eq__ is not object.__eq__ and not hasattr(a, "__dict__") and not slots(ta):
            if a != b:
                raise Mismatch("at %s: %r instead of %r" % (path or "top", b, a))
            return
        if issubclass(ta, (str, bytes, int, float)):
            base = next(t for t in (str, bytes, int, float) if issubclass(ta, t))
            if not base.__eq__(a, b):
                raise Mismatch("at %s: %r instead of %r" % (path or "top", b, a))
        da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if da is not None or db is not None:
            self.dict(strip(da, self.skip), strip(db, self.skip), path + ".__dict__", order=False)
        for s in slots(ta):
            ha, hb = has(a, s), has(b, s)
            if ha != hb:
                raise Mismatch("at %s: attribute %s %s" % (
                    path or "top", s, "lost" if ha else "appeared"))
            if ha:
                self.go(getattr(a, s), getattr(b, s), path + "." + s)

    def track(self, a, b, path):
        """Record the pairing; False when this pair is already being compared."""
        if (id(a), id(b)) in self.visited:
            return False
        if self.identity:
            if id(a) in self.fwd:
                if self.fwd[id(a)] != id(b):
                    raise Mismatch("at %s: a shared object was duplicated" % (path or "top"))
            elif id(b) in self.bwd:
                raise Mismatch("at %s: distinct objects became one" % (path or "top"))
            self.fwd[id(a)] = id(b)
            self.bwd[id(b)] = id(a)
        self.visited.add((id(a), id(b)))
        self.keep.append((a, b))
        return True

    def seq(self, a, b, path):
        a, b = list(a), list(b)
        if len(a) != len(b):
            raise Mismatch("at %s: %d items instead of %d" % (path or "top", len(b), len(a)))
        for i, (x, y) in enumerate(zip(a, b)):
            self.go(x, y, "%s[%d]" % (path, i))

    def dict(self, a, b, path, order=None):
        order = self.order if order is None else order
        ia, ib = list(dict.items(a)), list(dict.items(b))
        if len(ia) != len(ib):
            raise Mismatch("at %s: %d entries instead of %d: %s instead of %s" % (
                path or "top", len(ib), len(ia),
                [show(k) for k, _ in ib], [show(k) for k, _ in ia]))
        if order:
            for n, ((k, v), (k2, v2)) in enumerate(zip(ia, ib)):
                self.go(k, k2, "%s<key %d>" % (path, n))
                self.go(v, v2, "%s{%s}" % (path, show(k)))
            return
        rest = list(ib)
        later = []
        for k, v in ia:
            for i, (k2, v2) in enumerate(rest):
                if k is k2 or (not is_sym(k) and not is_sym(k2)
                               and type(k) is type(k2) and k == k2):
                    self.go(v, v2, "%s{%s}" % (path, show(k)))
                    del rest[i]
                    break
            else:
                later.append((k, v))
        self.match(later, rest, path, lambda p, q, w: (
            self.go(p[0], q[0], w + "<key>"), self.go(p[1], q[1], w + "{}")))

    def match_set(self, a, b, path):
        if len(a) != len(b):
            raise Mismatch("at %s: %d elements instead of %d" % (path or "top", len(b), len(a)))
        rest = list(b)
        later = []
        for x in a:
            for i, y in enumerate(rest):
                if x is y or (type(x) in _PRIM and type(x) is type(y) and x == y):
                    del rest[i]
                    break
            else:
                later.append(x)
        self.match(later, rest, path, self.go)

    def match(self, a, b, path, f):
        """Pair up the elements of a and b in some way that makes f succeed."""
        if not a:
            return
        x = a[0]
        err = None
        for i, y in enumerate(b):
            saved = (dict(self.fwd), dict(self.bwd), list(self.conds), set(self.visited))
            try:
                f(x, y, path + "<elem>")
                cs = self.conds[len(saved[2]):]
                if cs and not decide(cs):
                    raise Mismatch("at %s: no matching element" % path)
                self.match(a[1:], b[:i] + b[i + 1:], path, f)
                return
            except Mismatch as e:
                err = e
                self.fwd, self.bwd, self.conds, self.visited = saved
        raise err or Mismatch("at %s: element lost" % (path or "top"))


def decide(conds):
    """Fork (symbolic) or evaluate (concrete) the conjunction of conditions."""
    if _sym is not None:
        r = _sym.conj(conds)
        return r if type(r) is bool else bool(r)
    return all(conds)


def strip(d, skip):
    if d is None:
        return {}
    if skip:
        return {k: v for k, v in d.items() if k not in skip}
    return d


def slots(t):
    out = []
    for c in t.__mro__:
        s = c.__dict__.get("__slots__", ())
        if isinstance(s, str):
            s = (s,)
        for n in s:
            if n in ("__dict__", "__weakref__"):
                continue
            if n.startswith("__") and not n.endswith("__"):
                n = "_%s%s" % (c.__name__.lstrip("_"), n)
            if n not in out:
                out.append(n)
    return out


def has(o, name):
    try:
        getattr(o, name)
        return True
    except AttributeError:
        return False


def show(x):
    if is_sym(x):
        return "<%s>" % type(x).__name__
    t = type(x)
    if t in _PRIM or t in (bytes, type):
        return repr(x)[:60]
    return "<%s object>" % t.__name__


def compare(a, b, **opts):
    it = Iso(**opts)
    try:
        it.go(a, b)
    except Mismatch as e:
        return it.conds, str(e)
    return it.conds, None


def canon(x, ev, memo=None, depth=0):
    """JSON-able canonical form of a value for comparing observations."""
    if is_sym(x):
        x = ev(x)
    t = type(x)
    if t is str and " at 0x" in x:
        return re.sub(" at 0x[0-9a-f]+", " at 0x", x)
    if t in (bool, int, str, type(None)):
        return x
    if t is float:
        return ["float", repr(x)]
    if t in (bytes, bytearray):
        return [t.__name__, list(x)]
    memo = memo if memo is not None else {}
    if id(x) in memo:
        return ["ref", memo[id(x)]]
    if issubclass(t, _ATOMIC):
        return ["atom", getattr(x, "__name__", "?")]
    memo[id(x)] = len(memo)
    memo.setdefault("keep", []).append(x)
    if t is list or t is tuple:
        return [t.__name__, [canon(v, ev, memo, depth + 1) for v in x]]
    if t is set or t is frozenset:
        return [t.__name__, sorted((canon(v, ev, memo, depth + 1) for v in x), key=repr)]
    if t is dict:
        return ["dict", [[canon(k, ev, memo, depth + 1), canon(v, ev, memo, depth + 1)]
                         for k, v in x.items()]]
    out = ["obj", t.__name__]
    if issubclass(t, (list, tuple)):
        out.append([canon(v, ev, memo, depth + 1) for v in t.__iter__(x)])
    elif issubclass(t, dict):
        out.append([[canon(k, ev, memo, depth + 1), canon(v, ev, memo, depth + 1)]
                    for k, v in dict.items(x)])
    d = getattr(x, "__dict__", None)
    if d:
        d = [(canon(k, ev, memo, depth + 1), v) for k, v in d.items()]
        out.append([[k, canon(v, ev, memo, depth + 1)] for k, v in sorted(
            d, key=lambda kv: repr(kv[0]))])
    for s in slots(t):
        if has(x, s):
            out.append([s, canon(getattr(x, s), ev, memo, depth + 1)])
    return out
