"""Every combination of base class, storage, state protocol and construction protocol.

The classes are made once, at import, and are importable by the name that says what they combine,
e.g. `dict_private_getset_newargs`.
"""
import dataclasses

BASES = ["object", "dictbase", "slotbase", "deep", "list", "dict", "set"]
STORES = ["dict", "slots", "private", "both"]
STATES = ["none", "getset", "get", "tuple"]
NEWS = ["none", "newargs", "newargsex"]


class Base:
    pass


class SlotBase:
    __slots__ = ("s", "__p")

    def put(self, v):
        self.__p = v


class Middle(SlotBase):
    __slots__ = ("m", "__p")

    def put(self, v):
        self.__p = v


PARENT = {"object": object, "dictbase": Base, "slotbase": SlotBase, "deep": Middle,
          "list": list, "dict": dict, "set": set}
SLOTS = {"slots": ("a", "b"), "private": ("a", "__b"), "both": ("a", "__dict__")}


def attributes(base, store):
    """Names of the attributes to set, as seen by setattr."""
    name = {"dict": ["a", "b"], "slots": ["a", "b"], "private": ["a", "*b"],
            "both": ["a", "b"]}[store]
    if base in ("slotbase", "deep"):
        name = name + ["s", "*put"]
    if base == "deep":
        name = name + ["m"]
    if base == "dictbase" and store != "dict":
        name = name + ["d"]
    return name


def state_of(self):
    """All attributes by their real names."""
    out = dict(getattr(self, "__dict__", {}))
    for c in type(self).__mro__:
        for s in c.__dict__.get("__slots__", ()):
            if s == "__dict__":
                continue
            if s.startswith("__"):
                s = "_" + c.__name__.lstrip("_") + s
            try:
                out[s] = getattr(self, s)
            except AttributeError:
                pass
    return out


def make(base, store, state, new):
    name = "_".join((base, store, state, new))
    ns = {"__module__": __name__, "__qualname__": name}
    if store != "dict":
        ns["__slots__"] = ("a",) if (base, store) == ("dictbase", "both") else SLOTS[store]
    if state == "getset":
        def __getstate__(self):
            return {"x_" + k: v for k, v in state_of(self).items()}

        def __setstate__(self, st):
            for k, v in st.items():
                setattr(self, k[2:], v)
        ns.update(__getstate__=__getstate__, __setstate__=__setstate__)
    elif state == "get":
        def __getstate__(self):
            return state_of(self)
        ns["__getstate__"] = __getstate__
    elif state == "tuple":
        def __getstate__(self):
            return ("tag", state_of(self))

        def __setstate__(self, st):
            assert st[0] == "tag"
            for k, v in st[1].items():
                setattr(self, k, v)
        ns.update(__getstate__=__getstate__, __setstate__=__setstate__)
    parent = PARENT[base]
    if new != "none":
        def __new__(cls, n, extra=None):
            self = parent.__new__(cls)
            self.a = n
            return self
        ns["__new__"] = __new__
        if new == "newargs":
            ns["__getnewargs__"] = lambda self: (self.a,)
        else:
            ns["__getnewargs_ex__"] = lambda self: ((self.a,), {"extra": 1})
        if base in ("list", "dict", "set"):
            ns["__init__"] = lambda self, *a, **k: None
    return type(name, (parent,), ns)


GRID = {}
for _b in BASES:
    for _s in STORES:
        for _t in STATES:
            for _n in NEWS:
                _c = make(_b, _s, _t, _n)
                GRID[_b, _s, _t, _n] = _c
                globals()[_c.__name__] = _c


@dataclasses.dataclass(frozen=True, slots=True)
class FrozenSlots:
    a: object
    b: object = None


@dataclasses.dataclass(frozen=True)
class FrozenOwnSlots:
    """Without the state methods that slots=True adds."""
    __slots__ = ("a", "b")
    a: object
    b: object


@dataclasses.dataclass(slots=True)
class DataSlots:
    a: object
    b: object = None


@dataclasses.dataclass
class DataBase:
    a: object
    b: object = 5


@dataclasses.dataclass(frozen=True)
class FrozenBase:
    a: object


@dataclasses.dataclass(frozen=True)
class FrozenKid(FrozenBase):
    b: object = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class DataKid(DataBase):
    c: object = dataclasses.field(default=None, init=False, repr=False, compare=False)


@dataclasses.dataclass(order=True, kw_only=True)
class DataKw:
    a: object
    b: object
