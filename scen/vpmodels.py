"""Classes used by the scenarios.  All are importable under the module name vpmodels."""
import collections
import dataclasses
import datetime
import enum
import itertools
import json
import math
import os
import types


class Plain:
    """Ordinary class with an instance dict."""


class Other:
    """A second ordinary class."""


class Empty:
    """Never given attributes."""


class Slots:
    __slots__ = ("a", "b")


class SlotsKid(Slots):
    __slots__ = ("c",)


class SlotStr:
    __slots__ = "a"


class SlotsPrivate:
    __slots__ = ("a", "__hidden")

    def hide(self, v):
        self.__hidden = v

    def seek(self):
        return self.__hidden


class SlotsDict:
    """Slots plus an instance dict."""
    __slots__ = ("a", "__dict__")


class StateDict:
    """State is a dict, with a setter."""

    def __getstate__(self):
        return {"st_" + k: v for k, v in self.__dict__.items()}

    def __setstate__(self, state):
        for k, v in state.items():
            self.__dict__[k[3:]] = v


class StateTuple:
    def __getstate__(self):
        return (self.a, self.b)

    def __setstate__(self, state):
        self.a, self.b = state


class StateList:
    def __getstate__(self):
        return [self.a, self.b]

    def __setstate__(self, state):
        self.a = state[0]
        self.b = state[1]


class StateOnly:
    """__getstate__ returning a dict and no setter."""

    def __getstate__(self):
        return dict(self.__dict__)


class SlotsState:
    __slots__ = ("a", "b")

    def __getstate__(self):
        return (None, {"a": self.a, "b": self.b})

    def __setstate__(self, state):
        for k, v in state[1].items():
            setattr(self, k, v)


class NewArgs:
    def __new__(cls, a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)


class NewArgsEx:
    def __new__(cls, a, *, k=None):
        self = object.__new__(cls)
        self.a = a
        self.k = k
        return self

    def __getnewargs_ex__(self):
        return (self.a,), {"k": self.k}


class NewArgsExPos:
    """Keyword arguments always empty."""
    def __new__(cls, a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs_ex__(self):
        return (self.a,), {}


def rebuild(cls, *args):
    self = object.__new__(cls)
    self.args = args
    return self


class Reduce2:
    """(callable, args)"""
    def __init__(self, *args):
        self.args = args

    def __reduce__(self):
        return (rebuild, (Reduce2,) + self.args)


class Reduce3:
    """(callable, args, state)"""

    def __reduce__(self):
        return (rebuild, (Reduce3,), self.__dict__)


class ReduceEx:
    def __reduce_ex__(self, proto):
        return (rebuild, (ReduceEx,), dict(self.__dict__))


class DictSub(dict):
    pass


class ListSub(list):
    pass


class SetSub(set):
    pass


class OwnEqDict(dict):
    """dict subclass used as key holder"""


NT = collections.namedtuple("NT", ["x", "y"])


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


@dataclasses.dataclass
class Data:
    a: object
    b: object


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: object
    b: object


class Outer:
    class Inner:
        pass


def func(x=None):
    return x


class HKey:
    """Hashable by value."""

    def __init__(self, a):
        self.a = a

    def __eq__(self, other):
        return type(other) is HKey and self.a == other.a

    def __hash__(self):
        return 7


class Excluding:
    _jsonpickle_exclude = ["b"]


class ExcludingSlots:
    __slots__ = ("a", "b")
    _jsonpickle_exclude = ("b",)


class ExcludingState:
    _jsonpickle_exclude = {"b"}

    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        self.__dict__.update(state)


class ExcludingDict(dict):
    """An attribute of a dict subclass is excluded, an item is not."""
    _jsonpickle_exclude = ["b"]


class NewArgsState:
    """New-args together with state."""

    def __new__(cls, a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)

    def __getstate__(self):
        return {"b": self.b}

    def __setstate__(self, state):
        self.b = state["b"]


class Base:
    pass


class Kid(Base):
    """Inherits everything."""


class SlotsOverDict(Base):
    """Slots declared below a class with an instance dict."""
    __slots__ = ("c",)


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


class Bits(enum.Flag):
    A = 1
    B = 2


class StrEnum(str, enum.Enum):
    X = "x"


class IntSub(int):
    pass


class StrSub(str):
    pass


class IntStr(int):
    """Reads differently as str() and as repr()."""

    def __str__(self):
        return "as text"

    def __repr__(self):
        return "IntStr(%d)" % int(self)


class FloatStr(float):
    def __str__(self):
        return "as text"

    def __repr__(self):
        return "FloatStr(%s)" % float(self)


class BytesStr(bytes):
    def __str__(self):
        return "as text"

    def __repr__(self):
        return "BytesStr(%d)" % len(self)


class KidOfSlots(Slots):
    """No slots of its own, so it has an instance dict as well."""


class PrivateKid(SlotsPrivate):
    __slots__ = ("b", "__more")


class _Lead:
    """Class name with a leading underscore."""
    __slots__ = ("a", "__hidden")

    def hide(self, v):
        self.__hidden = v


class SlotsWithClassAttr:
    __slots__ = ("a",)
    limit = 5


class StateNone:
    """State other than a dict without attributes."""

    def __getstate__(self):
        return ("tag", self.a)

    def __setstate__(self, state):
        self.a = state[1]


class StateScalar:
    def __getstate__(self):
        return self.a

    def __setstate__(self, state):
        self.a = state


class LiveState:
    """Its state is its own attribute dict."""

    def __getstate__(self):
        return self.__dict__

    def __setstate__(self, state):
        self.__dict__.update(state)


class Shared:
    """Returns the very same reduce value each time."""

    def __reduce__(self):
        return self.parts


class Props:
    @property
    def twice(self):
        return [self.a, self.a]


class Fault:
    """Its state hooks raise at the n-th call of any hook."""

    def __getstate__(self):
        hit()
        return self.__dict__

    def __setstate__(self, state):
        hit()
        self.__dict__.update(state)


class FaultProp:
    @property
    def prop(self):
        hit()
        return [self.a]


FAULT = {"calls": 0, "at": -1}


def start_fault(at):
    FAULT["calls"] = 0
    FAULT["at"] = at


def hit():
    n = FAULT["calls"]
    FAULT["calls"] = n + 1
    if n == FAULT["at"]:
        raise ZeroDivisionError(n)


def produce(items):
    for x in items:
        yield x


class Countdown:
    """Iterator that counts how often it is asked."""

    def __init__(self, items):
        self.items = items
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.taken += 1
        if self.taken > len(self.items):
            raise StopIteration
        return self.items[self.taken - 1]


class Local:
    """Pretends to be in a module that does not exist, like the next ones."""
    __module__ = "nowhere"


class LocalSlots:
    __module__ = "nowhere"
    __slots__ = ("a", "b")


class LocalState:
    __module__ = "nowhere"

    def __getstate__(self):
        return {"all": dict(self.__dict__)} if self.__dict__ else None

    def __setstate__(self, state):
        self.__dict__.update(state["all"])


class LocalList(list):
    __module__ = "nowhere"


class LocalDict(dict):
    __module__ = "nowhere"


class LocalNew:
    __module__ = "nowhere"

    def __new__(cls, a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)


class ExcludingKid(Excluding):
    """Inherits the exclusion list."""


class ExcludingGrandkid(ExcludingKid):
    __slots__ = ("a",)


class InitArgs:
    """__getinitargs__, whose result is given to __new__."""

    def __new__(cls, *args):
        self = object.__new__(cls)
        return self

    def __getinitargs__(self):
        return (self.a, 1)


class NewArgsTwo:
    """Two positional and two keyword arguments besides attributes."""

    def __new__(cls, a, b, *, k, m):
        self = object.__new__(cls)
        self.got = (a, b, k, m)
        return self

    def __getnewargs_ex__(self):
        a, b, k, m = self.got
        return (a, b), {"k": k, "m": m}


class NewArgsList(list):
    def __new__(cls, a=None):
        self = list.__new__(cls)
        self.got = a
        return self

    def __init__(self, a=None):
        list.__init__(self)

    def __getnewargs__(self):
        return (self.got,)


class NewArgsDict(dict):
    def __new__(cls, a=None):
        self = dict.__new__(cls)
        self.got = a
        return self

    def __init__(self, a=None):
        dict.__init__(self)

    def __getnewargs__(self):
        return (self.got,)


class TupleSub(tuple):
    pass


class StatePair:
    """State is a (dict, slots) pair and there is no setter."""
    __slots__ = ("s", "__dict__")

    def __getstate__(self):
        return (dict(self.__dict__), {"s": self.s})


class SlotsPair:
    """State is a (None, slots) pair and there is no setter."""
    __slots__ = ("a", "b")

    def __getstate__(self):
        return (None, {"a": self.a, "b": self.b})


# -- objects whose reduce value is chosen by the scenario
REDUCE = {}


class Rec:
    """Keeps a log of what is done to it; no state setter."""

    def __init__(self, *args):
        self.args = args
        self.log = []

    def __reduce__(self):
        return REDUCE[id(self)]

    def append(self, x):
        self.log.append(("append", x))

    def __setitem__(self, k, v):
        self.log.append(("item", k, v))


class RecExtend(Rec):
    def extend(self, items):
        for x in items:
            self.append(x)


class RecState(Rec):
    def __setstate__(self, state):
        self.log.append(("state", state))


class RecEx(RecState):
    def __reduce_ex__(self, protocol):
        return REDUCE[id(self)]

    def __reduce__(self):
        raise RuntimeError("__reduce_ex__ has priority")


class RecSlots:
    __slots__ = ("args", "a", "b", "log")

    def __init__(self, *args):
        self.args = args
        self.log = []

    def __reduce__(self):
        return REDUCE[id(self)]

    def append(self, x):
        self.log.append(("append", x))

    def __setitem__(self, k, v):
        self.log.append(("item", k, v))


class RecNew:
    """For copyreg.__newobj__."""

    def __new__(cls, *args):
        self = object.__new__(cls)
        self.args = args
        self.log = []
        return self

    def __init__(self, *args):
        raise RuntimeError("__init__ must not be called")

    def __reduce_ex__(self, protocol):
        return REDUCE[id(self)]

    append = Rec.append
    __setitem__ = Rec.__setitem__


def make_rec(cls, *args):
    return cls(*args)


def put_state(obj, state):
    obj.log.append(("setter", state))


class RList(list):
    def __reduce__(self):
        return REDUCE[id(self)]


class RDict(dict):
    def __reduce__(self):
        return REDUCE[id(self)]


class HA:
    pass


class HB(HA):
    pass


class HC(HB):
    pass


class HD:
    pass


class Restored:
    """What a test handler makes of an object."""

    def __init__(self, by, written, a):
        self.by = by
        self.written = written
        self.a = a


# -- objects whose hooks fail
BAD = {}          # id of an object -> whether it fails
RAISED = []
BADTYPE = [ZeroDivisionError]


class Oops(Exception):
    pass


def maybe_fail(o):
    if BAD.get(id(o), False):
        e = BADTYPE[0]("bad")
        RAISED.append((o, e))
        raise e


class BadState:
    def __getstate__(self):
        maybe_fail(self)
        return {"a": self.a}

    def __setstate__(self, state):
        self.__dict__.update(state)


class BadNewState:
    """Fails after its arguments were encoded."""

    def __new__(cls, *args):
        o = object.__new__(cls)
        o.args = args
        return o

    def __getnewargs__(self):
        return (self.a,)

    def __getstate__(self):
        maybe_fail(self)
        return {"a": self.a, "args": self.args}

    def __setstate__(self, state):
        self.__dict__.update(state)


class BadNewArgs:
    def __new__(cls, *args):
        return object.__new__(cls)

    def __getnewargs__(self):
        maybe_fail(self)
        return (1,)


class BadNewArgsEx:
    def __new__(cls, *args, **kwargs):
        return object.__new__(cls)

    def __getnewargs_ex__(self):
        maybe_fail(self)
        return (1,), {}


class BadReduce:
    def __reduce__(self):
        maybe_fail(self)
        return blank, (BadReduce,), self.__dict__


class BadReduceEx:
    def __reduce_ex__(self, protocol):
        maybe_fail(self)
        return blank, (BadReduceEx,), self.__dict__


class BadReduceItems:
    """Fails while its items are listed."""

    def __reduce__(self):
        return blank, (BadReduceItems,), self.__dict__, self.items()

    def items(self):
        maybe_fail(self)
        return iter(())


class BadProp:
    @property
    def prop(self):
        maybe_fail(self)
        return 1


class BadDict(dict):
    """Fails after the first item."""

    def items(self):
        yield "a", self["a"]
        maybe_fail(self)

    def __reduce_ex__(self, protocol):
        raise TypeError


class BadList(list):
    def __iter__(self):
        maybe_fail(self)
        return list.__iter__(self)

    def __reduce_ex__(self, protocol):
        raise TypeError


class BadHandled:
    pass


class BadIter:
    def __init__(self, a):
        self.a = [a]

    def __iter__(self):
        return self

    def __next__(self):
        if self.a:
            return self.a.pop()
        maybe_fail(self)
        raise StopIteration


class BadKey:
    def __repr__(self):
        maybe_fail(self)
        return "badkey"

    __str__ = __repr__


def blank(cls):
    return cls.__new__(cls)


class SelfFactory(collections.defaultdict):
    """Its own factory."""

    def __init__(self):
        self.default_factory = self

    def __call__(self):
        return self.__class__()


class ClassFactory(collections.defaultdict):
    """Its class is its factory."""

    def __init__(self):
        self.default_factory = self.__class__


class FactoryDict(collections.defaultdict):
    pass


class OwnFactory(dict):
    """Not a defaultdict, but has a factory."""
    default_factory = None

    def __missing__(self, key):
        r = self[key] = self.default_factory()
        return r


class Maker:
    """A callable object."""

    def __init__(self, value):
        self.value = value

    def __call__(self):
        return self.value


# -- properties
LISTING = ["leaf"]


def listing(o, x):
    """The value of a property, depending on LISTING."""
    w = LISTING[0]
    if w == "leaf" or x is None and w == "part":
        return x if isinstance(x, (int, float, str, type(None))) else 1
    if w == "list":
        return [x, [x]]
    if w == "dict":
        return {"k": x}
    if w == "part":
        return x
    if w == "set":
        return {1, "z"}
    if w == "tuple":
        return (x, [1])
    if w == "new":
        p = Plain()
        p.a = [x, x]
        return p
    if w == "self":
        return [o]
    return o.__class__.shared


class Listing:
    shared = [1, [2]]

    @property
    def prop(self):
        return listing(self, self.__dict__.get("a"))

    @property
    def again(self):
        return self.prop

    def method(self):
        return 1


class ListingKid(Listing):
    @property
    def own(self):
        return 5

    @property
    def over(self):
        return "kid"


class SlotListing:
    __slots__ = ("a", "b")
    shared = [1, [2]]

    @property
    def prop(self):
        return listing(self, getattr(self, "a", None))

    @property
    def again(self):
        return self.prop


class DictListing(dict):
    shared = [1, [2]]

    @property
    def prop(self):
        return listing(self, dict.get(self, "a"))


class ListListing(list):
    shared = [1, [2]]

    @property
    def prop(self):
        return listing(self, list.__getitem__(self, 0) if list.__len__(self) else None)


class StateListing(Listing):
    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        self.__dict__.update(state)


class ReduceListing(Listing):
    def __reduce__(self):
        return rebuild, (type(self),), dict(self.__dict__)


class NewListing(Listing):
    def __new__(cls, a):
        o = object.__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        return (self.a,)


# -- exclusion
class ExcludingList(list):
    _jsonpickle_exclude = ("b",)


class ExcludingSet(set):
    _jsonpickle_exclude = ("b",)


class ExcludingNew:
    _jsonpickle_exclude = ["b"]

    def __new__(cls, x=1):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (1,)


class ExcludingSlotsDict:
    __slots__ = ("b", "__dict__")
    _jsonpickle_exclude = ["b"]


# -- hooks that raise while decoding
LOADERR = [None]
LOADLIMIT = [0]
LOADED = []


def load_fails(value):
    """Raise the error of the scenario when it is armed and the value is above the limit."""
    if LOADERR[0] is not None and value > LOADLIMIT[0]:
        e = LOADERR[0]("raised by a hook")
        LOADED.append(e)
        raise e


class LoadState:
    def __getstate__(self):
        return {"a": self.a}

    def __setstate__(self, state):
        load_fails(state["a"])
        self.a = state["a"]


class LoadReduce(LoadState):
    """State set through the reduce protocol."""

    def __reduce__(self):
        return LoadReduce, (), {"a": self.a}


class LoadNew:
    def __new__(cls, a):
        load_fails(a)
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)


def load_func(a):
    load_fails(a)
    return LoadFunc(a)


class LoadFunc:
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return load_func, (self.a,)


class LoadItems:
    """Items set through the reduce protocol."""

    def __init__(self):
        self.log = []

    def __reduce__(self):
        return LoadItems, (), None, iter(list(self.log))

    def append(self, x):
        load_fails(x)
        self.log.append(x)


class LoadExtend(LoadItems):
    def __reduce__(self):
        return LoadExtend, (), None, iter(list(self.log))

    def extend(self, items):
        load_fails(items[0])
        self.log.extend(items)


class LoadPairs:
    def __init__(self):
        self.log = []

    def __reduce__(self):
        return LoadPairs, (), None, None, iter(list(self.log))

    def __setitem__(self, k, v):
        load_fails(v)
        self.log.append((k, v))


class LoadList(list):
    def append(self, x):
        load_fails(x)
        list.append(self, x)


class LoadProp:
    """A setter that raises."""

    def __getstate__(self):
        return {"a": self._a}

    @property
    def a(self):
        return self._a

    @a.setter
    def a(self, v):
        load_fails(v)
        self._a = v


def put_load(obj, state):
    load_fails(state["a"])
    obj.a = state["a"]


class LoadSetter:
    def __reduce_ex__(self, protocol):
        return object.__new__, (LoadSetter,), {"a": self.a}, None, None, put_load


class LoadHandled:
    pass


class LoadDict(dict):
    def __setitem__(self, k, v):
        load_fails(v)
        dict.__setitem__(self, k, v)


class LoadSet(set):
    def add(self, x):
        load_fails(x)
        set.add(self, x)


class LoadAttr:
    def __setattr__(self, k, v):
        load_fails(v)
        object.__setattr__(self, k, v)


class LoadHash:
    """Raises when it is put in a set or made a key."""

    def __init__(self, a):
        self.a = a

    def __getnewargs__(self):
        return (self.a,)

    def __hash__(self):
        load_fails(self.a)
        return 1

    def __eq__(self, other):
        return self is other


class LoadSlots:
    """A reduced object without a dict, whose setter raises."""
    __slots__ = ("_a",)

    @property
    def a(self):
        return self._a

    @a.setter
    def a(self, v):
        load_fails(v)
        self._a = v

    def __reduce__(self):
        return LoadSlots, (), {"a": self._a}


class LoadSlotState(LoadSlots):
    __slots__ = ()

    def __reduce__(self):
        return LoadSlotState, (), (None, {"a": self._a})


# -- objects that stand for a global
NAMED = [None]
BRANCH = Plain()


class Alias:
    """Its reduce value is the dotted name of another object."""

    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return self.name


class AliasEx(Alias):
    def __reduce_ex__(self, protocol):
        return self.name


class SlotsDunder:
    """A slot whose name is not mangled, next to a private one."""
    __slots__ = ("__a__", "__hidden", "b")

    def hide(self, v):
        self.__hidden = v


class SlotsDunderKid(SlotsDunder):
    __slots__ = ("__more__", "__dict__", "__weakref__")
