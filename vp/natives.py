"""Instances of C classes with symbolic contents.

Arrays, dates, times, UUIDs and compiled patterns are C objects that cannot hold symbolic
values.  These stand-ins report the real class, model the operations used to take the values
apart and to make them, and turn into a real object for anything else.
"""
import array
import datetime
import re
import uuid

import z3

from . import sym, vec
from .engine import EngineError
from .sym import (Sym, SymBytes, SymFloat, SymInt, SymStr, concretize, concretize_deep, conj, eq,
                  evaluate, force, mkbool, num_term)


class Native(Sym):
    """Base: `cls` is the class it reports."""
    __slots__ = ()
    tracked = True

    @property
    def __class__(self):
        return self.cls

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return sym.neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def real(self, f):
        """The real object, its parts made concrete by f."""
        raise NotImplementedError

    def terms(self):
        """z3 terms of its parts, to be made concrete together."""
        return []

    def __repr__(self):
        return repr(self.real(lambda v: concretize_deep(v, "repr()")))

    def __str__(self):
        return str(self.real(lambda v: concretize_deep(v, "str()")))


def term(v):
    return v if type(v) is int else v.e


def wrap(t):
    if type(t) is int:
        return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SymInt(t)


# --------------------------------------------------------------------------- arrays
RANGE = {}
for _c in "bBhHiIlLqQ":
    _n = array.array(_c).itemsize * 8
    RANGE[_c] = (-(1 << _n - 1), (1 << _n - 1) - 1) if _c.islower() else (0, (1 << _n) - 1)


class SymArray(Native):
    __slots__ = ("typecode", "items")
    cls = array.array

    def __init__(self, typecode, items):
        self._h = sym.ENG.next_serial()
        self.typecode = typecode
        self.items = items

    itemsize = property(lambda self: array.array(self.typecode).itemsize)

    def rep(self):
        return array.array(self.typecode)

    def terms(self):
        return [x.e for x in self.items if type(x) is SymInt]

    def tolist(self):
        return list(self.items)

    def tounicode(self):
        return sym.join("", self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def length(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __getitem__(self, i):
        i = force(i)
        if type(i) is slice:
            return SymArray(self.typecode, self.items[i])
        return self.items[concretize(i, "array index")]

    def real(self, f):
        return array.array(self.typecode, f(list(self.items)))

    def equal(self, o):
        if type(o) is array.array:
            o = SymArray(o.typecode, o.tolist())
        if type(o) is not SymArray or len(o.items) != len(self.items):
            return False
        return conj([eq(a, b) for a, b in zip(self.items, o.items)])


def m_array(typecode, init=(), *a):
    tc = concretize(typecode, "array typecode")
    init = force(init)
    if type(init) is SymArray:
        init = init.items
    if type(init) in (SymStr, SymBytes) and tc != "u":
        return array.array(tc, concretize(init, "array()"))
    items = [force(x) for x in init] if not isinstance(init, (bytes, bytearray)) else init
    if not sym.has_sym(list(items)) or a:
        return array.array(tc, concretize_deep(init, "array()"), *a)
    if tc == "u":
        if not all(type(x) in (str, SymStr) for x in items):
            raise TypeError("array item must be a unicode character")
        for x in items:
            if not x.length() == 1 if type(x) is SymStr else len(x) != 1:
                raise TypeError("array item must be a unicode character, not a string")
        return SymArray(tc, items)
    if tc in "fd":
        out = []
        for x in items:
            if type(x) in (int, float, bool):
                x = float(x)
            elif type(x) is SymInt:
                x = SymFloat(z3.ToReal(x.e))
            elif type(x) is not SymFloat:
                raise TypeError("must be real number, not %s" % x.__class__.__name__)
            out.append(x)
        return SymArray(tc, out)
    if tc not in RANGE:
        raise ValueError("bad typecode")
    lo, hi = RANGE[tc]
    out = []
    for x in items:
        if type(x) is sym.SymBool:
            x = x.as_int()
        if type(x) not in (int, bool, SymInt):
            raise TypeError("'%s' object cannot be interpreted as an integer" % x.__class__.__name__)
        if not (lo <= x and x <= hi):
            raise OverflowError("array item out of range")
        out.append(x)
    return SymArray(tc, out)


# --------------------------------------------------------------------------- dates and times
FIELDS = {
    datetime.date: ("year", "month", "day"),
    datetime.time: ("hour", "minute", "second", "microsecond"),
    datetime.datetime: ("year", "month", "day", "hour", "minute", "second", "microsecond"),
}
LIMITS = {"year": (1, 9999), "month": (1, 12), "day": (1, 28), "hour": (0, 23), "minute": (0, 59),
          "second": (0, 59), "microsecond": (0, 999999)}


def digits(v, n):
    t = term(v)
    if type(t) is int:
        return [ord(c) for c in "%0*d" % (n, t)]
    return [48 + t / 10 ** k % 10 for k in range(n - 1, -1, -1)]


class SymTime(Native):
    """date, time or datetime."""
    __slots__ = ("cls", "vals", "tzinfo", "fold")

    def __init__(self, cls, vals, tzinfo, fold):
        self._h = sym.ENG.next_serial()
        self.cls = cls
        self.vals = vals
        self.tzinfo = tzinfo
        self.fold = fold

    def real(self, f):
        kw = {} if self.cls is datetime.date else {"tzinfo": self.tzinfo, "fold": f(self.fold)}
        return self.cls(*f(list(self.vals)), **kw)

    def rep(self):
        return self.cls.min

    def terms(self):
        return [x.e for x in self.vals if type(x) is SymInt]

    def state(self, proto):
        v = dict(zip(FIELDS[self.cls], [term(x) for x in self.vals]))
        cs = []
        mark = term(self.fold) * 128 if proto > 3 and self.cls is not datetime.date else 0
        if "year" in v:
            cs += [vec.div(v["year"], 256), v["year"] % 256, v["month"], v["day"]]
        if "hour" in v:
            us = v["microsecond"]
            cs += [v["hour"], v["minute"], v["second"], vec.div(us, 65536), vec.div(us, 256) % 256,
                   us % 256]
        i = 2 if self.cls is datetime.datetime else 0
        cs[i] = cs[i] + mark
        return vec.data(cs)

    def __reduce_ex__(self, proto):
        args = (self.state(proto),)
        if self.tzinfo is not None:
            args += (self.tzinfo,)
        return self.cls, args

    def __reduce__(self):
        return self.__reduce_ex__(2)

    def isoformat(self, sep="T", timespec="auto"):
        if timespec != "auto":
            return self.real(lambda v: concretize_deep(v, "isoformat")).isoformat(sep, timespec)
        v = dict(zip(FIELDS[self.cls], self.vals))
        cs = []
        if "year" in v:
            cs += digits(v["year"], 4) + [45] + digits(v["month"], 2) + [45] + digits(v["day"], 2)
            if "hour" in v:
                cs += [ord(sep)]
        if "hour" in v:
            cs += digits(v["hour"], 2) + [58] + digits(v["minute"], 2) + [58] + digits(v["second"], 2)
            us = v["microsecond"]
            if us != 0:
                cs += [46] + digits(us, 6)
            if self.tzinfo is not None:
                cs += [ord(c) for c in datetime.datetime(
                    2000, 1, 1, tzinfo=self.tzinfo).isoformat()[19:]]
        return vec.text(cs)

    def equal(self, o):
        if not isinstance(o, (datetime.date, datetime.time)):
            return False
        if type(o) is not SymTime:
            if type(o) is not self.cls:
                return False
            o = SymTime(type(o), [getattr(o, n) for n in FIELDS[self.cls]], getattr(
                o, "tzinfo", None), getattr(o, "fold", 0))
        if o.cls is not self.cls:
            return False
        if self.tzinfo != o.tzinfo:
            def f(v):
                return concretize_deep(v, "== of dates")
            return self.real(f) == o.real(f)
        return conj([eq(a, b) for a, b in zip(self.vals, o.vals)])


for _names in FIELDS.values():
    for _name in _names:
        def _get(self, n=_name):
            fs = FIELDS[self.cls]
            if n not in fs:
                raise AttributeError(n)
            return self.vals[fs.index(n)]
        setattr(SymTime, _name, property(_get))


def make_time(cls, args, kw):
    """The constructor of one of the three classes."""
    args = [force(a) for a in args]
    kw = {k: force(v) for k, v in kw.items()}
    if args and type(args[0]) in (SymBytes, SymStr):
        if vec.is_vec(args[0]):
            return from_state(cls, *args, **kw)
        return cls(*[concretize(a, "date()") for a in args], **kw)
    names = FIELDS[cls]
    given = dict(zip(names + ("tzinfo",), args))
    given.update(kw)
    tz = given.pop("tzinfo", None)
    fold = given.pop("fold", 0)
    vals = []
    for n in names:
        v = given.pop(n, LIMITS[n][0] if n not in ("year", "month", "day") else None)
        if type(v) not in (int, SymInt):
            raise TypeError("an integer is required")
        lo, hi = LIMITS[n]
        if type(v) is SymInt and not (lo <= v and v <= hi):
            if n == "day" and v > 28 and v < 32:
                raise EngineError("symbolic days after the 28th are not modelled")
            raise ValueError("%s is out of range" % n)
        vals.append(v)
    if given:
        raise TypeError("unexpected arguments")
    return SymTime(cls, vals, tz, fold)


def from_state(cls, state, *tz):
    cs = [c if type(c) is int else c.code for c in vec.codes(state)]
    if len(cs) != {datetime.date: 4, datetime.time: 6, datetime.datetime: 10}[cls]:
        raise TypeError("an integer is required (got type bytes)")
    fold = 0
    i = {datetime.datetime: 2, datetime.time: 0}.get(cls)
    if i is not None:
        fold = wrap(vec.div(cs[i], 128))
        cs[i] = cs[i] % 128
    vals = []
    if len(cs) != 6:
        vals += [wrap(cs[0] * 256 + cs[1]), wrap(cs[2]), wrap(cs[3])]
        cs = cs[4:]
        m = vals[1]
        if not (1 <= m and m <= 12):
            raise TypeError("an integer is required (got type bytes)")
    if cs:
        vals += [wrap(c) for c in cs[:3]] + [wrap((cs[3] * 256 + cs[4]) * 256 + cs[5])]
    if cls is datetime.time:
        h = vals[0]
        if not h < 24:
            raise TypeError("an integer is required (got type bytes)")
    return SymTime(cls, vals, tz[0] if tz else None, fold)


# --------------------------------------------------------------------------- UUIDs
class SymUUID(Native):
    __slots__ = ("codes",)
    cls = uuid.UUID

    def __init__(self, codes):
        self._h = sym.ENG.next_serial()
        self.codes = codes

    @property
    def bytes(self):
        return vec.data(self.codes)

    @property
    def hex(self):
        return hexed(self.codes)

    @property
    def int(self):
        n = 0
        for c in self.codes:
            n = n * 256 + c
        return wrap(n)

    def rep(self):
        return uuid.UUID(int=0)

    @property
    def urn(self):
        return "urn:uuid:" + self.text()

    def text(self):
        h = self.hex
        return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]

    def real(self, f):
        return uuid.UUID(bytes=f(self.bytes))

    def equal(self, o):
        if type(o) is uuid.UUID:
            o = SymUUID(list(o.bytes))
        if type(o) is not SymUUID:
            return False
        return eq(self.bytes, o.bytes)


def hexed(codes):
    out = []
    for c in codes:
        out += [vec.HEX.char(vec.div(c, 16)), vec.HEX.char(c % 16)]
    return vec.text(out)


def m_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, *,
           is_safe=uuid.SafeUUID.unknown):
    args = [force(a) for a in (hex, bytes, bytes_le, fields, int, version)]
    if [a is not None for a in args] == [True] + [False] * 5 and vec.is_vec(args[0]) and type(
            args[0]) is SymStr:
        h = args[0].replace("urn:", "").replace("uuid:", "")
        h = h.strip("{}").replace("-", "")
        cs = vec.codes(h)
        if len(cs) != 32:
            raise ValueError("badly formed hexadecimal UUID string")
        ds = []
        for c in cs:
            if vec.HEX.has(c):
                ds.append(vec.HEX.digit(c))
            elif vec.UPPER.has(c):
                ds.append(vec.UPPER.digit(c))
            else:
                raise ValueError("invalid literal for int() with base 16")
        return SymUUID([simple(ds[i] * 16 + ds[i + 1]) for i in range(0, 32, 2)])
    if [a is not None for a in args] == [False, True] + [False] * 4 and vec.is_vec(args[1]):
        cs = vec.codes(args[1])
        if len(cs) != 16:
            raise ValueError("bytes is not a 16-char string")
        return SymUUID([c if type(c) is not vec.Ch else c.code for c in cs])
    hex, bytes, bytes_le, fields, int, version = [concretize_deep(a, "UUID()") for a in args]
    return uuid.UUID(hex, bytes, bytes_le, fields, int, version, is_safe=is_safe)


def simple(t):
    return t if type(t) is int else z3.simplify(t)


# --------------------------------------------------------------------------- patterns
class SymPattern(Native):
    """Compiled pattern whose text is valid and sets no flags."""
    __slots__ = ("pattern", "flags")
    cls = re.Pattern

    def __init__(self, pattern, flags):
        self._h = sym.ENG.next_serial()
        self.pattern = pattern
        self.flags = flags

    def rep(self):
        return re.compile("")

    def real(self, f):
        return re.compile(f(self.pattern), self.flags)

    def equal(self, o):
        if type(o) is re.Pattern:
            o = SymPattern(o.pattern, o.flags)
        if type(o) is not SymPattern or o.flags != self.flags or sym.real_type(
                o.pattern) is not sym.real_type(self.pattern):
            return False
        return eq(self.pattern, o.pattern)


def m_re_compile(pattern, flags=0):
    pattern = force(pattern)
    flags = concretize(flags, "re.compile flags")
    if type(pattern) is SymPattern:
        if flags:
            raise ValueError("cannot process flags argument with a compiled pattern")
        return pattern
    if type(pattern) not in (SymStr, SymBytes):
        return re.compile(pattern, flags)
    flags = int(flags)
    if type(pattern) is SymStr:
        if flags & re.LOCALE:
            raise ValueError("cannot use LOCALE flag with a str pattern")
        if not flags & re.ASCII:
            flags |= re.UNICODE
        elif flags & re.UNICODE:
            raise ValueError("ASCII and UNICODE flags are incompatible")
    elif flags & re.UNICODE:
        raise ValueError("cannot use UNICODE flag with a bytes pattern")
    elif flags & re.LOCALE and flags & re.ASCII:
        raise ValueError("ASCII and LOCALE flags are incompatible")
    return SymPattern(pattern, flags)


CLASSES = {SymArray, SymTime, SymUUID, SymPattern}
MODELS = {array.array: m_array, uuid.UUID: m_uuid, re.compile: m_re_compile}


def _timed(cls):
    def make(*a, **k):
        if any(sym.is_sym(x) for x in list(a) + list(k.values())):
            return make_time(cls, a, k)
        return cls(*a, **k)
    return make


for _cls in FIELDS:
    MODELS[_cls] = _timed(_cls)
sym.SYM |= CLASSES
