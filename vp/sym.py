"""Symbolic values.

SymBool/SymInt/SymFloat wrap z3 terms; SymStr/SymBytes are sequences of atoms (concrete text,
z3 string terms, structured tokens); SymLeaf is a primitive whose kind (None, bool, int, float,
str) is itself symbolic; SymType is the type of such a leaf; SymRef is a reference to one of
several objects chosen by a symbolic index.
"""
import re
import z3

from .engine import ENG, PathAbort, EngineError

NoneType = type(None)


def zs(s):
    """z3 string literal of a Python string."""
    return z3.StringVal("".join(
        c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


class Sym:
    __slots__ = ("_h",)

    def __init__(self):
        self._h = ENG.next_serial()

    def __hash__(self):
        return self._h

    # attribute access that the symbolic class does not model itself
    def __getattr__(self, name):
        rep = rep_of(self)
        if name.startswith("_vp") or not hasattr(rep, name):
            raise AttributeError(
                "%r object has no attribute %r" % (type(rep).__name__, name))
        attr = getattr(rep, name)
        if callable(attr):
            def method(*a, **k):
                from . import hooks
                return hooks.native(getattr(concretize(self, "method " + name), name), a, k)
            return method
        return getattr(concretize(self, "attribute " + name), name)

    def __reduce_ex__(self, proto):
        raise EngineError("symbolic value reached pickle/copy")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def rep_of(x):
    """A concrete representative with the same Python type (for attribute existence)."""
    x = force(x)
    if x is None:
        return None
    if isinstance_(x, SymBool):
        return True
    if isinstance_(x, SymInt):
        return 0
    if isinstance_(x, SymFloat):
        return 0.0
    if isinstance_(x, SymStr):
        return ""
    if isinstance_(x, SymBytes):
        return b""
    if hasattr(type(x), "real"):
        return x.rep()
    return x


def isinstance_(x, cls):
    return issubclass(type(x), cls)


# --------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ("raw", "on_true", "on_false", "free", "kinds")

    def __init__(self, e, on_true=None, on_false=None, free=None, kinds=None):
        self._h = ENG.next_serial()
        self.raw = e
        self.kinds = kinds      # (leaf, kinds) of a kind test
        self.on_true = on_true
        self.on_false = on_false
        self.free = free

    @property
    def e(self):
        """The term; from here on it may occur in any constraint."""
        if self.free is not None:
            self.free.pure = False
        return self.raw

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        if self.free is not None and self.free.pure:
            r = ENG.branch_free(self.raw)
        else:
            r = ENG.branch(self.raw)
        if r:
            if self.on_true is not None:
                self.on_true()
        elif self.on_false is not None:
            self.on_false()
        return r

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        b = bool_term(o)
        return SymBool(z3.And(self.e, b)) if b is not None else self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        b = bool_term(o)
        return SymBool(z3.Or(self.e, b)) if b is not None else self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        b = bool_term(o)
        return SymBool(z3.Xor(self.e, b)) if b is not None else self.as_int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self.as_int()

    def __invert__(self):
        return -self.as_int() - 1

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)


def bool_term(x):
    x = force(x)
    if x is True or x is False:
        return z3.BoolVal(x)
    if type(x) is SymBool:
        return x.e
    return None


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def neg(b):
    if type(b) is bool:
        return not b
    if b is NotImplemented:
        return b
    kinds = b.kinds and (b.kinds[0], frozenset(KINDS) - b.kinds[1])
    return SymBool(z3.Not(b.raw), b.on_false, b.on_true, b.free, kinds)


def conj(bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(es) if len(es) > 1 else es[0])


def disj(bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(es) if len(es) > 1 else es[0])


# --------------------------------------------------------------------------- numbers
def num_term(x):
    """z3 arithmetic term of a number, or None."""
    t = type(x)
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(1 if x else 0)
    if t is SymInt or t is SymFloat:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        n, d = x.as_integer_ratio()
        return z3.Q(n, d)
    if t is SymLeaf:
        return num_term(force(x))
    return None


def is_floaty(x):
    return type(x) in (float, SymFloat)


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self._h = ENG.next_serial()
        self.e = e

    def _cmp(self, o, f):
        o = force(o)
        t = num_term(o)
        if t is None:
            if type(o) is float:
                # infinities and nan against any finite number
                return f(0.0, o) if o == o else f(0.0, o)
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, t)))

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, o, f):
        o = force(o)
        t = num_term(o)
        if t is None:
            return NotImplemented
        e = f(self.e, t)
        if is_floaty(self) or is_floaty(o):
            return SymFloat(e)
        return SymInt(e)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        o = force(o)
        if type(o) in (str, bytes, list, tuple):
            return o * concretize(self, "repetition count")
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __str__(self):
        return str(concretize(self, "str()"))

    __repr__ = __str__

    def __format__(self, spec):
        return format(concretize(self, "format()"), spec)

    def __float__(self):
        return float(concretize(self, "float()"))

    def __int__(self):
        return int(concretize(self, "int()"))


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return concretize(self, "index")

    def _divmod_ok(self, o):
        return type(o) is int and o > 0

    def __floordiv__(self, o):
        o = force(o)
        if self._divmod_ok(o):
            return SymInt(self.e / z3.IntVal(o))
        return concretize(self, "//") // concretize(o, "//")

    def __mod__(self, o):
        o = force(o)
        if self._divmod_ok(o):
            return SymInt(self.e % z3.IntVal(o))
        return concretize(self, "%") % concretize(o, "%")

    def __truediv__(self, o):
        o = force(o)
        if type(o) in (int, float) and o:
            return SymFloat(z3.ToReal(self.e) / num_term(o))
        return concretize(self, "/") / concretize(o, "/")

    def __and__(self, o):
        return concretize(self, "&") & concretize(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return concretize(self, "|") | concretize(o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return concretize(self, "^") ^ concretize(o, "^")

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = force(o)
        if type(o) is int and 0 <= o < 4096:
            return SymInt(self.e * z3.IntVal(1 << o))
        return concretize(self, "<<") << concretize(o, "<<")

    def __rshift__(self, o):
        o = force(o)
        if type(o) is int and 0 <= o < 4096:
            return SymInt(self.e / z3.IntVal(1 << o))
        return concretize(self, ">>") >> concretize(o, ">>")

    def __invert__(self):
        return SymInt(-self.e - 1)

    def bit_length(self):
        return concretize(self, "bit_length").bit_length()

    @property
    def real(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def conjugate(self):
        return self


class SymFloat(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __truediv__(self, o):
        o = force(o)
        if type(o) in (int, float) and o:
            return SymFloat(self.e / num_term(o))
        return concretize(self, "/") / concretize(o, "/")

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))


# --------------------------------------------------------------------------- strings
class ZV:
    """A z3 string term as an atom, with what is syntactically known about it."""
    __slots__ = ("raw", "eqc", "neq", "neqv", "pre", "npre", "ascii", "maxlen", "num", "without",
                 "leaf")

    @property
    def e(self):
        if ENG.lazy:
            ENG.flush()
        if self.leaf is not None:
            self.leaf.pure = False
        return self.raw

    def __init__(self, e, ascii=False):
        self.raw = e
        self.neqv = None
        self.eqc = None
        self.neq = set()
        self.pre = set()
        self.npre = set()
        self.ascii = ascii
        self.num = None
        self.without = ""       # characters it is known not to contain
        self.leaf = None        # it is the name of the type of this leaf


def int_text(e):
    """Decimal text of a z3 integer term."""
    z = ZV(z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e))), True)
    z.num = e
    return z


_RUN = re.compile("(-?[0-9]+)")


def decimal_items(parts):
    """Text cut into numbers and the text between them, or None if that is ambiguous."""
    out = []
    prev = ""
    for i, p in enumerate(parts):
        if type(p) is str:
            if type(prev) is ZV and p[0] in "0123456789":
                return None
            out.extend(x for x in _RUN.split(p) if x)
        elif type(p) is ZV and p.num is not None:
            if type(prev) is ZV or (prev and prev[-1] in "-0123456789"):
                return None
            out.append(p)
        elif is_literal(p):
            out.append(p)
            prev = None
            continue
        else:
            return None
        prev = p
    return out


def is_literal(p):
    """Is this the repr() of a string or bytes?"""
    return type(p) is Tok and p.tag == "repr" and type(force(p.payload)) in (
        str, SymStr, bytes, SymBytes)


def decimal_eq(a, b):
    """Equality of texts made of constants and decimal numbers, or None."""
    a, b = decimal_items(a), decimal_items(b)
    if a is None or b is None:
        return None
    conds = []
    if any(type(x) is Tok for x in a + b):
        # literals at the same places only
        if [type(x) is Tok or x for x in a if type(x) is not ZV] != [
                type(x) is Tok or x for x in b if type(x) is not ZV]:
            return None
        if [type(x) for x in a] != [type(x) for x in b]:
            return None
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is str and type(y) is str:
            if x != y:
                return False
        elif type(x) is Tok:
            r = tok_eq(x, y)
            if r is None:
                return None
            conds.append(r)
        elif type(x) is ZV and type(y) is ZV:
            conds.append(mkbool(z3.simplify(x.num == y.num)))
        else:
            z, c = (x, y) if type(x) is ZV else (y, x)
            if not _RUN.fullmatch(c) or str(int(c)) != c:
                return False
            conds.append(mkbool(z3.simplify(z.num == int(c))))
    return conj(conds)


class Tok:
    """Opaque structured text: the result of a text producing function applied to a payload.

    Tags in INJ are injective in their payload for equal `opts`.
    """
    __slots__ = ("tag", "payload", "opts", "ascii", "z", "len")

    def __init__(self, tag, payload, opts=(), ascii=True):
        self.tag = tag
        self.payload = payload
        self.opts = opts
        self.ascii = ascii
        self.z = None
        self.len = None

    def term(self):
        """The text as a z3 term: the payload is made concrete on this path."""
        if self.z is None:
            self.z = zs(tok_text(self, "text of %s token" % self.tag))
        return self.z

    def length(self):
        """Length of the text as a z3 term, with bounds where it is not known exactly."""
        if self.z is not None:
            return z3.Length(self.z)
        if self.len is None:
            self.len = tok_length(self)
        return self.len


def fresh_int(lo, hi=None):
    v = z3.Int("len!%d" % ENG.next_serial())
    ENG.add(v >= lo)
    if hi is not None:
        ENG.add(v <= hi)
    return v


def tok_length(t):
    p = t.payload
    if t.tag == "json" and t.opts in ((), (None, None)):
        return z3.Sum(*json_length(p), z3.IntVal(0))
    if t.tag == "utf8":
        n = as_term(p.length())
        return fresh_int(n, 4 * n)
    if t.tag == "b64":
        return (as_term(p.length()) + 2) / 3 * 4
    if t.tag == "b85":
        n = as_term(p.length())
        return n / 4 * 5 + z3.If(n % 4 == 0, 0, n % 4 + 1)
    if t.tag == "comp":
        return fresh_int(1)
    return z3.Length(t.term())


def as_term(n):
    return z3.IntVal(n) if type(n) is int else n.e


def json_length(x):
    """Terms whose sum is the length of the JSON text of a tree."""
    x = force(x) if type(x) is SymLeaf else x
    t = type(x)
    if t is SymInt:
        e = z3.If(x.e < 0, -x.e, x.e)
        n = fresh_int(21)
        for k in range(20, 0, -1):
            n = z3.If(e < 10 ** k, z3.IntVal(k), n)
        return [n, z3.If(x.e < 0, z3.IntVal(1), z3.IntVal(0))]
    if t is SymBool:
        return [z3.If(x.e, z3.IntVal(4), z3.IntVal(5))]
    if t is SymFloat:
        return [fresh_int(3, 25)]
    if t is SymStr:
        if all(type(q) is str for q in x.parts):
            return json_length("".join(x.parts))
        n = as_term(x.length())
        if all(type(q) is Tok and q.tag in ("b64",) for q in x.parts):
            return [n + 2]
        return [fresh_int(n + 2, 12 * n + 2)]
    if t is list:
        r = [z3.IntVal(2 + 2 * max(0, len(x) - 1))]
        for v in x:
            r += json_length(v)
        return r
    if t is dict:
        r = [z3.IntVal(2 + 2 * max(0, len(x) - 1) + 2 * len(x))]
        for k, v in x.items():
            r += json_length(k) + json_length(v)
        return r
    import json
    return [z3.IntVal(len(json.dumps(x)))]


def norm_parts(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def mkstr(parts):
    parts = norm_parts(parts)
    if not parts:
        return ""
    if len(parts) == 1 and type(parts[0]) is str:
        return parts[0]
    return SymStr(parts)


def str_parts(x):
    """Atoms of a (symbolic) string, or None if x is not a string."""
    t = type(x)
    if t is str:
        return (x,) if x else ()
    if t is SymStr:
        return x.parts
    if t is SymLeaf:
        return str_parts(force(x))
    if issubclass(t, str):
        return (str.__str__(x),) if x else ()
    return None


def part_term(p):
    if type(p) is str:
        return zs(p)
    if type(p) is ZV:
        return p.e
    return p.term()


def parts_term(parts):
    if not parts:
        return z3.StringVal("")
    if len(parts) == 1:
        return part_term(parts[0])
    return z3.Concat(*[part_term(p) for p in parts])


def zv_eq_const(z, c):
    """SymBool or bool: z == c, using and recording syntactic facts."""
    if z.eqc is not None:
        return z.eqc == c
    if z.leaf is not None:
        return z.leaf.kind_in({k for k in KINDS if KTYPE[k].__name__ == c})
    if c in z.neq or any(x in c for x in z.without):
        return False
    for p in z.npre:
        if c.startswith(p):
            return False
    for p in z.pre:
        if not c.startswith(p):
            return False

    def on_true():
        z.eqc = c

    def on_false():
        z.neq.add(c)
    return SymBool(z.e == zs(c), on_true, on_false)


def zv_eq_zv(x, y):
    if x.neqv and y in x.neqv:
        return False
    if x.eqc is not None:
        return zv_eq_const(y, x.eqc)
    if y.eqc is not None:
        return zv_eq_const(x, y.eqc)
    for p in x.pre:
        if p in y.npre:
            return False
    for p in y.pre:
        if p in x.npre:
            return False
    for p, q in ((x, y), (y, x)):
        if p.num is not None and q.npre.issuperset("-0123456789"):
            return False

    def on_false():
        zv_differ(x, y)
    return SymBool(x.e == y.e, None, on_false)


def zv_differ(x, y):
    for p, q in ((x, y), (y, x)):
        if p.neqv is None:
            p.neqv = set()
        p.neqv.add(q)


def parts_prefix(p, parts):
    """Does the text `parts` begin with the text `p`?"""
    for q in p:
        if type(q) is str and any(lacks(parts, c) for c in q):
            return False
    return mkbool(z3.PrefixOf(parts_term(p), parts_term(parts)))


def zv_startswith(z, p):
    if any(c in p for c in z.without):
        return False
    if p == "":
        return True
    if z.eqc is not None:
        return z.eqc.startswith(p)
    for q in z.pre:
        if q.startswith(p):
            return True
        if not p.startswith(q):
            return False
    for q in z.npre:
        if p.startswith(q):
            return False

    def on_true():
        z.pre.add(p)

    def on_false():
        z.npre.add(p)
    return SymBool(z3.PrefixOf(zs(p), z.e), on_true, on_false)


INJ = {"json", "repr", "b64", "b85", "utf8", "comp"}


def tok_eq(a, b):
    if a is b:
        return True
    if a.tag == b.tag and a.tag in INJ and a.opts == b.opts:
        return deep_eq(a.payload, b.payload, strict=True)
    return None


def parts_eq(a, b):
    """Equality of two atom sequences as bool/SymBool."""
    from .vec import Ch, parts_eq as vec_eq
    a, b = list(a), list(b)
    if any(type(x) is Ch for x in a + b):
        r = vec_eq(a, b)
        if r is not None:
            return r
    if any(type(x) is ZV and x.num is not None for x in a + b):
        r = decimal_eq(a, b)
        if r is not None:
            return r
    conds = []
    # strip matching ends
    for end in (0, -1):
        while a and b:
            x, y = a[end], b[end]
            if x is y:
                a.pop(end)
                b.pop(end)
                continue
            if type(x) is str and type(y) is str:
                n = min(len(x), len(y))
                if end == 0:
                    if x[:n] != y[:n]:
                        return False
                    a[0:1] = [x[n:]] if len(x) > n else []
                    b[0:1] = [y[n:]] if len(y) > n else []
                else:
                    if x[len(x) - n:] != y[len(y) - n:]:
                        return False
                    a[-1:] = [x[:len(x) - n]] if len(x) > n else []
                    b[-1:] = [y[:len(y) - n]] if len(y) > n else []
                continue
            if is_literal(x) and is_literal(y):
                # the text of a string or bytes literal is self-delimiting
                r = tok_eq(x, y)
                if r is False and end == 0:
                    return False
                if r is True or end == 0 and r is not None:
                    if r is not True:
                        conds.append(r)
                    a.pop(end)
                    b.pop(end)
                    continue
            break
    if not conds:
        return parts_eq_rest(a, b)
    return conj(conds + [parts_eq_rest(a, b)])


def lacks(parts, c):
    """Is the text known not to contain the character?"""
    return all(c not in p if type(p) is str else type(p) is ZV and (
        c in p.without or p.eqc is not None and c not in p.eqc) for p in parts)


def can_cut(parts, c):
    return all(type(p) is str or lacks((p,), c) for p in parts)


def cut_at(parts, c):
    """Pieces between the occurrences of a character (all in constant parts)."""
    out = [[]]
    for p in parts:
        if type(p) is not str:
            out[-1].append(p)
            continue
        for i, x in enumerate(p.split(c)):
            if i:
                out.append([])
            if x:
                out[-1].append(x)
    return out


def separators(a, b):
    """A character by which two texts can be compared piece by piece."""
    for p in a + b:
        if type(p) is ZV:
            for c in p.without:
                if any(type(q) is str and c in q for q in a + b) and can_cut(a, c) and can_cut(
                        b, c):
                    return c
            return None
    return None


def end_chars(p, end):
    """Characters an atom may begin (0) or end (-1) with, None if not known."""
    if type(p) is str:
        return p[end]
    if type(p) is ZV:
        return None if p.num is None else "-0123456789"
    if type(p) is Tok and p.tag == "repr" and type(force(p.payload)) is SymFloat:
        return "-0123456789"
    if is_literal(p):
        if end == 0 and type(force(p.payload)) in (bytes, SymBytes):
            return "b"
        return "'\""
    return None


def parts_eq_rest(a, b):
    if not a and not b:
        return True
    c = separators(a, b)
    if c is not None:
        x, y = cut_at(a, c), cut_at(b, c)
        if len(x) != len(y):
            return False
        return conj([parts_eq(p, q) for p, q in zip(x, y)])
    if len(a) == 1 and len(b) == 1:
        x, y = a[0], b[0]
        if type(x) is ZV and type(y) is ZV:
            return zv_eq_zv(x, y)
        if type(x) is ZV and type(y) is str:
            return zv_eq_const(x, y)
        if type(y) is ZV and type(x) is str:
            return zv_eq_const(y, x)
        if type(x) is Tok and type(y) is Tok:
            r = tok_eq(x, y)
            if r is not None:
                return r
        if type(x) is Tok and type(y) is str or type(y) is Tok and type(x) is str:
            r = tok_eq_const(x, y) if type(x) is Tok else tok_eq_const(y, x)
            if r is not None:
                return r
    elif len(a) == len(b) and all(
            type(x) is type(y) and (type(x) is Tok or (type(x) is str and x == y))
            for x, y in zip(a, b)) and sum(type(x) is Tok for x in a) > 0:
        # same skeleton of injective, self-delimiting tokens
        if all(x.tag in ("json", "repr") for x in a if type(x) is Tok):
            rs = [tok_eq(x, y) for x, y in zip(a, b) if type(x) is Tok]
            if all(r is not None for r in rs):
                return conj(rs)
    if not a or not b:
        rest = a or b
        if any(type(p) is str for p in rest):
            return False
        if any(type(p) is Tok and p.tag in ("json", "repr") for p in rest):
            return False
    if a and b:
        for end in (0, -1):
            p, q = end_chars(a[end], end), end_chars(b[end], end)
            if p and q and not set(p) & set(q):
                return False
        for p, q in ((a, b), (b, a)):
            if type(p[0]) is ZV and p[0].npre:
                first = end_chars(q[0], 0)
                if first and len(p) == 1 and set(first) <= p[0].npre:
                    return False
            if len(p) == 1 and len(q) == 1 and type(p[0]) is ZV and p[0].num is not None and (
                    type(q[0]) is Tok and q[0].tag == "repr"
                    and type(force(q[0].payload)) is SymFloat):
                # the text of a float has a point or an exponent
                return False
    # leading concrete text against a z3 variable with prefix facts
    x, y = (a[0] if a else ""), (b[0] if b else "")
    if type(y) is ZV and type(x) is str:
        x, y = y, x
    if type(x) is ZV and type(y) is str and y:
        for p in x.npre:
            if y.startswith(p):
                return False
        for p in x.pre:
            if not p.startswith(y) and not y.startswith(p):
                return False
    return mkbool(parts_term(a) == parts_term(b))


def tok_eq_const(tok, c):
    """Equality of a token with constant text, when it can be decided structurally."""
    if tok.tag == "json":
        from . import jsonmodel
        ok, val = jsonmodel.parse_canonical(c, tok.opts)
        if not ok:
            return False
        return deep_eq(tok.payload, val, strict=True)
    if tok.tag == "repr" and type(force(tok.payload)) is SymFloat:
        try:
            val = float(c)
        except ValueError:
            return False
        if repr(val) != c or val != val or val in (float("inf"), -float("inf")):
            return False
        return None if val == 0 else force(tok.payload) == val
    return None


class SymStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self._h = ENG.next_serial()
        self.parts = parts

    @property
    def __class__(self):
        return str

    def term(self):
        return parts_term(self.parts)

    def single(self):
        p = self.parts
        return p[0] if len(p) == 1 and type(p[0]) is ZV else None

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        if any(type(p) is str for p in self.parts):
            return True
        z = self.single()
        if z is not None:
            return not bool(zv_eq_const(z, ""))
        if any(type(p) is Tok and p.tag in ("json", "repr") for p in self.parts):
            return True
        return ENG.branch(z3.Length(self.term()) > 0)

    def __len__(self):
        n = self.length()
        return n if type(n) is int else concretize(n, "len()")

    def length(self):
        n = 0
        es = []
        for p in self.parts:
            if type(p) is str:
                n += len(p)
            elif type(p) is Tok:
                es.append(p.length())
            else:
                es.append(z3.Length(part_term(p)))
        if not es:
            return n
        return SymInt(z3.Sum(*es, z3.IntVal(n)) if n or len(es) > 1 else es[0])

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self[start:end].startswith(p)
        p = force(p)
        if type(p) is tuple:
            return disj([self.startswith(q) for q in p])
        if type(p) is SymStr:
            return parts_prefix(p.parts, self.parts)
        if type(p) is not str:
            raise TypeError("startswith first arg must be str or a tuple of str")
        if p == "":
            return True
        first = self.parts[0]
        if type(first) is str:
            if len(first) >= len(p):
                return first.startswith(p)
            if not p.startswith(first):
                return False
            return mkstr(self.parts[1:]).startswith(p[len(first):])
        if type(first) is ZV and len(self.parts) == 1:
            return zv_startswith(first, p)
        if type(first) is Tok and first.tag == "json":
            from . import jsonmodel
            r = jsonmodel.first_char(first.payload)
            if r is not None and r != p[0]:
                return False
        return mkbool(z3.PrefixOf(zs(p), self.term()))

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self[start:end].endswith(p)
        p = force(p)
        if type(p) is tuple:
            return disj([self.endswith(q) for q in p])
        if type(p) is SymStr:
            return mkbool(z3.SuffixOf(p.term(), self.term()))
        if p == "":
            return True
        last = self.parts[-1]
        if type(last) is str:
            if len(last) >= len(p):
                return last.endswith(p)
            if not p.endswith(last):
                return False
            return mkstr(self.parts[:-1]).endswith(p[:len(p) - len(last)])
        return mkbool(z3.SuffixOf(zs(p), self.term()))

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        ps = str_parts(o)
        if ps is None:
            raise TypeError("'in <string>' requires string as left operand")
        if not ps:
            return True
        if len(ps) == 1 and type(ps[0]) is str:
            c = ps[0]
            if any(type(p) is str and c in p for p in self.parts):
                return True
            if any(lacks(self.parts, x) for x in c):
                return False
        return mkbool(z3.Contains(self.term(), parts_term(ps)))

    def __add__(self, o):
        ps = str_parts(o)
        if ps is None:
            return NotImplemented
        return mkstr(self.parts + ps)

    def __radd__(self, o):
        ps = str_parts(o)
        if ps is None:
            return NotImplemented
        return mkstr(ps + self.parts)

    def __getitem__(self, i):
        i = force(i)
        if type(i) is slice:
            a, b, st = force(i.start), force(i.stop), force(i.step)
            if st not in (None, 1):
                return concretize(self, "slice step")[i]
            return self._slice(a, b)
        if type(i) is int:
            if i >= 0 and type(self.parts[0]) is str and i < len(self.parts[0]):
                return self.parts[0][i]
        n = self.length()
        ie = num_term(i)
        ne = num_term(n)
        if not ENG.branch(z3.And(ie < ne, ie >= -ne)):
            raise IndexError("string index out of range")
        if type(i) is int:
            pos = z3.IntVal(i) if i >= 0 else ne + i
        else:
            pos = z3.If(ie >= 0, ie, ne + ie)
        return mkstr((ZV(z3.SubString(self.term(), pos, 1)),))

    def _slice(self, a, b):
        a = 0 if a is None else a
        if type(a) is int and a >= 0:
            # drop leading concrete text
            parts = list(self.parts)
            k = a
            while k and parts and type(parts[0]) is str:
                n = min(k, len(parts[0]))
                parts[0] = parts[0][n:]
                k -= n
                if not parts[0]:
                    parts.pop(0)
            if k == 0:
                rest = mkstr(parts)
                if b is None:
                    return rest
                if type(b) is int and b >= a:
                    want = b - a
                    out = []
                    for p in norm_parts(parts):
                        if want == 0:
                            break
                        if type(p) is str:
                            out.append(p[:want])
                            want -= min(want, len(p))
                        else:
                            break
                    else:
                        want = 0
                    if want == 0:
                        return mkstr(out)
                if a == 0 and type(b) is int and b < 0:
                    last = self.parts[-1]
                    if type(last) is str and len(last) >= -b:
                        return mkstr(self.parts[:-1] + (last[:b],))
        t = self.term()
        n = z3.Length(t)

        def clamp(x):
            if x is None:
                return n
            if type(x) is int:
                if x >= 0:
                    return z3.If(n < x, n, z3.IntVal(x))
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            e = num_term(x)
            e = z3.If(e < 0, n + e, e)
            return z3.If(e < 0, z3.IntVal(0), z3.If(e > n, n, e))
        lo, hi = clamp(a), clamp(b)
        return mkstr((ZV(z3.simplify(
            z3.If(hi > lo, z3.SubString(t, lo, hi - lo), z3.StringVal("")))),))

    def split(self, sep=None, maxsplit=-1):
        sep = force(sep)
        if sep is None or type(sep) is not str:
            return concretize(self, "split").split(concretize(sep, "split"), maxsplit)
        if len(sep) == 1 and can_cut(self.parts, sep):
            out = [mkstr(x) for x in cut_at(self.parts, sep)]
            if 0 <= maxsplit < len(out) - 1:
                out[maxsplit:] = [join(sep, out[maxsplit:])]
            return out
        out = []
        rest = self
        while True:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if type(rest) is str:
                out.extend(rest.split(sep, maxsplit - len(out) if maxsplit >= 0 else -1))
                return out
            if not bool(rest.contains(sep)):
                break
            if len(out) >= 4:
                ENG.cut("split of symbolic text into more than 5 pieces")
                raise PathAbort
            t = rest.term()
            i = z3.IndexOf(t, zs(sep), 0)
            out.append(mkstr((ZV(z3.SubString(t, 0, i)),)))
            rest = mkstr((ZV(z3.SubString(
                t, i + len(sep), z3.Length(t) - i - len(sep))),))
        out.append(rest)
        return out

    def count(self, sub, *a):
        if type(sub) is str and len(sub) == 1 and not a and can_cut(self.parts, sub):
            return len(cut_at(self.parts, sub)) - 1
        return concretize(self, "count").count(sub, *a)

    def rsplit(self, sep=None, maxsplit=-1):
        ps = self.split(sep)
        if maxsplit < 0 or len(ps) <= maxsplit + 1:
            return ps
        k = len(ps) - maxsplit
        return [join(sep, ps[:k])] + ps[k:]

    def partition(self, sep):
        ps = self.split(sep, 1)
        if len(ps) == 1:
            return (self, "", "")
        return (ps[0], sep, ps[1])

    def rpartition(self, sep):
        ps = self.rsplit(sep, 1)
        if len(ps) == 1:
            return ("", "", self)
        return (ps[0], sep, ps[1])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def join(self, it):
        return join(self, it)

    def find(self, sub, *a):
        if a:
            return concretize(self, "find").find(sub, *a)
        return SymInt(z3.IndexOf(self.term(), parts_term(str_parts(sub)), 0))

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def encode(self, encoding="utf-8", errors="strict"):
        if all(type(p) is not str or p.isascii() for p in self.parts) and all(
                type(p) is str or p.ascii for p in self.parts):
            return SymBytes(self.parts)
        if encoding.lower().replace("-", "") in ("utf8",):
            return SymBytes((Tok("utf8", self, (), False),))
        return concretize(self, "encode").encode(encoding, errors)

    def strip(self, chars=None):
        if len(self.parts) == 1 and type(self.parts[0]) is Tok and self.parts[0].tag in (
                "json", "b64", "b85") and chars is None:
            return self
        return concretize(self, "strip").strip(chars)

    def lower(self):
        return concretize(self, "lower").lower()

    def __iter__(self):
        return iter(concretize(self, "iteration over text"))

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: b < a)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: b <= a)

    def _ord(self, o, f):
        ps = str_parts(o)
        if ps is None:
            return NotImplemented
        return mkbool(f(self.term(), parts_term(ps)))

    def __str__(self):
        return concretize(self, "str()")

    def __repr__(self):
        return repr(concretize(self, "repr()"))

    def __format__(self, spec):
        return format(concretize(self, "format()"), spec)

    def __mod__(self, o):
        return concretize(self, "%") % concretize_deep(o, "%")

    def __mul__(self, n):
        if type(n) is int:
            return mkstr(self.parts * max(n, 0))
        return concretize(self, "*") * concretize(n, "*")

    __rmul__ = __mul__


def join(sep, it):
    items = list(it)
    sp = str_parts(sep)
    out = []
    for i, x in enumerate(items):
        ps = str_parts(x)
        if ps is None:
            raise TypeError("sequence item %d: expected str instance, %s found"
                            % (i, type(force(x)).__name__))
        if i:
            out.extend(sp)
        out.extend(ps)
    return mkstr(out)


class SymBytes(Sym):
    """bytes as a sequence of atoms; z3 terms are strings over code points 0..255."""
    __slots__ = ("parts", "vec")

    def __init__(self, parts, vec=None):
        self._h = ENG.next_serial()
        self.parts = norm_parts(parts)
        self.vec = vec

    @property
    def __class__(self):
        return bytes

    def term(self):
        return parts_term(self.parts)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        if any(type(p) is str for p in self.parts):
            return True
        return ENG.branch(z3.Length(self.term()) > 0)

    def length(self):
        return SymStr.length(self)

    def __len__(self):
        return concretize(self.length(), "len()")

    def __add__(self, o):
        ps = bytes_parts(o)
        if ps is None:
            return NotImplemented
        return SymBytes(self.parts + ps)

    def __radd__(self, o):
        ps = bytes_parts(o)
        if ps is None:
            return NotImplemented
        return SymBytes(ps + self.parts)

    def decode(self, encoding="utf-8", errors="strict"):
        if len(self.parts) == 1 and type(self.parts[0]) is Tok and self.parts[0].tag == "utf8":
            return self.parts[0].payload
        if all(type(p) is not str or p.isascii() for p in self.parts) and all(
                type(p) is str or p.ascii for p in self.parts):
            return mkstr(self.parts)
        if encoding.lower().replace("-", "") in ("latin1", "iso88591"):
            return mkstr(self.parts)
        return concretize(self, "decode").decode(encoding, errors)

    def __getitem__(self, i):
        i = force(i)
        if type(i) is slice and i.step in (None, 1):
            r = SymStr(self.parts)._slice(i.start, i.stop)
            return SymBytes(r.parts) if type(r) is SymStr else r.encode("latin-1")
        return concretize(self, "item of bytes")[i]

    def startswith(self, p):
        if type(p) is bytes:
            return SymStr(self.parts).startswith(p.decode("latin-1"))
        return concretize(self, "startswith").startswith(p)

    def strip(self, chars=None):
        if chars is None and len(self.parts) == 1 and type(self.parts[0]) is Tok \
                and self.parts[0].tag in ("b64", "b85"):
            return self
        return concretize(self, "strip").strip(chars)

    def __iter__(self):
        return iter(concretize(self, "iteration over bytes"))

    def __bytes__(self):
        return concretize(self, "bytes()")

    def __str__(self):
        return str(concretize(self, "str(bytes)"))

    __repr__ = __str__

    def hex(self, *a):
        return concretize(self, "hex").hex(*a)


def bytes_parts(x):
    t = type(x)
    if t is bytes or t is bytearray:
        return (x.decode("latin-1"),) if x else ()
    if t is SymBytes:
        return x.parts
    return None


class SymByteArray(Sym):
    """bytearray built from symbolic bytes."""
    __slots__ = ("b",)

    def __init__(self, b):
        self._h = ENG.next_serial()
        self.b = b

    @property
    def __class__(self):
        return bytearray

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self.b)

    def __len__(self):
        return len(self.b)

    def length(self):
        return self.b.length()

    def __getitem__(self, i):
        r = self.b[i]
        return r

    def __bytes__(self):
        return concretize(self.b, "bytes()")

    def __iter__(self):
        return iter(self.b)

    def decode(self, *a):
        return self.b.decode(*a)

    def copy(self):
        return SymByteArray(self.b)


# --------------------------------------------------------------------------- leaves
KINDS = ("n", "b", "i", "f", "s")
KTYPE = {"n": NoneType, "b": bool, "i": int, "f": float, "s": str}


class SymLeaf(Sym):
    """A primitive of symbolic kind."""
    __slots__ = ("name", "rawkv", "dom", "vals", "val", "pure")

    @property
    def kv(self):
        self.pure = False
        return self.rawkv

    def __init__(self, name, kinds=KINDS):
        self._h = ENG.next_serial()
        self.name = name
        self.dom = tuple(kinds)
        v = self.rawkv = ENG.declare(name + ".k", "int", z3.Int(name + ".k"))
        self.pure = True
        if len(self.dom) < 5:
            ENG.add(z3.Or([v == KINDS.index(k) for k in self.dom]))
        else:
            ENG.add(z3.And(v >= 0, v <= 4))
        self.vals = {}
        self.val = self

    def get(self, k):
        """The value this leaf has when its kind is k."""
        if k not in self.vals:
            n = self.name
            if k == "n":
                v = None
            elif k == "b":
                v = SymBool(ENG.declare(n + ".b", "bool", z3.Bool(n + ".b")))
            elif k == "i":
                v = SymInt(ENG.declare(n + ".i", "int", z3.Int(n + ".i")))
            elif k == "f":
                v = new_float(n + ".f")
            else:
                v = new_str(n + ".s")
            self.vals[k] = v
        return self.vals[k]

    def split(self, inside):
        """Fork on kind being in the set `inside`; narrows the domain; returns the truth."""
        yes = tuple(k for k in self.dom if k in inside)
        no = tuple(k for k in self.dom if k not in inside)
        if not no:
            return True
        if not yes:
            return False
        c = z3.Or([self.rawkv == KINDS.index(k) for k in yes])
        r = ENG.branch_free(c) if self.pure else ENG.branch(c)
        self.dom = yes if r else no
        return r

    def kind_in(self, inside):
        yes = [k for k in self.dom if k in inside]
        if len(yes) == len(self.dom):
            return True
        if not yes:
            return False
        return leaf_test(self, frozenset(inside))

    def force(self):
        if self.val is not self:
            return self.val
        while len(self.dom) > 1:
            self.split((self.dom[0],))
        self.val = self.get(self.dom[0])
        return self.val

    @property
    def __class__(self):
        return KTYPE[self._single()]

    def _single(self):
        while len(self.dom) > 1:
            self.split((self.dom[0],))
        return self.dom[0]

    def __getattr__(self, name):
        v = self.force()
        return getattr(v, name)

    def __bool__(self):
        return bool(self.force())

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = Sym.__hash__

    def __str__(self):
        return str(concretize(self, "str()"))

    def __repr__(self):
        return repr(concretize(self, "repr()"))

    def __format__(self, spec):
        return format(concretize(self, "format()"), spec)


def leaf_test(leaf, inside):
    """Kind test of a leaf; narrowing happens when it is decided."""
    def yes():
        leaf.dom = tuple(k for k in leaf.dom if k in inside)

    def no():
        leaf.dom = tuple(k for k in leaf.dom if k not in inside)
    return SymBool(z3.Or([leaf.rawkv == KINDS.index(k) for k in leaf.dom if k in inside]),
                   yes, no, leaf, (leaf, inside))


def _fwd(name):
    def f(self, *a):
        v = self.force()
        m = getattr(type(v), name, None)
        if m is None:
            raise TypeError("unsupported operand for %s: %s" % (name, type(v).__name__))
        return m(v, *a)
    f.__name__ = name
    return f


for _n in ("__lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ "
           "__neg__ __abs__ __len__ __iter__ __getitem__ __contains__ __floordiv__ __mod__ "
           "__truediv__ __and__ __or__ __xor__ __index__ __int__ __float__ __invert__ "
           "__lshift__ __rshift__").split():
    setattr(SymLeaf, _n, _fwd(_n))


class SymType(Sym):
    """type() of a leaf whose kind is not decided yet."""
    __slots__ = ("leaf",)

    def __init__(self, leaf):
        self._h = ENG.next_serial()
        self.leaf = leaf

    def force(self):
        return KTYPE[self.leaf._single()]

    def test(self, t):
        """Is this type exactly t?"""
        return self.leaf.kind_in({k for k in KINDS if KTYPE[k] is t})

    def __eq__(self, o):
        if type(o) is SymType:
            return self.leaf is o.leaf or self.force() is o.force()
        return self.test(o)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = Sym.__hash__

    @property
    def __class__(self):
        return type

    def __getattr__(self, name):
        if name in ("__name__", "__qualname__"):
            return self.name()
        return getattr(self.force(), name)

    def name(self):
        """The name of the type, by the kind."""
        leaf = self.leaf
        names = [KTYPE[k].__name__ for k in leaf.dom]
        e = z3.StringVal(names[-1])
        for k, n in zip(leaf.dom[:-1], names):
            e = z3.If(leaf.rawkv == KINDS.index(k), z3.StringVal(n), e)
        z = ZV(e, True)
        z.leaf = leaf
        return SymStr((z,)) if len(names) > 1 else names[0]

    def __call__(self, *a, **k):
        from . import hooks
        return hooks.call(self.force(), *a, **k)

    def __repr__(self):
        return repr(self.force())


SYM = {SymBool, SymInt, SymFloat, SymStr, SymBytes, SymByteArray, SymLeaf, SymType}


def _hide():
    """What the classes of symbolic values have and plain values have not."""
    def absent(self):
        raise AttributeError("%r object has no attribute '__module__'" % real_type(self).__name__)
    for t in SYM:
        del t.__slots__
        t.__module__ = property(absent)
    SymType.__module__ = property(lambda self: "builtins")


_hide()


def is_sym(x):
    return type(x) in SYM


def force(x):
    """Resolve a leaf (or type of a leaf) to a value of definite kind."""
    t = type(x)
    if t is SymLeaf or t is SymType:
        return x.force()
    return x


# --------------------------------------------------------------------------- constructors
def new_int(name, lo=None, hi=None):
    v = ENG.declare(name, "int", z3.Int(name))
    if lo is not None:
        ENG.add(v >= lo)
    if hi is not None:
        ENG.add(v <= hi)
    return SymInt(v)


def new_bool(name):
    return SymBool(ENG.declare(name, "bool", z3.Bool(name)))


def new_str(name):
    return SymStr((ZV(ENG.declare(name, "str", z3.String(name))),))


def new_float(name):
    # exactly representable: halves, large and tiny numbers
    n = z3.Int(name + "!n")
    k = z3.Int(name + "!k")
    ENG.add(z3.And(n >= -(1 << 52), n <= (1 << 52)))
    r = z3.ToReal(n)
    e = z3.If(k == 1, r * (1 << 10), z3.If(k == 2, r * (1 << 900), z3.If(
        k == 3, r / (1 << 60), r / 2)))
    ENG.declare(name, "float", e)
    return SymFloat(e)


_BYTE_RE = None


def new_bytes(name):
    global _BYTE_RE
    if _BYTE_RE is None:
        _BYTE_RE = z3.Star(z3.Range(zs("\x00"), zs("\xff")))
    v = ENG.declare(name, "bytes", z3.String(name))
    ENG.lazy.append(z3.InRe(v, _BYTE_RE))
    return SymBytes((ZV(v),))


# --------------------------------------------------------------------------- equality
def eq(a, b):
    """Python == as bool or SymBool (no forking except on leaf kinds when unavoidable)."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymLeaf or tb is SymLeaf:
        if ta is SymLeaf and tb is SymLeaf:
            return leaf_eq_leaf(a, b)
        if tb is SymLeaf:
            a, b, ta, tb = b, a, tb, ta
        # leaf against something definite
        cands = compat_kinds(b)
        if not cands & set(a.dom):
            return False
        if len(a.dom) == 1:
            return eq(a.force(), b)
        parts = []
        for k in a.dom:
            if k in cands:
                parts.append(conj([SymBool(a.kv == KINDS.index(k)), eq(a.get(k), b)]))
        return disj(parts)
    if ta is SymType or tb is SymType:
        if ta is SymType:
            return a.__eq__(b)
        return b.__eq__(a)
    na, nb = num_term(a), num_term(b)
    if na is not None and nb is not None:
        return mkbool(z3.simplify(na == nb))
    sa = str_parts(a)
    if sa is not None:
        sb = str_parts(b)
        return parts_eq(sa, sb) if sb is not None else False
    if ta is SymByteArray:
        a, ta = a.b, SymBytes
    if tb is SymByteArray:
        b, tb = b.b, SymBytes
    ba = bytes_parts(a)
    if ba is not None:
        bb = bytes_parts(b)
        return parts_eq(ba, bb) if bb is not None else False
    for x, y in ((a, b), (b, a)):
        if type(x) in SYM and hasattr(type(x), "equal"):
            return x.equal(y)
    if is_sym(a) or is_sym(b):
        other = b if is_sym(a) else a
        if (str_parts(b) is not None or bytes_parts(b) is not None) and na is not None:
            return False
        if isinstance(other, (int, float)) and (na is not None or nb is not None):
            return concretize(a, "==") == concretize(b, "==")
        if type(other).__eq__ is not object.__eq__ and type(other) not in (
                list, dict, set, tuple, NoneType, str, bytes, bytearray, frozenset):
            r = type(other).__eq__(other, a if other is b else b)
            return False if r is NotImplemented else r
        return False
    return a == b


def compat_kinds(b):
    b = force(b)
    if b is None:
        return {"n"}
    if num_term(b) is not None or type(b) is float:
        return {"b", "i", "f"}
    if str_parts(b) is not None:
        return {"s"}
    return set()


def leaf_eq_leaf(a, b):
    parts = []
    for k in a.dom:
        for j in b.dom:
            if k == j or (k in "bif" and j in "bif"):
                r = eq(a.get(k), b.get(j))
                parts.append(conj([SymBool(a.kv == KINDS.index(k)),
                                   SymBool(b.kv == KINDS.index(j)), r]))
    return disj(parts)


def strict_leaf_eq(a, b):
    """Equal and of the same kind, as bool/SymBool."""
    if a is b:
        return True
    if type(a) is SymLeaf and type(b) is SymLeaf:
        parts = []
        for k in a.dom:
            if k in b.dom:
                parts.append(conj([SymBool(a.kv == KINDS.index(k)),
                                   SymBool(b.kv == KINDS.index(k)),
                                   eq(a.get(k), b.get(k))]))
        return disj(parts)
    if type(b) is SymLeaf:
        a, b = b, a
    if type(a) is SymLeaf:
        k = kind_of(b)
        if k is None or k not in a.dom:
            return False
        return conj([SymBool(a.kv == KINDS.index(k)) if len(a.dom) > 1 else True,
                     eq(a.get(k), b)])
    if kind_of(a) != kind_of(b):
        return False
    if kind_of(a) is None:
        return NotImplemented
    return eq(a, b)


def kind_of(x):
    t = type(x)
    if x is None:
        return "n"
    if t is bool or t is SymBool:
        return "b"
    if t is int or t is SymInt:
        return "i"
    if t is float or t is SymFloat:
        return "f"
    if t is str or t is SymStr:
        return "s"
    return None


def deep_eq(a, b, strict=False, depth=0):
    """Structural equality of JSON-like trees (lists, dicts in order, primitives)."""
    if a is b:
        return True
    if depth > 200:
        raise EngineError("deep_eq recursion")
    ka = kind_of(a) is not None or type(a) is SymLeaf
    kb = kind_of(b) is not None or type(b) is SymLeaf
    if ka or kb:
        if not (ka and kb):
            return False
        return strict_leaf_eq(a, b) if strict else eq(a, b)
    ta, tb = real_type(a), real_type(b)
    if ta is not tb:
        return False
    if ta in (list, tuple):
        if len(a) != len(b):
            return False
        return conj([deep_eq(x, y, strict, depth + 1) for x, y in zip(a, b)])
    if ta is dict:
        if len(a) != len(b):
            return False
        return conj([conj([deep_eq(k1, k2, strict, depth + 1), deep_eq(v1, v2, strict, depth + 1)])
                     for (k1, v1), (k2, v2) in zip(a.items(), b.items())])
    return eq(a, b)


def real_type(x):
    """The Python type the value stands for (forces leaves)."""
    t = type(x)
    if t in SYM:
        return x.__class__
    return t


# --------------------------------------------------------------------------- concretisation
def concretize(x, why):
    """Fix a symbolic value to one concrete value on this path.

    Up to two alternatives are forked; beyond that the rest is cut and recorded.
    """
    t = type(x)
    if t is SymLeaf or t is SymType:
        x = x.force()
        t = type(x)
    if t not in SYM:
        return x
    ENG.stats["concretised"] += 1
    if t is SymBool:
        return bool(x)
    if t is SymByteArray:
        return bytearray(concretize(x.b, why))
    if t is SymInt:
        return _conc(x.e, "int", why)
    if t is SymFloat:
        return _conc(x.e, "float", why)["float"]
    if t in (SymStr, SymBytes):
        joint([p.code for p in x.parts if type(p) not in (str, ZV, Tok)], why)
    if t is SymStr:
        return "".join(_conc_part(p, why) for p in x.parts)
    if t is SymBytes:
        return "".join(_conc_part(p, why) for p in x.parts).encode("latin-1")
    if hasattr(t, "real"):
        joint(x.terms(), why)
        return x.real(lambda v: concretize_deep(v, why))
    raise EngineError("concretize " + t.__name__)


def joint(es, why):
    """Fix several terms at once, so that their alternatives are not multiplied."""
    es = [e for e in es if not z3.is_int_value(z3.simplify(e))]
    if len(es) < 2:
        return
    for i in range(3):
        c = z3.And([e == ENG.eval(e) for e in es])
        if i == 2:
            if ENG.check(z3.Not(c)) != z3.unsat:
                ENG.cut("concretised: " + why)
            ENG.add(c)
        elif ENG.branch(c):
            return


def _conc(e, tag, why):
    from .engine import to_py
    e = z3.simplify(e)
    for i in range(3):
        v = ENG.eval(e)
        if i == 2:
            if ENG.check(e != v) != z3.unsat:
                ENG.cut("concretised: " + why)
            ENG.add(e == v)
            return to_py(tag, v)
        if ENG.branch(e == v):
            return to_py(tag, v)


def _conc_part(p, why):
    if type(p) is str:
        return p
    if type(p) is ZV:
        if p.eqc is None:
            p.eqc = _conc(p.e, "str", why)
        return p.eqc
    if p.tag == "ch":
        return chr(_conc(p.code, "int", why))
    return tok_text(p, why)


def tok_text(p, why):
    from . import jsonmodel
    import base64
    if p.tag == "json":
        return jsonmodel.text(concretize_deep(p.payload, why), p.opts)
    if p.tag == "repr":
        return repr(concretize_deep(p.payload, why))
    if p.tag == "b64":
        return base64.b64encode(concretize(p.payload, why)).decode()
    if p.tag == "b85":
        return base64.b85encode(concretize(p.payload, why)).decode()
    if p.tag == "utf8":
        return concretize(p.payload, why).encode("utf-8").decode("latin-1")
    if p.tag == "comp":
        import importlib
        m = importlib.import_module(p.opts[0])
        return m.compress(concretize(p.payload, why)).decode("latin-1")
    raise EngineError("token " + p.tag)


def concretize_deep(x, why, memo=None):
    """Copy of a container graph with every symbolic part made concrete."""
    t = type(x)
    if t in SYM:
        return concretize(x, why)
    if t not in _WALK:
        return x
    if memo is None:
        if not has_sym(x):
            return x
        memo = {}
    if id(x) in memo:
        return memo[id(x)]
    if t is list:
        r = memo[id(x)] = []
        r.extend(concretize_deep(v, why, memo) for v in x)
        return r
    if t is dict:
        r = memo[id(x)] = {}
        for k, v in x.items():
            r[concretize_deep(k, why, memo)] = concretize_deep(v, why, memo)
        return r
    return t(concretize_deep(v, why, memo) for v in x)


def concretize_inplace(x, why, memo):
    """Make every symbolic part concrete, keeping the identity of mutable containers."""
    t = type(x)
    if t in SYM:
        return concretize(x, why)
    if t not in _WALK:
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    if not has_sym(x):
        return x
    if t is list or t is dict or t is set:
        memo[id(x)] = (x, x)
    if t is list:
        x[:] = [concretize_inplace(v, why, memo) for v in x]
        return x
    if t is dict:
        items = [(concretize_inplace(k, why, memo), concretize_inplace(v, why, memo))
                 for k, v in x.items()]
        x.clear()
        for k, v in items:
            x[k] = v
        return x
    parts = [concretize_inplace(v, why, memo) for v in x]
    if t is set:
        x.clear()
        x.update(parts)
        return x
    r = t(parts)
    memo[id(x)] = (r, x)
    return r


def has_sym(x):
    """Does a plain container graph contain symbolic parts?"""
    t = type(x)
    if t in SYM:
        return True
    if t not in _WALK:
        return False
    seen = {id(x)}
    stack = [x]
    while stack:
        y = stack.pop()
        if type(y) is dict:
            kids = list(y.keys()) + list(y.values())
        else:
            kids = y
        for v in kids:
            tv = type(v)
            if tv in SYM:
                return True
            if tv in _WALK and id(v) not in seen:
                seen.add(id(v))
                stack.append(v)
    return False


_WALK = {list, tuple, set, frozenset, dict}


def evaluate(x, memo=None):
    """Concrete value of a JSON-like tree under the current model (no path change)."""
    from .engine import to_py
    t = type(x)
    m = ENG.get_model()

    def ev(e):
        return m.eval(e, model_completion=True)
    if t is SymLeaf:
        k = KINDS[ev(x.rawkv).as_long()]
        if k not in x.dom:
            raise EngineError("leaf kind outside its domain")
        return evaluate(x.get(k))
    if t is SymType:
        return KTYPE[KINDS[ev(x.leaf.rawkv).as_long()]]
    if t is SymBool:
        return to_py("bool", ev(x.e))
    if t is SymInt:
        return to_py("int", ev(x.e))
    if t is SymFloat:
        return to_py("float", ev(x.e))["float"]
    if t is SymStr or t is SymBytes:
        s = "".join(eval_part(p, ev) for p in x.parts)
        return s if t is SymStr else s.encode("latin-1")
    if t is SymByteArray:
        return bytearray(evaluate(x.b))
    if t in SYM and hasattr(t, "real"):
        return x.real(evaluate)
    if t is list:
        return [evaluate(v) for v in x]
    if t is tuple:
        return tuple(evaluate(v) for v in x)
    if t is dict:
        return {evaluate(k): evaluate(v) for k, v in x.items()}
    if t is set:
        return {evaluate(v) for v in x}
    return x


def eval_part(p, ev):
    import base64
    from . import jsonmodel
    from .engine import to_py
    if type(p) is str:
        return p
    if type(p) is ZV:
        return to_py("str", ev(p.e))
    if p.tag == "ch":
        return chr(ev(p.code).as_long())
    if p.tag == "json":
        return jsonmodel.text(evaluate(p.payload), p.opts)
    if p.tag == "repr":
        return repr(evaluate(p.payload))
    if p.tag == "b64":
        return base64.b64encode(evaluate(p.payload)).decode()
    if p.tag == "b85":
        return base64.b85encode(evaluate(p.payload)).decode()
    if p.tag == "utf8":
        return evaluate(p.payload).encode("utf-8").decode("latin-1")
    if p.tag == "comp":
        import importlib
        mm = importlib.import_module(p.opts[0])
        return mm.compress(evaluate(p.payload)).decode("latin-1")
    raise EngineError("token " + p.tag)
