"""Operations the instrumented code is routed through."""
import base64 as _base64
import binascii
import bz2
import builtins
import collections
import copy as _copy
import functools
import inspect
import itertools
import operator
import sys
import types
import warnings as _warnings
import weakref
import zlib

import z3

from . import jsonmodel, natives, vec
from .engine import ENG, EngineError, Steer
from .sym import (int_text, INJ, KINDS, KTYPE, SYM, NoneType, Sym, SymBool, SymByteArray, SymBytes, SymFloat,
                  SymInt, SymLeaf, SymStr, SymType, Tok, ZV, bytes_parts, concretize,
                  concretize_deep, concretize_inplace, conj, deep_eq, disj, eq, force, has_sym, join, kind_of, mkbool, parts_prefix,
                  mkstr, neg, num_term, real_type, rep_of, str_parts, zv_eq_const)

# code objects of instrumented functions
INSTR = set()
# functions entered on any path: code name -> file
ENTERED = set()

SYMDICTS = {}      # id -> dict with symbolic keys (strong refs, cleared per path)
SYMSETS = {}


def reset_path():
    SYMDICTS.clear()
    PENDING.clear()
    SYMSETS.clear()
    RECORDED_WARNINGS.clear()
    EVALS.clear()
    for f in RESETS:
        f()


RESETS = []        # of models that keep state
STRICT = set()     # stand-ins that C functions must not see

PENDING = {}       # id -> [dict, [(key, value)...]] writes whose key is not resolved yet


def register_symdict(d):
    SYMDICTS[id(d)] = d


def settle(d):
    """Resolve the postponed writes of a dict."""
    p = PENDING.pop(id(d), None)
    if p is not None:
        for k, v in p[1]:
            dict_put(d, k, v)


def it(x):
    """Iterable of a for loop or comprehension."""
    if PENDING and id(x) in PENDING:
        settle(x)
    return x


def composite(k):
    return type(k) is SymStr and len(k.parts) > 1 and all(
        type(p) is str or type(p) is ZV for p in k.parts)


def truth(r):
    return r if type(r) is bool else bool(r)


# --------------------------------------------------------------------------- dict model
def is_plain_dict(d):
    return issubclass(type(d), dict)


def dict_find(d, k):
    """The stored key equal to k, or _MISSING (forks)."""
    if PENDING and id(d) in PENDING:
        settle(d)
    if type(k) is SymType:
        k = k.force()
    if type(k) not in SYM and id(d) not in SYMDICTS:
        try:
            if dict.__contains__(d, k):
                return k
        except TypeError:
            raise
        return _MISSING
    if type(k) in SYM or has_sym(k):
        try:
            if dict.__contains__(d, k):       # identical symbolic object
                return k
        except TypeError:
            raise
        for k2 in list(dict.keys(d)):
            if truth(eq_any(k2, k)):
                return k2
        return _MISSING
    # concrete key, dict may have symbolic keys
    hash(k)
    if dict.__contains__(d, k):
        return k
    for k2 in list(dict.keys(d)):
        if type(k2) in SYM or (type(k2) is tuple and has_sym(k2)):
            if truth(eq_any(k2, k)):
                return k2
    return _MISSING


_MISSING = object()


def dict_contains(d, k):
    """Membership as bool/SymBool without forking per key."""
    if PENDING and id(d) in PENDING:
        settle(d)
    if type(k) is SymType:
        k = k.force()
    if type(k) not in SYM and id(d) not in SYMDICTS:
        return dict.__contains__(d, k)
    if type(k) is not tuple and dict.__contains__(d, k):
        return True
    if type(k) in SYM:
        return in_concretes(k, list(dict.keys(d)))
    return disj([eq_any(k2, k) for k2 in dict.keys(d)
                 if type(k2) in SYM or (type(k2) is tuple and has_sym(k2))])


def in_concretes(k, elems):
    """k in elems as one condition, with facts recorded for text variables."""
    if type(k) is SymLeaf:
        if not any(kind_of(e) or type(e) in SYM for e in elems):
            return False
    if type(k) is SymStr:
        z = k.single()
        if z is not None:
            consts = []
            conds = []
            for e in elems:
                if type(e) is str:
                    r = zv_eq_const(z, e)
                    if r is True:
                        return True
                    if r is False:
                        continue
                    consts.append(e)
                    conds.append(r.e)
                else:
                    r = eq_any(e, k)
                    if r is True:
                        return True
                    if r is not False:
                        conds.append(r.e)
            if not conds:
                return False

            def on_false():
                z.neq.update(consts)
            return SymBool(z3.Or(conds) if len(conds) > 1 else conds[0], None, on_false)
    return disj([eq_any(e, k) for e in elems])


def eq_any(a, b):
    """== for values that may be tuples containing symbolic parts."""
    if a is b:
        return True
    if type(a) in SYM or type(b) in SYM:
        return eq(a, b)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return conj([eq_any(x, y) for x, y in zip(a, b)])
    return a == b


def dict_get(d, k, default):
    k2 = dict_find(d, k)
    return default if k2 is _MISSING else dict.__getitem__(d, k2)


def dict_set(d, k, v):
    if PENDING and id(d) in PENDING:
        PENDING[id(d)][1].append((k, v))
        return
    if composite(k) and len(d) and not any(k is k2 for k2 in d):
        # nothing observable happens until the dict is read
        register_symdict(d)
        PENDING[id(d)] = [d, [(k, v)]]
        return
    dict_put(d, k, v)


def dict_put(d, k, v):
    if type(k) is SymType:
        k = k.force()
    if type(k) not in SYM and id(d) not in SYMDICTS and type(k) is not tuple:
        dict.__setitem__(d, k, v)
        return
    k2 = dict_find(d, k)
    if k2 is _MISSING:
        dict.__setitem__(d, k, v)
        if type(k) in SYM or (type(k) is tuple and has_sym(k)):
            register_symdict(d)
    else:
        dict.__setitem__(d, k2, v)


def dict_update(d, *args, **kw):
    for a in args:
        it(a)
        if is_plain_dict(a):
            items = list(a.items())
        elif hasattr(a, "keys"):
            items = [(k, a[k]) for k in a.keys()]
        else:
            items = list(a)
        for k, v in items:
            dict_set(d, k, v)
    for k, v in kw.items():
        dict_set(d, k, v)


def dict_eq(a, b):
    it(a)
    it(b)
    if len(a) != len(b):
        return False
    for k, v in list(a.items()):
        k2 = dict_find(b, k)
        if k2 is _MISSING:
            return False
        if not truth(cmp("==", v, dict.__getitem__(b, k2))):
            return False
    return True


def dict_touched(d):
    return id(d) in SYMDICTS


def getitem(o, k):
    t = type(o)
    tk = type(k)
    if tk not in SYM and id(o) not in SYMDICTS:
        if tk is slice and (type(k.start) in SYM or type(k.stop) in SYM) and t in (
                list, tuple, str, bytes):
            return o[slice(concretize(k.start, "slice"), concretize(k.stop, "slice"), k.step)]
        return o[k]
    if issubclass(t, dict) and t.__getitem__ is dict.__getitem__:
        k2 = dict_find(o, k)
        if k2 is _MISSING:
            m = getattr(t, "__missing__", None)
            if m is not None:
                if isinstance(o, collections.defaultdict):
                    if o.default_factory is None:
                        raise KeyError(k)
                    v = o.default_factory()
                    dict_set(o, k, v)
                    return v
                return m(o, k)
            raise KeyError(k)
        return dict.__getitem__(o, k2)
    if t in SYM:
        return o[k]
    if t in (list, tuple, str, bytes):
        k = force(k)
        if type(k) is SymBool:
            k = int(bool(k))
        if type(k) is SymInt:
            return seq_index(o, k)
        return o[k]
    if tk is SymType:
        return o[k.force()]
    if INSTRUMENTED_METHOD(t, "__getitem__"):
        return o[k]
    return o[concretize(k, "index into " + t.__name__)]


def INSTRUMENTED_METHOD(t, name):
    f = getattr(t, name, None)
    return getattr(f, "__code__", None) in INSTR


def seq_index(o, k):
    n = len(o)
    if not ENG.branch(z3.And(k.e >= -n, k.e < n)):
        raise IndexError("list index out of range")
    for i in range(n):
        if i == n - 1 or ENG.branch(z3.Or(k.e == i, k.e == i - n)):
            return o[i]


def setitem(o, k, v):
    t = type(o)
    if type(k) not in SYM and id(o) not in SYMDICTS and type(k) is not tuple:
        o[k] = v
        return
    if issubclass(t, dict) and t.__setitem__ is dict.__setitem__:
        dict_set(o, k, v)
        return
    if type(o) is list:
        k = force(k)
        if type(k) is SymInt:
            k = concretize(k, "list store index")
        o[k] = v
        return
    if INSTRUMENTED_METHOD(t, "__setitem__"):
        o[k] = v
        return
    if type(k) is tuple:
        o[k] = v
        return
    o[concretize(k, "store into " + t.__name__)] = v


def delitem(o, k):
    t = type(o)
    if type(k) not in SYM and id(o) not in SYMDICTS:
        del o[k]
        return
    if issubclass(t, dict) and t.__delitem__ is dict.__delitem__:
        k2 = dict_find(o, k)
        if k2 is _MISSING:
            raise KeyError(k)
        dict.__delitem__(o, k2)
        return
    del o[concretize(k, "delete index")]


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is _SPREAD:
            dict_update(d, v)
        else:
            dict_set(d, k, v)
    return d


class _Spread:
    pass


_SPREAD = SPREAD = _Spread()


def mkset(items):
    return set_from(items)


def set_from(items, cls=set):
    items = list(items)
    if not any(type(x) in SYM or (type(x) is tuple and has_sym(x)) for x in items):
        return cls(items)
    out = []
    for x in items:
        if type(x) is SymType:
            x = x.force()
        if type(force_kind(x)) in (list, dict, set, bytearray, SymByteArray):
            hash(x)
        for y in out:
            if truth(eq_any(x, y)):
                break
        else:
            out.append(x)
    r = cls(out)
    SYMSETS[id(r)] = r
    return r


def force_kind(x):
    return x


class CharSet(Sym):
    """set(text) for symbolic text: a set of one-character strings."""
    __slots__ = ("s",)

    def __init__(self, s):
        self._h = ENG.next_serial()
        self.s = s

    @property
    def __class__(self):
        return set

    def contains(self, x):
        x = force(x)
        if type(x) is str and len(x) != 1:
            return False
        if type(x) is str:
            return self.s.contains(x)
        if type(x) is SymStr:
            return conj([mkbool(num_term(x.length()) == 1), self.s.contains(x)])
        return False

    def __contains__(self, x):
        return truth(self.contains(x))

    def superset_of(self, it):
        return conj([self.contains(x) for x in it])

    def real(self):
        return set(concretize(self.s, "set of text"))

    def __iter__(self):
        return iter(self.real())

    def __len__(self):
        return len(self.real())

    def __bool__(self):
        return bool(self.s)

    def isdisjoint(self, o):
        return neg(disj([self.contains(x) for x in o]))

    def issuperset(self, o):
        return self.superset_of(o)

    def intersection(self, o):
        return {x for x in o if truth(self.contains(x))}

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def issubset(self, o):
        return self.real() <= set(o)

    def __ge__(self, o):
        return self.superset_of(o)

    def __le__(self, o):
        return self.issubset(o)


SYM.add(CharSet)


def set_is_sym(s):
    if id(s) in SYMSETS or id(s) in SYMDICTS:
        return True
    t = type(s)
    if t is type({}.keys()):
        return any(type(x) in SYM for x in s)
    if t is set or t is frozenset:
        return len(s) <= 24 and any(type(x) in SYM for x in s)
    return False


def set_contains(s, x):
    return in_concretes(x, list(s)) if type(x) in SYM else disj(
        [eq_any(y, x) for y in s if type(y) in SYM or y == x])


SETLIKE = (set, frozenset, type({}.keys()), type({}.items()))


def set_subset(a, b):
    """all elements of a are in b"""
    na = len(a)
    if na > len(b) and not any(type(x) in SYM for x in a):
        return False
    return conj([set_contains(b, x) for x in a])


def set_op(op, a, b):
    la, lb = list(a), list(b)
    if op == "&":
        return set_from([x for x in la if truth(set_contains(lb, x))])
    if op == "|":
        return set_from(la + lb)
    if op == "-":
        return set_from([x for x in la if not truth(set_contains(lb, x))])
    if op == "^":
        return set_from([x for x in la if not truth(set_contains(lb, x))]
                        + [x for x in lb if not truth(set_contains(la, x))])
    raise EngineError("set op " + op)


# --------------------------------------------------------------------------- comparisons
_OPS = {
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
    ">": operator.gt, ">=": operator.ge,
}


def cmp(op, a, b):
    ta, tb = type(a), type(b)
    sa, sb = ta in SYM, tb in SYM
    if op == "is" or op == "is not":
        if not sa and not sb:
            r = a is b
        else:
            r = is_(a, b)
        if op == "is":
            return r
        return neg(r)
    if op == "in" or op == "not in":
        r = contains(b, a)
        if op == "in":
            return r
        return neg(r) if type(r) in (bool, SymBool) else not r
    if not sa and not sb:
        if ta is dict or tb is dict or issubclass(ta, dict) or issubclass(tb, dict):
            if op in ("==", "!=") and (id(a) in SYMDICTS or id(b) in SYMDICTS) and \
                    issubclass(ta, dict) and issubclass(tb, dict) and \
                    ta.__eq__ is dict.__eq__ and tb.__eq__ is dict.__eq__:
                r = dict_eq(a, b)
                return r if op == "==" else not r
        elif ta in SETLIKE and tb in SETLIKE and (set_is_sym(a) or set_is_sym(b)):
            return set_cmp(op, a, b)
        return _OPS[op](a, b)
    if ta is CharSet or tb is CharSet:
        if op == "<=" and tb is CharSet:
            return b.superset_of(a)
        if op == ">=" and ta is CharSet:
            return a.superset_of(b)
        return _OPS[op](a.real() if ta is CharSet else a, b.real() if tb is CharSet else b)
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return neg(eq(a, b))
    a, b = force(a), force(b)
    return _OPS[op](a, b)


def set_cmp(op, a, b):
    if op == "<=":
        return set_subset(a, b)
    if op == ">=":
        return set_subset(b, a)
    if op in ("==", "!="):
        r = len(a) == len(b) and truth(set_subset(a, b))
        return r if op == "==" else not r
    if op == "<":
        return len(a) < len(b) and truth(set_subset(a, b))
    if op == ">":
        return len(b) < len(a) and truth(set_subset(b, a))
    raise EngineError(op)


def is_(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymType or tb is SymType:
        if ta is SymType and tb is SymType:
            return a.leaf is b.leaf or a.force() is b.force()
        return a.test(b) if ta is SymType else b.test(a)
    if tb in SYM and ta not in SYM:
        a, b, ta, tb = b, a, tb, ta
    if b is None:
        return a.kind_in("n") if ta is SymLeaf else False
    if b is True or b is False:
        if ta is SymLeaf:
            if not a.kind_in("b"):
                return False
            a = a.force()
            ta = type(a)
        if ta is SymBool:
            return a if b else neg(a)
        return a is b
    if ta is SymLeaf and tb is SymLeaf:
        return False
    if ta is SymLeaf:
        return a.force() is b
    return False


def contains(b, a):
    tb = type(b)
    if PENDING and id(b) in PENDING:
        settle(b)
    if tb in SYM:
        b = force(b)
        if type(b) in (SymStr, CharSet):
            return b.contains(a)
        if type(b) in SYM:
            if type(b) is SymByteArray:
                b = b.b
            if vec.is_vec(b):
                return b.contains(a)
            if type(b) is SymBytes:
                return concretize(a, "in bytes") in concretize(b, "in bytes")
            raise TypeError("argument of type %r is not iterable" % b.__class__.__name__)
        return a in b
    ta = type(a)
    if issubclass(tb, dict) and tb.__contains__ is dict.__contains__:
        if ta not in SYM and id(b) not in SYMDICTS:
            return dict.__contains__(b, a)
        return dict_contains(b, a)
    if tb is set or tb is frozenset or tb is type({}.keys()):
        if ta is SymType:
            return type_in(a, b)
        if ta in SYM:
            return in_concretes(a, list(b))
        if set_is_sym(b):
            return set_contains(b, a)
        return a in b
    if tb is list or tb is tuple:
        if ta is SymType:
            return type_in(a, b)
        if ta in SYM or any(type(x) in SYM for x in b):
            for x in b:
                if x is a:
                    return True
            return in_concretes(a, list(b)) if ta in SYM else disj([eq_any(x, a) for x in b])
        return a in b
    if tb is str:
        if ta in SYM:
            ps = str_parts(a)
            if ps is None:
                raise TypeError("'in <string>' requires string as left operand")
            from .sym import parts_term, zs
            return mkbool(z3.Contains(zs(b), parts_term(ps)))
        return a in b
    if ta in SYM and not INSTRUMENTED_METHOD(tb, "__contains__") and tb in (range, bytes):
        return concretize(a, "in range") in b
    return a in b


def type_in(a, b):
    return a.leaf.kind_in({k for k in KINDS if any(KTYPE[k] is x for x in b)})


# --------------------------------------------------------------------------- operators
_BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
    "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
    ">>": operator.rshift, "|": operator.or_, "&": operator.and_, "^": operator.xor,
    "@": operator.matmul,
}
_IBIN = {
    "+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
    "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift,
    ">>": operator.irshift, "|": operator.ior, "&": operator.iand, "^": operator.ixor,
    "@": operator.imatmul,
}


def binop(op, a, b):
    ta, tb = type(a), type(b)
    if ta not in SYM and tb not in SYM:
        if ta in SETLIKE and tb in SETLIKE and (set_is_sym(a) or set_is_sym(b)):
            return set_op(op, a, b)
        if op == "%" and ta is str and has_sym(b):
            return a % concretize_deep(b, "% formatting")
        if op == "|" and (id(a) in SYMDICTS or id(b) in SYMDICTS):
            d = {}
            dict_update(d, a)
            dict_update(d, b)
            return d
        return _BIN[op](a, b)
    a, b = force(a), force(b)
    if op == "%" and type(a) is str:
        return percent(a, b)
    if op == "*" and type(a) in (list, tuple, str, bytes) and type(b) is SymInt:
        return a * concretize(b, "repetition count")
    if op == "*" and type(b) in (list, tuple, str, bytes) and type(a) is SymInt:
        return b * concretize(a, "repetition count")
    if op == "**":
        return concretize(a, "**") ** concretize(b, "**")
    return _BIN[op](a, b)


def percent(fmt, b):
    """'...%s...' % value with one symbolic text value."""
    if fmt.count("%") == 1 and "%s" in fmt:
        pre, post = fmt.split("%s")
        return mkstr((pre,) + tuple(str_parts(to_str(b)) or ()) + (post,))
    m = vec.SPEC.fullmatch(fmt[1:]) if fmt.startswith("%") else None
    if m:
        r = vec.format_int(b[0] if type(b) is tuple and len(b) == 1 else b, fmt[1:])
        if r is not vec.NO:
            return r
    return fmt % concretize_deep(b, "% formatting")


def iop(op, a, b):
    ta, tb = type(a), type(b)
    if ta not in SYM and tb not in SYM:
        if ta is set and (set_is_sym(a) or set_is_sym(b)):
            r = set_op(op, a, b)
            a.clear()
            a.update(r)
            SYMSETS[id(a)] = a
            return a
        if ta is dict and op == "|":
            dict_update(a, b)
            return a
        return _IBIN[op](a, b)
    return binop(op, a, b)


def augattr(o, name, op, v):
    setattr(o, name, iop(op, getattr(o, name), v))


def augitem(o, k, op, v):
    setitem(o, k, iop(op, getitem(o, k), v))


def to_str(x):
    """str(x) for possibly symbolic x, symbolic where a model exists."""
    x = force(x)
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return SymStr((int_text(x.e),))
    if t is SymBool:
        return "True" if x else "False"
    if t in (SymFloat, SymBytes):
        return SymStr((Tok("repr", x, (), False),))
    if t is natives.SymUUID:
        return x.text()
    if t in SYM:
        return str(concretize(x, "str()"))
    if (t in (list, tuple, dict, set) and has_sym(x)) or needs_repr(x):
        return to_repr(x)
    return str(x)


def needs_repr(x):
    return False


def to_repr(x, active=None):
    """repr(x), as text with tokens for symbolic parts."""
    x = force(x)
    t = type(x)
    if t is SymInt:
        return to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in (SymStr, SymFloat, SymBytes, SymByteArray):
        return SymStr((Tok("repr", x, (), False),))
    if t in SYM:
        return repr(concretize(x, "repr()"))
    if t in (list, tuple, dict, set, frozenset) or (
            issubclass(t, (list, tuple, dict, set)) and not INSTRUMENTED_METHOD(t, "__repr__")
            and t.__repr__ in (list.__repr__, dict.__repr__, tuple.__repr__)):
        active = active or []
        if any(y is x for y in active):
            for c, text in ((list, "[...]"), (tuple, "(...)"), (dict, "{...}")):
                if issubclass(t, c):
                    return text
            return "..."
        active = active + [x]
        if issubclass(t, (list, tuple)):
            body = join(", ", [to_repr(v, active) for v in x])
            if issubclass(t, list):
                return mkstr(("[",) + str_parts(body) + ("]",))
            return mkstr(("(",) + str_parts(body) + ((",)" if len(x) == 1 else ")"),))
        if issubclass(t, dict):
            ps = []
            for k, v in x.items():
                ps.append(join(": ", [to_repr(k, active), to_repr(v, active)]))
            return mkstr(("{",) + str_parts(join(", ", ps)) + ("}",))
        if not has_sym(x):
            return repr(x)
        if t in (set, frozenset):
            body = join(", ", [to_repr(v, active) for v in x])
            if t is set:
                return mkstr(("{",) + str_parts(body) + ("}",)) if len(x) else "set()"
            return mkstr(("frozenset({",) + str_parts(body) + ("})",))
    m = t.__repr__
    if getattr(m, "__code__", None) in INSTR:
        return m(x)
    return repr(x)


def fstr(*pieces):
    """Formatted string literal; each piece is a str or (value, conversion, spec)."""
    out = []
    for p in pieces:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == "r":
            v = to_repr(v)
        elif conv == "s":
            v = to_str(v)
        elif conv == "a":
            v = ascii(concretize_deep(v, "ascii"))
        if spec:
            r = vec.format_int(v, spec)
            if r is not vec.NO:
                out.extend(str_parts(r))
                continue
            out.append(format(concretize(v, "format spec"), concretize(spec, "format spec")))
            continue
        if type(v) in SYM or has_sym(v):
            v = to_str(v)
        elif type(v) is not str:
            v = format(v, "")
        out.extend(str_parts(v))
    return mkstr(out)


# --------------------------------------------------------------------------- calls
RECORDED_WARNINGS = []


def m_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    t = type(x)
    if t in SYM:
        if t is SymLeaf:
            if len(x.dom) == 1:
                return KTYPE[x.dom[0]]
            return SymType(x)
        if t is SymType:
            return type
        return x.__class__
    return t


def class_of(x):
    return m_type(x) if type(x) in SYM else x.__class__


def flat_types(c):
    if type(c) is tuple:
        out = []
        for y in c:
            out.extend(flat_types(y))
        return out
    if isinstance(c, types.UnionType):
        return list(c.__args__)
    return [c]


def m_isinstance(x, c):
    t = type(x)
    if t in SYM:
        if t is SymLeaf and len(x.dom) > 1:
            yes = {k for k in x.dom if issubclass(KTYPE[k], c)}
            return x.kind_in(yes)
        return issubclass(x.__class__, force(c))
    if type(c) in SYM:
        c = c.force()
    return isinstance(x, c)


def m_issubclass(x, c):
    if type(x) is SymType:
        leaf = x.leaf
        return leaf.kind_in({k for k in leaf.dom if issubclass(KTYPE[k], c)})
    return issubclass(x, force(c))


GENERIC_GETATTR = (object.__getattribute__, dict.__getattribute__, list.__getattribute__,
                   set.__getattribute__)


def attr_store(x, name):
    """The instance dict that decides attribute `name` (symbolic), or None."""
    if type(name) is not SymStr or name.single() is None or type(x) in SYM:
        return None
    t = type(x)
    if t.__getattribute__ not in GENERIC_GETATTR or hasattr(t, "__getattr__") \
            or t.__setattr__ is not object.__setattr__:
        return None
    d = getattr(x, "__dict__", None)
    if type(d) is not dict:
        return None
    if contains(dir(t), name):
        return None
    return d


def attr_names(x):
    """Every name that may be an attribute (a class also has those of its metaclass)."""
    if isinstance(x, type):
        return sorted(set(dir(x)) | set(dir(type(x))))
    return dir(x)


def m_hasattr(x, name):
    d = attr_store(x, name)
    if d is not None:
        return dict_find(d, name) is not _MISSING
    if type(name) is SymStr and type(x) not in SYM and not hasattr(type(x), "__getattr__"):
        names = attr_names(x)
        if len(names) <= 200:
            return one_of(name, [n for n in names if hasattr(x, n)]) is not None
    name = concretize(name, "attribute name")
    if type(x) in SYM:
        if type(x) is SymType:
            return hasattr(x.force(), name)
        if type(x) is SymLeaf and len(x.dom) > 1:
            reps = {"n": None, "b": True, "i": 0, "f": 0.0, "s": ""}
            return x.kind_in({k for k in x.dom if hasattr(reps[k], name)})
        return hasattr(rep_of(x), name)
    return hasattr(x, name)


def m_getattr(x, name, *d):
    s = attr_store(x, name)
    if s is not None:
        k = dict_find(s, name)
        if k is not _MISSING:
            return s[k]
        if d:
            return d[0]
        raise AttributeError("%r object has no such attribute" % type(x).__name__)
    if type(name) is SymStr and type(x) not in SYM and not hasattr(type(x), "__getattr__"):
        names = attr_names(x)
        if len(names) <= 200:
            n = one_of(name, names)
            if n is None:
                if d:
                    return d[0]
                raise AttributeError("no such attribute (symbolic)")
            return getattr(x, n, *d)
    name = concretize(name, "attribute name")
    if type(x) in SYM:
        if type(x) is SymType:
            return getattr(x.force(), name, *d)
        rep = rep_of(x)
        if not hasattr(rep, name):
            if d:
                return d[0]
            raise AttributeError("%r object has no attribute %r" % (type(rep).__name__, name))
        return getattr(force(x), name)
    return getattr(x, name, *d)


def m_setattr(x, name, v):
    d = attr_store(x, name)
    if d is not None:
        dict_set(d, name, v)
        return
    setattr(x, concretize(name, "attribute name"), v)


def m_delattr(x, name):
    delattr(x, concretize(name, "attribute name"))


def m_len(x):
    t = type(x)
    if PENDING:
        it(x)
    if t in SYM:
        x = force(x)
        if hasattr(type(x), "length"):
            n = x.length()
            return n
        if type(x) in SYM and type(x) is not CharSet:
            raise TypeError("object of type %r has no len()" % x.__class__.__name__)
    return len(x)


def m_bool(x=False):
    x = force(x)
    if type(x) is SymBool:
        return x
    return bool(x)


def m_int(x=0, *a, **k):
    x = force(x)
    t = type(x)
    if t is SymStr and vec.is_vec(x):
        r = vec.parse_int(x, *a, **k)
        if r is not vec.NO:
            return r
    if a or k:
        return int(concretize(x, "int(base)"), *a, **k)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFloat:
        return x.__trunc__()
    if t in SYM:
        return int(concretize(x, "int()"))
    return int(x)


def m_float(x=0.0):
    x = force(x)
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        return SymFloat(z3.ToReal(x.e))
    if t in SYM:
        return float(concretize(x, "float()"))
    return float(x)


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    if len(a) > 1 or k:
        x = a[0]
        if type(x) in SYM:
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(a[0])


def m_repr(x):
    return to_repr(x)


def m_bytes(*a, **k):
    if a and type(a[0]) in SYM:
        x = force(a[0])
        if type(x) is SymBytes:
            return x
        if type(x) is SymByteArray:
            return x.b
        if type(x) is SymStr:
            return x.encode(*a[1:], **k)
        return bytes(concretize(x, "bytes()"), *a[1:], **k)
    if len(a) == 1 and not k and isinstance(a[0], (list, tuple, types.GeneratorType)):
        xs = [force(x) for x in a[0]]
        if any(type(x) is SymInt for x in xs) and all(type(x) in (int, SymInt) for x in xs):
            return byte_list(xs)
        a = (xs,)
    if a and type(a[0]) in (list, tuple) and has_sym(a[0]):
        return bytes(concretize_deep(a[0], "bytes(list)"))
    return bytes(*a, **k)


def byte_list(xs):
    for x in xs:
        if not (0 <= x and x <= 255):
            raise ValueError("bytes must be in range(0, 256)")
    return vec.data([x if type(x) is int else x.e for x in xs])


def m_bytearray(*a, **k):
    if a and type(a[0]) in SYM:
        x = force(a[0])
        if type(x) is SymBytes:
            return SymByteArray(x)
        if type(x) is SymByteArray:
            return SymByteArray(x.b)
        return bytearray(concretize_deep(x, "bytearray()"), *a[1:], **k)
    if len(a) == 1 and not k and isinstance(a[0], (list, tuple, types.GeneratorType)):
        x = m_bytes(a[0])
        return SymByteArray(x) if type(x) is SymBytes else bytearray(x)
    return bytearray(*a, **k)


def m_list(*a):
    if a and type(a[0]) in SYM:
        return list(concretize(a[0], "list(text)")) if type(force(a[0])) in (
            SymStr, SymBytes) and not vec.is_vec(force(a[0])) else list(force(a[0]))
    return list(*a)


def m_tuple(*a):
    if a and type(a[0]) in SYM:
        return tuple(m_list(a[0]))
    return tuple(*a)


def m_set(*a):
    return _mset(set, *a)


def m_frozenset(*a):
    return _mset(frozenset, *a)


def _mset(cls, *a):
    if not a:
        return cls()
    x = a[0]
    if type(x) in SYM:
        x = force(x)
        if type(x) is SymStr:
            return CharSet(x)
        if type(x) in SYM:
            if type(x) is CharSet:
                return x
            return cls(x)
        return cls(x)
    items = list(x)
    return set_from(items, cls)


def m_dict(*a, **k):
    d = {}
    dict_update(d, *a, **k)
    return d


def m_sorted(it, *, key=None, reverse=False):
    if key is not None:
        key = functools.partial(call, key)
    return sorted(it, key=key, reverse=truth(reverse))


def m_map(f, *its):
    if getattr(f, "__code__", None) in INSTR or isinstance(f, types.MethodType):
        return map(f, *its)
    return map(functools.partial(call, f), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(functools.partial(call, f), it)


def with_predicate(fn):
    """A C iterator that calls its first argument."""
    def model(f, *its):
        return fn(functools.partial(call, f) if f is not None else f, *its)
    return model


def m_accumulate(it, func=None, **k):
    return itertools.accumulate(it, func and functools.partial(call, func), **k)


def m_islice(it, *a):
    a = [force(x) for x in a]
    if not any(type(x) in SYM for x in a):
        return itertools.islice(it, *a)
    if len(a) == 1:
        return sym_islice(it, a[0])
    return itertools.islice(it, *[concretize(x, "islice") for x in a])


def sym_islice(it, n):
    """islice(it, n) with symbolic n: compare before each item is taken."""
    if n < 0:
        raise ValueError("Stop argument for islice() must be None or an integer")

    def gen():
        i = 0
        src = iter(it)
        while n > i:
            try:
                v = next(src)
            except StopIteration:
                return
            yield v
            i += 1
    return gen()


def m_range(*a):
    a = [force(x) for x in a]
    if any(type(x) in SYM for x in a):
        if len(a) == 1:
            return sym_range(0, a[0])
        if len(a) == 2:
            return sym_range(a[0], a[1])
        a = [concretize(x, "range") for x in a]
    return range(*a)


def sym_range(lo, hi):
    i = lo
    n = 0
    while i < hi:
        yield i
        i = i + 1
        n += 1
        if n > 200:
            ENG.cut("symbolic range longer than 200")
            from .engine import PathAbort
            raise PathAbort


def m_min(*a, **k):
    return min(*a, **k)


def m_warn(message, category=None, stacklevel=1, source=None, **k):
    if isinstance(message, Warning):
        category = type(message)
    RECORDED_WARNINGS.append((category or UserWarning, message))


def m_id(x):
    return id(x)


def m_callable(x):
    if type(x) in SYM:
        return type(x) is SymType
    return callable(x)


def m_hash(x):
    return hash(x)


def m_copy(x):
    r = _copy.copy(x)
    if id(x) in SYMDICTS:
        register_symdict(r)
    if id(x) in SYMSETS:
        SYMSETS[id(r)] = r
    return r


def m_print(*a, **k):
    return None


def m_next(it, *d):
    return next(it, *d)


def m_iter(x, *a):
    if type(x) in SYM:
        return iter(force(x), *a)
    return iter(x, *a)


def m_sum(it, start=0):
    for x in it:
        start = binop("+", start, x)
    return start


def m_divmod(a, b):
    return (binop("//", a, b), binop("%", a, b))


def m_b64encode(data, *a, **k):
    data = force(data)
    if type(data) is SymByteArray:
        data = data.b
    if type(data) is SymBytes and not a and not k:
        return vec.b64encode(data) if vec.is_vec(data) and not vec.OPAQUE else SymBytes((Tok("b64", data),))
    if type(data) is SymStr:
        raise TypeError("a bytes-like object is required, not 'str'")
    return _base64.b64encode(concretize(data, "b64encode"), *a, **k)


def m_b64decode(data, *a, **k):
    data = force(data)
    if type(data) in (SymBytes, SymStr) and not a and not k:
        p = data.parts
        if len(p) == 1 and type(p[0]) is Tok and p[0].tag == "b64":
            return p[0].payload
        if vec.is_vec(data):
            return vec.b64decode(data)
    return _base64.b64decode(concretize(data, "b64decode"), *a, **k)


def m_b85encode(data, *a, **k):
    data = force(data)
    if type(data) is SymByteArray:
        data = data.b
    if type(data) is SymBytes and not a and not k:
        return vec.b85encode(data) if vec.is_vec(data) and not vec.OPAQUE else SymBytes((Tok("b85", data),))
    if type(data) is SymStr:
        raise TypeError("a bytes-like object is required, not 'str'")
    return _base64.b85encode(concretize(data, "b85encode"), *a, **k)


def m_b85decode(data, *a, **k):
    data = force(data)
    if type(data) in (SymBytes, SymStr) and not a and not k:
        p = data.parts
        if len(p) == 1 and type(p[0]) is Tok and p[0].tag == "b85":
            return p[0].payload
        if vec.is_vec(data):
            return vec.b85decode(data)
    return _base64.b85decode(concretize(data, "b85decode"), *a, **k)


def m_urlsafe_b64encode(data):
    data = force(data)
    if type(data) is SymByteArray:
        data = data.b
    if vec.is_vec(data):
        return vec.b64encode(data, vec.URL)
    return _base64.urlsafe_b64encode(concretize(data, "urlsafe_b64encode"))


def m_urlsafe_b64decode(data):
    data = force(data)
    if vec.is_vec(data):
        # the standard characters are accepted, too
        minus, slash = ("-_", "+/") if type(data) is SymStr else (b"-_", b"+/")
        for i in (0, 1):
            data = data.replace(minus[i:i + 1], slash[i:i + 1])
        return m_b64decode(data)
    return _base64.urlsafe_b64decode(concretize(data, "urlsafe_b64decode"))


def m_encodebytes(data):
    data = force(data)
    if vec.is_vec(data):
        r = b""
        for i in range(0, vec.length(data), 57):
            r = r + m_b64encode(data[i:i + 57]) + b"\n"
        return r
    return _base64.encodebytes(concretize(data, "encodebytes"))


def m_b2a_base64(data, *, newline=True):
    data = force(data)
    if type(data) in (SymBytes, SymByteArray):
        r = m_b64encode(data)
        return r + b"\n" if newline else r
    return binascii.b2a_base64(concretize(data, "b2a_base64"), newline=newline)


def m_a2b_base64(data, **k):
    if k:
        return binascii.a2b_base64(concretize(data, "a2b_base64"), **k)
    return m_b64decode(data)


def compressor(m):
    """Models of the compress and decompress functions of a module: inverse of each other."""
    real, unreal = m.compress, m.decompress

    def compress(data, *a, **k):
        data = force(data)
        if type(data) is SymByteArray:
            data = data.b
        if type(data) is SymBytes and not a and not k:
            return SymBytes((Tok("comp", data, (m.__name__,), False),))
        if type(data) is SymStr:
            raise TypeError("a bytes-like object is required, not 'str'")
        return real(concretize(data, "compress"), *a, **k)

    def decompress(data, *a, **k):
        data = force(data)
        if type(data) is SymBytes and not a and not k:
            p = data.parts
            if len(p) == 1 and type(p[0]) is Tok and p[0].tag == "comp":
                if p[0].opts == (m.__name__,):
                    return p[0].payload
        return unreal(concretize(data, "decompress"), *a, **k)
    return {real: compress, unreal: decompress}


def m_reduce(f, it, *init):
    return functools.reduce(functools.partial(call, f), it, *init)


def decide_all(it, wanted):
    """any() (wanted) or all() (not wanted); tests of the kind of one value are merged."""
    held = None
    it = iter(it)
    while True:
        try:
            x = m_bool(next(it))
        except StopIteration:
            break
        except Exception:
            if held is not None and truth(held) is wanted:
                return wanted
            raise
        if type(x) is SymBool and x.kinds:
            if held is None:
                held = x
                continue
            if held.kinds[0] is x.kinds[0]:
                leaf, ks = held.kinds
                held = leaf.kind_in(ks | x.kinds[1] if wanted else ks & x.kinds[1])
                if type(held) is bool:
                    if held is wanted:
                        return wanted
                    held = None
                continue
        if held is not None:
            if truth(held) is wanted:
                return wanted
            held = None
        if truth(x) is wanted:
            return wanted
    return not wanted if held is None else truth(held)


def m_any(it):
    return decide_all(it, True)


def m_all(it):
    return decide_all(it, False)


def m_attrgetter(*names):
    if not any(type(n) in SYM for n in names):
        return operator.attrgetter(*names)

    def get(o, name):
        for n in mcall(name, "split", "."):
            o = m_getattr(o, n)
        return o
    if len(names) == 1:
        return lambda o: get(o, names[0])
    return lambda o: tuple(get(o, n) for n in names)


def m_itemgetter(*keys):
    if len(keys) == 1:
        return lambda o: getitem(o, keys[0])
    return lambda o: tuple(getitem(o, k) for k in keys)


def m_methodcaller(name, *a, **k):
    return lambda o: mcall(o, name, *a, **k)


def m_import(name, *a, **k):
    name = force(name)
    if type(name) is SymStr:
        if truth(eq(name, "")):
            raise ValueError("Empty module name")
        # assumption: nothing else that a symbolic name may be is importable
        name = one_of(name, IMPORTABLE)
        if name is None:
            raise ModuleNotFoundError("No module named (symbolic)")
    return builtins.__import__(name, *a, **k)


IMPORTABLE = ("vpmod", "vppkg", "vppkg.sub")


def one_of(name, names):
    """The member of names that a symbolic text equals (one path for each), or None."""
    if not truth(disj([eq(name, n) for n in names])):
        return None
    for n in names[:-1]:
        if truth(eq(name, n)):
            return n
    return names[-1]


EVALS = []


def m_eval(src, *a, **k):
    """Text is recorded, never evaluated."""
    EVALS.append(("eval", src))


def m_exec(src, *a, **k):
    EVALS.append(("exec", src))


def m_compile(src, *a, **k):
    EVALS.append(("compile", src))


def m_round(x, *a):
    return round(x, *a)


def m_vars(x):
    return vars(x)


def caller_module():
    import sys
    f = sys._getframe(1)
    while f is not None and f.f_globals.get("__name__", "").startswith("vp."):
        f = f.f_back
    return f.f_globals.get("__name__")


def m_namedtuple(*a, **k):
    if k.get("module") is None:
        k["module"] = caller_module()
    return collections.namedtuple(*a, **k)


# functions replaced whenever called from instrumented code
MODELS = {
    collections.namedtuple: m_namedtuple,
    type: m_type, isinstance: m_isinstance, issubclass: m_issubclass, hasattr: m_hasattr,
    getattr: m_getattr, setattr: m_setattr, delattr: m_delattr, len: m_len, bool: m_bool,
    int: m_int, float: m_float, str: m_str, repr: m_repr, bytes: m_bytes, bytearray: m_bytearray,
    list: m_list, tuple: m_tuple, set: m_set, frozenset: m_frozenset, dict: m_dict,
    sorted: m_sorted, map: m_map, filter: m_filter, itertools.islice: m_islice, range: m_range,
    _warnings.warn: m_warn, callable: m_callable, _copy.copy: m_copy, print: m_print,
    iter: m_iter, sum: m_sum, divmod: m_divmod,
    _base64.b64encode: m_b64encode, _base64.b64decode: m_b64decode,
    _base64.standard_b64encode: m_b64encode, _base64.standard_b64decode: m_b64decode,
    _base64.b85encode: m_b85encode, _base64.b85decode: m_b85decode,
    _base64.urlsafe_b64encode: m_urlsafe_b64encode, _base64.urlsafe_b64decode: m_urlsafe_b64decode,
    _base64.encodebytes: m_encodebytes, _base64.decodebytes: m_b64decode,
    binascii.b2a_base64: m_b2a_base64, binascii.a2b_base64: m_a2b_base64,
    operator.attrgetter: m_attrgetter, operator.itemgetter: m_itemgetter,
    operator.methodcaller: m_methodcaller, operator.getitem: lambda o, k: getitem(o, k),
    operator.setitem: lambda o, k, v: setitem(o, k, v), operator.delitem: lambda o, k: delitem(o, k),
    itertools.accumulate: m_accumulate, itertools.takewhile: with_predicate(itertools.takewhile),
    itertools.dropwhile: with_predicate(itertools.dropwhile),
    itertools.filterfalse: with_predicate(itertools.filterfalse),
    itertools.starmap: with_predicate(itertools.starmap),
    functools.reduce: m_reduce, any: m_any, all: m_all, builtins.__import__: m_import,
}

MODELS.update(natives.MODELS)
MODELS.update(compressor(zlib))
MODELS.update(compressor(bz2))

# C callables that only move their arguments around
TRANSPARENT = {
    id, hash, iter, next, zip, enumerate, reversed, object, super, property, classmethod,
    staticmethod, collections.deque, collections.OrderedDict, collections.defaultdict,
    collections.Counter, collections.ChainMap, itertools.chain, itertools.chain.from_iterable,
    itertools.repeat, itertools.zip_longest, itertools.count, itertools.product, itertools.cycle,
    itertools.permutations, itertools.combinations, itertools.combinations_with_replacement,
    itertools.tee, itertools.pairwise, itertools.compress, itertools.groupby, min, max, functools.partial,
    types.SimpleNamespace, types.MappingProxyType, weakref.ref, vars, dir, round, abs,
    inspect.getmembers, inspect.getmembers_static, inspect.signature, inspect.isclass,
    inspect.isfunction, inspect.ismethod, inspect.getmro, inspect.getattr_static,
    operator.eq, operator.ne, operator.contains, Exception, ValueError, TypeError, KeyError,
    NotImplementedError, AttributeError, RuntimeError, AssertionError,
}

_PYFUNC = types.FunctionType
_METHOD = types.MethodType


_HASHABLE_FN = {types.FunctionType, types.BuiltinFunctionType, type}


def model_of(fn):
    t = type(fn)
    if t in _HASHABLE_FN:
        if t is types.BuiltinFunctionType and not isinstance(fn.__self__, types.ModuleType):
            return None
        return MODELS.get(fn)
    return None


def call(fn, /, *args, **kw):
    return native(fn, args, kw)


def native(fn, args, kw):
    """Call something from instrumented code."""
    if PENDING:
        for a in args:
            it(a)
    m = model_of(fn)
    if m is not None:
        return m(*args, **kw)
    t = type(fn)
    if t is _PYFUNC:
        if fn.__code__ in INSTR:
            return fn(*args, **kw)
    elif t is _METHOD:
        if getattr(fn.__func__, "__code__", None) in INSTR:
            return fn(*args, **kw)
        s = fn.__self__
        if type(s) in SYM:
            return fn(*args, **kw)
    elif t is SymType:
        return call(fn.force(), *args, **kw)
    elif t is types.MethodDescriptorType and args and type(args[0]) in SYM and issubclass(
            real_type(args[0]), fn.__objclass__):
        # e.g. str.lower(s)
        return call(getattr(args[0], fn.__name__), *args[1:], **kw)
    elif t is types.BuiltinFunctionType and fn.__name__ == "__new__" and args and type(
            args[0]) is type and args[0] in natives.MODELS and any(suspicious(a) for a in args[1:]):
        return natives.MODELS[args[0]](*args[1:], **kw)
    if not any(suspicious(a) for a in args) and not (
            kw and any(suspicious(a) for a in kw.values())):
        return fn(*args, **kw)
    if is_transparent(fn) and not (STRICT and any(type(a) in STRICT for a in args)
                                   and str(getattr(fn, "__module__", "")).startswith(HOLDERS)):
        if "dtype" not in kw and isinstance(fn, type) and fn.__module__.startswith(HOLDERS):
            args = [holder_arg(a, fn) for a in args]
        try:
            return fn(*args, **kw)
        except TypeError:
            # refused a symbolic value where it wants a plain one
            if type(fn) not in (type, types.BuiltinFunctionType) or type(fn) is type and (
                    fn.__module__.startswith(OWN_PREFIXES)):
                raise
    why = "call of %s" % fname(fn)
    memo = {}
    args = [concretize_inplace(a, why, memo) for a in args]
    kw = {k: concretize_inplace(a, why, memo) for k, a in kw.items()}
    return fn(*args, **kw)


def holder_arg(a, fn):
    """Without a dtype, array libraries choose one by the elements unless one is a container."""
    if type(a) is dict:
        return {k: holder_arg(v, fn) for k, v in a.items()}
    if type(a) is list and not any(type(x) in (list, tuple, dict, set) for x in a):
        return concretize_deep(a, "call of %s" % fname(fn))
    return a


def fname(fn):
    return getattr(fn, "__qualname__", None) or type(fn).__name__


def suspicious(a):
    t = type(a)
    if t in SYM:
        return True
    if t in (list, tuple, dict, set):
        return has_sym(a)
    return False


# array libraries: move the elements of object arrays without looking at them
HOLDERS = ("pandas", "numpy")
OWN_PREFIXES = ("jsonpickle", "vpmod", "vpgrid", "nowhere", "scen", "vp.")


def is_transparent(fn):
    try:
        if fn in TRANSPARENT:
            return True
    except TypeError:
        pass
    if isinstance(fn, type):
        mod = getattr(fn, "__module__", "") or ""
        if mod.startswith(OWN_PREFIXES) or mod.startswith(HOLDERS):
            return True
        if issubclass(fn, (BaseException,)):
            return True
        return getattr(fn, "_vp_transparent", False)
    if getattr(fn, "_vp_transparent", False):
        return True
    if type(fn) is _PYFUNC and fn.__globals__.get("__name__", "").startswith("namedtuple_"):
        return True
    if isinstance(fn, functools.partial):
        return is_transparent(fn.func) or getattr(fn.func, "__code__", None) in INSTR
    s = getattr(fn, "__self__", None)
    if str(getattr(type(s) if s is not None and not isinstance(s, types.ModuleType) else fn, "__module__", "")
           ).startswith(HOLDERS):
        return True
    if s is not None and not isinstance(s, types.ModuleType):
        # bound C method of a container or of a class
        if isinstance(s, type):
            return getattr(fn, "__name__", "") in ("__new__", "fromkeys", "from_iterable",
                                                  "_make", "mro")
        if type(s) in SYM:
            return True
        if isinstance(s, (list, tuple, dict, set, frozenset, collections.deque,
                          types.GeneratorType)):
            return True
        if isinstance(fn, (_METHOD,)):
            f = fn.__func__
            mod = getattr(f, "__module__", "") or ""
            return mod.startswith(OWN_PREFIXES)
        if getattr(fn, "__name__", "") in ("__new__", "__setattr__", "__getattribute__",
                                           "__init__", "__setitem__", "__getitem__",
                                           "__eq__", "__ne__", "send", "throw"):
            return True
        return False
    if isinstance(fn, (types.WrapperDescriptorType, types.MethodDescriptorType)):
        if issubclass(fn.__objclass__, (list, tuple, dict, set, frozenset, collections.deque)):
            return True
        return fn.__name__ in ("__setattr__", "__getattribute__", "__init__", "__new__")
    if callable(fn) and not isinstance(fn, (types.BuiltinFunctionType, types.FunctionType, type)):
        c = type(fn).__call__
        if getattr(c, "__code__", None) in INSTR:
            return True
    return False


def _dict_methods():
    def m_get(d, k, default=None):
        return dict_get(d, k, default)

    def m_pop(d, k, *default):
        k2 = dict_find(d, k)
        if k2 is _MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        return dict.pop(d, k2)

    def m_setdefault(d, k, default=None):
        k2 = dict_find(d, k)
        if k2 is _MISSING:
            dict_set(d, k, default)
            return default
        return dict.__getitem__(d, k2)

    def m_update(d, *a, **k):
        dict_update(d, *a, **k)

    def m_copy(d):
        r = dict.copy(d)
        if id(d) in SYMDICTS:
            register_symdict(r)
        return r

    return {
        "get": m_get, "pop": m_pop, "setdefault": m_setdefault, "update": m_update,
        "copy": m_copy, "__contains__": dict_contains, "__getitem__": getitem,
        "__setitem__": dict_set, "__delitem__": delitem,
    }


DICT_METHODS = _dict_methods()
_DICT_SLOTS = {n: getattr(dict, n) for n in DICT_METHODS}


def _set_methods():
    def m_add(s, x):
        for y in s:
            if truth(eq_any(x, y)):
                return
        set.add(s, x)
        SYMSETS[id(s)] = s

    def m_isdisjoint(s, o):
        return neg(disj([set_contains(s, x) for x in o]))

    return {
        "add": m_add,
        "isdisjoint": m_isdisjoint,
        "issubset": lambda s, o: set_subset(s, o),
        "issuperset": lambda s, o: set_subset(list(o), s),
        "intersection": lambda s, o: set_op("&", s, o),
        "union": lambda s, *os: set_op("|", s, list(itertools.chain(*os))),
        "difference": lambda s, o: set_op("-", s, o),
        "__contains__": set_contains,
    }


SET_METHODS = _set_methods()


def mcall(obj, name, /, *args, **kw):
    t = type(obj)
    if PENDING and id(obj) in PENDING and name not in ("__setitem__", "update"):
        settle(obj)
    if t is dict or (t not in SYM and issubclass(t, dict)):
        m = DICT_METHODS.get(name)
        if m is not None and getattr(t, name, None) is _DICT_SLOTS[name]:
            if id(obj) in SYMDICTS or name in ("update", "copy") or (
                    args and (type(args[0]) in SYM or type(args[0]) is tuple)):
                return m(obj, *args, **kw)
            return getattr(obj, name)(*args, **kw)
    elif t is set or t is frozenset:
        m = SET_METHODS.get(name)
        if m is not None and args and (
                set_is_sym(obj) or type(args[0]) in SYM or
                (type(args[0]) in (set, frozenset, list, tuple, dict, type({}.keys()))
                 and any(type(x) in SYM for x in args[0]))):
            if type(args[0]) is CharSet:
                if name == "issubset":
                    return args[0].superset_of(obj)
                if name in ("isdisjoint", "intersection"):
                    return getattr(args[0], name)(obj)
                args = (args[0].real(),)
            return m(obj, *args, **kw)
    elif t is str:
        if args and type(args[0]) in SYM or (name == "join" and args):
            return str_method(obj, name, args, kw)
        if name == "format":
            if any(suspicious(a) for a in args) or any(suspicious(a) for a in kw.values()):
                return str_format(obj, args, kw)
    elif t in SYM:
        if name == "__str__":
            return to_str(obj)
        if name == "__repr__":
            return to_repr(obj)
        if name == "__eq__":
            return cmp("==", obj, *args)
        if name == "__contains__":
            return contains(obj, *args)
        if name == "__len__":
            return m_len(obj)
        if name == "__class__":
            return call(obj.__class__, *args, **kw)
        return getattr(force(obj) if t is not SymType else obj, name)(*args, **kw)
    elif t is list:
        if name == "sort" and "key" in kw and kw["key"] is not None:
            kw["key"] = functools.partial(call, kw["key"])
        return getattr(obj, name)(*args, **kw)
    fn = getattr(obj, name)
    return native(fn, args, kw)


def str_method(s, name, args, kw):
    if name == "join":
        a = args[0]
        if type(a) in SYM:
            a = list(force(a))
        items = list(a)
        if any(type(x) in SYM for x in items):
            return join(s, items)
        return s.join(items)
    a = force(args[0])
    if type(a) is SymStr:
        sx = SymStr((s,)) if s else ""
        if name == "startswith" and len(args) == 1 and type(force(args[0])) is SymStr:
            return parts_prefix(force(args[0]).parts, str_parts(s))
        if name in ("startswith", "endswith") and len(args) == 1:
            from .sym import parts_term, zs
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return mkbool(f(parts_term(a.parts), zs(s)))
        if name == "__contains__":
            return contains(s, a)
        if name == "__eq__":
            return eq(s, a)
        if name == "__add__":
            return binop("+", s, a)
    return getattr(s, name)(*[concretize_deep(x, "str." + name) for x in args],
                            **{k: concretize_deep(v, "str." + name) for k, v in kw.items()})


def str_format(s, args, kw):
    import string
    out = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if spec:
                raise ValueError
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kw[field]
            else:
                raise ValueError
            v = to_repr(v) if conv == "r" else to_str(v)
            out.extend(str_parts(v))
        return mkstr(out)
    except ValueError:
        return s.format(*[concretize_deep(a, "format") for a in args],
                        **{k: concretize_deep(v, "format") for k, v in kw.items()})


def merged(tests, wanted):
    """Value of `a or b` (wanted) or `a and b` (not wanted) for tests without effects."""
    a = tests[0]()
    for f in tests[1:]:
        if type(a) is SymBool and a.kinds:
            try:
                b = f()
            except Exception:
                b = None
            if b is wanted:
                return wanted
            if b is (not wanted):
                continue
            if type(b) is SymBool and b.kinds and b.kinds[0] is a.kinds[0]:
                leaf, x = a.kinds
                y = b.kinds[1]
                a = leaf.kind_in(x | y if wanted else x & y)
                continue
        if truth(a) is wanted:
            return a
        a = f()
    return a


def either(*tests):
    return merged(tests, True)


def both(*tests):
    return merged(tests, False)


def subject(x):
    """Subject of a match statement: of definite kind."""
    x = force(x)
    if type(x) is dict and id(x) in SYMDICTS:
        m = MatchDict(x)
        SYMDICTS[id(m)] = m
        return m
    return x


def enter(fid):
    ENTERED.add(fid)


def setitem_v(v, o, k):
    setitem(o, k, v)


def chain(left, *rest):
    r = True
    for op, f in rest:
        right = f()
        r = cmp(op, left, right)
        if not truth(r):
            return r
        left = right
    return r


def resteer():
    e = sys.exc_info()[1]
    if isinstance(e, Steer):
        raise e


slice = builtins.slice


class MatchDict(dict):
    """Subject of a match statement that is a dict with symbolic keys."""

    def get(self, k, default=None):
        return dict_get(self, k, default)
