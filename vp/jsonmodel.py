"""Model of the JSON libraries at the boundary of jsonpickle.

Text is kept as a token holding the value tree it was made from; parsing the token gives a
fresh copy of that tree.  Trees without symbolic parts go through the real libraries.
Contract relied on: for JSON-native trees, loads(dumps(t)) == t with string keys, tuples as
lists, keys coerced as documented, last duplicate key wins, and text is injective in the tree.
"""
import json as _json

import z3

from .engine import ENG
from .sym import (int_text, SYM, SymBool, SymInt, SymFloat, SymStr, SymBytes, SymByteArray, SymLeaf, Tok,
                  concretize, concretize_deep, eq, force, has_sym, mkstr, kind_of, str_parts)


class Atom:
    """A concrete non-native value that the real library turned into this JSON value."""
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


def _key(k, skipkeys=False):
    k0 = k
    k = force(k)
    t = type(k)
    if t is str or t is SymStr:
        return k0 if t is str else k
    if issubclass(t, str) and t not in SYM:
        return str.__str__(k)
    if k is None:
        return "null"
    if t is SymBool:
        return "true" if k else "false"
    if k is True:
        return "true"
    if k is False:
        return "false"
    if t is SymInt:
        return SymStr((int_text(k.e),))
    if t is SymFloat:
        k = concretize(k, "float as JSON key")
    if isinstance(k, int):
        return int.__repr__(k)
    if isinstance(k, float):
        return float.__repr__(k)
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def find_key(d, k):
    """Existing key of list-of-pairs equal to k (forks), or None."""
    for i, (k2, _) in enumerate(d):
        r = eq(k2, k)
        if r if type(r) is bool else bool(r):
            return i
    return None


def snapshot(x, real, path, sort_keys):
    t = type(x)
    if t in (str, int, bool, type(None)):
        return x
    if t is float:
        return x
    if t is SymLeaf or t in (SymBool, SymInt, SymFloat, SymStr):
        return x
    if t is SymBytes or t is SymByteArray:
        # let the real library decide what to do with binary data
        return _json.loads(real(concretize(x, "binary data in JSON tree")))
    if t is list or t is tuple:
        if id(x) in path:
            raise ValueError("Circular reference detected")
        path.add(id(x))
        r = [snapshot(v, real, path, sort_keys) for v in x]
        path.discard(id(x))
        return r
    if t is dict or (isinstance(x, dict) and t not in SYM):
        if id(x) in path:
            raise ValueError("Circular reference detected")
        path.add(id(x))
        from . import hooks
        hooks.it(x)
        items = list(x.items())
        if sort_keys:
            items.sort(key=lambda kv: kv[0])
        pairs = []
        for k, v in items:
            kk = _key(k)
            vv = snapshot(v, real, path, sort_keys)
            i = find_key(pairs, kk) if len(pairs) and not _unique(x) else None
            if i is None:
                pairs.append([kk, vv])
            else:
                pairs[i][1] = vv
        path.discard(id(x))
        r = {}
        from . import hooks
        for k, v in pairs:
            dict.__setitem__(r, k, v)
            if type(k) in SYM:
                hooks.register_symdict(r)
        return r
    if has_sym_obj(x):
        x = concretize_deep(x, "foreign object in JSON tree")
    return _json.loads(real(x))


def _unique(d):
    """All keys are strings, so distinctness in the dict carries over to the JSON object."""
    return all(type(k) is str or type(k) is SymStr for k in d)


def has_sym_obj(x):
    return has_sym(x)


def make_dumps(real):
    def dumps(obj, *args, **kw):
        if not has_sym(obj):
            return real(obj, *args, **kw)
        kw = dict(kw)
        sort_keys = kw.pop("sort_keys", False)
        indent = kw.pop("indent", None)
        separators = kw.pop("separators", None)
        kw.pop("escape_forward_slashes", None)
        kw.pop("ensure_ascii", None)
        kw.pop("use_decimal", None)
        kw.pop("allow_nan", None)
        if args or kw:
            return real(concretize_deep(obj, "json options"), *args, sort_keys=sort_keys,
                        indent=indent, separators=separators, **kw)
        opts = (None if indent is None else int(indent),
                None if separators is None else tuple(separators))
        tree = snapshot(obj, real, set(), sort_keys)
        return SymStr((Tok("json", tree, opts),))
    return dumps


def copy_tree(x):
    t = type(x)
    if t is list:
        return [copy_tree(v) for v in x]
    if t is dict:
        r = {}
        sym = False
        for k, v in x.items():
            if type(k) in SYM:
                sym = True
            dict.__setitem__(r, k, copy_tree(v))
        if sym:
            from . import hooks
            hooks.register_symdict(r)
        return r
    return x


def make_loads(real):
    def loads(s, *args, **kw):
        s = force(s)
        if type(s) not in SYM:
            return real(s, *args, **kw)
        if args or {k: v for k, v in kw.items() if k != "use_decimal"}:
            return real(concretize(s, "json loads options"), *args, **kw)
        ps = s.parts
        if len(ps) == 1 and type(ps[0]) is Tok:
            if ps[0].tag == "json":
                return copy_tree(ps[0].payload)
            if ps[0].tag == "utf8" and type(s) is SymBytes:
                return loads(ps[0].payload, *args, **kw)
        return real(concretize(s, "json loads of symbolic text"), *args, **kw)
    return loads


def text(tree, opts):
    indent, separators = opts if opts else (None, None)
    return _json.dumps(tree, indent=indent, separators=separators)


def parse_canonical(c, opts):
    """(True, tree) when c is exactly the text of tree under opts."""
    try:
        v = _json.loads(c)
    except ValueError:
        return False, None
    return (text(v, opts) == c), v


def first_char(tree):
    t = type(tree)
    if t is dict:
        return "{"
    if t is list:
        return "["
    if kind_of(tree) == "s":
        return '"'
    return None
