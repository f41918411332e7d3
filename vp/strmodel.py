"""Text methods on z3 strings.

A method that changes only some texts (strip, lower, replace, ...) branches on whether the text is
one of those: when it is not, the result is the text itself and stays symbolic; when it is, the text
is fixed to one witness.  Predicates (isdigit, isidentifier, ...) are decided by regular expressions
over ASCII and by a witness beyond.
"""
import z3

from . import sym
from .engine import ENG, to_py
from .sym import SymStr, SymBytes, ZV, mkstr, zs

NO = object()
TABLED = 0x17f      # case mappings are tabulated up to here


def plain(x):
    return all(type(p) in (str, ZV) for p in x.parts)


def like(x, parts):
    if type(x) is SymStr:
        return mkstr(parts)
    r = mkstr(parts)
    return SymBytes(r.parts) if type(r) is SymStr else r.encode("latin-1")


def ranges(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


_RES = {}


def one_of(chars):
    """Regular expression of one character out of some."""
    key = "".join(sorted(set(chars)))
    if key not in _RES:
        rs = [z3.Range(zs(chr(a)), zs(chr(b))) for a, b in ranges({ord(c) for c in key})]
        _RES[key] = rs[0] if len(rs) == 1 else z3.Union(*rs)
    return _RES[key]


def anything():
    return z3.Full(z3.ReSort(z3.StringSort()))


def within(t, chars):
    return z3.InRe(t, z3.Star(one_of(chars)))


def has_any(t, chars):
    return z3.InRe(t, z3.Concat(anything(), one_of(chars), anything()))


def witness(x, why):
    """The text fixed to one value."""
    out = []
    for p in x.parts:
        if type(p) is ZV:
            if p.eqc is None:
                v = ENG.eval(p.e)
                ENG.add(p.e == v)
                p.eqc = to_py("str", v)
                ENG.cut("one witness: " + why)
                ENG.stats["concretised"] += 1
            p = p.eqc
        out.append(p)
    r = "".join(out)
    return r if type(x) is SymStr else r.encode("latin-1")


def text_arg(x, a):
    """An argument as text, None if it is not concrete."""
    a = sym.force(a)
    if type(x) is SymStr:
        return a if type(a) is str else None
    return bytes(a).decode("latin-1") if type(a) in (bytes, bytearray) else None


SPACE = "".join(chr(c) for c in range(0x3001) if chr(c).isspace())


def strip(x, chars, left, right):
    if chars is None:
        cs = SPACE if type(x) is SymStr else " \t\n\r\x0b\f"
    else:
        cs = text_arg(x, chars)
        if cs is None:
            return NO
    if not cs:
        return x
    parts = list(x.parts)
    for end, on in ((0, left), (-1, right)):
        while on and parts:
            p = parts[end]
            if type(p) is ZV and p.eqc is None:
                if all(c in p.without for c in cs):
                    c = False
                else:
                    r = z3.Concat(one_of(cs), anything()) if end == 0 else z3.Concat(
                        anything(), one_of(cs))
                    c = ENG.branch(z3.InRe(p.e, r))
                if not c:
                    if len(parts) > 1 and ENG.branch(p.e == zs("")):
                        parts.pop(end)
                        continue
                    break
                p = witness(SymStr((p,)), "strip")
            elif type(p) is ZV:
                p = p.eqc
            q = p.lstrip(cs) if end == 0 else p.rstrip(cs)
            if q:
                parts[end] = q
                break
            parts.pop(end)
    return like(x, parts)


def recased(name):
    table = "".join(chr(c) for c in range(TABLED + 1) if getattr(chr(c), name)() != chr(c))
    ascii_table = "".join(c for c in table if c < "\x80")
    every = "".join(map(chr, range(TABLED + 1)))

    def method(x):
        for_bytes = type(x) is SymBytes
        parts = list(x.parts)
        for i, p in enumerate(parts):
            if type(p) is ZV and p.eqc is None:
                if not ENG.branch(has_any(p.e, ascii_table if for_bytes or p.ascii else table)):
                    if for_bytes or p.ascii or ENG.branch(within(p.e, every)):
                        continue
                p = witness(SymStr((p,)), name)
            elif type(p) is ZV:
                p = p.eqc
            parts[i] = getattr(p.encode("latin-1"), name)().decode("latin-1") if for_bytes \
                else getattr(p, name)()
        return like(x, parts)
    return method


def replace(x, old, new, count=-1):
    o, n = text_arg(x, old), text_arg(x, new)
    if o is None or n is None or not o or count == 0:
        return NO
    if len(o) == 1 and count < 0:
        parts = list(x.parts)
        for i, p in enumerate(parts):
            if type(p) is ZV and p.eqc is None:
                if o in p.without or not ENG.branch(z3.Contains(p.e, zs(o))):
                    continue
                p = witness(SymStr((p,)), "replace")
            elif type(p) is ZV:
                p = p.eqc
            parts[i] = p.replace(o, n)
        return like(x, parts)
    if any(type(p) is str and o in p for p in x.parts) or ENG.branch(
            z3.Contains(x.term(), zs(o))):
        return witness(x, "replace").replace(sym.force(old), sym.force(new), count)
    return x


def translate(x, table, *delete):
    if type(x) is not SymStr or type(table) is not dict or delete:
        return NO
    cs = "".join(chr(k) for k in table if type(k) is int)
    if not cs:
        return x
    if not any(type(p) is str and set(p) & set(cs) for p in x.parts) and not ENG.branch(
            has_any(x.term(), cs)):
        return x
    return witness(x, "translate").translate(table)


LINES = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def splitlines(x, keepends=False):
    cs = LINES if type(x) is SymStr else "\n\r"
    t = x.term()
    if ENG.branch(t == zs("")):
        return []
    if not any(type(p) is str and set(p) & set(cs) for p in x.parts) and not ENG.branch(
            has_any(t, cs)):
        return [x]
    return witness(x, "splitlines").splitlines(keepends)


def lacking(name, absent):
    """A search that gives a fixed answer when the text is not found."""
    def method(x, sub, *a):
        s = text_arg(x, sub)
        if not s or a or len(s) == 1 and sym.can_cut(x.parts, s):
            return NO
        if any(type(p) is str and s in p for p in x.parts) or ENG.branch(
                z3.Contains(x.term(), zs(s))):
            return getattr(witness(x, name), name)(sym.force(sub))
        if absent is ValueError:
            raise ValueError("substring not found")
        return absent
    return method


ASCII = "".join(map(chr, range(128)))


def rest(pattern):
    """Texts made of the ASCII characters with a property, at least one."""
    return lambda: z3.Plus(one_of([c for c in ASCII if getattr(c, pattern)()]))


def cased(want, other):
    a = [c for c in ASCII if not getattr(c, other)()]
    b = [c for c in ASCII if getattr(c, want)()]
    return lambda: z3.Concat(z3.Star(one_of(a)), one_of(b), z3.Star(one_of(a)))


def identifier():
    head = [c for c in ASCII if c.isidentifier()]
    tail = [c for c in ASCII if ("a" + c).isidentifier()]
    return z3.Concat(one_of(head), z3.Star(one_of(tail)))


def printable():
    return z3.Star(one_of([c for c in ASCII if c.isprintable()]))


PREDICATES = {
    "isdigit": rest("isdigit"), "isdecimal": rest("isdigit"), "isnumeric": rest("isdigit"),
    "isalpha": rest("isalpha"), "isalnum": rest("isalnum"), "isspace": rest("isspace"),
    "isupper": cased("isupper", "islower"), "islower": cased("islower", "isupper"),
    "isidentifier": identifier, "isprintable": printable,
}


def predicate(name, make):
    def method(x):
        if type(x) is SymBytes and name in ("isidentifier", "isprintable", "isdecimal",
                                            "isnumeric", "isspace"):
            return NO
        t = x.term()
        if ENG.branch(z3.InRe(t, make())):
            return True
        if type(x) is SymBytes or ENG.branch(within(t, ASCII)):
            return False
        return getattr(witness(x, name), name)()
    return method


def isascii(x):
    if any(type(p) is str and not p.isascii() for p in x.parts):
        return False
    return ENG.branch(within(x.term(), ASCII))


METHODS = {
    "strip": lambda x, chars=None: strip(x, chars, True, True),
    "lstrip": lambda x, chars=None: strip(x, chars, True, False),
    "rstrip": lambda x, chars=None: strip(x, chars, False, True),
    "lower": recased("lower"), "upper": recased("upper"), "swapcase": recased("swapcase"),
    "replace": replace, "translate": translate, "splitlines": splitlines,
    "count": lacking("count", 0), "rfind": lacking("rfind", -1),
    "rindex": lacking("rindex", ValueError), "isascii": isascii,
}
METHODS["casefold"] = recased("casefold")
METHODS.update({name: predicate(name, make) for name, make in PREDICATES.items()})


def add(cls, name, f):
    old = getattr(cls, name, None)

    def method(self, *a, **k):
        if plain(self):
            r = f(self, *a, **k)
            if r is not NO:
                return r
        if old is not None:
            return old(self, *a, **k)
        real = sym.concretize(self, name)
        return getattr(real, name)(*[sym.concretize_deep(v, name) for v in a],
                                   **{n: sym.concretize_deep(v, name) for n, v in k.items()})
    method.__name__ = name
    setattr(cls, name, method)


def install():
    for name, f in METHODS.items():
        for cls in (SymStr, SymBytes):
            if hasattr(str if cls is SymStr else bytes, name):
                add(cls, name, f)


install()
