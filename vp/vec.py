"""Text and bytes of known length whose characters are symbolic codes.

Every character is an atom holding a z3 integer term, so that slicing, stripping, replacing,
translating and the base64 and base85 codecs can be carried out on the codes themselves.
"""
import binascii
import re

import z3

from . import strmodel, sym   # noqa: F401  (its methods are wrapped here)
from .engine import ENG
from .sym import (SymByteArray, SymBytes, SymInt, SymStr, conj, disj, force, mkbool, mkstr, neg)

NO = object()
OPAQUE = False      # treat base64 and base85 text as a whole instead of by character


class Ch:
    """One character (or byte) given by its code."""
    __slots__ = ("code", "src")
    ascii = False
    tag = "ch"

    def __init__(self, code, src=None):
        self.code = code
        self.src = src          # (alphabet, index term) when made by an encoder

    def term(self):
        return z3.StrFromCode(self.code)

    def length(self):
        return z3.IntVal(1)


def codes(x):
    """Codes (int or z3 term) of text or bytes of known length, None if there are other atoms."""
    t = type(x)
    if t is str:
        return [ord(c) for c in x]
    if t in (bytes, bytearray):
        return list(x)
    if t is SymByteArray:
        x = x.b
    elif t not in (SymStr, SymBytes):
        return None
    out = []
    for p in x.parts:
        if type(p) is str:
            out.extend(ord(c) for c in p)
        elif type(p) is Ch:
            out.append(p)
        else:
            return None
    return out


def is_vec(x):
    return type(x) in (SymStr, SymBytes) and any(type(p) is Ch for p in x.parts) and all(
        type(p) in (str, Ch) for p in x.parts)


def atom(c):
    """Atom for a code: an int, a z3 term or an existing atom."""
    if type(c) is int:
        return chr(c)
    if type(c) is Ch:
        return c
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return chr(c.as_long())
    return Ch(c)


def text(cs):
    return mkstr([atom(c) for c in cs])


def data(cs):
    parts = sym.norm_parts([atom(c) for c in cs])
    if all(type(p) is str for p in parts):
        return "".join(parts).encode("latin-1")
    return SymBytes(parts)


def like(x, cs):
    return text(cs) if type(x) is SymStr else data(cs)


def term(c):
    return z3.IntVal(c) if type(c) is int else c.code if type(c) is Ch else c


def same(c, d):
    """Equality of two codes as bool or SymBool."""
    if type(c) is int and type(d) is int:
        return c == d
    if c is d:
        return True
    if type(c) is Ch and type(d) is Ch and c.src and d.src and c.src[0] is d.src[0]:
        return mkbool(z3.simplify(c.src[1] == d.src[1]))
    return mkbool(z3.simplify(term(c) == term(d)))


def one_of(c, ds):
    return disj([same(c, d) for d in ds])


def vec_eq(a, b):
    """Equality of two code lists."""
    if len(a) != len(b):
        return False
    return conj([same(c, d) for c, d in zip(a, b)])


def parts_eq(a, b):
    """Equality of two atom sequences made of characters only, None if there are other atoms."""
    ca, cb = codes(SymStr(tuple(a))), codes(SymStr(tuple(b)))
    if ca is None or cb is None:
        return None
    return vec_eq(ca, cb)


def arg(x, s):
    """Codes of an argument of the same kind as s."""
    x = force(x)
    if type(s) is SymStr:
        if type(x) not in (str, SymStr):
            return None
    elif type(x) not in (bytes, bytearray, SymBytes, SymByteArray):
        return None
    return codes(x)


WS = [9, 10, 11, 12, 13, 32]


def strip(x, chars, left, right):
    cs = codes(x)
    ds = (WS + [28, 29, 30, 31, 133, 160] if type(x) is SymStr else WS) if chars is None else arg(chars, x)
    if ds is None:
        return NO
    lo, hi = 0, len(cs)
    while left and lo < hi and one_of(cs[lo], ds):
        lo += 1
    while right and lo < hi and one_of(cs[hi - 1], ds):
        hi -= 1
    return like(x, cs[lo:hi])


def replace(x, old, new, count=-1):
    cs, o, n = codes(x), arg(old, x), arg(new, x)
    if o is None or n is None or not o:
        return NO
    if len(o) == 1 and len(n) == 1 and count == -1:
        return like(x, [replaced(c, o[0], n[0]) for c in cs])
    out = []
    i = 0
    while i < len(cs):
        if count != 0 and vec_eq(cs[i:i + len(o)], o):
            out += n
            i += len(o)
            count -= 1
        else:
            out.append(cs[i])
            i += 1
    return like(x, out)


def replaced(c, o, n):
    r = same(c, o)
    if r is True:
        return n
    if r is False:
        return c
    return z3.If(r.e, term(n), term(c))


def translate(x, table, *delete, **kw):
    if kw or delete and delete[0]:
        return NO
    table = force(table)
    if type(x) is SymBytes:
        if type(table) is not bytes or len(table) != 256:
            return NO
        moves = {i: c for i, c in enumerate(table) if i != c}
    else:
        if type(table) is not dict or not all(
                type(k) is int and (type(v) is int or v is None or type(v) is str and len(v) == 1)
                for k, v in table.items()):
            return NO
        moves = {k: ord(v) if type(v) is str else v for k, v in table.items()}
    out = []
    for c in codes(x):
        if None in moves.values() and one_of(c, [k for k, v in moves.items() if v is None]):
            continue
        if type(c) is int:
            out.append(moves.get(c, c))
            continue
        t = term(c)
        for k, v in moves.items():
            if v is not None:
                t = z3.If(term(c) == k, z3.IntVal(v), t)
        out.append(t)
    return like(x, out)


def split(x, sep=None, maxsplit=-1):
    cs = codes(x)
    out = []
    cur = []
    if sep is None:
        if maxsplit != -1:
            return NO
        for c in cs:
            if one_of(c, WS):
                if cur:
                    out.append(cur)
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(cur)
        return [like(x, p) for p in out]
    d = arg(sep, x)
    if not d:
        return NO
    i = 0
    while i < len(cs):
        if (maxsplit < 0 or len(out) < maxsplit) and vec_eq(cs[i:i + len(d)], d):
            out.append(cur)
            cur = []
            i += len(d)
        else:
            cur.append(cs[i])
            i += 1
    out.append(cur)
    return [like(x, p) for p in out]


def splitlines(x, keepends=False):
    if keepends:
        return NO
    cs = codes(x)
    ends = [10, 13] if type(x) is SymBytes else [10, 11, 12, 13, 28, 29, 30, 133, 0x2028, 0x2029]
    out = []
    cur = []
    prev = None
    for c in cs:
        if prev is not None and same(prev, 13) and same(c, 10):
            prev = None
            continue
        prev = c
        if one_of(c, ends):
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    if cur:
        out.append(cur)
    return [like(x, p) for p in out]


def count(x, sub, *a):
    d = arg(sub, x)
    if a or not d:
        return NO
    return len(split(x, sub)) - 1


def find(x, sub, *a):
    cs = codes(x)
    if type(x) is SymBytes and type(force(sub)) in (int, SymInt):
        d = [num(sub)]
    else:
        d = arg(sub, x)
    if a or d is None:
        return NO
    for i in range(len(cs) - len(d) + 1):
        if vec_eq(cs[i:i + len(d)], d):
            return i
    return -1


def num(i):
    i = force(i)
    return i if type(i) is int else i.e


def contains(x, sub):
    cs = codes(x)
    if type(x) is SymBytes and type(force(sub)) in (int, SymInt):
        return one_of_term(cs, num(sub))
    d = arg(sub, x)
    if d is None:
        return NO
    return disj([vec_eq(cs[i:i + len(d)], d) for i in range(len(cs) - len(d) + 1)])


def one_of_term(cs, n):
    return disj([same(c, n) for c in cs])


def startswith(x, p, *a):
    p = force(p)
    if type(p) is tuple:
        return disj([startswith(x, q, *a) for q in p])
    d = arg(p, x)
    if a or d is None:
        return NO
    cs = codes(x)
    return len(d) <= len(cs) and vec_eq(cs[:len(d)], d)


def endswith(x, p, *a):
    p = force(p)
    if type(p) is tuple:
        return disj([endswith(x, q, *a) for q in p])
    d = arg(p, x)
    if a or d is None:
        return NO
    cs = codes(x)
    return len(d) <= len(cs) and vec_eq(cs[len(cs) - len(d):], d)


def getitem(x, i):
    i = force(i)
    cs = codes(x)
    if type(i) is slice:
        ks = [force(k) for k in (i.start, i.stop, i.step)]
        if any(k is not None and type(k) is not int for k in ks):
            return NO
        return like(x, cs[slice(*ks)])
    if type(i) is not int:
        return NO
    c = cs[i]
    if type(x) is SymStr:
        return text([c])
    return c if type(c) is int else SymInt(term(c))


def iterate(x):
    if type(x) is SymStr:
        return iter([text([c]) for c in codes(x)])
    return iter([c if type(c) is int else SymInt(term(c)) for c in codes(x)])


def length(x):
    return len(codes(x))


def truth(x):
    return len(codes(x)) > 0


def recased(x, lo, hi, d):
    """ASCII case mapping; text with other characters is left to the caller."""
    cs = codes(x)
    if type(x) is SymStr and not all_ascii(cs):
        return NO
    return like(x, [c if type(c) is int and not lo <= c <= hi else c + d if type(c) is int else
                    z3.If(z3.And(term(c) >= lo, term(c) <= hi), term(c) + d, term(c)) for c in cs])


def lower(x):
    return recased(x, 65, 90, 32)


def upper(x):
    return recased(x, 97, 122, -32)


def all_ascii(cs):
    return bool(conj([c < 128 if type(c) is int else True if c.src else mkbool(
        z3.simplify(term(c) < 128)) for c in cs]))


def isascii(x):
    return all_ascii(codes(x))


def norm(encoding):
    return encoding.lower().replace("-", "").replace("_", "")


def decode(x, encoding="utf-8", errors="strict"):
    cs = codes(x)
    e = norm(encoding)
    if e in ("latin1", "iso88591"):
        return text(cs)
    if e not in ("ascii", "usascii", "utf8"):
        return NO
    if all_ascii(cs):
        return text(cs)
    if e == "utf8" or errors != "strict":
        return NO
    raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")


def encode(x, encoding="utf-8", errors="strict"):
    cs = codes(x)
    e = norm(encoding)
    if e in ("latin1", "iso88591"):
        if bool(conj([c < 256 if type(c) is int else mkbool(z3.simplify(term(c) < 256)) for c in cs])):
            return data(cs)
        return NO
    if e not in ("ascii", "usascii", "utf8"):
        return NO
    if all_ascii(cs):
        return data(cs)
    if e == "utf8" or errors != "strict":
        return NO
    raise UnicodeEncodeError("ascii", "", 0, 1, "ordinal not in range(128)")


def hexed(x, *a):
    if a:
        return NO
    out = []
    for c in codes(x):
        if type(c) is int:
            out += [ord(d) for d in "%02x" % c]
        else:
            out += [HEX.char(term(c) / 16), HEX.char(term(c) % 16)]
    return text(out)


METHODS = {
    "strip": lambda x, chars=None: strip(x, chars, True, True),
    "lstrip": lambda x, chars=None: strip(x, chars, True, False),
    "rstrip": lambda x, chars=None: strip(x, chars, False, True),
    "replace": replace, "translate": translate, "split": split, "splitlines": splitlines,
    "count": count, "find": find, "contains": contains, "startswith": startswith,
    "endswith": endswith, "__getitem__": getitem, "__iter__": iterate, "length": length,
    "__len__": length, "__bool__": truth, "lower": lower, "upper": upper, "isascii": isascii,
    "decode": decode, "encode": encode, "hex": hexed,
}


def add(cls, name, f):
    old = getattr(cls, name, None)

    def method(self, *a, **k):
        if self.parts and type(self.parts[0]) in (Ch, str) and is_vec(self):
            r = f(self, *a, **k)
            if r is not NO:
                return r
        if old is not None:
            return old(self, *a, **k)
        real = sym.concretize(self, name)
        return getattr(real, name)(*[sym.concretize_deep(v, name) for v in a],
                                   **{n: sym.concretize_deep(v, name) for n, v in k.items()})
    method.__name__ = name
    setattr(cls, name, method)


def install():
    for name, f in METHODS.items():
        for cls in (SymStr, SymBytes):
            if name == "decode" and cls is SymStr or name in ("encode",) and cls is SymBytes:
                continue
            if name == "hex" and cls is SymStr:
                continue
            add(cls, name, f)


def new_text(name, n, hi):
    """n symbolic characters."""
    return text(new_codes(name, n, hi))


def new_bytes(name, n):
    """n symbolic bytes."""
    return data(new_codes(name, n, 255))


def new_codes(name, n, hi):
    cs = []
    for i in range(n):
        v = ENG.declare("%s.%d" % (name, i), "int", z3.Int("%s.%d" % (name, i)))
        ENG.add(z3.And(v >= 0, v <= hi))
        cs.append(v)
    return cs


# --------------------------------------------------------------------------- codecs
class Alphabet:
    """Characters for 0..n-1, as runs of consecutive codes."""

    def __init__(self, chars):
        self.chars = chars
        self.runs = []
        for i, c in enumerate(chars):
            if self.runs and ord(c) - i == self.runs[-1][2]:
                self.runs[-1][1] = i
            else:
                self.runs.append([i, i, ord(c) - i])

    def char(self, v):
        """Atom for a digit."""
        if type(v) is int:
            return ord(self.chars[v])
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return ord(self.chars[v.as_long()])
        t = v + self.runs[-1][2]
        for lo, hi, d in reversed(self.runs[:-1]):
            t = z3.If(v <= hi, v + d, t)
        return Ch(t, (self, v))

    def has(self, c):
        if type(c) is int:
            return chr(c) in self.chars
        if c.src and c.src[0] is self:
            return True
        t = term(c)
        return mkbool(z3.simplify(z3.Or([z3.And(t >= lo + d, t <= hi + d) for lo, hi, d in self.runs])))

    def digit(self, c):
        """Digit of a character known to belong to the alphabet."""
        if type(c) is int:
            return self.chars.index(chr(c))
        if c.src and c.src[0] is self:
            return c.src[1]
        t = term(c)
        r = t - self.runs[-1][2]
        for lo, hi, d in self.runs[:-1]:
            r = z3.If(z3.And(t >= lo + d, t <= hi + d), t - d, r)
        return r


STD = Alphabet("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
URL = Alphabet("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
HEX = Alphabet("0123456789abcdef")
UPPER = Alphabet("0123456789ABCDEF")
B85 = Alphabet("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
               "!#$%&()*+-;<=>?@^_`{|}~")


SPEC = re.compile("0([0-9]+)([xXd])")


def format_int(v, spec):
    """Digits of a nonnegative number that fits the width."""
    m = SPEC.fullmatch(spec) if type(spec) is str else None
    v = force(v)
    if m is None or type(v) is not SymInt:
        return NO
    n = int(m[1])
    base = 10 if m[2] == "d" else 16
    if not (v >= 0 and v < base ** n):
        return NO
    al = UPPER if m[2] == "X" else HEX
    return text([al.char(v.e / base ** k % base) for k in range(n - 1, -1, -1)])


def parse_int(x, base=10):
    cs = codes(x)
    if base not in (10, 16) or not cs:
        return NO
    n = 0
    for c in cs:
        for al in (HEX, UPPER):
            if al.has(c):
                d = al.digit(c)
                break
        else:
            return NO
        if base == 10 and not (d < 10 if type(d) is int else mkbool(z3.simplify(d < 10))):
            raise ValueError("invalid literal for int()")
        n = n * base + d
    n = z3.simplify(n) if type(n) is not int else n
    return n if type(n) is int else n.as_long() if z3.is_int_value(n) else SymInt(n)


def div(a, k):
    return a // k if type(a) is int else a / k


def b64encode(x, alphabet=STD):
    cs = [c if type(c) is int else term(c) for c in codes(x)]
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i:i + 3]
        pad = 3 - len(g)
        a, b, c = g + [0] * pad
        ds = [div(a, 4), a % 4 * 16 + div(b, 16), b % 16 * 4 + div(c, 64), c % 64]
        q = [alphabet.char(d) for d in ds]
        out += q[:4 - pad] + [61] * pad
    return data(out)


def b64decode(x, alphabet=STD):
    cs = codes(x)
    if type(x) is SymStr and not all_ascii(cs):
        raise ValueError("string argument should contain only ASCII characters")
    out = []
    pos = pads = left = 0
    for c in cs:
        if same(c, 61):
            if pos >= 2:
                pads += 1
                if pos + pads >= 4:
                    return data(out)
            continue
        if not alphabet.has(c):
            continue
        pads = 0
        v = alphabet.digit(c)
        if pos == 0:
            left = v
        elif pos == 1:
            out.append(left * 4 + div(v, 16))
            left = v % 16
        elif pos == 2:
            out.append(left * 16 + div(v, 4))
            left = v % 4
        else:
            out.append(left * 64 + v)
            left = 0
        pos = (pos + 1) % 4
    if pos:
        raise binascii.Error("Incorrect padding")
    return data(out)


def b85encode(x):
    cs = [c if type(c) is int else term(c) for c in codes(x)]
    pad = -len(cs) % 4
    cs += [0] * pad
    out = []
    for i in range(0, len(cs), 4):
        a, b, c, d = cs[i:i + 4]
        word = w = ((a * 256 + b) * 256 + c) * 256 + d
        ds = []
        for k in range(5):
            x = B85.char(w % 85)
            if type(x) is Ch:
                x.src = x.src + (word, k)
            ds.append(x)
            w = div(w, 85)
        out += reversed(ds)
    return data(out[:len(out) - pad])


def b85decode(x):
    cs = codes(x)
    if type(x) is SymStr and not all_ascii(cs):
        raise ValueError("string argument should contain only ASCII characters")
    pad = -len(cs) % 5
    cs = cs + [126] * pad
    out = []
    for i in range(0, len(cs), 5):
        w = 0
        for c in cs[i:i + 5]:
            if not B85.has(c):
                raise ValueError("bad base85 character")
            w = w * 85 + B85.digit(c)
        g = cs[i:i + 5]
        if all(type(c) is Ch and c.src and len(c.src) == 4 and c.src[3] == 4 - k and c.src[2] is g[
                0].src[2] for k, c in enumerate(g)):
            # the five base 85 digits of a number below 2**32, in order
            w = g[0].src[2]
        over = w > 0xffffffff if type(w) is int else mkbool(z3.simplify(w > 0xffffffff))
        if over:
            raise ValueError("base85 overflow")
        out += [div(w, 1 << 24), div(w, 1 << 16) % 256, div(w, 1 << 8) % 256, w % 256]
    return data(out[:len(out) - pad] if pad else out)



install()
