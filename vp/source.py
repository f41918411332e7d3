"""The two faces of a scenario's inputs: symbolic (explored) and concrete (replayed).

A scenario is a function of one argument S.  It asks S for inputs by name, drives the public
API of the library, and states obligations with S.check / S.iso.  Run with SymS it is explored
symbolically; run with ConS it is an ordinary test on one assignment of the inputs.
"""
import warnings as _warnings

from . import iso as _iso


class Failed(BaseException):
    """Concrete counterpart of engine.Violation."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Skip(BaseException):
    """Concrete counterpart of an assumption that does not hold."""


class Base:
    def __init__(self, params):
        self.params = params
        self.observed = []
        self.reached = set()

    def p(self, name, default=None):
        return self.params.get(name, default)

    def reach(self, tag):
        self.reached.add(tag)

    def flag(self, name):
        return self.pick(name, 2) == 1

    def fail(self, what):
        self.check(False, what)

    def obs(self, value):
        """Record a value for comparison between symbolic run and concrete replay."""
        if len(self.observed) < 12:
            self.observed.append(value)

    def same(self, a, b, what):
        """Equal values of equal types (no identity tracking)."""
        self.iso(a, b, what, identity=False)


class SymS(Base):
    sym = True

    def __init__(self, params):
        super().__init__(params)
        from . import engine, hooks, sym
        self.E = engine.ENG
        self.Y = sym
        self.H = hooks

    def int(self, name, lo=None, hi=None):
        return self.Y.new_int(name, lo, hi)

    def bool(self, name):
        return self.Y.new_bool(name)

    def float(self, name):
        return self.Y.new_float(name)

    def bytes(self, name, n=None):
        """Bytes of any length, or of length n with every byte symbolic."""
        if n is not None:
            from . import vec
            return vec.new_bytes(name, n)
        return self.Y.new_bytes(name)

    def text(self, name, n, hi=0x2ff):
        """Text of n symbolic characters."""
        from . import vec
        return vec.new_text(name, n, hi)

    def char(self, chars, i):
        """The character of a constant text at a symbolic position."""
        if type(i) is int:
            return chars[i]
        from . import vec
        return vec.text([vec.Alphabet(chars).char(i.e)])

    def str(self, name, nopre=(), neq=(), minlen=0, without=""):
        s = self.Y.new_str(name)
        z = s.parts[0]
        import z3
        z.without = without
        for c in without:
            self.E.lazy.append(z3.Not(z3.Contains(z.raw, self.Y.zs(c))))
        for p in nopre:
            self.E.lazy.append(z3.Not(z3.PrefixOf(self.Y.zs(p), z.raw)))
            z.npre.add(p)
        for c in neq:
            if not any(c.startswith(p) for p in nopre):
                self.E.lazy.append(z.raw != self.Y.zs(c))
            z.neq.add(c)
        if minlen:
            self.E.lazy.append(z3.Length(z.raw) >= minlen)
        return s

    def distinct(self, k, keys):
        """Assume text k differs from every text in keys."""
        Y = self.Y
        z = k.single() if type(k) is Y.SymStr else None
        for k2 in keys:
            z2 = k2.single() if type(k2) is Y.SymStr else None
            if z is not None and z2 is not None:
                if z2 is z:
                    self.assume(False)
                self.E.lazy.append(z.raw != z2.raw)
                Y.zv_differ(z, z2)
            elif z is not None and type(k2) is str and z.eqc is None:
                self.E.lazy.append(z.raw != Y.zs(k2))
                z.neq.add(k2)
            else:
                self.assume(Y.neg(Y.eq(k, k2)))

    def leaf(self, name, kinds="nbifs"):
        return self.Y.SymLeaf(name, tuple(kinds))

    def pick(self, name, options):
        if type(options) is int:
            return self.E.pick(name, range(options))
        options = list(options)
        return options[self.E.pick(name, range(len(options)))]

    def assume(self, cond):
        if type(cond) is self.Y.SymBool:
            self.E.assume(cond.e)
            if cond.on_true is not None:
                cond.on_true()
        elif not cond:
            from .engine import PathAbort
            raise PathAbort

    def check(self, cond, what):
        if type(cond) is self.Y.SymBool:
            self.E.must(cond.e, what)
            if cond.on_true is not None:
                cond.on_true()
            return
        self.E.stats["obligations"] += 1
        if not cond:
            from .engine import Violation
            raise Violation(what)

    def iso(self, a, b, what, **opts):
        conds, err = _iso.compare(a, b, **opts)
        if err:
            self.check(False, "%s: %s" % (what, err))
        self.check(self.Y.conj(conds), what + ": a value differs")

    def warned(self):
        r = list(self.H.RECORDED_WARNINGS)
        self.H.RECORDED_WARNINGS.clear()
        return r

    def evals(self):
        return list(self.H.EVALS)


class ConS(Base):
    sym = False

    def __init__(self, params, values):
        super().__init__(params)
        self.values = values

    def _v(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return self._v(name, d)

    def bool(self, name):
        return self._v(name, False)

    def float(self, name):
        return self._v(name, {"float": 0.0})["float"]

    def bytes(self, name, n=None):
        if n is not None:
            return bytes([self._v("%s.%d" % (name, i), 0) for i in range(n)])
        return bytes(self._v(name, {"bytes": []})["bytes"])

    def text(self, name, n, hi=0x2ff):
        return "".join([chr(self._v("%s.%d" % (name, i), 65)) for i in range(n)])

    def char(self, chars, i):
        return chars[i]

    def str(self, name, nopre=(), neq=(), minlen=0, without=""):
        return self._v(name, "")

    def leaf(self, name, kinds="nbifs"):
        k = "nbifs"[self._v(name + ".k", "nbifs".index(kinds[0]))]
        if k == "n":
            return None
        if k == "b":
            return self.bool(name + ".b")
        if k == "i":
            return self.int(name + ".i")
        if k == "f":
            return self.float(name + ".f")
        return self.str(name + ".s")

    def pick(self, name, options):
        if type(options) is int:
            return self._v(name, 0)
        return list(options)[self._v(name, 0)]

    def distinct(self, k, keys):
        for k2 in keys:
            if k == k2:
                raise Skip

    def assume(self, cond):
        if not cond:
            raise Skip

    def check(self, cond, what):
        if not cond:
            raise Failed(what)

    def iso(self, a, b, what, **opts):
        conds, err = _iso.compare(a, b, **opts)
        if err:
            raise Failed("%s: %s" % (what, err))
        if not all(conds):
            raise Failed(what + ": a value differs")

    def warned(self):
        r = [(w.category, str(w.message)) for w in self.log]
        del self.log[:]
        return r

    def evals(self):
        return list(EVALS)


EVALS = []


def run_concrete(fn, params, values):
    """Run one scenario natively: (status, what, observations)."""
    S = ConS(params, values)
    del EVALS[:]
    with _warnings.catch_warnings(record=True) as log:
        _warnings.simplefilter("always")
        S.log = log
        try:
            fn(S)
        except Failed as e:
            return "violation", e.what, S
        except Skip:
            return "skip", "", S
        except Exception as e:  # noqa: BLE001
            return "exception", "%s: %s" % (type(e).__name__, e), S
    return "ok", "", S
