"""Path exploration: decisions, solver queries, models.

One Engine lives per worker process.  A *path* is one execution of a scenario under a
list of forced decisions (the prefix); every decision beyond the prefix is resolved by the
solver and the feasible alternatives are reported as new prefixes.
"""
import time

import z3


class Steer(BaseException):
    """Base of exceptions that steer exploration; never caught by code under test."""


class PathAbort(Steer):
    """The current path is infeasible or was cut."""


class EngineError(Steer):
    """The engine itself cannot continue (non-determinism, internal error)."""


class Violation(Steer):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


QUERY_TIMEOUT_MS = 20000

_VARS = {}      # ast id -> (ast, names of its variables)
_SORTS = {}     # name and sort of a variable -> z3 constant
_RESULTS = {}   # ids of the constraints of a query -> result
_MODELS = {}    # ids of connected constraints -> {name: value}


def variable_name(d):
    """Scenarios may use one name for different sorts."""
    return d.name() + ":" + d.range().name()


def variables(c):
    """Names of the free variables of a formula."""
    got = _VARS.get(c.get_id())
    if got is not None:
        return got[1]
    out = set()
    seen = set()
    stack = [c]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        hit = _VARS.get(i)
        if hit is not None:
            out |= hit[1]
            continue
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = variable_name(e.decl())
                out.add(n)
                _SORTS[n] = e
        else:
            stack.extend(e.children())
    out = frozenset(out)
    _VARS[c.get_id()] = (c, out)
    return out


def default_value(v):
    s = v.sort()
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.StringSort():
        return z3.StringVal("")
    raise EngineError("sort " + str(s))


class Group:
    """Constraints connected by shared variables."""
    __slots__ = ("names", "cons")

    def __init__(self, names, cons):
        self.names = names
        self.cons = cons        # [(position, constraint)], in order


class Model:
    """Values of all variables of a path, one group of constraints at a time."""

    def __init__(self, eng):
        self.eng = eng

    def value(self, name):
        g = self.eng.groups.get(name)
        if g is not None:
            v = self.eng.group_model(g).get(name)
            if v is not None:
                return v
        return default_value(_SORTS[name])

    def eval(self, e, model_completion=True):
        names = variables(e)
        if not names:
            return z3.simplify(e)
        pairs = [(_SORTS[n], self.value(n)) for n in sorted(names)]
        r = z3.simplify(z3.substitute(e, *pairs))
        if z3.is_bool(e):
            if not (z3.is_true(r) or z3.is_false(r)):
                raise EngineError("value of a condition is not determined")
        return r


class Engine:
    def __init__(self):
        self.stats = {
            "queries": 0, "solver_s": 0.0, "unknown": 0, "branches": 0, "picks": 0,
            "forced": 0, "cuts": 0, "concretised": 0, "obligations": 0, "cached": 0,
        }
        self.cut_reasons = {}
        self.active = False

    # -- path life cycle ---------------------------------------------------
    def start(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.pc = []
        self.groups = {}      # name of variable -> Group
        self.inputs = {}      # name -> (sort tag, z3 expr)
        self.picked = {}
        self.known = {}       # ast id -> (ast, bool)
        self.serial = 0
        self.notes = []
        self.incomplete = False
        self.active = True
        self.max_decisions = 4000
        self.lazy = []        # constraints on text not looked at so far
        if len(_RESULTS) > 300000:
            _RESULTS.clear()
            _MODELS.clear()
            _VARS.clear()

    def next_serial(self):
        self.serial += 1
        return self.serial

    # -- solver ------------------------------------------------------------
    # Constraints that share no variable, directly or through others, are solved apart, and
    # the results are kept for the next path on which the same constraints occur.
    def solve(self, cons):
        t0 = time.perf_counter()
        solver = z3.SimpleSolver()
        solver.set("timeout", QUERY_TIMEOUT_MS)
        solver.add(*cons)
        r = solver.check()
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r, solver

    def related(self, names):
        gs = {}
        for n in names:
            g = self.groups.get(n)
            if g is not None:
                gs[id(g)] = g
        if not gs:
            return []
        if len(gs) == 1:
            return [c for _, c in next(iter(gs.values())).cons]
        cons = []
        for g in gs.values():
            cons.extend(g.cons)
        cons.sort(key=_position)
        return [c for _, c in cons]

    def check(self, c=None):
        """sat / unsat / unknown of the path condition plus a constraint."""
        if c is None:
            for g in {id(g): g for g in self.groups.values()}.values():
                r = self.decide([x for _, x in g.cons])
                if r != z3.sat:
                    return r
            return z3.sat
        names = variables(c)
        if not names:
            c = z3.simplify(c)
            if z3.is_true(c):
                return self.check()
            if z3.is_false(c):
                return z3.unsat
        cons = self.related(names)
        cons.append(c)
        return self.decide(cons)

    def decide(self, cons):
        key = tuple([c.get_id() for c in cons])
        r = _RESULTS.get(key)
        if r is not None:
            self.stats["cached"] += 1
            return r[0]
        r, _ = self.solve(cons)
        _RESULTS[key] = (r, cons)
        return r

    def group_model(self, g):
        key = tuple([c.get_id() for _, c in g.cons])
        m = _MODELS.get(key)
        if m is None:
            cons = [c for _, c in g.cons]
            r, solver = self.solve(cons)
            if r != z3.sat:
                if r == z3.unknown:
                    self.cut("solver gave up on a path condition")
                raise PathAbort
            zm = solver.model()
            m = {}
            for d in zm.decls():
                if d.arity() == 0:
                    m[variable_name(d)] = zm[d]
            _MODELS[key] = m
            _RESULTS[key] = (r, cons)
        return m

    def get_model(self):
        """A model of the path condition."""
        for g in {id(g): g for g in self.groups.values()}.values():
            self.group_model(g)
        return Model(self)

    def add(self, c):
        names = variables(c)
        if not names:
            c = z3.simplify(c)
            if z3.is_true(c):
                return
            raise PathAbort
        pos = len(self.pc)
        self.pc.append(c)
        gs = {}
        groups = self.groups
        for n in names:
            g = groups.get(n)
            if g is not None:
                gs[id(g)] = g
        if len(gs) == 1:
            g = next(iter(gs.values()))
            g.cons.append((pos, c))
            for n in names:
                if n not in groups:
                    groups[n] = g
                    g.names.append(n)
            return
        cons = []
        all_names = set(names)
        for g in gs.values():
            cons.extend(g.cons)
            all_names.update(g.names)
        cons.sort(key=_position)
        cons.append((pos, c))
        g = Group(list(all_names), cons)
        for n in all_names:
            groups[n] = g

    def flush(self):
        """Assert the constraints on text variables before the first use of any of them."""
        if self.lazy:
            cs, self.lazy = self.lazy, []
            for c in cs:
                self.add(c)

    def remember(self, c, val):
        self.known[c.get_id()] = (c, val)

    # -- decisions ---------------------------------------------------------
    def _record(self, d):
        self.decisions.append(d)
        if len(self.decisions) > self.max_decisions:
            self.cut("decision limit")
            raise PathAbort

    def branch(self, c):
        """Decide the truth of the z3 Bool c on this path, forking if both are feasible."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[1]
        i = len(self.decisions)
        self.stats["branches"] += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if d not in (0, 1):
                raise EngineError("non-deterministic replay of decisions")
            self._record(d)
            val = bool(d)
            self.add(c if val else z3.Not(c))
            self.remember(c, val)
            return val
        no = z3.Not(c)
        val = self.check(c) != z3.unsat
        if self.check(no) != z3.unsat:
            if val:
                self.alternatives.append(self.decisions + [0])
        elif val:
            self.stats["forced"] += 1
        else:
            raise PathAbort
        self._record(1 if val else 0)
        self.add(c if val else no)
        self.remember(c, val)
        return val

    def branch_free(self, c):
        """Like branch, for a condition both of whose values are known to be feasible."""
        k = self.known.get(c.get_id())
        if k is not None:
            return k[1]
        i = len(self.decisions)
        self.stats["branches"] += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if d not in (0, 1):
                raise EngineError("non-deterministic replay of decisions")
        else:
            d = 1
            self.alternatives.append(self.decisions + [0])
        self._record(d)
        val = bool(d)
        self.add(c if val else z3.Not(c))
        self.remember(c, val)
        return val

    def pick(self, name, options):
        """Decide an input variable with a finite domain; returns the chosen option value.

        The variable is fresh, so every option of its domain is feasible.
        """
        self.stats["picks"] += 1
        options = list(options)
        var = z3.Int(name)
        if name in self.inputs:
            raise EngineError("input %s declared twice" % name)
        self.inputs[name] = ("int", var)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not 0 <= d < len(options):
                raise EngineError("non-deterministic replay of picks")
        else:
            d = 0
            if len(options) > 1:
                base = list(self.decisions)
                for j in range(len(options) - 1, 0, -1):
                    self.alternatives.append(base + [j])
        self._record(d)
        v = options[d]
        self.picked[name] = v
        return v

    def choose(self, conds):
        """Multi-way fork over mutually exclusive z3 conditions; returns the chosen index."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not 0 <= d < len(conds):
                raise EngineError("non-deterministic replay of choices")
            self._record(d)
            self.add(conds[d])
            return d
        feas = []
        for j, c in enumerate(conds):
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                feas.append(j)
                continue
            if self.check(c) != z3.unsat:
                feas.append(j)
        if not feas:
            raise PathAbort
        self.stats["branches"] += len(feas) - 1
        for j in reversed(feas[1:]):
            self.alternatives.append(self.decisions + [j])
        self._record(feas[0])
        self.add(conds[feas[0]])
        return feas[0]

    def assume(self, c):
        """Restrict the path; abort if infeasible."""
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort
        if self.check(c) == z3.unsat:
            raise PathAbort
        self.add(c)

    def must(self, c, what):
        """Obligation: c holds on every completion of this path."""
        self.stats["obligations"] += 1
        r = self.check(z3.Not(c))
        if r == z3.sat:
            self.add(z3.Not(c))
            raise Violation(what)
        if r == z3.unknown:
            self.cut("solver gave up on an obligation")
        self.add(c)

    def cut(self, reason):
        self.stats["cuts"] += 1
        self.incomplete = True
        self.cut_reasons[reason] = self.cut_reasons.get(reason, 0) + 1

    # -- inputs ------------------------------------------------------------
    def declare(self, name, tag, expr):
        if name in self.inputs:
            raise EngineError("input %s declared twice" % name)
        self.inputs[name] = (tag, expr)
        return expr

    def model_values(self):
        """Concrete values of all declared inputs under a model of the path."""
        self.flush()
        m = self.get_model()
        out = {}
        for name, (tag, e) in self.inputs.items():
            if name in self.picked:
                out[name] = self.picked[name]
                continue
            out[name] = to_py(tag, m.eval(e, model_completion=True))
        return out

    def eval(self, e):
        return Model(self).eval(e)


def _position(pair):
    return pair[0]


def to_py(tag, v):
    if tag == "int":
        return v.as_long()
    if tag == "bool":
        return z3.is_true(v)
    if tag == "str":
        return z3str(v)
    if tag == "bytes":
        return {"bytes": [ord(c) & 255 for c in z3str(v)]}
    if tag == "float":
        return {"float": float(v.numerator_as_long()) / float(v.denominator_as_long())}
    raise EngineError("tag " + tag)


def z3str(v):
    """Python string of a z3 string literal."""
    s = v.as_string()
    if "\\" not in s:
        return s
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "\\" and s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


ENG = Engine()
