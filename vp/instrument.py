"""Source instrumentation and import of the code under test.

Modules are read from the working tree on every run, rewritten so that calls, comparisons,
subscripts, operators and text formatting go through vp.hooks, compiled and executed under
their real names.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

from . import hooks

REPO = os.environ.get("VP_REPO", "/repo")
SCEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "scen")

_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&",
    ast.BitXor: "^", ast.MatMult: "@",
}
_NATIVE_NOARG = {"super", "locals", "globals", "vars", "dir"}


def c(v):
    return ast.Constant(v)


def hook(name, *args, keywords=()):
    return ast.Call(
        ast.Attribute(ast.Name("__vp__", ast.Load()), name, ast.Load()),
        list(args), list(keywords))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, cover):
        self.modname = modname
        self.cover = cover
        self.classes = []
        self.scope = []
        self.ntmp = 0
        self.functions = []

    # -- names
    def mangle(self, name):
        if self.classes and name.startswith("__") and not name.endswith("__"):
            cn = self.classes[-1].lstrip("_")
            if cn:
                return "_%s%s" % (cn, name)
        return name

    def generic_list(self, nodes):
        out = []
        for n in nodes:
            r = self.visit(n)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    # -- definitions
    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def _function(self, node):
        qual = ".".join([n for n, _ in self.scope] + [node.name])
        self.visit(node.args)
        self.scope.append((node.name, "f"))
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        body = self.generic_list(body)
        if self.cover:
            fid = "%s:%s" % (self.modname, qual)
            self.functions.append(fid)
            body = [ast.Expr(hook("enter", c(fid)))] + body
        node.body = doc + (body or [ast.Pass()])
        self.scope.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        self.visit(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        self.scope.append((node.name, "c"))
        node.body = self.generic_list(node.body)
        self.scope.pop()
        self.classes.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_TypeAlias(self, node):
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name):
            if f.id in _NATIVE_NOARG and (f.id == "super" or not (args or kws)):
                return ast.copy_location(ast.Call(f, args, kws), node)
            return ast.copy_location(hook("call", f, *args, keywords=kws), node)
        if isinstance(f, ast.Attribute):
            return ast.copy_location(
                hook("mcall", self.visit(f.value), c(self.mangle(f.attr)), *args, keywords=kws),
                node)
        return ast.copy_location(hook("call", self.visit(f), *args, keywords=kws), node)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rights = [self.visit(x) for x in node.comparators]
        if len(rights) == 1:
            r = hook("cmp", c(_CMP[type(node.ops[0])]), left, rights[0])
        else:
            r = hook("chain", left, *[
                ast.Tuple([c(_CMP[type(o)]), ast.Lambda(_noargs(), x)], ast.Load())
                for o, x in zip(node.ops, rights)])
        return ast.copy_location(r, node)

    def visit_BinOp(self, node):
        return ast.copy_location(
            hook("binop", c(_BIN[type(node.op)]), self.visit(node.left), self.visit(node.right)),
            node)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(
                ast.Attribute(ast.Name("__vp__", ast.Load()), "slice", ast.Load()),
                [self.visit(x) if x is not None else c(None)
                 for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, ast.Tuple) and any(isinstance(x, (ast.Slice, ast.Starred))
                                            for x in s.elts):
            return ast.Tuple([self._index(x) for x in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                hook("getitem", self.visit(node.value), self._index(node.slice)), node)
        return self.generic_visit(node)

    def visit_JoinedStr(self, node):
        pieces = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                pieces.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else c("")
                pieces.append(ast.Tuple([self.visit(v.value), c(conv), spec], ast.Load()))
        return ast.copy_location(hook("fstr", *pieces), node)

    def visit_Set(self, node):
        return ast.copy_location(
            hook("mkset", ast.List([self.visit(e) for e in node.elts], ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(hook("mkset", ast.ListComp(node.elt, node.generators)), node)

    def visit_Dict(self, node):
        if all(isinstance(k, ast.Constant) for k in node.keys):
            node.values = [self.visit(v) for v in node.values]
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            kk = self.visit(k) if k is not None else ast.Attribute(
                ast.Name("__vp__", ast.Load()), "SPREAD", ast.Load())
            pairs.append(ast.Tuple([kk, self.visit(v)], ast.Load()))
        return ast.copy_location(hook("mkdict", ast.List(pairs, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            hook("mkdict", ast.ListComp(
                ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_comprehension(self, node):
        node.iter = hook("it", self.visit(node.iter))
        node.target = self.visit(node.target)
        node.ifs = [self.visit(x) for x in node.ifs]
        return node

    # -- statements
    def visit_For(self, node):
        node.iter = ast.copy_location(hook("it", self.visit(node.iter)), node.iter)
        node.target = self.visit(node.target)
        node.body = self.generic_list(node.body)
        node.orelse = self.generic_list(node.orelse)
        return node

    def tmp(self):
        self.ntmp += 1
        return "_vp_t%d_" % self.ntmp

    def _store(self, target, value, at):
        """Statements storing expression `value` (a Name) into `target`."""
        if isinstance(target, ast.Subscript):
            return [ast.copy_location(ast.Expr(hook(
                "setitem_v", value, self.visit(target.value), self._index(target.slice))), at)]
        if isinstance(target, (ast.Tuple, ast.List)) and _has_subscript(target) and not any(
                isinstance(x, ast.Starred) for x in target.elts):
            names = [self.tmp() for _ in target.elts]
            out = [ast.copy_location(ast.Assign(
                [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], value), at)]
            for n, t in zip(names, target.elts):
                out.extend(self._store(t, ast.Name(n, ast.Load()), at))
            return out
        return [ast.copy_location(ast.Assign([self.visit(target)], value), at)]

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if not any(_has_subscript(t) for t in node.targets):
            node.targets = [self.visit(t) for t in node.targets]
            node.value = value
            return node
        if len(node.targets) == 1:
            return self._store(node.targets[0], value, node)
        n = self.tmp()
        out = [ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], value), node)]
        for t in node.targets:
            out.extend(self._store(t, ast.Name(n, ast.Load()), node))
        return out

    def visit_AugAssign(self, node):
        op = c(_BIN[type(node.op)])
        value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                [t], hook("iop", op, ast.Name(t.id, ast.Load()), value)), node)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(hook(
                "augattr", self.visit(t.value), c(self.mangle(t.attr)), op, value)), node)
        return ast.copy_location(ast.Expr(hook(
            "augitem", self.visit(t.value), self._index(t.slice), op, value)), node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(hook(
                    "delitem", self.visit(t.value), self._index(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), node))
        return out

    def visit_ExceptHandler(self, node):
        if node.type is not None:
            node.type = self.visit(node.type)
        body = self.generic_list(node.body)
        if node.type is None or (isinstance(node.type, ast.Name)
                                 and node.type.id == "BaseException"):
            body = [ast.Expr(hook("resteer"))] + body
        node.body = body
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if node.attr == "__class__" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(hook("class_of", node.value), node)
        return node

    def visit_BoolOp(self, node):
        pure = [_kind_test(v) for v in node.values]
        if any(a and b for a, b in zip(pure, pure[1:])) and self.scope and self.scope[-1][1] == "f":
            # neighbouring tests of the kind of a value are decided together
            name = "either" if isinstance(node.op, ast.Or) else "both"
            out = []
            for v, p in zip(node.values, pure):
                v = self.visit(v)
                if p and out and out[-1][1]:
                    out[-1][0].append(v)
                else:
                    out.append(([v], p))
            vs = [hook(name, *[ast.Lambda(_noargs(), v) for v in g]) if len(g) > 1 else g[0]
                  for g, _ in out]
            return ast.copy_location(ast.BoolOp(node.op, vs) if len(vs) > 1 else vs[0], node)
        return self.generic_visit(node)

    def visit_Match(self, node):
        if all(_plain_pattern(x.pattern) for x in node.cases):
            return self._match_as_if(node)
        node.subject = hook("subject", self.visit(node.subject))
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            case.body = self.generic_list(case.body)
        return node

    def _match_as_if(self, node):
        """A match over constants and classes, as the comparisons it stands for."""
        self.ntmp += 1
        name = "_vp_subject%d" % self.ntmp
        out = [ast.copy_location(ast.Assign([ast.Name(name, ast.Store())],
                                            self.visit(node.subject)), node)]
        tail = out
        for case in node.cases:
            test = _pattern_test(case.pattern, name)
            if case.guard is not None:
                test = case.guard if test is None else ast.BoolOp(ast.And(), [test, case.guard])
            if test is None:
                tail.extend(self.generic_list(case.body))
                break
            n = ast.copy_location(ast.If(self.visit(test), self.generic_list(case.body), []), case.pattern)
            tail.append(n)
            tail = n.orelse
        return out


def _plain_pattern(p):
    if isinstance(p, ast.MatchOr):
        return all(_plain_pattern(x) and not isinstance(x, ast.MatchAs) for x in p.patterns)
    if isinstance(p, ast.MatchClass):
        return not p.patterns and not p.kwd_patterns
    if isinstance(p, ast.MatchAs):
        return p.pattern is None and p.name is None
    return isinstance(p, (ast.MatchValue, ast.MatchSingleton))


def _pattern_test(p, name):
    """Condition under which a plain pattern matches, None if always."""
    n = ast.Name(name, ast.Load())
    if isinstance(p, ast.MatchAs):
        return None
    if isinstance(p, ast.MatchValue):
        return ast.Compare(n, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(n, [ast.Is()], [c(p.value)])
    if isinstance(p, ast.MatchClass):
        return ast.Call(ast.Name("isinstance", ast.Load()), [n, p.cls], [])
    if all(isinstance(x, ast.MatchValue) for x in p.patterns):
        return ast.Compare(n, [ast.In()], [ast.Tuple([x.value for x in p.patterns], ast.Load())])
    return ast.BoolOp(ast.Or(), [_pattern_test(x, name) for x in p.patterns])


def _kind_test(n):
    """Is this an expression like isinstance(x, T) or type(x) is T?"""
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return _kind_test(n.operand)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance":
        return not n.keywords and len(n.args) == 2 and isinstance(n.args[0], ast.Name)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        left, op, right = n.left, n.ops[0], n.comparators[0]
        if not isinstance(right, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.Set)) \
                and not _type_of(right):
            return False
        if isinstance(op, (ast.Is, ast.IsNot)):
            return isinstance(left, ast.Name) or _type_of(left)
        if isinstance(op, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)):
            return _type_of(left)
    return False


def _type_of(n):
    return (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "type"
            and len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.Constant)))


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=[])


def _has_subscript(t):
    if isinstance(t, ast.Subscript):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_has_subscript(x) for x in t.elts)
    return False


FUNCTIONS = []     # every function encoded


def compile_module(src, path, modname, cover):
    tree = ast.parse(src, path)
    rw = Rewriter(modname, cover)
    tree.body = rw.generic_list(tree.body)
    ast.fix_missing_locations(tree)
    FUNCTIONS.extend(rw.functions)
    code = compile(tree, path, "exec")
    _register(code)
    return code


def _register(code):
    hooks.INSTR.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _register(k)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        base = None
        if name == "jsonpickle" or name.startswith("jsonpickle."):
            base, rel = REPO, name.split(".")
        elif name in HARNESS or name.split(".")[0] in HARNESS:
            base, rel = SCEN, name.split(".")
        if base is None:
            return None
        p = os.path.join(base, *rel)
        if os.path.isdir(p):
            file = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, file, loader=self, submodule_search_locations=[p])
        file = p + ".py"
        if os.path.exists(file):
            return importlib.util.spec_from_file_location(name, file, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path, encoding="utf-8") as f:
            src = f.read()
        name = module.__name__
        code = compile_module(src, path, name, name.startswith("jsonpickle"))
        module.__dict__["__vp__"] = hooks
        exec(code, module.__dict__)


HARNESS = set()


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
