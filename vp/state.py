"""Reset of the library's module-level state between paths."""
import functools
import sys
import types

_PREFIX = ("jsonpickle", "vpmodels", "vpgrid", "backend_stubs")


def _mine(modname):
    return bool(modname) and modname.split(".")[0] in _PREFIX


class Snapshot:
    """Shallow copies of every mutable container reachable from the library's globals,
    classes, function defaults and instances of its classes."""

    def __init__(self):
        self.saved = []
        self.caches = []
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            if _mine(name) and isinstance(mod, types.ModuleType):
                self.walk_dict(vars(mod), top=True)

    def walk_dict(self, d, top=False):
        if id(d) in self.seen:
            return
        self.seen.add(id(d))
        self.saved.append((d, dict(d)))
        for k, v in list(d.items()):
            if top and (k.startswith("__") or k == "__vp__"):
                continue
            self.walk(v)

    def walk(self, v):
        t = type(v)
        if t is dict or t.__name__ == "OrderedDict":
            self.walk_dict(v)
        elif t is list or t is set:
            if id(v) not in self.seen:
                self.seen.add(id(v))
                self.saved.append((v, t(v)))
                for x in v:
                    self.walk(x)
        elif t is tuple:
            for x in v:
                self.walk(x)
        elif isinstance(v, types.FunctionType):
            if _mine(v.__module__) and id(v) not in self.seen:
                self.seen.add(id(v))
                for x in (v.__defaults__ or ()):
                    self.walk(x)
                for x in (v.__kwdefaults__ or {}).values():
                    self.walk(x)
                if v.__dict__:
                    self.walk_dict(v.__dict__)
                for c in (v.__closure__ or ()):
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, types.MethodType):
            self.walk(v.__self__)
            self.walk(v.__func__)
        elif isinstance(v, type):
            if _mine(v.__module__) and id(v) not in self.seen:
                self.seen.add(id(v))
                self.saved.append((v, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self.walk(x)
        elif hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
            if id(v) not in self.seen:
                self.seen.add(id(v))
                self.caches.append(v)
        elif isinstance(v, (staticmethod, classmethod)):
            self.walk(v.__func__)
        elif _mine(getattr(t, "__module__", "")):
            d = getattr(v, "__dict__", None)
            if type(d) is dict:
                self.walk_dict(d)

    def restore(self):
        for obj, copy in self.saved:
            t = type(obj)
            if t is dict:
                if len(obj) != len(copy) or obj.keys() != copy.keys() or any(
                        obj[k] is not copy[k] for k in copy):
                    obj.clear()
                    obj.update(copy)
            elif t is list:
                if len(obj) != len(copy) or any(a is not b for a, b in zip(obj, copy)):
                    obj[:] = copy
            elif t is set:
                if obj != copy:
                    obj.clear()
                    obj.update(copy)
            elif isinstance(obj, type):
                cur = obj.__dict__
                for k in list(cur):
                    if k not in copy:
                        try:
                            delattr(obj, k)
                        except (AttributeError, TypeError):
                            pass
                for k, v in copy.items():
                    if k in ("__dict__", "__weakref__"):
                        continue
                    if cur.get(k) is not v:
                        try:
                            setattr(obj, k, v)
                        except (AttributeError, TypeError):
                            pass
            else:
                obj.clear()
                obj.update(copy)
        for c in self.caches:
            c.cache_clear()
