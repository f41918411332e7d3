"""Bounded object graphs whose shape, sharing and leaves are inputs of a scenario."""
import vpmodels as M

PLAIN_KEY = ("py/", "json://")


TAGS = ["py/bytes", "py/bytea", "py/b64", "py/b85", "py/function", "py/id", "py/initargs",
        "py/iterator", "py/mod", "py/newargs", "py/newargsex", "py/newobj", "py/object",
        "py/property", "py/reduce", "py/default_factory", "py/ref", "py/repr", "py/seq", "py/set",
        "py/state", "py/tuple", "py/type"]

FREE = {"bytes", "bytearray", "type", "function", "module", "enum", "range"}


class G:
    """Builds one value.

    kinds    names of composite kinds allowed
    nodes    number of composite values
    width    largest number of children
    leaf     kinds of primitive leaves ("nbifs" subset)
    share    allow a place to hold an earlier finished object again
    cycles   allow a place to hold an object that is still being built
    extra    kinds that do not count as nodes (bytes, type, function, module, enum)
    """

    def __init__(self, S, kinds, nodes, width=2, depth=4, leaf="i", share=True, cycles=False,
                 name="g", keypre=PLAIN_KEY, keys="sym", extra=None, minwidth=0, leaves=99, attrs=True,
                 keyneq=()):
        self.S = S
        self.kinds = kinds
        self.left = nodes
        self.width = width
        self.depth = depth
        self.leaf = leaf
        self.share = share
        self.cycles = cycles
        self.name = name
        self.objs = []
        self.open = []
        self.keypre = keypre
        self.keyneq = keyneq
        self.keys = keys
        self.extra = extra or ()
        self.minwidth = minwidth
        self.subattrs = attrs
        self.leaves = leaves
        self.nleaf = 0
        self.nkey = 0
        self.used = set()
        self.shared = False
        self.cyclic = False

    def build(self):
        return self.value(self.name, self.depth, top=True)

    # -- positions
    def value(self, path, depth, top=False, hashable=False):
        S = self.S
        opts = []
        if not top:
            opts.append("leaf")
            if not hashable:
                opts.extend(self.extra)
        if not hashable:
            if self.left > 0 and depth > 0:
                opts.extend(self.kinds)
        elif self.left > 0 and depth > 0 and "tuple" in self.kinds:
            opts.append("tuple")
        if not hashable:
            for i in range(len(self.objs)):
                if self.objs[i][1]:
                    if self.share:
                        opts.append(i)
                elif self.cycles:
                    opts.append(i)
        o = opts[0] if len(opts) == 1 else S.pick(path, opts)
        if o == "leaf":
            return self.make_leaf(path)
        if type(o) is int:
            if self.objs[o][1]:
                self.shared = True
            else:
                self.cyclic = True
            return self.objs[o][0]
        if o not in FREE:
            self.left -= 1
        self.used.add(o)
        return getattr(self, "mk_" + o)(path, depth - 1, hashable)

    def make_leaf(self, path):
        self.nleaf += 1
        if self.nleaf > self.leaves:
            return self.nleaf
        if len(self.leaf) == 1:
            return self.one(path + ".v", self.leaf)
        return self.S.leaf(path + ".v", self.leaf)

    def one(self, path, k):
        if k == "i":
            return self.S.int(path)
        if k == "s":
            return self.S.str(path)
        if k == "b":
            return self.S.bool(path)
        if k == "f":
            return self.S.float(path)
        return None

    def count(self, path):
        if self.minwidth == self.width:
            return self.width
        return self.S.pick(path + "#", list(range(self.minwidth, self.width + 1)))

    def reg(self, obj):
        ent = [obj, False]
        self.objs.append(ent)
        return ent

    def key(self, path):
        self.nkey += 1
        if self.keys == "sym":
            return self.S.str(path + "k", nopre=self.keypre, neq=self.keyneq)
        return "k%d" % self.nkey

    # -- built-in kinds
    def mk_list(self, path, depth, h):
        r = []
        ent = self.reg(r)
        for i in range(self.count(path)):
            r.append(self.value(path + str(i), depth))
        ent[1] = True
        return r

    def mk_tuple(self, path, depth, h):
        items = []
        for i in range(self.count(path)):
            items.append(self.value(path + str(i), depth, hashable=h))
        return tuple(items)

    def mk_set(self, path, depth, h):
        items = []
        for i in range(self.count(path)):
            items.append(self.value(path + str(i), depth, hashable=True))
        return set(items)

    def mk_dict(self, path, depth, h):
        r = {}
        ent = self.reg(r)
        for i in range(self.count(path)):
            k = self.key(path + str(i))
            self.S.distinct(k, r)
            r[k] = self.value(path + str(i), depth)
        ent[1] = True
        return r

    def mk_bytes(self, path, depth, h):
        return self.S.bytes(path + ".by")

    def mk_bytearray(self, path, depth, h):
        return bytearray(self.S.bytes(path + ".ba"))

    def mk_type(self, path, depth, h):
        return self.S.pick(path + ".ty", [M.Plain, M.Outer.Inner, int])

    def mk_function(self, path, depth, h):
        return M.func

    def mk_module(self, path, depth, h):
        return M.math

    def mk_enum(self, path, depth, h):
        return M.Color.RED

    # -- instances whose attributes are assigned after creation
    def attrs(self, obj, path, depth, names=("a", "b"), need=False):
        ent = self.reg(obj)
        n = len(names) if need else self.count(path)
        for i in range(min(n, len(names))):
            setattr(obj, names[i], self.value(path + str(i), depth))
        ent[1] = True
        return obj

    def mk_plain(self, path, depth, h):
        return self.attrs(M.Plain(), path, depth)

    def mk_slots(self, path, depth, h):
        return self.attrs(M.Slots(), path, depth)

    def mk_slotskid(self, path, depth, h):
        return self.attrs(M.SlotsKid(), path, depth, ("c", "a"))

    def mk_statedict(self, path, depth, h):
        return self.attrs(M.StateDict(), path, depth)

    def mk_statetuple(self, path, depth, h):
        return self.attrs(M.StateTuple(), path, depth, need=True)

    def mk_statelist(self, path, depth, h):
        return self.attrs(M.StateList(), path, depth, need=True)

    def mk_stateonly(self, path, depth, h):
        return self.attrs(M.StateOnly(), path, depth)

    def mk_reduce3(self, path, depth, h):
        o = M.rebuild(M.Reduce3)
        return self.attrs(o, path, depth)

    def mk_reduceex(self, path, depth, h):
        o = M.rebuild(M.ReduceEx)
        return self.attrs(o, path, depth)

    # -- instances that need their parts first
    def mk_reduce2(self, path, depth, h):
        items = [self.value(path + str(i), depth) for i in range(self.count(path))]
        o = M.Reduce2(*items)
        self.reg(o)[1] = True
        return o

    def mk_newargs(self, path, depth, h):
        o = M.NewArgs(self.value(path + "0", depth))
        ent = self.reg(o)
        if self.count(path) > 1:
            o.b = self.value(path + "1", depth)
        ent[1] = True
        return o

    def mk_newargsex(self, path, depth, h):
        a = self.value(path + "0", depth)
        k = self.value(path + "1", depth)
        o = M.NewArgsEx(a, k=k)
        self.reg(o)[1] = True
        return o

    def mk_newargsexpos(self, path, depth, h):
        o = M.NewArgsExPos(self.value(path + "0", depth))
        self.reg(o)[1] = True
        return o

    def mk_nt(self, path, depth, h):
        o = M.NT(self.value(path + "0", depth), self.value(path + "1", depth))
        self.reg(o)[1] = True
        return o

    # -- container subclasses
    def mk_listsub(self, path, depth, h):
        o = M.ListSub()
        ent = self.reg(o)
        for i in range(self.count(path)):
            o.append(self.value(path + str(i), depth))
        if self.subattrs and self.S.flag(path + "!"):
            o.extra = self.value(path + "x", depth)
        ent[1] = True
        return o

    def mk_dictsub(self, path, depth, h):
        o = M.DictSub()
        ent = self.reg(o)
        for i in range(self.count(path)):
            k = self.key(path + str(i))
            self.S.distinct(k, o)
            o[k] = self.value(path + str(i), depth)
        if self.subattrs and self.S.flag(path + "!"):
            o.extra = self.value(path + "x", depth)
        ent[1] = True
        return o

    def mk_setsub(self, path, depth, h):
        o = M.SetSub()
        ent = self.reg(o)
        for i in range(self.count(path)):
            o.add(self.value(path + str(i), depth, hashable=True))
        if self.subattrs and self.S.flag(path + "!"):
            o.extra = self.value(path + "x", depth)
        ent[1] = True
        return o


# -- deep and wide values
CHAIN = ["list", "dict", "plain", "tuple", "slots", "listsub", "dictsub", "statedict"]


def held(kind, v, i=0):
    """A value of the kind that holds v."""
    if kind == "list":
        return [v]
    if kind == "dict":
        return {"k%d" % i: v}
    if kind == "tuple":
        return (v, i)
    if kind == "listsub":
        r = M.ListSub()
        r.append(v)
        return r
    if kind == "dictsub":
        r = M.DictSub()
        r["k"] = v
        return r
    r = {"plain": M.Plain, "slots": M.Slots, "statedict": M.StateDict}[kind]()
    r.a = v
    return r


def chain(S, v, short, long, kinds=CHAIN, name="chain"):
    """v inside holders: up to `short` levels of any kinds, or one of the depths in `long` of
    two kinds in turn."""
    n = S.pick(name, list(range(short + 1)) + list(long))
    if n <= short:
        for i in range(n):
            v = held(S.pick("%s%d" % (name, i), kinds), v, i)
        return v
    a = S.pick(name + "a", kinds)
    b = S.pick(name + "b", kinds)
    for i in range(n):
        v = held(b if i % 2 else a, v, i)
    return v


SIZES = (10, 21, 70, 260)


def bulk(S, kinds, x, sizes=SIZES, name="bulk"):
    """A container with many items, one of which is x."""
    kind = S.pick(name, kinds)
    n = S.pick(name + "n", list(sizes))
    at = S.pick(name + "at", [0, 8, n // 2, n - 1])
    # of another kind than x, since each comparison with x is a decision
    text = isinstance(x, (int, float))
    items = [x if i == at else "s%d" % i if text else i for i in range(n)]
    if kind == "list":
        return items
    if kind == "tuple":
        return tuple(items)
    if kind == "set":
        return set(items)
    if kind == "dict":
        return {"k%d" % i: v for i, v in enumerate(items)}
    if kind == "listsub":
        return M.ListSub(items)
    if kind == "setsub":
        return M.SetSub(items)
    if kind == "dictsub":
        r = M.DictSub()
        for i, v in enumerate(items):
            r["k%d" % i] = v
        return r
    r = {"plain": M.Plain, "statedict": M.StateDict}[kind]()
    for i, v in enumerate(items):
        setattr(r, "a%d" % i, v)
    return r
