"""The order of sets as a schedule the solver picks.

Modules are imported with every iteration over a set, every set.pop(), every
id() and hash() going through this module.  While a path of an Explorer is being
run, the elements of a set come in the order of solver integers that nothing
constrains: every comparison the iteration needs is a decision of the solver."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import sys

import z3

ACTIVE = [None]  # the Explorer in charge
EVENTS = {}

CONSUME = {"list", "tuple", "iter", "enumerate", "zip", "map", "filter", "sorted", "max", "min", "next", "dict", "sum",
           "deque", "OrderedSet", "reduce", "any", "all"}
CONSUME_ATTR = {"extend", "join", "fromkeys", "from_iterable", "chain", "product", "permutations", "combinations"}


class Rewriter(ast.NodeTransformer):
    def wrap(self, fn, x):
        return ast.copy_location(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[x], keywords=[]), x)

    def where(self, node):
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.wrap("__aev_it__", node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.wrap("__aev_it__", node.iter)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self.wrap("__aev_it__", node.value)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = self.wrap("__aev_it__", node.value)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = self.wrap("__aev_it__", node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        name = f.id if isinstance(f, ast.Name) else None
        attr = f.attr if isinstance(f, ast.Attribute) else None
        if name in CONSUME or attr in CONSUME_ATTR or attr in CONSUME:
            node.args = [a if isinstance(a, ast.Starred) else self.wrap("__aev_it__", a) for a in node.args]
        if name in ("id", "hash") and len(node.args) == 1:
            f.id = f"__aev_{name}__"
        if attr == "__hash__" and not node.args:
            return self.wrap("__aev_hash__", f.value)
        if attr == "pop" and not node.args and not node.keywords:
            return self.wrap("__aev_pop__", f.value)
        for k in node.keywords:
            # key=id, key=hash
            if isinstance(k.value, ast.Name) and k.value.id in ("id", "hash"):
                k.value.id = f"__aev_{k.value.id}__"
        return node


# ------------------------------------------------------------------- run time
def canon(x):
    """A sort key of an object that is the same in every run."""
    from aesara.graph.basic import Apply, Variable

    if isinstance(x, Variable):
        return (0, int(x.auto_name.rsplit("_", 1)[1]), "")
    if isinstance(x, Apply):
        return (1, int(x.outputs[0].auto_name.rsplit("_", 1)[1]), "")
    if isinstance(x, (str, int, float)):
        return (2, 0, repr(x))
    if isinstance(x, type):
        return (3, 0, x.__module__ + x.__qualname__)
    if isinstance(x, tuple):
        return (4, len(x), repr([canon(e) for e in x]))
    s = str(x)
    return (5, 0, type(x).__qualname__ + (s if " at 0x" not in s else ""))


def less(ex, label, a, b):
    """Does a come before b (in the order that `label` names)?"""
    if a == b:
        return False
    return ex.decide(z3.Int(f"order {label} {a}") < z3.Int(f"order {label} {b}"))


def order(ex, xs):
    keys = sorted((canon(x), k) for k, x in enumerate(xs))
    xs = [xs[k] for _, k in keys]
    label = "|".join(str(c) for c, _ in keys)
    ex.sets = getattr(ex, "sets", 0) + 1
    EVENTS[label] = EVENTS.get(label, 0) + 1
    if len(xs) > ex.width:
        # a rotation or a reversal of long sets
        r = [x for x in xs]
        if ex.decide(z3.Bool(f"reversed {label}")):
            r = r[::-1]
        if ex.decide(z3.Bool(f"rotated {label}")):
            r = r[1:] + r[:1]
        return r
    if ("distinct", label) not in ex.known:
        ex.known.add(("distinct", label))
        ex.solver.add(z3.Distinct(*[z3.Int(f"order {label} {i}") for i in range(len(xs))]))
    out = []
    for i in range(len(xs)):
        # insertion sort by the solver's order
        k = len(out)
        while k > 0 and less(ex, label, i, out[k - 1]):
            k -= 1
        out.insert(k, i)
    return [xs[i] for i in out]


def it(x):
    ex = ACTIVE[0]
    if ex is not None and type(x) in (set, frozenset) and len(x) > 1:
        return order(ex, builtins.list(x))
    return x


def pop(x):
    ex = ACTIVE[0]
    if ex is not None and type(x) is set and len(x) > 1:
        e = order(ex, builtins.list(x))[0]
        x.remove(e)
        return e
    return x.pop()


class Address(int):
    """An address or hash: a number like others, compared as the solver likes."""

    obj = None
    term = None  # of numbers computed from addresses

    def z(self):
        return self.term if self.term is not None else z3.Int(f"address {canon(self.obj)}")

    def _cmp(op):
        def f(self, other):
            ex = ACTIVE[0]
            plain = getattr(int, op)(int(self), other)
            if ex is None or not isinstance(other, int):
                return plain
            if self.term is None and (not isinstance(other, Address) or other.term is None):
                # two addresses: equal only if the objects are
                if not isinstance(other, Address) or op in ("__eq__", "__ne__") or int(self) == int(other):
                    return plain
                if canon(self.obj) == canon(other.obj):
                    return plain
                x, y = self.z(), other.z()
                key = ("differ", *sorted((str(x), str(y))))
                if key not in ex.known:
                    ex.known.add(key)
                    ex.solver.add(x != y)
            else:
                x, y = self.z(), other.z() if isinstance(other, Address) else z3.IntVal(int(other))
            c = {"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y, "__eq__": x == y, "__ne__": x != y}[op]
            return ex.decide(c)

        return f

    __lt__, __le__, __gt__, __ge__ = _cmp("__lt__"), _cmp("__le__"), _cmp("__gt__"), _cmp("__ge__")
    __eq__, __ne__ = _cmp("__eq__"), _cmp("__ne__")
    __hash__ = int.__hash__

    def made(self, value, term):
        if ACTIVE[0] is None:
            return value
        r = Address(value)
        r.term = term
        return r

    def __mod__(self, k):
        if type(k) is not int or k <= 0:
            return int(self) % k
        return self.made(int(self) % k, self.z() % k)

    def __neg__(self):
        return self.made(-int(self), -self.z())

    def __and__(self, k):
        if type(k) is int and k > 0 and (k & (k + 1)) == 0:
            return self % (k + 1)
        return int(self) & k

    def __bool__(self):
        if ACTIVE[0] is None or self.term is None:
            return int(self) != 0
        return ACTIVE[0].decide(self.z() != 0)

    del _cmp


def address(f):
    def g(x):
        r = f(x)
        if ACTIVE[0] is None or isinstance(x, int):
            return r
        r = Address(r)
        r.obj = x
        return r

    return g


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Rewriter().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        # never from a cache of the unchanged source
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        self.loaded.append(name)
        return spec


def install(prefixes):
    builtins.__aev_it__ = it
    builtins.__aev_pop__ = pop
    builtins.__aev_id__ = address(id)
    builtins.__aev_hash__ = address(hash)
    late = [p for p in prefixes if p in sys.modules]
    if late:
        raise RuntimeError(f"{late} imported too early")
    f = Finder(tuple(prefixes))
    sys.meta_path.insert(0, f)
    return f
