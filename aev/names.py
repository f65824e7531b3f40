"""Symbolic strings: real code runs on them, every comparison it makes is
decided by the solver, and both outcomes are explored where both are possible."""
import time

import z3

from .core import Unsupported
from .solve import STATS


class Explorer:
    """Runs a function once per feasible combination of outcomes."""

    def __init__(self, max_paths=5000):
        self.max_paths = max_paths
        self.length = 1  # of every non-empty name, when asked for
        self.asked_length = False

    def ask(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.time += time.time() - t
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
            raise Unsupported("the solver does not decide a comparison of names")
        return r == z3.sat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.memo:
            return self.memo[key][0]
        yes = self.ask(cond)
        no = self.ask(z3.Not(cond))
        if yes and no:
            i = len(self.taken)
            r = self.prefix[i] if i < len(self.prefix) else True
            self.taken.append(r)
            self.pc.append(cond if r else z3.Not(cond))
            self.solver.add(self.pc[-1])
        else:
            r = yes
        self.memo[key] = (r, cond)
        return r

    def entails(self, goal):
        """None if the path condition entails the goal, else a model."""
        if not self.ask(z3.Not(goal)):
            return None
        return self.solver.model()

    def rank(self, key):
        """Where the name is in the order of names (0 is the empty one)."""
        if key not in self.ranks:
            r = z3.Int(f"rank_{key}")
            self.ranks[key] = r
            self.solver.add(r >= 0)
            if self.strings:
                self.link(key)
        return self.ranks[key]

    def string(self, key):
        """The characters of the name, needed for more than comparisons."""
        self.rank(key)
        if not self.strings:
            self.strings = True
            for k in self.ranks:
                self.link(k)
        return z3.String(f"name_{key}")

    def link(self, key):
        s, r = z3.String(f"name_{key}"), self.ranks[key]
        self.solver.add((r == 0) == (s == z3.StringVal("")))
        for k, q in self.ranks.items():
            if k != key:
                self.solver.add((r == q) == (s == z3.String(f"name_{k}")))

    def plain(self, key, model):
        """The name in a model."""
        if self.strings:
            return model.eval(z3.String(f"name_{key}"), model_completion=True).as_string()
        r = model.eval(z3.Int(f"rank_{key}"), model_completion=True).as_long()
        return f"n{r:03}" if r > 0 else ""

    def run(self, f):
        """f() runs once per path; yields nothing, f looks at this object."""
        todo, n = [[]], 0
        while todo:
            self.prefix = todo.pop()
            self.taken, self.pc, self.memo = [], [], {}
            self.ranks, self.strings = {}, False
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)
            if f() is False:
                return n + 1
            n += 1
            if n > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            for i in range(len(self.prefix), len(self.taken)):
                todo.append(self.taken[:i] + [not self.taken[i]])
        return n


class SymStr(str):
    """A string of unknown value.  Its plain value is a placeholder."""

    def __new__(cls, ex, key):
        s = super().__new__(cls, f"\x00{key}\x00")
        s.ex = ex
        s.key = str(key)
        return s

    @staticmethod
    def key_of(x):
        if isinstance(x, SymStr):
            return x.key
        if isinstance(x, str) and len(x) > 2 and x[0] == x[-1] == "\x00":
            return x[1:-1]
        return None

    def cmp(self, other, f, literal=None):
        k = SymStr.key_of(other)
        if k is not None:
            return self.ex.decide(f(self.ex.rank(self.key), self.ex.rank(k)))
        if not isinstance(other, str):
            return NotImplemented
        if other == "":
            return self.ex.decide(f(self.ex.rank(self.key), z3.IntVal(0)))
        if literal is None:
            raise Unsupported("order of a symbolic name and a literal")
        return self.ex.decide(literal(self.ex.string(self.key), z3.StringVal(other)))

    def __eq__(self, other):
        return self.cmp(other, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 0

    def __bool__(self):
        return self.ex.decide(self.ex.rank(self.key) != 0)

    def __len__(self):
        self.ex.asked_length = True
        return self.ex.length if self else 0

    def __lt__(self, other):
        return self.cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self.cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self.cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self.cmp(other, lambda a, b: a >= b)

    def strip(self, *a):
        if a:
            raise Unsupported("str.strip of a symbolic name")
        # a name of blanks only is a name: code that strips it treats it as none
        blank = self.ex.decide(z3.InRe(self.ex.string(self.key), z3.Star(z3.Re(" "))))
        return "" if blank else self

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            raise Unsupported("str.startswith of a symbolic name")
        return self.ex.decide(z3.PrefixOf(z3.StringVal(p), self.ex.string(self.key)))

    def endswith(self, p, *a):
        if a or not isinstance(p, str):
            raise Unsupported("str.endswith of a symbolic name")
        return self.ex.decide(z3.SuffixOf(z3.StringVal(p), self.ex.string(self.key)))

    def __contains__(self, p):
        return self.ex.decide(z3.Contains(self.ex.string(self.key), z3.StringVal(p)))

    def _no(name):
        def f(self, *a, **k):
            raise Unsupported(f"str.{name} of a symbolic name")

        return f

    for _n in ("lower", "upper", "casefold", "lstrip", "rstrip", "split", "rsplit", "partition", "replace", "encode",
               "isidentifier", "isspace", "isalnum", "isalpha", "find", "index", "count", "__getitem__", "__iter__",
               "title", "capitalize", "swapcase", "translate"):
        locals()[_n] = _no(_n)
    del _n, _no
