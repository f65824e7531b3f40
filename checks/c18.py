"""C18: Polya-Gamma variables pass their parameters and generator through."""
import contextlib
import sys
from fractions import Fraction

import aesara
import aesara.tensor as at
import numpy as np
import polyagamma as library
from aesara.tensor.random import RandomStream

from aemcmc.dists import polyagamma

from aev import core, pyvalue
from aev.core import Unsupported
from aev.env import Case, Claim, Dom
from aev.report import Check, Violation, real

REAL = library.random_polyagamma

check = Check(
    "C18",
    "the Polya-Gamma variable",
    assumptions=[
        "polyagamma.random_polyagamma(h, z) draws every element of its result independently from PG(h, z) with broadcasting as documented, using the generator it is given and nothing else (C library, trusted)",
        "PG(h, z) = PG(h, -z)",
        "its 'devroye' method is exact for integer h, 'alternate' and 'saddle' for h >= 1",
        "real arithmetic",
    ],
    bounds="h, z: all positive reals / all reals, arrays of up to 3 dimensions with lengths 0 to 3, every pair of broadcastable shapes of the list; sizes none, given and symbolic; both kinds of generators; float32 and float64",
    functions=["aemcmc.dists.PolyaGammaRV.__call__", "aemcmc.dists.PolyaGammaRV.rng_fn", "aesara's RandomVariable.make_node and perform for it"],
)


class Draw:
    def __init__(self, h, z, rng, method):
        self.h, self.z, self.rng, self.method = h, z, rng, method


class Recorder:
    """Stands for random_polyagamma: element k of all results is the number k + 1."""

    def __init__(self):
        self.draws = []

    def __call__(self, h=1.0, z=0.0, *, size=None, out=None, method=None, disable_checks=False, random_state=None):
        if out is not None or method not in (None, "devroye", "alternate", "saddle"):
            raise Unsupported("a form of random_polyagamma that has no encoding")
        if misread(h, z, size):
            h, z = LOST, LOST
        h, z = np.asarray(h, dtype=object), np.asarray(z, dtype=object)
        shape = np.broadcast_shapes(h.shape, z.shape)
        if size is not None:
            size = (int(size),) if np.ndim(size) == 0 else tuple(int(k) for k in size)
            if np.broadcast_shapes(shape, size) != size:
                raise ValueError("size does not match the parameters")
            shape = size
        h, z = np.broadcast_to(h, shape), np.broadcast_to(z, shape)
        o = np.empty(shape)
        for i in np.ndindex(*shape):
            self.draws.append(Draw(h[i], z[i], random_state, method))
            o[i] = len(self.draws)
        return o

    def find(self, x):
        if not isinstance(x, (int, float)) or x != x or abs(x) > 1e9:
            return None
        k = int(x)
        return self.draws[k - 1] if k == x and 0 < k <= len(self.draws) else None


LOST = float("nan")


def misread(h, z, size):
    """Without a size the library goes through memory and stops where h does."""
    if size is not None:
        return False
    arrays = [a for a in (h, z) if isinstance(a, np.ndarray)]
    if any(not a.flags.c_contiguous or not a.flags.writeable for a in arrays):
        return True
    return np.size(h) == 1 and np.broadcast_shapes(np.shape(h), np.shape(z)) != np.shape(h) and np.ndim(h) > 0


class Observer:
    """The real library, watched."""

    def __init__(self):
        self.draws = []
        self.values = []

    def __call__(self, h=1.0, z=0.0, **kw):
        if misread(h, z, kw.get("size")):
            shape = np.broadcast_shapes(np.shape(h), np.shape(z))
            self.draws.append(Draw(LOST, LOST, None, None))
            self.values.append(0.5)
            return np.full(shape, 0.5)
        x = REAL(h, z, **kw)
        shape = np.shape(x)
        hb, zb = np.broadcast_to(h, shape), np.broadcast_to(z, shape)
        for i in np.ndindex(*shape):
            self.draws.append(Draw(hb[i].item(), zb[i].item(), kw.get("random_state"), kw.get("method")))
            self.values.append(np.asarray(x)[i].item())
        return x

    def find(self, x):
        for d, v in zip(self.draws, self.values):
            if x in (v, float(np.float32(v))):
                return d
        return None


@contextlib.contextmanager
def library_is(f):
    spots = []
    for nm, mod in list(sys.modules.items()):
        if nm.split(".")[0] in ("aemcmc", "polyagamma"):
            for a, v in list(vars(mod).items()):
                if v is REAL:
                    spots.append((mod, a))
    try:
        for mod, a in spots:
            setattr(mod, a, f)
        yield
    finally:
        for mod, a in spots:
            setattr(mod, a, REAL)


def bits(rng):
    for a in ("_bit_generator", "bit_generator"):
        if hasattr(rng, a):
            return getattr(rng, a)
    return rng


def performed(node, rng, ins):
    """What the node's own perform makes of the inputs."""
    store = [[None], [None]]
    node.op.perform(node, [rng, *ins], store)
    return store[0][0], store[1][0]


def item(E, x):
    if not E.symbolic:
        return x
    x = pyvalue.raw(x)
    return None if isinstance(x, float) else x


def pg_case(name, make, inputs, dom, expect, shape, size=None, kind="generator", floatX="float64", layout=None):
    """make() -> the variable; expect(E) -> (h, z) arrays of the given shape."""

    def spec(E):
        with aesara.config.change_flags(floatX=floatX):
            var = make()
        node = var.owner
        known = {v: n for n, v in inputs.items()}
        ins = []
        for v in node.inputs[1:]:
            if v in known:
                x = E.inp[known[v]]
                if E.symbolic:
                    ins.append(pyvalue.lift(x))
                else:
                    ins.append(np.asarray(E.args[known[v]]))
            elif v is node.inputs[1] and size is not None:
                ins.append(np.asarray(size))
            else:
                # constants and casts of inputs
                ins.append(value(E, v, known))
        if layout:
            ins = [ins[0], *map(LAYOUTS[layout], ins[1:])]
        rng = np.random.RandomState(7) if kind == "state" else np.random.default_rng(7)
        before = repr(rng.get_state() if kind == "state" else rng.bit_generator.state)
        world = repr(np.random.get_state())
        lib = Recorder() if E.symbolic else Observer()
        try:
            with library_is(lib), aesara.config.change_flags(floatX=floatX):
                new, out = performed(node, rng, ins)
        except (TypeError, ValueError):
            if not E.symbolic:
                raise
            # refuted on this path unless the real code runs and is right
            yield Claim("can be drawn", False, kind="true")
            return
        after = repr(rng.get_state() if kind == "state" else rng.bit_generator.state)
        yield Claim("shape", tuple(np.shape(out)) == tuple(shape), kind="true")
        if tuple(np.shape(out)) != tuple(shape):
            return
        fits = all(a is None or a == b for a, b in zip(node.outputs[1].type.shape, shape))
        yield Claim("static shape", bool(fits), kind="true")
        yield Claim("float type", str(out.dtype) == floatX == node.outputs[1].type.dtype, kind="true")
        yield Claim("the generator given keeps its state, the copy goes on", before == after, kind="true")
        yield Claim("no other source of randomness", world == repr(np.random.get_state()), kind="true")
        hs, zs = expect(E)
        seen = set()
        for i in np.ndindex(*shape):
            d = lib.find(out[i].item())
            yield Claim(f"element {list(i)} is a Polya-Gamma draw", d is not None, kind="true")
            if d is None:
                return
            yield Claim(f"element {list(i)} is a draw of its own", id(d) not in seen, kind="true")
            seen.add(id(d))
            lost = item(E, d.h) is None or item(E, d.z) is None
            yield Claim(f"element {list(i)}: parameters the library reads as given", not lost and d.h is not LOST, kind="true")
            if lost:
                return
            yield Claim(f"shape parameter of element {list(i)}", item(E, d.h), item(E, hs[i]))
            z = Claim(f"tilt of element {list(i)}", item(E, d.z), item(E, zs[i]))
            z.either = (item(E, d.z), -item(E, zs[i]))
            yield z
            yield Claim(f"element {list(i)} uses the generator passed on", bits(d.rng) is bits(new), kind="true")
            if d.method == "devroye":
                yield Claim(f"element {list(i)}: method for integer shapes only", False, kind="true")
            elif d.method is not None:
                h = core.lift(pyvalue.raw(d.h)) if E.symbolic else d.h
                ok = core.cmp(h, Fraction(1), "ge") if E.symbolic else h >= 1
                yield Claim(f"element {list(i)}: method for shapes of at least one only", ok, kind="true")

    outs = {}
    return Case(name, inputs, outs, dom, spec, fork=True)


def value(E, v, known):
    """Inputs of the node that are constants or element-wise functions of inputs."""
    from aesara.graph.basic import Constant

    if isinstance(v, Constant):
        return np.asarray(v.data)
    if E.symbolic:
        from aev.interp import Interp

        return pyvalue.lift(Interp(E.ctx, {w: E.inp[n] for w, n in known.items()}, E.default_noise, {})(v))
    f = aesara.function(list(known), v, on_unused_input="ignore", mode="FAST_COMPILE")
    return np.asarray(f(*[E.args[n] for n in known.values()]))


def gaps(x):
    """Every second element of a longer array."""
    if x.ndim == 0:
        return x
    y = np.full((*x.shape[:-1], 2 * x.shape[-1]), 1, dtype=x.dtype)
    y[..., ::2] = x
    return y[..., ::2]


def backwards(x):
    return x if x.ndim == 0 else np.array(x[::-1])[::-1]


def frozen(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


LAYOUTS = {"strided": gaps, "reversed": backwards, "transposed": lambda x: np.array(x, order="F"), "read-only": frozen}


def full(x, shape):
    return np.broadcast_to(x, shape)


def ones(E, shape, c):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = E.num(c)
    return o


SHAPES = [
    ((), ()), ((1,), ()), ((), (1,)), ((2,), ()), ((), (2,)), ((2,), (2,)), ((1,), (2,)), ((2,), (1,)),
    ((2,), (2, 1)), ((3, 1), (2,)), ((2, 2), (2, 2)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((0,), ()), ((2, 1, 2), (3, 1)),
]
SIZES = {
    (): [(), (1,), (2,), (2, 2)],
    (1,): [(1,), (3,), (2, 1)],
    (2,): [(2,), (2, 2), (3, 1, 2)],
    (2, 2): [(2, 2), (2, 2, 2)],
    (3, 2): [(3, 2), (2, 3, 2)],
}


def tensor(name, shape, static, dtype="float64"):
    return at.TensorType(dtype, shape if static else (None,) * len(shape))(name)


def generators(kind):
    if kind == "stream":
        srng = RandomStream(3)
        return lambda *a, **k: srng.gen(polyagamma, *a, **k)
    if kind == "state":
        rng = aesara.shared(np.random.RandomState(3))
    else:
        rng = aesara.shared(np.random.default_rng(3))
    return lambda *a, **k: polyagamma(*a, rng=rng, **k)


def cases(hshape, zshape, kind, floatX, static):
    def build(res):
        out = []
        shape = np.broadcast_shapes(hshape, zshape)
        h, z = tensor("h", hshape, static), tensor("z", zshape, static)
        ins = {"h": h, "z": z}
        dom = {"h": Dom("pos", hshape), "z": Dom("real", zshape)}
        name = f"h {hshape} z {zshape} {kind} {floatX}{' static' if static else ''}"
        sizes = [None] + (SIZES.get(shape, [shape]) if 0 not in shape else [])
        for s in sizes:
            sh = shape if s is None else s
            gen = generators(kind)
            kw = {} if s is None else {"size": s}
            out.append(pg_case(
                f"{name} size {s}", lambda gen=gen, kw=kw: real("creating the variable", gen, h, z, **kw), ins, dom,
                lambda E, sh=sh: (full(E.inp["h"], sh), full(E.inp["z"], sh)), sh, kind=kind, floatX=floatX))
        if 0 not in shape and len(shape) == 1 and not static:
            n, s = at.lvector("n"), (2, *shape)
            gen = generators(kind)
            out.append(pg_case(
                f"{name} symbolic size", lambda gen=gen: real("creating the variable", gen, h, z, size=at.stack([n[0], n[1]])), ins, dom,
                lambda E, sh=s: (full(E.inp["h"], sh), full(E.inp["z"], sh)), s, size=s, kind=kind, floatX=floatX))
        return out

    return build


for hs, zs in SHAPES:
    for kind in ("stream", "generator", "state"):
        for fx in ("float64", "float32"):
            for static in (False, True):
                quick = (kind, fx, static) in (("stream", "float64", False), ("state", "float64", True), ("generator", "float32", False))
                check.add(f"h {hs} z {zs} {kind} {fx}{' static' if static else ''}", cases(hs, zs, kind, fx, static), quick)


@check.case("defaults")
def _(res):
    out = []
    h, z = at.scalar("h"), at.vector("z")
    for kind in ("stream", "generator", "state"):
        gen = generators(kind)

        def add(lab, ins, dom, make, expect, shape):
            out.append(pg_case(f"defaults: {lab} {kind}", make, ins, dom, expect, shape, kind=kind))

        one = Dom("pos", ())
        add("none", {}, {}, lambda gen=gen: real("creating the variable", gen), lambda E: (ones(E, (), 1), ones(E, (), 0)), ())
        add("none, size", {}, {}, lambda gen=gen: real("creating the variable", gen, size=(2,)), lambda E: (ones(E, (2,), 1), ones(E, (2,), 0)), (2,))
        add("h", {"h": h}, {"h": one}, lambda gen=gen: real("creating the variable", gen, h), lambda E: (E.inp["h"], ones(E, (), 0)), ())
        add("h by name", {"h": h}, {"h": one}, lambda gen=gen: real("creating the variable", gen, h=h), lambda E: (E.inp["h"], ones(E, (), 0)), ())
        add("z by name", {"z": z}, {"z": Dom("real", (2,))}, lambda gen=gen: real("creating the variable", gen, z=z), lambda E: (ones(E, (2,), 1), E.inp["z"]), (2,))
        add("both by name", {"h": h, "z": z}, {"h": one, "z": Dom("real", (2,))}, lambda gen=gen: real("creating the variable", gen, z=z, h=h), lambda E: (full(E.inp["h"], (2,)), E.inp["z"]), (2,))
        add("size after both", {"h": h, "z": z}, {"h": one, "z": Dom("real", (2,))}, lambda gen=gen: real("creating the variable", gen, h, z, size=(2, 2)), lambda E: (full(E.inp["h"], (2, 2)), full(E.inp["z"], (2, 2))), (2, 2))
        if kind != "stream":
            add("size by position", {"h": h, "z": z}, {"h": one, "z": Dom("real", (2,))}, lambda gen=gen: real("creating the variable", gen, h, z, (2, 2)), lambda E: (full(E.inp["h"], (2, 2)), full(E.inp["z"], (2, 2))), (2, 2))
    return out


def laid_out(hs, zs, layout):
    def build(res):
        h, z = tensor("h", hs, False), tensor("z", zs, False)
        sh = np.broadcast_shapes(hs, zs)
        out = []
        for kind in ("generator", "state"):
            gen = generators(kind)
            for size in (None, (2, *sh)):
                kw = {} if size is None else {"size": size}
                to = sh if size is None else size
                out.append(pg_case(
                    f"{layout} h {hs} z {zs} {kind} size {size}", lambda gen=gen, kw=kw: real("creating the variable", gen, h, z, **kw),
                    {"h": h, "z": z}, {"h": Dom("pos", hs), "z": Dom("real", zs)},
                    lambda E, to=to: (full(E.inp["h"], to), full(E.inp["z"], to)), to, kind=kind, layout=layout))
        return out

    return build


for layout in LAYOUTS:
    for hs, zs in (((2,), ()), ((), (2,)), ((2,), (2,)), ((3, 1), (2,)), ((2, 2), (2, 2)), ((1,), (2,))):
        check.add(f"{layout} h {hs} z {zs}", laid_out(hs, zs, layout))


@check.case("integer shapes and shared parameters")
def _(res):
    out = []
    for kind in ("stream", "state"):
        gen = generators(kind)
        h, z = at.lvector("h"), at.scalar("z")
        ins, dom = {"h": h, "z": z}, {"h": Dom("int", (2,), lo=1), "z": Dom("real", ())}
        out.append(pg_case(f"integer shapes {kind}", lambda gen=gen, h=h, z=z: real("creating the variable", gen, h, z), ins, dom, lambda E: (E.inp["h"], full(E.inp["z"], (2,))), (2,), kind=kind))
        x = at.vector("x")
        ins, dom = {"x": x}, {"x": Dom("pos", (2,))}
        out.append(pg_case(f"one variable for both {kind}", lambda gen=gen, x=x: real("creating the variable", gen, x, x), ins, dom, lambda E: (E.inp["x"], E.inp["x"]), (2,), kind=kind))
        out.append(pg_case(f"computed parameters {kind}", lambda gen=gen, x=x: real("creating the variable", gen, x * 2 + 1, -x.sum()), ins, dom,
                           lambda E: (arr(E, [E.inp["x"][k] * 2 + 1 for k in range(2)]), arr(E, [-(E.inp["x"][0] + E.inp["x"][1])] * 2)), (2,), kind=kind))
    return out


def arr(E, xs):
    o = np.empty((len(xs),), dtype=object)
    for k, x in enumerate(xs):
        o[k] = x
    return o


@check.case("the shape the graph states")
def _(res):
    """Static and inferred shapes against the real values, for every size."""
    import itertools

    for hs, zs in SHAPES:
        for st_h, st_z in itertools.product((False, True), repeat=2):
            h, z = tensor("h", hs, st_h), tensor("z", zs, st_z)
            var = polyagamma(h, z)
            shape = np.broadcast_shapes(hs, zs)
            res.claims += 1
            bad = len(var.type.shape) != len(shape) or any(a is not None and a != b for a, b in zip(var.type.shape, shape))
            if bad:
                raise Violation(f"PG of {hs} and {zs} has the type {var.type}", {"claim": "static shape"}, key="static shape")
            if not (st_h or st_z):
                f = aesara.function([h, z], var.shape, on_unused_input="ignore")
                got = tuple(int(k) for k in f(np.ones(hs), np.zeros(zs)))
                if got != shape:
                    raise Violation(f"the shape of PG of {hs} and {zs} is computed as {got}", {"claim": "inferred shape"}, key="inferred shape")
            res.proved += 1
    res.witness += 1
    return None
