"""C15: prior sampling draws whole, independent model replicates."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import graph_inputs
from aesara.tensor.random import RandomStream

from aev.boot import THOROUGH
from aev.copies import between, frozen
from aev.env import Case, Claim, Dom
from aev.laws import noise_policy
from aev.report import Check, Violation, real
from aev.streams import LOOP, check_history, compiled
from aev.zoo import ZOO, M

from aemcmc.sample import sample_prior

check = Check(
    "C15",
    "prior sampling",
    assumptions=[
        "real arithmetic",
        "every generator the requested variables use is shared and has an update (its own or the stream's) that moves it past its draws, as RandomStream sets up",
        "generator states are (stream, position) pairs; a draw moves its generator on by an arbitrary positive amount",
    ],
    bounds=f"0 to 3 replicates for the values, any number up to {LOOP} for the random states of three calls in a row; the models of aev/zoo.py and of this file (loops of up to 3 iterations), requests of one, several and all variables in different orders",
    functions=["aemcmc.sample.sample_prior", "aemcmc.utils.get_rv_updates", "aesara.scan's output for them", "aesara.function's output for them"],
)


def seq(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def key_of(token):
    """(root generator, number of draws it has made)."""
    k = 0
    while token[0] == "adv":
        k += 1
        token = token[1]
    return token, k


def values_case(name, srng, goal, ins, dom, n, symbolic_n):
    outs = {f"model{k}": v for k, v in enumerate(frozen(goal))}
    mod = list(outs)
    ins, dom = dict(ins), dict(dom)
    num = n
    if symbolic_n:
        num = ins["n_samples"] = at.lscalar("n_samples")
        dom["n_samples"] = Dom("const", (), value=np.asarray(n))
    samples, updates = real("sampling the prior", sample_prior, srng, num, *goal)
    samples = seq(samples)
    if len(samples) != len(goal):
        raise Violation(f"{len(samples)} results for {len(goal)} variables", {"claim": "one result per variable"}, key="one result per variable")
    outs.update({f"sample{k}": v for k, v in enumerate(samples)})
    sam = [f"sample{k}" for k in range(len(samples))]

    def spec(E):
        r0 = E.run(outputs=mod)
        once = {}
        for d in r0.draws:
            once.setdefault(key_of(d.token)[0], {})[key_of(d.token)[1]] = d
        r = E.run(outputs=sam)
        many = {}
        for d in r.draws:
            root, k = key_of(d.token)
            many.setdefault(root, {}).setdefault(k, d)
        ok = True
        for k, (a, b) in enumerate(zip(sam, mod)):
            # without iterations aesara's loops do not know the other dimensions
            good = r[a].shape == (n,) + r0[b].shape if n else r[a].shape[0] == 0
            ok = ok and good
            yield Claim(f"variable {k}: {n} draws of its shape", bool(good), kind="true")
        if not ok or n == 0:
            return
        for root in sorted(once, key=str):
            # a generator may also be moved on past draws nobody asked for
            got = len(many.get(root, ()))
            good = got % n == 0 and got >= n * len(once[root])
            ok = ok and good
            yield Claim(f"{n} replicates use generator {root[1]} {n} times as often as one", bool(good), kind="true")
        if not ok:
            return
        for t in range(n):
            fixed = {}
            for root, ds in once.items():
                ranked = [many[root][k] for k in sorted(many[root])]
                mine = ranked[t * (len(ranked) // n):]
                for d0, d in zip([ds[k] for k in sorted(ds)], mine):
                    good = d0.shape == d.shape and d0.fam == d.fam
                    yield Claim(f"replicate {t}: generator {root[1]} makes the model's draws", bool(good), kind="true")
                    if not good:
                        return
                    for i in d0.elems():
                        fixed[d0.names[i]] = d.noise[i]
            rt = E.run(outputs=mod, noise=noise_policy(E, fixed))
            for k, (a, b) in enumerate(zip(sam, mod)):
                for i in np.ndindex(*rt[b].shape):
                    yield Claim(f"replicate {t} of variable {k}{list(i)}", r[a][(t,) + i], rt[b][i])

    return Case(name, ins, outs, dom, spec, by_state=True)


def numbers(ins, dom):
    args = {}
    for n, d in sorted(dom.items(), key=lambda e: e[1].plus is not None):
        v = ins[n]
        a = d.numbers({}, n, v.type.dtype)
        if d.plus is not None:
            a = np.asarray(a + args[d.plus], dtype=v.type.dtype)
        args[n] = a
    return args


def histories(name, res, srng, goals, ins, dom):
    """Random states of the functions for each set of requested variables."""
    n = at.lscalar("n_samples")
    args = numbers(ins, dom)
    vs = [ins[k] for k in args]
    fns = {}
    for k, goal in enumerate(goals):
        samples, updates = real("sampling the prior", sample_prior, srng, n, *goal)
        fns[k] = real("compiling the samples", compiled, [n, *vs], seq(samples), updates=updates)
    av = [np.asarray(LOOP), *args.values()]
    for k in fns:
        check_history(res, name, [(f"call {c + 1}", fns[k], av) for c in range(3)], f"request {k}")
    for k, j in itertools.combinations(fns, 2):
        if k == 0 or THOROUGH:
            calls = [(f"call {c + 1} (request {i})", fns[i], av) for c, i in enumerate((k, j, k))]
            check_history(res, name, calls, f"requests {k} and {j} in turn")


def requests(vs):
    """Sets of requested variables, in several orders."""
    rs = [list(vs)]
    if len(vs) > 1:
        rs += [list(vs)[::-1]]
        rs += [[v] for v in (vs if THOROUGH else [vs[-1], vs[0]])]
    if len(vs) > 2:
        rs += [[vs[-1], vs[0]]] if not THOROUGH else [list(c) for c in itertools.permutations(vs, 2)]
    return rs


def used(ins, dom, goal):
    have = set(graph_inputs(goal))
    ins = {n: v for n, v in ins.items() if v in have}
    return ins, {n: dom[n] for n in ins}


def of_zoo(name, make):
    def build(res):
        m = make()
        vs = list(m.latents.values()) + list(m.obs.values())
        det = [v for v in between(vs) if v not in vs and v.type.dtype.startswith("float")][-1:]
        ins = {n: v for n, (v, _) in m.inputs.items()}
        dom = {n: d for n, (_, d) in m.inputs.items()}
        goals = requests(vs) + ([det + [vs[0]]] if det else [])
        cases = []
        for k, goal in enumerate(goals):
            i, d = used(ins, dom, goal)
            if any(x.plus is not None and x.plus not in d for x in d.values()):
                # counts bounded by data that this request does not use
                d = {n: Dom("int", x.shape, lo=0) if x.plus is not None else x for n, x in d.items()}
            cases.append(values_case(f"{name} {k}", m.srng, goal, i, d, 3 if k == 0 and THOROUGH else 2, k % 2 == 1))
        i, d = used(ins, dom, vs)
        if any(x.plus is not None and x.plus not in d for x in d.values()):
            d = {n: Dom("int", x.shape, lo=0) if x.plus is not None else x for n, x in d.items()}
        histories(name, res, m.srng, goals[:4], i, d)
        res.samples.append({"case": name, "requests": len(goals)})
        return cases

    return build


# ------------------------------------------------------------ models of this file
def models():
    out = []

    def e(name, f, quick=True):
        out.append((name, f, quick))

    def one(m):
        x = m.srng.normal(m.scalar("mu", "real"), m.scalar("sd"), name="x")
        return [x]

    e("one variable", one)

    def sizes(m):
        x = m.srng.normal(m.vec("mu", 2, "real"), m.scalar("sd"), size=(3, 2), name="x")
        y = m.srng.gamma(at.exp(x[0]), 1.0, name="y")
        return [x, y]

    e("sizes", sizes)

    def chain(m):
        mu = m.srng.normal(0, m.scalar("sd"), name="mu")
        s = m.srng.halfnormal(0.0, at.exp(mu), name="s")
        y = m.srng.normal(mu, s, size=(2,), name="y")
        z = m.srng.gamma(m.scalar("a"), 0.5, name="z")
        return [mu, s, y, z]

    e("chain and an unrelated variable", chain)

    def deterministic(m):
        mu = m.srng.normal(0, m.scalar("sd"), size=(2,), name="mu")
        y = m.srng.normal(at.exp(mu), 1.0, name="y")
        return [mu * 2 + y, y, at.exp(mu).sum(), mu]

    e("functions of random variables", deterministic)

    def plain(m):
        p, q = m.scalar("p", "real"), m.vec("q", 2, "real")
        x = m.srng.normal(p, 1.0, name="x")
        return [x, p, q.sum(), at.as_tensor(np.array(2.5))]

    e("inputs and constants", plain)

    def nothing(m):
        return [m.scalar("p", "real"), m.vec("q", 2, "real") * 2]

    e("nothing random", nothing)

    def twice(m):
        x = m.srng.normal(m.scalar("p", "real"), 1.0, name="x")
        y = m.srng.normal(x, 1.0, name="y")
        return [x, y, x, x + 0]

    e("requested twice", twice)

    def data(m):
        w = aesara.shared(np.array([0.5, 2.0]), name="w")
        x = m.srng.normal(w, m.scalar("sd"), name="x")
        return [x, w.sum() + x[0]]

    e("shared data", data)

    def no_default(m):
        x = m.srng.normal(0.0, m.scalar("sd"), name="x")
        y = m.srng.normal(x, 1.0, name="y")
        y.owner.inputs[0].default_update = None
        return [x, y]

    e("no default update", no_default)

    def no_default_2(m):
        x = m.srng.normal(0.0, m.scalar("sd"), name="x")
        y = m.srng.normal(x, 1.0, name="y")
        x.owner.inputs[0].default_update = None
        return [x, y]

    e("no default update of the ancestor", no_default_2)

    def no_state(m):
        x = m.srng.normal(0.0, m.scalar("sd"), name="x")
        y = m.srng.normal(x, 1.0, name="y")
        m.srng.state_updates = [u for u in m.srng.state_updates if u[0] is not x.owner.inputs[0]]
        return [x, y]

    e("unknown to the stream", no_state)

    def two_streams(m):
        other = RandomStream(7)
        x = other.normal(0.0, m.scalar("sd"), name="x")
        y = m.srng.normal(x, 1.0, name="y")
        return [x, y]

    e("two streams", two_streams)

    def chained(m):
        x = m.srng.normal(0.0, m.scalar("sd"), name="x")
        y = at.random.normal(x, 1.0, rng=x.owner.outputs[0], name="y")
        r = x.owner.inputs[0]
        r.default_update = y.owner.outputs[0]
        m.srng.state_updates = [(r, y.owner.outputs[0])]
        return [x, y]

    e("one generator for two", chained)

    def loop(m):
        s = m.scalar("s")

        def step():
            return m.srng.normal(0.0, s)

        xs, _ = aesara.scan(step, n_steps=2)
        return [xs, xs.sum()]

    e("drawn in a loop", loop)

    def walk(m):
        s = m.srng.halfnormal(0.0, m.scalar("t"), name="s")

        def step(x, s):
            return m.srng.normal(x, s)

        xs, _ = aesara.scan(step, outputs_info=[at.as_tensor(np.array(0.0))], non_sequences=[s], n_steps=3)
        y = m.srng.normal(xs, 1.0, name="y")
        return [s, xs, y]

    e("random walk", walk)

    def two_in_loop(m):
        t = m.vec("t", 2)

        def step(tk, x):
            s = m.srng.halfnormal(0.0, tk)
            return m.srng.normal(x, s)

        xs, _ = aesara.scan(step, sequences=[t], outputs_info=[at.as_tensor(np.array(0.0))], n_steps=2)
        return [xs[-1], xs]

    e("two variables in a loop", two_in_loop)

    def families(m):
        a = m.scalar("a")
        p = m.srng.beta(a, 1.0, name="p")
        z = m.srng.bernoulli(p, size=(2,), name="z")
        g = m.srng.gumbel(z, a, name="g")
        u = m.srng.uniform(0.0, at.exp(g), name="u")
        e_ = m.srng.exponential(a, name="e")
        l = m.srng.laplace(u, e_, name="l")
        return [p, z, g, u, e_, l]

    e("many families", families)

    def diamond(m):
        x = m.srng.normal(0.0, m.scalar("sd"), name="x")
        a = m.srng.normal(x, 1.0, name="a")
        b = m.srng.normal(-x, 1.0, name="b")
        y = m.srng.normal(a * b, at.exp(x), name="y")
        return [y, b, a, x]

    e("diamond", diamond)

    def indirect(m):
        # the only link between the two requested variables is an ancestor
        x = m.srng.normal(0.0, m.scalar("sd"), size=(2,), name="x")
        a = m.srng.normal(x[0], 1.0, name="a")
        b = m.srng.normal(x[1], at.exp(x[0]), name="b")
        return [a, b]

    e("siblings", indirect)
    return out


def of_file(name, f):
    def build(res):
        cases = []
        goals = None
        for n, sym in ((2, False), (3, True), (1, False), (1, True), (0, True)):
            m = M()
            vs = f(m)
            ins = {k: v for k, (v, _) in m.inp.items()}
            dom = {k: d for k, (_, d) in m.inp.items()}
            for k, goal in enumerate(requests(vs) if (n, sym) == (2, False) else [list(vs)]):
                i, d = used(ins, dom, goal)
                cases.append(values_case(f"{name} {n} {k}", m.srng, goal, i, d, n, sym))
        m = M()
        vs = f(m)
        ins = {k: v for k, (v, _) in m.inp.items()}
        dom = {k: d for k, (_, d) in m.inp.items()}
        histories(name, res, m.srng, requests(vs)[:5], ins, dom)
        return cases

    return build


for name, f, quick in models():
    check.add(name, of_file(name, f), quick)

for k, (name, groups, make, quick, known) in enumerate(ZOO):
    check.add("zoo: " + name, of_zoo(name, make), quick and bool(groups & {"mixed", "match"}))
