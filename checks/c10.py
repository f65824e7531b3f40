"""C10: NUTS updates target the model's conditional density."""
from aev.model import NutsSweep, Sweep, sweep_claims
from aev.report import Check
from aev.zoo import ZOO, make as make_model

check = Check(
    "C10",
    "NUTS updates",
    assumptions=[
        "the kernel (aehmc) is replaced while the sampler is built by a stand-in that records its position, target, step size and mass matrix and returns an arbitrary position",
        "densities by aev/density.py; families whose aeppl density or transform is itself wrong (pareto, triangular, half-Cauchy away from zero) are outside",
        "real arithmetic",
    ],
    bounds="one model per entry of aev/zoo.py in the group nuts plus those of mixed with a NUTS update; latents of up to 2 elements each (scalars, vectors, 2x1 matrices), up to 4 latents per kernel; every real position, current value, observation and parameter",
    functions=["aemcmc.nuts.step", "aemcmc.nuts.construct_sampler", "aemcmc.nuts.get_transform", "aemcmc.nuts.transform_forward", "aemcmc.nuts.transform_backward", "aemcmc.basic.construct_sampler"],
)


def add(name, make, quick, known):
    def build(res):
        m = make()
        sw = Sweep(m, res)
        return sw.case(name, lambda E: sweep_claims(E, sw, exact=False, blanket=False, compose=False))

    check.add(name, build, quick)


for name, groups, make, quick, known in ZOO:
    if groups & {"nuts", "mixed"}:
        add(name, make, quick, known)


# aemcmc.nuts used directly: any order of the variables
DIRECT = [
    ("nuts: normal mean and half-normal scale", "s mu Y", True),
    ("nuts: uniform with bounds from other latents", "x w lo Y", True),
    ("nuts: uniform with bounds from other latents", "Y w x lo", False),
    ("nuts: uniform below an earlier uniform", "z x Y", False),
    ("nuts: scalar, vector and matrix latents", "p B a s Y", True),
    ("nuts: three levels", "b a t Y", False),
    ("nuts: bounds from an observed variable", "x Y W", True),
    ("nuts: latent between two observed variables", "Y b W", False),
    ("nuts: half-normal above another latent", "x mu Y", True),
]


def add_direct(name, order, whole):
    def build(res):
        sw = NutsSweep(make_model(name), res, order.split(), whole)
        return sw.case(name, lambda E: sweep_claims(E, sw, exact=False, blanket=False, compose=False))

    check.add(f"{name}; {'construct_sampler' if whole else 'step'}({order})", build)


for args in DIRECT:
    add_direct(*args)
