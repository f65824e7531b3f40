"""C09: one sweep composes the updates as a valid Gibbs scan."""
from aev.model import Sweep, sweep_claims
from aev.report import Check
from aev.zoo import ZOO

check = Check(
    "C09",
    "one sweep is a Gibbs scan",
    assumptions=[
        "the NUTS kernel is replaced by a stand-in while the sampler is built (see C10)",
        "which value of another latent an update reads is found at generic points and by the solver",
        "a negative-binomial update may target the density with p and 1 - p swapped (the recorded findings of C05 and C08); here only what it reads matters",
        "the order of the scan is the one the reads imply: an acyclic one must exist",
    ],
    bounds="one model per entry of aev/zoo.py in the group mixed (2-5 latents, all kinds of updates, observed variables and deterministic expressions among the parents); every real value of inputs, current values and draws",
    functions=["aemcmc.basic.construct_sampler", "aemcmc.nuts.construct_sampler", "the posterior graphs of aemcmc.conjugates and aemcmc.gibbs"],
)


def add(name, make, quick, known):
    def build(res):
        m = make()
        sw = Sweep(m, res)

        def spec(E):
            for c in sweep_claims(E, sw, known=known, scan=True):
                if getattr(c, "known", None):
                    # the density such an update targets is C05's and C08's subject
                    c.either = c.known[1]
                    del c.known
                yield c

        return sw.case(name, spec)

    check.add(name, build, quick)


for name, groups, make, quick, known in ZOO:
    if groups & {"mixed", "scan"}:
        add(name, make, quick, known)
