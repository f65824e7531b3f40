"""C08: specialised updates are assigned only where they are exact."""
from aev.model import Sweep, sweep_claims
from aev.priors import NEAR
from aev.report import Check
from aev.zoo import ZOO

check = Check(
    "C08",
    "specialised updates only where exact",
    assumptions=[
        "real arithmetic",
        "the joint density is read from the graph the user wrote, by the check's own density table (aev/density.py)",
        "which variables an update's law depends on is found at generic points and then shown by the solver; a dependence that vanishes at every generic point tried would be missed",
        "a collapsed update (one that conditions on less than the full state) is accepted when an order of the updates exists in which the scan still leaves the joint invariant",
    ],
    bounds="one model per entry of aev/zoo.py in the groups match, near and mixed and of aev/priors.py (prior families, links and likelihoods; 1-2 groups, 1-2 observations, 1-2 coefficients); every real value of the inputs, current values and draws inside the admissible domains; dispersions up to 1e9",
    functions=[
        "aemcmc.basic.construct_sampler",
        "aemcmc.conjugates.*",
        "aemcmc.gibbs.normal_regression_posterior / *_finder / *_gibbs / sample_CRT / *_update",
        "aemcmc.nuts.construct_nuts_sampler (its kernel replaced by a stand-in)",
        "aemcmc.rewriting.construct_ir_fgraph, SubsumingElemwise",
    ],
)


def add(name, make, quick, known, **kw):
    def build(res):
        m = make()
        sw = Sweep(m, res)
        return sw.case(name, lambda E: sweep_claims(E, sw, known=known, **kw))

    check.add(name, build, quick)


for name, groups, make, quick, known in ZOO:
    if groups & {"match", "near", "mixed"}:
        add(name, make, quick, known)

for name, make, quick in NEAR:
    # (what NUTS does for the families is C10's)
    add(name, make, quick, {}, nuts=False)
