"""C22: a sampler does not depend on how data are supplied."""
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random.type import RandomType

from aev.report import Check, Violation
from aev.twice import Built, compare, values_case
from aev.zoo import ZOO

check = Check(
    "C22",
    "how data are supplied",
    assumptions=["real arithmetic", "the NUTS kernel is replaced by a stand-in (see C10)"],
    bounds="the models of aev/zoo.py, with every piece of data (observations, hyper-parameters, design matrices) a symbolic input, a shared variable, or a constant; with shared variables for all real values of the data, with constants for one value of each",
    functions=["aemcmc.basic.construct_sampler", "aemcmc.rewriting.construct_ir_fgraph", "aemcmc.nuts.construct_sampler", "aemcmc.types.SamplingStep.__init__"],
)


def build(name, make, how):
    def f(res):
        m, other = make(), make(how)
        a = Built(m, res)
        data = [v for v, _ in other.inputs.values() if isinstance(v, SharedVariable)]
        for v in data[::2]:
            # data that move on by themselves
            v.default_update = v * 1 if v.type.dtype.startswith("float") else v
        before = [(v, v.get_value(), v.default_update) for v in data]
        b = Built(other, res)
        compare(name, m, a, b, f"the model with {how} data")
        for v, x, u in before:
            res.claims += 1
            if v in b.sw.sampler.updates:
                raise Violation(f"{how} data: the sampler updates the data {v}", {"claim": "data are not updated"}, key="data are not updated")
            if v.default_update is not u:
                raise Violation(f"{how} data: construction replaces the default update of {v}", {"claim": "default updates stay"}, key="default updates stay")
            if not np.array_equal(v.get_value(), x):
                raise Violation(f"{how} data: construction changes the value of {v}", {"claim": "values stay"}, key="values stay")
            res.proved += 1
        for v in data:
            v.default_update = None
        if how == "constant" and a.nuts:
            # the log-density's constants are rounded: only the structure is compared
            res.witness += 1
            res.claims += 1
            res.proved += 1
            return None
        return values_case(f"{name} {how}", m, a, b)

    return f


for name, groups, make, quick, known in ZOO:
    for how in ("shared", "constant"):
        check.add(f"{name} {how}", build(name, make, how), quick)
