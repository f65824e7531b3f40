"""Replay side: the real compiled function with prescribed random noise."""
import contextlib
import copy
import hashlib
import math

import aesara
import numpy as np
from aesara.compile.mode import Mode
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random.op import RandomVariable

from .families import (
    NAMES,
    NDIM_PARAMS,
    NDIM_SUPP,
    Draw,
    apply_family,
    noise_kind,
    token_name,
)
from .interp import batch_shape


class TagGen(np.random.Generator):
    """A Generator that carries its RNG-state term instead of real entropy."""

    def __new__(cls, token, *a):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, token):
        super().__init__(np.random.PCG64(0))
        self.token = token

    def __copy__(self):
        return TagGen(self.token)

    def __deepcopy__(self, memo):
        return TagGen(self.token)

    def __reduce__(self):
        return (TagGen, (self.token,))


class NumOps:
    @staticmethod
    def exp(x):
        return math.exp(x)

    @staticmethod
    def div(a, b):
        return a / b


class Recorder:
    def __init__(self, noise):
        self.noise = noise
        self.draws = []
        self.cache = {}


_ACTIVE = [None]
_STACK = []
_ORIG = RandomVariable.perform


def _perform(self, node, inputs, outputs):
    rec = _ACTIVE[0]
    rng, size, dtype, *params = inputs
    token = getattr(rng, "token", None)
    if rec is None or token is None:
        return _ORIG(self, node, inputs, outputs)
    fam = NAMES.get(self.name)
    if fam is None or fam in NDIM_SUPP:
        raise NotImplementedError(self.name)
    params = [np.asarray(p) for p in params]
    sz = tuple(int(s) for s in size) if size is not None and np.size(size) else ()
    shape = batch_shape(fam, sz, params)
    nd = NDIM_PARAMS.get(fam, [0] * len(params))
    ps = []
    for p, d in zip(params, nd):
        b = np.broadcast_to(p, shape + p.shape[p.ndim - d:])
        o = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            o[i] = b[i].item()
        ps.append(o)
    key = (token, fam, shape, tuple(p.tobytes() for p in params))
    hit = rec.cache.get(key)
    if hit is None:
        base = f"{noise_kind(fam)}[{token_name(token)}"
        clash = [d for d in rec.draws if d.token == token]
        if clash and not getattr(rec.noise, "by_state", False):
            base += f"#{len(clash)}"
        names = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            names[i] = base + ("," + ",".join(map(str, i)) if i else "") + "]"
        eps = rec.noise(fam, token, ps, shape, names)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = apply_family(fam, [p[i] for p in ps], float(eps[i]), NumOps)
        rec.draws.append(Draw(fam, token, ps, shape, eps, out, names))
        hit = rec.cache[key] = out
    arr = np.array(hit.tolist() if hit.ndim else hit[()], dtype=node.outputs[1].dtype)
    arr = arr.reshape(shape)
    outputs[0][0] = TagGen(("adv", token, fam, shape))
    outputs[1][0] = arr


@contextlib.contextmanager
def patched():
    RandomVariable.perform = _perform
    try:
        yield
    finally:
        RandomVariable.perform = _ORIG
        _ACTIVE[0] = None


SALT = [""]
SCALE = [None]  # (magnitude, direction): default values of other orders of magnitude


def default_noise_value(name, kind):
    """Deterministic pseudo-arbitrary value for noise the model leaves free."""
    h = int(hashlib.sha256((name + SALT[0]).encode()).hexdigest()[:8], 16) / 2**32
    if SCALE[0] is not None and kind in ("normal", "uniform", "beta", "stdgamma", "polyagamma"):
        e, way = SCALE[0]
        if way == 0:
            way = int(hashlib.sha256((name + SALT[0]).encode()).hexdigest()[8:12], 16) % 3 - 1
        if kind in ("uniform", "beta"):
            v = (0.1 + 0.8 * h) * 10.0 ** -abs(e * way)
            return 1 - v if way > 0 else v
        v = 4 * h - 2 if kind == "normal" else 0.2 + 2 * h
        return v * 10.0 ** (e * way)
    if kind in ("normal", "gumbel", "logistic", "laplace", "cauchy", "t"):
        return round(4 * h - 2, 3) or 0.5
    if kind in ("beta", "uniform"):
        return round(0.1 + 0.8 * h, 3)
    if kind in ("halfnormal", "halfcauchy", "stdgamma", "polyagamma", "weibull"):
        return round(0.2 + 2 * h, 3)
    if kind == "bernoulli":
        return int(h > 0.5)
    return int(3 * h)


def num_noise(assign):
    def provide(fam, token, params, shape, names):
        kind = noise_kind(fam)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            v = assign.get(names[i])
            out[i] = default_noise_value(names[i], kind) if v is None else float(v)
        return out

    return provide


PY_MODE = Mode(linker="py", optimizer="fast_run")


class NumFn:
    """A compiled real function plus control over its RNG states."""

    def __init__(self, inputs, outputs, tags, updates=None):
        self.tags = tags
        # data in shared variables are set before a call
        self.given = [isinstance(v, SharedVariable) for v in inputs]
        self.data = [v for v in inputs if isinstance(v, SharedVariable)]
        self.plain = [v.get_value() for v in self.data]
        inputs = [v for v in inputs if not isinstance(v, SharedVariable)]
        with patched():
            self.saved = {s: s.get_value(borrow=True) for s in tags}
            self._reset()
            try:
                self.fn = aesara.function(
                    inputs,
                    outputs,
                    updates=updates,
                    no_default_updates=True,
                    on_unused_input="ignore",
                    mode=PY_MODE,
                )
            finally:
                self._restore()

    def _reset(self):
        for s, t in self.tags.items():
            s.set_value(TagGen(("rng", t)), borrow=True)

    def _restore(self):
        for s, v in self.saved.items():
            s.set_value(v, borrow=True)

    def __call__(self, args, noise, reset=True):
        rec = Recorder(noise)
        outer = list(_STACK)
        values = [a for a, g in zip(args, self.given) if g]
        args = [a for a, g in zip(args, self.given) if not g]
        for v, a in zip(self.data, values):
            v.set_value(np.asarray(a, dtype=v.type.dtype))
        with patched():
            if reset:
                self._reset()
            _STACK.append((rec, self if reset else None))
            _ACTIVE[0] = rec
            try:
                out = self.fn(*args)
            finally:
                _STACK.pop()
                _ACTIVE[0] = None
                if reset:
                    self._restore()
                for v, a in zip(self.data, self.plain):
                    v.set_value(a)
        if outer:
            # called while another function draws (noise computed from a run)
            RandomVariable.perform = _perform
            _ACTIVE[0] = outer[-1][0]
            for _, fn in outer:
                if fn is not None:
                    fn._reset()
        return out, rec.draws
