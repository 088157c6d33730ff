"""Abstract drivers: the public API of the crate analysed on symbolic inputs."""
from values import *
import terms as TT
from interp import *
import lib

P = lambda n: {"k": "param", "name": n}
TT.MINVAL.update(n=1, p=1)
N, PX = TT.var("n"), TT.var("p")

FLAGS = ("intercept", "standardize", "freqs", "weights", "offset")


class Drv:
    def __init__(self, m, flags=(), reg=None, cfg=None, env=None):
        """flags: subset of FLAGS that are on"""
        self.m, self.flags, self.reg = m, frozenset(flags), reg
        self.I = Interp(m, dict(cfg or {}))
        self.st = St()
        self.env = {"M": P("M"), "F": P("F"), "Y": P("Y"), **(env or {})}
        self.nd = 0

    def cell(self, v):
        c = ("drv", self.nd)
        self.nd += 1
        self.st.cells[c] = v
        return Ref(c)

    def call(self, recv, name, *args, env=None):
        k = self.I.one(recv, name)
        gens = [g for g in self.I.bodies[k]["generics"] if g]
        e = {**{g: P(g) for g in gens}, **self.env, **(env or {})}
        return self.I.call_local(k, e, list(args), self.st)

    def builder(self):
        f = self.flags
        y = Arr((N,), TT.app("y", D[0]))
        x = Arr((N, PX), TT.app("x", D[0], D[1]))
        b = self.call("ModelBuilder", "data", y, x)
        if "freqs" in f:
            b = self.call("ModelBuilderData", "freq_weights", b, Arr((N,), TT.app("fr", D[0])))
        if "weights" in f:
            b = self.call("ModelBuilderData", "var_weights", b, Arr((N,), TT.app("w", D[0])))
        if "offset" in f:
            b = self.call("ModelBuilderData", "linear_offset", b, Arr((N,), TT.app("off", D[0])))
        if "intercept" not in f:
            b = self.call("ModelBuilderData", "no_constant", b)
        if "standardize" not in f:
            b = self.call("ModelBuilderData", "no_standardize", b)
        return b

    def model(self):
        r = self.call("ModelBuilderData", "build", self.builder())
        return r

    def fit(self, model=None, opts=None):
        if model is None:
            r = self.model()
            model = unwrap(r)
        self.mref = model
        k = {"l1": TT.var("l1"), "l2": TT.var("l2"), "max_iter": TT.var("max_iter"), "tol": TT.var("tol")}
        c = self.call("Model", "fit_options", model)
        for nm in (opts or {}):
            v = opts[nm]
            c = self.call("FitConfig", nm, c, v)
        self.fitres = self.call("FitConfig", "fit", c)
        return self.fitres


def unwrap(r):
    if isinstance(r, Enum) and 0 in r.alts:
        return r.alts[0][1][0]
    raise Give(f"no Ok value: {r!r:.80}")
