"""Analysis context: one abstract fit (configuration case) with its public observables as terms."""
import itertools
from values import *
import terms as TT
import evalt
from interp import *
from model import Drv, unwrap, N, PX, P
import nf

DISP_KEY = "DispersionType"
TT.POSVARS.update({"l1", "l2"})
NN = TT.var("nn")
TT.MINVAL.update(nn=1)


def fields(I, s):
    ad = I.adts.get(s.key)
    if ad is None:
        return {}
    return dict(zip([f["name"] for f in ad["variants"][0]["fields"]], s.fields))


def walk(v, fn):
    fn(v)
    if isinstance(v, Struct):
        for x in v.fields:
            walk(x, fn)
    elif isinstance(v, Tup):
        for x in v.items:
            walk(x, fn)
    elif isinstance(v, Enum):
        for c, f in v.alts.values():
            for x in f:
                walk(x, fn)


def vmap(v, fn):
    if isinstance(v, Arr):
        return fn(v)
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [vmap(x, fn) for x in v.fields])
    if isinstance(v, Tup):
        return Tup([vmap(x, fn) for x in v.items])
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {k: (c, tuple(vmap(x, fn) for x in f)) for k, (c, f) in v.alts.items()})
    if isinstance(v, Gate):
        return Gate([(c, vmap(x, fn)) for c, x in v.alts])
    return v


class Ctx:
    def __init__(self, m, flags=(), reg=None, disp=None, env=None, cfg=None, consts=None, dofit=True):
        self.flags, self.reg, self.disp = frozenset(flags), reg, disp
        c = dict(cfg or {})
        if disp is not None:
            key = next(k for k, a in m["adts"].items() if a["name"] == DISP_KEY)
            vs = [v["name"] for v in m["adts"][key]["variants"]]
            c["consts"] = {"DISPERSED": Enum(key, DISP_KEY, {vs.index(disp): (TRUE, ())})}
        self.d = Drv(m, flags, cfg=c, env=env)
        self.I = self.d.I
        self.int = "intercept" in self.flags
        self.K = TT.add(PX, ONE) if self.int else PX
        self.build = self.d.model()
        self.model = self.abbreviate(unwrap(self.build))
        if not dofit:
            return
        opts = {}
        if reg in ("l2", "en"):
            opts["l2_reg"] = TT.var("l2")
        if reg in ("l1", "en"):
            opts["l1_reg"] = TT.var("l1")
        self.opts = opts
        self.res = self.d.fit(self.model, opts)
        self.fit = unwrap(self.res)
        self.pf = fields(self.I, self.fit)
        self.base = self.d.st.copy()
        self.memo = {}

    # ---- the standardizer's tables become leaves mu(j), sd(j)
    def abbreviate(self, model):
        found = []
        walk(model, lambda v: found.append(v) if isinstance(v, Struct) and v.name == "Standardizer" else None)
        self.std = None
        if len(found) != 1:
            return model
        f = fields(self.I, found[0])
        sh, sc = f.get("shifts"), f.get("scales")
        if not (isinstance(sh, Arr) and isinstance(sc, Arr)):
            return model
        self.std = {"mu": sh, "sd": sc}
        m = {}
        for ix in (D[0], D[1], TT.add(D[1], num(-1)), TT.add(D[0], num(-1))):
            for nm, a in (("mu", sh), ("sd", sc)):
                t = a.at(ix)
                if isinstance(t, T) and t.op not in ("num", "idx"):
                    m[t] = TT.app(nm, ix)
        # shifts appear inside scales: replace the larger terms first
        keys = sorted(m, key=lambda t: -t.h)
        big = {k: m[k] for k in keys if m[k].args[0] == "sd"}
        small = {k: m[k] for k in keys if m[k].args[0] == "mu"}

        def rep(a):
            b = a.body
            if isinstance(b, (T, B)):
                if big:
                    b = TT.subst(b, big)
                if small:
                    b = TT.subst(b, small)
            return Arr(a.shape, b)
        self.raw_model = model
        return vmap(model, rep)

    # ---- public observables
    def call(self, name, *args, recv="Fit", selfv=None):
        """analyse a method of the fit from a clean state; returns the value"""
        key = (name, tuple(repr(a)[:200] for a in args))
        if key in self.memo:
            return self.memo[key]
        self.d.st = self.base.copy()
        ks = self.I.find(recv, name)
        if not ks:
            raise Missing(f"{recv}::{name}")
        k = self.I.one(recv, name)
        gens = [g for g in self.I.bodies[k]["generics"] if g]
        env = {**{g: P(g) for g in gens}, **self.d.env}
        a = [self.fit if selfv is None else selfv] + list(args)
        v = self.I.call_local(k, env, a, self.d.st)
        self.end = self.d.st
        self.memo[key] = v
        return v

    # ---- input symbols
    def y(s, i): return TT.app("y", i)
    def x(s, i, j): return TT.app("x", i, j)
    def w(s, i): return TT.app("w", i) if "weights" in s.flags else ONE
    def fr(s, i): return TT.app("fr", i) if "freqs" in s.flags else ONE
    def off(s, i): return TT.app("off", i) if "offset" in s.flags else ZERO

    def wt(s, i): return TT.mul(s.fr(i), s.w(i))

    def X(s, i, k):
        """design matrix in the user's coordinates"""
        return TT.ite(TT.eq(k, ZERO), ONE, s.x(i, TT.sub(k, ONE))) if s.int else s.x(i, k)

    def sd(s, j):
        if s.std is None:
            return ONE
        t = s.std["sd"].at(j)
        return t if t.op == "num" else TT.app("sd", j)

    def mu(s, j):
        if s.std is None:
            return ZERO
        t = s.std["mu"].at(j)
        return t if t.op == "num" else TT.app("mu", j)

    def sdk(s, k):
        """scale of parameter k (1 for the intercept)"""
        return TT.ite(TT.eq(k, ZERO), ONE, s.sd(TT.sub(k, ONE))) if s.int else s.sd(k)

    def isint(s, k):
        return TT.eq(k, ZERO) if s.int else FALSE

    def b(s, k):
        r = s.pf.get("result")
        if not isinstance(r, Arr):
            raise Give("fit result is not an array")
        return r.at(k)

    def sumk(s, f):
        k = TT.idx("k")
        return TT.sum_over(f(k), k, s.K)

    def sumn(s, f):
        i = TT.idx("i")
        return TT.sum_over(f(i), i, N)


class Missing(Exception):
    pass
