"""One step of the iterative solver, from an arbitrary solver state."""
from values import *
import terms as TT
from ctx import *
from interp import *
import loops

SYM_OPTS = {"max_iter": "max_iter", "tol": "tol"}


class Step:
    """abstract run of the iterator's next() on a symbolic state"""

    def __init__(self, m, flags=(), reg=None, done=False, inv=True, cfg=None):
        c = self.c = Ctx(m, flags, reg, cfg=cfg)
        I = self.I = c.I
        run = c.I.runs[0]
        self.irls0 = run["irls0"]
        ad = I.adts[self.irls0.key]
        self.names = [f["name"] for f in ad["variants"][0]["fields"]]
        f0 = dict(zip(self.names, self.irls0.fields))
        self.f0 = f0
        K = c.K
        self.g = lambda k: TT.app("gs", k)
        self.guess = Arr((K,), self.g(D[0]))
        f = dict(f0)
        f["guess"] = self.guess
        f["n_iter"] = TT.var("n_iter")
        f["done"] = FALSE if not done else TRUE
        f["last_like_data"] = TT.var("last_like")
        f["history"] = Seq(TT.var("n_hist"), self.mkstep(m, TT.app("hb", SQ, D[0]), TT.app("hl", SQ)), ZERO, None)
        f["options"] = self.symopts(f0["options"])
        f["reg"] = self.symreg(f0["reg"])
        self.f = f
        self.opts = fields(I, f["options"])
        self.reg = fields(I, f["reg"])
        self.irls = Struct(self.irls0.key, self.irls0.name, [f[n] for n in self.names])

    def mkstep(self, m, g, l):
        key = next(k for k, a in m["adts"].items() if a["name"] == "IrlsStep")
        ns = [f["name"] for f in m["adts"][key]["variants"][0]["fields"]]
        v = {"guess": Arr((self.c.K,), g), "like": l}
        return Struct(key, "IrlsStep", [v.get(n, Opq(n)) for n in ns])

    def symopts(self, o):
        ns = [f["name"] for f in self.I.adts[o.key]["variants"][0]["fields"]]
        return Struct(o.key, o.name, [TT.var(n) if n in SYM_OPTS else x for n, x in zip(ns, o.fields)])

    def symreg(self, r):
        if not isinstance(r, Struct):
            return r
        fs = fields(self.I, r)
        out = []
        for n, x in fs.items():
            if n in ("dual", "cum_res"):
                out.append(Arr((self.c.K,), TT.app({"dual": "zd", "cum_res": "uc"}[n], D[0])))
            elif n in ("rho", "r_sq", "s_sq"):
                out.append(TT.var(n))
            else:
                out.append(x)
        return Struct(r.key, r.name, out)

    def run(self):
        I = self.I
        st = self.c.d.st = self.c.base.copy()
        ref = self.c.d.cell(self.irls)
        tk = "core::iter::traits::iterator::Iterator"
        im = next(i for i in I.m["impls"] if i.get("trait") and i["trait"]["key"] == tk and i["self"].get("key") == self.irls.key)
        env = {"M": P("M"), "F": P("F")}
        self.res = I.call_local(im["items"]["next"], env, [ref], st)
        self.after = I.load(st, ref)
        self.af = fields(I, self.after) if isinstance(self.after, Struct) else {}
        return self.res


if __name__ == "__main__":
    import json, sys
    m = json.load(open("/tmp/m.json"))
    reg = sys.argv[1] if sys.argv[1] != "none" else None
    s = Step(m, ("intercept",), reg)
    r = s.run()
    print(repr(r)[:1500])
    for k, v in s.af.items():
        if k != "data":
            print(k, repr(v)[:1200])
    print(s.I.events[:5])
