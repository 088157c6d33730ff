"""The concrete response families and link functions of the crate, as terms in elementary functions."""
from values import *
import terms as TT
from interp import *
from model import P, N
import evalt
import mpmath

W = TT.var("omega")
Y = TT.var("yy")
MU = TT.var("mu0")
ETA = TT.var("eta")


def adt(key, m, args=()):
    return {"k": "adt", "name": key.rsplit("::", 1)[1], "crate": m["crate"], "key": key, "args": list(args)}


class Fam:
    """one (family, link) pair"""

    def __init__(self, m, link_impl, fl=None):
        self.m = m
        self.I = Interp(m, {"noleaf": True})
        a = link_impl["trait"]["args"]
        self.link, self.M = a[0], a[1]
        self.impl = link_impl
        self.name = self.M["name"]
        self.lname = self.link["name"]
        self.F = fl or P("F")
        self.tk = {v["name"]: k for k, v in m["traits"].items()}

    def __repr__(self):
        return f"{self.name}<{self.lname}>"

    def call(self, trait, name, *args, st=None):
        tk = self.tk.get(trait)
        if tk is None or name not in self.m["traits"][tk]["items"]:
            raise Missing(f"{trait}::{name}")
        targs = {"Glm": [self.M], "Link": [self.link, self.M], "Transform": [self.link], "Response": [self.M]}[trait] + [self.F]
        if trait == "Response":
            targs = targs[:-1]
        st = st or St()
        r = self.I.resolve_trait({"key": tk + "::" + name, "name": name, "args": targs}, targs, list(args), st)
        if r is None:
            raise Missing(f"{trait}::{name} for {self}")
        if callable(r):
            return r()
        self.last = r[0]
        return self.I.call_local(r[0], r[1], list(args), st)

    def where(self, trait, name):
        import where
        tk = self.tk[trait]
        targs = {"Glm": [self.M], "Link": [self.link, self.M], "Transform": [self.link], "Response": [self.M]}[trait]
        im, _ = self.I.find_impl(tk, targs)
        k = im["items"].get(name) if im else None
        k = k or self.m["traits"][tk]["items"][name]["key"]
        return where.fn_name(self.m, k)

    def sc(self, v):
        if isinstance(v, (T,)):
            return v
        raise Give(f"not a scalar: {v!r:.60}")

    def g(self, t): return self.sc(self.call("Link", "func", t))
    def ginv(self, t): return self.sc(self.call("Link", "func_inv", t))
    def V(self, t): return self.sc(self.call("Glm", "variance", t))
    def A(self, t): return self.sc(self.call("Glm", "log_partition", t))
    def sat(self, t): return self.sc(self.call("Glm", "log_like_sat", t))
    def ll(self, y, n): return self.sc(self.call("Glm", "log_like_natural", y, n))

    def arr1(self, name, t, ref):
        a = Arr((N,), t)
        st = St()
        v = a
        if ref:
            c = ("fam", 0)
            st.cells[c] = a
            v = Ref(c)
        r = self.call("Transform", name, v, st=st)
        if isinstance(r, Ref):
            r = self.I.load(st, r)
        if not isinstance(r, Arr):
            raise Give(f"{name}: {r!r:.60}")
        return r

    def nat(self, t): return self.sc(self.arr1("nat_param", t, False).body)
    def dnat(self, t): return self.sc(self.arr1("d_nat_param", t, True).body)


class Missing(Exception):
    pass


def families(m, fl=None):
    tk = next(k for k, v in m["traits"].items() if v["name"] == "Link")
    out = []
    for im in m["impls"]:
        if im.get("trait") and im["trait"]["key"] == tk:
            a = im["trait"]["args"]
            if a[0]["k"] == "adt" and a[1]["k"] == "adt":
                out.append(Fam(m, im, fl))
    return out


if __name__ == "__main__":
    import json
    m = json.load(open("/tmp/m.json"))
    for f in families(m):
        print(f)
        for nm, g, a in (("g", f.g, (Y,)), ("ginv", f.ginv, (W,)), ("V", f.V, (MU,)), ("A", f.A, (ETA,)), ("sat", f.sat, (Y,)), ("ll", f.ll, (Y, ETA)), ("nat", f.nat, (W,)), ("dnat", f.dnat, (W,))):
            try:
                print("  ", nm, g(*a))
            except Exception as e:
                print("  ", nm, type(e).__name__, e)
