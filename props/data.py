"""C10, C26, C40, C41: what the builder accepts and stores, internal scaling, and fit options."""
import itertools
import world
import where
import decide
import evalt
import stats
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN
from ctx import *
from interp import *
from values import *
from model import FLAGS, Drv
import terms as TT

WB = "src/model.rs::ModelBuilderData::build"
ALLF = [fl for r in range(6) for fl in itertools.combinations(FLAGS, r)]
lab = lambda fl: f"[{','.join(fl) or 'plain'}]"


def tasks(pid, tier):
    for fl in ALLF:
        yield ({"C10": "scaling", "C26": "options", "C40": "validation", "C41": "stored"}[pid], dict(flags=fl), 200)
    if pid == "C40":
        yield ("twice", {})
    if pid == "C26":
        yield ("setters", {})


# ------------------------------------------------------------------ C40
DIMS = ("ny", "nx", "pp", "nf", "nw", "no")


def raw_builder(d, flags, order=None):
    v = TT.var
    y = Arr((v("ny"),), TT.app("y", D[0]))
    x = Arr((v("nx"), v("pp")), TT.app("x", D[0], D[1]))
    b = d.call("ModelBuilder", "data", y, x)
    for f in order or FLAGS:
        if f == "freqs" and f in flags:
            b = d.call("ModelBuilderData", "freq_weights", b, Arr((v("nf"),), TT.app("fr", D[0])))
        if f == "weights" and f in flags:
            b = d.call("ModelBuilderData", "var_weights", b, Arr((v("nw"),), TT.app("w", D[0])))
        if f == "offset" and f in flags:
            b = d.call("ModelBuilderData", "linear_offset", b, Arr((v("no"),), TT.app("off", D[0])))
        if f == "intercept" and f not in flags:
            b = d.call("ModelBuilderData", "no_constant", b)
        if f == "standardize" and f not in flags:
            b = d.call("ModelBuilderData", "no_standardize", b)
    return b


def validation(flags):
    m = world.prog()
    nm = f"dimensions are checked {lab(flags)}"
    d = Drv(m, flags, cfg={"into_float": "sym"})
    try:
        r = d.call("ModelBuilderData", "build", raw_builder(d, flags))
    except Give as e:
        return [Ob(nm, UNKNOWN, f"gave up: {e}", WB)]
    if not isinstance(r, Enum):
        return [Ob(nm, UNKNOWN, f"{r!r:.60}", WB)]
    okc = r.alts.get(0, (FALSE,))[0]
    used = ["ny", "nx"] + [k for f, k in (("freqs", "nf"), ("weights", "nw"), ("offset", "no")) if f in flags]
    bad = panic = None
    cnt = 0
    try:
        for vals in itertools.product((1, 2, 3), repeat=len(used)):
            for p in (1, 2) if len(used) < 5 else (1,):
                dm = dict(zip(used, vals), pp=p)
                for valid in (True, False):
                    ip = evalt.Interp(7, ints=dm, funcs={"valid_y": lambda *a: valid})
                    got = ip.evb(okc, {})
                    want = len(set(vals)) == 1 and valid
                    cnt += 1
                    if got != want:
                        bad = bad or f"{'accepted' if got else 'rejected'} with {dm}" + ("" if valid else " and an invalid response")
                    for kind, g, fn, det in d.I.events:
                        if kind == "panic" and ip.evb(g, {}):
                            panic = panic or f"panics ({det}) with {dm} in {where.fn_name(m, fn)}"
    except evalt.OpaqueTerm as e:
        if not bad:
            return [Ob(nm, UNKNOWN, f"opaque: {e}", WB)]
    out = [Ob(nm, REFUTED if bad else AGREE, bad or f"{cnt} shapes", WB), Ob(f"no input shape panics {lab(flags)}", REFUTED if panic else AGREE, panic or f"{cnt} shapes", WB)]
    # which error
    e = r.alts.get(1)
    if e and isinstance(e[1][0], Enum):
        en = e[1][0]
        vn = [v["name"] for v in m["adts"][en.key]["variants"]]
        kinds = {vn[k] for k, (c, _) in en.alts.items() if c is not FALSE}
        out.append(Ob(f"kind of error {lab(flags)}", PROVED if kinds <= {"BadInput", "InvalidY"} else REFUTED, ", ".join(sorted(kinds)), WB))
    return out


def twice():
    """giving the same data twice is an error"""
    m = world.prog()
    out = []
    sets = {"linear_offset": "off", "freq_weights": "fr", "var_weights": "w"}
    n = TT.var("n")
    for name, sym in sets.items():
        rest = [s for s in sets if s != name] + ["no_constant", "no_standardize"]
        for r in range(len(rest) + 1):
            for other in itertools.combinations(rest, r):
                for pos in ("before", "in between", "after") if other else ("",):
                    d = Drv(m, (), cfg={"into_float": "sym"})
                    b = d.call("ModelBuilder", "data", Arr((n,), TT.app("y", D[0])), Arr((n, PX), TT.app("x", D[0], D[1])))

                    def more(b):
                        for o in other:
                            b = d.call("ModelBuilderData", o, b, *([Arr((n,), TT.app(sets[o], D[0]))] if o in sets else []))
                        return b
                    b = more(b) if pos == "before" else b
                    b = d.call("ModelBuilderData", name, b, Arr((n,), TT.app(sym, D[0])))
                    b = more(b) if pos == "in between" else b
                    b = d.call("ModelBuilderData", name, b, Arr((n,), TT.app(sym + "2", D[0])))
                    b = more(b) if pos == "after" else b
                    res = d.call("ModelBuilderData", "build", b)
                    nm = f"{name} given twice is an error" + (f" ({', '.join(other)} {pos})" if other else "")
                    w = where.fn_name(m, d.I.one("ModelBuilderData", name))
                    if not isinstance(res, Enum):
                        out.append(Ob(nm, UNKNOWN, f"{res!r:.60}", w))
                        continue
                    okc = res.alts.get(0, (FALSE,))[0]
                    if okc is FALSE:
                        out.append(Ob(nm, PROVED, "", w))
                        continue
                    try:
                        got = any(evalt.Interp(s, ints=dict(n=3, p=2), funcs={"valid_y": lambda *a: True}).evb(okc, {}) for s in range(5))
                        out.append(Ob(nm, REFUTED if got else AGREE, "the second value is accepted" if got else "", w))
                    except evalt.OpaqueTerm as e:
                        out.append(Ob(nm, UNKNOWN, f"opaque: {e}", w))
    return out


# ------------------------------------------------------------------ C41
def opt_arr(v):
    if isinstance(v, Enum):
        alts = {k: x for k, x in v.alts.items()}
        if set(alts) == {0}:
            return None
        if set(alts) == {1}:
            return alts[1][1][0]
    return "?"


WILD = {"fr": [0, 1, 2, 70000, 2 ** 24 + 1, 2 ** 32 + 5, 2 ** 31, 2 ** 40], "w": [0.0, 1e-30, 1e-9, 0.1, 1.0, 3.0, 1e9, 1e30], "off": [0.0, -1e30, 1e-30, -1e-9, 0.1, -1.0, 700.0, 1e30]}
WILD["y"] = WILD["off"]


def kept(name, got, s, sd):
    """the stored array is the one given, whatever its values"""
    want = Arr((N,), TT.app(s, D[0]))
    r = decide.decide(name, got, want, WB, seeds=sd)
    if r.verdict == AGREE:
        for one in (True, False):
            # a value from the list everywhere, or all kinds of values together
            for k in range(len(WILD[s]) if one else 3):
                def wild(ip):
                    ip.funcs[s] = lambda i: WILD[s][k if one else int(evalt._h(ip.seed, s, int(i)) * len(WILD[s]))]
                q = decide.decide(name, got, want, WB, seeds=sd[:1] if one else sd, interp_kw=dict(setup=wild), prove=False, rtol=1e-12, steer=False)
                if q.verdict == REFUTED:
                    return q
    return r


def stored(flags):
    m = world.prog()
    out = []
    sd = world.seeds()
    for order in (FLAGS, tuple(reversed(FLAGS))):
        d = Drv(m, flags)
        v = TT.var
        tag = f"{lab(flags)}" + ("" if order == FLAGS else " (settings given in reverse order)")
        b = raw_builder(d, flags, order)
        r = d.call("ModelBuilderData", "build", b)
        model = unwrap(r)
        ds = fields(d.I, fields(d.I, model)["data"])
        facts = {v(k): v("n") for k in ("ny", "nx", "nf", "nw", "no")}
        facts[v("pp")] = PX
        get = lambda k: vsubst(ds[k], facts)
        out.append(kept(f"responses {tag}", get("y"), "y", sd))
        for k, f, s in (("linear_offset", "offset", "off"), ("weights", "weights", "w"), ("freqs", "freqs", "fr")):
            a = opt_arr(get(k))
            nm = f"{k.replace('_', ' ')} {tag}"
            if a == "?":
                out.append(Ob(nm, UNKNOWN, f"{ds[k]!r:.60}", WB))
            elif a is None:
                out.append(Ob(nm, REFUTED if f in flags else PROVED, "dropped" if f in flags else "", WB))
            elif f not in flags:
                out.append(Ob(nm, REFUTED, "present although never given", WB))
            else:
                out.append(kept(nm, a, s, sd))
        hi = ds.get("has_intercept")
        if isinstance(hi, B):
            out.append(Ob(f"intercept {tag}", PROVED if hi is (TRUE if "intercept" in flags else FALSE) else REFUTED, f"{hi}", WB))
        K = TT.add(PX, ONE) if "intercept" in flags else PX
        x = get("x")
        if isinstance(x, Arr):
            ok = len(x.shape) == 2 and decide.decide("", x.shape[1], K, seeds=sd).verdict in (PROVED, AGREE)
            out.append(Ob(f"columns of the design matrix {tag}", PROVED if ok else REFUTED, f"{x.shape[1]}", WB))
    return out


# ------------------------------------------------------------------ C10
def scaling(flags):
    m = world.prog()
    out = []
    sd = world.seeds()
    c = Ctx(m, flags, None)
    std = "standardize" in flags
    tag = lab(flags)
    ws = "src/data.rs::Standardizer"
    wsum = c.sumn(lambda i: c.wt(i))
    if std:
        s = stats.Spec(c)
        mean = lambda j: c.sumn(lambda i: c.wt(i) * c.x(i, j)) / wsum
        ne = s.neff()
        var = lambda j: c.sumn(lambda i: c.wt(i) * (c.x(i, j) - mean(j)) ** 2) / wsum * ne / (ne - ONE)
        mu = Arr((PX,), mean(D[0]) if c.int else ZERO)
        vj = var(D[0])
        scale = TT.ite(TT.le(ne, ONE), ONE, TT.ite(TT.lt(ZERO, vj), TT.sqrt(vj), ONE))
        shapes = [dict(n=5, p=2), dict(n=6, p=3), dict(n=2, p=1), dict(n=1, p=2)]
        if c.std is not None:
            out.append(decide.decide(f"column shifts are the weighted means {tag}", c.std["mu"], mu, ws, seeds=sd))
            out.append(decide.decide(f"column scales are the weighted standard deviations {tag}", c.std["sd"], Arr((PX,), scale), ws, seeds=sd, shapes=shapes))
        # and the stored columns themselves
        col = lambda j: TT.div(c.x(D[0], j) - (mean(j) if c.int else ZERO), TT.subst(scale, {D[0]: j}))
        xs = fields(c.I, fields(c.I, getattr(c, "raw_model", c.model))["data"]).get("x")
        want = TT.ite(TT.eq(D[1], ZERO), ONE, col(TT.sub(D[1], ONE))) if c.int else col(D[1])
        if isinstance(xs, Arr):
            out.append(decide.decide(f"columns are centred and scaled {tag}", xs, Arr(xs.shape, want), ws, seeds=sd, shapes=shapes + [dict(n=3, p=3), dict(n=2, p=4)], prove=False))
        else:
            out.append(Ob(f"columns are centred and scaled {tag}", UNKNOWN, "design matrix not found", ws))
    # the linear predictor does not depend on the scaling: internal design x internal coefficients = user's
    ds = fields(c.I, fields(c.I, c.model)["data"])
    x = ds.get("x")
    run = c.I.runs[0]
    if isinstance(x, Arr):
        k = TT.idx("k")
        bstd = run["beta"]
        inner = TT.sum_over(x.at(D[0], k) * bstd.at(k), k, c.K)
        s = stats.Spec(c)
        want = c.sumk(lambda q: c.X(D[0], q) * c.b(q))
        out.append(decide.decide(f"scaled data and coefficients give the user's linear predictor {tag}", Arr((N,), inner), Arr((N,), want), "src/data.rs", seeds=sd))
        # round trip of coefficients given by the user
        try:
            c2 = fit_from(m, flags)
            out.append(start(c2, f"coefficients given by the user keep their linear predictor {tag}"))
        except Give as e:
            out.append(Ob(f"round trip {tag}", UNKNOWN, f"{e}", "src/data.rs"))
    return out


def fit_from(m, flags, **setopt):
    """a fit whose options carry a starting guess"""
    c = Ctx(m, flags, None, dofit=False)
    d = c.d
    cfgv = d.call("Model", "fit_options", c.model)
    fo = fields(c.I, cfgv)["options"]
    ns = [f["name"] for f in c.I.adts[fo.key]["variants"][0]["fields"]]
    new = dict(zip(ns, fo.fields))
    new["init_guess"] = some(Arr((c.K,), TT.app("ig", D[0])))
    new.update(setopt)
    fo2 = Struct(fo.key, fo.name, [new[n] for n in ns])
    cf = d.call("Model", "with_options", c.model, fo2)
    c.res = d.call("FitConfig", "fit", cf)
    c.fo2 = fo2
    return c


def start(c, nm):
    """the solver's first coefficients have the linear predictor of the starting guess"""
    g0 = fields(c.I, c.I.runs[0]["irls0"])["guess"]
    k = TT.idx("k")
    want = c.sumk(lambda q: c.X(D[0], q) * TT.app("ig", q))
    x = fields(c.I, fields(c.I, c.model)["data"]).get("x")
    if not isinstance(x, Arr):
        return Ob(nm, UNKNOWN, "design matrix not found", "src/data.rs")
    inner = TT.sum_over(x.at(D[0], k) * g0.at(k), k, c.K)
    return decide.decide(nm, Arr((N,), inner), Arr((N,), want), "src/glm.rs", seeds=world.seeds())


# ------------------------------------------------------------------ C26
def options(flags):
    """every option reaches the solver, for every kind of data"""
    m = world.prog()
    out = []
    w = "src/fit/options.rs::FitConfig"
    c = fit_from(m, flags, max_iter=TT.var("max_iter"), tol=TT.var("tol"), l1=TT.var("l1"), l2=TT.var("l2"))
    run = c.I.runs[0]
    f0 = fields(c.I, run["irls0"])
    o = fields(c.I, f0["options"])
    want = fields(c.I, c.fo2)
    for k in ("max_iter", "tol", "l1", "l2"):
        if k in o:
            out.append(Ob(f"{k.replace('_', ' ')} reaches the solver {lab(flags)}", PROVED if same(o[k], want[k]) else REFUTED, f"{o[k]}", w))
    # the starting guess arrives, in the solver's coordinates
    out.append(start(c, f"coefficients given as the start reach the solver {lab(flags)}"))
    # reported options are those given
    fit = unwrap(c.res)
    po = fields(c.I, fit).get("options")
    if isinstance(po, Struct):
        p = fields(c.I, po)
        for k in ("max_iter", "tol", "l1", "l2"):
            out.append(Ob(f"{k.replace('_', ' ')} is reported by the fit {lab(flags)}", PROVED if same(p[k], want[k]) else REFUTED, f"{p[k]}", w))
    return out


def setters():
    m = world.prog()
    out = []
    w = "src/fit/options.rs::FitConfig"
    vals = {"max_iter": ("max_iter", TT.var("max_iter")), "tol": ("tol", TT.var("tol")), "l2_reg": ("l2", TT.var("l2")), "l1_reg": ("l1", TT.var("l1"))}
    base = None
    for r in range(5):
        for sel in itertools.permutations(vals, r):
            c = Ctx(m, ("intercept",), None, dofit=False)
            cf = c.d.call("Model", "fit_options", c.model)
            o0 = fields(c.I, fields(c.I, cf)["options"])
            for nm in sel:
                cf = c.d.call("FitConfig", nm, cf, vals[nm][1])
            o = fields(c.I, fields(c.I, cf)["options"])
            bad = []
            for nm, (f, v) in vals.items():
                want = v if nm in sel else o0[f]
                if not same(o[f], want):
                    bad.append(f"{f} is {o[f]} instead of {want}")
            if "init_guess" in o and not same(o["init_guess"], o0["init_guess"]):
                bad.append("the starting guess changes")
            out.append(Ob(f"setting {', '.join(sel) or 'nothing'}", REFUTED if bad else PROVED, "; ".join(bad), w))
            if not sel:
                bad = [f for f in ("l1", "l2") if o0[f] is not ZERO]
                ig = o0.get("init_guess")
                if isinstance(ig, Enum) and set(ig.alts) != {0}:
                    bad.append("init_guess")
                if not (isinstance(o0["max_iter"], T) and o0["max_iter"].op == "num" and o0["max_iter"].args[0] > 0):
                    bad.append("max_iter")
                out.append(Ob("defaults: no penalty, no starting guess, a positive iteration limit", REFUTED if bad else PROVED, ", ".join(bad), w))
                # fit() is fit_options().fit()
    for meth in ("fit",):
        c = Ctx(m, ("intercept",), None, dofit=False)
        c.d.call("Model", meth, c.model)
        c2 = Ctx(m, ("intercept",), None)
        a, b = fields(c.I, c.I.runs[0]["irls0"]), fields(c2.I, c2.I.runs[0]["irls0"])
        out.append(Ob("fit without options uses the defaults", PROVED if same(a["options"], b["options"]) else REFUTED, f"{a['options']}", "src/model.rs::Model::fit"))
    return out
