"""C30-C36: response families, links, responses and response distributions."""
import itertools
import mpmath
from mpmath import mp, mpf
import world
import where
import evalt
import decide
import fam
from fam import families, W, Y, MU, ETA, P, N
from interp import *
from values import *
import terms as TT
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN

DPS = 600
NB = 7          # a concrete number of trials

# ---- what each named family is (the specification)
ln, exp, sqrt = mpmath.log, mpmath.exp, mpmath.sqrt
pos = [mpf(10) ** e for e in (-12, -5, -2, -1)] + [mpf(3) / 10, mpf(1), mpf(2), mpf(7) / 2, mpf(10), mpf(50), mpf(123456)]
unit = [mpf(1) / 10 ** 9, mpf(1) / 1000, mpf(1) / 10, mpf(3) / 10, mpf(1) / 2, mpf(7) / 10, mpf(95) / 100, 1 - mpf(1) / 10 ** 7]
real = [mpf(x) for x in (-50, -7.5, -2, -1, -0.5, -0.01, 0, 0.01, 0.3, 1, 2, 3.5, 9, 60)]
SPEC = {
    "Linear": dict(mu=real, g0=lambda m: m, V=lambda m: mpf(1), disp="FreeDispersion", A=lambda n: n * n / 2, ysup=real, y=real),
    "Poisson": dict(mu=pos, g0=ln, V=lambda m: m, disp="NoDispersion", y=[mpf(k) for k in (0, 1, 2, 5, 17, 1000, 2 ** 24 + 1, 3 * 10 ** 9, 2 ** 53 + 2)]),
    "Logistic": dict(mu=unit, g0=lambda m: ln(m / (1 - m)), V=lambda m: m * (1 - m), disp="NoDispersion", y=[mpf(0), mpf(1)] + unit),
    "Binomial": dict(mu=[NB * u for u in unit], g0=lambda m: ln(m / (NB - m)), V=lambda m: m * (NB - m) / NB, disp="NoDispersion", y=[mpf(k) for k in range(NB + 1)]),
    "Exponential": dict(mu=pos, g0=lambda m: -1 / m, V=lambda m: m * m, disp="NoDispersion", y=pos),
    "Gamma": dict(mu=pos, g0=lambda m: -1 / m, V=lambda m: m * m, disp="FreeDispersion", y=pos),
    "InvGaussian": dict(mu=pos, g0=lambda m: -1 / (2 * m * m), V=lambda m: m ** 3, disp="FreeDispersion", y=pos),
}
# link name -> g for the families it is offered for
LINKS = {
    "Id": lambda f: (lambda m: m), "Log": lambda f: ln, "Logit": lambda f: SPEC[f]["g0"], "NegRec": lambda f: (lambda m: -1 / m),
    "NegRecSq": lambda f: (lambda m: -1 / (2 * m * m)), "Cloglog": lambda f: (lambda m: ln(-ln(1 - m))),
}
NBN = {"N": NB}
TRIALS = (7, 1, 12, 5000, 65535)
FMT = {}            # values of the format's constants while they are not idealised
POSX = [mpf(10) ** e for e in (-60, -20, -9, 7, 9, 13, 18)]
UNITX = [mpf(10) ** e for e in (-20, -17, -12)] + [1 - mpf(10) ** e for e in (-11, -13)]
REALX = [mpf(10) ** e * s for e in (-20, -9, 7, 18) for s in (1, -1)]


def trials(nb):
    """the number of trials the binomial family is looked at with"""
    global NB
    NB = nb
    NBN["N"] = nb
    SPEC["Binomial"].update(mu=[nb * u for u in unit], g0=lambda m: ln(m / (nb - m)), V=lambda m: m * (nb - m) / nb,
                            y=[mpf(k) for k in sorted({0, 1, 2, 3, nb // 2, nb - 2, nb - 1, nb}) if 0 <= k <= nb])


def extreme(f):
    return [NB * u for u in UNITX] if f.name == "Binomial" else UNITX if f.name == "Logistic" else REALX if f.name == "Linear" else POSX


def trialed(fn):
    def run(k, nb=7):
        trials(nb)
        out = fn(k)
        if fams()[k].name == "Binomial":
            for o in out:
                o.name += f" ({nb} trials)"
        return out
    return run


def each_family(fs):
    """(index, trials) to look at"""
    for k, f in enumerate(fs):
        for nb in TRIALS if f.name == "Binomial" else (7,):
            yield k, nb


def val(t, **v):
    """value of an extracted term at a point"""
    ip = evalt.Interp(1, values={**NBN, **FMT, **v})
    ip.hp = True
    ip.ints = {"N": NB}
    ip.seen = set()
    return ip.ev(t, {})


def consts_of(t):
    i, r = decide.atom_consts(decide.all_atoms(t))
    return sorted(set(i) | set(r))


def extra_points(t, pts):
    """sample around every threshold of the term's conditions (through exp/abs too: also log/exp images)"""
    lo, hi = min(pts), max(pts)
    out = []
    for c in consts_of(t):
        for img in (c, -c, (ln(c) if c > 0 else None), (exp(c) if c < 100 else None)):
            if img is None:
                continue
            for d in (mpf("0.9"), mpf("0.999"), mpf("1.001"), mpf("1.1")):
                x = mpf(img) * d if img != 0 else (d - 1) * mpf("0.5")
                if lo <= x <= hi:
                    out.append(x)
    return out[:60]


def dense(pts):
    """fill in between"""
    s = sorted(pts)
    return s + [(a + b) / 2 for a, b in zip(s, s[1:])] + [(a * 3 + b) / 4 for a, b in zip(s, s[1:])]


def check(name, w, pts, f, tol=mpf(10) ** -40, ext=None):
    """f(point) -> (got, want); points `ext` are compared with the constants of double precision in place"""
    if ext is not None:
        FMT.update(eps=mpf(2) ** -52, tiny=mpf(2) ** -1022, huge=mpf(2) ** 1024)
        try:
            r = check(name, w, list(ext) + list(pts), f, tol=None)
        finally:
            FMT.clear()
        if r.verdict != AGREE:
            return r
    with mp.workdps(DPS):
        k = 0
        for x in pts:
            try:
                a, b = f(x)
            except evalt.OpaqueTerm as e:
                return Ob(name, UNKNOWN, f"opaque: {e}", w)
            if isinstance(a, mpmath.mpc):
                a = a.real if a.imag == 0 else mpf("nan")
            a, b = mpf(a), mpf(b)
            k += 1
            lim = tol * (1 + abs(a) + abs(b)) if tol is not None else mpf(10) ** -9 * abs(b) + mpf(10) ** -150
            bad = a != b and not (abs(a - b) <= lim or (mpmath.isnan(a) and mpmath.isnan(b)))
            if bad:
                return Ob(name, REFUTED, f"at {mpmath.nstr(mpf(x) if not isinstance(x, tuple) else x[0], 8)}{'' if not isinstance(x, tuple) else ', ' + mpmath.nstr(x[1], 8)}: {mpmath.nstr(a, 12)} instead of {mpmath.nstr(b, 12)}", w)
    return Ob(name, AGREE, f"{k} points, {DPS} digits", w)


H = mpf(10) ** -120


def d1(f, x):
    h = H * (1 + abs(x)) if abs(x) > mpf(10) ** -30 else H
    return (f(x + h) - f(x - h)) / (2 * h)


def d2(f, x):
    h = H * (abs(x) if abs(x) > mpf(10) ** -30 else 1)
    return (f(x + h) - 2 * f(x) + f(x - h)) / (h * h)


def give(name, w, e):
    return Ob(name, UNKNOWN, f"gave up: {type(e).__name__}: {e}"[:200], w)


def guarded(out, name, w, thunk):
    try:
        out.append(thunk())
    except fam.Missing as e:
        out.append(Ob(name, REFUTED, f"not found: {e}", w))
    except (Give, evalt.OpaqueTerm, KeyError, TypeError, AttributeError, ArithmeticError, ValueError) as e:
        out.append(give(name, w, e))


def fams():
    return families(world.prog("stats"))


def tasks(pid, tier):
    m = world.prog("stats")
    fs = families(m)
    have = {f.name for f in fs}
    for n in SPEC:
        if n not in have:
            yield ("missing", dict(name=n))
    for k, nb in each_family(fs):
        yield ({"C30": "coherence", "C31": "links", "C32": "overrides", "C33": "saturated", "C36": "dists"}[pid], dict(k=k, nb=nb))
    if pid == "C32":
        yield ("generic_overrides", {})


def missing(name):
    return [Ob(f"family {name}", REFUTED, "the family has no link implementation", name)]


# ------------------------------------------------------------------ C30
@trialed
def coherence(k):
    f = fams()[k]
    out = []
    sp = SPEC.get(f.name)
    if sp is None:
        return [Ob(f"{f}", UNKNOWN, "unknown family", str(f))]
    with mp.workdps(DPS):
        wA, wV = f.where("Glm", "log_partition"), f.where("Glm", "variance")

        def mean():
            A = f.A(ETA)
            pts = dense(sp["mu"]) 
            fn = lambda n: val(A, eta=n)
            return check(f"{f.name}: derivative of the log-partition is the mean", wA, pts, lambda m: (d1(fn, sp["g0"](m)), m), mpf(10) ** -60, ext=extreme(f))

        def thresholds():
            A = f.A(ETA)
            es = [sp["g0"](m) for m in dense(sp["mu"])]
            es += extra_points(A, es)
            inv = lambda n: mpmath.findroot  # noqa
            fn = lambda n: val(A, eta=n)
            V = f.V(MU)
            # V(A'(eta)) = A''(eta), over the natural domain incl. the neighbourhood of every branch threshold
            return check(f"{f.name}: variance function is the second derivative of the log-partition", wV, es,
                         lambda n: (val(V, mu0=d1(fn, n)), d2(fn, n)), mpf(10) ** -60, ext=[sp["g0"](m) for m in extreme(f)])

        def vspec():
            V = f.V(MU)
            pts = dense(sp["mu"])
            pts += extra_points(V, pts)
            return check(f"{f.name}: variance function", wV, pts, lambda m: (val(V, mu0=m), sp["V"](m)), ext=extreme(f))

        def aspec():
            """A as an integral of its mean: A(b) - A(a) compared through the Legendre transform"""
            A = f.A(ETA)
            pts = dense(sp["mu"])
            fn = lambda n: val(A, eta=n)
            x0 = sp["mu"][len(sp["mu"]) // 2]
            # Bregman identity: d/dmu [ g0(mu) mu - A(g0(mu)) ] = g0(mu)
            F = lambda m: sp["g0"](m) * m - fn(sp["g0"](m))
            return check(f"{f.name}: log-partition consistent with the canonical parameter", wA, pts, lambda m: (d1(F, m), sp["g0"](m)), mpf(10) ** -60, ext=extreme(f))

        def disp():
            tk = f.tk["Glm"]
            im, _ = f.I.find_impl(tk, [f.M])
            v = f.I.call_local(im["items"]["DISPERSED"], {}, [], St())
            key = v.key
            names = [x["name"] for x in f.m["adts"][key]["variants"]]
            got = [names[i] for i, (c, _) in v.alts.items() if c is TRUE]
            return Ob(f"{f.name}: dispersion kind", PROVED if got == [sp["disp"]] else REFUTED, f"{got}", where.fn_name(f.m, im["items"]["DISPERSED"]))
        for nm, th, w in (("mean", mean, wA), ("variance", thresholds, wV), ("vspec", vspec, wV), ("aspec", aspec, wA), ("dispersion", disp, str(f))):
            guarded(out, f"{f.name}: {nm}", w, th)
    return out


# ------------------------------------------------------------------ C31
def omegas(f, gs, mus):
    om = [gs(m) for m in mus]
    lo, hi = min(om), max(om)
    if f.lname in ("Log", "Id", "Logit"):
        om += [mpf(x) for x in (-80, -20, -3, -1, 0, 1, 3, 20, 80)]
    if f.lname == "Cloglog":
        om += [mpf(x) for x in (-80, -20, -3, -1, 0, 1, 2, 3, 5, 6, mpf("6.9"))]
    return om


@trialed
def links(k):
    f = fams()[k]
    out = []
    sp = SPEC.get(f.name)
    if sp is None or f.lname not in LINKS:
        return [Ob(f"{f}", UNKNOWN, "unknown family or link", str(f))]
    with mp.workdps(DPS):
        gs = LINKS[f.lname](f.name)
        mus = dense(sp["mu"])
        wg, wi, wn, wd = f.where("Link", "func"), f.where("Link", "func_inv"), f.where("Transform", "nat_param"), f.where("Transform", "d_nat_param")
        oms = omegas(f, gs, mus)

        def g():
            t = f.g(Y)
            pts = mus + extra_points(t, mus)
            return check(f"{f}: link function", wg, pts, lambda m: (val(t, yy=m), gs(m)), ext=extreme(f))

        def ginv():
            t = f.ginv(W)
            pts = mus
            return check(f"{f}: inverse link undoes the link", wi, pts, lambda m: (val(t, omega=gs(m)), m), mpf(10) ** -60, ext=extreme(f))

        def closure():
            t, u = f.ginv(W), f.g(Y)
            pts = oms + extra_points(t, oms)
            return check(f"{f}: link undoes the inverse link", wi, pts, lambda o: (val(u, yy=val(t, omega=o)), o), mpf(10) ** -60, ext=[gs(m) for m in extreme(f)])

        def nat():
            t, u = f.nat(W), f.ginv(W)
            pts = oms + extra_points(t, oms)
            return check(f"{f}: natural parameter is the canonical link of the mean", wn, pts, lambda o: (val(t, omega=o), sp["g0"](val(u, omega=o))), mpf(10) ** -60, ext=[gs(m) for m in extreme(f)])

        def dnat():
            t, u = f.dnat(W), f.nat(W)
            fn = lambda o: val(u, omega=o)
            pts = oms + extra_points(t, oms)
            return check(f"{f}: derivative of the natural parameter", wd, pts, lambda o: (val(t, omega=o), d1(fn, o)), mpf(10) ** -60, ext=[gs(m) for m in extreme(f)])

        def dspec():
            t, u, V, gi = f.dnat(W), f.g(Y), f.V(MU), f.ginv(W)
            fn = lambda m: val(u, yy=m)
            pts = mus
            return check(f"{f}: eta' = 1/(g'(mu) V(mu))", wd, pts, lambda m: (val(t, omega=gs(m)), 1 / (d1(fn, m) * val(V, mu0=m))), mpf(10) ** -60, ext=extreme(f))

        def shape():
            bad = []
            for nm, a in (("nat_param", f.arr1("nat_param", W, False)), ("d_nat_param", f.arr1("d_nat_param", W, True))):
                if len(a.shape) != 1 or a.shape[0] is not N:
                    bad.append(f"{nm} has shape {a.shape}")
            return Ob(f"{f}: transformations keep the length", REFUTED if bad else PROVED, "; ".join(bad), wn)
        for nm, th, w in (("link", g, wg), ("inverse", ginv, wi), ("closure", closure, wi), ("nat", nat, wn), ("dnat", dnat, wd), ("dspec", dspec, wd), ("shape", shape, wn)):
            guarded(out, f"{f}: {nm}", w, th)
    return out


# ------------------------------------------------------------------ C32 overridable functions
@trialed
def overrides(k):
    f = fams()[k]
    out = []
    sp = SPEC.get(f.name)
    if sp is None or f.lname not in LINKS:
        return [Ob(f"{f}", UNKNOWN, "unknown family or link", str(f))]
    with mp.workdps(DPS):
        gs = LINKS[f.lname](f.name)
        mus = dense(sp["mu"])
        wl = f.where("Glm", "log_like_natural")

        def ll():
            t, A = f.ll(Y, ETA), f.A(ETA)
            es = [sp["g0"](m) for m in mus]
            es += extra_points(t, es)
            pts = [(y, n) for y in sp["y"][:9] for n in es]
            return check(f"{f}: per-observation likelihood is y eta - A(eta)", wl, pts, lambda p: (val(t, yy=p[0], eta=p[1]), p[0] * p[1] - val(A, eta=p[1])),
                         ext=[(y, sp["g0"](m)) for y in sp["y"][:9] for m in extreme(f)])

        def arr(name, trait, arg, want, w, extra=(), item=None):
            def run():
                st = St()
                refs = []
                for q, a in enumerate(arg):
                    if isinstance(a, tuple):
                        c = ("fam", q)
                        st.cells[c] = a[0]
                        refs.append(Ref(c))
                    else:
                        refs.append(a)
                r = f.call(trait, name, *refs, st=st)
                if item is not None:
                    if not isinstance(r, Tup):
                        raise Give(f"{name} result")
                    r = r.items[item]
                if isinstance(r, Ref):
                    r = f.I.load(st, r)
                wa = Arr((N,), want())
                return decide.decide(f"{f}: {name}{'' if item is None else '.' + str(item)}", r, wa, w, seeds=world.seeds(), interp_kw=dict(funcs={}, values=NBN, setup=omega_setup(f, gs, sp)))
            guarded(out, f"{f}: {name}", w, run)
        i = D[0]
        o, e, v, ya = TT.app("om", i), TT.app("err", i), TT.app("vv", i), TT.app("mu", i)
        wt = lambda n: f.where("Transform", n)
        arr("link", "Glm", [Arr((N,), ya)], lambda: f.g(ya), f.where("Glm", "link"))
        arr("mean", "Glm", [(Arr((N,), o),)], lambda: f.ginv(o), f.where("Glm", "mean"))
        arr("adjusted_variance_diag", "Glm", [(Arr((N,), o),)], lambda: f.V(f.ginv(o)) * f.dnat(o) ** 2, f.where("Glm", "adjusted_variance_diag"))
        arr("adjust_errors", "Transform", [Arr((N,), e), (Arr((N,), o),)], lambda: e * f.dnat(o), wt("adjust_errors"))
        arr("adjust_variance", "Transform", [Arr((N,), v), (Arr((N,), o),)], lambda: v * f.dnat(o) ** 2, wt("adjust_variance"))
        for q, wv in ((0, lambda: e * f.dnat(o)), (1, lambda: v * f.dnat(o) ** 2)):
            arr("adjust_errors_variance", "Transform", [Arr((N,), e), Arr((N,), v), (Arr((N,), o),)], wv, wt("adjust_errors_variance"), item=q)
        guarded(out, f"{f}: likelihood", wl, ll)
    return out


def omega_setup(f, gs, sp):
    """make the uninterpreted array `om` take values in the domain of the linear predictor"""
    mus = [float(m) for m in sp["mu"] if 1e-6 < abs(m) < 1e4] or [0.5]
    if f.name in ("Logistic", "Binomial"):
        mus = [float(m) for m in sp["mu"]][1:-1]
    oms = [float(gs(mpf(m))) for m in mus]

    def set_(ip):
        def om(k):
            return oms[int(evalt._h(ip.seed, "om", int(k)) * len(oms))] if ip.tweak is None else oms[int(k) % len(oms)]

        def mu(k):
            return mus[int(evalt._h(ip.seed, "mu", int(k)) * len(mus))]
        ip.funcs["om"] = om
        ip.funcs["mu"] = mu
    return set_


def generic_overrides():
    """defaults of the traits with every defining function uninterpreted (an arbitrary user-defined family)"""
    m = world.prog("stats")
    out = []
    from ctx import Ctx
    I = Interp(m, {})
    tk = {v["name"]: k for k, v in m["traits"].items()}
    i = D[0]
    o, e, v = TT.app("om", i), TT.app("err", i), TT.app("vv", i)
    A = TT.app

    def call(trait, name, args, env, item=None):
        k = m["traits"][tk[trait]]["items"][name]["key"]
        st = St()
        refs = []
        for q, a in enumerate(args):
            if isinstance(a, tuple):
                st.cells[("fam", q)] = a[0]
                refs.append(Ref(("fam", q)))
            else:
                refs.append(a)
        gens = [g for g in m["bodies"][k]["generics"] if g]
        r = I.call_local(k, {**{g: P(g) for g in gens}, **env}, refs, st)
        if item is not None:
            r = r.items[item]
        if isinstance(r, Ref):
            r = I.load(st, r)
        return r, where.fn_name(m, k)
    arr = lambda t: Arr((N,), t)
    cases = [
        ("Glm", "link", [arr(o)], None, arr(A("g", o))), ("Glm", "mean", [(arr(o),)], None, arr(A("ginv", o))),
        ("Glm", "adjusted_variance_diag", [(arr(o),)], None, arr(A("V", A("ginv", o)) * A("dnat", o) ** 2)),
        ("Glm", "log_like_natural", [Y, ETA], None, Y * ETA - A("A", ETA)),
        ("Transform", "adjust_errors", [arr(e), (arr(o),)], None, arr(e * A("dnat", o))),
        ("Transform", "adjust_variance", [arr(v), (arr(o),)], None, arr(v * A("dnat", o) ** 2)),
        ("Transform", "adjust_errors_variance", [arr(e), arr(v), (arr(o),)], 0, arr(e * A("dnat", o))),
        ("Transform", "adjust_errors_variance", [arr(e), arr(v), (arr(o),)], 1, arr(v * A("dnat", o) ** 2)),
    ]
    for tr, name, args, item, want in cases:
        def run():
            r, w = call(tr, name, args, {"Self": P("M") if tr == "Glm" else P("L")}, item)
            return decide.decide(f"default {name}{'' if item is None else '.' + str(item)}", r, want, w, seeds=world.seeds())
        guarded(out, f"default {name}", f"{tr}::{name}", run)
    return out


# ------------------------------------------------------------------ C33
@trialed
def saturated(k):
    f = fams()[k]
    sp = SPEC.get(f.name)
    if sp is None:
        return [Ob(f"{f}", UNKNOWN, "unknown family", str(f))]
    out = []
    with mp.workdps(DPS):
        w = f.where("Glm", "log_like_sat")

        def interior():
            s = f.sat(Y)
            l = f.ll(Y, ETA)
            pts = dense(sp["mu"])
            pts += extra_points(s, pts)
            return check(f"{f}: saturated likelihood is the likelihood at mean = response", w, pts, lambda m: (val(s, yy=m), val(l, yy=m, eta=sp["g0"](m))), ext=extreme(f))

        def boundary():
            s = f.sat(Y)
            l = f.ll(Y, ETA)
            pts = [y for y in sp["y"] if not (min(sp["mu"]) <= y <= max(sp["mu"]))]

            def one(y):
                # supremum over the natural parameter: approach it from inside the domain
                eps = mpf(10) ** -200
                m = y + eps if y <= min(sp["mu"]) else y - eps
                return val(s, yy=y), val(l, yy=y, eta=sp["g0"](m))
            if not pts:
                return Ob(f"{f}: saturated likelihood at the boundary", PROVED, "no boundary responses", w)
            return check(f"{f}: saturated likelihood at the boundary", w, pts, one, mpf(10) ** -30)

        def ys():
            s = f.sat(Y)
            l = f.ll(Y, ETA)
            pts = [y for y in sp["y"] if min(sp["mu"]) <= y <= max(sp["mu"])]
            return check(f"{f}: saturated likelihood at the possible responses", w, pts, lambda y: (val(s, yy=y), val(l, yy=y, eta=sp["g0"](y))))
        for nm, th in (("interior", interior), ("boundary", boundary), ("responses", ys)):
            guarded(out, f"{f}: saturated {nm}", w, th)
    return out


# ------------------------------------------------------------------ C34 responses
NAN, INF = float("nan"), float("inf")
FLOATS = [-INF, -1e300, -1.0, -0.5, -1e-300, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 1e-12, 0.3, 0.5, 0.999, 1 - 2.0 ** -53, 1.0, 1 + 2.0 ** -52, 1.5, 2.0, 7.0, 1e30, 1.7e308, INF, NAN]
UINTS = list(range(0, 14)) + [255, 256, 4999, 5000, 5001, 65534, 65535]
SUPPORT = {
    "Linear": lambda y: -INF < y < INF,
    "Poisson": lambda y: y >= 0,
    "Logistic": lambda y: 0 <= y <= 1,
    "Binomial": lambda y: 0 <= y <= NB,
    "Exponential": lambda y: 0 < y < INF, "Gamma": lambda y: 0 < y < INF, "InvGaussian": lambda y: 0 < y < INF,
}


def yval_tasks(pid, tier):
    for nb in TRIALS:
        yield ("yvals", dict(nb=nb))
    yield ("build_errors", {})


def yvals(nb=7):
    trials(nb)
    m = world.prog("stats")
    tk = next((k for k, v in m["traits"].items() if v["name"] == "Yval"), None)
    if tk is None:
        return [Ob("response conversion", REFUTED, "trait not found", "Yval")]
    out, seen = [], set()
    for im in m["impls"]:
        if not (im.get("trait") and im["trait"]["key"] == tk):
            continue
        a = im["trait"]["args"]
        fname = a[1].get("name")
        tname = a[0].get("name")
        if fname not in SUPPORT:
            continue
        seen.add(fname)
        if nb != 7 and fname != "Binomial":
            continue
        key = im["items"]["into_float"]
        w = where.fn_name(m, key)
        I = Interp(m, {})
        env = {g: P(g) for g in im["generics"]}
        env["F"] = P("F")
        isb = tname == "bool"
        x = TT.boolvar("yb") if isb else TT.var("yy")
        nm = f"{fname} from {tname}" + (f" ({nb} trials)" if fname == "Binomial" else "")
        try:
            r = I.call_local(key, env, [x], St())
        except Exception as e:
            out.append(give(nm, w, e))
            continue
        if not isinstance(r, Enum):
            out.append(Ob(nm, UNKNOWN, f"{r!r:.60}", w))
            continue
        okc, okv = r.alts.get(0, (FALSE, (ZERO,)))
        wide = [2 ** 24 + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64 - 2 ** 11] if tname == "U" else []
        pts = [True, False] if isb else UINTS + wide if (tname in ("u16", "U", "u32", "u8", "usize")) else FLOATS
        bad = None
        k = 0
        try:
            for y in pts:
                ip = evalt.Interp(1, values={"yy": y, "yb": y, "N": NB})
                ip.funcs["is_finite"] = lambda v: abs(v) < INF
                ip.funcs["is_nan"] = lambda v: v != v
                acc = ip.evb(okc, {})
                want = SUPPORT[fname](float(y))
                k += 1
                if want is not None and acc != want:
                    bad = f"response {y} is {'accepted' if acc else 'rejected'}"
                    break
                if acc and want:
                    v = ip.ev(okv[0], {})
                    if v != float(y):
                        bad = f"response {y} becomes {v}"
                        break
            for g, ev, wh, det in [(e[0], e[1], e[2], e[3]) for e in I.events]:
                for y in pts:
                    ip = evalt.Interp(1, values={"yy": y, "yb": y, "N": NB})
                    if g == "panic" and ip.evb(ev, {}):
                        bad = bad or f"panics at response {y} ({det})"
        except evalt.OpaqueTerm as e:
            out.append(Ob(nm, UNKNOWN, f"opaque: {e}", w))
            continue
        # the error must be the invalid-response one
        if bad is None and 1 in r.alts and isinstance(r.alts[1][1][0], Enum):
            ee = r.alts[1][1][0]
            vn = [v["name"] for v in m["adts"].get(ee.key, {"variants": []})["variants"]]
            kinds = {vn[i] for i in ee.alts if i < len(vn) and ee.alts[i][0] is not FALSE}
            if kinds - {"InvalidY"}:
                bad = f"rejected with {kinds}"
        out.append(Ob(nm, REFUTED if bad else AGREE, bad or f"{k} responses incl. every class of special values", w))
    for n in SUPPORT:
        if n not in seen:
            out.append(Ob(f"{n}", REFUTED, "no response type accepted", n))
    return out


def build_errors():
    """every response goes through the conversion, in order, and a rejected one makes the build fail"""
    from ctx import Ctx, fields
    m = world.prog("stats")
    out = []
    for flags in ((), ("intercept",), ("intercept", "standardize", "freqs", "weights", "offset")):
        c = Ctx(m, flags, cfg={"into_float": "sym"}, dofit=False)
        nm = f"build converts and checks every response [{','.join(flags) or 'plain'}]"
        w = "src/model.rs::ModelBuilderData::build"
        b = c.build
        if not isinstance(b, Enum):
            out.append(Ob(nm, UNKNOWN, f"{b!r:.80}", w))
            continue
        okc = b.alts.get(0, (FALSE, ()))[0]
        i = TT.idx("i")
        spec = TT.all_over(TT.bapp("valid_y", TT.app("y", i)), i, N)
        out.append(decide.decide(nm, okc, spec, w, seeds=tuple(range(1, 40))))
    return out


# ------------------------------------------------------------------ C36
def moments(d):
    """mean and variance of a statrs distribution value"""
    k = d.fields[0].s if hasattr(d.fields[0], "s") else str(d.fields[0])
    k = d.name
    p = [x for x in d.fields[1:]]
    if k == "Normal": return p[0], p[1] ** 2
    if k == "Bernoulli": return p[0], p[0] * (ONE - p[0])
    if k == "Binomial": return p[0] * p[1], p[1] * p[0] * (ONE - p[0])
    if k == "Poisson": return p[0], p[0]
    if k == "Exp": return ONE / p[0], ONE / (p[0] * p[0])
    if k == "Gamma": return p[0] / p[1], p[0] / (p[1] * p[1])
    raise Give(f"distribution {k}")


@trialed
def dists(k):
    f = fams()[k]
    sp = SPEC.get(f.name)
    out = []
    tk = f.tk.get("Response")
    if tk is None:
        return [Ob("response distributions", REFUTED, "trait not found", "Response")]
    im, _ = f.I.find_impl(tk, [f.M])
    if im is None:
        if f.name in ("InvGaussian",):
            return []
        return [Ob(f"{f}: distribution", REFUTED, "no response distribution", str(f))] if f.name in SPEC else []
    w = f.where("Response", "get_distribution")
    with mp.workdps(60):
        try:
            d = f.call("Response", "get_distribution", MU, TT.var("phi"))
            mean, var = moments(d)
        except Exception as e:
            return [give(f"{f}: distribution", w, e)]
        phis = [mpf(10) ** -13, mpf(10) ** -7, mpf(1) / 1000, mpf(1) / 2, mpf(1), mpf(3), mpf(40), mpf(10) ** 7]
        sp = dict(sp, mu=sp["mu"] + extreme(f))
        mus = sp["mu"] if f.name not in ("Logistic", "Binomial") else sp["mu"] + [mpf(0), mpf(1) * (NB if f.name == "Binomial" else 1)]
        pts = [(m, p) for m in mus for p in phis]
        free = sp["disp"] == "FreeDispersion"
        guarded(out, f"{f}: mean", w, lambda: check(f"{f}: mean of the response distribution", w, pts, lambda q: (val(mean, mu0=q[0], phi=q[1]), q[0]), mpf(10) ** -30))
        guarded(out, f"{f}: variance", w, lambda: check(f"{f}: variance of the response distribution", w, pts, lambda q: (val(var, mu0=q[0], phi=q[1]), (q[1] if free else 1) * sp["V"](q[0])), mpf(10) ** -30))
        # construction never fails for any mean the link can produce (extremes included)
        ext = {"Logistic": [0.0, 1.0, 5e-324, 1 - 2.0 ** -53], "Binomial": [0.0, float(NB), 1e-300], "Linear": [-1.7e308, 0.0, 1.7e308]}.get(f.name, [0.0, 5e-324, 1e-300, 1e-30, 1.0, 1e30, 1e300])
        bad, n = None, 0
        try:
            for kind, g, fn, det in f.I.events:
                if kind != "panic":
                    continue
                for mu in ext + [float(m) for m in sp["mu"]]:
                    for phi in (0.0, 5e-324, 1e-300, 1e-9, 1.0, 1e9, 1e300):
                        ip = evalt.Interp(1, values={"mu0": mu, "phi": phi, "N": NB})
                        n += 1
                        if ip.evb(g, {}):
                            bad = f"fails ({det}) at mean {mu}, dispersion {phi}"
        except evalt.OpaqueTerm as e:
            out.append(Ob(f"{f}: construction", UNKNOWN, f"opaque {e}", w))
            return out
        out.append(Ob(f"{f}: the response distribution always exists", REFUTED if bad else AGREE, bad or f"{n} guard evaluations", w))
    return out
