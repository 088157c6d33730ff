"""C11-C13, C15-C18: how the results change when the same data are presented in another way.

Both presentations are analysed; each public observable is a term over the inputs.  The second presentation's inputs
are expressed by those of the first (replicated rows, reordered rows, rescaled columns, ...), and the two terms are
compared under interpretations of the inputs and of the family's uninterpreted functions.
"""
import itertools
import math
import mpmath
import world
import where
import decide
import evalt
import solver
import stats
from decide import Ob, AGREE, REFUTED, UNKNOWN
from ctx import *
from interp import *
from values import *
from model import FLAGS
import terms as TT

REGS = (None, "l2", "l1", "en")
DISPS = ("FreeDispersion", "NoDispersion")
ROWS = {"y", "x", "w", "fr", "off"}

# what each observable is made of: per row (n), new row (m), predictor (p); parameter axis that behaves like a
# coefficient (c), like a derivative with respect to one (d), or is free of units (k)
KIND = {
    "deviance": "", "aic": "", "bic": "", "lr_test_against": "", "ndf": "", "test_ndf": "", "dispersion": "", "fisher": "dd", "score": "d",
    "covariance": "cc", "wald_z": "k", "wald_test_against": "", "score_test_against": "", "hat": "nn", "leverage": "n", "cooks": "n", "infl_coef": "nc",
    "resid_resp": "n", "resid_pear": "n", "resid_dev": "n", "resid_work": "n", "resid_part": "np", "resid_pear_std": "n", "resid_dev_std": "n",
    "resid_student": "n", "predict": "m", "null_like": "", "lr_test": "", "wald_test": "", "score_test": "", "pvalue_wald": "k", "pvalue_lr_test": "",
    "resid_quantile": "n", "result": "c", "linear predictor": "n", "next coefficients": "c", "next likelihood": "", "scales": "p", "shifts": "p",
}
GROUP = {"hat", "leverage", "cooks", "infl_coef", "resid_pear_std", "resid_dev_std", "resid_student"}
SOLVER = ("next coefficients", "next likelihood")


def lab(fl, reg, disp=None):
    return f"[{','.join(fl) or 'plain'}; penalty {reg or 'none'}{'; ' + disp if disp else ''}]"


def tasks(pid, tier):
    for r in range(6):
        for fl in itertools.combinations(FLAGS, r):
            for reg in REGS:
                for disp in DISPS:
                    if disp == DISPS[1] and reg is not None and tier == "quick":
                        continue
                    kw = dict(pid=pid, flags=fl, reg=reg, disp=disp)
                    if pid == "C11" and "freqs" in fl:
                        yield ("pair", dict(kw, rel="replicate"), 200)
                    if pid == "C12":
                        for f in ("freqs", "weights", "offset"):
                            if f in fl:
                                yield ("pair", dict(kw, rel="neutral " + f), 200)
                    if pid == "C13" and "intercept" in fl and "offset" in fl:
                        yield ("pair", dict(kw, rel="shift"), 200)
                    if pid == "C18" and "weights" in fl and reg is None:
                        yield ("pair", dict(kw, rel="weight scale"), 200)
                    if pid == "C15":
                        yield ("pair", dict(kw, rel="rows"), 200)
                    if pid == "C16" and "standardize" in fl:
                        yield ("pair", dict(kw, rel="prescaled"), 200)
                        if reg is None:
                            yield ("pair", dict(kw, rel="invisible"), 200)
                    if pid == "C17":
                        yield ("pair", dict(kw, rel="columns"), 200)
                        if reg is None or "standardize" in fl:
                            yield ("pair", dict(kw, rel="units"), 200)


# ------------------------------------------------------------------ the relations
class World:
    """inputs of the first presentation"""

    def __init__(self, seed, n, p, nn, tweak, hp, dispw):
        self.seed, self.n, self.p, self.nn = seed, n, p, nn
        self.base = evalt.Interp(seed)
        self.base.tweak = tweak
        self.base.hp = hp
        self.hp = hp
        self.tweak = tweak

    def g(self, name, *a):
        return self.base.generic(name, a)

    def h(self, *a):
        return evalt._h(self.seed, *a, 0) if len(a) == 1 else evalt._h(self.seed, a[0], a[1])

    def interp(self, n, p, funcs):
        ip = evalt.Interp(self.seed, ints=dict(n=n, p=p, nn=self.nn), funcs=funcs)
        ip.tweak, ip.hp = self.tweak, self.hp
        return ip


def perm(w, name, n):
    return sorted(range(n), key=lambda k: w.h(name, k))


def relation(rel, w, ca, cb):
    """(interpretation A, interpretation B, row map A->B, param map, predictor map, coefficient factor, predictor factor)"""
    n, p, g = w.n, w.p, w.g
    i0 = 1 if ca.int else 0
    K = p + i0
    rows, cols, pr = list(range(n)), list(range(K)), list(range(p))
    one = [1.0] * K
    fa, fb = {}, {}
    nB = n
    mpf = (lambda v: mpmath.mpf(v)) if w.hp else (lambda v: v)
    if rel == "replicate":
        fr = [1 + int(3 * w.h("fr", k)) for k in range(n)]
        if w.seed % 2 == 0:
            fr[n // 2] = 0              # an observation that did not occur
        src = [k for k in range(n) for _ in range(fr[k])]
        src = [src[k] for k in perm(w, "order", len(src))]
        nB = len(src)
        fa["fr"] = lambda i: fr[i]
        for s in ("y", "w", "off"):
            fb[s] = lambda i, s=s: g(s, src[i])
        fb["x"] = lambda i, j: g("x", src[i], j)
        rows = [src.index(k) if fr[k] else None for k in range(n)]
    elif rel.startswith("neutral"):
        f = {"freqs": "fr", "weights": "w", "offset": "off"}[rel.split()[1]]
        fa[f] = (lambda i: 0) if f == "off" else (lambda i: 1)
    elif rel == "weight scale":
        a = weight_factor(w.seed, w.hp)
        fb["w"] = lambda i: g("w", i) * a
    elif rel == "rows":
        src = perm(w, "order", n)
        for s in ("y", "w", "off", "fr"):
            fb[s] = lambda i, s=s: g(s, src[i])
        fb["x"] = lambda i, j: g("x", src[i], j)
        rows = [src.index(k) for k in range(n)]
    elif rel == "columns":
        src = perm(w, "cols", p)
        if p > 1 and src == list(range(p)):
            src = src[1:] + src[:1]
        fb["x"] = lambda i, j: g("x", i, src[j])
        fb["xx"] = lambda i, j: g("xx", i, src[j])
        for s in ("mu", "sd"):
            fb[s] = lambda j, s=s: g(s, src[j])
        par = lambda k: k if k < i0 else src[k - i0] + i0
        for s in ("q", "gs", "zd", "uc"):
            fb[s] = lambda k, s=s: g(s, par(k))
        fb["beta"] = lambda *a: g("beta", *a[:-1], par(a[-1]))
        fb["hb"] = lambda t, k: g("hb", t, par(k))
        pr = [src.index(j) for j in range(p)]
        cols = [k if k < i0 else pr[k - i0] + i0 for k in range(K)]
    elif rel == "units":
        c = [mpf(2.0 ** math.floor(5 * w.h("unit", j) - 2)) for j in range(p)]
        ck = lambda k: 1 if k < i0 else c[k - i0]
        fb["x"] = lambda i, j: g("x", i, j) * c[j]
        fb["xx"] = lambda i, j: g("xx", i, j) * c[j]
        fb["mu"] = lambda j: g("mu", j) * c[j]
        fb["sd"] = lambda j: g("sd", j) * c[j]
        fb["q"] = lambda k: g("q", k) / ck(k)
        if "standardize" not in ca.flags:
            fb["gs"] = lambda k: g("gs", k) / ck(k)
            fb["beta"] = lambda *a: g("beta", *a) / ck(a[-1])
        one = [ck(k) for k in range(K)]
    elif rel == "shift":
        a = mpf(0.5 + 2 * w.h("shift"))
        fb["off"] = lambda i: g("off", i) + a
        fb["oo"] = lambda i: g("oo", i) + a
        for s in ("q", "gs"):
            fb[s] = lambda k, s=s: g(s, k) - (a if k == 0 else 0)
        fb["beta"] = lambda *v: g("beta", *v) - (a if v[-1] == 0 else 0)
    elif rel == "prescaled":
        mu = (lambda j: g("mu", j)) if ca.int else (lambda j: 0)
        sd = lambda j: g("sd", j)
        fb["x"] = lambda i, j: (g("x", i, j) - mu(j)) / sd(j)
        fb["xx"] = lambda i, j: (g("xx", i, j) - mu(j)) / sd(j)
        fb["q"] = lambda k: internal(k, lambda q: g("q", q), mu, sd, p, i0)
    elif rel == "invisible":
        mu = (lambda j: g("mu", j)) if ca.int else (lambda j: 0)
        sd = lambda j: g("sd", j)
        for s in ("gs",):
            fb[s] = lambda k, s=s: external(k, lambda q: g(s, q), mu, sd, p, i0)
        fb["beta"] = lambda *v: external(v[-1], lambda q: g("beta", *v[:-1], q), mu, sd, p, i0)
    A, Bp = w.interp(n, p, fa), w.interp(nB, p, fb)
    if rel == "weight scale":
        # the likelihood a run of the solver ends with
        tw = Bp.tweak
        Bp.tweak = lambda ip, name, args, v: (v if tw is None else tw(ip, name, args, v)) * (a if name == "mlike" else 1)
    return A, Bp, rows, cols, pr, one


def weight_factor(seed, hp=False):
    a = 2.0 ** (1 + int(3 * evalt._h(seed, "wscale", 0)))
    return mpmath.mpf(a) if hp else a


# power of the common factor of all variance weights in each observable (the dispersion is relative to their total)
POWER = {"deviance": 1, "model_like": 1, "fisher": 1, "score": 1, "covariance": -1, "wald_z": 0.5, "lr_test_against": 1, "wald_test_against": 1, "score_test_against": 1, "null_like": 1, "lr_test": 1,
         "wald_test": 1, "score_test": 1, "cooks": 1, "resid_pear": 0.5, "resid_dev": 0.5, "resid_pear_std": 0.5, "resid_dev_std": 0.5, "resid_student": 0.5}


def external(k, b, mu, sd, p, i0):
    if k < i0:
        return b(0) - sum(b(j + 1) * mu(j) / sd(j) for j in range(p))
    return b(k) / sd(k - i0)


def internal(k, b, mu, sd, p, i0):
    if k < i0:
        return b(0) + sum(b(j + 1) * mu(j) for j in range(p))
    return b(k) * sd(k - i0)


# ------------------------------------------------------------------ observables
def observe(m, flags, reg, disp, rel):
    c = Ctx(m, flags, reg, disp)
    out = {}
    fail = {}
    for g, meth, args, sp in stats.table(c):
        nm = meth if not (meth == "predict" and args[1] is NONE) else "predict (no offset)"
        try:
            v = c.call(meth, *args)
            if isinstance(v, Enum) and "Result" in v.key:
                v = unwrap(v)
        except Give as e:
            fail[nm] = str(e)
            continue
        except Missing:
            if rel != "same":
                raise
            continue
        out[nm] = v
    out["result"] = c.pf.get("result")
    if disp == DISPS[0]:
        st = solver.Step(m, flags, reg)
        r = st.run()
        out["$step"] = st
    if c.std is not None:
        out["scales"] = c.std["sd"]
        out["shifts"] = c.std["mu"]
    return c, out, fail


def skip(rel, nm, ca, cb):
    b = nm.split(" (")[0]
    null = ("null_like", "lr_test", "wald_test", "score_test", "pvalue_lr_test")
    if rel == "replicate":
        return b in GROUP
    if rel == "neutral offset":
        return b in null and ca.int
    if rel == "shift":
        return b in null or b in ("wald_z", "pvalue_wald", "result") or nm == "predict (no offset)"
    if rel == "prescaled":
        return b in ("result", "fisher", "score", "covariance", "infl_coef", "wald_z", "pvalue_wald", "scales", "shifts") or b == "resid_part"
    if rel == "invisible":
        return b in ("scales", "shifts")
    if rel == "units":
        return b in ("scales", "shifts")
    if rel == "weight scale":
        # these have a normalisation or a reference distribution of their own
        return b in ("aic", "bic", "pvalue_lr_test", "pvalue_wald", "resid_quantile")
    return False


SHAPES = ((6, 2), (7, 3), (5, 1))


def pair(pid, rel, flags, reg, disp, other=None):
    m = world.prog()
    mb = world.prog(other) if other else m
    fb = flags
    if rel == "replicate":
        fb = tuple(f for f in flags if f != "freqs")
    elif rel.startswith("neutral"):
        fb = tuple(f for f in flags if f != rel.split()[1])
    elif rel in ("prescaled", "invisible"):
        fb = tuple(f for f in flags if f != "standardize")
    tag = {"replicate": "repeated rows", "shift": "shifted offset", "rows": "reordered rows", "weight scale": "all weights multiplied by a constant", "columns": "reordered columns", "units": "rescaled columns",
           "prescaled": "columns scaled beforehand", "invisible": "no scaling", "same": "without optional features"}.get(rel, "without " + rel.split()[-1])
    L = f"{tag} {lab(flags, reg, disp)}"
    try:
        ca, oa, ea = observe(m, flags, reg, disp, rel)
        cb, ob, eb = (ca, oa, ea) if fb == flags and mb is m else observe(mb, fb, reg, disp, rel)
    except Give as e:
        return [Ob(f"analysis, {L}", UNKNOWN, f"gave up: {e}", "src/fit.rs")]
    res = []
    names = [n for n in oa if n in ob and not n.startswith("$") and not skip(rel, n, ca, cb)]
    for n in set(ea) & set(eb) if other else set(ea) | set(eb):
        res.append(Ob(f"{n}, {L}", UNKNOWN, "gave up", "src/fit.rs"))
    seeds = world.seeds()
    for n in names:
        w = where.fn_name(m, ca.I.one("Fit", n.split(" (")[0])) if ca.I.find("Fit", n.split(" (")[0]) else "src/fit.rs"
        res.append(compare(f"{n}, {L}", n, oa[n], ob[n], ca, cb, rel, seeds, w))
    if "$step" in oa and "$step" in ob:
        res += step_pair(L, oa["$step"], ob["$step"], ca, cb, rel, seeds, where.fn_name(m, ca.I.one("Irls", "step_with")) if ca.I.find("Irls", "step_with") else "src/irls.rs")
    return res


def kind_of(nm):
    return KIND[nm.split(" (")[0]]


def differs(nm, va, vb, ca, cb, rel, seed, n, p, tweak, hp, only=None):
    """(index, a, b) of a difference; counts informative comparisons"""
    w = World(seed, n, p, 3, tweak, hp, None)
    A, Bp, rows, cols, pr, fac = relation(rel, w, ca, cb)
    sa, ba = decide.norm_value(va)
    sb, bb = decide.norm_value(vb)
    if sa is None or sb is None or not isinstance(ba, (T, B)) or not isinstance(bb, (T, B)):
        raise evalt.OpaqueTerm(f"{va!r:.60}")
    ka = kind_of(nm)
    if len(sa) != len(ka) or len(sb) != len(ka):
        return ("axes", len(sa), len(sb)), 1
    na = [int(A.ev(s, {})) for s in sa]
    nb = [int(Bp.ev(s, {})) for s in sb]
    for x, y, k in zip(na, nb, ka):
        if not (k == "n" and rel == "replicate") and x != y:
            return (f"length of axis {ka.index(k)}", x, y), 1
    inf = 0
    for ix in itertools.product(*[range(s) for s in na]):
        if only is not None and ix != only:
            continue
        jx, f = [], 1
        for q, k in zip(ix, ka):
            if k == "n":
                jx.append(rows[q])
            elif k == "p":
                jx.append(pr[q])
            elif k in "cdk":
                jx.append(cols[q])
                f = f * fac[q] if k == "c" else f / fac[q] if k == "d" else f
            else:
                jx.append(q)
        if None in jx:
            continue
        ea, eb = dict(zip(D, ix)), dict(zip(D, jx))
        if isinstance(ba, B):
            x, y = A.evb(ba, ea), Bp.evb(bb, eb)
        else:
            x, y = A.ev(ba, ea), Bp.ev(bb, eb) * f
            if rel == "weight scale":
                e = POWER.get(nm.split(" (")[0], 0)
                a = weight_factor(seed, hp)
                y = y / (a if e == 1 else a ** -1 if e == -1 else 1 if e == 0 else mpmath.sqrt(a) if hp else math.sqrt(a))
        if isinstance(x, (complex, mpmath.mpc)) or isinstance(y, (complex, mpmath.mpc)):
            continue
        if x != x and y != y:
            continue
        inf += 1
        if not hp and tweak is not None and not (abs(x) < 1e12 and abs(y) < 1e12):
            continue
        if not evalt.close(x, y, 1e-5):
            return (ix, x, y), inf
    return None, inf


def compare(name, nm, va, vb, ca, cb, rel, seeds, w):
    good = 0
    try:
        for n, p in SHAPES:
            for sd in seeds:
                r, inf = differs(nm, va, vb, ca, cb, rel, sd, n, p, None, False)
                if r is not None and confirmed(nm, va, vb, ca, cb, rel, sd, n, p, None, r):
                    return Ob(name, REFUTED, f"at {r[0]} (n={n} p={p}, interpretation {sd}): {float(r[1]):.12g} and {float(r[2]):.12g}", w)
                good += inf
        for tn in ("equal", "ints", "units", "negated", "uneven"):
            r, inf = differs(nm, va, vb, ca, cb, rel, seeds[0], 6, 2, evalt.SPECIAL[tn], False)
            if r is not None and confirmed(nm, va, vb, ca, cb, rel, seeds[0], 6, 2, evalt.SPECIAL[tn], r):
                r2, _ = differs(nm, va, vb, ca, cb, rel, seeds[1], 6, 2, evalt.SPECIAL[tn], False)
                if r2 is not None and confirmed(nm, va, vb, ca, cb, rel, seeds[1], 6, 2, evalt.SPECIAL[tn], r2):
                    return Ob(name, REFUTED, f"at {r[0]} (n=6 p=2, interpretation {seeds[0]} {tn}): {float(r[1]):.12g} and {float(r[2]):.12g}", w)
    except evalt.OpaqueTerm as e:
        return Ob(name, UNKNOWN, f"opaque: {e}", w)
    except (RecursionError, ArithmeticError, ValueError, TypeError) as e:
        return Ob(name, UNKNOWN, f"{type(e).__name__}: {e}"[:100], w)
    return Ob(name, AGREE if good else UNKNOWN, f"{good} comparisons", w)


def confirmed(nm, va, vb, ca, cb, rel, sd, n, p, tweak, r):
    """is the difference there in 60-digit arithmetic too?"""
    if not isinstance(r[0], tuple):
        return True
    rs = []
    try:
        for dps in (60, 90):
            with mpmath.workdps(dps):
                r2, _ = differs(nm, va, vb, ca, cb, rel, sd, n, p, tweak, True, only=r[0])
                if r2 is None:
                    return False
                rs.append(r2)
        if not all(isinstance(q[0], tuple) for q in rs):
            return True
        # the same values in both: not rounding
        return all(evalt.close(a, b, 1e-6) for a, b in zip(rs[0][1:], rs[1][1:]))
    except evalt.OpaqueTerm:
        raise
    except Exception:
        return False


# ------------------------------------------------------------------ a step of the solver
def step_pair(L, SA, SB, ca, cb, rel, seeds, w):
    """from corresponding states the solver moves to corresponding coefficients"""
    from props.solver import Sim, unknowns
    out = []
    good = 0
    bad = None

    class U:
        pass
    try:
        for n, p in ((6, 2), (5, 1)):
            for sd in seeds:
                wd = World(sd, n, p, 3, None, False, None)
                A, Bp, rows, cols, pr, fac = relation(rel, wd, ca, cb)
                if rel == "units" and "standardize" in ca.flags or rel == "prescaled":
                    fac = [1.0] * len(fac)
                h = lambda s: evalt._h(sd, s, 0)
                vals = dict(tol=1e-3, rho=0.3 + h("rho"), r_sq=1e9, s_sq=1e9, l1=0.05 + h("l1"), l2=0.05 + h("l2"), last_like=-1e9, n_iter=3, max_iter=50, n_hist=3)
                got = []
                for S, ip in ((SA, A), (SB, Bp)):
                    ip.values.update(vals)
                    for k in ("n_iter", "max_iter", "n_hist"):
                        ip.ints[k] = vals[k]
                    u = U()
                    u.I = S.I
                    un = unknowns(u)
                    for x in un:
                        ip.values[x] = 1.0
                    got.append(first_step(S, ip))
                if got[0] is None or got[1] is None:
                    continue
                (ga, la), (gb, lb) = got
                if rel == "weight scale":
                    lb = lb / weight_factor(sd)
                if rel == "invisible":
                    g = lambda nm_, j: evalt.Interp(sd).generic(nm_, (j,))
                    mu = (lambda j: g("mu", j)) if ca.int else (lambda j: 0)
                    sdv = lambda j: g("sd", j)
                    a2 = ga
                    ga = [external(k, lambda q: a2[q], mu, sdv, p, 1 if ca.int else 0) for k in range(len(a2))]
                if rel == "shift":
                    a = 0.5 + 2 * wd.h("shift")
                    gb = [x + (a if k == 0 else 0) for k, x in enumerate(gb)]
                for k, x in enumerate(ga):
                    y = gb[cols[k]] * fac[k]
                    good += 1
                    if not evalt.close(x, y, 1e-5) and math.isfinite(x) and math.isfinite(y):
                        bad = bad or f"coefficient {k} becomes {x:.10g} and {y:.10g} (n={n} p={p}, interpretation {sd})"
                if not evalt.close(la, lb, 1e-5) and math.isfinite(la) and math.isfinite(lb):
                    bad = bad or f"likelihood {la:.10g} and {lb:.10g} (n={n} p={p}, interpretation {sd})"
    except evalt.OpaqueTerm as e:
        if not bad:
            return [Ob(f"solver step, {L}", UNKNOWN, f"opaque: {e}", w)]
    except (RecursionError, ArithmeticError, ValueError, TypeError) as e:
        if not bad:
            return [Ob(f"solver step, {L}", UNKNOWN, f"{type(e).__name__}: {e}"[:100], w)]
    return [Ob(f"solver step, {L}", REFUTED if bad else AGREE if good else UNKNOWN, bad or f"{good} comparisons", w)]


def first_step(S, ip):
    """(coefficients, likelihood) of the step the solver returns, if it does and every loop was left at once"""
    if not all(ip.evb(f, {}) for f in S.I.facts):
        return None
    r = S.res
    if not isinstance(r, Enum) or 1 not in r.alts or not ip.evb(r.alts[1][0], {}):
        return None
    r = r.alts[1][1][0]
    if not isinstance(r, Enum) or 0 not in r.alts or not ip.evb(r.alts[0][0], {}):
        return None
    f = fields(S.I, r.alts[0][1][0])
    g, l = f.get("guess"), f.get("like")
    if not isinstance(g, Arr):
        raise evalt.OpaqueTerm("step")
    return [ip.ev(g.body, {D[0]: k}) for k in range(int(ip.ev(g.shape[0], {})))], ip.ev(l, {})
