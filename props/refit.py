"""Statistics that need another fit: the nested fit must be the specified fit, and the statistic must use it as specified.

A nested fit shows up as another run of the solver. Its data are compared with the data the same library builds for the
specified problem (the null model, the model without a column, the data without an observation), and the value of the
statistic with the specified formula over the nested fit's coefficients / likelihood."""
import decide
import stats
import where
import world
from ctx import *

Ob, UNKNOWN, REFUTED, PROVED, AGREE = decide.Ob, decide.UNKNOWN, decide.REFUTED, decide.PROVED, decide.AGREE
i_, j_, k_ = D[0], D[1], D[2]
H1, H2 = TT.canon_idx("@81"), TT.canon_idx("@82")


def apps(t, name, acc=None, seen=None):
    """all applications of `name` in a term"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, (T, B)) or (type(x), x.id) in seen:
            continue
        seen.add((type(x), x.id))
        if isinstance(x, B):
            if x.atom is not None:
                stack += [x.atom, x.hi, x.lo]
            continue
        if x.op == "app" and x.args[0] == name:
            acc.add(x)
        stack += [a for a in x.args if isinstance(a, (T, B))]
    return acc


def map_app(t, name, fn):
    """replace name(args) by fn(*args)"""
    m = {a: fn(*a.args[1:]) for a in apps(t, name)}
    return TT.subst(t, m) if m else t


def vmap_term(v, fn):
    return vmap_all(v, fn)


def vmap_all(v, fn):
    if isinstance(v, (T, B)):
        return fn(v)
    if isinstance(v, Arr):
        return Arr(tuple(fn(s) for s in v.shape), fn(v.body) if isinstance(v.body, (T, B)) else v.body)
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {k: (fn(c), tuple(vmap_all(x, fn) for x in f)) for k, (c, f) in v.alts.items()})
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [vmap_all(x, fn) for x in v.fields])
    if isinstance(v, Tup):
        return Tup([vmap_all(x, fn) for x in v.items])
    return v


def opt_terms(v, default):
    """Option<array> of per-row values as one array (None: the neutral value)"""
    if isinstance(v, Enum):
        some_ = v.alts.get(1)
        if some_ is None or some_[0] is FALSE:
            return Arr((N,), default)
        a = some_[1][0]
        if isinstance(a, Arr) and some_[0] is TRUE:
            return a
        if isinstance(a, Arr):
            return Arr(a.shape, TT.ite(some_[0], a.body, default))
    return v


def nested(c, meth, *args):
    """(value, runs made by the call)"""
    n0 = len(c.I.runs)
    v = c.call(meth, *args)
    return v, c.I.runs[n0:]


def run_data(c, r):
    f = fields(c.I, r["irls0"])
    return f, fields(c.I, f["data"])


def close(v, run, at):
    """the loop symbol of the run becomes the index `at`"""
    m = {s: at for s in loopsyms(run)}
    return vmap_all(v, lambda t: TT.subst(t, m)) if m else v


def loopsyms(run):
    b = run["beta"].body
    if not (isinstance(b, T) and b.op == "app"):
        return []
    return [x for x in b.args[1:-1] if isinstance(x, T) and x.op == "idx"]


def rows(c, d, names, out, tag, w, seeds, extra=()):
    """per-row arrays of the nested data are those of the fit"""
    want = {"y": Arr((N,), c.y(i_)), "linear_offset": Arr((N,), c.off(i_)), "weights": Arr((N,), c.w(i_)), "freqs": Arr((N,), c.fr(i_))}
    neutral = {"linear_offset": ZERO, "weights": ONE, "freqs": ONE}
    for nm in names:
        got = d.get(nm)
        if nm in neutral:
            got = opt_terms(got, neutral[nm])
        ob = f"{tag[0]} keeps {nm.replace('_', ' ')} {tag[1]}"
        if not isinstance(got, Arr):
            out.append(Ob(ob, UNKNOWN, f"{got!r:.60}", w))
        else:
            out.append(decide.decide(ob, got, want[nm], w, seeds=seeds))


def null_one(pid, flags, reg, disp):
    from props.stat import label
    m = world.prog()
    c = Ctx(m, flags, reg, disp)
    lab = label(flags, reg, disp)
    s = stats.Spec(c)
    out = []
    decide.NF_LIMIT = 1.0 if world.TIER == "quick" else 8.0
    sd = world.seeds()
    w = where.fn_name(m, c.I.one("Fit", "null_like"))
    ml = c.pf["model_like"]
    nl = s.null()
    if nl:
        v = c.call("null_like")
        out.append(decide.decide(f"null_like {lab}", v, nl[0], w, seeds=sd))
        return out
    # offset and intercept: the intercept is fitted with nothing else
    v, runs = nested(c, "null_like")
    if len(runs) != 1:
        return [Ob(f"null_like {lab}", REFUTED if not runs and isinstance(v, T) and not decide.has_opq(v) and not c.I.unsolved and not c.I.unmodelled else UNKNOWN, f"{len(runs)} nested fits", w)]
    r = runs[0]
    f, d = run_data(c, r)
    tag = ("the null model", lab)
    rows(c, d, ("y", "linear_offset", "weights", "freqs"), out, tag, w, sd)
    x = d.get("x")
    ob = f"the null model has only a constant column {lab}"
    out.append(decide.decide(ob, x, Arr((N, ONE), ONE), w, seeds=sd) if isinstance(x, Arr) else Ob(ob, UNKNOWN, f"{x!r:.60}", w))
    hi = d.get("has_intercept")
    out.append(Ob(f"the null model's intercept is not penalised {lab}", PROVED if hi is TRUE or all(x is ZERO for x in pens(c, f)) else UNKNOWN if not isinstance(hi, B) else REFUTED, f"{hi}", w))
    b0 = r["beta"].at(ZERO)
    l0 = r["like"]
    q0 = lambda k: TT.ite(c.isint(k), b0, ZERO)
    quad = stats.quad
    todo = [("null_like", lambda: l0), ("lr_test", lambda: TWO_() * (ml - l0)),
            ("wald_test", lambda: quad(c, lambda k: c.b(k) - q0(k), lambda a, k: s.F(q0, a, k))),
            ("score_test", lambda: quad(c, lambda k: s.score(q0, k), lambda a, k: s.Finv(q0, a, k))),
            ("pvalue_lr_test", lambda: ONE - TT.app("cdf_ChiSquared", PX, TWO_() * (ml - l0)))]
    for meth, sp in todo:
        nm = f"{meth} {lab}"
        if not c.I.find("Fit", meth):
            continue
        try:
            v = c.call(meth)
            if isinstance(v, Enum) and "Result" in v.key:
                v = unwrap(v)
        except Give as e:
            out.append(Ob(nm, UNKNOWN, f"gave up: {e}", w))
            continue
        # the nested fit is the same whichever method asks for it
        v = same_fit(v, r["name"])
        out.append(decide.decide(nm, v, sp(), where.fn_name(m, c.I.one("Fit", meth)), seeds=sd, prove=True))
    return out


def TWO_():
    return num(2)


def pens(c, f):
    o = fields(c.I, f["options"])
    return [o.get("l1"), o.get("l2")]


def names_in(v):
    acc = set()

    def go(t):
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if not isinstance(x, (T, B)) or (type(x), x.id) in seen:
                continue
            seen.add((type(x), x.id))
            if isinstance(x, B):
                if x.atom is not None:
                    stack += [x.atom, x.hi, x.lo]
                continue
            if x.op in ("app", "var") and isinstance(x.args[0], str) and "@" in x.args[0]:
                acc.add(x)
            stack += [a for a in x.args if isinstance(a, (T, B))]
        return t
    vmap_all(v, go)
    return acc


def same_fit(v, name):
    """nested fits are named by the call path; identify those that end in the same function"""
    tail = name.split("@", 1)[-1].rsplit("/", 3)[-3:]
    m = {}
    for x in names_in(v):
        head, at = x.args[0].split("@", 1)
        if at.rsplit("/", 3)[-3:] == tail and "@" + at != name:
            m[x] = TT.app(head + name, *x.args[1:]) if x.op == "app" else TT.var(head + name)
    return vmap_all(v, lambda t: TT.subst(t, m)) if m else v


def exact_one(pid, flags, reg, disp):
    """drop-one analysis of deviance"""
    from props.stat import label
    m = world.prog()
    c = Ctx(m, flags, reg, disp)
    lab = label(flags, reg, disp)
    s = stats.Spec(c)
    sd = world.seeds()
    if not c.I.find("Fit", "pvalue_exact"):
        return []
    w = where.fn_name(m, c.I.one("Fit", "pvalue_exact"))
    nm = f"pvalue_exact {lab}"
    try:
        v, runs = nested(c, "pvalue_exact")
        v = unwrap(v)
    except Give as e:
        return [Ob(nm, UNKNOWN, f"gave up: {e}", w)]
    if len(runs) != 1 or len(loopsyms(runs[0])) != 1:
        return [Ob(nm, UNKNOWN, f"{len(runs)} nested fits", w)]
    r = runs[0]
    f, d = run_data(c, r)
    sym = loopsyms(r)[0]
    K = c.K
    out = []
    tag = ("the reduced model", lab)
    cl = lambda v, at: vmap_all(v, lambda t: TT.subst(t, {sym: at}))
    # per-row arrays do not depend on the column left out
    for q in (ZERO, ONE):
        dd = {k: cl(v_, q) for k, v_ in d.items() if isinstance(v_, (Arr, Enum))}
        rows(c, dd, ("y", "linear_offset", "weights", "freqs"), out, (f"the model without column {q}", lab), w, sd)
    x = d.get("x")
    ob = f"the reduced model has all columns but one {lab}"
    ds = fields(c.I, fields(c.I, c.model)["data"])
    xin = ds.get("x")
    if not isinstance(x, Arr) or not isinstance(xin, Arr):
        out.append(Ob(ob, UNKNOWN, f"{x!r:.60}", w))
    else:
        x = cl(x, k_)
        skip = lambda f: f(i_, TT.ite(TT.lt(j_, k_), j_, TT.add(j_, ONE)))
        user = skip(c.X)
        inner = skip(lambda a, b: xin.at(a, b))
        sh = (N, TT.sub(K, ONE), K)
        # dropping the intercept: centred columns would smuggle it back in, so the columns are the user's
        keep0 = TT.ite(TT.eq(k_, ZERO), user, inner) if c.int else inner
        shapes = [dict(n=4, p=2), dict(n=3, p=3), dict(n=3, p=1 if c.int else 2)]
        out.append(decide.decide(f"the reduced model has one column less {lab}", Arr((K,), TT.subst(x.shape[1], {k_: i_})), Arr((K,), TT.sub(K, ONE)), w, seeds=sd, shapes=shapes))
        res = [decide.decide(ob, Arr(sh, x.body), Arr(sh, b), w, seeds=sd, shapes=shapes) for b in ([user, keep0] if reg is None else [keep0])]
        good = [o for o in res if o.verdict in (PROVED, AGREE)]
        out.append(good[0] if good else res[-1])
    hi = d.get("has_intercept")
    if isinstance(hi, B):
        want = TT.lt(ZERO, k_) if c.int else FALSE
        hb = cl(hi, k_)
        ok = [hb if isinstance(hb, B) else hb]
        bad = None
        import evalt
        for kk in range(4):
            ip = evalt.Interp(1, ints=dict(n=5, p=3))
            if ip.evb(hb, {k_: kk}) != ip.evb(want, {k_: kk}):
                bad = f"without parameter {kk}: {not ip.evb(want, {k_: kk})}"
        out.append(Ob(f"the reduced model has an intercept iff it is kept {lab}", REFUTED if bad and reg else UNKNOWN if bad else PROVED, bad or "", w))
    o = fields(c.I, f["options"])
    o0 = fields(c.I, c.pf["options"]) if isinstance(c.pf.get("options"), Struct) else {}
    for k in ("l1", "l2", "max_iter", "tol"):
        if k in o and k in o0:
            out.append(Ob(f"the reduced model is fitted with the same {k} {lab}", PROVED if same(cl(o[k], ZERO), o0[k]) else REFUTED, f"{o[k]}", w))
    # the statistic
    if not isinstance(x, Arr):
        return out
    kk = TT.idx("k")
    bn = lambda k, a: TT.subst(r["beta"].at(a), {sym: k})
    xx = lambda i, a, k: TT.subst(x.body, {i_: i, j_: a, k_: k})
    eta = lambda i, k: TT.add(TT.sum_over(TT.mul(xx(i, kk, k), bn(k, kk)), kk, TT.sub(K, ONE)), c.off(i))

    def dev(k):
        def term(i):
            n = TT.app("nat", eta(i, k))
            return c.wt(i) * (TT.app("sat", c.y(i)) - (c.y(i) * n - TT.app("A", n)))
        return TWO_() * c.sumn(term)
    delta = lambda k: dev(k) - s.deviance()
    if disp == "NoDispersion":
        sp = Arr((K,), ONE - TT.app("cdf_ChiSquared", ONE, delta(i_)))
    else:
        F = delta(i_) / s.phi()
        ndf = s.nobs() - K
        sp = Arr((K,), TT.ite(TT.lt(ZERO, ndf) & ~TT.isnan(F), ONE - TT.app("cdf_FisherSnedecor", ONE, ndf, F), stats.NAN))
    v = same_fit(v, r["name"]) if isinstance(v, Arr) else v
    out.append(decide.decide(nm, v, sp, w, seeds=sd, prove=False, shapes=[dict(n=5, p=2), dict(n=5, p=3), dict(n=4, p=1)]))
    return out


def loo_one(pid, flags, reg, disp):
    """leave-one-out fits"""
    from props.stat import label
    m = world.prog()
    c = Ctx(m, flags, reg, disp)
    lab = label(flags, reg, disp)
    sd = world.seeds()
    w = where.fn_name(m, c.I.one("Fit", "loo_exact"))
    nm = f"loo_exact {lab}"
    try:
        v, runs = nested(c, "loo_exact")
        v = unwrap(v)
    except Give as e:
        return [Ob(nm, UNKNOWN, f"gave up: {e}", w)]
    if len(runs) != 1 or len(loopsyms(runs[0])) != 1:
        return [Ob(nm, UNKNOWN, f"{len(runs)} nested fits", w)]
    r = runs[0]
    f, d = run_data(c, r)
    cl = lambda v: close(v, r, k_)
    out = []
    # what the library itself does with these data and the frequency of observation k_ set to zero
    ref = Ctx(m, sorted(set(flags) | {"freqs"}), reg, disp, dofit=False)
    model = getattr(ref, "raw_model", ref.model)
    res = unwrap(ref.d.fit(model, c.opts))
    rd = fields(ref.I, fields(ref.I, model)["data"])
    pf = fields(ref.I, res)
    fr0 = (lambda i: TT.app("fr", i)) if "freqs" in flags else (lambda i: ONE)
    drop = lambda v: vmap_all(v, lambda t: map_app(t, "fr", lambda i: TT.ite(TT.eq(i, k_), ZERO, fr0(i))))
    sh3 = lambda a: Arr(tuple(a.shape) + (ONE,) * (2 - len(a.shape)) + (N,), a.body)
    unab = lambda v: unabbrev(c, v)
    for k in ("y", "x", "linear_offset", "weights", "freqs"):
        g, e = cl(d.get(k)), drop(rd.get(k))
        neutral = {"linear_offset": ZERO, "weights": ONE, "freqs": ONE}
        if k in neutral:
            g, e = opt_terms(g, neutral[k]), opt_terms(e, neutral[k])
        ob = f"the fit without an observation keeps {k.replace('_', ' ')} {lab}"
        if not isinstance(g, Arr) or not isinstance(e, Arr):
            out.append(Ob(ob, UNKNOWN, f"{g!r:.40} {e!r:.40}", w))
            continue
        out.append(decide.decide(ob, unab(sh3(g)), sh3(e), w, seeds=sd, prove=False, shapes=[dict(n=5, p=2), dict(n=4, p=3)]))
    o = fields(c.I, f["options"])
    o0 = fields(c.I, c.pf["options"]) if isinstance(c.pf.get("options"), Struct) else {}
    for k in ("l1", "l2", "max_iter", "tol"):
        if k in o and k in o0:
            out.append(Ob(f"the fit without an observation uses the same {k} {lab}", PROVED if same(cl(o[k]), o0[k]) else REFUTED, f"{o[k]}", w))
    # row k: public coefficients of the fit without observation k
    want = pf.get("result")
    if not isinstance(want, Arr) or not isinstance(v, Arr):
        return out + [Ob(nm, UNKNOWN, f"{v!r:.60}", w)]
    wb = drop(want).body
    nb = lambda a: TT.subst(TT.subst(r["beta"].at(H1), {s_: k_ for s_ in loopsyms(r)}), {H1: a})
    wb = map_app(wb, "beta", nb)
    wb = TT.subst(TT.subst(wb, {i_: H2}), {k_: i_})
    wb = TT.subst(wb, {H2: j_})
    out.append(decide.decide(nm, unab(v), Arr((N, c.K), wb), w, seeds=sd, prove=False, shapes=[dict(n=5, p=2), dict(n=4, p=3)]))
    return out


def unabbrev(c, v):
    if c.std is None:
        return v
    return vmap_all(v, lambda t: map_app(map_app(t, "sd", lambda i: c.std["sd"].at(i)), "mu", lambda i: c.std["mu"].at(i)))


def linear_one(pid, flags, reg):
    """statistics of ordinary least squares only"""
    import fam
    m = world.prog()
    fs = [f for f in fam.families(m) if f.name == "Linear" and f.lname == "Id"]
    if not fs:
        raise Missing("Linear<Id>")
    c = Ctx(m, flags, reg, env={"M": fs[0].M})
    sd = world.seeds()
    lab = f"[{','.join(flags) or 'plain'}; penalty {reg or 'none'}]"
    s = stats.Spec(c)
    lin = lambda v: vmap_all(v, concrete)
    rss = c.sumn(lambda i: c.wt(i) * (c.y(i) - s.eta(i)) ** 2)
    out = []
    for meth in ("rss", "r_sq"):
        nm = f"{meth} {lab}"
        try:
            v, runs = nested(c, meth)
        except Give as e:
            out.append(Ob(nm, UNKNOWN, f"gave up: {e}", "src/fit.rs"))
            continue
        w = where.fn_name(m, c.I.one("Fit", meth))
        if not isinstance(v, T):
            out.append(Ob(nm, UNKNOWN, f"{v!r:.60}", w))
            continue
        if meth == "rss":
            out.append(decide.decide(nm, v, rss, w, seeds=sd))
            continue
        # recorded likelihoods are the penalised likelihoods at the recorded coefficients (C23)
        sub = {t: lin(s.reglike(c.b)) for t in [c.pf["model_like"]] if isinstance(t, T)}
        for r in runs:
            b0 = r["beta"].at(ZERO)
            sub[r["like"]] = lin(c.sumn(lambda i: c.wt(i) * (c.y(i) * (b0 + c.off(i)) - (b0 + c.off(i)) ** 2 / num(2))))
        v = TT.subst(v, sub)
        if "offset" in c.flags:
            if c.int and len(runs) != 1:
                out.append(Ob(nm, UNKNOWN, f"{len(runs)} nested fits", w))
                continue
            m0 = (lambda i: runs[0]["beta"].at(ZERO) + c.off(i)) if c.int else c.off
        else:
            m0 = (lambda i: s.ybar()) if c.int else (lambda i: ZERO)
        tss = c.sumn(lambda i: c.wt(i) * (c.y(i) - m0(i)) ** 2)
        out.append(decide.decide(nm, v, ONE - rss / tss, w, seeds=sd, prove=False))
    return out


def concrete(t):
    """the functions of the normal family"""
    for nm, f in (("nat", lambda a: a), ("A", lambda a: a * a / num(2)), ("sat", lambda a: a * a / num(2)), ("ginv", lambda a: a), ("V", lambda a: ONE), ("dnat", lambda a: ONE)):
        for _ in range(4):
            n = map_app(t, nm, f)
            if n is t:
                break
            t = n
    return t
