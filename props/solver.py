"""C20-C24: one step of the solver from an arbitrary state, and how the steps are driven."""
import copy
import itertools
import math
import world
import where
import decide
import evalt
import solver
import stats
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN
from ctx import *
from interp import *
from values import *
from model import FLAGS
import terms as TT

REGS = (None, "l2", "l1", "en")
ADMM = ("l1", "en")


def label(flags, reg):
    return f"[{','.join(flags) or 'plain'}; penalty {reg or 'none'}]"


def configs():
    for r in range(6):
        for fl in itertools.combinations(FLAGS, r):
            for reg in REGS:
                yield fl, reg


def tasks(pid, tier):
    for fl, reg in configs():
        if pid == "C24" and reg not in ADMM:
            continue
        yield ("step", dict(pid=pid, flags=fl, reg=reg), 200)
    if pid in ("C21", "C23"):
        for fl, reg in configs():
            yield ("driving", dict(pid=pid, flags=fl, reg=reg), 200)


class Int:
    """the configuration in the solver's (internally scaled) coordinates"""

    def __new__(cls, c):
        ci = copy.copy(c)
        ci.X = lambda i, k: TT.ite(TT.eq(k, ZERO), ONE, cls.xs(c, i, TT.sub(k, ONE))) if c.int else cls.xs(c, i, k)
        ci.sdk = lambda k: ONE
        return ci

    @staticmethod
    def xs(c, i, j):
        m = c.mu(j) if c.int else ZERO
        return TT.div(c.x(i, j) - m, c.sd(j))


def opq(v):
    return decide.has_opq(v)


class Sim:
    """one interpretation of a step"""

    def __init__(self, S, ints, seed, values, tweak=None, funcs=None):
        self.S = S
        kw = dict(ints=ints, values=dict(values), funcs=dict(funcs or {}))
        self.ip = evalt.Interp(seed, **kw)
        self.ip.tweak = tweak
        self.ip.seen = S.seen
        self.K = int(self.ip.ev(S.c.K, {}))
        self.n = ints["n"]
        sp = S.spec
        if "last_like" not in values:
            self.ip.values["last_like"] = self.ip.ev(S.L_old, {})

    def ev(self, t, **env):
        return self.ip.ev(t, env)

    def vec(self, f):
        return [self.ip.ev(f(num(k)), {}) for k in range(self.K)]

    def evv(self, v):
        """evaluate a value: arrays to lists, enums to (variant, fields), structs to dicts"""
        ip = self.ip
        if isinstance(v, B):
            return ip.evb(v, {})
        if isinstance(v, T):
            return ip.ev(v, {})
        if isinstance(v, Arr):
            sh = [int(ip.ev(s, {})) for s in v.shape]
            if len(sh) == 1:
                return [ip.ev(v.body, {D[0]: k}) for k in range(sh[0])]
            return None
        if isinstance(v, Enum):
            for k, (c, f) in v.alts.items():
                if ip.evb(c, {}):
                    ad = self.S.I.adts.get(v.key)
                    if v.name == "RegressionError" and ad is not None:
                        vr = ad["variants"][k]
                        return ("err", vr["name"], dict(zip([x["name"] for x in vr["fields"]], [self.evv(x) for x in f])))
                    return (k, [self.evv(x) for x in f])
            return None
        if isinstance(v, Gate):
            for c, x in v.alts:
                if ip.evb(c, {}):
                    return self.evv(x)
            return None
        if isinstance(v, Struct):
            return {n: self.evv(x) for n, x in fields(self.S.I, v).items()} or {str(k): self.evv(x) for k, x in enumerate(v.fields)}
        if isinstance(v, Seq):
            n = int(ip.ev(v.size, {}))
            return ("seq", n, v)
        return None


class Prep:
    def __init__(self, m, flags, reg):
        self.S = S = solver.Step(m, flags, reg)
        c = self.c = S.c
        self.I = S.I
        self.reg = reg
        self.seen = set()
        ci = Int(c)
        self.spec = sp = stats.Spec(ci)
        self.ci = ci
        g = S.g
        self.L_old = sp.like(g)
        self.res = S.run()
        self.after = S.af
        K = c.K
        self.nb = lambda k: TT.app("nb", k)          # placeholder coefficients for evaluating the objective elsewhere
        self.L_nb = sp.like(self.nb)
        self.P_nb = sp.pen(self.nb)
        self.grad = lambda k: sp.score(g, k) if reg not in ADMM else c_sub(sp, ci, g, k)
        self.gradt = self.grad(D[0])
        self.Fdt = sp.Fdata(g, D[0], D[1])


def c_sub(sp, ci, g, k):
    """score without the l1 part (and with the l2 part)"""
    old = ci.reg
    ci.reg = "l2" if old == "en" else None
    try:
        return sp.score(g, k)
    finally:
        ci.reg = old


def np_solve(A, b):
    import numpy as np
    A = np.array(A, float)
    if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e8:
        return None
    return np.linalg.solve(A, np.array(b, float))


def close(x, y, tol=1e-6):
    return evalt.close(float(x), float(y), tol)


SCEN = [dict(), dict(tol=1e-3), dict(tol=1e9), dict(tol=0.5), dict(n_iter=7, max_iter=7), dict(n_iter=6, max_iter=7), dict(n_iter=0, max_iter=0), dict(tol=1e-9, r_sq=1.0, s_sq=1.0), dict(tol=30.0), dict(tol=1e-30)]


def step(pid, flags, reg):
    m = world.prog()
    lab = label(flags, reg)
    try:
        P_ = Prep(m, flags, reg)
    except Give as e:
        return [Ob(f"solver step {lab}", UNKNOWN, f"gave up: {e}", "src/irls.rs")]
    w = where.fn_name(m, next(i for i in m["impls"] if i.get("trait") and i["trait"]["key"] == "core::iter::traits::iterator::Iterator" and i["self"].get("key") == P_.S.irls.key)["items"]["next"])
    checks = {"C20": ["direction"], "C21": ["improves"], "C22": ["terminates", "limit", "converged", "noerror"], "C23": ["consistent"], "C24": ["admm", "admm-stop"]}[pid]
    bad = {k: None for k in checks}
    cnt = {k: 0 for k in checks}
    try:
        tmp = []
        nseeds = 4 if world.TIER == "quick" else 24
        for q, sc in enumerate(SCEN):
            for sd in range(nseeds):
                for ints in (dict(n=5, p=2), dict(n=6, p=1)) if sd % 2 else (dict(n=5, p=2),):
                    one(P_, sc, 100 * world.SEED + 17 * q + sd, ints, checks, bad, cnt)
                    if all(bad.values()):
                        raise StopIteration
        one_fixed(P_, checks, bad, cnt)
        if "direction" in checks:
            # fitted means close to the boundary: variances far below one
            for sd in (3, 4):
                small = lambda *a, sd=sd: 1e-9 * (0.5 + evalt._h(sd, "V", sum(map(float, a))))
                for sc in (dict(tol=1e-3), dict(tol=1e-6)):
                    one(P_, sc, sd, dict(n=5, p=2), checks, bad, cnt, None, {"V": small})
        if reg is None and "improves" in checks:
            P_.flat = True
            for sd in (3, 4):
                one(P_, dict(tol=1e-3), sd, dict(n=5, p=2), checks, bad, cnt, None, {"nat": lambda *a: 0.0, "A": lambda *a: 1.0})
            P_.flat = False
    except StopIteration:
        pass
    except evalt.OpaqueTerm as e:
        return [Ob(f"{k} {lab}", REFUTED if bad[k] else UNKNOWN, bad[k] or f"opaque: {e}", w) for k in checks]
    out = []
    for k in checks:
        nm = {"direction": "step is the Newton step of the penalised likelihood", "improves": "accepted step improves the objective", "terminates": "no further step only at a stopping condition",
              "limit": "iteration limit", "converged": "convergence flag", "noerror": "errors only from the solver or the limit", "consistent": "returned and recorded state agree", "admm": "splitting variables", "admm-stop": "no stop before the splitting converged"}[k]
        out.append(Ob(f"{nm} {lab}", REFUTED if bad[k] else (AGREE if cnt[k] else UNKNOWN), bad[k] or f"{cnt[k]} interpretations", w))
    out += loop_rule(P_, m, pid, lab) if pid == "C22" else []
    return out


def unknowns(P_):
    """havocked unknowns left in the step"""
    names = set()
    for u in P_.I.unsolved:
        for t in u[3]:
            if isinstance(t, T) and t.op == "var":
                names.add(t.args[0])
    return sorted(names)


def one(P_, sc, seed, ints, checks, bad, cnt, tweak=None, funcs=None):
    import numpy as np
    S, c, reg = P_.S, P_.c, P_.reg
    h = lambda nm: evalt._h(seed, nm, 0)
    vals = dict(tol=10.0 ** (-6 + 6 * h("tol")), n_iter=3, max_iter=50, n_hist=3, rho=0.3 + 2 * h("rho"), r_sq=10.0 ** (4 * h("r") - 2), s_sq=10.0 ** (4 * h("s") - 2), l1=0.05 + h("l1"), l2=0.05 + h("l2"))
    vals.update({"last_like": None})
    vals.update(sc)
    del vals["last_like"]
    iv = {k: vals.pop(k) for k in ("n_iter", "max_iter", "n_hist")}
    iv["n_hist"] = iv["n_iter"]         # one recorded step per iteration
    un = unknowns(P_)
    tries = 1 if not un else 5
    gr = 0.618033988749894
    for tr in range(tries):
        v = dict(vals)
        for u in un:
            v[u] = [1.0, gr, gr ** 2, gr ** 4, gr ** 8, 0.0, gr ** 16, 1e-12, 0.3, -0.7, 2.0, gr ** 3, gr ** 30, gr ** 5][tr if tr < 2 else 2 + (seed + tr) % 12]
        sim = Sim(P_, {**ints, **iv}, seed, v, tweak, funcs)
        ip = sim.ip
        if not all(ip.evb(f, {}) for f in P_.I.facts):
            continue
        if any(k == "panic" and ip.evb(g, {}) for k, g, _, _ in P_.I.events):
            continue
        res = sim.evv(P_.res)
        if res is None:
            raise evalt.OpaqueTerm("result of a step")
        P_.kinds = getattr(P_, "kinds", {})
        kd = check_one(P_, sim, res, v, iv, checks, bad, cnt, ints, seed)
        P_.kinds[kd] = P_.kinds.get(kd, 0) + 1
        if all(bad.values()) or kd != "search":
            return


def one_fixed(P_, checks, bad, cnt):
    """a state where the step does not move: responses equal to the fitted means at zero coefficients"""
    for seed in (5, 6, 7):
        for ints in (dict(n=5, p=2), dict(n=4, p=1)):
            tw = lambda ip, name, args, v: 0.0 if name in ("gs", "zd", "uc") else (0.5 if name in ("y",) else v)
            one(P_, dict(tol=1.0, r_sq=1.0, s_sq=1.0), seed, ints, checks, bad, cnt, tw, {"ginv": lambda *a: 0.5})
            if P_.reg in ADMM:
                # ... while the splitting is still moving
                tw2 = lambda ip, name, args, v: v if name == "zd" else tw(ip, name, args, v)
                one(P_, dict(tol=1e-6, r_sq=1.0, s_sq=1.0), seed, ints, checks, bad, cnt, tw2, {"ginv": lambda *a: 0.5})


def objective(P_, sim, b, aug=None):
    """penalised (or augmented) likelihood at given coefficients"""
    ip = sim.ip
    key = tuple(map(float, b))
    cache = sim.__dict__.setdefault("objc", {})
    if key not in cache:
        ip2 = evalt.Interp(ip.seed, ints=ip.ints, values=ip.values, funcs={**ip.funcs, "nb": lambda k: b[int(k)]})
        ip2.tweak = ip.tweak
        ip2.coef = ip.coef
        cache[key] = (ip2.ev(P_.L_nb, {}), ip2.ev(P_.P_nb, {}))
    L, Pn = cache[key]
    if aug is None:
        return L, L + Pn
    z, u, rho, l2 = aug
    return L, L - rho / 2 * sum((x - a + q) ** 2 for x, a, q in zip(b, z, u)) - 0.5 * sum(l * x * x for l, x in zip(l2, b))


def check_one(P_, sim, res, v, iv, checks, bad, cnt, ints, seed):
    import numpy as np
    S, c, reg, ip = P_.S, P_.c, P_.reg, sim.ip
    K = sim.K
    g = sim.vec(S.g)
    at = f"({ints}, interpretation {seed})"

    def fail(k, msg):
        if k in bad and not bad[k]:
            bad[k] = f"{msg} {at}"

    def tick(k):
        if k in cnt:
            cnt[k] += 1
    af = {k: sim.evv(x) for k, x in P_.after.items() if k in ("guess", "n_iter", "last_like_data", "done", "reg")}
    hist = P_.after.get("history")
    # splitting variables after the step
    conv = True
    isint = [c.int and k == 0 for k in range(K)]
    l1 = [0.0 if isint[k] else v["l1"] for k in range(K)] if reg in ADMM else None
    l2 = [0.0 if isint[k] else (v["l2"] if reg in ("l2", "en") else 0.0) for k in range(K)]
    aug = None
    if reg in ADMM:
        r = af.get("reg")
        if not isinstance(r, dict) or any(r.get(x) is None for x in ("dual", "cum_res", "rho", "r_sq", "s_sq")):
            raise evalt.OpaqueTerm("splitting variables")
        u0 = sim.vec(lambda k: TT.app("uc", k))
        z0 = sim.vec(lambda k: TT.app("zd", k))
        rho1 = r["rho"]
        u1 = [x * v["rho"] / rho1 for x in u0]
        z1 = [math.copysign(max(abs(a + b) - l / rho1, 0.0), a + b) for a, b, l in zip(g, u1, l1)]
        u2 = [a + b - z for a, b, z in zip(u1, g, z1)]
        rs = sum((a - z) ** 2 for a, z in zip(g, z1))
        ss = sum((rho1 * (z - zo)) ** 2 for z, zo in zip(z1, z0))
        if not (rho1 > 0):
            fail("admm", f"penalty parameter {rho1}")
        for nm, got, want in (("split coefficients", r["dual"], z1), ("scaled dual", r["cum_res"], u2), ("primal residual", [r["r_sq"]], [rs]), ("dual residual", [r["s_sq"]], [ss])):
            if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
                fail("admm", f"{nm} {got} instead of {want}")
        tick("admm")
        th = math.sqrt(K) * v["tol"]
        conv = rs < th and ss < th
        aug = (z1, u2, rho1, l2)
        if close(rs, th, 1e-9) or close(ss, th, 1e-9):
            return
    # Newton direction
    gradt = [ip.ev(P_.gradt, {D[0]: k}) for k in range(K)]
    H = [[ip.ev(P_.Fdt, {D[0]: a, D[1]: b}) for b in range(K)] for a in range(K)]
    for k in range(K):
        if reg in ("l2",):
            H[k][k] += l2[k]
        elif reg in ADMM:
            H[k][k] += l2[k] + aug[2]
            gradt[k] -= aug[2] * (g[k] - aug[0][k] + aug[1][k])
    d = np_solve(H, gradt)
    if d is None:
        return
    full = [a + b for a, b in zip(g, d)]
    L_old, O_old = objective(P_, sim, g, aug)
    L_full, O_full = objective(P_, sim, full, aug)
    same = max(abs(x) for x in d) < 1e-12
    margin = abs(O_full - O_old) < 1e-9 * (1 + abs(O_old))
    if margin and not same:
        if getattr(P_, "flat", False):
            tick("improves")
            if res[0] == 1 and res[1][0] is not None and res[1][0][0] == 0 and conv:
                fail("improves", "a step that does not improve a flat objective is accepted")
        return "search"
    improved = O_full > O_old and not same
    T_old = objective(P_, sim, g)[1]
    small = abs(O_full - O_old) <= v["tol"] * sim.n and sum(x * x for x in d) <= (K + sum(x * x for x in full)) * v["tol"] ** 2
    variant, payload = res
    kind = "search" if conv and not improved and not same else "same" if same else "full" if conv else "unconverged"
    if variant == 0:                      # None
        tick("terminates")
        if not conv:
            fail("admm-stop", "stops although the splitting has not converged")
            fail("terminates", "stops although the splitting has not converged")
        elif improved:
            fail("terminates", "stops although the full step improves the objective")
        tick("admm-stop")
        for k in ("guess",):
            if af.get(k) is not None and not all(close(a, b) for a, b in zip(af[k], g)):
                fail("consistent", "stopping changes the coefficients")
        if af.get("n_iter") is not None and af["n_iter"] != iv["n_iter"]:
            fail("consistent", "stopping counts an iteration")
        return kind
    inner = payload[0]
    if inner is None:
        raise evalt.OpaqueTerm("step result")
    over = iv["n_iter"] + 1 > iv["max_iter"]
    if inner[0] == 1:
        tick("noerror")
        if not over:
            # only a failing linear solve may raise an error
            if ip.evb(P_.S.c.build.alts.get(1, (FALSE,))[0], {}) if isinstance(P_.S.c.build, Enum) else False:
                return kind
            fail("noerror", "a step fails although the iteration limit is not exceeded")
            fail("limit", f"iteration {iv['n_iter'] + 1} of at most {iv['max_iter']} fails")
            return kind
        tick("limit")
        e = inner[1][0]
        if isinstance(e, tuple) and e[0] == "err":
            nh = e[2].get("history")
            if e[1] != "MaxIter":
                fail("limit", f"exceeding the iteration limit is reported as {e[1]}")
            elif e[2].get("n_iter") != iv["max_iter"]:
                fail("limit", f"the limit is reported as {e[2].get('n_iter')} instead of {iv['max_iter']}")
            elif isinstance(nh, tuple) and nh[0] == "seq" and nh[1] != iv["n_hist"] + 1:
                fail("limit", f"the error carries {nh[1]} of {iv['n_hist'] + 1} steps")
        return kind
    tick("limit")
    if over:
        fail("limit", f"iteration {iv['n_iter'] + 1} is accepted although at most {iv['max_iter']} are allowed")
        return kind
    stp = inner[1][0]
    if not isinstance(stp, dict) or stp.get("guess") is None or stp.get("like") is None:
        raise evalt.OpaqueTerm("step contents")
    ng = stp["guess"]
    delta = [a - b for a, b in zip(ng, g)]
    dd = sum(x * x for x in d)
    lam = sum(a * b for a, b in zip(delta, d)) / dd if dd else 0.0
    tick("direction")
    if any(abs(a - lam * b) > 1e-6 * (1e-3 + abs(a) + abs(b) + math.sqrt(dd)) for a, b in zip(delta, d)):
        fail("direction", f"step {delta} is not along the Newton direction {list(map(float, d))}")
    elif (improved or not conv) and not same and not close(lam, 1.0, 1e-5):
        fail("direction", f"only {lam:.4g} of the Newton step is taken although the full step is acceptable")
    L_new, O_new = objective(P_, sim, ng)
    if conv:
        tick("improves")
        if improved and close(lam, 1.0, 1e-5):
            pass
        elif not (O_new > T_old + 1e-12 * abs(T_old)) and not close(O_new, T_old, 1e-10):
            fail("improves", f"a step that lowers the objective from {T_old:.9g} to {O_new:.9g} is accepted")
        elif not (O_new > T_old) and not close(O_new, T_old, 1e-10):
            fail("improves", f"a step that lowers the objective from {T_old:.9g} to {O_new:.9g} is accepted")
    else:
        tick("improves")
    # consistency of what is returned and stored
    tick("consistent")
    if not close(stp["like"], O_new):
        fail("consistent", f"the reported likelihood {stp['like']:.9g} is not that of the reported coefficients, {O_new:.9g}")
    if af.get("guess") is None or len(af["guess"]) != K or not all(close(a, b) for a, b in zip(af["guess"], ng)):
        fail("consistent", "the solver does not continue from the returned coefficients")
    if af.get("last_like_data") is None or not close(af["last_like_data"], L_new):
        fail("consistent", f"the stored data likelihood {af.get('last_like_data')} is not that of the current coefficients, {L_new:.9g}")
    if af.get("n_iter") != iv["n_iter"] + 1:
        fail("consistent", f"iteration count {af.get('n_iter')} after {iv['n_iter']}")
    if hist is not None:
        hv = sim.evv(hist)
        if not (isinstance(hv, tuple) and hv[0] == "seq"):
            raise evalt.OpaqueTerm("history")
        _, nh, seq = hv
        if nh != iv["n_hist"] + 1:
            fail("consistent", f"history has {nh} entries after {iv['n_hist']}")
        else:
            last = sim.evv(seq.at(num(nh - 1)))
            if not isinstance(last, dict) or last.get("guess") is None:
                raise evalt.OpaqueTerm("history entry")
            if not close(last["like"], stp["like"]) or not all(close(a, b) for a, b in zip(last["guess"], ng)):
                fail("consistent", "the recorded step differs from the returned one")
            first = sim.evv(seq.at(num(0)))
            want = [ip.app("hb", [0, k]) for k in range(K)]
            if not all(close(a, b) for a, b in zip(first["guess"], want)):
                fail("consistent", "recording a step changes earlier entries")
    # convergence flag
    if af.get("done") is not None:
        tick("converged")
        tick("admm-stop")
        if af["done"] and not conv:
            fail("converged", "declared converged although the splitting has not converged")
            fail("admm-stop", "declared converged although the splitting has not converged")
        elif conv and af["done"] != small and not any(close(a, b, 1e-9) for a, b in ((abs(O_full - O_old), v["tol"] * sim.n), (sum(x * x for x in d), (K + sum(x * x for x in full)) * v["tol"] ** 2))):
            fail("converged", f"declared {'converged' if af['done'] else 'not converged'} with objective change {abs(O_full - O_old):.4g}, coefficient change {math.sqrt(sum(x * x for x in d)):.4g}, tolerance {v['tol']:.4g}")
    return kind


def loop_rule(P_, m, pid, lab):
    """every loop of the step has a variable that shrinks geometrically towards a bound it is compared with"""
    out = []
    for key, h, pc, syms, N_, hs, exits, rets, npc in P_.I.unsolved:
        w = where.fn_name(m, key) if not key.startswith("{") else key
        ok = bad = False
        why = "no bounded decreasing variable found"
        names = {x.args[0] for x in syms if isinstance(x, T) and x.op == "var"}
        for p, s in hs.items():
            t, nx = s.t, N_.get(p)
            if not isinstance(t, T) or t.op != "var" or not isinstance(nx, T):
                continue
            r = ratio(nx, t)
            if r is None or r <= 0:
                continue
            if r >= 1:
                # grows while the loop asks it to fall below a bound
                for a in decide.all_atoms(npc):
                    if a.op in ("lt", "le") and a.args[1] is t and not (var_names(a.args[0]) & names) and (npc & ~TT.batom(a)) is FALSE:
                        bad = True
                    if a.op in ("lt", "le") and a.args[0] is t and not (var_names(a.args[1]) & names) and (npc & TT.batom(a)) is FALSE:
                        bad = True
                continue
            # the loop continues only while  t > bound  for a bound that does not change
            for e in [npc]:
                atoms = decide.all_atoms(e)
                for a in atoms:
                    if a.op in ("lt", "le") and a.args[1] is t and not (var_names(a.args[0]) & names):
                        if (e & ~TT.batom(a)) is FALSE and nonneg(a.args[0]):
                            ok = True
                    # ... or stops once it does not exceed it
                    if a.op in ("lt", "le") and a.args[0] is t and not (var_names(a.args[1]) & names):
                        if (e & TT.batom(a)) is FALSE and nonneg(a.args[1]):
                            ok = True
        out.append(Ob(f"inner loop terminates {lab}", PROVED if ok else REFUTED if bad else UNKNOWN, "" if ok else "the loop variable never falls below the bound that ends the loop" if bad else why, w))
    return out


def ratio(nx, t):
    try:
        one_ = TT.subst(nx, {t: ONE})
        two = TT.subst(nx, {t: num(2)})
        if one_.op == "num" and two.op == "num" and two.args[0] == 2 * one_.args[0]:
            return float(one_.args[0])
    except Exception:
        return None


def var_names(t):
    r, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.op == "var":
                r.add(x.args[0])
            st += [a for a in x.args if isinstance(a, (T, B))]
        elif isinstance(x, B) and x.atom is not None:
            st += [x.atom, x.hi, x.lo]
    return r


def nonneg(t):
    return t.op == "app" and t.args[0] == "abs" or t.op == "num" and t.args[0] >= 0


# ------------------------------------------------------------------ how the steps are driven
def driving(pid, flags, reg):
    """start, selection of the best step, and what the fit reports"""
    m = world.prog()
    lab = label(flags, reg)
    out = []
    c = Ctx(m, flags, reg)
    I = c.I
    run = I.runs[0]
    f0 = fields(I, run["irls0"])
    ci = Int(c)
    sp = stats.Spec(ci)
    wr = where.fn_name(m, run["stack"][-1]) if run["stack"] else "src/glm.rs"
    wf = "src/fit.rs::Fit::new"
    sd = world.seeds()

    def ob(nm, got, want, w):
        out.append(decide.decide(f"{nm} {lab}", got, want, w, seeds=sd))

    def known(nm, cond, msg, w):
        out.append(Ob(f"{nm} {lab}", PROVED if cond else REFUTED, "" if cond else msg, w))

    def back(b):
        """user coordinates of internal coefficients b(k)"""
        sub = c.sumk(lambda k: TT.ite(c.isint(k), ZERO, b(k) * c.mu(TT.sub(k, ONE)) / c.sdk(k))) if c.int else ZERO
        return lambda k: TT.ite(c.isint(k), b(ZERO) - sub, b(k) / c.sdk(k)) if c.int else b(k) / c.sdk(k)
    if pid == "C21":
        out.append(selection(run, I, f"the reported step is the best one {lab}", wr))
    # no step at all: the starting point with its penalised likelihood
    c0 = Ctx(m, flags, reg, cfg={"irls": "none", "skip_next": True})
    g0 = fields(c0.I, c0.I.runs[0]["irls0"]).get("guess")
    ci0 = Int(c0)
    s0 = stats.Spec(ci0)
    gg = lambda k: g0.at(k)
    small = [dict(n=5, p=2)]
    out.append(decide.decide(f"without any step the likelihood is that of the starting point {lab}", c0.pf["model_like"], s0.like(gg) + s0.pen(gg), wr, seeds=sd[:2], shapes=small, prove=False))
    c_ = c
    sub = c0.sumk(lambda k: TT.ite(c0.isint(k), ZERO, gg(k) * c0.mu(TT.sub(k, ONE)) / c0.sdk(k))) if c0.int else ZERO
    bk = lambda k: (TT.ite(c0.isint(k), gg(ZERO) - sub, gg(k) / c0.sdk(k)) if c0.int else gg(k) / c0.sdk(k))
    out.append(decide.decide(f"without any step the coefficients are the starting point {lab}", c0.pf["result"], Arr((c0.K,), bk(D[0])), wr, seeds=sd[:2], shapes=small, prove=False))
    if pid == "C23":
        beta = lambda k: run["beta"].at(k)
        ob("reported coefficients", c.pf["result"], Arr((c.K,), back(beta)(D[0])), wf)
        ob("reported likelihood", c.pf["model_like"], run["like"], wf)
        h = c.pf.get("history")
        h1 = fields(I, run["irls1"]).get("history") if isinstance(run["irls1"], Struct) else None
        if isinstance(h, Seq) and isinstance(h1, Seq):
            k = TT.idx("t")
            e, e1 = h.at(k), h1.at(k)
            fe, fe1 = fields(I, e), fields(I, e1)
            r = evk(fe["guess"], k), evk(fe1["guess"], k)
            ob("recorded coefficients are in the user's coordinates", subst_k(fe["guess"], k), Arr((c.K,), back(lambda q: subst_k(fe1["guess"], k).at(q))(D[0])), wf)
            ob("recorded likelihoods", subst_k(fe["like"], k), subst_k(fe1["like"], k), wf)
            ob("number of recorded steps", TT.sub(h.size, h.pos), TT.sub(h1.size, h1.pos), wf)
        else:
            out.append(Ob(f"history {lab}", UNKNOWN, f"{h!r:.60}", wf))
        n1 = fields(I, run["irls1"]).get("n_iter") if isinstance(run["irls1"], Struct) else None
        if n1 is not None:
            known("reported number of iterations", same(c.pf["n_iter"], n1), f"{c.pf['n_iter']}", wf)
        # the start
        known("starts with no iterations", f0["n_iter"] is ZERO and f0["done"] is FALSE and isinstance(f0["history"], Seq) and f0["history"].size is ZERO, "iteration count, convergence flag or history not initial", "src/irls.rs::Irls::new")
        g0 = f0["guess"]
        out.append(decide.decide(f"starts with the data likelihood of the starting point {lab}", f0["last_like_data"], sp.like(lambda k: g0.at(k)), "src/irls.rs::Irls::new", seeds=sd[:2], shapes=[dict(n=5, p=2)], prove=False))
        if reg in ADMM:
            r0 = fields(I, f0["reg"])
            if all(x in r0 for x in ("dual", "cum_res", "rho")):
                z = lambda v: isinstance(v, Arr) and v.body is ZERO
                known("splitting starts balanced", z(r0["cum_res"]) and isinstance(r0["rho"], T) and r0["rho"].op == "num" and r0["rho"].args[0] > 0, "initial dual variable or penalty", "src/regularization.rs")
    return out


def selection(run, I, nm, w):
    """whichever steps the solver yields, the one of the largest objective is reported"""
    fn = "steplike" + run["name"]
    like = lambda v: fields(I, v)["like"] if isinstance(v, Struct) and "like" in fields(I, v) else None

    def value(t, env, likes):
        ip = evalt.Interp(5, ints=dict(n=5, p=2), funcs={fn: lambda k, *r: likes[int(k)]}, values={"nsteps" + run["name"]: len(likes)})
        ip.funcs["nsteps" + run["name"]] = lambda *r: len(likes)
        return ip.ev(t, env)
    pairs = ((-3.0, -1.0), (-1.0, -3.0), (2.0, -2.0), (-2.0, 2.0), (1.0, 1.5), (-1.5, -1.0), (0.0, -1.0))
    sel = run.get("select")
    try:
        if sel is None:
            v = run.get("selected")
            if isinstance(v, Enum) and v.alts.get(1) and like(v.alts[1][1][0]) is not None:
                t = like(v.alts[1][1][0])
                for seq in ([-5.0, -1.0, -3.0, -2.0], [-1.0, -2.0, -4.0], [-4.0, -3.0, -1.0], [3.0, -3.0, 5.0, 1.0, 4.0]):
                    got = value(t, {}, seq)
                    if got != max(seq):
                        return Ob(nm, REFUTED, f"of steps with likelihoods {seq} the one with {got} is reported", w)
                return Ob(nm, AGREE, "", w)
            return Ob(nm, UNKNOWN, "selection not understood", w)
        name, o, k1, k2 = sel
        for x, y in pairs:
            env = {k1: 0, k2: 1}
            if name in ("max_by", "min_by"):
                if not isinstance(o, OrdV):
                    return Ob(nm, UNKNOWN, f"comparison {o!r:.60}", w)
                a, b = value(o.x, env, (x, y)), value(o.y, env, (x, y))
                if name == "min_by":
                    a, b = b, a
                got = y if a < b else x if a > b else None
                if got is None:
                    return Ob(nm, REFUTED, f"steps with likelihoods {x} and {y} are not distinguished", w)
            elif name == "max_by_key":
                a, b = o
                if not isinstance(a, T):
                    return Ob(nm, UNKNOWN, f"key {a!r:.60}", w)
                a, b = value(a, env, (x, y)), value(b, env, (x, y))
                got = x if a > b else y
            else:
                t = like(o)
                if t is None:
                    return Ob(nm, UNKNOWN, f"selection {o!r:.60}", w)
                got = value(t, env, (x, y))
            if got != max(x, y):
                return Ob(nm, REFUTED, f"of two steps with likelihoods {x} and {y} the one with {got} is selected", w)
        return Ob(nm, AGREE, f"{len(pairs)} orderings", w)
    except evalt.OpaqueTerm as e:
        return Ob(nm, UNKNOWN, f"opaque: {e}", w)


def evk(v, k):
    return v


def subst_k(v, k):
    return vsubst(v, {k: num(2)})
