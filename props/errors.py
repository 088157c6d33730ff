"""C25: failures inside the solver or of the linear algebra reach the caller as that failure."""
import itertools
import world
import where
import evalt
import solver
import stats
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN
from ctx import *
from interp import *
from values import *
from model import FLAGS
import terms as TT

REGS = (None, "l2", "l1", "en")
SHAPES = ((5, 2), (4, 1), (7, 3))


def tasks(pid, tier):
    for r in range(6):
        for fl in itertools.combinations(FLAGS, r):
            for reg in REGS:
                yield ("one", dict(flags=fl, reg=reg), 200)


def leaves(v, ip, acc):
    """tags of the library values inside a value, under an interpretation; None where it is not understood"""
    if isinstance(v, Opq):
        acc.add("?")
    elif isinstance(v, Struct):
        if v.key.startswith("$"):
            acc.add(v.key)
        for x in v.fields:
            leaves(x, ip, acc)
    elif isinstance(v, Tup):
        for x in v.items:
            leaves(x, ip, acc)
    elif isinstance(v, Enum):
        for k, (c, f) in v.alts.items():
            if ip.evb(c, {}):
                for x in f:
                    leaves(x, ip, acc)
    elif isinstance(v, Gate):
        for c, x in v.alts:
            if ip.evb(c, {}):
                leaves(x, ip, acc)
    return acc


def alt(v, ip):
    """the variant a value takes under an interpretation"""
    if isinstance(v, Gate):
        for c, x in v.alts:
            if ip.evb(c, {}):
                return alt(x, ip)
        return None
    if isinstance(v, Enum):
        for k, (c, f) in v.alts.items():
            if ip.evb(c, {}):
                return k, f
    return None


def variant(I, v, ip):
    a = alt(v, ip)
    ad = I.adts.get(v.key) if isinstance(v, Enum) else None
    return ad["variants"][a[0]]["name"] if a is not None and ad is not None else "?"


def interps(k, sing, vals, more=None):
    """interpretations in which every system is singular (or none is)"""
    for n, p in SHAPES:
        for s in range(k):
            ip = evalt.Interp(100 * world.SEED + s, ints=dict(n=n, p=p, nn=3, n_iter=3, max_iter=50, n_hist=3), values=dict(vals), funcs={"nonsingular": lambda *a: not sing, "valid_y": lambda *a: True, **(more or {})})
            ip.loops = True
            yield ip


def one(flags, reg):
    m = world.prog()
    lab = f"[{','.join(flags) or 'plain'}; penalty {reg or 'none'}]"
    out = []
    k = 2 if world.TIER == "quick" else 8
    # 1. a step of the solver from any state
    nm = f"a failing solve is returned by the step {lab}"
    w = "src/irls.rs"
    try:
        S = solver.Step(m, flags, reg, cfg={"linalg": "sym"})
        w = where.fn_name(m, next(i for i in m["impls"] if i.get("trait") and i["trait"]["key"].endswith("iterator::Iterator") and i["self"].get("key") == S.irls.key)["items"]["next"])
        n0 = len(S.I.events)
        res = S.run()
        ev = [e for e in S.I.events[n0:] if e[0] == "linalg"]
        vals = dict(tol=1e-3, rho=0.7, r_sq=1.0, s_sq=1.0, l1=0.3, l2=0.4, last_like=-50.0)
        bad, good = None, 0
        for ip in interps(k, True, vals):
            if not any(ip.evb(e[1], {}) for e in ev):
                continue
            a = alt(res, ip)
            if a is None:
                raise evalt.OpaqueTerm("result of a step")
            if a[0] != 1:
                bad = bad or "a failing solve ends the iteration as if it had converged"
                continue
            b = alt(a[1][0], ip)
            if b is None:
                raise evalt.OpaqueTerm("result of a step")
            if b[0] != 1:
                bad = bad or "a failing solve yields a step"
                continue
            e = b[1][0]
            tags = leaves(e, ip, set())
            if variant(S.I, e, ip) == "?":
                raise evalt.OpaqueTerm("error of a step")
            if variant(S.I, e, ip) != "LinalgError":
                bad = bad or f"a failing solve is reported as {variant(S.I, e, ip)}"
            elif "$linalg" not in tags and "?" not in tags:
                bad = bad or "the error does not carry its source"
            good += 1
        out.append(Ob(nm, REFUTED if bad else AGREE if good else UNKNOWN, bad or f"{good} interpretations", w))
    except (Give, Diverge, evalt.OpaqueTerm, ArithmeticError, TypeError, ValueError) as e:
        out.append(Ob(nm, UNKNOWN, f"{type(e).__name__}: {e}"[:200], w))
    # 2. the whole regression: an error of any step is the result
    c = Ctx(m, flags, reg, "FreeDispersion", cfg={"linalg": "sym", "irls_err": True, "irls": "maybe"})
    ks = c.I.find("Glm", "regression") or c.I.find("ModelBuilder", "fit")
    w = where.fn_name(m, ks[0]) if ks else "src/glm.rs"
    run = c.I.runs[0] if c.I.runs else None
    for fails, nm in ((True, f"an error of a step fails the fit {lab}"), (False, f"a fit without a failing step succeeds {lab}")):
        bad, good = None, 0
        try:
            if run is None:
                raise Give("no run of the solver")
            for steps in (1, 2, 5):
                for ip in interps(k, False, {"irls_ok": not fails, "any_step": True}, {"step_ok": lambda *a: not fails, "nsteps": lambda *a: steps}):
                    if not ip.evb(run["guard"], {}) or not all(ip.evb(f, {}) for f in c.I.facts):
                        continue
                    if any(e[0] in ("panic",) and ip.evb(e[1], {}) for e in c.I.events):
                        continue
                    a = alt(c.res, ip)
                    if a is None:
                        raise evalt.OpaqueTerm("result of the regression")
                    good += 1
                    if not fails:
                        if a[0] != 0:
                            bad = bad or f"fails with {variant(c.I, a[1][0], ip)}"
                    elif a[0] != 1:
                        bad = bad or "the fit succeeds although a step failed"
                    else:
                        tags = leaves(a[1][0], ip, set())
                        if "$irls_error" not in tags and "?" not in tags:
                            bad = bad or f"another error ({variant(c.I, a[1][0], ip)}) replaces that of the step"
            out.append(Ob(nm, REFUTED if bad else AGREE if good else UNKNOWN, bad or f"{good} interpretations", w))
        except (Give, Diverge, evalt.OpaqueTerm, ArithmeticError, TypeError, ValueError) as e:
            out.append(Ob(nm, UNKNOWN, f"{type(e).__name__}: {e}"[:200], w))
    # 3. statistics: a failing inversion is their error
    pubs = sorted(b["ref"]["name"] for b in m["bodies"].values() if b.get("pub") and b["ref"].get("recv") == "Fit" and b.get("mir") and b["mir"]["argc"] == 1 and b.get("kind") == "AssocFn")
    calls = [(x, ()) for x in pubs] + [(a[1], a[2]) for a in stats.table(c)]
    done = set()
    for meth, args in calls:
        key = (meth, repr(args)[:80])
        if not c.I.find("Fit", meth) or key in done:
            continue
        done.add(key)
        n0 = len(c.I.events)
        w = where.fn_name(m, c.I.one("Fit", meth))
        nm = f"a failing inversion is the error of {meth} {lab}"
        try:
            v = c.call(meth, *args)
            if not (isinstance(v, (Enum, Gate))):
                continue
            ev = [e for e in c.I.events[n0:] if e[0] == "linalg" and isinstance(e[3], B)]
            if not ev or isinstance(v, Enum) and "Result" not in v.key:
                continue
            bad, good = None, 0
            for sing in (True, False):
                rn = {r["name"] for r in c.I.runs} | {""}
                for ip in interps(k, sing, {x + q: True for q in rn for x in ("irls_ok", "any_step")}, {"step_ok" + q: lambda *a: True for q in rn}):
                    hit = any(ip.evb(e[1], {}) for e in ev)
                    if sing and not hit:
                        continue
                    a = alt(v, ip)
                    if a is None:
                        continue
                    good += 1
                    if not sing and a[0] != 0:
                        bad = bad or "fails although nothing it computes fails"
                    if sing and a[0] != 1:
                        bad = bad or "a failing inversion yields a result"
                    elif sing:
                        e = a[1][0]
                        tags = leaves(e, ip, set())
                        if variant(c.I, e, ip) == "?" or "$irls_error" in tags:
                            continue            # the error of a nested fit
                        if variant(c.I, e, ip) != "LinalgError":
                            bad = bad or f"a failing inversion is reported as {variant(c.I, e, ip)}"
                        elif "$linalg" not in tags and "?" not in tags:
                            bad = bad or "the error does not carry its source"
            out.append(Ob(nm, REFUTED if bad else AGREE if good else UNKNOWN, bad or f"{good} interpretations", w))
        except (Give, Diverge, evalt.OpaqueTerm, ArithmeticError, TypeError, ValueError) as e:
            out.append(Ob(nm, UNKNOWN, f"{type(e).__name__}: {e}"[:200], w))
    return out
