"""C42: after a successful build no public operation panics."""
import itertools
import world
import where
import evalt
import solver
import stats
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN
from ctx import *
from interp import *
from values import *
from model import FLAGS
import terms as TT

REGS = (None, "l2", "l1", "en")
DISPS = ("FreeDispersion", "NoDispersion")
KINDS = {"panic": "panics", "shape": "mixes incompatible shapes", "bounds": "indexes out of bounds", "assert": "fails an assertion"}
SHAPES = ((1, 1), (2, 1), (2, 3), (5, 2), (3, 3), (1, 3), (6, 4), (2, 0), (1, 0), (0, 1))
TT.MINVAL.update(n=0, p=0)      # nothing is taken for granted about the sizes


def tasks(pid, tier):
    for r in range(6):
        for fl in itertools.combinations(FLAGS, r):
            for reg in REGS:
                for disp in DISPS:
                    if disp == DISPS[1] and reg is not None and tier == "quick":
                        continue
                    yield ("methods", dict(flags=fl, reg=reg, disp=disp), 200)


def feasible(g, seeds, flags=()):
    for n, p in SHAPES:
        if p == 0 and "intercept" not in flags:
            continue                # a model without parameters cannot be fitted
        for s in range(seeds):
            for tw in (None, evalt.SPECIAL["uneven"], evalt.SPECIAL["zeros"], evalt.SPECIAL["equal"]):
                ip = evalt.Interp(100 * world.SEED + s, ints=dict(n=n, p=p, nn=3))
                ip.tweak = tw
                if ip.evb(g, {}):
                    return f"n={n} p={p}, interpretation {100 * world.SEED + s}"
    return None


def methods(flags, reg, disp):
    m = world.prog()
    lab = f"[{','.join(flags) or 'plain'}; penalty {reg or 'none'}; {disp}]"
    out = []
    c = Ctx(m, flags, reg, disp, cfg={"linalg": "sym", "irls_err": True, "irls": "maybe"})
    seeds = 5 if world.TIER == "quick" else 20

    def scan(nm, ev, failed=None):
        bad, und, k = {}, failed, 0
        for e in ev:
            if e[0] in KINDS:
                k += 1
                w = where.fn_name(m, e[2])
                try:
                    r = feasible(e[1], seeds, flags)
                except (evalt.OpaqueTerm, ArithmeticError, ValueError, TypeError, RecursionError) as x:
                    und = und or f"{KINDS[e[0]]} in {w}? {x}"
                    continue
                if r:
                    bad.setdefault((e[0], w, e[3]), r)
            elif e[0] == "unwrap?":
                und = und or f"{e[3]} in {where.fn_name(m, e[2])}"
        w0 = where.fn_name(m, c.I.one("Fit", nm)) if c.I.find("Fit", nm) else "src/model.rs"
        for (kd, w, det), r in bad.items():
            out.append(Ob(f"{nm} {KINDS[kd]} in {w}: {det} {lab}", REFUTED, r, w))
        if not bad:
            out.append(Ob(f"{nm} {lab}", UNKNOWN if und else AGREE, und or f"{k} possible panics, none reachable", w0))
    scan("build and fit", c.I.events)
    done = set()
    pubs = sorted(b["ref"]["name"] for b in m["bodies"].values() if b.get("pub") and b["ref"].get("recv") == "Fit" and b.get("mir") and b["mir"]["argc"] == 1 and b.get("kind") == "AssocFn")
    calls = [(x, ()) for x in pubs] + [(a[1], a[2]) for a in stats.table(c)]
    if not pubs:
        return [Ob("anchor", REFUTED, "no public operations of a fit found", "src/fit.rs")]
    for nm, args in calls:
        if not c.I.find("Fit", nm) or (nm, repr(args)[:80]) in done:
            continue
        done.add((nm, repr(args)[:80]))
        n0 = len(c.I.events)
        f = None
        try:
            c.call(nm, *args)
        except (Give, Diverge) as e:
            f = f"gave up: {e}"
        scan(nm, c.I.events[n0:], f)
    # a step of the solver from any state
    try:
        S = solver.Step(m, flags, reg, cfg={"linalg": "sym"})
        n0 = len(S.I.events)
        S.run()
        scan("solver step", S.I.events[n0:])
    except (Give, Diverge) as e:
        out.append(Ob(f"solver step {lab}", UNKNOWN, f"gave up: {e}", "src/irls.rs"))
    return out
