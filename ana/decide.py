"""Deciding obligations `extracted value == specified value`."""
import itertools
import time
from values import *
import terms as TT
import evalt
import nf

PROVED, AGREE, REFUTED, UNKNOWN = "proved", "agree", "refuted", "unknown"


class Ob:
    """outcome of one obligation"""
    __slots__ = ("name", "verdict", "detail", "where")

    def __init__(self, name, verdict, detail="", where=""):
        self.name, self.verdict, self.detail, self.where = name, verdict, detail, where

    def __repr__(self):
        return f"{self.name}: {self.verdict} {self.detail}"


def has_opq(v):
    if isinstance(v, (T,)):
        return v.opaque
    if isinstance(v, B):
        return v.has_opaque()
    if isinstance(v, Arr):
        return has_opq(v.body) or any(s.opaque for s in v.shape)
    return not isinstance(v, (T, B, Arr))


NF_LIMIT = 6.0
SHAPES = [dict(n=5, p=2, nn=3), dict(n=6, p=3, nn=2)]


def range_facts(shape):
    """0 <= @k < shape_k"""
    m = TRUE
    for k, s in enumerate(shape):
        m = m & TT.lt(D[k], s)
    return m


def nf_equal(a, b, limit=None):
    try:
        import signal

        def onalarm(*_):
            raise TimeoutError()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, limit or NF_LIMIT)
        try:
            return nf.nf(TT.sub(a, b)).d == {} or nf.is_zero(TT.sub(a, b))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except Exception:
        return False


def in_range(t, shape):
    """specialise a body with the facts that index variables are within range"""
    try:
        from loops import v_restrict
        return v_restrict(t, range_facts(shape))
    except Exception:
        return t


def all_atoms(t, acc=None, seen=None):
    """comparison atoms a term's value depends on"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, B):
            if x.atom is None or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            acc[x.atom] = True
            stack += [x.hi, x.lo, x.atom]
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            stack += [a for a in x.args if isinstance(a, (T, B))]
    return acc


def atom_consts(atoms):
    ints, reals = set(), set()
    for a in atoms:
        if a.op in ("lt", "le", "eq"):
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                stack = [x]
                while stack:
                    t = stack.pop()
                    if t.op == "num":
                        (ints if TT.integral(y) else reals).add(float(t.args[0]))
                    elif t.op in ("add", "neg", "mul"):
                        stack += list(t.args)
    return ints, reals


class Cmp:
    def __init__(self, gshape, gbody, wshape, wbody, kw, guard):
        self.g, self.gb, self.w, self.wb, self.kw, self.guard = gshape, gbody, wshape, wbody, kw, guard
        self.seen = set()

    def interp(self, ints, seed, tweak=None):
        kw = self.kw
        ip = evalt.Interp(seed, ints={**ints, **kw.get("ints", {})}, values=kw.get("values"), funcs=kw.get("funcs"), pos=kw.get("pos", ()))
        ip.tweak = tweak
        ip.epsc = tweak is not None and tweak in (evalt.SPECIAL["micro"], evalt.SPECIAL["micros"])
        ip.seen = self.seen
        if kw.get("setup"):
            kw["setup"](ip)
        return ip

    def confirm(self, ints, seed, tweak, env, rtol):
        """is the difference there in 60- and in 90-digit arithmetic, with the same values (and so not rounding)?"""
        import mpmath
        r = []
        try:
            for dps in (60, 90):
                with mpmath.workdps(dps):
                    ip = self.interp(ints, seed, tweak)
                    ip.hp = True
                    x, y = ip.ev(self.gb, env), ip.ev(self.wb, env)
                    if isinstance(x, (complex, mpmath.mpc)) or isinstance(y, (complex, mpmath.mpc)):
                        return False
                    if evalt.close(x, y, rtol):
                        return False
                    r.append((x, y))
            return all(evalt.close(p, q, 1e-6) for p, q in zip(*r))
        except evalt.OpaqueTerm:
            raise
        except Exception:
            return False

    def run(self, ints, seed, tweak=None, rtol=1e-6, special=False):
        """None | ('shape'|'value', witness) ; informative count"""
        ip = self.interp(ints, seed, tweak)
        gs = [int(ip.ev(s, {})) for s in self.g]
        ws = [int(ip.ev(s, {})) for s in self.w]
        if gs != ws:
            return ("shape", f"shape {gs} instead of {ws} at {ints}"), 1
        informative = 0
        for ix in itertools.product(*[range(s) for s in ws]):
            env = dict(zip(D, ix))
            if self.guard is not None and not ip.evb(self.guard, env):
                continue
            if isinstance(self.gb, B):
                x, y = ip.evb(self.gb, env), ip.evb(self.wb, env)
                informative += 1
                if x != y:
                    return ("value", f"at index {ix} ({ints}, interpretation {seed}): {x} instead of {y}"), informative
                continue
            x, y = ip.ev(self.gb, env), ip.ev(self.wb, env)
            if isinstance(x, complex) or isinstance(y, complex):
                continue
            if y == y:
                informative += 1
            if special == "micro":
                if x != x or y != y:
                    continue
            elif special and not (abs(x) < 1e12 and abs(y) < 1e12):
                # an infinite value is telling only where the inputs themselves are regular
                if special != "regular" or x != x or y != y or min(abs(x), abs(y)) > 1e9:
                    continue
            if not evalt.close(x, y, rtol) and self.confirm(ints, seed, tweak, env, rtol):
                return ("value", f"at index {ix} ({ints}, interpretation {seed}): {x!r:.14} instead of {y!r:.14}"), informative
        return None, informative


def norm_value(v):
    if isinstance(v, (T, B)):
        return (), v
    if isinstance(v, Arr):
        return v.shape, v.body
    return None, v


def decide(name, got, want, where="", seeds=(1, 2, 3), interp_kw=None, shapes=None, prove=True, rtol=1e-6, guard=None, steer=True):
    """got: extracted value; want: specified value (term or array), or a list of equivalent ones"""
    wants = want if isinstance(want, list) else [want]
    wshape, wbody = norm_value(wants[0])
    gshape, gbody = norm_value(got)
    if gshape is None:
        return Ob(name, UNKNOWN, f"value not understood: {got!r:.80}", where)
    if len(gshape) != len(wshape):
        return Ob(name, REFUTED, f"has {len(gshape)} axes, expected {len(wshape)}", where)
    if not isinstance(gbody, (T, B)):
        return Ob(name, UNKNOWN, f"body not understood: {gbody!r:.80}", where)
    cmp = Cmp(gshape, gbody, wshape, wbody, dict(interp_kw or {}), guard)
    shapes = shapes or SHAPES
    diffs, ok = [], 0
    try:
        for ints in shapes:
            for sd in seeds:
                r, inf = cmp.run(ints, sd, rtol=rtol)
                if r is not None:
                    diffs.append(r)
                    if r[0] == "shape" or len(diffs) >= 2:
                        return Ob(name, REFUTED, diffs[-1][1], where)
                elif inf:
                    ok += 1
    except evalt.OpaqueTerm as e:
        return Ob(name, UNKNOWN, f"opaque: {e}", where)
    except (RecursionError, ArithmeticError, ValueError, TypeError) as e:
        return Ob(name, UNKNOWN, f"{type(e).__name__}: {e}"[:100], where)
    if diffs:
        # one more independent look at the differing shape
        return Ob(name, REFUTED, diffs[0][1], where)
    if not ok:
        return Ob(name, UNKNOWN, "no informative interpretation", where)
    g = in_range(gbody, wshape)
    proved = False
    if prove:
        for w in wants:
            _, wb = norm_value(w)
            if g is in_range(wb, wshape) or (isinstance(g, T) and nf_equal(g, in_range(wb, wshape))):
                proved = True
                break
    if proved:
        return Ob(name, PROVED, "", where)
    extra = ""
    if steer:
        r, uncovered = steered(cmp, g, in_range(wbody, wshape), shapes)
        if r is not None:
            return Ob(name, REFUTED, r, where)
        extra = f", {uncovered} branch outcomes not reached" if uncovered else ""
    return Ob(name, AGREE, f"{ok} interpretations{extra}", where)


def steered(cmp, g, w, shapes):
    """look for interpretations that take the branches no random one took"""
    mine = [a for a in all_atoms(g) if a.op not in ("all",)]
    theirs = all_atoms(w)
    want = {(a, o) for a in mine for o in (True, False) if a not in theirs}
    other = {(a, o) for a in all_atoms(w) if a.op not in ("all",) and a not in mine for o in (True, False)}
    missing = lambda: {x for x in want if x not in cmp.seen}
    # conditions on sizes alone count on either side
    want |= {(a, o) for a in all_atoms(g) | all_atoms(w) for o in (True, False) if a.op in ("lt", "le", "eq") and TT.integral(a.args[0]) and TT.integral(a.args[1])
             and any(x.op != "idx" and not x.fv for x in a.args) and not a.fv}
    if not want and not other:
        return None, 0
    ints, reals = atom_consts([a for a, o in missing()])
    cand = []
    for nm, tw in evalt.SPECIAL.items():
        cand.append((shapes[0], tw, nm))
    if reals:
        cand.append((shapes[0], evalt._snap(sorted(reals)[:6]), "thresholds"))
    for n, p in ((1, 1), (2, 1), (2, 2), (3, 3), (4, 4), (9, 1), (3, 5)):
        cand.append(({**shapes[0], "n": n, "p": p}, None, f"n={n} p={p}"))
    for c in sorted(ints):
        for k in (int(c) - 1, int(c), int(c) + 1):
            if 1 <= k <= 60:
                cand.append(({**shapes[0], "n": k}, None, f"n={k}"))
                if k <= 8:
                    cand.append(({**shapes[0], "p": k, "n": k + 3}, None, f"p={k}"))
    import time as _t
    t0 = _t.time()
    for q, (ints_, tw, nm) in enumerate(cand):
        # conditions that differ from the specified ones: look where they part even when each outcome was seen
        if not missing() and q >= len(evalt.SPECIAL) or _t.time() - t0 > 8:
            break
        hits = 0
        for sd in (11, 12):
            try:
                r, inf = cmp.run(ints_, sd, tw, rtol=1e-3, special="micro" if nm.startswith("micro") else "regular" if nm in ("uneven", "equal", "negated") else True)
            except (evalt.OpaqueTerm, ArithmeticError, ValueError, TypeError, RecursionError):
                break
            if r is not None:
                hits += 1
                if hits == 2:
                    return f"{r[1]} [{nm}]", len(missing())
    return None, len(missing())
