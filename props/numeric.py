"""C35: the family and link functions evaluate without overflow, spurious zeros or loss of most digits."""
import math
import mpmath
from mpmath import mp, mpf
import world
import evalt
import fam
import fperr
from fam import W, Y, MU, ETA, N
from values import *
import terms as TT
from interp import *
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN

NB = 7
TRIALS = {"N": NB, "n": NB}


def geo(lo, hi, r):
    out, x = [], mpf(lo)
    while x < hi:
        y = min(x * r, mpf(hi))
        out.append((x, y))
        x = y
    return out


def neg(bs):
    return [(-b, -a) for a, b in bs]


def boxes(kind, fmt):
    r = mpf("1.1") if world.TIER == "quick" else mpf("1.005")
    f = fperr.FORMATS[fmt]
    tiny = mpf(10) ** (-10 if fmt == "f64" else -4)
    if kind == "lin":           # any linear predictor of ordinary size
        p = geo(tiny, f["xmax"], r)
        return neg(p) + [(mpf(0), mpf(0))] + p
    m = f["pmax"]
    if kind == "pos":
        return geo(mpf(10) ** -m, mpf(10) ** m, r * r * r)
    if kind == "neg":
        return neg(boxes("pos", fmt))
    e = mpf(10) ** (-13 if fmt == "f64" else -5)
    lowu = geo(e, mpf(1) / 2, r)
    unit = lowu + [(1 - b, 1 - a) for a, b in lowu]
    if kind == "unit":
        return unit
    if kind == "unitN":
        return [(NB * a, NB * b) for a, b in unit]
    raise KeyError(kind)


# response, mean, natural parameter and linear predictor domains of the named families
DOM = {
    "Linear": ("lin", "lin", "lin"), "Poisson": ("pos", "pos", "lin"), "Logistic": ("unit", "unit", "lin"), "Binomial": ("unitN", "unitN", "lin"),
    "Exponential": ("pos", "pos", "neg"), "Gamma": ("pos", "pos", "neg"), "InvGaussian": ("pos", "pos", "neg"),
}
OMEGA = {"Id": "lin", "Log": "lin", "Logit": "lin", "NegRec": "neg", "NegRecSq": "neg", "Cloglog": "lin"}
FIXY = {"Linear": (-3, 0, 2), "Poisson": (0, 1, 40), "Logistic": (0, mpf(1) / 2, 1), "Binomial": (0, 3, NB), "Exponential": (mpf(1) / 8, 3), "Gamma": (mpf(1) / 8, 3), "InvGaussian": (mpf(1) / 8, 3)}


class Ieee(Exception):
    pass


def hp(t, v):
    ip = evalt.Interp(1, values={**TRIALS, **v})
    ip.hp = True
    ip.ints = dict(TRIALS)
    ip.seen = set()
    return ip.ev(unraw(t), {})


_un = {}


def unraw(t):
    """the real-arithmetic term"""
    if t.id in _un:
        return _un[t.id]
    if t.op == "app" and t.args[0] in ("fadd", "fsub", "fmul", "fdiv", "fneg", "recip", "sqrt"):
        x = [unraw(q) for q in t.args[1:]]
        n = t.args[0]
        r = x[0] + x[1] if n == "fadd" else x[0] - x[1] if n == "fsub" else x[0] * x[1] if n == "fmul" else x[0] / x[1] if n == "fdiv" else -x[0] if n == "fneg" else TT.div(TT.ONE, x[0]) if n == "recip" else TT.sqrt(x[0])
    elif t.op == "ite":
        r = TT.ite(unb(t.args[0]), unraw(t.args[1]), unraw(t.args[2]))
    elif t.op in ("app", "add", "mul", "div", "neg", "pow", "lt", "le", "eq", "isnan"):
        r = TT.rebuild(t.op, [unraw(q) if isinstance(q, T) else q for q in t.args])
    else:
        r = t
    _un[t.id] = r
    return r


def unb(b):
    if b.atom is None:
        return b
    a = unraw(b.atom)
    c = a if isinstance(a, B) else TT.batom(a)
    return TT.b_ite(c, unb(b.hi), unb(b.lo))


def ieee(t, v, fmt):
    """the term's value at one point in floating point"""
    import numpy as np
    F = np.float64 if fmt == "f64" else np.float32
    memo = {}

    def ev(t):
        if t.id not in memo:
            memo[t.id] = go(t)
        return memo[t.id]

    def cond(b):
        while b.atom is not None:
            a = b.atom
            x = [ev(q) if q.op != "const" else F(float(q.args[0])) for q in a.args]
            if a.op == "lt":
                c = x[0] < x[1]
            elif a.op == "le":
                c = x[0] <= x[1]
            elif a.op == "eq":
                c = x[0] == x[1]
            elif a.op == "isnan":
                c = x[0] != x[0]
            else:
                raise Ieee(a.op)
            b = b.hi if c else b.lo
        return b is TT.TRUE

    def go(t):
        op, a = t.op, t.args
        if op == "num":
            return F(a[0].numerator) / F(a[0].denominator)
        if op == "var":
            if a[0] == "eps":
                return F(np.finfo(F).eps)
            return F(float({**TRIALS, **v}[a[0]]))
        if op == "ite":
            return ev(a[1]) if cond(a[0]) else ev(a[2])
        if op == "neg":
            return -ev(a[0])
        if op == "pow":
            x = ev(a[0])
            return np.sqrt(x) if a[1].denominator == 2 and a[1].numerator == 1 else x ** F(float(a[1]))
        if op in ("add", "mul", "div"):
            r = ev(a[0])
            for q in a[1:]:
                y = ev(q)
                r = r + y if op == "add" else r * y if op == "mul" else r / y
            return r
        if op == "app":
            n = a[0]
            x = [ev(q) for q in a[1:]]
            fs = {"fadd": lambda p, q: p + q, "fsub": lambda p, q: p - q, "fmul": lambda p, q: p * q, "fdiv": lambda p, q: p / q, "fneg": lambda p: -p,
                  "exp": np.exp, "ln": np.log, "exp_m1": np.expm1, "ln_1p": np.log1p, "sqrt": np.sqrt, "recip": lambda p: F(1) / p, "abs": np.abs, "tanh": np.tanh,
                  "fmax": np.fmax, "fmin": np.fmin, "signum": np.sign}
            if n in fs:
                return F(fs[n](*x))
        raise Ieee(f"{op} {a[0] if a else ''}")
    with np.errstate(all="ignore"):
        return ev(t)


def tolerance(t, var, x, fmt, other):
    """value and admissible error at x: relative to the value or to what a relative change of the argument does"""
    d = fperr.FORMATS[fmt]["digits"]
    f = mpf(hp(t, {**other, var: x}))
    h = mpf(10) ** -20
    g = mpf(hp(t, {**other, var: x * (1 + h)})) if x else f
    return f, d * (abs(f) + abs((g - f) / h))


def decide(name, w, t, var, kind, fmt, other=None, extra=mpf(0), bxs=None):
    other = {k: mpf(v) for k, v in (other or {}).items()}
    done = proved = refined = 0
    und = None
    mx = fperr.FORMATS[fmt]["max"]
    for a, b in (bxs or boxes(kind, fmt)):
        stack = [(a, b, 0)]
        while stack:
            a, b, dep = stack.pop()
            done += 1
            with mp.workdps(60):
                mid = (a + b) / 2
                try:
                    pts = [tolerance(t, var, x, fmt, other) for x in (a, mid, b)]
                    if any(not mpmath.isfinite(f) or abs(f) > mx / 4 for f, _ in pts):
                        continue            # not representable: nothing to require
                    tol = min(q for _, q in pts) + extra
                except evalt.OpaqueTerm as e:
                    return Ob(name, UNKNOWN, f"opaque: {e}", w)
                why = None
                try:
                    bx = {var: (a, b), **{k: (v, v) for k, v in other.items()}}
                    lo, hi, err = fperr.FP(fmt, bx, TRIALS).ev(t)
                    if not mpmath.isfinite(lo) or not mpmath.isfinite(hi):
                        raise fperr.Bad("may overflow")
                    if err <= tol + fperr.FORMATS[fmt]["norm"] * 16:
                        proved += 1
                        continue
                    why = f"error bound {mpmath.nstr(err, 3)} above {mpmath.nstr(tol, 3)}"
                except fperr.Bad as e:
                    why = str(e)
                except fperr.Unk as e:
                    return Ob(name, UNKNOWN, f"not modelled: {e}", w)
                # not shown on this box: look for a point that fails, else refine
                for x in (mid, a, b):
                    xf = mpf(float(x))
                    try:
                        got = float(ieee(t, {**other, var: xf}, fmt))
                        f, q = tolerance(t, var, xf, fmt, other)
                    except (Ieee, KeyError, ZeroDivisionError) as e:
                        und = und or f"{type(e).__name__} {e}"
                        continue
                    if not math.isfinite(got) or abs(mpf(got) - f) > 10 * (q + extra) + fperr.FORMATS[fmt]["norm"] * 64:
                        return Ob(name, REFUTED, f"at {mpmath.nstr(xf, 8)}{''.join(f', {k} = {mpmath.nstr(v, 4)}' for k, v in other.items())} the {fmt} result is {got!r} instead of {mpmath.nstr(f, 12)} ({why})", w)
                if (dep < 6 or dep < 45 and refined < 400) and a != b:
                    refined += dep >= 6
                    stack += [(a, mid, dep + 1), (mid, b, dep + 1)]
                else:
                    und = und or f"near {mpmath.nstr(mid, 8)}: {why}"
    if und:
        return Ob(name, UNKNOWN, und, w)
    return Ob(name, PROVED, f"{proved} intervals, rounding error bounded on each", w)


def tasks(pid, tier):
    m = world.prog()
    for k, f in enumerate(fam.families(m)):
        for fmt in fperr.FORMATS:
            yield ("one", dict(k=k, fmt=fmt), 600)


def one(k, fmt):
    m = world.prog()
    f = fam.families(m)[k]
    f.I.cfg["raw"] = True
    lab = f"{f!r} [{fmt}]"
    if f.name not in DOM or f.lname not in OMEGA:
        return [Ob(f"{lab}", UNKNOWN, "not a documented family or link", "")]
    yd, md, nd = DOM[f.name]
    wd = OMEGA[f.lname]
    if f.name in ("Linear",):
        md = "lin"
    out = []

    def go(title, trait, fn, thunk, var, kind, **kw):
        w = ""
        try:
            w = f.where(trait, fn)
            out.append(decide(f"{title} {lab}", w, thunk(), var, kind, fmt, **kw))
        except fam.Missing as e:
            out.append(Ob(f"{title} {lab}", REFUTED, f"not found: {e}", w))
        except (Give, KeyError, TypeError, AttributeError, ValueError, ArithmeticError) as e:
            out.append(Ob(f"{title} {lab}", UNKNOWN, f"gave up: {type(e).__name__}: {e}"[:200], w))
    go("mean of the linear predictor", "Link", "func_inv", lambda: f.ginv(W), "omega", wd)
    go("link of the mean", "Link", "func", lambda: f.g(Y), "yy", md)
    go("natural parameter", "Transform", "nat_param", lambda: f.nat(W), "omega", wd)
    go("derivative of the natural parameter", "Transform", "d_nat_param", lambda: f.dnat(W), "omega", wd)
    go("log-partition", "Glm", "log_partition", lambda: f.A(ETA), "eta", nd)
    go("variance", "Glm", "variance", lambda: f.V(MU), "mu0", md)
    one_ = {"unit": mpf(1), "unitN": mpf(NB)}.get(yd, mpf(0))
    d = fperr.FORMATS[fmt]["digits"]
    go("saturated likelihood", "Glm", "log_like_sat", lambda: f.sat(Y), "yy", yd, extra=d * one_)
    for y in FIXY[f.name]:
        a = {"eta": None}
        go(f"likelihood of y = {mpmath.nstr(mpf(y), 4)}", "Glm", "log_like_natural", lambda: f.ll(Y, ETA), "eta", nd, other={"yy": y}, extra=d)
    return out
