"""Random interpretation of terms.

A term is a closed expression over uninterpreted inputs and functions.  Interpreting every uninterpreted symbol by
a fixed pseudo-random smooth function turns a term into a number; two terms whose numbers differ are *different
functions* (the interpretation is the witness), equal numbers at several independent interpretations are evidence
of equality (Schwartz-Zippel style).  No code of the analysed crate is executed: the interpretation acts on the
extracted normal forms only.
"""
import hashlib
import math
import mpmath
import numpy as np
import terms as TT
from terms import T, B, TRUE, FALSE


class OpaqueTerm(Exception):
    pass


POS = {"w", "fr", "sd", "V", "dnat", "tol", "l1", "l2", "phi", "rho", "n_eff", "dispersion", "weight", "mu_pos"}
UNIT01 = set()


def _h(seed, name, k):
    d = hashlib.sha256(f"{seed}|{name}|{k}".encode()).digest()
    return int.from_bytes(d[:8], "big") / 2.0 ** 64


class Interp:
    """one random interpretation"""

    def __init__(self, seed, ints=None, values=None, funcs=None, pos=()):
        self.seed = seed
        self.ints = dict(ints or {})
        self.values = dict(values or {})
        self.funcs = dict(funcs or {})
        self.pos = POS | set(pos)
        self.memo = {}
        self.coef = {}
        self.budget = 3_000_000
        self.tweak = None           # special interpretations: (name, args, value, hash) -> value
        self.seen = None            # (atom, outcome) coverage
        self.epsc = False           # does the rounding unit count in comparisons?
        self.eps = 0.0              # (inside of such a comparison)
        self.hp = False             # 60-digit arithmetic: separates different values from rounding

    def generic(self, name, args):
        v = self.generic0(name, args)
        if self.tweak is not None:
            v = self.tweak(self, name.split("@")[0], args, v)
        return v

    def generic0(self, name, args):
        c = self.coef.get((name, len(args)))
        if c is None:
            c = [_h(self.seed, name, k) for k in range(6 + 2 * len(args))]
            self.coef[(name, len(args))] = c
        s1 = 6.3 * c[0]
        s2 = 6.3 * c[1]
        sin = mpmath.sin if self.hp else math.sin
        if any(isinstance(a, float) and not math.isfinite(a) for a in args):
            return float("nan")
        for k, a in enumerate(args):
            s1 += (0.7 + 0.9 * c[6 + 2 * k]) * a
            s2 += (1.7 + 1.1 * c[7 + 2 * k]) * a
        b = name.split("@")[0]
        if b in self.pos:
            return 1.1 + 0.2 * c[2] + 0.45 * sin(s1) + 0.3 * sin(s2)
        if b == "sat":
            return 40 + 10 * c[2] + sin(s1) + sin(s2)
        return 0.2 + 0.3 * c[2] + 0.8 * sin(s1) + 0.6 * sin(s2)

    def var(self, n):
        if n in self.ints:
            return self.ints[n]
        if n in self.values:
            return self.values[n]
        self.loop_check(n)
        b = n.split("@")[0]
        if b == "eps" and self.eps:
            return self.eps
        if b in ("eps", "tiny"):
            return 0.0
        if b == "huge":
            return 1e300
        if b == "pi":
            return math.pi
        if b == "e":
            return math.e
        if b == "ln2":
            return math.log(2)
        return self.generic(n, ())

    loops = False               # may the unknowns a loop leaves take any value?

    def loop_check(self, n):
        if n[0] in "ℓω" and not self.loops:
            raise OpaqueTerm(f"left by a loop: {n}")

    def ev(self, t, env):
        if t.op == "num":
            x = t.args[0]
            return int(x) if x.denominator == 1 else mpmath.mpf(x.numerator) / x.denominator if self.hp else float(x)
        if t.op == "idx":
            if t not in env:
                raise OpaqueTerm(f"unbound index {t}")
            return env[t]
        if t.op == "var":
            return self.var(t.args[0])
        if t.op == "const":
            return float(t.args[0])
        key = (t.id, tuple(env.get(v) for v in sorted(t.fv, key=lambda z: z.id)))
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise OpaqueTerm("evaluation budget")
            try:
                r = self._ev(t, env)
            except OverflowError:
                r = float("inf")
            self.memo[key] = r
        return r

    def _ev(self, t, env):
        o, a = t.op, t.args
        if o == "add":
            return self.ev(a[0], env) + self.ev(a[1], env)
        if o == "neg":
            return -self.ev(a[0], env)
        if o == "mul":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return x * y
        if o == "div":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if y == 0:
                return float("nan") if (x == 0 or x != x) else math.copysign(float("inf"), x)
            return mpmath.mpf(x) / y if self.hp else x / y
        if o == "pow":
            x, e = self.ev(a[0], env), a[1]
            try:
                if e.denominator == 1:
                    return x ** int(e)
                if x < 0:
                    return float("nan")
                if self.hp:
                    return mpmath.mpf(x) ** (mpmath.mpf(e.numerator) / e.denominator)
                return x ** float(e)
            except ZeroDivisionError:
                return float("inf")
        if o == "sum":
            n = int(self.ev(a[1], env))
            s = 0
            for k in range(n):
                s = s + self.ev(a[2], {**env, a[0]: k})
            return s
        if o == "ite":
            return self.ev(a[1], env) if self.evb(a[0], env) else self.ev(a[2], env)
        if o == "inv":
            r, c, size, body, i, j = a
            n = int(self.ev(size, env))
            key = ("inv", body.id, r.id, c.id, n, tuple(env.get(v) for v in sorted(body.fv - {r, c}, key=lambda z: z.id)))
            m = self.memo.get(key)
            if m is None:
                m = np.array([[self.ev(body, {**env, r: x, c: y}) for y in range(n)] for x in range(n)], dtype=float).reshape(n, n)
                try:
                    if n and not (np.all(np.isfinite(m)) and np.linalg.cond(m) < 1e9):
                        raise np.linalg.LinAlgError
                    if self.hp:
                        m = mpmath.matrix([[self.ev(body, {**env, r: x, c: y}) for y in range(n)] for x in range(n)]) ** -1
                    else:
                        m = np.linalg.inv(m)
                except np.linalg.LinAlgError:
                    m = np.full((n, n), np.nan)
                self.memo[key] = m
            x, y = int(self.ev(i, env)), int(self.ev(j, env))
            if not (0 <= x < n and 0 <= y < n):
                return float("nan")
            return m[x, y] if self.hp else float(m[x, y])
        if o == "app":
            if a[0] not in self.funcs:
                self.loop_check(a[0])
            return self.app(a[0], [self.ev(x, env) for x in a[1:]])
        raise OpaqueTerm(f"{o} {a[0] if a else ''}")

    def app(self, f, v):
        if f in self.funcs:
            return self.funcs[f](*v)
        fn = (HPKNOWN.get(f) if self.hp else None) or KNOWN.get(f)
        if fn is not None:
            try:
                return fn(*v)
            except (ValueError, ZeroDivisionError):
                return float("nan")
        return self.generic(f, v)

    def evb(self, b, env):
        while b.atom is not None:
            r = self.eva(b.atom, env)
            if self.seen is not None:
                self.seen.add((b.atom, r))
            b = b.hi if r else b.lo
        return b is TRUE

    def eva(self, t, env):
        if self.epsc and not self.eps and t.op in ("lt", "le", "eq") and (mentions(t.args[0], "eps") or mentions(t.args[1], "eps")):
            memo, self.memo, self.eps = self.memo, {}, 2.0 ** -52
            try:
                return self.eva(t, env)
            finally:
                self.memo, self.eps = memo, 0.0
        o, a = t.op, t.args
        if o == "eq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return x == y
        if o == "lt":
            return self.ev(a[0], env) < self.ev(a[1], env)
        if o == "le":
            return self.ev(a[0], env) <= self.ev(a[1], env)
        if o == "isnan":
            x = self.ev(a[0], env)
            return x != x
        if o == "all":
            n = int(self.ev(a[1], env))
            return all(self.evb(a[2], {**env, a[0]: k}) for k in range(n))
        if o == "bool":
            if a[0] not in self.values:
                self.loop_check(a[0])
            return _h(self.seed, "bool" + a[0], 0) < 0.5 if a[0] not in self.values else bool(self.values[a[0]])
        if o == "bapp":
            if a[0] in self.funcs:
                return bool(self.funcs[a[0]](*[self.ev(x, env) for x in a[1:]]))
            self.loop_check(a[0])
            if a[0].startswith("?"):
                raise OpaqueTerm(a[0])
            return self.generic("bapp " + a[0], [self.ev(x, env) for x in a[1:]]) > 0.35
        raise OpaqueTerm(f"atom {o}")


_MENTIONS = {}


def mentions(t, name):
    """does the term contain the variable (outside of conditions)?"""
    r = _MENTIONS.get((t.id, name))
    if r is None:
        r = t.op == "var" and t.args[0] == name or any(mentions(x, name) for x in t.args if isinstance(x, T))
        _MENTIONS[(t.id, name)] = r
    return r


def _sgn(x):
    return math.copysign(1.0, x) if x == x else x


def _ln(x):
    return math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))


def _ak(args):
    """index arguments count, computed real arguments do not (they carry rounding)"""
    return tuple(a for a in args if isinstance(a, int)).__hash__() % 9973


def _snap(consts):
    def f(ip, name, args, v):
        k = int(_h(ip.seed, name + "|snap", _ak(args)) * 3 * len(consts))
        c = consts[k // 3]
        return c + (k % 3 - 1) * 0.5 * (1 + abs(c))
    return f


def _zeros(ip, name, args, v):
    return 0.0 if _h(ip.seed, name + "|z", _ak(args)) < 0.4 else v


SPECIAL = {
    "zeros": _zeros,
    "equal": lambda ip, name, args, v: 0.5 + 0.25 * _h(ip.seed, name, "eq"),
    "negated": lambda ip, name, args, v: v if name in ip.pos else -v,
    "large": lambda ip, name, args, v: v * 1e3,
    "small": lambda ip, name, args, v: v * 1e-3,
    "mixed": lambda ip, name, args, v: v * 10.0 ** (6 * _h(ip.seed, name, "mx") - 3),
    "ints": lambda ip, name, args, v: float(math.floor(3 * abs(v))) + (1.0 if name in ip.pos else 0.0),
    "uneven": lambda ip, name, args, v: v * (50.0 if _ak(args) % 3 == 0 else 0.02) if name in ip.pos else v,
    "micro": lambda ip, name, args, v: v * 1e-20 if _h(0, name, "mc") < 0.5 else v,
    "micros": lambda ip, name, args, v: v * 1e-20 if _h(0, name, "mc") >= 0.5 else v,
    "units": lambda ip, name, args, v: 1.0 if _h(ip.seed, name + "|u", _ak(args)) < 0.5 else v,
}

KNOWN = {
    "abs": abs, "exp": lambda x: math.exp(x) if x < 700 else float("inf"), "exp_m1": math.expm1, "ln": _ln, "ln_1p": lambda x: math.log1p(x) if x > -1 else (float("-inf") if x == -1 else float("nan")),
    "signum": _sgn, "fmax": lambda x, y: y if x != x else x if y != y else max(x, y), "fmin": lambda x, y: y if x != x else x if y != y else min(x, y),
    "powf": lambda x, y: x ** y if x >= 0 else float("nan"), "idiv": lambda x, y: x // y, "rem": math.fmod, "trunc": math.trunc,
    "floor": math.floor, "ceil": math.ceil, "round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x), "tanh": math.tanh, "sin": math.sin, "cos": math.cos,
    "is_finite": lambda x: math.isfinite(x),
    "narrow": lambda x, b: _narrow(x, b),
}


def _narrow(x, b):
    """an integer cut to b bits (negative: signed)"""
    w = 2 ** int(abs(b))
    x = int(x) % w
    return x - w if b < 0 and x >= w // 2 else x

HPKNOWN = {"exp": mpmath.exp, "exp_m1": mpmath.expm1, "ln": lambda x: mpmath.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan")),
           "ln_1p": lambda x: mpmath.log1p(x) if x > -1 else (float("-inf") if x == -1 else float("nan")), "tanh": mpmath.tanh, "sin": mpmath.sin, "cos": mpmath.cos,
           "signum": lambda x: mpmath.mpf(1) if x >= 0 else mpmath.mpf(-1) if x < 0 else x, "powf": lambda x, y: mpmath.mpf(x) ** y if x >= 0 else float("nan")}


def close(x, y, rtol=1e-6):
    if x != x and y != y:
        return True
    if x != x or y != y:
        return False
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= rtol * (1e-3 + abs(x) + abs(y))
