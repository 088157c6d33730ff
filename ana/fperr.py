"""Rounding and overflow analysis of scalar terms kept as written (Interp cfg raw): interval domain with an error bound.

An abstract value is (lo, hi, err): every real value of the term over the box lies in [lo, hi] and the value the
floating-point evaluation yields differs from it by at most err.  When the evaluation may overflow, hi (or lo) is infinite
and the value says only that both the exact and the computed result are at least lo (at most hi), the latter possibly
infinite; such a value is harmless where it ends up in a quotient or an exponential that vanishes.
"""
from mpmath import mp, mpf, inf
import mpmath
from terms import T, B

FORMATS = {
    "f64": dict(u=mpf(2) ** -53, max=mpf(2) ** 1024 * (1 - mpf(2) ** -54), sub=mpf(2) ** -1074, digits=mpf(10) ** -8, xmax=2000, pmax=100, norm=mpf(2) ** -1022),
    "f32": dict(u=mpf(2) ** -24, max=mpf(2) ** 128 * (1 - mpf(2) ** -25), sub=mpf(2) ** -149, digits=mpf(10) ** -3, xmax=200, pmax=12, norm=mpf(2) ** -126),
}
ULPS = 4            # library functions are taken to be accurate to this many units in the last place


class Bad(Exception):
    pass


class Unk(Exception):
    pass


class FP:
    def __init__(self, fmt, box, ints=None):
        self.f = FORMATS[fmt]
        self.box = box
        self.ints = ints or {}
        self.memo = {}

    # an exact interval and an error bound -> rounded result
    def rnd(self, lo, hi, err, ulps=1):
        m = max(abs(lo), abs(hi)) + err
        if not (m < self.f["max"]):
            if lo - err > 0:
                return (lo - err) * (1 - 8 * ulps * self.f["u"]), inf, mpf(0)
            if hi + err < 0:
                return -inf, (hi + err) * (1 - 8 * ulps * self.f["u"]), mpf(0)
            raise Bad(f"overflow: magnitude {mpmath.nstr(m, 5)}")
        return lo, hi, err + ulps * (self.f["u"] * m * (1 + 8 * self.f["u"]) + self.f["sub"])

    def mono(self, x, fn, dfn, name, dom=None):
        """monotone increasing function fn with derivative bound dfn(interval)"""
        lo, hi, e = x
        a, b = lo - e, hi + e
        if b == inf and a > -inf:
            if dom is not None and not dom(a):
                raise Bad(f"{name} outside its domain near {mpmath.nstr(a, 8)}")
            return (fn(a) if a < 10 ** 4 or name not in ("exp", "exp_m1") else fn(mpf(10 ** 4))) * (1 - 8 * ULPS * self.f["u"]), inf, mpf(0)
        if a == -inf and name in ("exp", "exp_m1") and b < 0:
            return fn(-inf), fn(b), mpmath.exp(b) + 2 * ULPS * self.f["u"] + self.f["sub"] if name == "exp_m1" else mpmath.exp(b) + self.f["sub"]
        if b == inf or a == -inf:
            raise Bad(f"{name} of a value that may overflow")
        if dom is not None and not dom(a):
            raise Bad(f"{name} outside its domain near {mpmath.nstr(a, 8)}")
        flo, fhi = fn(lo), fn(hi)
        # the computed argument is within e of the exact one
        d = max(fn(b) - fhi, flo - fn(a), dfn(a, b) * e if e else 0)
        return self.rnd(min(flo, fhi), max(flo, fhi), abs(d), ULPS)

    def const(self, v):
        v = mpf(v)
        return (v, v, mpf(0)) if mpmath.frexp(v)[0] == mpf(1) / 2 else self.rnd(v, v, 0) if mpf(float(v)) != v or self.f["u"] > mpf(2) ** -30 and v != int(v) else (v, v, mpf(0))

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._ev(t)
            if any(mpmath.isnan(q) for q in r) or not mpmath.isfinite(r[2]) or (r[0] == -inf and r[1] == inf):
                raise Bad("not finite")
            self.memo[t.id] = r
        return r

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            return self.const(mpf(a[0].numerator) / a[0].denominator)
        if op == "var":
            if a[0] in self.box:
                lo, hi = self.box[a[0]]
                return mpf(lo), mpf(hi), mpf(0)
            if a[0] == "eps":
                return self.const(2 * self.f["u"])
            if a[0] in self.ints:
                return self.const(self.ints[a[0]])
            raise Unk(f"input {a[0]}")
        if op == "ite":
            c = self.cond(a[0])
            if c is True:
                return self.ev(a[1])
            if c is False:
                return self.ev(a[2])
            x, y = self.ev(a[1]), self.ev(a[2])
            lo, hi, e = min(x[0], y[0]), max(x[1], y[1]), max(x[2], y[2])
            if hi == inf or lo == -inf:
                return lo - e, hi + e, mpf(0)
            # the computed condition may come out differently from the exact one
            return lo, hi, e + (hi - lo if self.blurred(a[0]) else 0)
        if op == "neg":
            x = self.ev(a[0])
            return -x[1], -x[0], x[2]
        if op == "pow":
            return self.pow(self.ev(a[0]), a[1])
        if op in ("add", "mul", "div"):
            return self.arith(op, [self.ev(q) for q in a])
        if op == "app":
            n = a[0]
            xs = [self.ev(q) if isinstance(q, T) else q for q in a[1:]]
            if n in ("fadd", "fsub", "fmul", "fdiv"):
                if n == "fsub":
                    y = xs[1]
                    xs, n = [xs[0], (-y[1], -y[0], y[2])], "fadd"
                if n == "fmul" and a[1] is a[2]:
                    return self.square(xs[0])
                return self.arith(n[1:], xs)
            if n == "fneg":
                x = xs[0]
                return -x[1], -x[0], x[2]
            return self.fun(n, xs)
        raise Unk(f"operation {op}")

    def square(self, x):
        lo, hi, e = x
        c = sorted((lo * lo, hi * hi))
        if lo <= 0 <= hi:
            c[0] = mpf(0)
        m = max(abs(lo), abs(hi))
        if m == inf:
            return self.arith("mul", [x, x])
        return self.rnd(c[0], c[1], 2 * m * e + e * e)

    def arith(self, op, xs):
        r = xs[0]
        for y in xs[1:]:
            (a, b, e), (c, d, g) = r, y
            if inf in (-a, b, -c, d):
                r = self.big(op, r, y)
                continue
            if op == "add":
                r = self.rnd(a + c, b + d, e + g)
            elif op == "mul":
                ps = (a * c, a * d, b * c, b * d)
                m, n = max(abs(a), abs(b)), max(abs(c), abs(d))
                r = self.rnd(min(ps), max(ps), m * g + n * e + e * g)
            else:
                if c - g <= 0 <= d + g:
                    raise Bad("division by an interval containing zero")
                ps = (a / c, a / d, b / c, b / d)
                m = max(abs(a), abs(b))
                k = min(abs(c), abs(d))
                kk = k - g
                r = self.rnd(min(ps), max(ps), e / kk + m * g / (k * kk))
        return r

    def big(self, op, x, y):
        """arithmetic with an operand that may have overflowed"""
        (a, b, e), (c, d, g) = x, y
        a, b, c, d = a - e, b + e, c - g, d + g
        w = 1 - 8 * self.f["u"]
        if op == "add":
            if b == inf and c > -inf or d == inf and a > -inf:
                if a + c > 0:
                    return (a + c) * w, inf, mpf(0)
            elif a + c == -inf and b + d < 0:
                return -inf, (b + d) * w, mpf(0)
            raise Bad("sum of a value that may overflow and one that may cancel it")
        sx, sy = (1 if a > 0 else -1 if b < 0 else 0), (1 if c > 0 else -1 if d < 0 else 0)
        mx, my = (a if sx > 0 else -b), (c if sy > 0 else -d)       # least magnitudes
        if op == "mul":
            if not sx or not sy:
                raise Bad("product of zero and a value that may overflow")
            m = mx * my * w
            return (m, inf, mpf(0)) if sx == sy else (-inf, -m, mpf(0))
        if inf in (-c, d):
            if inf in (-a, b):
                raise Bad("quotient of two values that may overflow")
            m = max(abs(a), abs(b)) / my
            return (-m if a < 0 and sy > 0 or b > 0 and sy < 0 else mpf(0)), (m if b > 0 and sy > 0 or a < 0 and sy < 0 else mpf(0)), m * (1 + 8 * self.f["u"]) + self.f["sub"]
        if not sx or not sy:
            raise Bad("division of a value that may overflow by zero")
        m = mx / max(abs(c), abs(d)) * w
        return (m, inf, mpf(0)) if sx == sy else (-inf, -m, mpf(0))

    def pow(self, x, e):
        if e == 2:
            return self.square(x)
        if e == mpf(1) / 2 or (e.numerator, e.denominator) == (1, 2):
            if x[0] - x[2] < 0:
                raise Bad("square root of a negative value")
            return self.mono(x, mpmath.sqrt, lambda a, b: 1 / (2 * mpmath.sqrt(a)) if a > 0 else mpf(0), "sqrt", lambda a: a >= 0)
        if e.denominator == 1:
            k = abs(int(e))
            r = x
            for _ in range(k - 1):
                r = self.arith("mul", [r, x])
            if k == 0:
                r = (mpf(1), mpf(1), mpf(0))
            return r if e >= 0 else self.arith("div", [(mpf(1), mpf(1), mpf(0)), r])
        raise Unk(f"power {e}")

    def fun(self, n, xs):
        x = xs[0]
        if n == "exp":
            if inf > x[1] + x[2] > 10 ** 5:
                x = (x[0] - x[2], inf, mpf(0))
            return self.mono(x, mpmath.exp, lambda a, b: mpmath.exp(b), n)
        if n == "exp_m1":
            if inf > x[1] + x[2] > 10 ** 5:
                x = (x[0] - x[2], inf, mpf(0))
            return self.mono(x, mpmath.expm1, lambda a, b: mpmath.exp(b), n)
        if n == "ln":
            return self.mono(x, mpmath.log, lambda a, b: 1 / a, n, lambda a: a > 0)
        if n == "ln_1p":
            return self.mono(x, mpmath.log1p, lambda a, b: 1 / (1 + a), n, lambda a: a > -1)
        if n == "sqrt":
            return self.pow(x, mpf(1) / 2)
        if n == "recip":
            return self.arith("div", [(mpf(1), mpf(1), mpf(0)), x])
        if n == "tanh":
            return self.mono(x, mpmath.tanh, lambda a, b: mpf(1), n)
        if n == "abs":
            lo, hi, e = x
            c = sorted((abs(lo), abs(hi)))
            return (mpf(0) if lo <= 0 <= hi else c[0]), c[1], e
        if n in ("fmax", "fmin"):
            y = xs[1]
            if inf in (-x[0], x[1], -y[0], y[1]):
                a, b = (x, y) if n == "fmax" else ((-x[1], -x[0], x[2]), (-y[1], -y[0], y[2]))
                if b[1] == inf or b[0] == -inf:
                    a, b = b, a
                if a[1] == inf:
                    r = (max(a[0], b[0] - b[2]), inf, mpf(0))
                elif a[1] + a[2] < b[0] - b[2]:
                    r = b
                else:
                    raise Bad("minimum or maximum with a value that may overflow")
                return r if n == "fmax" else (-r[1], -r[0], r[2])
            g = max if n == "fmax" else min
            return g(x[0], y[0]), g(x[1], y[1]), max(x[2], y[2]) if not (x[0] - x[2] > y[1] + y[2] or y[0] - y[2] > x[1] + x[2]) else (x[2] if (g(x[0], y[0]) == x[0]) else y[2])
        if n == "signum":
            if x[0] - x[2] > 0:
                return mpf(1), mpf(1), mpf(0)
            if x[1] + x[2] < 0:
                return mpf(-1), mpf(-1), mpf(0)
            raise Unk("sign of a value around zero")
        raise Unk(f"function {n}")

    def cond(self, b):
        if b.atom is None:
            return bool(b.hi) if False else (b is TRUE_)
        c = self.atom(b.atom)
        if c is True:
            return self.cond(b.hi)
        if c is False:
            return self.cond(b.lo)
        h, l = self.cond(b.hi), self.cond(b.lo)
        return h if h is l else None

    def blurred(self, b):
        if b.atom is None:
            return False
        c = self.atom(b.atom)
        if c is not None:
            return self.blurred(b.hi if c else b.lo)
        return b.atom.op == "isnan" or any(q.op != "const" and self.ev(q)[2] > 0 for q in b.atom.args) or self.blurred(b.hi) or self.blurred(b.lo)

    def atom(self, t):
        op = t.op
        if op == "isnan":
            try:
                self.ev(t.args[0])
                return False
            except Bad:
                return None
        if op in ("lt", "le", "eq"):
            x, y = (self.inf(q) if q.op == "const" else self.ev(q) for q in t.args)
            xl, xh, yl, yh = x[0] - x[2], x[1] + x[2], y[0] - y[2], y[1] + y[2]
            if op == "eq":
                if xh < yl or yh < xl:
                    return False
                return True if xl == xh == yl == yh else None
            if xh < yl or (op == "le" and xh <= yl):
                return True
            if xl > yh or (op == "lt" and xl >= yh):
                return False
            return None
        raise Unk(f"condition {op}")

    def inf(self, t):
        v = {"inf": inf, "-inf": -inf}.get(t.args[0])
        if v is None:
            raise Unk(f"constant {t.args[0]}")
        return v, v, mpf(0)


from terms import TRUE as TRUE_
