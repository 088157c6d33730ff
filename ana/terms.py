"""Term language of the value-flow domain.

Scalars are hash-consed expressions in *index notation* (array elements at symbolic indices, sums over
symbolic axes), booleans are BDDs over comparison atoms.  Nothing here depends on a concrete array shape.
"""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "args", "id", "fv", "opaque", "h", "__weakref__")

    def __repr__(self):
        return show(self)

    # convenience arithmetic for specs
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, o): return power(s, Fraction(o))


class B:
    __slots__ = ("atom", "hi", "lo", "id", "_fv", "_opq", "_h")

    def height(self):
        if self._h is None:
            self._h = 0 if self.atom is None else max(self.atom.h, self.hi.height(), self.lo.height())
        return self._h

    def __and__(s, o): return b_ite(s, o, FALSE)
    def __or__(s, o): return b_ite(s, TRUE, o)
    def __invert__(s): return b_ite(s, FALSE, TRUE)
    def __repr__(s): return bshow(s)

    def fv(self):
        if self._fv is None:
            if self.atom is None:
                self._fv = frozenset()
            else:
                self._fv = self.atom.fv | self.hi.fv() | self.lo.fv()
        return self._fv

    def has_opaque(self):
        if self._opq is None:
            if self.atom is None:
                self._opq = False
            else:
                self._opq = self.atom.opaque or self.hi.has_opaque() or self.lo.has_opaque()
        return self._opq



def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(Fraction(x))
    raise TypeError(f"lift {type(x)} {x}")


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else (("b", a.id) if isinstance(a, B) else ("v", a)) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_cnt)
        fv = set()
        opq = op == "opaque"
        h = 0
        for a in args:
            if isinstance(a, T):
                fv |= a.fv
                opq |= a.opaque
                h = max(h, a.h)
            elif isinstance(a, B):
                fv |= a.fv()
                opq |= a.has_opaque()
                h = max(h, a.height())
        t.h = h + 1 if op in ("sum", "all", "inv") else h
        if op == "idx":
            fv = {t}
        elif op in ("sum", "all"):
            fv = fv - {args[0]}
        elif op == "inv":
            # (rowvar, colvar, size, body, a, b)
            r, c, size, body, a, b = args
            fv = (body.fv - {r, c}) | a.fv | b.fv | size.fv
        elif op == "det":
            r, c, size, body = args
            fv = (body.fv - {r, c}) | size.fv
        elif op == "loopfn":
            # ('loopfn', tag, bound..., ) free vars of visible args only
            pass
        t.fv = frozenset(fv)
        t.opaque = opq
        _tab[key] = t
    return t


def num(x):
    return _mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
INF = _mk("const", "inf")
NINF = _mk("const", "-inf")
NAN = _mk("const", "nan")


def var(n):
    return _mk("var", n)


_ic = itertools.count()


def idx(name="i"):
    return _mk("idx", f"{name}{next(_ic)}")


def app(f, *args):
    return _mk("app", f, *args)


_oc = itertools.count()


def opaque(desc, *args):
    return _mk("opaque", desc, *args)


def is_num(t):
    return t.op == "num"


def add(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if (a.op == "const") or (b.op == "const"):
        return _mk("add", a, b)
    # keep integer offsets of indices compact: (k + c1) + c2
    if b.op == "num" and a.op == "add" and a.args[1].op == "num":
        return add(a.args[0], num(a.args[1].args[0] + b.args[0]))
    if a.op == "num":
        a, b = b, a
    return _mk("add", a, b)


def neg(a):
    if a.op == "num":
        return num(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    return _mk("neg", a)


def sub(a, b):
    if b.op == "num":
        return add(a, num(-b.args[0]))
    return add(a, neg(b))


def mul(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO and not has_const(b):
        return ZERO
    if b is ZERO and not has_const(a):
        return ZERO
    return _mk("mul", a, b)


def has_const(t):
    return t.op == "const"


def div(a, b):
    if b is ONE:
        return a
    if b.op == "num" and b.args[0] != 0 and a.op == "num":
        return num(a.args[0] / b.args[0])
    if a is ZERO and b.op != "num":
        # 0/b: treat as 0 away from b == 0
        return _mk("div", a, b)
    return _mk("div", a, b)


def power(a, e):
    e = Fraction(e)
    if e == 1:
        return a
    if a.op == "num" and e.denominator == 1 and (a.args[0] != 0 or e > 0):
        return num(a.args[0] ** int(e))
    return _mk("pow", a, e)


def sqrt(a):
    return _mk("pow", a, Fraction(1, 2))


def tsum(v, size, body):
    if size is ONE:
        return subst(body, {v: ZERO})
    if size is ZERO:
        return ZERO
    if body is ZERO:
        return ZERO
    return _mk("sum", v, size, body)


def canon_idx(name):
    return _mk("idx", name)


def sum_over(body, v, size):
    """sum of body over v < size with a canonical binder (alpha-equal sums are identical terms)"""
    if size is ONE or size is ZERO or body is ZERO:
        return tsum(v, size, body)
    b = _mk("idx", f"σ{body.h + 1}")
    return tsum(b, size, subst(body, {v: b}))


def all_over(body, v, size):
    if body is TRUE or body is FALSE or v not in body.fv():
        return body
    b = _mk("idx", f"σ{body.height() + 1}")
    return all_(b, size, subst(body, {v: b}))


def inv_of(body, r, c, size, a, b):
    h = body.h + 1
    rr, cc = _mk("idx", f"ρ{h}"), _mk("idx", f"κ{h}")
    return _mk("inv", rr, cc, size, subst(body, {r: rr, c: cc}), a, b)


def ite(c, a, b):
    """scalar ite with BDD condition"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk("ite", c, a, b)


def inv_elem(r, c, size, body, a, b):
    return _mk("inv", r, c, size, body, a, b)


def delta(a, b):
    c = eq(a, b)
    return ite(c, ONE, ZERO)


# ---------------------------------------------------------------- booleans (BDD)
_btab = {}
_bcnt = itertools.count()
_atom_order = {}
_ato = itertools.count()


def _mkb(atom, hi, lo):
    if hi is lo:
        return hi
    k = (atom.id, hi.id, lo.id)
    b = _btab.get(k)
    if b is None:
        b = B()
        b.atom, b.hi, b.lo = atom, hi, lo
        b.id = next(_bcnt)
        b._fv = None
        b._opq = None
        b._h = None
        _btab[k] = b
    return b


TRUE = B()
TRUE.atom = None
TRUE.hi = TRUE.lo = None
TRUE.id = next(_bcnt)
TRUE._fv = frozenset()
TRUE._opq = False
TRUE._h = 0
FALSE = B()
FALSE.atom = None
FALSE.hi = FALSE.lo = None
FALSE.id = next(_bcnt)
FALSE._fv = frozenset()
FALSE._opq = False
FALSE._h = 0


def batom(t):
    """boolean from an atom term (op 'lt','le','eq','bool','all',...)"""
    if t not in _atom_order:
        _atom_order[t] = next(_ato)
    return _mkb(t, TRUE, FALSE)


_ord = lambda t: _atom_order[t]
_itec = {}


def b_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _itec.get(k)
    if r is None:
        top = min((x.atom for x in (c, a, b) if x.atom is not None), key=_ord)
        def co(x, v):
            if x.atom is top:
                return x.hi if v else x.lo
            return x
        r = _mkb(top, b_ite(co(c, 1), co(a, 1), co(b, 1)), b_ite(co(c, 0), co(a, 0), co(b, 0)))
        _itec[k] = r
    return r


_conc = {}


def constrain(f, g):
    """generalised cofactor of f w.r.t. g (g not FALSE)"""
    if g is TRUE or f is TRUE or f is FALSE:
        return f
    if f is g:
        return TRUE
    k = (f.id, g.id)
    r = _conc.get(k)
    if r is None:
        top = min((x.atom for x in (f, g) if x.atom is not None), key=_ord)
        fh, fl = (f.hi, f.lo) if f.atom is top else (f, f)
        gh, gl = (g.hi, g.lo) if g.atom is top else (g, g)
        if gh is FALSE:
            r = constrain(fl, gl)
        elif gl is FALSE:
            r = constrain(fh, gh)
        else:
            r = _mkb(top, constrain(fh, gh), constrain(fl, gl))
        _conc[k] = r
    return r


def b_atoms(b, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if b.atom is None or b.id in seen:
        return acc
    seen.add(b.id)
    if b.atom not in acc:
        acc.append(b.atom)
    b_atoms(b.hi, acc, seen)
    b_atoms(b.lo, acc, seen)
    return acc


def implies(a, b):
    return (a & ~b) is FALSE


# index / integer reasoning -------------------------------------------------
def lin(t):
    """integer-linear view of an index-ish term: (dict base->coef, const) or None"""
    if t.op == "num":
        return {}, t.args[0]
    if t.op in ("idx", "var", "app", "opaque", "sum", "ite", "mul", "div", "pow"):
        return {t: Fraction(1)}, Fraction(0)
    if t.op == "neg":
        r = lin(t.args[0])
        return None if r is None else ({k: -v for k, v in r[0].items()}, -r[1])
    if t.op == "add":
        a, b = lin(t.args[0]), lin(t.args[1])
        if a is None or b is None:
            return None
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) + v
            if d[k] == 0:
                del d[k]
        return d, a[1] + b[1]
    return None


NONNEG_VARS = {"n", "p"}        # size symbols, all >= 1
MINVAL = {}                     # var name -> minimal value


def lower_bound(t):
    """lower bound of an integer-valued linear term over idx >= 0 and sizes >= 1, or None"""
    r = lin(t)
    if r is None:
        return None
    d, c = r
    for k, v in d.items():
        if k.op == "idx" and v > 0:
            continue
        if k.op == "var" and k.args[0] in MINVAL and v > 0:
            c += v * MINVAL[k.args[0]]
            continue
        return None
    return c


def eq(a, b):
    if a is b:
        if a is NAN:
            return FALSE
        if integral(a):
            return TRUE
        return ~isnan(a) if False else TRUE
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if integral(a) and integral(b):
        r = lin(sub(a, b))
        if r is not None:
            d, c = r
            if not d:
                return TRUE if c == 0 else FALSE
            lb = lower_bound(sub(a, b))
            if lb is not None and lb > 0:
                return FALSE
            lb = lower_bound(sub(b, a))
            if lb is not None and lb > 0:
                return FALSE
    if a.id > b.id:
        a, b = b, a
    return batom(_mk("eq", a, b))


POSVARS = set()                 # float-valued symbols assumed > 0


def positive(t):
    return t.op == "var" and t.args[0] in POSVARS


def lt(a, b):
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    if a.op in ("num", "const") and b.op in ("num", "const"):
        f = lambda t: float(t.args[0])
        return TRUE if f(a) < f(b) else FALSE
    if a is ZERO and positive(b):
        return TRUE
    if b is ZERO and positive(a):
        return FALSE
    if integral(a) and integral(b):
        lb = lower_bound(sub(b, a))
        if lb is not None and lb > 0:
            return TRUE
        lb = lower_bound(sub(a, b))
        if lb is not None and lb >= 0:
            return FALSE
        if b is ONE:
            lb = lower_bound(a)
            if lb is not None and lb >= 0:
                return eq(a, ZERO)
        # x + c < y with only the numeric offset on one side
        # canonical integer form: a < b  <=>  not (b <= a) ; keep lt only
    return batom(_mk("lt", a, b))


def le(a, b):
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if integral(a) and integral(b):
        # a <= b  <=>  not (b < a) on integers
        return ~lt(b, a)
    return batom(_mk("le", a, b))


def isnan(a):
    if a.op == "num":
        return FALSE
    if a is NAN:
        return TRUE
    return batom(_mk("isnan", a))


INTEGRAL_APPS = set()


def integral(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "idx":
        return True
    if t.op == "var":
        return t.args[0] in MINVAL
    if t.op == "app":
        return t.args[0] in INTEGRAL_APPS
    if t.op in ("add", "neg"):
        return all(integral(x) for x in t.args)
    return False


def boolvar(name):
    return batom(_mk("bool", name))


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """capture-avoiding because bound index variables are globally unique"""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if isinstance(t, B):
        return _bsubst(t, m, keys, memo)
    if t in m:
        return m[t]
    if not (t.fv & keys) and not any(k.op != "idx" for k in keys):
        return t
    k = t.id
    if k in memo:
        return memo[k]
    op, a = t.op, t.args
    if op in ("num", "const", "var", "idx", "bool"):
        r = t
    elif op == "sum":
        v, size, body = a
        r = tsum(v, _subst(size, m, keys, memo), _subst(body, m, keys, memo))
    elif op == "inv":
        rr, cc, size, body, x, y = a
        r = _mk("inv", rr, cc, _subst(size, m, keys, memo), _subst(body, m, keys, memo), _subst(x, m, keys, memo), _subst(y, m, keys, memo))
    else:
        na = tuple(_subst(x, m, keys, memo) if isinstance(x, (T, B)) else x for x in a)
        if all(x is y for x, y in zip(na, a)):
            r = t
        else:
            r = rebuild(op, na)
    memo[k] = r
    return r


def rebuild(op, na):
    if op == "add":
        return add(*na)
    if op == "neg":
        return neg(*na)
    if op == "mul":
        return mul(*na)
    if op == "div":
        return div(*na)
    if op == "pow":
        return power(*na)
    if op == "ite":
        return ite(*na)
    return _mk(op, *na)


def _bsubst(b, m, keys, memo):
    if b.atom is None:
        return b
    if not (b.fv() & keys) and not any(k.op != "idx" for k in keys):
        return b
    k = ("b", b.id)
    if k in memo:
        return memo[k]
    a = b.atom
    na = tuple(_subst(x, m, keys, memo) if isinstance(x, (T, B)) else x for x in a.args)
    if a.op == "eq":
        c = eq(*na)
    elif a.op == "lt":
        c = lt(*na)
    elif a.op == "le":
        c = le(*na)
    elif a.op == "isnan":
        c = isnan(*na)
    elif a.op == "all":
        c = all_(*na)
    else:
        c = batom(_mk(a.op, *na))
    r = b_ite(c, _bsubst(b.hi, m, keys, memo), _bsubst(b.lo, m, keys, memo))
    memo[k] = r
    return r


def all_(v, size, body):
    """forall v < size. body"""
    if body is TRUE or body is FALSE:
        return body
    if size is ONE:
        return subst(body, {v: ZERO})
    if v not in body.fv():
        return body
    return batom(_mk("all", v, size, body))


def bapp(name, *args):
    return batom(_mk("bapp", name, *args))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, B):
        return bshow(t)
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.args
    f = lambda x: show(x, d + 1)
    if o == "num":
        return str(a[0])
    if o in ("var", "idx", "bool", "const"):
        return str(a[0])
    if o == "app":
        return f"{a[0]}({', '.join(f(x) for x in a[1:])})"
    if o == "opaque":
        return f"?{a[0]}({', '.join(f(x) for x in a[1:])})"
    if o == "add":
        return f"({f(a[0])} + {f(a[1])})"
    if o == "neg":
        return f"-{f(a[0])}"
    if o == "mul":
        return f"{f(a[0])}*{f(a[1])}"
    if o == "div":
        return f"({f(a[0])} / {f(a[1])})"
    if o == "pow":
        return f"{f(a[0])}^{a[1]}"
    if o == "sum":
        return f"Σ[{f(a[0])}<{f(a[1])}]({f(a[2])})"
    if o == "ite":
        return f"if({bshow(a[0], d+1)}; {f(a[1])}; {f(a[2])})"
    if o == "inv":
        return f"inv[{f(a[0])},{f(a[1])}<{f(a[2])}: {f(a[3])}]({f(a[4])},{f(a[5])})"
    return f"{o}({', '.join(f(x) for x in a)})"


def bshow(b, d=0):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    if d > 14:
        return "…"
    a = show(b.atom, d + 1)
    if b.hi is TRUE and b.lo is FALSE:
        return a
    if b.hi is FALSE and b.lo is TRUE:
        return f"!{a}"
    if b.lo is FALSE:
        return f"({a} & {bshow(b.hi, d+1)})"
    if b.hi is FALSE:
        return f"(!{a} & {bshow(b.lo, d+1)})"
    if b.hi is TRUE:
        return f"({a} | {bshow(b.lo, d+1)})"
    return f"ite({a}, {bshow(b.hi, d+1)}, {bshow(b.lo, d+1)})"
