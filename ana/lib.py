"""Transfer functions for library calls (std, ndarray, ndarray-linalg, num-traits, statrs, ...)."""
from values import *
import terms as TT
from interp import (some, NONE, ok, err, OPTION, RESULT, CFLOW, Diverge, Give, merge_states, St)

ORD = "core::cmp::Ordering"
_op = [0]


def fresh_opq(desc):
    _op[0] += 1
    return TT.opaque(f"{desc}#{_op[0]}")


def scal(v):
    if isinstance(v, T):
        return v
    if isinstance(v, B):
        return ite(v, ONE, ZERO)
    if isinstance(v, Arr) and not v.shape:
        return v.body
    if isinstance(v, Gate):
        acc = None
        for c, x in reversed(v.alts):
            acc = scal(x) if acc is None else ite(c, scal(x), acc)
        return acc
    if isinstance(v, Opq):
        return fresh_opq(v.desc[:40])
    return fresh_opq(type(v).__name__)


def boolean(v):
    if isinstance(v, B):
        return v
    if isinstance(v, T) and v.op == "num":
        return TRUE if v.args[0] else FALSE
    return TT.batom(TT._mk("bool", f"?{fresh_opq('b').args[0]}"))


def is_opq_bool(b):
    return any(a.op == "bool" and str(a.args[0]).startswith("?") for a in TT.b_atoms(b))


# ------------------------------------------------------------------ guarded cases
def cases(I, st, alts):
    """alts: [(guard, fn(state)->value)]; runs each under its guard and joins"""
    outs = []
    for c, fn in alts:
        g = st.pc & c
        if g is FALSE:
            continue
        s = st.copy()
        s.pc = g
        try:
            v = fn(s)
        except Diverge:
            continue
        s.cells["$ret"] = v
        outs.append(s)
    if not outs:
        raise Diverge()
    o = merge_states(outs)
    v = o.cells.pop("$ret")
    st.set_(o)
    return v


def on_enum(I, st, e, fs, default=None):
    if not isinstance(e, Enum):
        return Opq("enum operation on unknown")
    return cases(I, st, [(c, (lambda s, f=f, v=v: fs[v](s, f))) for v, (c, f) in e.alts.items() if v in fs])


# ------------------------------------------------------------------ arrays
def bshape(I, st, s1, s2, what, left_fixed=False):
    """broadcast shape, plus index maps"""
    n = max(len(s1), len(s2))
    out, m1, m2 = [], [], []
    for k in range(n):
        i1, i2 = k - (n - len(s1)), k - (n - len(s2))
        a = s1[i1] if i1 >= 0 else None
        b = s2[i2] if i2 >= 0 else None
        if a is None:
            out.append(b)
            m2.append(D[k])
        elif b is None:
            out.append(a)
            m1.append(D[k])
        elif dim_eq(a, b):
            out.append(a)
            m1.append(D[k])
            m2.append(D[k])
        elif b is ONE:
            out.append(a)
            m1.append(D[k])
            m2.append(ZERO)
        elif a is ONE:
            out.append(b)
            m1.append(ZERO)
            m2.append(D[k])
        else:
            g = ~TT.eq(a, b)
            I.event("shape", st, f"{what}: {show(a)} vs {show(b)}", g)
            ng = st.pc & ~g
            if ng is FALSE:
                raise Diverge()
            st.pc = ng
            out.append(a)
            m1.append(D[k])
            m2.append(D[k])
    return out, m1, m2


def arith(I, op):
    """the term constructor of an operation; in raw mode operations are kept as written (for rounding analysis)"""
    if I.cfg.get("raw"):
        return lambda a, b: TT.app("f" + op, a, b)
    return {"add": TT.add, "sub": TT.sub, "mul": TT.mul, "div": TT.div}[op]


def ewise(I, st, op, x, y, what="elementwise"):
    f = arith(I, op)
    if isinstance(x, Opq) or isinstance(y, Opq):
        return Opq(f"{what} of unknown")
    if isinstance(x, Arr) and isinstance(y, Arr):
        sh, m1, m2 = bshape(I, st, x.shape, y.shape, what)
        return Arr(sh, f(scal(x.at(*m1)), scal(y.at(*m2))))
    if isinstance(x, Arr):
        return Arr(x.shape, f(scal(x.body), lift_scalar(y, x)))
    if isinstance(y, Arr):
        return Arr(y.shape, f(lift_scalar(x, y), scal(y.body)))
    return f(scal(x), scal(y))


def lift_scalar(t, arr):
    t = scal(t)
    return t


def length(I, st, v):
    v = I.load(st, v)
    if isinstance(v, Arr):
        r = ONE
        for s in v.shape:
            r = TT.mul(r, s)
        return r
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, Seq):
        return TT.sub(v.size, v.pos)
    return fresh_opq("len")


def freshen(arr):
    """element of arr at fresh indices -> (indices, element)"""
    ix = [idx("e") for _ in arr.shape]
    return ix, arr.at(*ix)


def back(v, ix):
    return vsubst(v, {i: D[k] for k, i in enumerate(ix)})


def pure_each(I, st, ix, sizes, fn):
    """run fn (a pure element function) at symbolic indices; constraints it adds hold for every index"""
    pc0 = st.pc
    before = dict(st.cells)
    v = fn(st)
    new = [k for k in st.cells if k in before and not same(st.cells[k], before[k])]
    if st.pc is not pc0:
        extra = constrain(st.pc, pc0)
        for i, s in zip(ix, sizes):
            extra = all_over(extra, i, s)
        st.pc = pc0 & extra
        if st.pc is FALSE:
            raise Diverge()
    if new:
        for k in new:
            st.cells[k] = Opq("mutated inside an element closure")
    return v


def mapv(I, st, arr, f):
    if not isinstance(arr, Arr):
        return Opq("map of unknown")
    ix, e = freshen(arr)
    r = pure_each(I, st, ix, arr.shape, lambda s: I.apply(f, [e], s))
    return Arr(arr.shape, back(r, ix))


def seq_of(v):
    """iterable value -> Seq"""
    if isinstance(v, Seq):
        return v
    if isinstance(v, Tup):
        n = len(v.items)
        if n == 0:
            return Seq(ZERO, Opq("empty"))
        acc = v.items[-1]
        for k in range(n - 2, -1, -1):
            acc = merge(TT.eq(SQ, num(k)), v.items[k], acc)
        return Seq(num(n), acc)
    if isinstance(v, Arr) and len(v.shape) == 1:
        return Seq(v.shape[0], v.at(SQ))
    if isinstance(v, Struct) and v.name == "Range":
        return Seq(TT.sub(v.fields[1], v.fields[0]), TT.add(v.fields[0], SQ), ZERO, None)
    if isinstance(v, Enum) and v.key == OPTION and len(v.alts) == 1:
        return Seq(ONE, v.alts[1][1][0]) if 1 in v.alts else Seq(ZERO, Opq("empty"))
    return None


def norm_seq(s):
    """Seq with position 0"""
    if s.pos is ZERO:
        return s
    return Seq(TT.sub(s.size, s.pos), vsubst(s.elem, {SQ: TT.add(s.pos, SQ)}), ZERO, s.tag)


def shape_arg(v):
    if isinstance(v, Tup):
        return [scal(x) for x in v.items]
    if isinstance(v, T):
        return [v]
    return None


def axis_of(v):
    if isinstance(v, Struct) and v.fields:
        v = v.fields[0]
    if isinstance(v, T) and v.op == "num":
        return int(v.args[0])
    raise Give("axis")


def sum_all(arr):
    if not isinstance(arr, Arr):
        return fresh_opq("sum")
    t = scal(arr.body)
    ix = [idx("s") for _ in arr.shape]
    t = subst(t, {D[k]: i for k, i in enumerate(ix)})
    for i, s in list(zip(ix, arr.shape))[::-1]:
        t = TT.sum_over(t, i, s)
    return t


def sum_axis(arr, ax):
    i = idx("s")
    rest = [k for k in range(len(arr.shape)) if k != ax]
    m = {D[ax]: i}
    for j, k in enumerate(rest):
        m[D[k]] = D[j]
    t = TT.sum_over(subst(scal(arr.body), m), i, arr.shape[ax])
    return Arr([arr.shape[k] for k in rest], t)


def dot(I, st, a, b):
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return Opq("dot of unknown")
    ka, kb = a.shape[-1], b.shape[0]
    if not dim_eq(ka, kb):
        g = ~TT.eq(ka, kb)
        I.event("shape", st, f"dot: {show(ka)} vs {show(kb)}", g)
        ng = st.pc & ~g
        if ng is FALSE:
            raise Diverge()
        st.pc = ng
    k = idx("s")
    i, j = idx("r"), idx("c")
    ra, rb = len(a.shape), len(b.shape)
    ea = a.at(i, k) if ra == 2 else a.at(k)
    eb = b.at(k, j) if rb == 2 else b.at(k)
    t = TT.sum_over(TT.mul(scal(ea), scal(eb)), k, ka)
    if ra == 2 and rb == 2:
        return Arr([a.shape[0], b.shape[1]], subst(t, {i: D[0], j: D[1]}))
    if ra == 2:
        return Arr([a.shape[0]], subst(t, {i: D[0]}))
    if rb == 2:
        return Arr([b.shape[1]], subst(t, {j: D[0]}))
    return t


def inverse(I, st, a):
    r, c = idx("r"), idx("c")
    body = subst(scal(a.body), {D[0]: r, D[1]: c})
    t = TT.inv_of(body, r, c, a.shape[0], D[0], D[1])
    return Arr(a.shape, t)


def linalg_result(I, st, a, v):
    mode = I.cfg.get("linalg", "ok")
    if mode == "ok":
        I.event("linalg", st, "inverse / solve")
        return ok(v)
    key = TT.app("mat", scal(subst(scal(a.body), {D[0]: ZERO, D[1]: ZERO}))) if isinstance(a, Arr) else ZERO
    g = TT.bapp("nonsingular", key)
    I.event("linalg", st, g)
    return Enum(RESULT, "Result", {0: (g, (v,)), 1: (~g, (Struct("$linalg", "LinalgError", ()),))})


# ------------------------------------------------------------------ slicing
def slice_elem(v):
    """value -> Struct $sl (kind, ...)"""
    if isinstance(v, Struct):
        if v.key == "$sl":
            return v
        if v.name == "RangeFull":
            return Struct("$sl", "range", (ZERO, None, ONE))
        if v.name == "RangeFrom":
            return Struct("$sl", "range", (v.fields[0], None, ONE))
        if v.name == "Range":
            return Struct("$sl", "range", (v.fields[0], v.fields[1], ONE))
        if v.name == "RangeTo":
            return Struct("$sl", "range", (ZERO, v.fields[0], ONE))
        if v.name == "RangeToInclusive":
            return Struct("$sl", "range", (ZERO, TT.add(v.fields[0], ONE), ONE))
        if v.name == "RangeInclusive":
            return Struct("$sl", "range", (v.fields[0], TT.add(v.fields[1], ONE), ONE))
        if v.name == "Slice":
            e = v.fields[1]
            if isinstance(e, Enum):
                e = e.alts[1][1][0] if 1 in e.alts and len(e.alts) == 1 else None
            return Struct("$sl", "range", (v.fields[0], e, v.fields[2]))
        if v.name == "NewAxis":
            return Struct("$sl", "new", ())
    if isinstance(v, T):
        return Struct("$sl", "index", (v,))
    raise Give(f"slice element {v!r:.60}")


def fixneg(t, size):
    if t.op == "num" and t.args[0] < 0:
        return TT.add(size, t)
    return t


def do_slice(I, st, shape, info):
    """-> (new shape, index terms for the base array in terms of D of the result)"""
    if not (isinstance(info, Struct) and info.key == "$slice"):
        raise Give("slice info")
    out, ix = [], []
    k = 0
    for e in info.fields:
        if e.name == "new":
            out.append(ONE)
            continue
        if k >= len(shape):
            raise Give("slice rank")
        n = shape[k]
        k += 1
        if e.name == "index":
            i = fixneg(e.fields[0], n)
            g = ~TT.lt(i, n)
            if g is not FALSE and not small_index(i):
                I.event("bounds", st, f"slice index {show(i)} of {show(n)}", g)
            ix.append(i)
        else:
            a, b, step = e.fields
            a = fixneg(scal(a), n)
            b = n if b is None else fixneg(scal(b), n)
            if step is not ONE:
                if step.op == "num" and step.args[0] == -1 and a is ZERO and b is n:
                    ix.append(TT.sub(TT.sub(n, ONE), D[len(out)]))
                    out.append(n)
                    continue
                raise Give("slice step")
            for t in (a, b):
                if t is not n and t is not ZERO:
                    g = TT.lt(n, t)
                    if g is not FALSE and not (t.op == "idx" or t.fv):
                        I.event("bounds", st, f"slice bound {show(t)} of {show(n)}", g)
                        st.pc = st.pc & ~g
                        if st.pc is FALSE:
                            raise Diverge()
            ix.append(TT.add(D[len(out)], a) if a is not ZERO else D[len(out)])
            out.append(TT.sub(b, a))
    while k < len(shape):
        ix.append(D[len(out)])
        out.append(shape[k])
        k += 1
    return out, ix


def small_index(i):
    return i.op == "idx"


def mutview(I, st, raw, shape, ix):
    return MutView(raw if isinstance(raw, Ref) else raw, shape, ix)


# ------------------------------------------------------------------ concatenation
def concat(I, st, ax, parts):
    if any(not isinstance(p, Arr) for p in parts):
        return Opq("concatenate of unknown")
    total = ZERO
    offs = []
    for p in parts:
        offs.append(total)
        total = TT.add(total, p.shape[ax])
    shape = list(parts[0].shape)
    for p in parts[1:]:
        for k in range(len(shape)):
            if k != ax and not dim_eq(shape[k], p.shape[k]):
                I.event("shape", st, f"concatenate: {show(shape[k])} vs {show(p.shape[k])}", ~TT.eq(shape[k], p.shape[k]))
    shape[ax] = total
    acc = None
    for p, o in reversed(list(zip(parts, offs))):
        ix = [D[k] for k in range(len(shape))]
        if o is not ZERO:
            ix[ax] = TT.sub(D[ax], o)
        v = p.at(*ix)
        if acc is None:
            acc = v
        else:
            acc = merge(TT.lt(D[ax], TT.add(o, p.shape[ax])), v, acc)
    return Arr(shape, acc)


# ------------------------------------------------------------------ comparisons
def compare(I, st, op, x, y):
    if isinstance(x, Discr_()) or isinstance(y, Discr_()):
        return Opq("discriminant comparison")
    if isinstance(x, B) and isinstance(y, B):
        e = b_ite(x, y, ~y)
        return {"eq": e, "ne": ~e}.get(op, Opq("bool order"))
    if isinstance(x, Arr) and isinstance(y, Arr) and op in ("eq", "ne") and len(x.shape) == len(y.shape):
        e = TRUE
        for a, b in zip(x.shape, y.shape):
            e = e & TT.eq(a, b)
        ix, ex = freshen(x)
        c = TT.eq(scal(ex), scal(y.at(*ix)))
        for i, s in zip(ix, x.shape):
            c = all_over(c, i, s)
        e = e & c
        return e if op == "eq" else ~e
    if isinstance(x, Enum) and isinstance(y, Enum) and op in ("eq", "ne"):
        e = FALSE
        for v in x.alts.keys() & y.alts.keys():
            (c1, f1), (c2, f2) = x.alts[v], y.alts[v]
            g = c1 & c2
            for a, b in zip(f1, f2):
                q = compare(I, st, "eq", a, b)
                if not isinstance(q, B):
                    return q
                g = g & q
            e = e | g
        return e if op == "eq" else ~e
    if isinstance(x, OrdV):
        return compare(I, st, op, ord_enum(x), y)
    if isinstance(y, OrdV):
        return compare(I, st, op, x, ord_enum(y))
    if isinstance(x, Tup) and isinstance(y, Tup) and op in ("eq", "ne") and len(x.items) == len(y.items):
        e = TRUE
        for a, b in zip(x.items, y.items):
            q = compare(I, st, "eq", a, b)
            if not isinstance(q, B):
                return q
            e = e & q
        return e if op == "eq" else ~e
    if not isinstance(x, (T, Gate)) or not isinstance(y, (T, Gate)):
        return Opq("comparison")
    x, y = scal(x), scal(y)
    if x is NAN or y is NAN:
        return TRUE if op == "ne" else FALSE
    if op == "eq":
        return TT.eq(x, y)
    if op == "ne":
        return ~TT.eq(x, y)
    if op == "lt":
        return TT.lt(x, y)
    if op == "gt":
        return TT.lt(y, x)
    if op == "le":
        return TT.le(x, y)
    if op == "ge":
        return TT.le(y, x)
    raise Give(op)


def Discr_():
    from interp import Discr
    return Discr


def ord_enum(v):
    x, y = scal(v.x), scal(v.y)
    l, g = TT.lt(x, y), TT.lt(y, x)
    return Enum(ORD, "Ordering", {-1: (l, ()), 0: (~l & ~g, ()), 1: (g & ~l, ())})


def binop(I, st, op, x, y):
    x, y = I.load(st, x), I.load(st, y)
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    low = base.lower()
    if low in ("eq", "ne", "lt", "le", "gt", "ge"):
        return compare(I, st, low, x, y)
    if low in ("bitand", "bitor", "bitxor") and isinstance(x, B) and isinstance(y, B):
        return x & y if low == "bitand" else x | y if low == "bitor" else b_ite(x, ~y, y)
    if low in ("add", "sub", "mul", "div") and not isinstance(x, Opq) and not isinstance(y, Opq):
        a, b = scal(x), scal(y)
        r = arith(I, low)(a, b)
        if low == "div" and TT.integral(a) and TT.integral(b):
            r = TT.app("idiv", a, b)
        if op.endswith("WithOverflow"):
            return Tup([r, TT.lt(a, b) if low == "sub" else FALSE])
        return r
    if low == "rem":
        return TT.app("rem", scal(x), scal(y))
    if low == "cmp":
        return OrdV(scal(x), scal(y), False)
    if op.endswith("WithOverflow"):
        return Tup([Opq(op), FALSE])
    return Opq(f"binary {op}")


def constant(o):
    k = o["key"]
    n = k.rsplit("::", 1)[1]
    ty = o["ty"].get("name")
    tab = {"PI": "pi", "E": "e", "LN_2": "ln2"}
    if n == "EPSILON":
        return TT.var("eps")
    if n == "MIN_POSITIVE":
        return TT.var("tiny")
    if n == "MAX":
        return TT.var("huge")
    if n == "INFINITY":
        return INF
    if n == "NEG_INFINITY":
        return NINF
    if n == "NAN":
        return NAN
    return Opq(f"const {k}")


# ------------------------------------------------------------------ scalar functions
def fneg(I, x):
    return TT.app("fneg", x) if I.cfg.get("raw") and x.op != "num" else TT.neg(x)


def fexp(I, x):
    return ONE if x is ZERO else TT.app("exp", x)


def fun1(name):
    def f(I, x):
        if isinstance(x, Arr):
            return Arr(x.shape, f(I, scal(x.body)))
        if isinstance(x, Opq):
            return Opq(name)
        x = scal(x)
        raw = I.cfg.get("raw")
        if raw and name != "abs":
            return TT.app(name, x)
        if name == "exp":
            return fexp(I, x)
        if name == "ln":
            return ZERO if x is ONE else TT.app("ln", x)
        if name == "exp_m1":
            return TT.app("exp_m1", x) if raw else TT.sub(fexp(I, x), ONE)
        if name == "ln_1p":
            return TT.app("ln_1p", x) if raw else TT.app("ln", TT.add(x, ONE))
        if name == "sqrt":
            return TT.sqrt(x) if x not in (ZERO, ONE) else x
        if name == "recip":
            return TT.div(ONE, x)
        if name == "abs":
            return num(abs(x.args[0])) if x.op == "num" else TT.app("abs", x)
        if name == "cbrt":
            return TT.power(x, Fraction(1, 3))
        if name == "signum":
            return TT.app("signum", x)
        if name == "log2":
            return TT.div(TT.app("ln", x), TT.app("ln", num(2)))
        if name == "log10":
            return TT.div(TT.app("ln", x), TT.app("ln", num(10)))
        return TT.app(name, x)
    return f


F1 = {n: fun1(n) for n in ("exp", "ln", "exp_m1", "ln_1p", "sqrt", "recip", "abs", "cbrt", "signum", "log2", "log10",
                           "tanh", "sinh", "cosh", "sin", "cos", "tan", "floor", "ceil", "round", "trunc", "exp2", "square")}
F1["square"] = lambda I, x: TT.mul(scal(x), scal(x))
DISTS = {"Bernoulli", "Binomial", "ChiSquared", "Exp", "FisherSnedecor", "Gamma", "Normal", "Poisson", "StudentsT",
         "Beta", "Geometric", "NegativeBinomial", "LogNormal", "Uniform", "InverseGamma"}


def dist_valid(n, a):
    p = lambda t: TT.lt(ZERO, t)
    if n in ("ChiSquared", "Exp", "Poisson"):
        return p(a[0])
    if n in ("FisherSnedecor", "Gamma"):
        return p(a[0]) & p(a[1])
    if n == "Normal":
        return p(a[1])
    if n == "StudentsT":
        return p(a[1]) & p(a[2])
    if n == "Bernoulli" or n == "Binomial":
        return TT.le(ZERO, a[0]) & TT.le(a[0], ONE)
    return TRUE


# ------------------------------------------------------------------ main entry
def call(I, st, fn, raw):
    name, recv, trait, crate = fn["name"], fn.get("recv"), fn.get("trait"), fn["crate"]
    a = [I.load(st, x) for x in raw]
    # distribute over guarded unions
    for k, v in enumerate(a):
        if isinstance(v, Gate) and not (isinstance(raw[k], Ref) and name in ("deref", "deref_mut", "as_ref", "as_mut")):
            if all(isinstance(x, T) for _, x in v.alts):
                a[k] = scal(v)
                if not isinstance(raw[k], Ref):
                    raw = list(raw)
                    raw[k] = a[k]
                continue

            def one(s, x, k=k):
                r2 = list(raw)
                if isinstance(raw[k], Ref):
                    I.store(s, raw[k], x)
                else:
                    r2[k] = x
                return call(I, s, fn, r2)
            return I.split(v, st, one)
    h = HANDLERS.get(name)
    if a and isinstance(a[0], Struct) and a[0].key == "$once" and name in ("get", "set", "take", "into_inner"):
        h = _onceset
    r = NotImplemented
    if h is not None:
        r = h(I, st, fn, a, list(raw))
    if r is NotImplemented:
        return unmodelled(I, st, fn, raw)
    return r


def unmodelled(I, st, fn, raw):
    I.unmodelled.add(fn["key"])
    I.event("unmodelled", st, fn["key"])
    for x in raw:
        havoc_arg(I, st, x)
    return Opq(f"result of {fn['name']}")


def havoc_arg(I, st, x):
    if isinstance(x, (Ref, MutView)):
        I.store(st, x, Opq("clobbered by unmodelled call"))
    elif isinstance(x, Clo):
        for c in x.caps:
            havoc_arg(I, st, c)
    elif isinstance(x, (Tup,)):
        for c in x.items:
            havoc_arg(I, st, c)


HANDLERS = {}


def on(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


# ---- identity-like
@on("clone", "to_owned", "into_owned", "deref", "as_ref", "borrow", "view", "as_slice", "cloned", "copied", "into_iter_", "into_inner",
    "as_standard_layout", "into_boxed_slice", "into_vec", "into_dyn", "as_array", "as_deref", "to_vec", "into_raw_vec",
    "into_dimensionality_", "box_assume_init_into_vec_unsafe", "by_value", "black_box", "reborrow", "into_shared", "to_string_", "assume_init",
    "identity", "by_ref_", "into_diag", "as_str", "into_pin", "leak", "try_as_slice", "force")
def _ident(I, st, fn, a, raw):
    if fn["name"] == "box_assume_init_into_vec_unsafe":
        v = a[0]
        # MaybeUninit { (), ManuallyDrop { MaybeDangling { [..] } } }
        while isinstance(v, Tup) and len(v.items) == 2 and v.items[0] is None:
            v = v.items[1]
            while isinstance(v, Tup) and len(v.items) == 1 and isinstance(v.items[0], Tup):
                v = v.items[0]
        return v if isinstance(v, Tup) else Opq("boxed array")
    if fn["name"] in ("cloned", "copied", "into_inner") and isinstance(a[0], Opq):
        return a[0]
    if fn["name"] in ("deref", "as_ref") and isinstance(raw[0], MutView):
        return a[0]
    return a[0]


@on("deref_mut", "as_mut", "view_mut", "by_ref", "borrow_mut", "as_slice_mut")
def _mutident(I, st, fn, a, raw):
    if fn["name"] == "as_mut" and isinstance(a[0], Enum) and isinstance(raw[0], Ref):
        e = a[0]
        return Enum(e.key, e.name, {v: (c, tuple(Ref(raw[0].cell, raw[0].path + (("v", v), ("f", k))) for k in range(len(f)))) for v, (c, f) in e.alts.items()})
    return raw[0]


@on("new")
def _new(I, st, fn, a, raw):
    r = fn.get("recv")
    if r in ("Box", "Rc", "Arc", "Cell", "RefCell"):
        return raw[0] if isinstance(raw[0], (Ref, Clo)) else a[0]
    if r == "Vec":
        return Seq(ZERO, Opq("empty"))
    if r == "String":
        return Str("")
    if r in ("OnceCell", "OnceLock", "LazyCell"):
        return Struct("$once", "OnceCell", (NONE,))
    if r in ("Arguments", "Argument"):
        return UNIT
    if r in DISTS:
        args = [scal(x) for x in a]
        d = Struct("$dist", r, [Str(r)] + args)
        g = dist_valid(r, args)
        return Enum(RESULT, "Result", {0: (g, (d,)), 1: (~g, (Opq("distribution error"),))})
    if r == "RangeInclusive":
        return Struct("core::ops::range::RangeInclusive", "RangeInclusive", (a[0], a[1], FALSE))
    if r == "Slice":
        return Struct("$sl", "range", tuple(a))
    return NotImplemented


@on("new_uninit", "uninit")
def _uninit(I, st, fn, a, raw):
    if fn.get("recv") == "Box":
        c = ("heap", next(I.fid))
        st.cells[c] = None
        return Ref(c)
    return None


@on("with_capacity")
def _cap(I, st, fn, a, raw):
    return Seq(ZERO, Opq("empty")) if fn.get("recv") == "Vec" else Str("")


@on("standard")
def _standard(I, st, fn, a, raw):
    return Struct("$dist", "Normal", (Str("Normal"), ZERO, ONE))


@on("reserve", "drop", "_eprint", "_print", "forget", "write_str", "write_fmt", "from_str", "new_display", "new_debug", "new_const", "new_v1",
    "debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "as_display", "as_dyn_error", "format", "shrink_to_fit", "next_in_dim", "next_out_dim", "must_use")
def _noop(I, st, fn, a, raw):
    n = fn["name"]
    if n == "format":
        return Struct("$fmt", "fmt", ())
    if n == "must_use":
        return a[0]
    return UNIT


@on("to_string", "into_string")
def _tostr(I, st, fn, a, raw):
    return a[0] if isinstance(a[0], Str) else Struct("$fmt", "fmt", (a[0],))


# ---- Option / Result
@on("is_some", "is_none", "is_ok", "is_err")
def _is(I, st, fn, a, raw):
    e = a[0]
    if not isinstance(e, Enum):
        return boolean(Opq("is"))
    n = fn["name"]
    v = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[n]
    return e.alts.get(v, (FALSE,))[0]


@on("is_some_and", "is_none_or", "is_ok_and")
def _isand(I, st, fn, a, raw):
    e = a[0]
    n = fn["name"]
    if n == "is_ok_and":
        fs = {0: lambda s, f: I.apply(raw[1], [f[0]], s), 1: lambda s, f: FALSE}
    else:
        fs = {1: lambda s, f: I.apply(raw[1], [f[0]], s), 0: lambda s, f: FALSE if n == "is_some_and" else TRUE}
    return on_enum(I, st, e, fs)


@on("unwrap", "expect", "unwrap_unchecked", "unwrap_err")
def _unwrap(I, st, fn, a, raw):
    e = a[0]
    if not isinstance(e, Enum):
        I.event("unwrap?", st, f"{fn['name']} of unknown")
        return Opq("unwrap")
    good = (1 if e.key == OPTION else 0) if fn["name"] != "unwrap_err" else 1
    if good not in e.alts:
        I.event("panic", st, f"{fn['name']}")
        raise Diverge()
    c, f = e.alts[good]
    if c is not TRUE and (st.pc & ~c) is not FALSE:
        I.event("panic", st, f"{fn['name']}" + (f" {a[1].s!r}" if len(a) > 1 and isinstance(a[1], Str) else ""), ~c)
        st.pc = st.pc & c
        if st.pc is FALSE:
            raise Diverge()
    return f[0]


@on("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "get_or_insert_with")
def _unwrap_or(I, st, fn, a, raw):
    e, n = a[0], fn["name"]
    if not isinstance(e, Enum):
        return Opq(n)
    good = 1 if e.key == OPTION else 0
    if n == "unwrap_or":
        return on_enum(I, st, e, {good: lambda s, f: f[0], 1 - good: lambda s, f: a[1]})
    if n == "unwrap_or_else":
        return on_enum(I, st, e, {good: lambda s, f: f[0], 1 - good: lambda s, f: I.apply(raw[1], list(f), s)})
    if n == "map_or":
        return on_enum(I, st, e, {good: lambda s, f: I.apply(raw[2], [f[0]], s), 1 - good: lambda s, f: a[1]})
    if n == "map_or_else":
        return on_enum(I, st, e, {good: lambda s, f: I.apply(raw[2], [f[0]], s), 1 - good: lambda s, f: I.apply(raw[1], list(f), s)})
    if n == "get_or_insert_with" and isinstance(raw[0], Ref) and fn.get("recv") == "Option":
        v = on_enum(I, st, e, {1: lambda s, f: some(f[0]), 0: lambda s, f: some(I.apply(raw[1], [], s))})
        I.store(st, raw[0], v)
        return Ref(raw[0].cell, raw[0].path + (("v", 1), ("f", 0)))
    if n == "unwrap_or_default":
        return on_enum(I, st, e, {good: lambda s, f: f[0], 1 - good: lambda s, f: default_of(I, fn["args"][0])})
    return NotImplemented


def flatten(I, st, s):
    """sequence of options / results -> those that are there"""
    s = norm_seq(s)
    good = lambda e: e.alts.get(0 if e.key == RESULT else 1, (FALSE, ()))
    if s.size.op == "num" and s.size.args[0] <= 6:
        out = []
        for k in range(int(s.size.args[0])):
            e = s.at(num(k))
            if not isinstance(e, Enum) or e.key not in (OPTION, RESULT):
                return Opq("flatten")
            c, f = good(e)
            if c is FALSE:
                continue
            if c is not TRUE:
                out = None
                break
            out.append(f[0])
        if out is not None:
            return seq_of(Tup(out))
    if isinstance(s.elem, Enum) and s.elem.key in (OPTION, RESULT):
        c, f = good(s.elem)
        if c is TRUE:
            return Seq(s.size, f[0])
        if c is not FALSE:
            return Struct("$filter", "$filter", (Seq(s.size, f[0]), c))
    return Opq("flatten")


@on("ok_or", "ok_or_else", "ok", "err", "map_err", "and_then", "or_else", "or", "xor", "transpose", "flatten", "zip_")
def _optres(I, st, fn, a, raw):
    e, n = a[0], fn["name"]
    if n == "flatten" and isinstance(e, (Seq, Tup)):
        return flatten(I, st, seq_of(e))
    if not isinstance(e, Enum):
        return Opq(n)
    if n == "ok_or":
        return Enum(RESULT, "Result", {0: e.alts.get(1, (FALSE, ())), 1: (e.alts.get(0, (FALSE,))[0], (a[1],))})
    if n == "ok_or_else":
        return on_enum(I, st, e, {1: lambda s, f: ok(f[0]), 0: lambda s, f: err(I.apply(raw[1], [], s))})
    if n == "ok":
        return Enum(OPTION, "Option", {1: e.alts.get(0, (FALSE, ())), 0: (e.alts.get(1, (FALSE,))[0], ())})
    if n == "err":
        return Enum(OPTION, "Option", {1: e.alts.get(1, (FALSE, ())), 0: (e.alts.get(0, (FALSE,))[0], ())})
    if n == "map_err":
        return on_enum(I, st, e, {0: lambda s, f: ok(f[0]), 1: lambda s, f: err(I.apply(raw[1], [f[0]], s))})
    if n == "and_then":
        if e.key == OPTION:
            return on_enum(I, st, e, {1: lambda s, f: I.apply(raw[1], [f[0]], s), 0: lambda s, f: NONE})
        return on_enum(I, st, e, {0: lambda s, f: I.apply(raw[1], [f[0]], s), 1: lambda s, f: err(f[0])})
    if n == "or_else":
        if e.key == OPTION:
            return on_enum(I, st, e, {1: lambda s, f: some(f[0]), 0: lambda s, f: I.apply(raw[1], [], s)})
        return on_enum(I, st, e, {0: lambda s, f: ok(f[0]), 1: lambda s, f: I.apply(raw[1], [f[0]], s)})
    if n == "and":
        g = 1 if e.key == OPTION else 0
        return on_enum(I, st, e, {g: lambda s, f: a[1], 1 - g: lambda s, f: NONE if g else err(f[0])})
    if n == "xor" and isinstance(a[1], Enum):
        x, y = e.alts.get(1, (FALSE, (None,))), a[1].alts.get(1, (FALSE, (None,)))
        return cases(I, st, [(x[0] & ~y[0], lambda s: some(x[1][0])), (y[0] & ~x[0], lambda s: some(y[1][0])), ((x[0] & y[0]) | (~x[0] & ~y[0]), lambda s: NONE)])
    if n == "flatten" and e.key == OPTION:
        return on_enum(I, st, e, {1: lambda s, f: f[0], 0: lambda s, f: NONE})
    if n == "transpose" and e.key == OPTION:
        def tr(s, f):
            if not isinstance(f[0], Enum):
                return Opq("transpose")
            return on_enum(I, s, f[0], {0: lambda t, g: ok(some(g[0])), 1: lambda t, g: err(g[0])})
        return on_enum(I, st, e, {1: tr, 0: lambda s, f: ok(NONE)})
    if n == "or":
        g = 1 if e.key == OPTION else 0
        return on_enum(I, st, e, {g: lambda s, f: some(f[0]) if g else ok(f[0]), 1 - g: lambda s, f: a[1]})
    return NotImplemented


@on("then", "then_some")
def _then(I, st, fn, a, raw):
    if not isinstance(a[0], B):
        return NotImplemented
    return cases(I, st, [(a[0], lambda s: some(I.apply(raw[1], [], s) if fn["name"] == "then" else a[1])), (~a[0], lambda s: NONE)])


@on("filter", "filter_map", "take_while_")
def _filter(I, st, fn, a, raw):
    n = fn["name"]
    if isinstance(a[0], Enum) and a[0].key == OPTION and fn.get("recv") != "Iterator":
        def go(s, f):
            c = boolean(I.apply(raw[1], [f[0]], s))
            return cases(I, s, [(c, lambda t: some(f[0])), (~c, lambda t: NONE)])
        return on_enum(I, st, a[0], {1: go, 0: lambda s, f: NONE})
    s, g = filtered(a[0])
    if s is None:
        return Opq(n)
    k = idx("q")
    e = vsubst(s.elem, {SQ: k})
    g1 = vsubst(g, {SQ: k})
    s0 = st.pc
    if n == "filter":
        c = boolean(pure_each(I, st, [k], [s.size], lambda t: I.apply(raw[1], [e], t)))
        x = e
    else:
        v = pure_each(I, st, [k], [s.size], lambda t: I.apply(raw[1], [e], t))
        if not (isinstance(v, Enum) and v.key == OPTION):
            return Opq(n)
        c, f = v.alts.get(1, (FALSE, (Opq("none"),)))
        x = f[0]
    return Struct("$filter", "$filter", (Seq(s.size, vsubst(x, {k: SQ})), vsubst(g1 & c, {k: SQ})))


def filtered(v):
    """(elements, condition under which position SQ is there)"""
    if isinstance(v, Struct) and v.key == "$filter":
        return v.fields
    s = seq_of(v)
    if s is None:
        return None, None
    return norm_seq(s), TRUE


@on("take", "replace", "insert")
def _take(I, st, fn, a, raw):
    n = fn["name"]
    s = seq_of(a[0]) if not isinstance(a[0], Enum) else None
    if n == "take" and s is not None and len(a) > 1:
        s = norm_seq(s)
        k = scal(a[1])
        return Seq(ite(TT.lt(k, s.size), k, s.size), s.elem, ZERO, s.tag)
    if not isinstance(raw[0], Ref):
        return NotImplemented
    if n == "take" and isinstance(a[0], Enum):
        I.store(st, raw[0], NONE)
        return a[0]
    if n == "replace" and len(a) == 2:
        old = a[0]
        I.store(st, raw[0], some(a[1]) if isinstance(old, Enum) and old.key == OPTION and fn.get("recv") == "Option" else a[1])
        return old
    if n == "insert" and fn.get("recv") == "Option":
        I.store(st, raw[0], some(a[1]))
        return Ref(raw[0].cell, raw[0].path + (("v", 1), ("f", 0)))
    return NotImplemented


@on("swap")
def _swap(I, st, fn, a, raw):
    if fn["crate"] in ("core", "std") and len(raw) == 2 and isinstance(raw[0], Ref) and isinstance(raw[1], Ref):
        I.store(st, raw[0], a[1])
        I.store(st, raw[1], a[0])
        return UNIT
    return NotImplemented


@on("branch")
def _branch(I, st, fn, a, raw):
    e = a[0]
    if not isinstance(e, Enum):
        return Opq("branch")
    if e.key == OPTION:
        return Enum(CFLOW, "ControlFlow", {0: e.alts.get(1, (FALSE, ())), 1: (e.alts.get(0, (FALSE,))[0], (NONE,))})
    if e.key == CFLOW:
        return e
    g, f = e.alts.get(1, (FALSE, (None,)))
    return Enum(CFLOW, "ControlFlow", {0: e.alts.get(0, (FALSE, ())), 1: (g, (Enum(RESULT, "Result", {1: (TRUE, f)}),))})


def convert(I, st, v, frm, to):
    if frm == to:
        return v
    im, b = I.find_impl("core::convert::From", [to, frm])
    if im is not None and "from" in im["items"]:
        return I.call_local(im["items"]["from"], b, [v], st)
    return v


@on("from_residual")
def _from_residual(I, st, fn, a, raw):
    e = a[0]
    ts = fn["args"]
    if not isinstance(e, Enum):
        return Opq("residual")
    if e.key == OPTION:
        return NONE
    if 1 not in e.alts:
        raise Diverge()
    v = e.alts[1][1][0]
    try:
        to, frm = ts[0]["args"][1], ts[1]["args"][1]
    except (KeyError, IndexError):
        return err(v)
    return err(convert(I, st, v, frm, to))


@on("from_output")
def _from_output(I, st, fn, a, raw):
    t = fn["args"][0]
    return ok(a[0]) if t.get("name") == "Result" else some(a[0])


def array_from(v):
    s = seq_of(v)
    if s is not None and isinstance(v, Tup) and v.items and all(isinstance(x, Tup) for x in v.items):
        rows = [array_from(x) for x in v.items]
        body = rows[-1].at(D[1])
        for k in range(len(rows) - 2, -1, -1):
            body = merge(TT.eq(D[0], num(k)), rows[k].at(D[1]), body)
        return Arr([num(len(rows)), rows[0].shape[0]], body)
    if s is None:
        return None
    s = norm_seq(s)
    if isinstance(s.elem, Opq) and s.size is ZERO:
        return Arr([ZERO], ZERO)
    return Arr([s.size], vsubst(s.elem, {SQ: D[0]}))


@on("from", "into", "try_from", "try_into", "from_vec", "from_iter", "arr1", "arr2", "aview1")
def _from(I, st, fn, a, raw):
    n, ts = fn["name"], fn["args"]
    v = a[0] if a else None
    if fn.get("recv") == "Zip":
        return Struct("$zip", "Zip", (raw[0],))
    to = ts[0] if ts else {"k": "other"}
    frm = ts[1] if len(ts) > 1 else {"k": "other"}
    if n in ("into", "try_into"):
        to, frm = frm, to
        im, b = I.find_impl("core::convert::From", [to, frm])
        if im is not None and "from" in im["items"]:
            return I.call_local(im["items"]["from"], b, [v], st)
    if fn.get("trait") == "NumCast" or (fn["crate"] == "num_traits" and n == "from"):
        return numcast(I, st, v, fn["args"][0] if fn["args"] else None, fn["args"][1] if len(fn["args"]) > 1 else None)
    if n in ("from_vec", "from_iter", "arr1", "arr2", "aview1") or to.get("name") == "ArrayBase":
        r = v if isinstance(v, Arr) else array_from(v)
        return r if r is not None else Opq("array from unknown")
    if to.get("name") in ("SliceInfoElem", "Slice"):
        return slice_elem(v)
    if n in ("try_from", "try_into"):
        return ok(v)
    if to.get("name") == "Option":
        return some(v)
    if to.get("name") in ("Vec",):
        return seq_of(v) or NotImplemented
    if isinstance(v, B) and to.get("k") == "prim":
        return ite(v, ONE, ZERO)
    return v


INTNAMES = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def numcast(I, st, v, to=None, frm=None):
    """a conversion between number types: exact, except that a fraction is cut off on the way to an integer"""
    if isinstance(v, Opq):
        return some(v)
    v = scal(v)
    while frm is not None and frm["k"] == "ref":
        frm = frm["t"]
    if to is not None and frm is not None and to.get("k") == "prim" and to["name"] in INTNAMES and not (frm.get("k") == "prim" and frm["name"] in INTNAMES) and not (v.op == "num" and v.args[0].denominator == 1):
        v = app("trunc", v)
    if I.cfg.get("cast") == "sym":
        g = TT.bapp("representable", v)
        if v.op == "num":
            g = TRUE
        return some(v, g)
    return some(v)


@on("to_u8", "to_u16", "to_u32", "to_i8", "to_i16", "to_i32")
def _to_narrow(I, st, fn, a, raw):
    """conversions that fail where the value does not fit"""
    if isinstance(a[0], Opq):
        return some(a[0])
    n = fn["name"][3:]
    bits = int(n[1:])
    lo, hi = (0, 2 ** bits) if n[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
    v = scal(a[0])
    r = numcast(I, st, v, {"k": "prim", "name": n}, fn["args"][0] if fn["args"] else None)
    if v.op == "num" and lo <= v.args[0] < hi:
        return r
    t = app("trunc", v)
    g = TT.le(num(lo), t) & TT.lt(t, num(hi))
    return some(r.alts[1][1][0], g)


@on("to_f64", "to_f32", "from_f64", "from_f32", "from_usize", "to_usize", "cast", "from_u16", "from_u64", "from_i32", "from_u32", "from_i64", "to_u64", "to_i64")
def _cast(I, st, fn, a, raw):
    to = fn["name"][3:] if fn["name"].startswith("to_") else None
    return numcast(I, st, a[0], {"k": "prim", "name": to} if to else None, fn["args"][0] if fn["args"] else None)


@on("as_")
def _as(I, st, fn, a, raw):
    return a[0]


def default_of(I, t):
    if t["k"] == "prim":
        return FALSE if t["name"] == "bool" else ZERO
    if t.get("name") == "Vec":
        return Seq(ZERO, Opq("empty"))
    if t.get("name") == "Option":
        return NONE
    if t.get("name") == "String":
        return Str("")
    if t["k"] == "param":
        return ZERO
    if t["k"] == "tuple":
        return Tup([default_of(I, x) for x in t["ts"]])
    if t.get("name") in ("OnceCell",):
        return Struct("$once", "OnceCell", (NONE,))
    if t["k"] == "adt" and t["key"] in I.adts and not I.adts[t["key"]]["enum"]:
        env = dict(zip([g for g in I.adts[t["key"]]["generics"] if g], t["args"]))
        return Struct(t["key"], t["name"], [default_of(I, I.sty(f["ty"], env)) for f in I.adts[t["key"]]["variants"][0]["fields"]])
    return Opq("default")


@on("default")
def _default(I, st, fn, a, raw):
    return default_of(I, fn["args"][0]) if fn["args"] else Opq("default")


# ---- comparison traits
@on("eq", "ne", "lt", "le", "gt", "ge")
def _cmp(I, st, fn, a, raw):
    return compare(I, st, fn["name"], a[0], a[1])


@on("total_cmp", "cmp")
def _tcmp(I, st, fn, a, raw):
    return OrdV(scal(a[0]), scal(a[1]), fn["name"] == "total_cmp")


@on("partial_cmp")
def _pcmp(I, st, fn, a, raw):
    x, y = scal(a[0]), scal(a[1])
    g = ~(isnan(x) | isnan(y))
    return Enum(OPTION, "Option", {1: (g, (OrdV(x, y, False),)), 0: (~g, ())})


@on("reverse", "is_gt", "is_lt", "is_ge", "is_le", "is_eq", "is_ne")
def _ordm(I, st, fn, a, raw):
    v = a[0]
    n = fn["name"]
    if not isinstance(v, OrdV):
        return NotImplemented
    if n == "reverse":
        return OrdV(v.y, v.x, v.total)
    e = ord_enum(v).alts
    g = lambda k: e.get(k, (FALSE,))[0]
    return {"is_gt": g(1), "is_lt": g(-1), "is_eq": g(0), "is_ne": ~g(0), "is_ge": ~g(-1), "is_le": ~g(1)}[n]


# ---- arithmetic traits
@on("add", "sub", "mul", "div")
def _arith(I, st, fn, a, raw):
    return ewise(I, st, fn["name"], a[0], a[1], fn["name"])


@on("add_assign", "sub_assign", "mul_assign", "div_assign")
def _arith_assign(I, st, fn, a, raw):
    cur = a[0]
    op = fn["name"][:3]
    r = ewise(I, st, op, cur, a[1], fn["name"])
    if isinstance(cur, Arr) and isinstance(r, Arr) and len(r.shape) != len(cur.shape):
        r = Opq("in-place broadcast")
    I.store(st, raw[0], r)
    return UNIT


@on("neg", "not")
def _neg(I, st, fn, a, raw):
    v = a[0]
    if fn["name"] == "not":
        return ~v if isinstance(v, B) else Opq("not")
    if isinstance(v, Arr):
        return Arr(v.shape, fneg(I, scal(v.body)))
    if isinstance(v, Opq):
        return v
    return fneg(I, scal(v))


@on("rem", "pow_")
def _rem(I, st, fn, a, raw):
    return TT.app("rem", scal(a[0]), scal(a[1]))


# ---- scalar numeric functions
@on(*F1)
def _f1(I, st, fn, a, raw):
    if fn["name"] == "signum" and isinstance(a[0], B):
        return NotImplemented
    return F1[fn["name"]](I, a[0])


@on("powi", "powf", "pow")
def _pow(I, st, fn, a, raw):
    e = scal(a[1])
    if isinstance(a[0], Opq):
        return a[0]
    f = lambda x: TT.power(x, e.args[0]) if e.op == "num" else TT.app("powf", x, e)
    return Arr(a[0].shape, f(scal(a[0].body))) if isinstance(a[0], Arr) else f(scal(a[0]))


@on("pow2")
def _pow2(I, st, fn, a, raw):
    return ewise(I, st, "mul", a[0], a[0])


@on("mul_add")
def _mul_add(I, st, fn, a, raw):
    return ewise(I, st, "add", ewise(I, st, "mul", a[0], a[1]), a[2])


@on("abs_sub")
def _abs_sub(I, st, fn, a, raw):
    d = TT.sub(scal(a[0]), scal(a[1]))
    return ite(TT.lt(d, ZERO), ZERO, d)


@on("epsilon", "infinity", "neg_infinity", "nan", "one", "zero", "min_positive_value", "max_value", "min_value", "half", "two")
def _consts(I, st, fn, a, raw):
    return {"epsilon": TT.var("eps"), "infinity": INF, "neg_infinity": NINF, "nan": NAN, "one": ONE, "zero": ZERO,
            "min_positive_value": TT.var("tiny"), "max_value": TT.var("huge"), "min_value": TT.neg(TT.var("huge")),
            "half": num(Fraction(1, 2)), "two": num(2)}[fn["name"]]


@on("is_zero", "is_one", "is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal")
def _tests(I, st, fn, a, raw):
    n = fn["name"]
    x = scal(a[0])
    if n == "is_zero":
        return TT.eq(x, ZERO)
    if n == "is_one":
        return TT.eq(x, ONE)
    if n == "is_nan":
        return isnan(x)
    if x.op == "num" and n == "is_finite":
        return TRUE
    return TT.bapp(n, x)


@on("max", "min")
def _maxmin(I, st, fn, a, raw):
    n = fn["name"]
    if len(a) == 1:
        s = seq_of(a[0])
        return Opq(n)
    x, y = scal(a[0]), scal(a[1])
    if x.op == "num" and y.op == "num":
        return num(max(x.args[0], y.args[0]) if n == "max" else min(x.args[0], y.args[0]))
    if TT.integral(x) and TT.integral(y):
        c = TT.lt(x, y)
        return ite(c, y, x) if n == "max" else ite(c, x, y)
    return TT.app("f" + n, x, y)


@on("clamp")
def _clamp(I, st, fn, a, raw):
    return TT.app("fmin", TT.app("fmax", scal(a[0]), scal(a[1])), scal(a[2]))


@on("saturating_sub")
def _satsub(I, st, fn, a, raw):
    x, y = scal(a[0]), scal(a[1])
    c = TT.lt(x, y)
    return ite(c, ZERO, TT.sub(x, y))


@on("checked_sub")
def _chksub(I, st, fn, a, raw):
    x, y = scal(a[0]), scal(a[1])
    c = TT.lt(x, y)
    return some(TT.sub(x, y), ~c)


@on("wrapping_sub", "wrapping_add")
def _wrap(I, st, fn, a, raw):
    return (TT.sub if "sub" in fn["name"] else TT.add)(scal(a[0]), scal(a[1]))


# ---- ranges
@on("contains")
def _contains(I, st, fn, a, raw):
    r, x = a
    if isinstance(r, Struct):
        x = scal(x)
        f = r.fields
        if r.name == "RangeInclusive":
            return TT.le(scal(f[0]), x) & TT.le(x, scal(f[1]))
        if r.name == "Range":
            return TT.le(scal(f[0]), x) & TT.lt(x, scal(f[1]))
        if r.name == "RangeFrom":
            return TT.le(scal(f[0]), x)
        if r.name == "RangeTo":
            return TT.lt(x, scal(f[0]))
        if r.name == "RangeToInclusive":
            return TT.le(x, scal(f[0]))
    return boolean(Opq("contains"))


# ---- closures
@on("call", "call_mut", "call_once")
def _call(I, st, fn, a, raw):
    args = a[1].items if isinstance(a[1], Tup) else [a[1]]
    return I.apply(raw[0], list(args), st)


# ---- once cells: memoised pure computation
@on("get_or_init", "get_or_try_init")
def _once(I, st, fn, a, raw):
    f = a[1]
    I.event("once", st, f.key if isinstance(f, Clo) else "?")
    if not I.cfg.get("memo") or not isinstance(raw[0], Ref) or not isinstance(a[0], Struct) or a[0].key != "$once":
        return I.apply(raw[1], [], st)
    # with state: the initialiser runs where the cell is empty
    cell = a[0].fields[0]
    full, old = cell.alts.get(1, (FALSE, (None,)))
    fallible = fn["name"] == "get_or_try_init"
    wrap = (lambda v: ok(v)) if fallible else (lambda v: v)
    if constrain(full, st.pc) is TRUE:
        return wrap(old[0])
    s1 = st.copy()
    s1.pc = st.pc & ~full
    try:
        v = I.apply(raw[1], [], s1)
        v = I.load(s1, v) if isinstance(v, Ref) else v
    except Diverge:
        if (st.pc & full) is FALSE:
            raise
        st.pc = st.pc & full
        return wrap(old[0])
    if fallible:
        if not isinstance(v, Enum):
            I.store(s1, raw[0], Opq("memo cell"))
        elif 0 in v.alts:
            g, w = v.alts[0]
            x = I.load(s1, w[0]) if isinstance(w[0], Ref) else w[0]
            I.store(s1, raw[0], Struct("$once", "OnceCell", (Enum(OPTION, "Option", {0: (~g, ()), 1: (g, (x,))}),)))
    else:
        I.store(s1, raw[0], Struct("$once", "OnceCell", (some(v),)))
    if full is FALSE:
        st.set_(s1)
        return v
    s2 = st.copy()
    s2.pc = st.pc & full
    c = constrain(full, st.pc)
    st.set_(merge_states([s2, s1]))
    return merge(c, wrap(old[0]), v)


def once_content(v):
    return v.fields[0] if isinstance(v, Struct) and v.key == "$once" and v.fields else None


# ---- ndarray: shape queries
@on("len", "count")
def _len(I, st, fn, a, raw):
    if isinstance(a[0], Struct) and a[0].key == "$filter":
        s, g = a[0].fields
        return sum_all(Arr([s.size], vsubst(ite(g, ONE, ZERO), {SQ: D[0]})))
    return length(I, st, a[0])


@on("is_empty")
def _isempty(I, st, fn, a, raw):
    return TT.eq(length(I, st, a[0]), ZERO)


@on("nrows", "ncols", "dim", "shape", "raw_dim", "len_of", "ndim", "as_array_view")
def _shape(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    if not isinstance(v, Arr):
        return Opq(n)
    if n == "nrows":
        return v.shape[0]
    if n == "ncols":
        return v.shape[1]
    if n == "len_of":
        return v.shape[axis_of(a[1])]
    if n == "ndim":
        return num(len(v.shape))
    if n == "dim" and len(v.shape) == 1:
        return v.shape[0]
    return Tup(v.shape)


# ---- ndarray: constructors
@on("from_elem", "zeros", "ones", "eye", "from_diag", "from_shape_fn", "from_shape_vec", "from_fn")
def _ctor(I, st, fn, a, raw):
    n = fn["name"]
    if n == "from_diag":
        v = a[0]
        return Arr([v.shape[0]] * 2, merge(TT.eq(D[0], D[1]), scal(v.at(D[0])), ZERO))
    sh = shape_arg(a[0])
    if sh is None:
        return Opq(n)
    if n == "zeros":
        return Arr(sh, ZERO)
    if n == "ones":
        return Arr(sh, ONE)
    if n == "from_elem":
        return Arr(sh, a[1] if isinstance(a[1], (T, B)) else scal(a[1]))
    if n == "eye":
        return Arr([sh[0]] * 2, merge(TT.eq(D[0], D[1]), ONE, ZERO))
    if n == "from_shape_fn":
        ix = [idx("e") for _ in sh]
        arg = ix[0] if len(sh) == 1 and not isinstance(a[0], Tup) else Tup(ix)
        r = pure_each(I, st, ix, sh, lambda s: I.apply(raw[1], [arg], s))
        return Arr(sh, back(r, ix))
    return NotImplemented


# ---- ndarray: element-wise
@on("mapv", "mapv_into", "map", "mapv_into_any")
def _map(I, st, fn, a, raw):
    v = a[0]
    if isinstance(v, Arr):
        return mapv(I, st, v, raw[1])
    if isinstance(v, Enum):
        if v.key == OPTION:
            return on_enum(I, st, v, {1: lambda s, f: some(I.apply(raw[1], [f[0]], s)), 0: lambda s, f: NONE})
        return on_enum(I, st, v, {0: lambda s, f: ok(I.apply(raw[1], [f[0]], s)), 1: lambda s, f: err(f[0])})
    if isinstance(v, Tup):
        return Tup([I.apply(raw[1], [x], st) for x in v.items])
    if isinstance(v, Struct) and v.key == "$filter":
        s, g = v.fields
        k = idx("q")
        e = vsubst(s.elem, {SQ: k})
        r = pure_each(I, st, [k], [s.size], lambda t: I.apply(raw[1], [e], t))
        return Struct("$filter", "$filter", (Seq(s.size, vsubst(r, {k: SQ})), g))
    s = seq_of(v)
    if s is not None:
        s = norm_seq(s)
        if s.size is ZERO:
            return s
        k = idx("q")
        r = pure_each(I, st, [k], [s.size], lambda t: I.apply(raw[1], [s.at(k)], t))
        return Seq(s.size, vsubst(r, {k: SQ}), ZERO, None)
    return Opq("map of unknown")


def cellvar(I, st, v):
    c = ("$tmp", next(I.fid))
    st.cells[c] = v
    return Ref(c)


@on("mapv_inplace", "map_inplace", "par_mapv_inplace", "map_mut")
def _mapin(I, st, fn, a, raw):
    v = a[0]
    if not isinstance(v, Arr):
        havoc_arg(I, st, raw[0])
        return UNIT
    if fn["name"] == "mapv_inplace":
        I.store(st, raw[0], mapv(I, st, v, raw[1]))
        return UNIT
    ix, e = freshen(v)
    r = cellvar(I, st, e)

    def go(s):
        I.apply(raw[1], [r], s)
        return UNIT
    pure_each2(I, st, ix, v.shape, go, {r.cell})
    I.store(st, raw[0], Arr(v.shape, back(scal(I.load(st, r)), ix)))
    return UNIT


def pure_each2(I, st, ix, sizes, fn, allowed):
    pc0 = st.pc
    before = dict(st.cells)
    v = fn(st)
    for k in list(st.cells):
        if k in before and k not in allowed and not same(st.cells[k], before[k]):
            st.cells[k] = Opq("mutated inside an element closure")
    if st.pc is not pc0:
        extra = constrain(st.pc, pc0)
        for i, s in zip(ix, sizes):
            extra = all_over(extra, i, s)
        st.pc = pc0 & extra
        if st.pc is FALSE:
            raise Diverge()
    return v


@on("assign", "fill", "scaled_add", "zip_mut_with", "assign_to")
def _assign(I, st, fn, a, raw):
    cur, n = a[0], fn["name"]
    if n == "fill":
        I.store(st, raw[0], Arr(cur.shape, scal(a[1])) if isinstance(cur, Arr) else Opq("fill"))
        return UNIT
    if not isinstance(cur, Arr):
        havoc_arg(I, st, raw[0])
        return UNIT
    if n == "assign":
        v = a[1]
        if isinstance(v, Arr):
            sh, m1, m2 = bshape(I, st, cur.shape, v.shape, "assign")
            v = Arr(cur.shape, v.at(*m2))
        I.store(st, raw[0], v)
        return UNIT
    if n == "scaled_add":
        I.store(st, raw[0], ewise(I, st, "add", cur, ewise(I, st, "mul", a[2], a[1])))
        return UNIT
    if n == "zip_mut_with":
        v = a[1]
        sh, m1, m2 = bshape(I, st, cur.shape, v.shape, n)
        ix = [idx("e") for _ in cur.shape]
        e1 = cur.at(*ix)
        e2 = vsubst(v.at(*m2), {D[k]: i for k, i in enumerate(ix)})
        r = cellvar(I, st, e1)
        pure_each2(I, st, ix, cur.shape, lambda s: I.apply(raw[2], [r, e2], s), {r.cell})
        I.store(st, raw[0], Arr(cur.shape, back(scal(I.load(st, r)), ix)))
        return UNIT
    return NotImplemented


# ---- ndarray: views
@on("t", "reversed_axes", "insert_axis", "index_axis", "index_axis_move", "row", "column", "diag", "slice", "slice_move", "to_shape", "into_shape_with_order", "remove_axis", "slice_axis", "broadcast", "swap_axes_", "into_shape")
def _views(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    if not isinstance(v, Arr):
        return Opq(f"{n} of unknown")
    r = len(v.shape)
    if n in ("t", "reversed_axes"):
        if r < 2:
            return v
        i = [idx("x"), idx("x")]
        e = v.at(*i)
        return Arr([v.shape[1], v.shape[0]], vsubst(e, {i[1]: D[0], i[0]: D[1]}))
    if n == "insert_axis":
        ax = axis_of(a[1])
        sh = list(v.shape)
        sh.insert(ax, ONE)
        ix = [D[k] for k in range(r + 1) if k != ax]
        f = [idx("x") for _ in range(r)]
        e = v.at(*f)
        return Arr(sh, vsubst(e, dict(zip(f, ix))))
    if n in ("index_axis", "index_axis_move", "row", "column"):
        ax = {"row": 0, "column": 1}.get(n)
        if ax is None:
            ax = axis_of(a[1])
            i = scal(a[2])
        else:
            i = scal(a[1])
        if i.op == "num":
            I.bounds(st, Arr([v.shape[ax]], ZERO), (i,))
        f = [idx("x") for _ in range(r)]
        e = v.at(*f)
        m = {}
        j = 0
        for k in range(r):
            if k == ax:
                m[f[k]] = i
            else:
                m[f[k]] = D[j]
                j += 1
        return Arr([s for k, s in enumerate(v.shape) if k != ax], vsubst(e, m))
    if n == "remove_axis":
        ax = axis_of(a[1])
        return call(I, st, {**fn, "name": "index_axis"}, [v, a[1], ZERO])
    if n == "diag":
        f = [idx("x"), idx("x")]
        return Arr([v.shape[0]], vsubst(v.at(*f), {f[0]: D[0], f[1]: D[0]}))
    if n in ("slice", "slice_move"):
        sh, ix = do_slice(I, st, v.shape, a[1])
        f = [idx("x") for _ in range(r)]
        return Arr(sh, vsubst(v.at(*f), dict(zip(f, ix))))
    if n in ("to_shape", "into_shape_with_order", "into_shape"):
        want = a[1]
        while isinstance(want, Tup) and want.items and isinstance(want.items[0], Tup):
            want = want.items[0]
        sh = shape_arg(want) if not (isinstance(want, Tup) and any(not isinstance(x, (T,)) for x in want.items)) else None
        if sh is None and isinstance(want, Tup) and isinstance(want.items[0], T):
            sh = [want.items[0]]
        if sh is not None and len(sh) == r and all(dim_eq(x, y) for x, y in zip(sh, v.shape)):
            return ok(v)
        if sh is not None and r == 1 and len(sh) == 2:
            if sh[1] is ONE and dim_eq(sh[0], v.shape[0]):
                return ok(Arr(sh, v.body))
            if sh[0] is ONE and dim_eq(sh[1], v.shape[0]):
                f = [idx("x")]
                return ok(Arr(sh, vsubst(v.at(*f), {f[0]: D[1]})))
        return Opq("reshape")
    if n == "broadcast":
        sh = shape_arg(a[1])
        if sh is None:
            return Opq(n)
        o, m1, m2 = bshape(I, st, sh, v.shape, n)
        return some(Arr(sh, v.at(*m2)))
    return NotImplemented


@on("row_mut", "column_mut", "diag_mut", "slice_mut", "index_axis_mut")
def _mutviews(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    base = raw[0]
    if not isinstance(base, (Ref, MutView)):
        base = cellvar(I, st, v)
    if isinstance(base, MutView):
        base = cellvar(I, st, base)
    if not isinstance(v, Arr):
        return MutView(base, (), ())
    r = len(v.shape)
    if n == "diag_mut":
        return MutView(base, [v.shape[0]], [D[0], D[0]])
    if n == "slice_mut":
        sh, ix = do_slice(I, st, v.shape, a[1])
        return MutView(base, sh, ix)
    ax = {"row_mut": 0, "column_mut": 1}.get(n)
    if ax is None:
        ax, i = axis_of(a[1]), scal(a[2])
    else:
        i = scal(a[1])
    ix, j = [], 0
    for k in range(r):
        if k == ax:
            ix.append(i)
        else:
            ix.append(D[j])
            j += 1
    return MutView(base, [s for k, s in enumerate(v.shape) if k != ax], ix)


@on("new_unchecked")
def _sliceinfo(I, st, fn, a, raw):
    if fn.get("recv") == "SliceInfo":
        return Struct("$slice", "SliceInfo", [slice_elem(x) for x in a[0].items])
    return NotImplemented


@on("multi_slice", "multi_slice_mut")
def _nope(I, st, fn, a, raw):
    return NotImplemented


def index_terms(v):
    if isinstance(v, T):
        return (v,)
    if isinstance(v, Tup):
        return tuple(scal(x) for x in v.items)
    return None


def _onceset(I, st, fn, a, raw):
    c = once_content(a[0])
    if c is None or not isinstance(raw[0], Ref) and fn["name"] != "get":
        return NotImplemented
    full, old = c.alts.get(1, (FALSE, ()))
    if fn["name"] in ("take", "into_inner"):
        if fn["name"] == "take":
            I.store(st, raw[0], Struct("$once", "OnceCell", (NONE,)))
        return c
    if fn["name"] == "get":
        return c
    v = some(a[1])
    I.store(st, raw[0], Struct("$once", "OnceCell", (merge(full, c, v) if full is not FALSE else v,)))
    return Enum(RESULT, "Result", {0: (~full, (UNIT,)), 1: (full, (a[1],))})


@on("index", "get", "uget", "get_unchecked")
def _index(I, st, fn, a, raw):
    if isinstance(a[1], Struct) and isinstance(a[0], (Seq, Tup)):
        return NotImplemented
    ix = index_terms(a[1])
    if ix is None or isinstance(a[0], Opq):
        return Opq("index")
    if fn["name"] == "get":
        v = a[0]
        n = length(I, st, v) if not (isinstance(v, Arr) and len(v.shape) == 2) else None
        if n is None:
            c = TT.lt(ix[0], v.shape[0]) & TT.lt(ix[1], v.shape[1])
        else:
            c = TT.lt(ix[0], n)
        e0 = len(I.events)
        r = I.proj(st, v, ("i", ix))
        del I.events[e0:]
        return some(r, c)
    return I.proj(st, a[0], ("i", ix))


@on("index_mut", "uget_mut")
def _index_mut(I, st, fn, a, raw):
    ix = index_terms(a[1])
    if ix is None:
        havoc_arg(I, st, raw[0])
        return Opq("index_mut")
    if isinstance(a[0], Arr):
        I.bounds(st, a[0], ix)
    b = raw[0]
    if isinstance(b, MutView):
        b = cellvar(I, st, b)
    if not isinstance(b, Ref):
        return Opq("index_mut")
    return Ref(b.cell, b.path + (("i", ix),))


# ---- reductions
@on("sum", "mean", "product", "sum_axis", "mean_axis", "weighted_sum", "weighted_mean", "std", "var", "var_axis", "std_axis")
def _reduce(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    if isinstance(v, Struct) and v.key == "$filter" and n == "sum":
        s, g = v.fields
        if not isinstance(s.elem, (T, B)):
            return Opq(n)
        v = Arr([s.size], vsubst(ite(g, scal(s.elem), ZERO), {SQ: D[0]}))
    if not isinstance(v, Arr):
        s = seq_of(v)
        if s is None or n not in ("sum", "product"):
            return Opq(n)
        s = norm_seq(s)
        v = Arr([s.size], vsubst(s.elem, {SQ: D[0]}))
        if isinstance(v.body, B):
            v = Arr(v.shape, scal(v.body))
        if not isinstance(v.body, T):
            return Opq(n)
    if n == "sum":
        return sum_all(v)
    if n == "sum_axis":
        return sum_axis(v, axis_of(a[1]))
    if n == "mean":
        N = length(I, st, v)
        z = TT.eq(N, ZERO)
        return some(TT.div(sum_all(v), N), ~z)
    if n == "mean_axis":
        ax = axis_of(a[1])
        s = sum_axis(v, ax)
        return some(Arr(s.shape, TT.div(s.body, v.shape[ax])), ~TT.eq(v.shape[ax], ZERO))
    if n in ("var", "std"):
        N = length(I, st, v)
        mu = TT.div(sum_all(v), N)
        d = Arr(v.shape, TT.power(TT.sub(scal(v.body), mu), 2))
        t = TT.div(sum_all(d), TT.sub(N, scal(a[1])))
        return t if n == "var" else TT.sqrt(t)
    if n in ("var_axis", "std_axis"):
        ax = axis_of(a[1])
        N = v.shape[ax]
        mu = sum_axis(v, ax)
        mu = Arr(mu.shape, TT.div(mu.body, N))
        mu = call(I, st, {**fn, "name": "insert_axis"}, [mu, a[1]])
        d = ewise(I, st, "sub", v, mu)
        d = Arr(d.shape, TT.power(d.body, 2))
        s = sum_axis(d, ax)
        t = TT.div(s.body, TT.sub(N, scal(a[2])))
        return Arr(s.shape, t if n == "var_axis" else TT.sqrt(t))
    return NotImplemented


@on("dot")
def _dot(I, st, fn, a, raw):
    return dot(I, st, a[0], a[1])


@on("general_mat_vec_mul", "general_mat_mul")
def _gemm(I, st, fn, a, raw):
    al, x, y, be = a[0], a[1], a[2], a[3]
    r = ewise(I, st, "mul", dot(I, st, x, y), al)
    if scal(be) is not ZERO:
        r = ewise(I, st, "add", r, ewise(I, st, "mul", a[4], be))
    I.store(st, raw[4], r)
    return UNIT


@on("outer", "kron_")
def _outer(I, st, fn, a, raw):
    return NotImplemented


@on("concatenate", "stack", "append")
def _concat(I, st, fn, a, raw):
    n = fn["name"]
    if n == "append":
        return NotImplemented
    ax = axis_of(a[0])
    parts = a[1].items if isinstance(a[1], Tup) else None
    if parts is None:
        return Opq("concatenate")
    parts = [I.load(st, p) for p in parts]
    if n == "stack":
        parts = [call(I, st, {**fn, "name": "insert_axis"}, [p, a[0]]) for p in parts]
    return ok(concat(I, st, ax, parts))


@on("inv", "inv_into")
def _inv(I, st, fn, a, raw):
    if not isinstance(a[0], Arr):
        return Opq("inverse of unknown")
    return linalg_result(I, st, a[0], inverse(I, st, a[0]))


@on("solveh", "solveh_into", "solve", "solve_into", "solveh_inplace", "solve_inplace", "solvec", "solvec_into")
def _solve(I, st, fn, a, raw):
    if not (isinstance(a[0], Arr) and isinstance(a[1], Arr)):
        return Opq("solve of unknown")
    r = dot(I, st, inverse(I, st, a[0]), a[1])
    if fn["name"].endswith("inplace"):
        I.store(st, raw[1], r)
    return linalg_result(I, st, a[0], r)


# ---- Zip
@on("and")
def _zipand(I, st, fn, a, raw):
    z = a[0]
    if isinstance(z, Struct) and z.key == "$zip":
        return Struct("$zip", "Zip", z.fields + (raw[1],))
    if isinstance(z, Enum):
        return on_enum(I, st, z, {0: (lambda s, f: NONE) if z.key == OPTION else (lambda s, f: a[1]), 1: (lambda s, f: a[1]) if z.key == OPTION else (lambda s, f: err(f[0]))})
    return NotImplemented


@on("indexed")
def _zindexed(I, st, fn, a, raw):
    return Struct("$zip", "Zip", (Str("indexed"), raw[0]))


def zip_elems(I, st, z):
    fs = list(z.fields)
    vals = [I.load(st, f) for f in fs]
    shp = next(v.shape for v in vals if isinstance(v, Arr))
    ix = [idx("e") for _ in shp]
    els, muts = [], []
    for f, v in zip(fs, vals):
        if isinstance(v, Str):
            els.append(ix[0] if len(ix) == 1 else Tup(ix))
            continue
        if not isinstance(v, Arr):
            return None
        for p, q in zip(shp, v.shape):
            if not dim_eq(p, q):
                g = ~TT.eq(p, q)
                I.event("shape", st, f"Zip: {show(p)} vs {show(q)}", g)
                st.pc = st.pc & ~g
                if st.pc is FALSE:
                    raise Diverge()
        e = v.at(*ix)
        if isinstance(f, (Ref, MutView)):
            r = cellvar(I, st, e)
            muts.append((f, r, v))
            els.append(r)
        else:
            els.append(e)
    return shp, ix, els, muts


@on("map_collect", "apply_collect")
def _zipmap(I, st, fn, a, raw):
    z = zip_elems(I, st, a[0])
    if z is None:
        return Opq("zip of unknown")
    shp, ix, els, muts = z
    r = pure_each(I, st, ix, shp, lambda s: I.apply(raw[1], els, s))
    return Arr(shp, back(r if isinstance(r, (T, B)) else scal(r), ix))


@on("for_each", "apply")
def _foreach(I, st, fn, a, raw):
    v = a[0]
    if isinstance(v, Struct) and v.key == "$zip":
        z = zip_elems(I, st, v)
        if z is None:
            for f in v.fields:
                havoc_arg(I, st, f)
            havoc_arg(I, st, raw[1])
            return UNIT
        shp, ix, els, muts = z
        if len(shp) == 1:
            # sequential over the axis: closures may accumulate
            import loops
            from interp import Frame

            def step(s, k):
                e2 = []
                cells = []
                for f, el in zip(v.fields, els):
                    if isinstance(f, (Ref, MutView)):
                        arr = I.load(s, f)
                        if isinstance(f, MutView):
                            f = cellvar(I, s, f)
                        e2.append(Ref(f.cell, f.path + (("i", (k,)),)))
                    else:
                        e2.append(vsubst(el, {ix[0]: k}) if not isinstance(el, Str) else k)
                I.apply(raw[1], e2, s)
            loops.iterate(I, st, shp[0], step)
            return UNIT
        pure_each2(I, st, ix, shp, lambda s: I.apply(raw[1], els, s), {r.cell for _, r, _ in muts})
        for f, r, arr in muts:
            I.store(st, f, Arr(arr.shape, back(scal(I.load(st, r)), ix)))
        return UNIT
    s = seq_of(v)
    if s is None:
        havoc_arg(I, st, raw[1])
        return UNIT
    s = norm_seq(s)
    import loops
    loops.iterate(I, st, s.size, lambda t, k: I.apply(raw[1], [s.at(k)], t))
    return UNIT


@on("fold")
def _fold(I, st, fn, a, raw):
    v = a[0]
    guard = lambda k: TRUE
    if isinstance(v, Struct) and v.key == "$zip":
        z = zip_elems(I, st, v)
        if z is None or len(z[0]) != 1 or z[3]:
            return Opq("fold")
        shp, ix, els, _ = z
        get = lambda k: [vsubst(e, {ix[0]: k}) for e in els]
        size = shp[0]
    elif isinstance(v, Struct) and v.key == "$filter":
        s, g = v.fields
        get = lambda k: [s.at(k)]
        size = s.size
        guard = lambda k: vsubst(g, {SQ: k})
    else:
        s = seq_of(v)
        if s is None:
            return Opq("fold")
        s = norm_seq(s)
        get = lambda k: [s.at(k)]
        size = s.size
        if s.tag and s.tag[0] == "steps" and isinstance(a[1], Enum) and set(k for k, (c, _) in a[1].alts.items() if c is not FALSE) == {0}:
            # the best so far, starting from none
            k1, k2 = idx("a"), idx("b")
            first = I.apply(raw[2], [a[1], s.at(k2)], st)
            if isinstance(first, Enum) and first.alts.get(1, (FALSE,))[0] is TRUE:
                v = I.apply(raw[2], [some(s.at(k1)), s.at(k2)], st)
                run = s.tag[1]
                if isinstance(v, Enum) and v.alts.get(1, (FALSE,))[0] is TRUE:
                    run["select"] = ("reduce", v.alts[1][1][0], k1, k2)
                    return run["best"]
            return Opq("fold")
    import loops
    r = cellvar(I, st, a[1])

    def step(t, k):
        c = guard(k)
        old = I.load(t, r)
        x = cases(I, t, [(c, lambda u: I.apply(raw[2], [old] + get(k), u)), (~c, lambda u: old)]) if c is not TRUE else I.apply(raw[2], [old] + get(k), t)
        I.store(t, r, x)
    loops.iterate(I, st, size, step)
    return I.load(st, r)


@on("all", "any")
def _allany(I, st, fn, a, raw):
    v = a[0]
    if isinstance(v, Struct) and v.key == "$zip":
        z = zip_elems(I, st, v)
        if z is None:
            return boolean(Opq("all"))
        shp, ix, els, _ = z
    else:
        if isinstance(v, Struct) and v.key == "$filter":
            s, g = v.fields
            k = idx("q")
            r = boolean(pure_each(I, st, [k], [s.size], lambda t: I.apply(raw[1], [s.at(k)], t)))
            g = vsubst(g, {SQ: k})
            t = all_over(~g | (~r if fn["name"] == "any" else r), k, s.size)
            return ~t if fn["name"] == "any" else t
        if isinstance(v, Arr):
            ix, e = freshen(v)
            shp = v.shape
            els = [e]
        else:
            s = seq_of(v)
            if s is None:
                return boolean(Opq("all"))
            s = norm_seq(s)
            ix = [idx("q")]
            shp = [s.size]
            els = [s.at(ix[0])]
    r = pure_each(I, st, ix, shp, lambda t: I.apply(raw[1], els, t))
    r = boolean(r)
    if fn["name"] == "any":
        r = ~r
    for i, s in zip(ix, shp):
        r = all_over(r, i, s)
    return ~r if fn["name"] == "any" else r


# ---- iterators
@on("iter", "into_iter", "rows", "outer_iter", "columns", "axis_iter", "into_iter_sorted_", "genrows", "lanes", "drain_")
def _iter(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    if isinstance(raw[0], Ref) and n == "into_iter" and isinstance(v, (Seq,)) and v.tag != "vec":
        # `for x in &mut iter`: keep the iterator cell
        return raw[0] if isinstance(I.read(st, raw[0].cell, raw[0].path), Seq) and _is_mutref_iter(fn) else v
    if n == "into_iter" and fn["args"] and fn["args"][0]["k"] == "ref" and fn["args"][0].get("mut") and isinstance(raw[0], Ref) and isinstance(v, Arr):
        return _iter_mut(I, st, {**fn, "name": "iter_mut"}, a, raw)
    if isinstance(v, Arr):
        r = len(v.shape)
        if r == 1:
            return Seq(v.shape[0], v.at(SQ))
        if r == 2 and n in ("rows", "outer_iter", "axis_iter", "columns", "genrows", "lanes"):
            ax = 0 if n in ("rows", "outer_iter", "genrows") else 1 if n == "columns" else axis_of(a[1])
            if n == "lanes":
                ax = 1 - ax
            f = [idx("x"), idx("x")]
            m = {f[ax]: SQ, f[1 - ax]: D[0]}
            return Seq(v.shape[ax], Arr([v.shape[1 - ax]], vsubst(v.at(*f), m)))
        if r == 2 and n in ("iter", "into_iter"):
            q = TT.app("idiv", SQ, v.shape[1])
            return Seq(TT.mul(v.shape[0], v.shape[1]), v.at(q, TT.sub(SQ, TT.mul(q, v.shape[1]))))
        return Opq("iteration of 2-d array")
    s = seq_of(v)
    if s is not None:
        return s
    if isinstance(v, Struct) and v.key == "$once":
        return v
    return raw[0] if isinstance(v, Struct) else Opq("iter")


def _is_mutref_iter(fn):
    return bool(fn["args"]) and fn["args"][0]["k"] == "ref"


@on("iter_mut", "rows_mut", "outer_iter_mut", "axis_iter_mut", "columns_mut", "genrows_mut")
def _iter_mut(I, st, fn, a, raw):
    v, n = a[0], fn["name"]
    b = raw[0]
    if isinstance(b, MutView):
        b = cellvar(I, st, b)
    if not isinstance(b, Ref) or not isinstance(v, (Arr, Seq, Tup)):
        havoc_arg(I, st, raw[0])
        return Opq(n)
    if isinstance(v, Arr) and len(v.shape) == 2:
        if n == "iter_mut":
            havoc_arg(I, st, raw[0])
            return Opq(n)
        ax = 0 if n in ("rows_mut", "outer_iter_mut", "genrows_mut") else 1 if n == "columns_mut" else axis_of(a[1])
        ix = [SQ, D[0]] if ax == 0 else [D[0], SQ]
        return Seq(v.shape[ax], MutView(b, [v.shape[1 - ax]], ix))
    return Seq(length(I, st, v), Ref(b.cell, b.path + (("i", (SQ,)),)))


@on("enumerate", "zip", "rev", "skip", "chain", "indexed_iter", "peekable", "fuse", "inspect_", "map_while_", "step_by", "izip", "zip_eq")
def _adapters(I, st, fn, a, raw):
    n = fn["name"]
    if n == "zip" and isinstance(a[0], Enum):
        x, y = a
        if isinstance(y, Enum) and 1 in x.alts and 1 in y.alts:
            return some(Tup([x.alts[1][1][0], y.alts[1][1][0]]), x.alts[1][0] & y.alts[1][0])
        return NONE if isinstance(y, Enum) else NotImplemented
    if n == "indexed_iter" and isinstance(a[0], Arr) and len(a[0].shape) == 1:
        return Seq(a[0].shape[0], Tup([SQ, a[0].at(SQ)]))
    s = seq_of(a[0])
    if s is None:
        return Opq(n)
    s = norm_seq(s)
    if n in ("peekable", "fuse"):
        return s
    if n == "enumerate":
        return Seq(s.size, Tup([SQ, s.elem]))
    if n in ("zip", "zip_eq", "izip"):
        t = seq_of(a[1])
        if t is None:
            return Opq(n)
        t = norm_seq(t)
        size = s.size if dim_eq(s.size, t.size) else ite(TT.lt(s.size, t.size), s.size, t.size)
        return Seq(size, Tup([s.elem, t.elem]))
    if n == "rev":
        return Seq(s.size, vsubst(s.elem, {SQ: TT.sub(TT.sub(s.size, ONE), SQ)}))
    if n == "step_by":
        k = scal(a[1])
        return Seq(TT.app("idiv", TT.sub(TT.add(s.size, k), ONE), k), vsubst(s.elem, {SQ: TT.mul(SQ, k)}))
    if n == "skip":
        k = scal(a[1])
        return Seq(TT.sub(s.size, k), vsubst(s.elem, {SQ: TT.add(SQ, k)}))
    if n == "chain":
        t = seq_of(a[1])
        if t is None:
            return Opq(n)
        t = norm_seq(t)
        return Seq(TT.add(s.size, t.size), merge(TT.lt(SQ, s.size), s.elem, vsubst(t.elem, {SQ: TT.sub(SQ, s.size)})))
    return NotImplemented


@on("next")
def _next(I, st, fn, a, raw):
    v = a[0]
    if isinstance(v, Struct) and v.name == "Range" and isinstance(raw[0], Ref):
        i, n = v.fields
        c = TT.lt(i, n)
        I.store(st, raw[0], Struct(v.key, v.name, (ite(c, TT.add(i, ONE), i), n)))
        return some(i, c)
    if isinstance(v, Seq) and isinstance(raw[0], Ref):
        c = TT.lt(v.pos, v.size)
        I.store(st, raw[0], Seq(v.size, v.elem, ite(c, TT.add(v.pos, ONE), v.pos), v.tag))
        return some(v.at(v.pos), c)
    if isinstance(raw[0], Ref):
        havoc_arg(I, st, raw[0])
    return Opq("next of unknown iterator")


@on("push")
def _push(I, st, fn, a, raw):
    v = a[0]
    if not isinstance(v, Seq):
        havoc_arg(I, st, raw[0])
        return UNIT
    if isinstance(v.elem, Opq) and v.size is ZERO:
        e = a[1]
    else:
        e = merge(TT.eq(SQ, v.size), a[1], v.elem)
    I.store(st, raw[0], Seq(TT.add(v.size, ONE), e, v.pos, v.tag))
    return UNIT


@on("extend", "pop", "clear", "truncate", "sort_by", "retain")
def _vecmut(I, st, fn, a, raw):
    if fn["name"] == "clear":
        I.store(st, raw[0], Seq(ZERO, Opq("empty")))
        return UNIT
    return NotImplemented


@on("last", "first")
def _last(I, st, fn, a, raw):
    s = seq_of(a[0])
    if s is None:
        return Opq("last")
    s = norm_seq(s)
    if s.size is ZERO:
        return NONE
    return some(s.at(TT.sub(s.size, ONE) if fn["name"] == "last" else ZERO), TT.lt(ZERO, s.size))


@on("collect", "try_collect", "collect_vec")
def _collect(I, st, fn, a, raw):
    s = seq_of(a[0])
    if s is None:
        return Opq("collect of unknown")
    s = norm_seq(s)
    ts = fn["args"]
    to = ts[1] if len(ts) > 1 else {"k": "other"}
    if to.get("name") in ("Result", "Option") and isinstance(s.elem, Enum):
        return collect_fallible(I, st, s, to)
    return collect_into(I, st, s, to)


def collect_into(I, st, s, to):
    if to.get("name") in ("ArrayBase",):
        return array_from(s)
    return Seq(s.size, s.elem, ZERO, None)


def collect_fallible(I, st, s, to):
    e = s.elem
    if not isinstance(e, Enum):
        return Opq("collect")
    good = 0 if e.key == RESULT else 1
    g, f = e.alts.get(good, (FALSE, (Opq("none"),)))
    k = idx("q")
    okc = all_over(subst(g, {SQ: k}), k, s.size)
    inner = collect_into(I, st, Seq(s.size, f[0]), to["args"][0] if to.get("args") else {"k": "other"})
    # first failing element
    first = TT.opaque("first-failing")
    bad = e.alts.get(1 - good, (FALSE, ()))
    bf = tuple(vsubst(x, {SQ: first}) for x in bad[1])
    return Enum(e.key, e.name, {good: (okc, (inner,)), 1 - good: (~okc, bf)})


@on("max_by", "min_by", "max_by_key", "reduce")
def _maxby(I, st, fn, a, raw):
    s = seq_of(a[0])
    if s is None:
        return Opq("max_by")
    s = norm_seq(s)
    if s.tag and s.tag[0] == "steps":
        k1, k2 = idx("a"), idx("b")
        run = s.tag[1]
        o = I.apply(raw[1], [s.at(k1), s.at(k2)], st) if fn["name"] != "max_by_key" else (I.apply(raw[1], [s.at(k1)], st), I.apply(raw[1], [s.at(k2)], st))
        run["select"] = (fn["name"], o, k1, k2)
        return run["best"]
    return Opq("max_by")


@on("process_results")
def _process(I, st, fn, a, raw):
    import runs
    return runs.process_results(I, st, fn, a, raw)


# ---- distributions
@on("cdf", "sf", "inverse_cdf", "pdf", "ln_pdf", "pmf", "mean_", "variance_", "ln_pmf")
def _dist(I, st, fn, a, raw):
    d = a[0]
    n = fn["name"]
    if not (isinstance(d, Struct) and d.key == "$dist"):
        return Opq("distribution")
    nm = d.fields[0].s
    ps = [scal(x) for x in d.fields[1:]]
    x = scal(a[1])
    if n == "cdf":
        return TT.app(f"cdf_{nm}", *ps, x)
    if n == "sf":
        return TT.sub(ONE, TT.app(f"cdf_{nm}", *ps, x))
    if n == "inverse_cdf":
        return TT.app(f"icdf_{nm}", *ps, x)
    return TT.app(f"{n}_{nm}", *ps, x)
