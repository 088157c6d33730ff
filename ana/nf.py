"""Normal forms: tensor polynomials over canonical atoms, closed under symbolic-axis summation.

nf(t) is a polynomial with rational coefficients whose monomials are products of atoms; sums over symbolic
axes are canonical contractions (alpha-renaming, factor order and nesting do not matter).  Two terms with
equal normal forms are equal for every shape and every value (real arithmetic).
"""
from fractions import Fraction
import itertools
from terms import *
import terms as TT


class TooBig(Exception):
    pass


LIMIT = 20000
POSITIVE = {"w", "f"}           # input atoms assumed positive (weights)
POSITIVE_FN = {"variance", "exp", "sd"}


class Atom:
    __slots__ = ("kind", "data", "fv", "h", "id")

    def __repr__(self):
        return ashow(self)


class Poly:
    __slots__ = ("d", "id", "fv", "h", "ind")

    def __repr__(self):
        return pshow(self)


_atoms = {}
_polys = {}
_c = itertools.count()


def mkatom(kind, *data):
    key = (kind,) + tuple(("P", x.id) if isinstance(x, Poly) else (("A", x.id) if isinstance(x, Atom) else (("T", x.id) if isinstance(x, T) else x)) for x in data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data = kind, data
        a.id = next(_c)
        fv, h = set(), 0
        for x in data:
            if isinstance(x, Poly):
                fv |= x.fv
                h = max(h, x.h)
            elif isinstance(x, T):
                fv |= x.fv
        a.fv, a.h = frozenset(fv), h
        _atoms[key] = a
    return a


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) > LIMIT:
        raise TooBig()
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.d = d
        p.id = next(_c)
        fv, h, ind = set(), 0, set()
        for m in d:
            for a, e in m:
                fv |= a.fv
                h = max(h, a.h)
                if a.kind == "ind":
                    ind.add(a)
        p.fv, p.h = frozenset(fv), h
        p.ind = frozenset(ind)
        _polys[key] = p
    return p


def const(c):
    return mkpoly({(): Fraction(c)})


P0 = const(0)
P1 = const(1)


def patom(a, e=1):
    return mkpoly({((a, Fraction(e)),): Fraction(1)})


def padd(*ps):
    d = {}
    for p in ps:
        for m, c in p.d.items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def pscale(p, c):
    return mkpoly({m: v * c for m, v in p.d.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        ne = d.get(a, 0) + e
        if a.kind == "ind":
            ne = Fraction(1)
        if ne == 0:
            del d[a]
        else:
            d[a] = ne
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


_mulc = {}


def pmul(p, q):
    if p is P0 or q is P0:
        return P0
    if p is P1:
        return q
    if q is P1:
        return p
    k = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _mulc.get(k)
    if r is not None:
        return r
    if len(p.d) * len(q.d) > LIMIT * 4:
        raise TooBig()
    d = {}
    fix = False
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mmul(m1, m2)
            # (poly)^positive integer must be expanded again
            for a, e in m:
                if a.kind == "poly" and e > 0 and e.denominator == 1:
                    fix = True
                if a.kind == "poly" and e >= 1:
                    fix = True
            d[m] = d.get(m, 0) + c1 * c2
    if fix:
        r = P0
        for m, c in d.items():
            t = const(c)
            rest = []
            for a, e in m:
                if a.kind == "poly" and e >= 1:
                    k2 = int(e)
                    t = pmul(t, ppow_int(a.data[0], k2))
                    if e - k2 != 0:
                        rest.append((a, e - k2))
                else:
                    rest.append((a, e))
            t = pmul(t, mkpoly({tuple(rest): Fraction(1)})) if rest else t
            r = padd(r, t)
    else:
        r = mkpoly(d)
    _mulc[k] = r
    return r


def ppow_int(p, k):
    r = P1
    for _ in range(k):
        r = pmul(r, p)
    return r


def isqrt(c):
    from math import isqrt as s
    if c < 0:
        return None
    a, b = s(c.numerator), s(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def positive_atom(a):
    if a.kind == "app":
        return a.data[0] in POSITIVE or a.data[0] in POSITIVE_FN
    if a.kind == "leaf":
        return a.data[0].op == "var" and a.data[0].args[0] in TT.MINVAL or (a.data[0].op == "var" and a.data[0].args[0] in ("l1", "l2", "eps", "tol", "rho"))
    if a.kind == "poly":
        return False
    if a.kind == "sum":
        return all(positive_atom(b) for b, e in a.data[-1]) if a.data[-1] else True
    return False


def ppow(p, e):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return P1
    if p.ind:
        i = min(p.ind, key=lambda a: a.id)
        hi, lo = cofactor(p, i, 1), cofactor(p, i, 0)
        return indmix(i, ppow(hi, e) if hi is not P0 or e > 0 else inf_atom(e), ppow(lo, e) if lo is not P0 or e > 0 else inf_atom(e))
    if p is P0:
        return P0 if e > 0 else inf_atom(e)
    if e.denominator == 1 and e > 0 and (len(p.d) == 1 or e <= 6):
        return ppow_int(p, int(e))
    # factor out the common monomial content
    ms = list(p.d)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            if a in dm:
                # same sign exponents: take the min in absolute value
                x, y = common[a], dm[a]
                if x * y > 0:
                    common[a] = min(x, y) if x > 0 else max(x, y)
                else:
                    del common[a]
            else:
                # a negative power present in only some monomials can be factored out as well
                del common[a]
    inv_common = tuple(sorted(((a, -x) for a, x in common.items()), key=lambda x: x[0].id))
    rest = P0
    for m, c in p.d.items():
        rest = padd(rest, mkpoly({mmul(m, inv_common): c}))
    lead = rest.d[min(rest.d, key=lambda m: tuple((a.id, e2) for a, e2 in m))]
    if e.denominator != 1 and lead < 0:
        lead = -lead
    rest = pscale(rest, 1 / lead)
    # now p = lead * common * rest
    if e.denominator == 1:
        out = const(Fraction(lead) ** int(e))
    else:
        s = isqrt(lead) if e.denominator == 2 else None
        if s is not None:
            out = const(Fraction(s) ** int(e * 2))
        else:
            out = patom(mkatom("poly", const(lead)), e)
    fac = []
    neg = []
    for a, x in common.items():
        if e.denominator == 1 or positive_atom(a):
            fac.append((a, x * e))
        elif x.denominator == 1 and int(x) % 2 == 0 and e == Fraction(1, 2):
            # sqrt(a^2k) = |a|^k
            out = pmul(out, ppow(papp("abs", [patom(a)]), x * e))
        else:
            fac.append((a, x * e))
    for a, x in fac:
        if a.kind == "ind":
            x = Fraction(1)
        out = pmul(out, mkpoly({((a, x),): Fraction(1)})) if x != 0 else out
    if rest is not P1:
        if len(rest.d) == 1 and () in rest.d:
            pass
        elif len(rest.d) == 1:
            (m, c), = rest.d.items()
            out = pmul(out, mkpoly({tuple((a, x * e) for a, x in m): Fraction(1)}))
        else:
            out = pmul(out, patom(mkatom("poly", rest), e))
    return out


def inf_atom(e):
    return patom(mkatom("leaf", INF))


def cofactor(p, i, v):
    d = {}
    for m, c in p.d.items():
        if any(a is i for a, e in m):
            if v == 0:
                continue
            m = tuple((a, e) for a, e in m if a is not i)
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def indmix(i, hi, lo):
    return padd(lo, pmul(patom(i), padd(hi, pscale(lo, -1))))


def papp(name, args):
    for k, a in enumerate(args):
        if isinstance(a, Poly) and a.ind:
            i = min(a.ind, key=lambda x: x.id)
            f = lambda v: papp(name, [cofactor(x, i, v) if isinstance(x, Poly) else x for x in args])
            return indmix(i, f(1), f(0))
    a = args[0] if args else None
    if len(args) == 1 and isinstance(a, Poly):
        if name == "abs":
            if list(a.d) == [()]:
                return const(abs(a.d[()]))
            if len(a.d) == 1:
                (m, c), = a.d.items()
                pos, rest = [], []
                for at, e in m:
                    (pos if positive_atom(at) or (e.denominator == 1 and int(e) % 2 == 0) else rest).append((at, e))
                if pos or c != 1:
                    r = mkpoly({tuple(pos): abs(c)})
                    if rest:
                        r = pmul(r, papp("abs", [mkpoly({tuple(rest): Fraction(1)})]))
                    return r
            else:
                lead = a.d[min(a.d, key=lambda m: tuple((x.id, e2) for x, e2 in m))]
                if lead < 0:
                    return papp("abs", [pscale(a, -1)])
        if name == "exp":
            if a is P0:
                return P1
        if name == "ln":
            if a is P1:
                return P0
            if list(a.d) and len(a.d) == 1:
                (m, c), = a.d.items()
                if c == 1 and len(m) == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "exp":
                    return pscale(m[0][0].data[1], m[0][1])
        if name == "ln_1p":
            return papp("ln", [padd(a, P1)])
        if name == "exp_m1":
            return padd(papp("exp", [a]), const(-1))
    return patom(mkatom("app", name, *args))


# ------------------------------------------------------------------ sums
def mk_sum(binders, mono, coef=Fraction(1)):
    """binders: list of (idxT, sizePoly); mono: tuple((atom, exp)) -> Poly"""
    binders = dict(binders)
    out = const(coef)
    # open nested contractions that share a bound index
    changed = True
    mono = list(mono)
    while changed:
        changed = False
        for q, (a, e) in enumerate(mono):
            if a.kind == "sum" and e.denominator == 1 and e > 0 and (a.fv & set(binders)):
                mono.pop(q)
                for _ in range(int(e)):
                    bs, inner = fresh_sum(a)
                    binders.update(dict(bs))
                    mono = merge(mono, inner)
                changed = True
                break
    # deltas
    for q, (a, e) in enumerate(mono):
        if a.kind == "ind" and a.data[0] == "eq":
            sol = solve_eq(a, binders)
            if sol is not None:
                v, val = sol
                rest = [x for k, x in enumerate(mono) if k != q]
                del binders[v]
                return pmul(out, sum_poly(list(binders.items()), psub(mono_poly(rest), {v: val})))
    # factors without any binder
    free = [(a, e) for a, e in mono if not (a.fv & set(binders))]
    mono = [(a, e) for a, e in mono if a.fv & set(binders)]
    for a, e in free:
        out = pmul(out, mkpoly({((a, e),): Fraction(1)}))
    # connected components
    todo = set(binders)
    while todo:
        comp = {next(iter(todo))}
        facs = []
        grow = True
        while grow:
            grow = False
            for f in mono:
                if f not in facs and f[0].fv & comp:
                    facs.append(f)
                    new = (f[0].fv & set(binders)) - comp
                    if new:
                        comp |= new
                        grow = True
        todo -= comp
        if not facs:
            for v in comp:
                out = pmul(out, binders[v])
            continue
        out = pmul(out, canon_sum([(v, binders[v]) for v in comp], facs))
    return out


def merge(m1, m2):
    d = {}
    for a, e in list(m1) + list(m2):
        d[a] = d.get(a, 0) + e
        if a.kind == "ind":
            d[a] = Fraction(1)
        if d[a] == 0:
            del d[a]
    return list(d.items())


def mono_poly(m):
    r = P1
    for a, e in m:
        r = pmul(r, mkpoly({((a, e),): Fraction(1)}))
    return r


def fresh_sum(a):
    bs, mono = a.data[0], a.data[-1]
    ren = {v: idx("s") for v, _ in bs}
    sub_ = {v: nf(t) for v, t in ren.items()}
    inner = []
    for at, e in mono:
        p = asub(at, sub_)
        (m, c), = p.d.items() if len(p.d) == 1 else (((), None),)
        if len(p.d) != 1 or p.d[m] != 1 or len(m) != 1:
            raise TooBig()
        inner.append((m[0][0], m[0][1] * e))
    return [(ren[v], s) for v, s in bs], inner


def solve_eq(a, binders):
    # data: 'eq', P, Q  integer linear
    d = padd(a.data[1], pscale(a.data[2], -1))
    for v in binders:
        la = leaf_idx(v)
        m = ((la, Fraction(1)),)
        if m in d.d and abs(d.d[m]) == 1 and sum(1 for mm in d.d if any(x is la for x, _ in mm)) == 1:
            c = d.d[m]
            rest = mkpoly({mm: cc for mm, cc in d.d.items() if mm != m})
            val = pscale(rest, -1 / c)
            # accept a single index (+ const >= 0) or a constant
            ok = all((mm == () and cc >= 0) or (len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "leaf" and mm[0][0].data[0].op == "idx" and cc == 1) for mm, cc in val.d.items())
            if ok:
                return v, val
    return None


def leaf_idx(v):
    return mkatom("leaf", v)


def canon_sum(bs, facs):
    h = 1 + max([a.h for a, e in facs] + [0])
    best = None
    vs = [v for v, _ in bs]
    sizes = {v: s for v, s in bs}
    if len(vs) > 5:
        perms = [tuple(vs)]
    else:
        perms = itertools.permutations(vs)
    for perm in perms:
        names = [TT._mk("idx", f"#{h}_{k}") for k in range(len(perm))]
        sub_ = {v: patom(leaf_idx(nm)) for v, nm in zip(perm, names)}
        try:
            fs = []
            for a, e in facs:
                p = asub(a, sub_)
                if len(p.d) != 1:
                    raise TooBig()
                (m, c), = p.d.items()
                if c != 1:
                    raise TooBig()
                for aa, ee in m:
                    fs.append((aa, ee * e))
            fs = tuple(sorted(merge(fs, []), key=lambda x: x[0].id))
        except TooBig:
            raise
        key = (tuple(sizes[v].id for v in perm), tuple((a.id, e) for a, e in fs))
        if best is None or key < best[0]:
            best = (key, [(nm, sizes[v]) for v, nm in zip(perm, names)], fs)
    key, nb, fs = best
    k = ("sum",) + key
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.data = "sum", (nb, fs)
        a.id = next(_c)
        fv = set()
        for at, e in fs:
            fv |= at.fv
        fv -= {v for v, _ in nb}
        a.fv, a.h = frozenset(fv), h
        _atoms[k] = a
    return patom(a)


def sum_poly(binders, p):
    r = P0
    for m, c in p.d.items():
        r = padd(r, mk_sum(list(binders), m, c))
    return r


# ------------------------------------------------------------------ substitution on normal forms
_psc = {}


def psub(p, m):
    m = {k: v for k, v in m.items() if k in p.fv}
    if not m:
        return p
    key = (p.id, tuple(sorted((k.id, v.id) for k, v in m.items())))
    r = _psc.get(key)
    if r is None:
        r = P0
        for mono, c in p.d.items():
            t = const(c)
            for a, e in mono:
                q = asub(a, m)
                t = pmul(t, ppow(q, e) if e != 1 else q)
            r = padd(r, t)
        _psc[key] = r
    return r


_asc = {}


def asub(a, m):
    if not (a.fv & set(m)):
        return patom(a)
    key = (a.id, tuple(sorted((k.id, v.id) for k, v in m.items() if k in a.fv)))
    r = _asc.get(key)
    if r is not None:
        return r
    k = a.kind
    if k == "leaf":
        r = m.get(a.data[0], patom(a))
    elif k == "app":
        r = papp(a.data[0], [psub(x, m) if isinstance(x, Poly) else x for x in a.data[1:]])
    elif k == "poly":
        r = psub(a.data[0], m)
    elif k == "ind":
        r = mk_ind(a.data[0], [psub(x, m) if isinstance(x, Poly) else x for x in a.data[1:]])
    elif k == "sum":
        nb, fs = a.data
        t = P1
        for at, e in fs:
            q = asub(at, m)
            t = pmul(t, ppow(q, e) if e != 1 else q)
        # rename the binders apart first if the substituted values mention them (cannot: heights)
        r = sum_poly(nb, t)
    elif k == "inv":
        rr, cc, size, body, x, y = a.data
        r = mk_inv(rr, cc, size, psub(body, {k2: v for k2, v in m.items() if k2 not in (rr, cc)}), psub(x, m), psub(y, m))
    else:
        raise TooBig()
    _asc[key] = r
    return r


def mk_ind(kind, args):
    """indicator of a comparison atom"""
    for k, a in enumerate(args):
        if isinstance(a, Poly) and a.ind:
            i = min(a.ind, key=lambda x: x.id)
            f = lambda v: mk_ind(kind, [cofactor(x, i, v) if isinstance(x, Poly) else x for x in args])
            return indmix(i, f(1), f(0))
    if kind in ("eq", "lt", "le") and all(isinstance(x, Poly) for x in args):
        d = padd(args[0], pscale(args[1], -1))
        if list(d.d) in ([()], []):
            c = d.d.get((), Fraction(0))
            v = {"eq": c == 0, "lt": c < 0, "le": c <= 0}[kind]
            return P1 if v else P0
        if int_poly(d):
            lo, hi = bounds(d), bounds(pscale(d, -1))
            if kind == "eq" and ((lo is not None and lo > 0) or (hi is not None and hi > 0)):
                return P0
            if kind == "lt" and lo is not None and lo >= 0:
                return P0
            if kind == "lt" and hi is not None and hi > 0:
                return P1
            if kind == "le" and lo is not None and lo > 0:
                return P0
            if kind == "le" and hi is not None and hi >= 0:
                return P1
        lead = d.d[min(d.d, key=lambda m: tuple((a.id, e2) for a, e2 in m))]
        if kind == "eq":
            d = pscale(d, 1 / lead)
            return patom(mkatom("ind", "eq", d, P0))
        d = pscale(d, 1 / abs(lead))
        return patom(mkatom("ind", kind, d, P0))
    if kind == "isnan":
        pass
    return patom(mkatom("ind", kind, *args))


def int_poly(p):
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.kind == "leaf" and (a.data[0].op == "idx" or (a.data[0].op == "var" and a.data[0].args[0] in TT.MINVAL)):
                continue
            return False
    return True


def bounds(p):
    """lower bound over idx>=0, sizes>=min"""
    lo = Fraction(0)
    for m, c in p.d.items():
        if m == ():
            lo += c
        elif len(m) == 1 and m[0][1] == 1:
            t = m[0][0].data[0]
            if c < 0:
                return None
            if t.op == "var":
                lo += c * TT.MINVAL[t.args[0]]
        else:
            return None
    return lo


_ivc = itertools.count()
_IR, _IC = TT._mk("idx", "#ir"), TT._mk("idx", "#ic")


def mk_inv(rr, cc, size, body, x, y):
    h = body.h + 1
    nr, nc = TT._mk("idx", f"#r{h}"), TT._mk("idx", f"#c{h}")
    b2 = psub(body, {rr: patom(leaf_idx(nr)), cc: patom(leaf_idx(nc))})
    # symmetric matrices have symmetric inverses: order the outer indices canonically
    sw = psub(psub(b2, {nr: patom(leaf_idx(_IR)), nc: patom(leaf_idx(_IC))}), {_IR: patom(leaf_idx(nc)), _IC: patom(leaf_idx(nr))})
    if sw is b2 and x.id > y.id:
        x, y = y, x
    key = ("inv", nr.id, nc.id, size.id, b2.id, x.id, y.id)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data = "inv", (nr, nc, size, b2, x, y)
        a.id = next(_c)
        a.fv = frozenset((b2.fv - {nr, nc}) | x.fv | y.fv)
        a.h = max(h, x.h, y.h)
        _atoms[key] = a
    return patom(a)


# ------------------------------------------------------------------ terms -> normal forms
_nfc = {}


def nf(t):
    r = _nfc.get(t.id)
    if r is None:
        r = _nf(t)
        _nfc[t.id] = r
    return r


def split_size(size):
    """size = 1 + rest ?"""
    r = TT.lin(size)
    if r is None:
        return None
    d, c = r
    if c >= 1 and d:
        return TT.add(size, num(-1))
    return None


def _nf(t):
    o, a = t.op, t.args
    if o == "num":
        return const(a[0])
    if o in ("var", "idx", "const"):
        return patom(mkatom("leaf", t))
    if o == "add":
        return padd(nf(a[0]), nf(a[1]))
    if o == "neg":
        return pscale(nf(a[0]), -1)
    if o == "mul":
        return pmul(nf(a[0]), nf(a[1]))
    if o == "div":
        return pmul(nf(a[0]), ppow(nf(a[1]), -1))
    if o == "pow":
        return ppow(nf(a[0]), a[1])
    if o in ("app", "opaque"):
        return papp(("?" if o == "opaque" else "") + str(a[0]), [nf(x) if isinstance(x, T) else (nfb(x) if isinstance(x, B) else x) for x in a[1:]])
    if o == "sum":
        v, size, body = a
        rest = split_size(size)
        if rest is not None:
            head = nf(subst(body, {v: ZERO}))
            w = idx("t")
            tail = subst(body, {v: TT.add(w, ONE)})
            return padd(head, nf(tsum(w, rest, tail)))
        return sum_poly([(v, nf(size))], nf(body))
    if o == "ite":
        c = a[0]
        return nf_ite(c, a[1], a[2])
    if o == "inv":
        rr, cc, size, body, x, y = a
        return mk_inv(rr, cc, nf(size), nf(body), nf(x), nf(y))
    raise TooBig(o)


def nf_ite(c, x, y):
    if c is TRUE:
        return nf(x)
    if c is FALSE:
        return nf(y)
    i = nf_batom(c.atom)
    hi, lo = nf_ite(c.hi, x, y), nf_ite(c.lo, x, y)
    return padd(lo, pmul(i, padd(hi, pscale(lo, -1))))


def nfb(c):
    """boolean as 0/1 polynomial"""
    if c is TRUE:
        return P1
    if c is FALSE:
        return P0
    i = nf_batom(c.atom)
    hi, lo = nfb(c.hi), nfb(c.lo)
    return padd(lo, pmul(i, padd(hi, pscale(lo, -1))))


def nf_batom(at):
    if at.op in ("eq", "lt", "le", "isnan"):
        return mk_ind(at.op, [nf(x) for x in at.args])
    if at.op == "bool":
        return mk_ind("bool", [at.args[0]])
    if at.op == "all":
        v, size, body = at.args
        h = TT._mk("idx", "#all")
        return mk_ind("all", [nf(size), nfb(TT.subst(body, {v: h}))])
    return mk_ind(at.op, [nf(x) if isinstance(x, T) else (nfb(x) if isinstance(x, B) else str(x)) for x in at.args])


# ------------------------------------------------------------------ zero test
def is_zero(t, rounds=6):
    """True: proved identically zero.  False: not proved."""
    try:
        p = nf(t)
        for _ in range(rounds):
            if not p.d:
                return True
            dens = {}
            for m in p.d:
                for a, e in m:
                    if a.kind == "poly" and e < 0:
                        dens[a] = min(dens.get(a, 0), e)
            if not dens:
                return False
            a = min(dens, key=lambda x: len(x.data[0].d))
            k = -dens[a]
            p = pmul(p, mkpoly({((a, k),): Fraction(1)})) if k.denominator != 1 else _clear(p, a, int(k))
        return not p.d
    except (TooBig, RecursionError):
        return False


def _clear(p, a, k):
    r = P0
    for m, c in p.d.items():
        e0 = dict(m).get(a, Fraction(0))
        rest = tuple((x, e) for x, e in m if x is not a)
        n = e0 + k
        t = mkpoly({rest: c})
        if n.denominator == 1:
            t = pmul(t, ppow_int(a.data[0], int(n)))
        else:
            ip = n.numerator // n.denominator
            t = pmul(pmul(t, ppow_int(a.data[0], ip)), mkpoly({((a, n - ip),): Fraction(1)}))
        r = padd(r, t)
    return r


def ashow(a):
    if a.kind == "leaf":
        return str(a.data[0].args[0])
    if a.kind == "app":
        return f"{a.data[0]}({', '.join(map(str, a.data[1:]))})"
    if a.kind == "sum":
        nb, fs = a.data
        return f"Σ[{','.join(str(v.args[0]) for v, _ in nb)}]({'·'.join(ashow(x) + ('' if e == 1 else f'^{e}') for x, e in fs)})"
    return f"{a.kind}({', '.join(map(str, a.data))})"


def pshow(p):
    if not p.d:
        return "0"
    return " + ".join((f"{c}" if not m else ("" if c == 1 else f"{c}·") + "·".join(ashow(a) + ("" if e == 1 else f"^{e}") for a, e in m)) for m, c in p.d.items())
