"""Loop summaries: havoc the cells a loop modifies, analyse the body once from the havocked state, then solve the
resulting recurrences (sums, point updates, pushes, conjunctions); what cannot be solved stays havocked."""
from values import *
import terms as TT
from interp import Diverge, Give, merge_states, St, Enum, OPTION, constrain

_lc = [0]


def fresh(n):
    _lc[0] += 1
    return f"{n}#{_lc[0]}"


# ------------------------------------------------------------------ restriction by a path condition
def b_restrict(f, g):
    if g is TRUE or f is TRUE or f is FALSE or g is FALSE:
        return f
    memo = {}

    def go(f, g):
        if f is TRUE or f is FALSE or g is TRUE:
            return f
        if g is FALSE:
            return f
        k = (f.id, g.id)
        if k in memo:
            return memo[k]
        fo, go_ = TT._ord(f.atom), TT._ord(g.atom)
        if go_ < fo:
            r = go(f, g.hi | g.lo)
        elif fo < go_:
            r = TT._mkb(f.atom, go(f.hi, g), go(f.lo, g))
        elif g.hi is FALSE:
            r = go(f.lo, g.lo)
        elif g.lo is FALSE:
            r = go(f.hi, g.hi)
        else:
            r = TT._mkb(f.atom, go(f.hi, g.hi), go(f.lo, g.lo))
        memo[k] = r
        return r
    return go(f, g)


def t_restrict(t, g, memo):
    if isinstance(t, B):
        return b_restrict(t, g)
    k = t.id
    if k in memo:
        return memo[k]
    if t.op in ("num", "const", "var", "idx", "bool"):
        r = t
    elif t.op == "ite":
        c = b_restrict(t.args[0], g)
        r = ite(c, t_restrict(t.args[1], g, memo), t_restrict(t.args[2], g, memo))
    elif t.op in ("sum", "inv", "all"):
        r = t if not any(isinstance(x, (T, B)) for x in t.args) else _map(t, lambda x: t_restrict(x, g, memo))
    else:
        r = _map(t, lambda x: t_restrict(x, g, memo))
    memo[k] = r
    return r


def _map(t, f):
    na = tuple(f(x) if isinstance(x, (T, B)) else x for x in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        return t
    if t.op == "sum":
        return TT.tsum(*na)
    return TT.rebuild(t.op, na)


def v_restrict(v, g, memo=None):
    if g is TRUE:
        return v
    memo = {} if memo is None else memo
    f = lambda x: v_restrict(x, g, memo)
    if isinstance(v, T):
        return t_restrict(v, g, memo)
    if isinstance(v, B):
        return b_restrict(v, g)
    if isinstance(v, Arr):
        return Arr([f(s) for s in v.shape], f(v.body))
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [f(x) for x in v.fields])
    if isinstance(v, Tup):
        return Tup([f(x) for x in v.items])
    if isinstance(v, Seq):
        return Seq(f(v.size), f(v.elem), f(v.pos), v.tag)
    if isinstance(v, Enum):
        alts = {}
        for k, (c, fs) in v.alts.items():
            c2 = b_restrict(c, g)
            if (c2 & g) is FALSE:
                continue
            alts[k] = (c2, tuple(f(x) for x in fs))
        return Enum(v.key, v.name, alts)
    if isinstance(v, Gate):
        al = [(b_restrict(c, g), f(x)) for c, x in v.alts if (c & g) is not FALSE]
        return al[0][1] if len(al) == 1 else Gate(al)
    return v


# ------------------------------------------------------------------ havoc
class Sym:
    """one havocked leaf"""
    __slots__ = ("t", "old", "kind", "args", "closed", "path")

    def __init__(self, t, old, kind, args, path):
        self.t, self.old, self.kind, self.args, self.path = t, old, kind, args, path
        self.closed = None          # fn(k) -> value after k iterations


class Havoc:
    def __init__(self, tag):
        self.tag = tag
        self.syms = {}              # path -> Sym
        self.changed = False
        self.byterm = {}

    def leaf_t(self, path, old, new, args):
        s = self.syms.get(path)
        if s is None:
            self.changed = True
            name = fresh(self.tag)
            intg = not args and TT.integral(old) and (new is None or TT.integral(new))
            t = TT._mk("idx", name) if intg else (TT.app(name, *args) if args else TT.var(name))
            s = self.syms[path] = Sym(t, old, "T", args, path)
        return s.t

    def leaf_b(self, path, old, args):
        s = self.syms.get(path)
        if s is None:
            self.changed = True
            name = fresh(self.tag)
            t = TT.bapp(name, *args) if args else TT.boolvar(name)
            s = self.syms[path] = Sym(t, old, "B", args, path)
        return s.t

    def is_sym(self, path):
        return path in self.syms

    def go(self, H, N, path, args):
        """new header value given header value H and value N after one iteration"""
        if path in self.syms:
            return H
        if same(H, N):
            return H
        if isinstance(H, T) and isinstance(N, T):
            return self.leaf_t(path, H, N, args)
        if isinstance(H, B) and isinstance(N, B):
            return self.leaf_b(path, H, args)
        if isinstance(H, Arr) and isinstance(N, Arr) and len(H.shape) == len(N.shape) and all(dim_eq(x, y) for x, y in zip(H.shape, N.shape)):
            return Arr(H.shape, self.go(H.body, N.body, path + ("a",), args + tuple(D[:len(H.shape)])))
        if isinstance(H, Struct) and isinstance(N, Struct) and H.key == N.key and len(H.fields) == len(N.fields):
            return Struct(H.key, H.name, [self.go(a, b, path + (i,), args) for i, (a, b) in enumerate(zip(H.fields, N.fields))])
        if isinstance(H, Tup) and isinstance(N, Tup) and len(H.items) == len(N.items):
            return Tup([self.go(a, b, path + (i,), args) for i, (a, b) in enumerate(zip(H.items, N.items))])
        if isinstance(H, Clo) and isinstance(N, Clo) and H.key == N.key:
            return Clo(H.key, [self.go(a, b, path + (i,), args) for i, (a, b) in enumerate(zip(H.caps, N.caps))], H.env)
        if isinstance(H, Seq) and isinstance(N, Seq):
            e = H.elem
            if isinstance(e, Opq) and e.desc == "empty":
                e = self.template(N.elem, path + ("e",), args + (SQ,))
            else:
                e = self.go(H.elem, N.elem, path + ("e",), args + (SQ,))
            return Seq(self.go(H.size, N.size, path + ("s",), args), e, self.go(H.pos, N.pos, path + ("p",), args), H.tag)
        if isinstance(H, Enum) and isinstance(N, Enum) and H.key == N.key:
            alts = {}
            vs = sorted(set(H.alts) | set(N.alts))
            rest = TRUE
            for v in vs:
                if v == vs[-1]:
                    g = rest
                else:
                    hc = H.alts.get(v, (FALSE,))[0]
                    g = rest & self.leaf_b(path + ("g", v), hc, args)
                    rest = rest & ~g
                hf, nf = H.alts.get(v, (0, None))[1], N.alts.get(v, (0, None))[1]
                if hf is None or nf is None:
                    f = tuple(self.template(x, path + ("v", v, i), args) for i, x in enumerate(hf if nf is None else nf))
                else:
                    f = tuple(self.go(a, b, path + ("v", v, i), args) for i, (a, b) in enumerate(zip(hf, nf)))
                alts[v] = (g, f)
            self.syms[path] = Sym(None, None, "E", args, path)
            return Enum(H.key, H.name, alts)
        if isinstance(H, (Ref, MutView)) and isinstance(N, (Ref, MutView)) and same(H, N):
            return H
        if not isinstance(H, Opq):
            self.changed = True
        self.syms[path] = Sym(None, H, "O", args, path)
        return Opq("loop-varying")

    def template(self, v, path, args):
        """fresh unknown of the same form as v"""
        if isinstance(v, T):
            return self.leaf_t(path, TT.opaque(fresh("uninit")), v, args or (SQ,))
        if isinstance(v, B):
            return self.leaf_b(path, FALSE, args)
        if isinstance(v, Arr):
            return Arr(v.shape, self.template(v.body, path + ("a",), args + tuple(D[:len(v.shape)])))
        if isinstance(v, Struct):
            return Struct(v.key, v.name, [self.template(x, path + (i,), args) for i, x in enumerate(v.fields)])
        if isinstance(v, Tup):
            return Tup([self.template(x, path + (i,), args) for i, x in enumerate(v.items)])
        return Opq("loop-varying")


def leaf_at(v, path):
    """the sub-value of v at a havoc path (or None)"""
    for p in path:
        if v is None:
            return None
        if p == "a":
            v = v.body if isinstance(v, Arr) else None
        elif p == "e":
            v = v.elem if isinstance(v, Seq) else None
        elif p == "s":
            v = v.size if isinstance(v, Seq) else None
        elif p == "p":
            v = v.pos if isinstance(v, Seq) else None
        elif isinstance(p, int) and isinstance(v, Struct):
            v = v.fields[p]
        elif isinstance(p, int) and isinstance(v, Tup):
            v = v.items[p]
        elif isinstance(p, int) and isinstance(v, Clo):
            v = v.caps[p]
        else:
            return None
    return v


# ------------------------------------------------------------------ occurrences
def occurs(v, names, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, T):
        if v.id in memo:
            return memo[v.id]
        r = (v.op in ("var", "idx", "app") and v.args[0] in names) or any(occurs(x, names, memo) for x in v.args if isinstance(x, (T, B)))
        memo[v.id] = r
        return r
    if isinstance(v, B):
        k = ("b", v.id)
        if k not in memo:
            if v.atom is None:
                memo[k] = False
            else:
                a = v.atom
                memo[k] = (a.op in ("bool", "bapp") and a.args[0] in names) or any(occurs(x, names, memo) for x in a.args if isinstance(x, (T, B))) or occurs(v.hi, names, memo) or occurs(v.lo, names, memo)
        return memo[k]
    if isinstance(v, Arr):
        return occurs(v.body, names, memo) or any(occurs(s, names, memo) for s in v.shape)
    if isinstance(v, (Struct, Tup, Clo)):
        return any(occurs(x, names, memo) for x in (v.fields if isinstance(v, Struct) else v.items if isinstance(v, Tup) else v.caps))
    if isinstance(v, Seq):
        return occurs(v.size, names, memo) or occurs(v.elem, names, memo) or occurs(v.pos, names, memo)
    if isinstance(v, Enum):
        return any(occurs(c, names, memo) or any(occurs(x, names, memo) for x in f) for c, f in v.alts.values())
    if isinstance(v, Gate):
        return any(occurs(c, names, memo) or occurs(x, names, memo) for c, x in v.alts)
    return False


def name_of(t):
    if isinstance(t, B):
        return t.atom.args[0]
    return t.args[0]


def lincoef(t, s):
    """t = c*s + r with numeric c, r free of s  -> (c, r) or None"""
    if t is s:
        return Fraction(1), ZERO
    if not occurs(t, {name_of(s)}):
        return Fraction(0), t
    if t.op == "add":
        a, b = lincoef(t.args[0], s), lincoef(t.args[1], s)
        if a and b:
            return a[0] + b[0], TT.add(a[1], b[1])
    elif t.op == "neg":
        a = lincoef(t.args[0], s)
        if a:
            return -a[0], TT.neg(a[1])
    elif t.op == "mul":
        a, b = t.args
        if a.op == "num":
            r = lincoef(b, s)
            if r:
                return a.args[0] * r[0], TT.mul(a, r[1])
        if b.op == "num":
            r = lincoef(a, s)
            if r:
                return b.args[0] * r[0], TT.mul(b, r[1])
    elif t.op == "ite" and not occurs(t.args[0], {name_of(s)}):
        a, b = lincoef(t.args[1], s), lincoef(t.args[2], s)
        if a and b and a[0] == b[0]:
            return a[0], ite(t.args[0], a[1], b[1])
    return None


def find_eq_atom(t, dvars, k, acc=None, memo=None):
    """eq atoms between one of dvars and k (+const) occurring in ite conditions of t"""
    acc = [] if acc is None else acc
    memo = set() if memo is None else memo
    if isinstance(t, B):
        for a in TT.b_atoms(t):
            if a.op == "eq":
                r = TT.lin(TT.sub(a.args[0], a.args[1])) if TT.integral(a.args[0]) and TT.integral(a.args[1]) else None
                if r and k in r[0] and abs(r[0][k]) == 1:
                    ds = [d for d in dvars if d in r[0]]
                    if len(ds) == 1 and r[0][ds[0]] == -r[0][k]:
                        # d = k + off
                        sg = r[0][k]
                        off = ZERO
                        for x, c in r[0].items():
                            if x is not k and x is not ds[0]:
                                off = TT.add(off, TT.mul(num(c / sg), x))
                        off = TT.add(off, num(r[1] / sg))
                        acc.append((a, ds[0], off))
            for x in a.args:
                if isinstance(x, (T, B)):
                    find_eq_atom(x, dvars, k, acc, memo)
        return acc
    if t.id in memo:
        return acc
    memo.add(t.id)
    for x in t.args:
        if isinstance(x, (T, B)):
            find_eq_atom(x, dvars, k, acc, memo)
    return acc


def assume_atom(v, atom, val):
    g = TT.batom(atom)
    g = g if val else ~g
    return v_restrict(v, g)


def all_before(c, k, m, j=None):
    """forall j<m. c[k:=j]"""
    return all_over(c, k, m)


def solve(syms, N, k):
    """closed forms: sets Sym.closed for every solvable symbol; N maps path -> value after one iteration (in terms of
    the symbols and k)"""
    todo = [s for s in syms if s.kind in "TB" and s.path in N and N[s.path] is not None]
    names = {name_of(s.t): s for s in syms if s.t is not None}
    progress = True
    while progress:
        progress = False
        for s in list(todo):
            t = N[s.path]
            others = {n for n, o in names.items() if o is not s and o.closed is None}
            if occurs(t, others):
                continue
            # substitute solved symbols at iteration k
            m = {}
            bm = {}
            t2 = subst_closed(t, [o for o in syms if o is not s and o.closed is not None], k)
            r = solve_one(s, t2, k)
            if r is not None:
                s.closed = r
                todo.remove(s)
                progress = True
    return todo


def subst_closed(v, solved, k):
    """replace solved symbols by their closed form after k iterations"""
    solved = [o for o in solved if occurs(v, {name_of(o.t)})]
    if not solved:
        return v
    out = v
    for o in solved:
        out = replace_sym(out, o, o.closed(k))
    return out


def replace_sym(v, o, val):
    """replace every instance of symbol o (possibly applied to indices) by val (a term over o.args)"""
    n = name_of(o.t)

    def f(x):
        if o.kind == "T":
            if x.args[0] != n:
                return None
            m = {a: b for a, b in zip(o.args, x.args[1:]) if a is not b}
            return subst(val, m) if m else val
        return None
    return rewrite(v, n, o, val)


def rewrite(v, n, o, val, memo=None):
    memo = {} if memo is None else memo
    rw = lambda x: rewrite(x, n, o, val, memo)
    if isinstance(v, T):
        if v.id in memo:
            return memo[v.id]
        if o.kind == "T" and v.op in ("var", "idx", "app") and v.args[0] == n:
            args = [rw(x) for x in v.args[1:]]
            m = {a: b for a, b in zip(o.args, args) if a is not b}
            r = subst(val, m) if m else val
        else:
            na = tuple(rw(x) if isinstance(x, (T, B)) else x for x in v.args)
            if all(x is y for x, y in zip(na, v.args)):
                r = v
            elif v.op == "sum":
                r = TT.tsum(*na)
            else:
                r = TT.rebuild(v.op, na)
        memo[v.id] = r
        return r
    if isinstance(v, B):
        k = ("b", v.id)
        if k not in memo:
            if v.atom is None:
                memo[k] = v
            else:
                a = v.atom
                if o.kind == "B" and a.op in ("bool", "bapp") and a.args[0] == n:
                    args = [rw(x) for x in a.args[1:]]
                    m = {p: q for p, q in zip(o.args, args) if p is not q}
                    c = subst(val, m) if m else val
                else:
                    na = tuple(rw(x) if isinstance(x, (T, B)) else x for x in a.args)
                    if all(x is y for x, y in zip(na, a.args)):
                        c = TT.batom(a)
                    else:
                        c = {"eq": TT.eq, "lt": TT.lt, "le": TT.le, "isnan": TT.isnan, "all": TT.all_}.get(a.op, lambda *z: TT.batom(TT._mk(a.op, *z)))(*na)
                memo[k] = b_ite(c, rw(v.hi), rw(v.lo))
        return memo[k]
    if isinstance(v, Arr):
        return Arr([rw(s) for s in v.shape], rw(v.body))
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [rw(x) for x in v.fields])
    if isinstance(v, Tup):
        return Tup([rw(x) for x in v.items])
    if isinstance(v, Clo):
        return Clo(v.key, [rw(x) for x in v.caps], v.env)
    if isinstance(v, Seq):
        return Seq(rw(v.size), rw(v.elem), rw(v.pos), v.tag)
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {x: (rw(c), tuple(rw(y) for y in f)) for x, (c, f) in v.alts.items()})
    if isinstance(v, Gate):
        return Gate([(rw(c), rw(x)) for c, x in v.alts])
    if isinstance(v, MutView):
        return MutView(v.base, [rw(s) for s in v.shape], [rw(x) for x in v.ix])
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(("i", tuple(rw(t) for t in p[1])) if p[0] == "i" else p for p in v.path))
    return v


def solve_one(s, t, k):
    n = name_of(s.t)
    if s.kind == "B":
        if not isinstance(t, B):
            return None
        t1 = b_restrict(t, s.t)
        t0 = b_restrict(t, ~s.t)
        if occurs(t1, {n}) or occurs(t0, {n}):
            return None
        if t0 is FALSE:
            return lambda m: s.old & all_before(t1, k, m)
        if t1 is TRUE:
            return lambda m: s.old | ~all_before(~t0, k, m)
        if t0 is t1:
            return lambda m: b_ite(TT.eq(m, ZERO), s.old, subst(t0, {k: TT.sub(m, ONE)}))
        return None
    if not isinstance(t, T):
        return None
    if s.args:
        # element-wise: iteration k writes only the entries whose index d is k+off, so what it reads there is untouched
        for atom, d, off in find_eq_atom(t, s.args, k):
            lo = assume_atom(t, atom, False)
            if lo is not s.t:
                continue
            hi = assume_atom(t, atom, True)
            if k in off.fv or d in off.fv:
                continue
            kk = TT.sub(d, off)
            val = subst(hi, {k: kk})
            if occurs(val, {n}):
                if s.old.op == "opaque" or not same_row(val, n, s.args.index(d), d):
                    continue
                val = rewrite(val, n, s, s.old)

            def closed(m, val=val, kk=kk, d=d, off=off):
                c = TT.lt(kk, m)
                if off is not ZERO:
                    c = c & ~TT.lt(d, off)
                return ite(c, val, s.old)
            return closed
        r = solve_fixed(s, t, k)
        if r is not None:
            return r
    r = lincoef(t, s.t)
    if r is not None:
        c, g = r
        if c == 1:
            return lambda m: TT.add(s.old, ksum(g, k, m))
        if c == 0:
            return lambda m: ite(TT.eq(m, ZERO), s.old, subst(g, {k: TT.sub(m, ONE)})) if m is not k else ite(TT.eq(k, ZERO), s.old, subst(g, {k: TT.sub(k, ONE)}))
    return None


def fixed_atoms(t, dvars, k):
    """(atom, d, c) for conditions d = c in t where c does not change during the loop"""
    acc, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, B):
            if x.atom is None or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            stack += [x.hi, x.lo, x.atom]
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "eq":
            for a, b in (x.args, x.args[::-1]):
                if a in dvars and b.op == "num":
                    acc.append((x, a, b))
        stack += [a for a in x.args if isinstance(a, (T, B))]
    return acc


def solve_fixed(s, t, k):
    """element-wise: an iteration writes the entry d = c as well, for a fixed c"""
    n = name_of(s.t)
    for atom, d, c in fixed_atoms(t, s.args, k):
        pos = s.args.index(d)
        rest = assume_atom(t, atom, False)
        if rest is s.t:
            cd = lambda m: s.old
        else:
            if any(a is atom for a, _, _ in fixed_atoms(rest, s.args, k)):
                continue
            cd = solve_one(s, rest, k)
            if cd is None:
                continue
        tc = subst(t, {d: c})
        sc = subst(s.t, {d: c})
        # other entries read in iteration k: those not written before it
        offs = [off for _, d2, off in find_eq_atom(t, s.args, k) if d2 is d and k not in off.fv and d not in off.fv]
        ok = True
        for x in instances(tc, n):
            if x is sc:
                continue
            e = x.args[1 + pos]
            ahead = e is not None and any(TT.eq(e, TT.add(k, off)) is TRUE for off in offs)
            if not (ahead or not offs and rest is s.t) or TT.eq(e, c) is not FALSE or any(a is not b for i, (a, b) in enumerate(zip(x.args[1:], sc.args[1:])) if i != pos) or s.old.op == "opaque":
                ok = False
                break
        if not ok:
            continue
        hide = TT.app(fresh("here"), *sc.args[1:])
        m0 = {sc: hide}
        tc = TT.subst(tc, m0)
        tc = rewrite(tc, n, s, s.old)
        if occurs(tc, {n}):
            continue
        r = lincoef(tc, hide)
        if r is None or r[0] not in (0, 1):
            continue
        oldc = subst(s.old, {d: c})
        if r[0] == 1:
            cc = lambda m, g=r[1]: TT.add(oldc, ksum(g, k, m))
        else:
            cc = lambda m, g=r[1]: ite(TT.eq(m, ZERO), oldc, subst(g, {k: TT.sub(m, ONE)}))
        return lambda m, a=TT.batom(atom): ite(a, cc(m), cd(m))
    return None


def instances(v, n):
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, B):
            if x.atom is None or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            stack += [x.hi, x.lo, x.atom]
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ("app", "bapp") and x.args[0] == n:
                out.append(x)
            stack += [a for a in x.args if isinstance(a, (T, B))]
    return out


def same_row(v, n, pos, d):
    """is every instance of symbol n in v at index d in position pos?"""
    seen, stack = set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, B):
            if x.atom is None or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            stack += [x.hi, x.lo, x.atom]
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ("app", "bapp") and x.args[0] == n and x.args[1 + pos] is not d:
                return False
            stack += [a for a in x.args if isinstance(a, (T, B))]
    return True


def blur(todo, v):
    """what a counted loop leaves in the symbols that have no closed form is not known"""
    for o in todo:
        if o.t is None or not occurs(v, {name_of(o.t)}):
            continue
        if o.kind == "T":
            v = rewrite(v, name_of(o.t), o, TT.opaque("after loop " + name_of(o.t), *o.args))
        else:
            v = rewrite(v, name_of(o.t), o, TT.batom(TT._mk("lt", TT.opaque("after loop " + name_of(o.t), *o.args), ZERO)))
    return v


def ksum(g, k, m):
    if k not in g.fv:
        return TT.mul(m, g)
    j = idx("j")
    return TT.sum_over(subst(g, {k: j}), j, m)


# ------------------------------------------------------------------ state comparison
def update_header(hv, H, Ns):
    """merge the modified cells of the after-iteration states into the header state"""
    if not Ns:
        return H
    N = merge_states(Ns) if len(Ns) > 1 else Ns[0]
    cells = {}
    for c, v in H.cells.items():
        if c not in N.cells:
            cells[c] = v
            continue
        cells[c] = hv.go(v, v_restrict(N.cells[c], N.pc) if not same(v, N.cells[c]) else v, (c,), ())
    return St(cells, H.pc)


class Saved:
    def __init__(self, I):
        self.ne, self.nr = len(I.events), len(I.runs)
        self.nf, self.nu = len(I.facts), len(I.unsolved)

    def rollback(self, I):
        del I.facts[self.nf:]
        del I.unsolved[self.nu:]
        del I.events[self.ne:]
        del I.runs[self.nr:]


def finish_records(I, sv, fnv, k, M):
    """events / runs recorded in the final pass: close loop symbols, quantify guards"""
    for i in range(sv.ne, len(I.events)):
        kind, g, where, d = I.events[i]
        g = fnv(g)
        if k is not None and k in g.fv() and M is not None:
            g = ~all_over(~g, k, M)
        I.events[i] = (kind, g, where, d)
    for r in I.runs[sv.nr:]:
        for n in list(r):
            if isinstance(r[n], (Val, T, B)):
                r[n] = fnv(r[n])


def iterate(I, st, size, step):
    """for k in 0..size: step(state, k)   (step: python function mutating the state)"""
    if size is ZERO:
        return
    if size is ONE:
        step(st, ZERO)
        return
    if size.op == "num" and size.args[0] <= 4:
        for i in range(int(size.args[0])):
            step(st, num(i))
        return
    k = idx("k")
    hv = Havoc("ℓ")
    H = st.copy()
    sv = Saved(I)
    for _ in range(12):
        sv.rollback(I)
        s = H.copy()
        s.pc = H.pc & TT.lt(k, size)
        try:
            step(s, k)
        except Diverge:
            sv.rollback(I)
            st.pc = st.pc & TT.eq(size, ZERO)
            if st.pc is FALSE:
                raise
            return
        hv.changed = False
        H2 = update_header(hv, H, [s])
        if not hv.changed:
            break
        H = H2
    extra = constrain(s.pc, H.pc & TT.lt(k, size))
    g = s.pc
    N = {}
    for p in hv.syms:
        v = s.cells.get(p[0])
        lf = leaf_at(v, p[1:])
        N[p] = v_restrict(lf, g) if lf is not None else None
    solve(list(hv.syms.values()), N, k)
    solved = [o for o in hv.syms.values() if o.closed is not None]
    left = [o for o in hv.syms.values() if o.closed is None and o.kind in "TB"]
    final = lambda v, m: blur(left, subst_closed(v, solved, m))
    cells = {c: final(v, size) if any(p[0] == c for p in hv.syms) else v for c, v in H.cells.items()}
    finish_records(I, sv, lambda v: blur(left, subst_closed(v, solved, k)), k, size)
    pc = st.pc
    if extra is not TRUE:
        pc = pc & all_over(blur(left, subst_closed(extra, solved, k)), k, size)
        if pc is FALSE:
            raise Diverge()
    st.cells = cells
    st.pc = pc


def havoc_fix(I, st, step):
    """state after an unknown number of steps: every leaf a step can modify is havocked"""
    hv = Havoc("ω")
    H = st.copy()
    sv = Saved(I)
    for _ in range(12):
        sv.rollback(I)
        s = H.copy()
        try:
            step(s)
        except Diverge:
            break
        hv.changed = False
        H2 = update_header(hv, H, [s])
        if not hv.changed:
            break
        H = H2
    sv.rollback(I)
    st.cells = H.cells
    return hv


def summarize(frame, h, L, st, rets):
    import runs
    I = frame.I
    sv, nr = Saved(I), len(rets)
    for _ in range(4):
        n = I.cfg.get("_loops", 0)
        I.cfg["_loops"] = n + 1
        try:
            return summarize_(frame, h, L, st, rets)
        except runs.NeedStream as e:
            sv.rollback(I)
            del rets[nr:]
            v = I.read(st, e.ref.cell, e.ref.path) if e.ref.cell in st.cells else None
            if not runs.is_solver(I, v):
                raise
            I.cfg["_loops"] = n
            if not runs.open_stream(I, st, e.ref):
                raise Give("solver steps")
        finally:
            I.cfg["_loops"] = n
    raise Give("solver steps")


def unroll(frame, h, L, st, rets, limit=6):
    """loops whose conditions are definite for a few iterations: exits, or None"""
    I = frame.I
    sv, nr = Saved(I), len(rets)
    cur = st.copy()
    for _ in range(limit):
        r0 = len(rets)
        exits = frame.region(L, h, [cur.copy()], rets, header=h)
        backs = frame.backs
        if not backs:
            return exits
        if any(exits.values()) or len(rets) > r0:
            break
        cur = merge_states(backs) if len(backs) > 1 else backs[0]
    sv.rollback(I)
    del rets[nr:]
    return None


def summarize_(frame, h, L, st, rets):
    I = frame.I
    r = unroll(frame, h, L, st, rets)
    if r is not None:
        return r
    hv = Havoc("ℓ")
    H = st.copy()
    sv = Saved(I)
    nrets = len(rets)
    for _ in range(14):
        sv.rollback(I)
        del rets[nrets:]
        exits = frame.region(L, h, [H.copy()], rets, header=h)
        backs = frame.backs
        if not backs:
            break
        hv.changed = False
        H2 = update_header(hv, H, backs)
        if not hv.changed:
            break
        H = H2
    myrets = rets[nrets:]
    del rets[nrets:]
    if not backs:
        rets.extend(myrets)
        return exits
    N0 = merge_states(backs) if len(backs) > 1 else backs[0]
    g = N0.pc
    N = {}
    for p in hv.syms:
        v = N0.cells.get(p[0])
        lf = leaf_at(v, p[1:])
        N[p] = v_restrict(lf, g) if lf is not None else None
    syms = list(hv.syms.values())
    # induction variable
    k = idx("k")
    M = None
    alle = [(t, s) for t, ss in exits.items() for s in ss]
    ind = None
    for s in syms:
        if s.kind == "T" and not s.args and N.get(s.path) is not None and N[s.path] is TT.add(s.t, ONE):
            for t, e in alle:
                eg = constrain(e.pc, st.pc)
                nb = ~eg
                if nb.atom is not None and nb.hi is TRUE and nb.lo is FALSE and nb.atom.op in ("lt", "eq"):
                    a = nb.atom
                    if a.op == "lt" and a.args[0] is s.t and not occurs(a.args[1], {name_of(x.t) for x in syms if x.t is not None}):
                        ind, M = (s, e), TT.sub(a.args[1], s.old)
                        if s.old is not ZERO:
                            M = ite(TT.lt(s.old, a.args[1]), M, ZERO)
                        break
                    if a.op == "eq" and s.t in a.args and ZERO in a.args:
                        ind, M = (s, e), (ONE if s.old is ZERO else None)
                        break
        if M is not None:
            break
    if M is None:
        # unsolved: everything the loop modifies stays havocked; whatever left the loop met one of the exit conditions
        G = FALSE
        for t, e in alle:
            G = G | e.pc
        for r in myrets:
            G = G | r.pc
        I.facts.append(~st.pc | G)
        I.unsolved.append((frame.key, h, st.pc, [x.t for x in syms], {p: N[p] for p in hv.syms}, hv.syms, [e.pc for t, e in alle], [r.pc for r in myrets], N0.pc))
        rets.extend(myrets)
        return exits
    s, normal = ind
    s.closed = lambda m, s=s: TT.add(s.old, m) if s.old is not ZERO else m
    solve([x for x in syms], {p: v for p, v in N.items()}, k)
    picks = select_best(I, H, N0, syms, N, s, k)
    solved = [o for o in syms if o.closed is not None]
    inb = TT.lt(k, M)
    left = [o for o in syms if o.closed is None and o.kind in "TB"]
    at = lambda v, m: blur(left, subst_closed(v, solved, m))

    def st_at(x, m, pc):
        put = picks if m is M else {}
        return St({c: (put_at(at(v, m), {p[1:]: b for p, b in put.items() if p[0] == c}) if c != "$none" else v) for c, v in x.cells.items()}, pc)
    abnormal = [(t, e) for t, e in alle if e is not normal] + [(None, r) for r in myrets]
    body_diverges = TRUE
    gs = []
    for t, e in abnormal:
        gs.append(b_restrict(at(constrain(e.pc, st.pc), k), inb))
    bk = b_restrict(at(constrain(N0.pc, st.pc), k), inb)
    G = FALSE
    for x in gs:
        G = G | x
    # iterations that neither continue nor exit diverge (panic)
    cont = bk | G
    none_exit = all_over(~G & bk if True else ~G, k, M)
    out = {}
    for (t, e), ge in zip(abnormal, gs):
        K = TT.opaque(fresh("first"))
        cond = ~all_over(~ge, k, M)
        x = st_at(e, k, TRUE)
        x = St({c: vsubst_safe(v, {k: K}) for c, v in x.cells.items()}, st.pc & cond)
        if len(abnormal) > 1:
            x.pc = x.pc & subst(ge, {k: K})
        if x.pc is FALSE:
            continue
        if t is None:
            rets.append(x)
        else:
            out.setdefault(t, []).append(x)
    nt = next(t for t, e in alle if e is normal)
    pcn = st.pc & none_exit
    if pcn is not FALSE:
        out.setdefault(nt, []).append(st_at(normal, M, pcn))
    finish_records(I, sv, lambda v: at(v, k), k, M)
    return out


def put_at(v, new, path=()):
    """v with the sub-values at the given havoc paths replaced"""
    if not new:
        return v
    if path in new:
        return new[path]
    if not any(p[:len(path)] == path for p in new):
        return v
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [put_at(x, new, path + (i,)) for i, x in enumerate(v.fields)])
    if isinstance(v, Tup):
        return Tup([put_at(x, new, path + (i,)) for i, x in enumerate(v.items)])
    if isinstance(v, Clo):
        return Clo(v.key, [put_at(x, new, path + (i,)) for i, x in enumerate(v.caps)], v.env)
    return v


def select_best(I, H, N0, syms, N, ind, k):
    """loops over the solver's steps that keep one of them: {path of the kept option: the run's selected step}.
    The rule that chooses between the kept and the next step is recorded for the selection check."""
    if len(ind.path) != 2 or ind.path[0][0] != "stream":
        return {}
    seq = H.cells[ind.path[0]]
    if not (isinstance(seq, Seq) and seq.tag and seq.tag[0] == "stream"):
        return {}
    run = seq.tag[1]
    item = seq.elem
    if not isinstance(item, Enum) or 0 not in item.alts:
        return {}
    stepv = item.alts[0][1][0]
    good = item.alts[0][0]
    out = {}
    at = lambda v, j: vsubst(v, {SQ: j})
    for e in syms:
        if e.kind != "E":
            continue
        hv = leaf_at(H.cells.get(e.path[0]), e.path[1:])
        nv = leaf_at(N0.cells.get(e.path[0]), e.path[1:])
        if not (isinstance(hv, Enum) and isinstance(nv, Enum) and hv.key == OPTION and set(hv.alts) == {0, 1} and 1 in nv.alts):
            continue
        hold = hv.alts[1][1][0]
        if not (isinstance(hold, Struct) and hold.key == run["step_key"]):
            continue
        g = N0.pc
        none = hv.alts[0][0]
        # from nothing, the first step is kept
        n0 = v_restrict(v_restrict(nv, none), g & good)
        if set(n0.alts) != {1} or n0.alts[1][0] is not TRUE and (g & none & ~n0.alts[1][0]) is not FALSE:
            continue
        pos = ind.t
        inst = lambda v, j: replace_pos(v, pos, j)
        if not same(v_restrict(n0.alts[1][1][0], none), at(stepv, pos)):
            continue
        # otherwise a rule chooses between the two
        n1 = v_restrict(v_restrict(nv, ~none), g & good)
        if set(n1.alts) != {1}:
            continue
        k1, k2 = idx("a"), idx("b")
        v = replace_pos(n1.alts[1][1][0], pos, k2)
        for o in syms:
            if o.t is not None and o.path[:len(e.path)] == e.path and o.kind == "T" and o.path[len(e.path):len(e.path) + 3] == ("v", 1, 0):
                want = leaf_at(at(stepv, k1), o.path[len(e.path) + 3:])
                if isinstance(want, T):
                    v = rewrite(v, name_of(o.t), o, want)
        names = {name_of(o.t) for o in syms if o.t is not None}
        if occurs(v, names):
            continue
        run["select"] = ("reduce", v, k1, k2)
        run["selected"] = run["best"]
        out[e.path] = run["best"]
        for o in syms:
            if o.path[:len(e.path)] == e.path and o.closed is None and o.t is not None:
                o.kind = "picked"
    return out


def replace_pos(v, pos, j):
    return vsubst(v, {pos: j})


def vsubst_safe(v, m):
    try:
        return vsubst(v, m)
    except CaptureError:
        return Opq("capture")
