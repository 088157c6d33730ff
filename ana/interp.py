"""Abstract interpreter over exported MIR.

A forward value-flow analysis: every basic block is visited once in reverse post-order with the guarded join of
its incoming states (loops are summarised), calls to crate-local functions are analysed in the caller's
context, library calls through models.  Nothing is executed on concrete data.
"""
import itertools
import struct as _struct
from values import *

BITS = {"f64": ("<Q", "<d"), "f32": ("<I", "<f")}


class Diverge(Exception):
    """the current path cannot continue (panic / unreachable)"""


class Give(Exception):
    """analysis gives up on this construct"""


class St:
    __slots__ = ("cells", "pc")

    def __init__(self, cells=None, pc=TRUE):
        self.cells = cells if cells is not None else {}
        self.pc = pc

    def copy(self):
        return St(dict(self.cells), self.pc)

    def set_(self, o):
        self.cells, self.pc = o.cells, o.pc


class Discr:
    __slots__ = ("enum",)

    def __init__(self, e):
        self.enum = e


def merge_states(ss):
    out = ss[0]
    for s in ss[1:]:
        pc = out.pc | s.pc
        c = constrain(out.pc, pc)
        cells = {}
        for k in out.cells.keys() | s.cells.keys():
            a, b = out.cells.get(k), s.cells.get(k)
            cells[k] = a if a is b else merge(c, a, b)
        out = St(cells, pc)
    return out


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"


def some(v, c=TRUE):
    return Enum(OPTION, "Option", {0: (~c, ()), 1: (c, (v,))})


NONE = Enum(OPTION, "Option", {0: (TRUE, ())})


def ok(v):
    return Enum(RESULT, "Result", {0: (TRUE, (v,))})


def err(v):
    return Enum(RESULT, "Result", {1: (TRUE, (v,))})


def tykey(t):
    return t.get("key") if t["k"] == "adt" else None


ITER = "core::iter::traits::iterator::Iterator::"


NARROW = {"u8": 8, "u16": 16, "u32": 32, "i8": -8, "i16": -16, "i32": -32}


class Interp:
    MAXDEPTH = 60

    def __init__(self, m, cfg=None):
        self.m = m
        self.bodies = m["bodies"]
        self.adts = m["adts"]
        self.cfg = cfg or {}
        self.fid = itertools.count()
        self.events = []
        self.unsolved = []
        self.facts = []         # what holds of the unknowns left by unsolved loops            # (kind, guard, where, detail)
        self.unmodelled = set()
        self.visited = set()        # functions analysed
        self.calls = 0
        self.depth = 0
        self.stack = []
        self.runs = []              # regression runs
        self.by_ref = {}
        for k, b in self.bodies.items():
            r = b["ref"]
            self.by_ref.setdefault((r["recv"], r["name"]), []).append(k)
        self.impls_by_trait = {}
        for im in m["impls"]:
            if im["trait"]:
                self.impls_by_trait.setdefault(im["trait"]["key"], []).append(im)
        self.cfgc = {}
        import lib
        self.lib = lib

    # ------------------------------------------------------------ lookup
    def find(self, recv, name):
        ks = self.by_ref.get((recv, name), [])
        ks = [k for k in ks if "{closure" not in k]
        return ks

    def one(self, recv, name):
        ks = self.find(recv, name)
        if len(ks) != 1:
            raise Give(f"anchor {recv}::{name}: {len(ks)} definitions")
        return ks[0]

    def event(self, kind, st, detail, guard=None):
        g = st.pc if guard is None else (st.pc & guard)
        if g is FALSE:
            return
        self.events.append((kind, g, self.stack[-1] if self.stack else "?", detail))

    # ------------------------------------------------------------ types
    def sty(self, t, env):
        k = t["k"]
        if k == "param":
            return env.get(t["name"], t)
        if k == "constparam":
            return env.get(t["name"], t)
        if k in ("prim", "constval", "constother", "fnptr", "other"):
            return t
        if k in ("adt", "closure", "fndef"):
            if not t["args"]:
                return t
            return {**t, "args": [self.sty(a, env) for a in t["args"]]}
        if k in ("ref", "ptr", "slice"):
            return {**t, "t": self.sty(t["t"], env)}
        if k == "tuple":
            return {**t, "ts": [self.sty(a, env) for a in t["ts"]]}
        if k == "array":
            return {**t, "t": self.sty(t["t"], env), "n": self.sty(t["n"], env)}
        if k == "dyn":
            return t
        if k == "alias":
            n = {**t, "args": [self.sty(a, env) for a in t["args"]]}
            return self.norm_alias(n)
        return t

    def norm_alias(self, t):
        im, b = self.find_impl(t["trait"], t["args"])
        if im is not None and t["name"] in im["types"]:
            return self.sty(im["types"][t["name"]], b)
        return t

    def unify(self, p, t, b):
        k = p["k"]
        if k in ("param", "constparam"):
            if p["name"] in b:
                return self.tyeq(b[p["name"]], t)
            b[p["name"]] = t
            return True
        if k == "alias":
            return True
        if k != t["k"]:
            return False
        if k == "prim":
            return p["name"] == t["name"]
        if k == "constval":
            return p["v"] == t["v"]
        if k == "adt":
            return p["key"] == t["key"] and len(p["args"]) == len(t["args"]) and all(self.unify(x, y, b) for x, y in zip(p["args"], t["args"]))
        if k in ("ref", "ptr", "slice"):
            return self.unify(p["t"], t["t"], b)
        if k == "tuple":
            return len(p["ts"]) == len(t["ts"]) and all(self.unify(x, y, b) for x, y in zip(p["ts"], t["ts"]))
        if k == "array":
            return self.unify(p["t"], t["t"], b) and self.unify(p["n"], t["n"], b)
        return p == t

    def tyeq(self, a, b):
        return a == b

    def find_impl(self, trait, args):
        """impl of a trait for concrete (or partly symbolic) arguments -> (impl, bindings)"""
        if not args or args[0]["k"] in ("param", "alias"):
            return None, None
        hits = []
        for im in self.impls_by_trait.get(trait, []):
            b = {}
            pa = im["trait"]["args"]
            if len(pa) != len(args):
                continue
            if all(self.unify(p, t, b) for p, t in zip(pa, args)):
                if self.preds_hold(im, b):
                    hits.append((im, b))
        if len(hits) == 1:
            return hits[0]
        if len(hits) > 1:
            # prefer the impl whose self type is not a bare parameter
            h2 = [h for h in hits if h[0]["self"]["k"] != "param"]
            if len(h2) == 1:
                return h2[0]
        return None, None

    def preds_hold(self, im, b):
        for p in im["preds"]:
            if p["crate"] != self.m["crate"]:
                if p["name"] in ("Unsigned",):
                    t = self.sty(p["args"][0], b)
                    if t["k"] == "prim" and not t["name"].startswith("u"):
                        return False
                    if t["k"] != "prim":
                        return False
                continue
            if p["name"] == "Float":
                t = self.sty(p["args"][0], b)
                if t["k"] == "prim" and t["name"] not in ("f32", "f64"):
                    return False
                continue
            if p["name"] == "Canonical":
                a = [self.sty(x, b) for x in p["args"]]
                im2, _ = self.find_impl(p["trait"], a)
                if im2 is None:
                    return False
        return True

    # ------------------------------------------------------------ control-flow facts
    def cfg_of(self, key, body):
        r = self.cfgc.get(key)
        if r is not None:
            return r
        blocks = body["blocks"]
        succ = {}
        for i, bl in enumerate(blocks):
            if bl["cleanup"]:
                continue
            t = bl["term"]
            k = t["t"]
            if k in ("goto", "drop"):
                s = [t["to"]]
            elif k == "switch":
                s = [c[1] for c in t["cases"]] + ([t["else"]] if t["else"] is not None else [])
            elif k == "call":
                s = [t["to"]] if t["to"] is not None else []
            elif k == "assert":
                s = [t["to"]]
            else:
                s = []
            succ[i] = [x for x in s if x is not None and not blocks[x]["cleanup"]]
        # rpo + dfs back edges
        seen, order, onst, back = set(), [], set(), []

        def dfs(n):
            stack = [(n, iter(succ[n]))]
            seen.add(n)
            onst.add(n)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in onst:
                        back.append((x, y))
                    elif y not in seen:
                        seen.add(y)
                        onst.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    onst.discard(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        pred = {i: [] for i in succ}
        for a, ss in succ.items():
            if a in seen:
                for x in ss:
                    pred[x].append(a)
        loops = {}
        for x, h in back:
            L = loops.setdefault(h, {h})
            work = [x]
            while work:
                y = work.pop()
                if y in L:
                    continue
                L.add(y)
                work += pred[y]
        r = (succ, rpo, loops)
        self.cfgc[key] = r
        return r

    # ------------------------------------------------------------ bodies
    def call_local(self, key, env, args, st):
        b = self.bodies.get(key)
        if b is None or b["mir"] is None:
            raise Give(f"no body for {key}")
        return self.exec_mir(key, b["mir"], env, args, st)

    def exec_mir(self, key, mir, env, args, st):
        self.depth += 1
        if self.depth > self.MAXDEPTH or self.stack.count(key) > 2:
            self.depth -= 1
            raise Give(f"recursion in {key}")
        self.stack.append(key)
        self.visited.add(key)
        fid = next(self.fid)
        fr = Frame(self, key, mir, env, fid)
        try:
            assert len(args) == mir["argc"], (key, len(args), mir["argc"])
            for i, a in enumerate(args):
                st.cells[(fid, i + 1)] = a
            rets = []
            fr.region(None, 0, [st.copy()], rets)
            if not rets:
                raise Diverge()
            out = merge_states(rets)
            v = out.cells.get((fid, 0))
            for k in [k for k in out.cells if k[0] == fid]:
                del out.cells[k]
            st.set_(out)
            return v if v is not None else UNIT
        finally:
            self.stack.pop()
            self.depth -= 1

    # ------------------------------------------------------------ reading through references
    def load(self, st, v):
        """follow &mut references and views to a plain value"""
        n = 0
        while True:
            n += 1
            if n > 50:
                raise Give("reference cycle")
            if isinstance(v, Ref):
                v = self.read(st, v.cell, v.path)
            elif isinstance(v, MutView):
                b = self.load(st, v.base)
                if not isinstance(b, Arr):
                    return Opq("view of opaque")
                return Arr(v.shape, b.at(*v.ix))
            else:
                return v

    def read(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            return Opq(f"uninitialised {cell}")
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if isinstance(v, Ref):
            v = self.load(st, v)
        if isinstance(v, Gate):
            r = None
            acc = None
            for c, x in reversed(v.alts):
                y = self.proj(st, x, p)
                acc = y if acc is None else merge(c, y, acc)
            return acc
        if p[0] == "f":
            i = p[1]
            if isinstance(v, Struct):
                return v.fields[i] if i < len(v.fields) else Opq("field")
            if isinstance(v, Tup):
                return v.items[i] if i < len(v.items) else Opq("field")
            if isinstance(v, Clo):
                return v.caps[i]
            if isinstance(v, Enum) and len(v.alts) == 1:
                (c, f), = v.alts.values()
                return f[i]
            return Opq(f"field {i} of {v!r:.60}")
        if p[0] == "v":
            if isinstance(v, Enum):
                if p[1] in v.alts:
                    return Tup(v.alts[p[1]][1])
                return Opq("absent variant")
            return v if isinstance(v, (Struct, Tup)) else Opq("downcast")
        if p[0] == "i":
            v = self.load(st, v)
            if isinstance(v, Arr) and len(v.shape) == len(p[1]):
                self.bounds(st, v, p[1])
                return v.at(*p[1])
            if isinstance(v, Tup) and len(p[1]) == 1 and p[1][0].op == "num":
                return v.items[int(p[1][0].args[0])]
            if isinstance(v, Seq) and len(p[1]) == 1:
                return v.at(TT.add(v.pos, p[1][0]))
            return Opq("index")
        raise Give(f"projection {p}")

    def bounds(self, st, v, ix):
        for s, i in zip(v.shape, ix):
            if i.op == "num":
                g = ~TT.lt(i, s)
                if g is not FALSE:
                    self.event("bounds", st, f"index {show(i)} into axis of length {show(s)}", g)

    def write(self, st, cell, path, new):
        v = st.cells.get(cell)
        if not path:
            st.cells[cell] = new
            return
        # a reference in the middle of the path redirects the write
        for k in range(len(path)):
            cur = v
            for p in path[:k]:
                cur = self.proj(st, cur, p)
            if isinstance(cur, Ref):
                return self.write(st, cur.cell, cur.path + tuple(path[k:]), new)
            if isinstance(cur, MutView) and path[k][0] == "i":
                base = cur.base
                m = {D[j]: t for j, t in enumerate(path[k][1])}
                return self.write(st, base.cell, base.path + (("i", tuple(subst(x, m) for x in cur.ix)),), new)
        st.cells[cell] = self.upd(v, path, new)

    def upd(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        if isinstance(v, Gate):
            return Gate([(c, self.upd(x, path, new)) for c, x in v.alts])
        if p[0] == "f":
            if isinstance(v, (Struct, Tup, Clo)):
                fs = list(v.fields if isinstance(v, Struct) else v.items if isinstance(v, Tup) else v.caps)
                while len(fs) <= p[1]:
                    fs.append(None)
                fs[p[1]] = self.upd(fs[p[1]], rest, new)
                if isinstance(v, Struct):
                    return Struct(v.key, v.name, fs)
                if isinstance(v, Clo):
                    return Clo(v.key, fs, v.env)
                return Tup(fs)
            if v is None:
                fs = [None] * p[1] + [self.upd(None, rest, new)]
                return Tup(fs)
            if isinstance(v, Enum) and len(v.alts) == 1:
                (k, (c, f)), = v.alts.items()
                f = list(f)
                f[p[1]] = self.upd(f[p[1]], rest, new)
                return Enum(v.key, v.name, {k: (c, tuple(f))})
            return Opq("field update")
        if p[0] == "v":
            if isinstance(v, Enum) and p[1] in v.alts:
                c, f = v.alts[p[1]]
                t = self.upd(Tup(f), rest, new)
                return Enum(v.key, v.name, {**v.alts, p[1]: (c, t.items)})
            return Opq("variant update")
        if p[0] == "i":
            if isinstance(v, Arr) and not rest and isinstance(new, (T, B)):
                c = TRUE
                for k, t in enumerate(p[1]):
                    c = c & TT.eq(D[k], t)
                return Arr(v.shape, merge(c, new, v.body))
            if isinstance(v, Tup) and len(p[1]) == 1 and p[1][0].op == "num":
                it = list(v.items)
                k = int(p[1][0].args[0])
                it[k] = self.upd(it[k], rest, new)
                return Tup(it)
            return Opq("index update")
        raise Give(f"update {p}")

    def store(self, st, target, new):
        """assign through a mutable reference or view"""
        if isinstance(target, Ref):
            cur = self.read(st, target.cell, target.path)
            if isinstance(cur, (Ref, MutView)):
                return self.store(st, cur, new)
            return self.write(st, target.cell, target.path, new)
        if isinstance(target, MutView):
            base = self.load(st, target.base)
            if not (isinstance(base, Arr) and isinstance(new, Arr)):
                return self.store(st, target.base, Opq("write through view"))
            cond, m = TRUE, {}
            for k, t in enumerate(target.ix):
                r = TT.lin(t)
                ds = [d for d in r[0] if d in D] if r else None
                if r is None:
                    return self.store(st, target.base, Opq("view index"))
                if not ds:
                    cond = cond & TT.eq(D[k], t)
                elif len(ds) == 1 and abs(r[0][ds[0]]) == 1:
                    d = ds[0]
                    rest = subst(t, {d: ZERO})
                    vi = TT.sub(D[k], rest) if r[0][d] == 1 else TT.sub(rest, D[k])
                    j = D.index(d)
                    if d in m:
                        cond = cond & TT.eq(vi, m[d])
                    else:
                        m[d] = vi
                        if r[0][d] == 1:
                            if rest is not ZERO:
                                cond = cond & ~TT.lt(D[k], rest)
                            up = TT.add(target.shape[j], rest)
                            if not dim_eq(up, base.shape[k]):
                                cond = cond & TT.lt(D[k], up)
                else:
                    return self.store(st, target.base, Opq("view index"))
            for j in range(len(target.shape)):
                if D[j] not in m:
                    m[D[j]] = ZERO
            nb = vsubst(new.body, m)
            return self.store(st, target.base, Arr(base.shape, merge(cond, nb, base.body)))
        # transparent shared reference to a temporary: nothing observable
        return None

    # ------------------------------------------------------------ calls
    def apply(self, f, args, st):
        f = self.load(st, f)
        if isinstance(f, Clo):
            b = self.bodies[f.key]
            if b["mir"]["argc"] != 1 + len(args):
                args = [Tup(args)] if b["mir"]["argc"] == 2 else args
            return self.call_local(f.key, f.env, [f] + list(args), st)
        if isinstance(f, FnV):
            return self.call(f.fn, list(args), st)
        if isinstance(f, Gate):
            return self.split(f, st, lambda s, x: self.apply(x, args, s))
        if callable(f):
            return f(*args)
        return Opq("call of opaque function")

    def split(self, gate, st, fn):
        outs, vals = [], []
        for c, x in gate.alts:
            g = st.pc & c
            if g is FALSE:
                continue
            s = st.copy()
            s.pc = g
            try:
                v = fn(s, x)
            except Diverge:
                continue
            s.cells["$ret"] = v
            outs.append(s)
        if not outs:
            raise Diverge()
        o = merge_states(outs)
        v = o.cells.pop("$ret")
        st.set_(o)
        return v

    def call(self, fn, args, st):
        self.calls += 1
        env_args = fn["args"]
        if fn["local"] and not fn["trait"]:
            return self.call_local(fn["key"], self.bind(fn["key"], env_args), args, st)
        if fn["trait"]:
            if args and isinstance(args[0], Ref) and fn["key"].startswith(ITER) and fn["name"] != "by_ref":
                r = self.solver_stream(fn, args, st)
                if r is not None:
                    return r
            r = self.resolve_trait(fn, env_args, args, st)
            if r is not None:
                if callable(r):
                    return r()
                key, env = r
                b = self.bodies.get(key)
                if not (b and b.get("derived")):
                    return self.call_local(key, env, args, st)
        return self.lib.call(self, st, fn, args)

    def solver_stream(self, fn, args, st):
        """iterator methods on the solver, outside of its own step function"""
        import runs
        ref = runs.chase(self, st, args[0])
        if ref is None or not runs.is_solver(self, self.read(st, ref.cell, ref.path)):
            return None
        if fn["name"] == "next":
            return runs.stream_next(self, st, ref)
        s = runs.stream_seq(self, st, ref)
        if s is None:
            return None
        return self.lib.call(self, st, fn, [s] + list(args[1:]))

    def bind(self, key, targs):
        gen = [g for g in self.bodies[key]["generics"] if g]
        return {g: t for g, t in zip(gen, targs)}

    def resolve_trait(self, fn, targs, args, st):
        """-> (body key, env) | thunk | None"""
        trait = fn["key"].rsplit("::", 1)[0]
        name = fn["name"]
        selfty = targs[0] if targs else None
        local = trait in self.m["traits"]
        if selfty is not None and selfty["k"] == "ref":
            # &T / &mut T forwarding (Iterator for &mut I, ...)
            if trait == "core::iter::traits::iterator::Iterator":
                selfty = selfty["t"]
                targs = [selfty] + targs[1:]
        if selfty is not None and selfty["k"] == "dyn" and local:
            recv = args[0]
            val = self.load(st, recv)
            if isinstance(val, Gate):
                def one(s, x):
                    if isinstance(recv, Ref):
                        self.write(s, recv.cell, recv.path, x)
                        return self.call(fn, args, s)
                    return self.call(fn, [x] + list(args[1:]), s)
                return lambda: self.split(val, st, one)
            if not isinstance(val, Struct):
                return lambda: Opq(f"dyn {name}")
            sty = {"k": "adt", "key": val.key, "name": val.name, "crate": self.m["crate"], "args": [{"k": "param", "name": "F"}] * (1 if self.adts.get(val.key, {}).get("generics") else 0)}
            targs = [sty] + targs[1:]
            selfty = sty
        im, b = self.find_impl(trait, targs[:max(1, self.trait_arity(trait))])
        if im is not None:
            if im["derived"]:
                return None
            if name in im["items"]:
                key = im["items"][name]
                env = dict(b)
                env.update(self.method_env(key, im["generics"], fn, targs, trait))
                return key, env
            if local and self.m["traits"][trait]["items"].get(name, {}).get("default"):
                key = self.m["traits"][trait]["items"][name]["key"]
                return key, self.bind(key, targs)
            return None
        if local:
            leaf = self.leaf(trait, name, targs, args, st)
            if leaf is not None:
                return leaf
            it = self.m["traits"][trait]["items"].get(name, {})
            if it.get("default"):
                return it["key"], self.bind(it["key"], targs)
            return lambda: Opq(f"abstract {trait}::{name}")
        return None

    def trait_arity(self, trait):
        if trait in self.m["traits"]:
            return len([g for g in self.m["traits"][trait]["generics"] if g])
        ims = self.impls_by_trait.get(trait, [])
        return len(ims[0]["trait"]["args"]) if ims else 1

    def method_env(self, key, impl_generics, fn, targs, trait):
        gen = [g for g in self.bodies[key]["generics"] if g and g not in impl_generics]
        extra = targs[self.trait_arity(trait):]
        return {g: t for g, t in zip(gen, extra)}

    # abstract family: the model's defining functions are uninterpreted
    LEAF = {("Link", "func"): "g", ("Link", "func_inv"): "ginv", ("Glm", "variance"): "V", ("Glm", "log_partition"): "A",
            ("Glm", "log_like_sat"): "sat"}
    LEAF_ARR = {("Transform", "nat_param"): "nat", ("Transform", "d_nat_param"): "dnat"}

    def leaf(self, trait, name, targs, args, st):
        tn = trait.rsplit("::", 1)[1]
        if (tn, name) in self.LEAF:
            x = self.lib.scal(self.load(st, args[0]))
            return lambda: app(self.LEAF[(tn, name)], x)
        if (tn, name) in self.LEAF_ARR:
            a = self.load(st, args[0])
            f = self.LEAF_ARR[(tn, name)]
            if isinstance(a, Arr):
                return lambda: Arr(a.shape, app(f, self.lib.scal(a.body)))
            return lambda: Opq(name)
        if (tn, name) == ("Response", "get_distribution"):
            xs = [self.lib.scal(self.load(st, a)) for a in args]
            return lambda: Struct("$dist", "Dist", (Str("M"),) + tuple(xs))
        if (tn, name) == ("Yval", "into_float"):
            x = self.load(st, args[0])
            if self.cfg.get("into_float") == "sym":
                c = TT.bapp("valid_y", self.lib.scal(x))
                return lambda: Enum(RESULT, "Result", {0: (c, (x,)), 1: (~c, (Struct("$y_error", "y_error", ()),))})
            return lambda: ok(x)
        if tn == "Float":
            if name == "half":
                return lambda: num(Fraction(1, 2))
            if name == "two":
                return lambda: num(2)
            if name == "total_cmp":
                return lambda: OrdV(self.lib.scal(self.load(st, args[0])), self.lib.scal(self.load(st, args[1])), True)
        return None


class Frame:
    def __init__(self, I, key, mir, env, fid):
        self.I, self.key, self.mir, self.env, self.fid = I, key, mir, env, fid
        self.blocks = mir["blocks"]
        self.succ, self.rpo, self.loops = I.cfg_of(key, mir)
        self.skiploop = set()

    def lty(self, l):
        return self.mir["locals"][l]["ty"]

    # run a region (None = whole body); returns exits {target: [states]} and appends returns
    def region(self, blocks, entry, states, rets, header=None):
        inst = {entry: list(states)}
        exits, backs = {}, []
        done = set()
        for b in self.rpo:
            if b not in inst or b in done:
                continue
            if blocks is not None and b not in blocks:
                continue
            st = merge_states(inst.pop(b))
            if b in self.loops and b != header:
                L = self.loops[b]
                ex = self.loop(b, L, st, rets)
                done |= L
                for t, ss in ex.items():
                    if blocks is not None and t not in blocks:
                        exits.setdefault(t, []).extend(ss)
                    elif t == header:
                        backs.extend(ss)
                    else:
                        inst.setdefault(t, []).extend(ss)
                continue
            done.add(b)
            try:
                outs = self.block(b, st, rets)
            except Diverge:
                continue
            for t, s in outs:
                if t == header:
                    backs.append(s)
                elif blocks is not None and t not in blocks:
                    exits.setdefault(t, []).append(s)
                else:
                    inst.setdefault(t, []).append(s)
        self.backs = backs
        return exits

    def loop(self, h, L, st, rets):
        from loops import summarize
        return summarize(self, h, L, st, rets)

    # ------------------------------------------------------------ one block
    def block(self, b, st, rets):
        bl = self.blocks[b]
        for s in bl["st"]:
            if s["s"] == "assign":
                self.assign(st, s["place"], self.rvalue(st, s["rv"], s["place"]))
            elif s["s"] == "setdiscr":
                raise Give("set discriminant")
        t = bl["term"]
        k = t["t"]
        if k in ("goto", "drop"):
            return [(t["to"], st)]
        if k == "return":
            rets.append(st)
            return []
        if k in ("unreachable", "unwind"):
            return []
        if k == "switch":
            return self.switch(st, t)
        if k == "assert":
            if "PointerDereference" in t.get("msg", ""):
                return [(t["to"], st)]
            c = self.operand(st, t["o"])
            if isinstance(c, B):
                bad = ~c if t["exp"] else c
                if (st.pc & bad) is not FALSE:
                    self.I.event("assert", st, t.get("msg", "")[:40], bad)
                    if (st.pc & ~bad) is FALSE:
                        return []
            return [(t["to"], st)]
        if k == "call":
            f = self.operand(st, t["f"])
            args = [self.operand(st, a) for a in t["args"]]
            I = self.I
            if t["to"] is None:
                name = f.fn["name"] if isinstance(f, FnV) else "?"
                I.event("panic", st, f"{name}({', '.join(repr(a)[:60] for a in args)})")
                return []
            v = I.apply(f, args, st) if not isinstance(f, FnV) else I.call(f.fn, args, st)
            self.assign(st, t["dest"], v)
            return [(t["to"], st)]
        raise Give(f"terminator {k}")

    def switch(self, st, t):
        v = self.operand(st, t["o"])
        I = self.I
        outs = []
        rest = TRUE
        def go(c, to):
            g = st.pc & c
            if g is FALSE:
                return
            s = st.copy()
            s.pc = g
            outs.append((to, s))
        if isinstance(v, Gate):
            # boolean / integer alternatives
            acc = None
            raise Give("switch on gate")
        for val, to in t["cases"]:
            if isinstance(v, Discr):
                c = FALSE
                for var_, (g, f) in v.enum.alts.items():
                    if self.discr_of(v.enum.key, var_) == int(val):
                        c = c | g
            elif isinstance(v, B):
                c = ~v if int(val) == 0 else v
            elif isinstance(v, T):
                x = int(val)
                c = TT.eq(v, num(x))
            else:
                c = batom(TT._mk("bapp", f"?switch{b_id(v)}", num(int(val)))) & rest
                c = c
            go(c & rest, to)
            rest = rest & ~c
        if t["else"] is not None:
            go(rest, t["else"])
        return outs

    def discr_of(self, key, v):
        a = self.I.adts.get(key)
        if a:
            return int(a["variants"][v]["discr"])
        if key == "core::cmp::Ordering":
            return v
        return v

    # ------------------------------------------------------------ places, operands, rvalues
    def addr(self, st, place):
        """(cell, path) of a place"""
        cell, path = (self.fid, place["l"]), []
        box = self.lty(place["l"]).get("name") == "Box" and self.lty(place["l"])["k"] == "adt"
        for p in place["p"]:
            if p[0] == "deref":
                cur = self.I.read(st, cell, path)
                if isinstance(cur, Ref):
                    cell, path = cur.cell, list(cur.path)
                box = False
            elif p[0] == "field":
                if box:
                    cur = self.I.read(st, cell, path)
                    continue
                path.append(("f", p[1]))
                box = p[2]["k"] == "adt" and p[2]["name"] == "Box"
            elif p[0] == "downcast":
                path.append(("v", p[1]))
            elif p[0] == "index":
                ix = st.cells.get((self.fid, p[1]))
                path.append(("i", (self.I.lib.scal(ix),)))
            elif p[0] == "cidx":
                if p[3]:
                    raise Give("index from end")
                path.append(("i", (num(p[1]),)))
            else:
                raise Give(f"place {p[0]}")
        return cell, tuple(path)

    def readplace(self, st, place):
        cell, path = self.addr(st, place)
        return self.I.read(st, cell, path)

    def assign(self, st, place, v):
        if not place["p"]:
            st.cells[(self.fid, place["l"])] = v
            return
        cell, path = self.addr(st, place)
        cur = None
        if place["p"][-1][0] == "deref":
            # *r = v where r is a view element / reference
            self.I.write(st, cell, path, v)
            return
        self.I.write(st, cell, path, v)

    def operand(self, st, o):
        if o["op"] in ("copy", "move"):
            return self.readplace(st, o["place"])
        if o["op"] == "const":
            return self.const(st, o)
        raise Give("operand")

    def const(self, st, o):
        I = self.I
        t = I.sty(o["ty"], self.env)
        k = t["k"]
        if o["ck"] == "ty":
            c = I.sty(o["c"], self.env)
            if c["k"] == "constval":
                return self.bits(t, int(c["v"]))
            if c["k"] in ("constparam", "param"):
                return var(c["name"])
            return Opq("const")
        if o["ck"] == "uneval":
            if o.get("promoted") is not None:
                b = I.bodies[self.key]["promoted"][o["promoted"]]
                key = f"{self.key}#p{o['promoted']}"
                return I.exec_mir(key, b, self.env, [], st)
            if "bits" in o:
                return self.bits(t, int(o["bits"]))
            targs = [I.sty(a, self.env) for a in o["args"]]
            if o["trait"]:
                trait = o["key"].rsplit("::", 1)[0]
                im, b = I.find_impl(trait, targs[:I.trait_arity(trait)])
                if im is not None and o["name"] in im["items"]:
                    return I.call_local(im["items"][o["name"]], b, [], st)
                it = I.m["traits"].get(trait, {}).get("items", {}).get(o["name"], {})
                if o["name"] in I.cfg.get("consts", {}):
                    return I.cfg["consts"][o["name"]]
                if it.get("default"):
                    return I.call_local(it["key"], I.bind(it["key"], targs), [], st)
                return Opq(f"const {o['name']}")
            if o["key"] in I.bodies:
                return I.call_local(o["key"], I.bind(o["key"], targs), [], st)
            return I.lib.constant(o)
        if k == "fndef":
            return FnV(t)
        if "str" in o:
            return Str(o["str"])
        if o.get("zst"):
            if k == "fndef":
                return FnV(t)
            if k == "closure":
                return Clo(t["key"], (), I.bind(t["key"], t["args"]))
            return UNIT if k == "tuple" else Struct(t.get("key", "$zst"), t.get("name", "zst"), ())
        if "bits" in o:
            return self.bits(t, int(o["bits"]))
        return Opq("const")

    def bits(self, t, bits):
        n = t.get("name")
        if t["k"] == "prim":
            if n in BITS:
                a, b = BITS[n]
                x = _struct.unpack(b, _struct.pack(a, bits))[0]
                if x != x:
                    return NAN
                if x in (float("inf"), float("-inf")):
                    return INF if x > 0 else NINF
                return num(Fraction(x))
            if n == "bool":
                return TRUE if bits else FALSE
            if n and n[0] == "i":
                w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}[n]
                return num(bits - (1 << w) if bits >> (w - 1) else bits)
            if n and n[0] == "u":
                return num(bits)
            if n == "char":
                return Str(chr(bits))
        if t["k"] == "adt" and t["key"] in self.I.adts and self.I.adts[t["key"]]["enum"]:
            for i, v in enumerate(self.I.adts[t["key"]]["variants"]):
                if int(v["discr"]) == bits:
                    return Enum(t["key"], t["name"], {i: (TRUE, ())})
        if t["k"] == "adt" and t["key"] == "core::cmp::Ordering":
            x = bits - 256 if bits > 127 else bits
            return Enum(t["key"], "Ordering", {x: (TRUE, ())})
        return Opq("bits")

    def rvalue(self, st, rv, dest):
        I = self.I
        r = rv["r"]
        if r == "use":
            o = rv["o"]
            if o["op"] == "copy" and not dest["p"]:
                dt = self.lty(dest["l"])
                if dt["k"] == "adt" and dt["name"] == "Box":
                    cell, path = self.addr(st, o["place"])
                    cur = I.read(st, cell, path)
                    return cur if isinstance(cur, Ref) else Ref(cell, path)
            return self.operand(st, o)
        if r == "ref":
            p = rv["place"]
            if rv["mut"]:
                cell, path = self.addr(st, p)
                if p["p"] and p["p"][-1][0] == "deref":
                    # reborrow: keep views / refs as they are
                    cur = I.read(st, cell, path)
                    if isinstance(cur, MutView) and cell != (self.fid, p["l"]):
                        return Ref(cell, path)
                return Ref(cell, path)
            v = self.readplace(st, p)
            v1 = I.load(st, v) if isinstance(v, Ref) else v
            if I.cfg.get("memo") and holds_memo(v1):
                # shared borrows of what holds memo cells keep their identity
                return v if isinstance(v, Ref) else Ref(*self.addr(st, p))
            return v1
        if r == "rawptr":
            cell, path = self.addr(st, rv["place"])
            return Ref(cell, path)
        if r == "cast":
            v = self.operand(st, rv["o"])
            kind = rv["kind"]
            if kind in ("FloatToInt",):
                return app("trunc", I.lib.scal(v)) if isinstance(v, T) and v.op != "num" else v
            if kind == "IntToInt" and isinstance(v, B):
                return ite(v, ONE, ZERO)
            if kind == "IntToInt" and isinstance(v, Discr):
                return Opq("discriminant cast")
            nb = NARROW.get(rv["ty"].get("name")) if kind == "IntToInt" and rv["ty"].get("k") == "prim" else None
            if nb is not None and isinstance(v, T) and not (v.op == "num" and 0 <= v.args[0] < 2 ** (abs(nb) - 1)):
                return app("narrow", v, TT.num(nb))
            return v
        if r == "bin":
            return I.lib.binop(I, st, rv["b"], self.operand(st, rv["x"]), self.operand(st, rv["y"]))
        if r == "un":
            v = I.load(st, self.operand(st, rv["o"]))
            if rv["u"] == "Not":
                return ~v if isinstance(v, B) else Opq("not")
            if rv["u"] == "Neg":
                return TT.neg(I.lib.scal(v))
            if rv["u"] == "PtrMetadata":
                return I.lib.length(I, st, v)
            return Opq(rv["u"])
        if r == "discr":
            v = I.load(st, self.readplace(st, rv["place"]))
            if isinstance(v, Enum):
                return Discr(v)
            if isinstance(v, OrdV):
                return Discr(I.lib.ord_enum(v))
            if isinstance(v, Gate):
                acc = None
                for c, x in v.alts:
                    if not isinstance(x, Enum):
                        return Opq("discr")
                    e = {k: (g & c, ()) for k, (g, f) in x.alts.items()}
                    acc = e if acc is None else {k: (acc.get(k, (FALSE, ()))[0] | e.get(k, (FALSE, ()))[0], ()) for k in acc.keys() | e.keys()}
                return Discr(Enum(v.alts[0][1].key, "", acc))
            return Opq(f"discr of {v!r:.50}")
        if r == "agg":
            ops = [self.operand(st, o) for o in rv["ops"]]
            ak = rv["ak"]
            if ak in ("array", "tuple"):
                return Tup(ops)
            if ak == "closure":
                t = {"k": "closure", "key": rv["key"], "args": [I.sty(a, self.env) for a in rv["args"]]}
                return Clo(rv["key"], ops, I.bind(rv["key"], t["args"]))
            if ak == "adt":
                if rv["isenum"]:
                    v = rv["variant"] - 1 if rv["adt"] == "core::cmp::Ordering" else rv["variant"]
                    return Enum(rv["adt"], rv["name"], {v: (TRUE, tuple(ops))})
                return Struct(rv["adt"], rv["name"], ops)
            return Opq(ak)
        if r == "repeat":
            n = I.sty(rv["n"], self.env)
            if n["k"] == "constval" and int(n["v"]) <= 16:
                return Tup([self.operand(st, rv["o"])] * int(n["v"]))
            return Opq("repeat")
        return Opq(f"rvalue {r}")


def holds_memo(v):
    return isinstance(v, Struct) and (v.key == "$once" or any(holds_memo(x) for x in v.fields if isinstance(x, Struct)))


def b_id(v):
    return id(v)
