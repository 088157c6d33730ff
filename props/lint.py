"""C38 (conversions), C51 (hidden state), C52 (optional features): whole-program analyses of the MIR."""
import json
from fractions import Fraction
import struct
import world
import where
import decide
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN

WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32}
INTS = set(WIDTH) - {"bool", "char"}


def mirs(b):
    return ([b["mir"]] if b.get("mir") else []) + (b.get("promoted") or [])


def bodies(m):
    """library code: every body that is not derived boilerplate"""
    return [(k, b) for k, b in m["bodies"].items() if b.get("mir")]


def opty(mir, o):
    """type of an operand"""
    if o.get("op") == "const":
        return o["ty"]
    pl = o.get("place")
    if pl is None:
        return None
    for e in reversed(pl["p"]):
        if e[0] == "field":
            return e[2]
        if e[0] == "deref":
            continue
        return None
    t = mir["locals"][pl["l"]]["ty"]
    for _ in pl["p"]:
        t = t.get("t", t) if t["k"] in ("ref", "ptr") else t
    return t


def strip(t):
    while t is not None and t["k"] in ("ref", "ptr"):
        t = t["t"]
    return t


def is_float(t, gen=True):
    """a floating-point type, or a type parameter that stands for one"""
    t = strip(t)
    if t is None:
        return None
    if t["k"] == "prim":
        return t["name"] in ("f64", "f32")
    return True if t["k"] == "param" and gen else None


def prim(t):
    t = strip(t)
    return t["name"] if t is not None and t["k"] == "prim" else None


def calls(mir):
    for i, bb in enumerate(mir["blocks"]):
        t = bb["term"]
        if t["t"] == "call":
            yield bb, t
        for s in bb["st"]:
            if s["s"] == "assign":
                yield bb, s


def fndefs(x):
    """function items mentioned anywhere in an operand (called directly or passed as a value)"""
    if isinstance(x, dict):
        if x.get("k") == "fndef":
            yield x
        for v in x.values():
            yield from fndefs(v)
    elif isinstance(x, list):
        for v in x:
            yield from fndefs(v)


# ------------------------------------------------------------------ C38
def float_const(o):
    """value of a constant operand of type f32"""
    if o.get("op") == "const" and o.get("bits") is not None and prim(o["ty"]) == "f32":
        return struct.unpack("<f", struct.pack("<I", int(o["bits"])))[0]
    return None


def const_def(mir, o, depth=0):
    """the constant an operand is a copy of, if it is one"""
    if o.get("op") == "const":
        return o
    if depth > 8 or o.get("place") is None or o["place"]["p"]:
        return None
    l = o["place"]["l"]
    if l <= mir["argc"]:
        return None
    ds = [s["rv"] for bb in mir["blocks"] for s in bb["st"] if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]]
    if len(ds) == 1 and ds[0]["r"] in ("use", "cast") and not any(bb["term"]["t"] == "call" and bb["term"]["dest"]["l"] == l for bb in mir["blocks"]):
        return const_def(mir, ds[0]["o"], depth + 1)
    return None


def exact_decimal(v):
    """is the f32 exactly the decimal number one would write for it?"""
    import numpy as np
    return Fraction(float(v)) == Fraction(np.format_float_positional(np.float32(v), unique=True))


def conv_tasks(pid, tier):
    yield ("conversions", {}, 200)


def conversions():
    m = world.prog()
    out = []
    for k, b in sorted(bodies(m)):
        w = where.fn_name(m, k)
        for mir in mirs(b):
            inst32 = "f32" in (b["path"] + k) or any(prim(l["ty"]) == "f32" for l in mir["locals"][1:mir["argc"] + 1])
            for bb in mir["blocks"]:
                for s in bb["st"]:
                    if s["s"] != "assign" or s["rv"]["r"] != "cast":
                        continue
                    rv = s["rv"]
                    ln = f" (line {s['sp'][1]})"
                    frm, to = opty(mir, rv["o"]), prim(rv["ty"])
                    f = prim(frm)
                    c = const_def(mir, rv["o"])
                    kind = rv["kind"]
                    if kind not in ("FloatToFloat", "IntToFloat", "FloatToInt", "IntToInt"):
                        continue
                    nm = f"{f or '?'} to {to} in {w}"
                    if to == "f32" and kind in ("FloatToFloat", "IntToFloat") and not inst32:
                        small = kind == "IntToFloat" and f in WIDTH and WIDTH[f] <= 16
                        out.append(Ob(nm, PROVED if small else REFUTED, "" if small else "a value is rounded to single precision whatever the caller's type" + ln, w))
                    elif kind == "FloatToInt":
                        out.append(Ob(nm, UNKNOWN, "a floating-point value is truncated to an integer" + ln, w))
                    elif kind == "IntToInt":
                        ok = f in WIDTH and to in WIDTH and (WIDTH[f] < WIDTH[to] or WIDTH[f] == WIDTH[to] and f[0] == to[0]) or c is not None
                        # sizes and counts exceed 16 bits, and counted responses 32, in ordinary data
                        short = to in WIDTH and (WIDTH[to] <= 16 or WIDTH[to] <= 32 and b["ref"]["name"] == "into_float")
                        out.append(Ob(nm, PROVED if ok else REFUTED if short else UNKNOWN, "" if ok else "an integer is narrowed" + ln, w))
                    else:
                        out.append(Ob(nm, PROVED, "", w))
                t = bb["term"]
                if t["t"] != "call" or t["f"].get("ty", {}).get("k") != "fndef":
                    continue
                fn = t["f"]["ty"]
                ln = f" (line {bb['sp'][1]})"
                n, a = fn["name"], fn["args"]
                numc = fn["crate"] in ("num_traits", "core", "std", "simba", "az")
                if fn["crate"] == "num_traits" and fn["recv"] == "ToPrimitive" and n.startswith("to_"):
                    src, dst = a[0] if a else None, n[3:]
                    nm = f"{n} in {w}"
                    if dst == "f64":
                        out.append(Ob(nm, PROVED, "", w))
                    elif dst == "f32":
                        out.append(Ob(nm, UNKNOWN if inst32 else REFUTED, "a value is rounded to single precision whatever the caller's type" + ln, w))
                    else:
                        out.append(Ob(nm, UNKNOWN, "conversion to an integer" + ln, w))
                elif n in ("from", "into", "from_f32", "cast", "as_", "unwrap_or") and numc or (fn["crate"] == "num_traits" and n.startswith("from_")):
                    # constants and values that enter the caller's type
                    for o in t["args"]:
                        src = prim(opty(mir, o))
                        if src == "f32" and not inst32:
                            c = const_def(mir, o)
                            v = float_const(c) if c is not None else None
                            if v is None:
                                out.append(Ob(f"f32 value through {n} in {w}", UNKNOWN, "a single-precision value enters the computation" + ln, w))
                            else:
                                out.append(Ob(f"constant {v} in {w}", PROVED if exact_decimal(v) else REFUTED, "" if exact_decimal(v) else f"the single-precision constant {v} is not the number written" + ln, w))
                        elif src is not None and src in INTS | {"f64"}:
                            out.append(Ob(f"{src} through {n} in {w}", PROVED, "", w))
    return out


# ------------------------------------------------------------------ C51
DENY = {
    "std::time": "reads a clock", "core::time": "", "std::env": "reads the environment", "std::fs": "touches the file system", "std::net": "uses the network",
    "std::thread::local": "uses thread-local state", "std::thread::": "depends on threads", "std::process": "controls processes", "std::io::stdio::stdin": "reads standard input",
    "std::io::stdio::{": "", "rand::": "draws random numbers", "rand_core::": "draws random numbers", "getrandom::": "draws random numbers", "fastrand::": "draws random numbers",
    "std::hash::random": "uses a randomly seeded hash", "rayon": "evaluates in an unspecified order", "core::sync::atomic": "uses shared mutable state",
    "std::sync::": "uses shared state", "std::collections::hash::": "iterates in a random order",
}
SOFT = ("std::thread::", "std::sync::", "rayon")       # may or may not make a difference
RANDOM_ITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values")


def effect(fn):
    """how a library function makes results depend on more than its arguments (None: it does not)"""
    key = fn["key"]
    if key.startswith("std::collections::hash::"):
        return DENY["std::collections::hash::"] if fn["name"] in RANDOM_ITER else None
    if key.startswith("std::sync::"):
        lazy = any(x in key for x in ("lazy_lock", "::lazy"))
        return None if lazy else DENY["std::sync::"]
    for p, why in DENY.items():
        if why and key.startswith(p):
            return why
    if fn.get("recv") == "IntoIterator" and any(strip(t) is not None and strip(t).get("name") in ("HashMap", "HashSet") for t in fn["args"]):
        return DENY["std::collections::hash::"]
    if key.startswith("ndarray::parallel"):
        return "evaluates in an unspecified order"
    return None


def effect_tasks(pid, tier):
    yield ("effects", {}, 200)


def cell_types(t, seen=()):
    """interior-mutable or address-like types inside a type"""
    if isinstance(t, dict):
        if t.get("k") == "adt" and t.get("name") in ("Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "OnceLock") or t.get("k") == "adt" and str(t.get("name", "")).startswith("Atomic"):
            yield t["name"]
        for v in t.values():
            yield from cell_types(v)
    elif isinstance(t, list):
        for v in t:
            yield from cell_types(v)


def effects():
    m = world.prog()
    out = []
    for s in m["statics"]:
        nm = f"static {s['key'].rsplit('::', 1)[-1]}"
        w = f"{s['sp'][0]}::{s['key'].split('::', 1)[1]}"
        tn = s["ty"].get("name", "")
        if s["mut"]:
            out.append(Ob(nm, REFUTED, "a mutable static keeps state between calls", w))
        elif s["thread_local"] and not s["freeze"]:
            out.append(Ob(nm, REFUTED, "thread-local state survives between calls", w))
        elif s["freeze"] or tn in ("LazyLock", "Lazy", "LazyCell"):
            out.append(Ob(nm, PROVED, "", w))
        else:
            out.append(Ob(nm, REFUTED, "a static with interior mutability keeps state between calls", w))
    # calls, per body
    for k, b in sorted(bodies(m)):
        w = where.fn_name(m, k)
        bad, soft = None, False
        for mir in mirs(b):
            for bb in mir["blocks"]:
                for x in [s.get("rv") for s in bb["st"]] + [bb["term"]]:
                    for fn in fndefs(x):
                        why = effect(fn)
                        if why and bad is None:
                            bad = (fn, why, bb["sp"][1])
                            soft = fn["key"].startswith(SOFT) and "local" not in fn["key"]
                    if isinstance(x, dict) and x.get("r") == "cast" and "ExposeProvenance" in str(x.get("kind")) and bad is None:
                        bad = ({"name": "address"}, "uses the address of a value as a number", bb["sp"][1])
        if bad:
            out.append(Ob(f"{w}", UNKNOWN if soft else REFUTED, f"{bad[0]['name']}: {bad[1]} (line {bad[2]})", w))
        else:
            out.append(Ob(f"{w}", PROVED, "", w))
    # what values of the crate's types can hide
    for k, a in sorted(m["adts"].items()):
        cells = sorted({c for v in a["variants"] for f in v["fields"] for c in cell_types(f["ty"])})
        nm = f"type {a['name']}"
        if cells:
            out.append(Ob(nm, UNKNOWN, f"holds {', '.join(cells)}", k))
        else:
            out.append(Ob(nm, PROVED, "", k))
    return out


# ------------------------------------------------------------------ C52
def norm_bodies(m):
    """path -> normalised MIR (positions and numbering of impls removed)"""
    names = {k: b["path"] for k, b in m["bodies"].items()}

    def sub(x):
        if isinstance(x, dict):
            return {k: sub(v) for k, v in x.items() if k not in ("sp", "span", "extmacro")}
        if isinstance(x, list):
            return [sub(v) for v in x]
        if isinstance(x, str) and x in names:
            return names[x]
        return x
    out = {}
    for k, b in m["bodies"].items():
        if b.get("mir"):
            out.setdefault(b["path"], []).append((k, json.dumps([sub(b["mir"]), sub(b.get("promoted"))], sort_keys=True)))
    return out


def feature_diff():
    a, b = norm_bodies(world.prog("stats")), norm_bodies(world.prog("base"))
    same, diff, only = [], [], []
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            only.append(p)
        elif sorted(x for _, x in a[p]) == sorted(x for _, x in b[p]):
            same.append(p)
        else:
            diff.append(p)
    return same, diff, only, a, b


def feature_tasks(pid, tier):
    from props import rel
    same, diff, only, a, b = feature_diff()
    yield ("features", {}, 200)
    if diff or any(p in b for p in only):
        for r in range(6):
            for fl in rel.itertools.combinations(rel.FLAGS, r):
                for reg in (None, "l2", "l1", "en"):
                    for disp in rel.DISPS:
                        if disp == rel.DISPS[1] and reg is not None and tier == "quick":
                            continue
                        yield ("feature_pair", dict(flags=fl, reg=reg, disp=disp), 200)


def features():
    same, diff, only, a, b = feature_diff()
    out = []
    for p in same:
        out.append(Ob(p, PROVED, "identical with and without the optional features", p))
    if diff or any(p in b for p in only):
        # judged by the results themselves (feature_pair); functions of families and links here
        from props import family
        out += family_pair()
    for p in only:
        if p in b:
            out.append(Ob(p, AGREE, "exists only without the optional features", p))
    return out


def family_pair():
    import fam
    import evalt
    from props import family
    A = {repr(f): f for f in fam.families(world.prog("stats"))}
    B = {repr(f): f for f in fam.families(world.prog("base"))}
    out = []
    for nm in sorted(set(A) | set(B)):
        if nm not in A or nm not in B:
            out.append(Ob(nm, UNKNOWN, "only with some features", nm))
            continue
        fa, fb = A[nm], B[nm]
        sp = family.SPEC.get(fa.name)
        for g, args in (("g", (fam.MU,)), ("ginv", (fam.W,)), ("V", (fam.MU,)), ("A", (fam.ETA,)), ("sat", (fam.Y,)), ("ll", (fam.Y, fam.ETA)), ("nat", (fam.W,)), ("dnat", (fam.W,))):
            w = f"{nm} {g}"
            try:
                x, y = getattr(fa, g)(*args), getattr(fb, g)(*args)
            except Exception as e:
                out.append(Ob(w, UNKNOWN, f"gave up: {type(e).__name__}: {e}"[:150], nm))
                continue
            if x is y:
                out.append(Ob(w, PROVED, "", nm))
                continue
            pts = {"g": "mu", "V": "mu", "sat": "y", "ll": "y"}.get(g)
            pts = (sp[pts] if pts else family.real) if sp else family.real
            bad = None
            for q in family.dense(pts) + family.extra_points(x, pts) + family.extra_points(y, pts):
                v = {a.args[0]: q if k == 0 else family.mpf(-3) / 10 for k, a in enumerate(args)}
                with family.mp.workdps(family.DPS):
                    try:
                        p, r = family.val(x, **v), family.val(y, **v)
                        if not evalt.close(p, r, 1e-12):
                            bad = f"at {q}: {family.mpmath.nstr(p, 10)} and {family.mpmath.nstr(r, 10)}"
                    except Exception:
                        continue
                if bad:
                    break
            out.append(Ob(w, REFUTED if bad else AGREE, bad or "", nm))
    return out


def feature_pair(flags, reg, disp):
    from props import rel
    return rel.pair("C52", "same", flags, reg, disp, other="base")


# ------------------------------------------------------------------ C37
def float_tasks(pid, tier):
    yield ("floats", {}, 200)


def floats():
    """the crate's own functions on the two supported floating-point types"""
    import evalt
    import mpmath
    from interp import Interp, St, Give, Enum, OrdV
    from values import T, B, Ref
    import terms as TT
    m = world.prog()
    tk = [k for k, t in m["traits"].items() if t["name"] == "Float"]
    out = []
    if not tk:
        return [Ob("trait Float", REFUTED, "not found", "src/num.rs")]
    tk = tk[0]
    prims = []
    for im in m["impls"]:
        if im["trait"] and im["trait"]["key"] == tk and im["self"]["k"] == "prim":
            prims.append(im["self"]["name"])
    for t in ("f32", "f64"):
        out.append(Ob(f"{t} is supported", PROVED if t in prims else REFUTED, "" if t in prims else "no implementation", "src/num.rs"))
    inf, nan = float("inf"), float("nan")
    grid = [-inf, -1e30, -2.0, -1.0, -1e-30, -0.0, 0.0, 1e-30, 0.5, 1.0, 2.0, 3.5, 1e30, inf, nan]

    for t in prims:
        ty = {"k": "prim", "name": t}

        def call(name, *args, st):
            I = Interp(m, {"noleaf": True})
            r = I.resolve_trait({"key": tk + "::" + name, "name": name, "args": [ty]}, [ty], list(args), st)
            if r is None:
                raise Give(f"no {name}")
            if callable(r):
                return I, None, r()
            return I, where.fn_name(m, r[0]), I.call_local(r[0], r[1], list(args), st)

        def val(x, **v):
            return evalt.Interp(1, values=v).ev(x, {})
        for name, want in (("half", 0.5), ("two", 2.0)):
            nm = f"{t}::{name}"
            try:
                I, w, v = call(name, st=St())
                r = val(v)
                out.append(Ob(nm, PROVED if r == want else REFUTED, "" if r == want else f"{r} instead of {want}", w or "src/num.rs"))
            except (Give, evalt.OpaqueTerm, AttributeError, TypeError) as e:
                out.append(Ob(nm, UNKNOWN, f"gave up: {e}"[:200], "src/num.rs"))
        nm = f"{t}::sign"
        try:
            I, w, v = call("sign", TT.var("xx"), st=St())
            bad = None
            for x in grid:
                r = val(v, xx=x)
                want = nan if x != x else 0.0 if x == 0 else 1.0 if x > 0 else -1.0
                if not (r == want or r != r and want != want):
                    bad = f"sign({x}) is {r} instead of {want}"
                    break
            out.append(Ob(nm, REFUTED if bad else PROVED, bad or f"{len(grid)} arguments", w or "src/num.rs"))
        except (Give, evalt.OpaqueTerm, AttributeError, TypeError) as e:
            out.append(Ob(nm, UNKNOWN, f"gave up: {e}"[:200], "src/num.rs"))
        nm = f"{t}::total_cmp"
        try:
            st = St()
            st.cells[("a", 0)] = TT.var("xx")
            st.cells[("b", 0)] = TT.var("zz")
            I, w, v = call("total_cmp", Ref(("a", 0)), Ref(("b", 0)), st=st)
            out.append(order_ob(nm, v, w, evalt, grid, TT, OrdV))
        except (Give, evalt.OpaqueTerm, AttributeError, TypeError) as e:
            out.append(Ob(nm, UNKNOWN, f"gave up: {e}"[:200], "src/num.rs"))
    return out


def order_ob(nm, v, w, evalt, grid, TT, OrdV):
    from values import Enum, Gate
    import struct
    a, b = TT.var("xx"), TT.var("zz")
    if isinstance(v, OrdV) and v.total and v.x is a and v.y is b:
        return Ob(nm, PROVED, "the total order of the type, in argument order", w)
    key = lambda x: (lambda i: i if i >= 0 else -(i & 0x7fffffffffffffff) - 1)(struct.unpack("<q", struct.pack("<d", x))[0])

    def order(v, ip):
        if isinstance(v, Gate):
            r = [order(x, ip) for c, x in v.alts if ip.evb(c, {})]
            return r[0] if len(r) == 1 else None
        if isinstance(v, Enum) and set(v.alts) <= {-1, 0, 1}:
            r = [k for k, (c, _) in v.alts.items() if ip.evb(c, {})]
            return r[0] if len(r) == 1 else None
        if isinstance(v, OrdV):
            x, y = ip.ev(v.x, {}), ip.ev(v.y, {})
            return (key(x) > key(y)) - (key(x) < key(y)) if v.total else (x > y) - (x < y) if x == x and y == y else None
        return None
    for x in grid:
        for y in grid:
            got = order(v, evalt.Interp(1, values={"xx": x, "zz": y}))
            if got is None:
                return Ob(nm, UNKNOWN, f"not understood: {v!r:.80}", w)
            want = (key(x) > key(y)) - (key(x) < key(y))
            if got != want:
                return Ob(nm, REFUTED, f"compares {x} with {y} as {got}, expected {want}", w)
    return Ob(nm, PROVED, f"{len(grid) ** 2} pairs", w)
