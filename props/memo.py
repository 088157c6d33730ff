"""C50: results do not depend on which other results were asked for before."""
import world
import where
import decide
import stats
from ctx import *
from values import same
from interp import St, constrain
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN
from lib import once_content, Struct as _S
from loops import v_restrict
from props.stat import configs, label
from props.refit import names_in, vmap_all


def onces(v, path=()):
    """memo cells within a value: [(path, content)]"""
    c = once_content(v)
    if c is not None:
        return [(path, c)]
    out = []
    if isinstance(v, Struct):
        for i, x in enumerate(v.fields):
            out += onces(x, path + (("f", i),))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            out += onces(x, path + (("f", i),))
    elif isinstance(v, Enum):
        for k, (c, f) in v.alts.items():
            for i, x in enumerate(f):
                out += onces(x, path + (("v", k), ("f", i)))
    return out


def plug(v, new, path=()):
    if path in new:
        return Struct("$once", "OnceCell", (new[path],))
    if isinstance(v, Struct) and v.key != "$once":
        return Struct(v.key, v.name, [plug(x, new, path + (("f", i),)) for i, x in enumerate(v.fields)])
    if isinstance(v, Tup):
        return Tup([plug(x, new, path + (("f", i),)) for i, x in enumerate(v.items)])
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {k: (c, tuple(plug(x, new, path + (("v", k), ("f", i))) for i, x in enumerate(f))) for k, (c, f) in v.alts.items()})
    return v


def strip(v):
    """the value without its memo cells"""
    return plug(v, {p: NONE for p, _ in onces(v)})


class Memo:
    def __init__(self, flags, reg, disp):
        m = world.prog()
        self.c = Ctx(m, flags, reg, disp, cfg={"memo": True})
        self.m = m
        self.fit = self.c.fit
        self.env = None
        self.cells = onces(self.fit)

    def name(self, path):
        v, n = self.fit, []
        for k, i in path:
            if isinstance(v, Struct):
                ad = self.c.I.adts.get(v.key)
                n.append(ad["variants"][0]["fields"][i]["name"] if ad else str(i))
                v = v.fields[i]
            elif isinstance(v, Tup):
                v = v.items[i]
            else:
                n.append("…")
                break
        return ".".join(n)

    def run(self, meth, args, fit):
        """(result, fit afterwards, path condition)"""
        c = self.c
        c.d.st = c.base.copy()
        cell = ("memo", 0)
        c.d.st.cells[cell] = fit
        k = c.I.one("Fit", meth)
        gens = [g for g in c.I.bodies[k]["generics"] if g]
        v = c.I.call_local(k, {**{g: P(g) for g in gens}, **c.d.env, **(self.env or {})}, [Ref(cell)] + list(args), c.d.st)
        st = c.d.st
        v = deref(c.I, st, v)
        return one_name(v), one_name(st.cells[cell]), one_name(st.pc)


def one_name(v):
    """nested fits are named by the call path: keep what tells them apart only"""
    m = {}
    for x in names_in(v):
        head, at = x.args[0].split("@", 1)
        t = "/".join(at.split("/")[-3:])
        if t != at:
            m[x] = TT.app(head + "@" + t, *x.args[1:]) if x.op == "app" else TT.var(head + "@" + t)
    return vmap_all(v, lambda t: TT.subst(t, m)) if m else v


def deref(I, st, v):
    if isinstance(v, Ref):
        return deref(I, st, I.load(st, v))
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {k: (c, tuple(deref(I, st, x) for x in f)) for k, (c, f) in v.alts.items()})
    if isinstance(v, Tup):
        return Tup([deref(I, st, x) for x in v.items])
    if isinstance(v, Gate):
        return Gate([(c, deref(I, st, x)) for c, x in v.alts])
    return v


def cmpv(nm, a, b, w, assume):
    """is a the same as b?"""
    a, b = v_restrict(a, assume), v_restrict(b, assume)
    if same(a, b):
        return Ob(nm, PROVED, "", w)
    if isinstance(a, Enum) and isinstance(b, Enum) and a.key == b.key:
        worst = Ob(nm, PROVED, "", w)
        rank = [PROVED, AGREE, UNKNOWN, REFUTED]
        for k in set(a.alts) | set(b.alts):
            ca, fa = a.alts.get(k, (FALSE, None))
            cb, fb = b.alts.get(k, (FALSE, None))
            os = []
            if ca is not cb:
                os.append(decide.decide(nm, ca, cb, w, seeds=world.seeds(), guard=None if assume is TRUE else assume))
            if fa is not None and fb is not None and k == 0:
                os += [cmpv(nm, x, y, w, assume) for x, y in zip(fa, fb)]
            for o in os:
                if rank.index(o.verdict) > rank.index(worst.verdict):
                    worst = o
        return worst
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        os = [cmpv(nm, x, y, w, assume) for x, y in zip(a.items, b.items)]
        return next((o for v in (REFUTED, UNKNOWN, AGREE) for o in os if o.verdict == v), Ob(nm, PROVED, "", w))
    return decide.decide(nm, a, b, w, seeds=world.seeds(), guard=None if assume is TRUE else assume)


def tasks(pid, tier):
    for fl, reg, disp in configs(tier):
        if tier == "quick" and reg != "l2" and len(fl) not in (0, 1, 5):
            continue
        yield ("one", dict(flags=fl, reg=reg, disp=disp), 200)


def model_of(I, meth):
    """the model type a method of the fit is specific to (None: any)"""
    t = I.bodies[I.one("Fit", meth)]["mir"]["locals"][1]["ty"]
    t = t["t"] if t["k"] == "ref" else t
    a = t.get("args") or [{"k": "param"}]
    return None if a[0]["k"] == "param" else a[0]


def one(flags, reg, disp):
    M = Memo(flags, reg, disp)
    c = M.c
    pubs = sorted(b["ref"]["name"] for b in M.m["bodies"].values() if b.get("pub") and b["ref"].get("recv") == "Fit" and b.get("mir") and b["mir"]["argc"] == 1 and b.get("kind") == "AssocFn")
    pubs = [p for p in pubs if len(c.I.find("Fit", p)) == 1]
    spec = {}
    for p in pubs:
        t = model_of(c.I, p)
        if t is not None:
            spec.setdefault(repr(t), (t, []))[1].append(p)
    special = {p for _, ps in spec.values() for p in ps}
    out = group(M, flags, reg, disp, [p for p in pubs if p not in special], True)
    if disp == "FreeDispersion" and not (flags and world.TIER == "quick" and len(flags) not in (2, 5)):
        for t, ps in spec.values():
            M.env = {"M": t}
            out += group(M, flags, reg, disp, ps + [p for p in ("deviance", "null_like", "lr_test", "dispersion") if p in pubs], False)
    return out


def group(M, flags, reg, disp, pubs, table):
    c = M.c
    lab = label(flags, reg, disp)
    decide.NF_LIMIT = 0.3
    calls = []
    for g, meth, args, sp in stats.table(c) if table else ():
        if meth not in [x for x in pubs] and not args:
            continue
        if not any(x[0] == meth and len(x[1]) == len(args) and all(same(p, q) for p, q in zip(x[1], args)) for x in calls):
            calls.append((meth, args))
    # every other public method without arguments
    for nm in pubs:
        if not any(x[0] == nm for x in calls):
            calls.append((nm, ()))
    qa = stats.Q(c)[0]
    qb = stats.Q(c, "q2")[0]
    for meth, args in list(calls):
        if any(a is qa or same(a, qa) for a in args):
            calls.append((meth, tuple(qb if same(a, qa) else a for a in args)))
    out, first, V = [], {}, {}
    for i, (meth, args) in enumerate(calls):
        w = where.fn_name(M.m, c.I.one("Fit", meth)) if c.I.find("Fit", meth) else meth
        nm = f"{meth}{' (second argument)' if any(same(a, qb) for a in args) else ''}{' (no offset)' if meth == 'predict' and args[1] is NONE else ''}"
        try:
            v, f, pc = M.run(meth, args, M.fit)
        except Give as e:
            out.append(Ob(f"{nm} {lab}", UNKNOWN, f"gave up: {e}", w))
            continue
        first[i] = (nm, w, v, pc)
        if not same(strip(f), strip(M.fit)):
            out.append(Ob(f"{nm} leaves the fit unchanged {lab}", REFUTED, "the call changes the fit outside its memo cells", w))
        for p, cont in onces(f):
            full, x = cont.alts.get(1, (FALSE, None))
            if full is FALSE:
                continue
            if p not in V:
                V[p] = (full, x[0], nm)
            else:
                a = V[p]
                o = cmpv(f"{nm} and {a[2]} store the same in {M.name(p)} {lab}", x[0], a[1], w, full & a[0])
                out.append(o)
    data = next((i for i, f in enumerate(c.I.adts[M.fit.key]["variants"][0]["fields"]) if f["name"] == "data"), None)
    # any subset of the memo cells filled
    new = {}
    for p, (full, x, nm) in V.items():
        g = full & TT.boolvar("filled " + M.name(p))
        new[p] = Enum(OPTION, "Option", {0: (~g, ()), 1: (g, (x,))})
    filled = plug(M.fit, new)
    for i, (meth, args) in enumerate(calls):
        if i not in first:
            continue
        nm, w, v0, pc0 = first[i]
        try:
            v, f, pc = M.run(meth, args, filled)
        except Give as e:
            out.append(Ob(f"{nm} after any other calls {lab}", UNKNOWN, f"gave up: {e}", w))
            continue
        o = cmpv(f"{nm} after any other calls {lab}", v, v0, w, pc & pc0)
        out.append(o)
        for p, cont in onces(f):
            full, x = cont.alts.get(1, (FALSE, None))
            if p in V and full is not FALSE and not same(x[0], V[p][1]):
                out.append(cmpv(f"{nm} keeps {M.name(p)} {lab}", x[0], V[p][1], w, full & V[p][0]))
    return out
