"""Model of driving the iterative solver to completion (itertools::process_results over the IRLS iterator)."""
from values import *
import terms as TT
from interp import some, NONE, ok, err, Enum, RESULT, Give, Diverge

ITER = "core::iter::traits::iterator::Iterator"


def P(n):
    return {"k": "param", "name": n}


def freevars(*vs):
    r = set()
    for v in vs:
        try:
            r |= vfv(v)
        except Exception:
            pass
    return sorted((x for x in r if x not in D and x is not SQ), key=lambda t: t.id)


def is_solver(I, v):
    """is v the local iterator that drives the fit?"""
    if not isinstance(v, Struct) or v.key not in I.adts:
        return False
    ns = {f["name"] for f in I.adts[v.key]["variants"][0]["fields"]}
    return {"guess", "options", "data"} <= ns and any(im["self"].get("key") == v.key for im in I.impls_by_trait.get(ITER, []))


def impl_of(I, key):
    return next((im for im in I.impls_by_trait.get(ITER, []) if im["self"].get("key") == key), None)


def chase(I, st, ref):
    """the reference to the object itself"""
    for _ in range(20):
        if not isinstance(ref, Ref):
            return None
        v = I.read(st, ref.cell, ref.path)
        if not isinstance(v, Ref):
            return ref
        ref = v
    return None


def start(I, st, ref, irls):
    """drive the solver to its end: (run, sequence of its steps), or why not"""
    import loops
    ad = I.adts[irls.key]
    im = impl_of(I, irls.key)
    step_ty = find_step(I, im["types"].get("Item"))
    if step_ty is None:
        return "step type"
    names = [f["name"] for f in ad["variants"][0]["fields"]]
    snames = [f["name"] for f in I.adts[step_ty["key"]]["variants"][0]["fields"]]
    g0 = irls.fields[names.index("guess")]
    if not isinstance(g0, Arr):
        return "initial guess unknown"
    nruns = I.cfg.setdefault("_runs", {})
    main = "main" not in nruns or nruns["main"] == tuple(I.stack)
    if main:
        nruns["main"] = tuple(I.stack)
        nm = ""
    else:
        nm = "@" + "/".join(k.rsplit("::", 1)[1] for k in I.stack if "closure" not in k)[-40:]
    fvs = freevars(irls)
    beta = lambda *ix: TT.app("beta" + nm, *fvs, *ix)
    like = TT.app("mlike" + nm, *fvs) if fvs else TT.var("mlike" + nm)

    def step(gu, li):
        return Struct(step_ty["key"], step_ty["name"], [gu if n == "guess" else li if n == "like" else Opq(n) for n in snames])
    best = step(Arr(g0.shape, beta(D[0])), like)
    run = {"name": nm, "irls0": irls, "guard": st.pc, "stack": list(I.stack), "best": None, "beta": Arr(g0.shape, beta(D[0])), "like": like, "fvs": fvs, "step_key": step_ty["key"]}
    # everything a call of next() can change is unknown afterwards
    if "next" in im["items"]:
        if not I.cfg.get("skip_next"):
            b = {p["name"]: P(p["name"]) for p in im["self"].get("args", []) if p["k"] == "param"}
            loops.havoc_fix(I, st, lambda s: I.call_local(im["items"]["next"], b, [ref], s))
    else:
        I.store(st, ref, Opq("irls"))
    mode = I.cfg.get("irls", "some")
    size = TT.app("nsteps" + nm, *fvs) if fvs else TT.var("nsteps" + nm)
    if mode == "some":
        run["best"] = some(best)
    elif mode == "none":
        run["best"] = NONE
        size = ZERO
    else:
        run["best"] = some(best, TT.boolvar("any_step" + nm))
    I.runs.append(run)
    irls1 = I.load(st, ref)
    if isinstance(irls1, Struct):
        # the recorded history is some sequence of steps
        fs = list(irls1.fields)
        for q, fd in enumerate(ad["variants"][0]["fields"]):
            if step_ty["key"] in str(fd.get("ty")) and "Vec" in str(fd.get("ty")) and not I.cfg.get("skip_next"):
                fs[q] = Seq(TT.var("n_hist" + nm), step(Arr(g0.shape, TT.app("hbeta" + nm, SQ, D[0])), TT.app("hlike" + nm, SQ)))
        irls1 = Struct(irls1.key, irls1.name, fs)
        I.store(st, ref, irls1)
    run["irls1"] = irls1
    seq = Seq(size, step(Arr(g0.shape, TT.app("stepbeta" + nm, SQ, *fvs, D[0])), TT.app("steplike" + nm, SQ, *fvs)), ZERO, ("steps", run))
    return run, seq


def find_step(I, t):
    """the step type within the iterator's item type"""
    if not isinstance(t, dict):
        return None
    if t["k"] == "adt" and t["key"] in I.adts and {f["name"] for f in I.adts[t["key"]]["variants"][0]["fields"]} >= {"guess", "like"}:
        return t
    for x in t.get("args", []) or []:
        r = find_step(I, x)
        if r is not None:
            return r
    return None


def outcome(I, st, run, v, each=False):
    """v, unless the solver stops with an error"""
    nm = run["name"]
    if I.cfg.get("irls_err"):
        okc = TT.bapp("step_ok" + nm, SQ) if each else TT.boolvar("irls_ok" + nm)
        return Enum(RESULT, "Result", {0: (okc, (v,)), 1: (~okc, (TT_err(I, st, nm),))})
    return ok(v)


def process_results(I, st, fn, a, raw):
    ref = chase(I, st, raw[0])
    irls = a[0]
    if not isinstance(ref, Ref) or not is_solver(I, irls):
        return Opq("process_results")
    r = start(I, st, ref, irls)
    if isinstance(r, str):
        return Opq("process_results: " + r)
    run, seq = r
    v = I.apply(raw[1], [seq], st)
    run["selected"] = v
    return outcome(I, st, run, v)


class NeedStream(Exception):
    """a loop steps the solver: the stream of its steps has to exist before the loop"""

    def __init__(self, ref):
        self.ref = ref


def stream_key(ref):
    return ("stream", ref.cell, ref.path)


def open_stream(I, st, ref):
    r = start(I, st, ref, I.load(st, ref))
    if isinstance(r, str):
        return False
    run, seq = r
    st.cells[stream_key(ref)] = Seq(seq.size, outcome(I, st, run, seq.elem, True), ZERO, ("stream", run))
    return True


def stream_next(I, st, ref):
    """one call of the solver's next()"""
    k = stream_key(ref)
    if k not in st.cells:
        if I.cfg.get("_loops", 0):
            raise NeedStream(ref)
        if not open_stream(I, st, ref):
            return Opq("solver steps")
    s = st.cells[k]
    if not isinstance(s, Seq):
        return Opq("solver steps")
    c = TT.lt(s.pos, s.size)
    st.cells[k] = Seq(s.size, s.elem, ite(c, TT.add(s.pos, ONE), s.pos), s.tag)
    return some(s.at(s.pos), c)


def stream_seq(I, st, ref):
    """all remaining steps of the solver (Ok or Err each)"""
    k = stream_key(ref)
    if k not in st.cells:
        if I.cfg.get("_loops", 0):
            raise NeedStream(ref)
        if not open_stream(I, st, ref):
            return None
    s = st.cells[k]
    if isinstance(s, Seq):
        st.cells[k] = Seq(s.size, s.elem, s.size, s.tag)
        return s
    return None


def TT_err(I, st, nm):
    return Struct("$irls_error", "irls_error", (Str(nm),))
