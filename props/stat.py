"""C01-C09: public statistics of a fit equal their textbook formulas, in every configuration."""
import itertools
import world
import where
import decide
import stats
from ctx import *
from values import vsubst, same
from model import FLAGS
from props.refit import null_one, exact_one, loo_one, linear_one

METHODS = {
    "C01": ["deviance", "aic", "bic", "ndf"],
    "C02": ["fisher", "score"],
    "C03": ["dispersion", "covariance"],
    "C04": ["lr_test_against", "test_ndf", "wald_z", "wald_test_against", "score_test_against", "lr_test", "wald_test", "score_test"],
    "C06": ["pvalue_wald", "pvalue_lr_test"],
    "C07": ["hat", "leverage", "cooks", "infl_coef"],
    "C08": ["resid_resp", "resid_pear", "resid_dev", "resid_work", "resid_part", "resid_pear_std", "resid_dev_std", "resid_student", "resid_quantile"],
    "C09": ["predict"],
}
REGS = (None, "l2", "l1", "en")
DISPS = ("FreeDispersion", "NoDispersion")


def configs(tier):
    for r in range(6):
        for fl in itertools.combinations(FLAGS, r):
            for reg in REGS:
                for disp in DISPS:
                    yield fl, reg, disp


def label(flags, reg, disp):
    return f"[{','.join(flags) or 'plain'}; penalty {reg or 'none'}; {disp}]"


def tasks(pid, tier):
    for fl, reg, disp in configs(tier):
        kw = dict(pid=pid, flags=fl, reg=reg, disp=disp)
        if pid == "C14":
            if disp == DISPS[0]:
                yield ("linear_one", dict(pid=pid, flags=fl, reg=reg), 200)
            continue
        if pid == "C05":
            yield ("null_one", kw, 200)
            continue
        yield ("one", dict(prove=True, **kw), 200)
        if pid == "C06":
            yield ("exact_one", kw, 200)
        if pid == "C07" and disp == DISPS[0]:
            yield ("loo_one", kw, 200)


def one(pid, flags, reg, disp, prove):
    m = world.prog()
    c = Ctx(m, flags, reg, disp)
    lab = label(flags, reg, disp)
    out = []
    decide.NF_LIMIT = 1.0 if world.TIER == "quick" else 8.0
    for g, meth, args, sp in stats.table(c):
        if meth not in METHODS[pid]:
            continue
        nm = f"{meth}{'(no offset)' if meth == 'predict' and args[1] is NONE else ''} {lab}"
        w = where.fn_name(m, c.I.one("Fit", meth)) if c.I.find("Fit", meth) else meth
        try:
            v = c.call(meth, *args)
            if isinstance(v, Enum) and "Result" in v.key:
                v = unwrap(v)
        except Give as e:
            out.append(decide.Ob(nm, decide.UNKNOWN, f"gave up: {e}", w))
            continue
        want = sp()
        o = decide.decide(nm, v, want, w, seeds=world.seeds(), prove=prove)
        if o.verdict == decide.REFUTED:
            # the likelihood recorded by the fit is that of its coefficients (C23): the two are interchangeable
            ml = c.I.runs[0]["like"]
            to = {ml: stats.Spec(c).reglike(c.b)}
            v1, want1 = vsubst(v, to), vsubst(want, to)
            if not (same(v1, v) and same(want1, want)):
                o = decide.decide(nm, v1, want1, w, seeds=world.seeds(), prove=False)
        out.append(o)
    return out
