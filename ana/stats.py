"""Specification of every public statistic of a fit, in the user's coordinates.

b is the public coefficient vector, X the user's design matrix (with the column of ones), f / w the frequency and
variance weights, o the linear offset; g^-1, V, eta, eta', A and the saturated likelihood are the family's
uninterpreted functions.  Nothing here refers to how the crate computes a quantity.
"""
from values import *
import terms as TT
from ctx import *

A = TT.app
NAN = TT.NAN
HALF = num(Fraction(1, 2))
TWO = num(2)


class Spec:
    def __init__(self, c):
        self.c = c

    def eta(s, i, q=None):
        c = s.c
        q = q or c.b
        return TT.add(c.sumk(lambda k: c.X(i, k) * q(k)), c.off(i))

    def mean(s, i, q=None): return A("ginv", s.eta(i, q))
    def V(s, i, q=None): return A("V", s.mean(i, q))
    def dn(s, i, q=None): return A("dnat", s.eta(i, q))
    def e(s, i, q=None): return s.c.y(i) - s.mean(i, q)

    def ll(s, i, q=None):
        n = A("nat", s.eta(i, q))
        return s.c.y(i) * n - A("A", n)

    # penalty acts on the internally scaled, non-intercept coefficients
    def pen(s, q):
        c = s.c
        r = ZERO
        if c.reg in ("l2", "en"):
            r = r - HALF * TT.var("l2") * c.sumk(lambda k: TT.ite(c.isint(k), ZERO, (c.sdk(k) * q(k)) ** 2))
        if c.reg in ("l1", "en"):
            r = r - TT.var("l1") * c.sumk(lambda k: TT.ite(c.isint(k), ZERO, A("abs", c.sdk(k) * q(k))))
        return r

    def dpen(s, q, k):
        c = s.c
        r = ZERO
        if c.reg in ("l2", "en"):
            r = r - TT.var("l2") * c.sdk(k) ** 2 * q(k)
        if c.reg in ("l1", "en"):
            z = c.sdk(k) * q(k)
            sg = TT.ite(TT.eq(z, ZERO), ZERO, A("signum", z))
            r = r - TT.var("l1") * c.sdk(k) * sg
        return TT.ite(c.isint(k), ZERO, r)

    def hpen(s, a, bb):
        """negative Hessian of the penalty"""
        c = s.c
        if c.reg in ("l2", "en"):
            return TT.ite(TT.eq(a, bb) & ~c.isint(a), TT.var("l2") * c.sdk(a) ** 2, ZERO)
        return ZERO

    def like(s, q=None):
        return s.c.sumn(lambda i: s.c.wt(i) * s.ll(i, q))

    def reglike(s, q): return s.like(q) + s.pen(q)

    def score(s, q, k):
        c = s.c
        return c.sumn(lambda i: c.wt(i) * s.dn(i, q) * s.e(i, q) * c.X(i, k)) + s.dpen(q, k)

    def Fdata(s, q, a, bb):
        c = s.c
        return c.sumn(lambda i: c.wt(i) * s.dn(i, q) ** 2 * s.V(i, q) * c.X(i, a) * c.X(i, bb))

    def F(s, q, a, bb): return s.Fdata(q, a, bb) + s.hpen(a, bb)

    def Finv(s, q, a, bb):
        r, k = TT.idx("r"), TT.idx("c")
        return TT.inv_of(s.F(q, r, k), r, k, s.c.K, a, bb)

    def devterm(s, i):
        return TWO * s.c.w(i) * (A("sat", s.c.y(i)) - s.ll(i))

    def deviance(s): return s.c.sumn(lambda i: s.c.fr(i) * s.devterm(i))
    def nobs(s): return s.c.sumn(lambda i: s.c.fr(i)) if "freqs" in s.c.flags else N
    def sw(s): return s.c.sumn(lambda i: s.c.wt(i)) if s.c.flags & {"freqs", "weights"} else N

    def neff(s):
        if "weights" not in s.c.flags:
            return s.nobs()
        return s.sw() ** 2 / s.c.sumn(lambda i: s.c.fr(i) * s.c.w(i) ** 2)

    def phi(s):
        if s.c.disp == "NoDispersion":
            return ONE
        K, ne = s.c.K, s.neff()
        sc = TT.ite(TT.le(ne, K), ZERO, (ONE - K / ne) * s.sw())
        return s.deviance() / sc

    def sumlnw(s):
        return s.c.sumn(lambda i: s.c.fr(i) * A("ln", s.c.w(i))) if "weights" in s.c.flags else ZERO

    def hat(s, i, j):
        c = s.c
        return s.V(i) * s.dn(i) * c.wt(j) * s.dn(j) * c.sumk(lambda a: c.sumk(lambda k: c.X(i, a) * s.Finv(c.b, a, k) * c.X(j, k)))

    def h(s, i): return s.hat(i, i)

    def cov(s, a, bb):
        c = s.c
        if c.reg is None:
            return s.phi() * s.Finv(c.b, a, bb)
        return s.phi() * c.sumk(lambda k: c.sumk(lambda l: s.Finv(c.b, a, k) * s.Fdata(c.b, k, l) * s.Finv(c.b, l, bb)))

    def pear(s, i): return TT.sqrt(s.c.w(i) / s.V(i)) * s.e(i)
    def devres(s, i): return A("signum", s.e(i)) * TT.sqrt(s.devterm(i))
    def work(s, i): return s.e(i) / (s.dn(i) * s.V(i))

    # one-step deletion: the observation's fr copies ... a single group
    def dev_loo(s, i):
        r = s.h(i) / (ONE - s.h(i))
        return s.devterm(i) + r * (r + TWO) * s.pear(i) ** 2

    def phi_loo(s, i):
        c = s.c
        if c.disp == "NoDispersion":
            return ONE
        r = s.h(i) / (ONE - s.h(i))
        tot = s.deviance() - c.fr(i) * (s.devterm(i) + r * s.pear(i) ** 2)
        v1 = s.sw() - c.wt(i)
        if "weights" not in c.flags:
            return tot / (s.nobs() - c.fr(i) - c.K)
        v2 = c.sumn(lambda k: c.fr(k) * c.w(k) ** 2) - c.fr(i) * c.w(i) ** 2
        return tot / (v1 - v2 / v1 * c.K)

    def ybar(s):
        return s.c.sumn(lambda i: s.c.wt(i) * s.c.y(i)) / s.sw()

    def null(s):
        """(null likelihood, null parameters) when no re-fit is needed"""
        c = s.c
        if "offset" in c.flags and c.int:
            return None
        b0 = A("g", s.ybar()) if c.int else ZERO
        q = lambda k: TT.ite(c.isint(k), b0, ZERO)
        if "offset" in c.flags:
            t = lambda i: c.off(i)
        else:
            t = lambda i: b0
        like = c.sumn(lambda i: c.wt(i) * (c.y(i) * A("nat", t(i)) - A("A", A("nat", t(i)))))
        return like, q

    def xbar(s, j):
        return s.c.sumn(lambda i: s.c.wt(i) * s.c.x(i, j)) / s.sw()

    def part(s, i, j):
        c = s.c
        bj = c.b(TT.add(j, ONE)) if c.int else c.b(j)
        xc = c.x(i, j) - s.xbar(j) if c.int else c.x(i, j)
        return s.work(i) + xc * bj

    def infl(s, i, k):
        c = s.c
        return c.sumk(lambda a: s.Finv(c.b, k, a) * c.X(i, a)) * c.wt(i) * s.dn(i) * s.e(i) / (ONE - s.h(i))


i, j = D[0], D[1]


def vec(f): return Arr((N,), f(i))
def par(s, f): return Arr((s.c.K,), f(i))
def parmat(s, f): return Arr((s.c.K, s.c.K), f(i, j))


def Q(c, nm="q"):
    return Arr((c.K,), A(nm, D[0])), (lambda k: A(nm, k))


PRED_X = Arr((NN, PX), A("xx", D[0], D[1]))


def pred(c, off):
    lin = c.sumk(lambda k: (TT.ite(TT.eq(k, ZERO), ONE, A("xx", i, k - ONE)) if c.int else A("xx", i, k)) * c.b(k))
    return Arr((NN,), A("ginv", lin + (A("oo", i) if off else ZERO)))


def quad(c, u, M):
    return c.sumk(lambda a: c.sumk(lambda k: u(a) * M(a, k) * u(k)))


# ---------------------------------------------------------------- obligations: name -> (call, spec) per case
def likelihood_stats(c, s):
    yield "model_like", None, lambda: c.run_like
    yield "deviance", (), lambda: s.deviance()
    yield "aic", (), lambda: s.deviance() + TWO * c.K - TWO * s.sumlnw()
    yield "bic", (), lambda: A("ln", s.nobs()) * c.K - TWO * c.pf["model_like"] - TWO * s.sumlnw()
    yield "lr_test_against", (Q(c)[0],), lambda: TWO * (c.pf["model_like"] - s.reglike(Q(c)[1]))
    yield "ndf", (), lambda: s.nobs() - c.K
    yield "test_ndf", (), lambda: PX


def table(c):
    """[(group, method, args, spec)]"""
    s = Spec(c)
    qa, q = Q(c)
    T_ = []
    add = lambda g, m, a, f: T_.append((g, m, a, f))
    ml = lambda: c.pf["model_like"]
    add("like", "deviance", (), lambda: s.deviance())
    add("like", "aic", (), lambda: s.deviance() + TWO * c.K - TWO * s.sumlnw())
    add("like", "bic", (), lambda: A("ln", s.nobs()) * c.K - TWO * ml() - TWO * s.sumlnw())
    add("test", "lr_test_against", (qa,), lambda: TWO * (ml() - s.reglike(q)))
    add("like", "ndf", (), lambda: s.nobs() - c.K)
    add("test", "test_ndf", (), lambda: PX)
    add("disp", "dispersion", (), lambda: s.phi())
    add("info", "fisher", (qa,), lambda: parmat(s, lambda a, k: s.F(q, a, k)))
    add("info", "score", (qa,), lambda: par(s, lambda k: s.score(q, k)))
    add("info", "covariance", (), lambda: parmat(s, s.cov))
    add("test", "wald_z", (), lambda: par(s, lambda k: c.b(k) / TT.sqrt(s.cov(k, k))))
    add("test", "wald_test_against", (qa,), lambda: quad(c, lambda k: c.b(k) - q(k), lambda a, k: s.F(q, a, k)))
    add("test", "score_test_against", (qa,), lambda: quad(c, lambda k: s.score(q, k), lambda a, k: s.Finv(q, a, k)))
    add("infl", "hat", (), lambda: Arr((N, N), s.hat(i, j)))
    add("infl", "leverage", (), lambda: vec(s.h))
    add("infl", "cooks", (), lambda: vec(lambda i: s.pear(i) ** 2 * s.h(i) / (c.K * s.phi() * (ONE - s.h(i)) ** 2)))
    add("infl", "infl_coef", (), lambda: Arr((N, c.K), s.infl(i, j)))
    add("resid", "resid_resp", (), lambda: vec(s.e))
    add("resid", "resid_pear", (), lambda: vec(s.pear))
    add("resid", "resid_dev", (), lambda: vec(s.devres))
    add("resid", "resid_work", (), lambda: vec(s.work))
    add("resid", "resid_part", (), lambda: Arr((N, PX), s.part(i, j)))
    add("resid", "resid_pear_std", (), lambda: vec(lambda i: s.pear(i) / TT.sqrt(s.phi() * (ONE - s.h(i)))))
    add("resid", "resid_dev_std", (), lambda: vec(lambda i: s.devres(i) / TT.sqrt(s.phi() * (ONE - s.h(i)))))
    add("resid", "resid_student", (), lambda: vec(lambda i: A("signum", s.e(i)) * TT.sqrt(s.dev_loo(i) / s.phi_loo(i))))
    add("pred", "predict", (PRED_X, some(Arr((NN,), A("oo", D[0])))), lambda: pred(c, True))
    add("pred", "predict", (PRED_X, NONE), lambda: pred(c, False))
    nl = s.null()
    if nl:
        l0, q0 = nl
        add("test", "null_like", (), lambda: l0)
        add("test", "lr_test", (), lambda: TWO * (ml() - l0))
        add("test", "wald_test", (), lambda: quad(c, lambda k: c.b(k) - q0(k), lambda a, k: s.F(q0, a, k)))
        add("test", "score_test", (), lambda: quad(c, lambda k: s.score(q0, k), lambda a, k: s.Finv(q0, a, k)))
    Pn = lambda z: TWO * (ONE - A("cdf_Normal", ZERO, ONE, A("abs", z)))
    z = lambda k: c.b(k) / TT.sqrt(s.cov(k, k))
    if c.disp == "NoDispersion":
        add("pval", "pvalue_wald", (), lambda: par(s, lambda k: Pn(z(k))))
    else:
        add("pval", "pvalue_wald", (), lambda: par(s, lambda k: TT.ite(TT.lt(ZERO, s.nobs() - c.K), TWO * (ONE - A("cdf_StudentsT", ZERO, ONE, s.nobs() - c.K, A("abs", z(k)))), NAN)))
    if nl:
        add("pval", "pvalue_lr_test", (), lambda: ONE - A("cdf_ChiSquared", PX, TWO * (ml() - nl[0])))
    add("resid", "resid_quantile", (), lambda: vec(lambda i: A("icdf_Normal", ZERO, ONE, A("cdf_M", s.mean(i), s.phi() / c.w(i), c.y(i)))))
    return T_
