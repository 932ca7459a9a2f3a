"""C18: beta regression, negative binomial and zero-inflated models (pyglm.betareg, pyglm.nb2, pyglm.zimodels, pyglm2.zinf)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from scipy.special import gammaln
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C18", "Beta, negative binomial and zero-inflated regression")
P.assumptions = ["responses lie in the model's support", "fits are judged where the likelihood has a finite, well conditioned maximum"]
INV = {"logit": lambda z: 1 / (1 + np.exp(-z)), "probit": sp.special.ndtr, "cloglog": lambda z: -np.expm1(-np.exp(z)), "log": np.exp, "identity": lambda z: z, "sqrt": np.square}
LN = {"logit": "LogitLink", "probit": "ProbitLink", "cloglog": "CloglogLink", "log": "LogLink"}


def link_of(pack, name):
    import importlib
    return getattr(importlib.import_module(f"pystatsm.{pack}.links"), LN[name])


def model_cls(kind):
    if kind == "zip1":
        from pystatsm.pyglm.zimodels import ZIP as M
    elif kind == "beta":
        from pystatsm.pyglm.betareg import BetaReg as M
    elif kind == "nb2":
        from pystatsm.pyglm.nb2 import NegativeBinomial as M
    elif kind == "zip2":
        from pystatsm.pyglm2.zinf import ZeroInflatedPoisson as M
    else:
        from pystatsm.pyglm2.zinf import ZeroInflatedNBinom as M
    return M


# reference log-likelihoods, per row, from scipy's densities
def ll_beta(th, X, Z, y, links):
    p = X.shape[1]
    mu, phi = INV[links[0]](X @ th[:p]), INV[links[1]](Z @ th[p:])
    return sp.stats.beta(mu * phi, (1 - mu) * phi).logpdf(y)


def ll_nb2(th, X, Z, y, links):
    mu, k = np.exp(X @ th[:-1]), np.exp(th[-1])
    return sp.stats.nbinom(1 / k, 1 / (1 + k * mu)).logpmf(y)


def ll_zip(th, X, Z, y, links):
    p = X.shape[1]
    mu, om = INV[links[0]](X @ th[:p]), INV[links[1]](Z @ th[p:])
    return np.log(om * (y == 0) + (1 - om) * sp.stats.poisson(mu).pmf(y))


def ll_zinb(th, X, Z, y, links):
    p, k = X.shape[1], np.exp(th[-1])
    mu, om = INV[links[0]](X @ th[:p]), INV[links[1]](Z @ th[p:-1])
    return np.log(om * (y == 0) + (1 - om) * sp.stats.nbinom(1 / k, 1 / (1 + k * mu)).pmf(y))


LL = {"beta": ll_beta, "nb2": ll_nb2, "zip1": ll_zip, "zip2": ll_zip, "zinb": ll_zinb}


def design(rng, n, p, intercept=True):
    X = rng.standard_normal((n, p)) * 0.7
    if intercept:
        X[:, 0] = 1
    return X


def count_link(case):
    return case.get("lc", "log") if case["kind"] in ("zip2", "zinb") else "log"


def gen(case):
    kind, n, p, q = case["kind"], case["n"], case["p"], case["q"]
    rng = rng_of(case)
    X, Z = design(rng, n, p, case.get("icept", True)), design(rng, n, q, case.get("icept", True))
    b, a = rng.uniform(-0.7, 0.7, p), rng.uniform(-0.7, 0.7, q)
    if kind == "beta":
        b[0] = rng.uniform(-1, 1)
        a[0] = rng.uniform(0.8, 2.5)
        th = np.r_[b, a]
        mu, phi = INV[case["l1"]](X @ b), np.exp(Z @ a)
        y = np.clip(rng.beta(mu * phi, (1 - mu) * phi), 1e-4, 1 - 1e-4)
    else:
        b[0] = rng.uniform(0.6, 1.6)
        a[0] = rng.uniform(-1, 0.3)
        k = rng.uniform(0.3, 1.2)
        if count_link(case) != "log":
            X, b = np.abs(X) + 0.1, rng.uniform(0.7, 1.6, p)
        mu = INV[count_link(case)](X @ b)
        om = INV[case["l2"]](Z @ a)
        y = (rng.negative_binomial(1 / k, 1 / (1 + k * mu)) if kind in ("nb2", "zinb") else rng.poisson(mu)).astype(float)
        if kind in ("zip1", "zip2", "zinb"):
            y[rng.random(n) < om] = 0
            if not np.any(y == 0):
                y[0] = 0
            if not np.any(y):
                y[:3] = [1, 2, 3]
        th = np.r_[b, a] if kind in ("zip1", "zip2") else np.r_[b, np.log(k)] if kind == "nb2" else np.r_[b, a, np.log(k)]
    w = rng.integers(1, 4, n) * 1.0 if case.get("w") else np.ones(n)
    return X, Z, y, w, th, rng


def links_of(case):
    kind = case["kind"]
    if kind == "beta":
        return (case["l1"], "log")
    return (count_link(case), "logit" if kind == "zip1" else case["l2"])


def build(case, X, Z, y, w, mode):
    """the model under test from arrays, frames or formulas"""
    kind = case["kind"]
    M = model_cls(kind)
    n, p, q = X.shape[0], X.shape[1], Z.shape[1]
    l1, l2 = links_of(case)
    xs, zs = [f"x{i}" for i in range(p)], [f"z{i}" for i in range(q)]
    ix = [f"r{i}" for i in range(n)]
    df = pd.DataFrame(np.c_[X, Z, y], columns=xs + zs + ["y"], index=ix)
    fx = "-1 + " + "+".join(xs)
    fz = "-1 + " + "+".join(zs)
    if kind == "nb2":
        return M("y ~ " + fx, df)
    if kind == "beta":
        kw = dict(m_link=link_of("pyglm", l1), s_link=link_of("pyglm", l2))
        if mode == "formula":
            return M(m_formula="y ~ " + fx, s_formula="y ~ " + fz, data=df, **kw)
        if mode == "frame":
            return M(X=df[xs], Z=df[zs], y=df["y"] if case["seed"] % 2 else df[["y"]], **kw)
        return M(X=X.copy(), Z=Z.copy(), y=y.copy() if case["seed"] % 2 else y.reshape(-1, 1).copy(), **kw)
    if kind == "zip1":
        if mode == "array":
            return M(X.copy(), y.copy(), Z.copy())
        return M(df[xs], df["y"] if case["seed"] % 2 else df[["y"]], df[zs])
    kw = dict(weights=w) if case.get("w") else {}
    kw["zero_link"] = link_of("pyglm2", l2)
    if l1 != "log":
        from pystatsm.pyglm2 import links
        kw["link" if kind == "zip2" else "nonzero_link"] = links.IdentityLink if l1 == "identity" else links.PowerLink(0.5)
    if mode == "array":
        return M(X=X.copy(), Z=Z.copy(), y=y.copy(), **kw)
    if mode == "frame":
        return M(X=df[xs], Z=df[zs], y=df["y"], **kw)
    return M("y ~ " + fx, "~ " + fz, data=df, **kw)


KIND = st.sampled_from(["beta", "nb2", "zip1", "zip2", "zinb"])
MODEL = dict(seed=seeds(), kind=KIND, n=st.sampled_from([30, 60]), p=st.integers(1, 3), q=st.integers(1, 3), l1=st.sampled_from(["logit", "probit", "cloglog"]),
             l2=st.sampled_from(["logit", "probit", "cloglog"]), w=st.booleans(), mode=st.sampled_from(["array", "frame", "formula"]), icept=st.booleans())


@P.facet("derivatives", dicts(**MODEL, lc=st.sampled_from(["log", "log", "identity", "sqrt"])), quick=500, shards=2, rule="two or more parameters in both parts", cost=6)
def derivatives(case, ctx):
    """loglike is the (weighted) log density of scipy's distributions; gradient, scores and hessian are its derivatives"""
    X, Z, y, w, th, rng = gen(case)
    kind, lk = case["kind"], links_of(case)
    if kind not in ("zip2", "zinb"):
        w = np.ones(len(y))
    ctx.label(kind)
    ctx.nontrivial(case["p"] > 1 and (kind == "nb2" or case["q"] > 1))
    m = build(case, X, Z, y, w, case["mode"])
    th = th + rng.uniform(-0.3, 0.3, len(th))
    ref_i = lambda t: -w * LL[kind](t, X, Z, y, lk)
    ref = lambda t: np.sum(ref_i(t))
    ctx.close(m.loglike(th), ref(th), f"{kind} loglike", rtol=1e-8, atol=1e-8)
    GI = num.jac(ref_i, th)
    sc = 1 + np.abs(GI).max()
    g = GI.sum(axis=0)
    ctx.close(m.gradient(th), g, f"{kind} gradient", rtol=1e-6, scale=sc * len(y) ** 0.5)
    H = num.jac(m.gradient, th)
    ctx.close(m.hessian(th), H, f"{kind} hessian", rtol=1e-6, scale=1 + np.abs(H).max())
    if hasattr(m, "loglike_i"):
        ctx.close(m.loglike_i(th), ref_i(th), f"{kind} per-row loglike", rtol=1e-8, atol=1e-8)
    if hasattr(m, "loglike_elementwise"):
        ctx.close(m.loglike_elementwise(th), ref_i(th), f"{kind} per-row loglike", rtol=1e-8, atol=1e-8)
    if hasattr(m, "gradient_i"):
        ctx.close(m.gradient_i(th), GI, f"{kind} per-row scores", rtol=1e-6, scale=sc)
    if hasattr(m, "hessian_i"):
        ctx.close(m.hessian_i(th).sum(axis=0), m.hessian(th), f"{kind} per-row hessians", rtol=1e-8, scale=1 + np.abs(H).max())
        i = int(rng.integers(len(y)))
        Hi = num.jac(lambda t: m.gradient_i(t)[i], th)
        ctx.close(m.hessian_i(th)[i], Hi, f"{kind} per-row hessian", rtol=1e-5, scale=1 + np.abs(Hi).max())


def maximum(ref, x0):
    r = sp.optimize.minimize(ref, x0, method="BFGS", options=dict(gtol=1e-6))
    return r.x, r.fun


def run_fit(case, X, Z, y, w, mode):
    m = build(case, X, Z, y, w, mode)
    with contextlib.redirect_stdout(io.StringIO()):
        if case["kind"] == "beta":
            m.fit()
        elif case["kind"] == "zip1":
            m.fit(opt_kws=dict(gtol=1e-8, xtol=1e-10, maxiter=2000))
        elif case["kind"] == "nb2":
            m.fit(opt_kws=dict(method="trust-constr", options=dict(gtol=1e-8, xtol=1e-10, maxiter=2000)))
        else:
            m.fit(opt_kws=dict(options=dict(gtol=1e-8, xtol=1e-10, maxiter=2000)))
    return m, np.asarray(m.theta if case["kind"] == "beta" else m.params)


def well(ref, x):
    """covariance at x if the information matrix is well conditioned"""
    H = num.jac(lambda t: num.grad(ref, t), x, h=1e-2)
    e = np.linalg.eigvalsh(H)
    if not np.all(np.isfinite(e)) or e[0] < 0.5 or e[-1] / e[0] > 1e5 or np.abs(x).max() > 5:
        return None
    return np.linalg.inv(H)


FIT = dict(MODEL, n=st.sampled_from([80, 150]), icept=st.just(True))


@P.facet("fit", dicts(**FIT), quick=120, shards=3, rule="two or more parameters in both parts", cost=30)
def fit(case, ctx):
    """fit is the maximum of the likelihood, with inverse-information errors, t tables and summary statistics by definition"""
    X, Z, y, w, th, rng = gen(case)
    kind, lk, n = case["kind"], links_of(case), case["n"]
    if kind not in ("zip2", "zinb"):
        w = np.ones(n)
    ctx.label(kind)
    ref = lambda t: -np.sum(w * LL[kind](t, X, Z, y, lk))
    xb, fb = maximum(ref, th)
    V = well(ref, xb)
    if V is None:
        return ctx.skip("no well conditioned maximum")
    ctx.nontrivial(case["p"] > 1 and (kind == "nb2" or case["q"] > 1))
    m, t = run_fit(case, X, Z, y, w, case["mode"])
    se = np.sqrt(np.diag(V))
    f = ref(t)
    ctx.check(f <= fb + 2e-3, f"{kind}: a search finds a likelihood higher by {f - fb:.3g}")
    ctx.check(bool(np.all(np.abs(t - xb) < 0.05 * se)), f"{kind}: estimates {t} differ from the maximum {xb}")
    R = m.res
    Vt = well(ref, t)
    if Vt is None:
        return
    A = R.to_numpy()
    k = len(t)
    ctx.close(A[:, 0], t, f"{kind} table estimates")
    ctx.close(A[:, 1], np.sqrt(np.diag(Vt)), f"{kind} standard errors", rtol=1e-3)
    ctx.close(A[:, 2], t / A[:, 1], f"{kind} t", rtol=1e-8, atol=1e-12)
    ctx.close(A[:, 3], 2 * sp.stats.t(n - k).sf(np.abs(A[:, 2])), f"{kind} p", rtol=1e-7, atol=1e-14)
    # null model
    one = np.ones((n, 1))
    ref0 = lambda t0: -np.sum(w * LL[kind](t0, one, one, y, lk))
    z0 = np.r_[th[0], 0.0] if kind == "nb2" else np.r_[th[0], th[case["p"]]] if kind != "zinb" else np.r_[th[0], th[case["p"]], 0.0]
    x0, f0 = maximum(ref0, z0)
    if well(ref0, x0) is None:
        return
    llr = 2 * (f0 - f)
    T = dict(rtol=1e-4, atol=5e-3)
    ic = dict(aic=2 * f + 2 * k, bic=2 * f + k * np.log(n), caic=2 * f + k * (np.log(n) + 1), aicc=2 * f + 2 * k * n / (n - k - 1))
    cs = 1 - np.exp(-llr / n)
    nk = cs / (1 - np.exp(-2 / n * f0))
    if kind == "beta":
        s = m.sumstats
        ctx.close([s[i] for i in ("aic", "bic", "caic", "aicc")], list(ic[i] for i in ("aic", "bic", "caic", "aicc")), "beta information criteria", **T)
        ctx.close(s["LLR"], llr, "beta LLR", **T)
        ctx.close([s["PseudoR2_CS"], s["PseudoR2_MCF"], s["PseudoR2_MCFA"], s["PseudoR2_MFA"]], [cs, 1 - f / f0, 1 - (f + k) / f0, llr / (llr + n)], "beta pseudo R2", **T)
        ctx.close(s["PseudoR2_N"], nk, "beta Nagelkerke", **T)
    elif kind == "nb2":
        s = m.sumstats["Test_stat"]
        ctx.close([m.AIC, m.BIC, m.LLR, s["AIC"], s["BIC"], s["LLR"]], [ic["aic"], ic["bic"], llr] * 2, "nb2 statistics", **T)
        ctx.close(m.LLRp, sp.stats.chi2.sf(m.LLR, case["p"] - 1), "nb2 LR p-value", rtol=1e-8)
        ctx.close([s["R2_Cox_Snell"], s["R2_Nagelkerke"], s["R2_McFadden"], s["R2_Aldrich"]], [cs, nk, 1 - f / f0, llr / (llr + n)], "nb2 pseudo R2", **T)
        mu, kk = np.exp(X @ t[:-1]), np.exp(t[-1])
        ctx.close(m.chi2, np.sum((y - mu) ** 2 / (mu + kk * mu ** 2)), "nb2 Pearson chi2", rtol=1e-8)
        sat = sp.stats.nbinom(1 / kk, 1 / (1 + kk * y)).logpmf(y)
        ctx.close(m.dev, 2 * np.sum(sat - LL["nb2"](t, X, Z, y, lk)), "nb2 deviance", rtol=1e-8)
        ctx.close(m.deviance(t), m.dev, "nb2 deviance method")
        df = n - case["p"]
        ctx.close([m.chi2_p, m.dev_p, m.scchi2], [sp.stats.chi2.sf(m.chi2, df), sp.stats.chi2.sf(m.dev, df), m.chi2 / df], "nb2 fit tests", rtol=1e-8)
        ctx.close(m.predict(), mu, "nb2 prediction", rtol=1e-9)
        Xn = design(rng, 5, case["p"])
        ctx.close(m.predict(X=Xn, params=t), np.exp(Xn @ t[:-1]), "nb2 prediction for new data", rtol=1e-9)
    elif kind == "zip1":
        s = m.sumstats["Fit Statistic"]
        ctx.close([m.aic, m.bic, m.aicc, m.ll_ratio], [ic["aic"], ic["bic"], ic["aicc"], llr], "zip statistics", **T)
        ctx.close([s["AIC"], s["BIC"], s["AICc"], s["LLR"]], [m.aic, m.bic, m.aicc, m.ll_ratio], "zip table")
        ctx.close(m.ll_rpval, sp.stats.chi2(k - 2).sf(m.ll_ratio), "zip LR p-value", rtol=1e-8)
        ctx.close([s["PseudoR2_CS"], s["PseudoR2_N"], s["PseudoR2_MCF"], s["PseudoR2_MCFA"], s["PseudoR2_MFA"]], [cs, nk, 1 - f / f0, 1 - (f + k) / f0, llr / (llr + n)], "zip pseudo R2", **T)
    else:
        ctx.close([m.aic, m.bic, m.caic, m.aicc], [ic[i] for i in ("aic", "bic", "caic", "aicc")], f"{kind} information criteria", **T)
        ctx.close([m.llf, m.lln, m.llr], [f, f0, llr], f"{kind} likelihoods", **T)
        ctx.close([m.r2_cs, m.r2_nk, m.r2_mc], [cs, nk, 1 - f / f0], f"{kind} pseudo R2", **T)
        ctx.close(m.params_cov, Vt, f"{kind} params_cov", rtol=1e-3, scale=np.abs(Vt).max())


@P.facet("predict", dicts(**FIT, newdata=st.booleans()), quick=240, rule="new data", cost=5)
def predict(case, ctx):
    """means, variances, linear predictor errors and intervals at any parameters and data"""
    X, Z, y, w, th, rng = gen(case)
    kind, lk, n, p = case["kind"], links_of(case), case["n"], case["p"]
    ctx.nontrivial(case["newdata"])
    ctx.label(kind)
    m = build(case, X, Z, y, w, case["mode"])
    Xn, Zn = (design(rng, 9, p), design(rng, 9, case["q"])) if case["newdata"] else (X, Z)
    xa = dict(X=Xn, Z=Zn) if case["newdata"] else {}
    mu, om = INV[lk[0]](Xn @ th[:p]), (INV[lk[1]](Zn @ th[p:p + case["q"]]) if kind != "nb2" else None)
    if kind == "beta":
        a, b = m.predict(th, **xa)
        ctx.close(a, mu, "mean", rtol=1e-9)
        ctx.close(b, om, "precision", rtol=1e-9)
    elif kind == "nb2":
        ctx.close(m.predict(X=Xn, params=th), mu, "mean", rtol=1e-9)
        ctx.close(m.predict(X=Xn, b=th[:-1]), mu, "mean from coefficients", rtol=1e-9)
    elif kind == "zip1":
        if case["newdata"]:
            return ctx.skip("ZIP.predict takes data of the fitted length only")
        a, v = m.predict(th)
        ctx.close(a, (1 - om) * mu, "mean", rtol=1e-9)
        ctx.close(v, (1 - om) * mu * (1 + mu * om), "variance", rtol=1e-9)
    else:
        k = np.exp(th[-1])
        C = num.spd(rng, len(th)) * 0.01
        lev = float(rng.choice([0.8, 0.95]))
        if kind == "zip2":
            r = m._predict(th, (Xn, Zn, None, None), m.link, m.zero_link, coefs_cov=C, mean_ci_level=lev)
        else:
            r = m.predict(params=th, params_cov=C, mean_ci_level=lev, predicted_ci_level=lev, **xa)
        lp = np.c_[Xn @ th[:p], Zn @ th[p:p + case["q"]]]
        q = case["q"]
        se = np.sqrt(np.c_[np.sum((Xn @ C[:p, :p]) * Xn, 1), np.sum((Zn @ C[p:p + q, p:p + q]) * Zn, 1)])
        z = sp.stats.norm.ppf(0.5 + lev / 2)
        ctx.close(r["lp"], lp, "linear predictors", rtol=1e-9, atol=1e-10)
        ctx.close(r["lp_se"], se, "their standard errors", rtol=1e-8)
        ctx.close(r["mean"], np.c_[mu, om], "means", rtol=1e-9)
        lo, hi = lp - z * se, lp + z * se
        f = [INV[lk[0]], INV[lk[1]]]
        ctx.close(r["mu_lower_ci"], np.c_[f[0](lo[:, 0]), f[1](lo[:, 1])], "lower limits", rtol=1e-7)
        ctx.close(r["mu_upper_ci"], np.c_[f[0](hi[:, 0]), f[1](hi[:, 1])], "upper limits", rtol=1e-7)
        if kind == "zinb":
            nb = sp.stats.nbinom(1 / k, 1 / (1 + k * mu))
            eps = 1e-9
            for key, pr in (("predicted_lower_ci", 0.5 - lev / 2), ("predicted_upper_ci", 0.5 + lev / 2)):
                v = np.asarray(r[key])
                ctx.check(bool(np.all((nb.ppf(pr - eps) <= v) & (v <= nb.ppf(pr + eps)))), f"{key} is not the count quantile")


@P.facet("weights_rows", dicts(**{k: v for k, v in MODEL.items() if k not in ("w", "icept")}), quick=300, rule="two or more parameters in both parts", cost=4)
def weights_rows(case, ctx):
    """integer weights act as repeated rows; row order does not matter"""
    case = dict(case, w=True, icept=True)
    X, Z, y, w, th, rng = gen(case)
    kind = case["kind"]
    ctx.nontrivial(case["p"] > 1 and (kind == "nb2" or case["q"] > 1))
    ii = np.repeat(np.arange(len(y)), w.astype(int)) if kind in ("zip2", "zinb") else np.arange(len(y))
    m = build(case, X, Z, y, w, case["mode"])
    jj = rng.permutation(len(ii))
    ii = ii[jj]
    m2 = build(dict(case, w=False), X[ii], Z[ii], y[ii], None, case["mode"])
    th = th + rng.uniform(-0.3, 0.3, len(th))
    ctx.close(m.loglike(th), m2.loglike(th), f"{kind} loglike", rtol=1e-9)
    g, H = m2.gradient(th), m2.hessian(th)
    ctx.close(m.gradient(th), g, f"{kind} gradient", rtol=1e-8, scale=1 + np.abs(g).max())
    ctx.close(m.hessian(th), H, f"{kind} hessian", rtol=1e-8, scale=1 + np.abs(H).max())


@P.facet("limits", dicts(seed=seeds(), n=st.sampled_from([20, 40]), p=st.integers(1, 3), q=st.integers(1, 2), l2=st.sampled_from(["logit", "probit", "cloglog"]), pair=st.sampled_from(["zinb-zip", "zinb-nb", "zip-pois", "zip1-zip2"])),
         quick=240, rule="all")
def limits(case, ctx):
    """nesting: ZINB tends to ZIP as the dispersion vanishes and to NB2 as the zero probability vanishes, ZIP to Poisson; both ZIP classes agree"""
    pair = case["pair"]
    ctx.nontrivial(True)
    ctx.label(pair)
    base = dict(case, w=False, l1="logit", mode="array")
    kind = {"zinb-zip": "zip2", "zinb-nb": "zinb", "zip-pois": "zip2", "zip1-zip2": "zip2"}[pair]
    if pair == "zip1-zip2":
        base["l2"] = "logit"
    X, Z, y, w, th, rng = gen(dict(base, kind=kind))
    if np.exp(X @ th[:case["p"]]).max() > 40:
        return ctx.skip("a zero has probability below the inflation that is left")
    A = lambda k: build(dict(base, kind=k), X, Z, y, w, "array")
    if pair == "zinb-zip":
        a, b = A("zinb").loglike(np.r_[th, -9.0]), A("zip2").loglike(th)
        ctx.close(a, b, "small dispersion", rtol=0.02, atol=0.05)
    elif pair == "zinb-nb":
        Z[:] = 0
        Z[:, 0] = 1
        p, q = case["p"], case["q"]
        t = th.copy()
        t[p:p + q] = 0
        t[p] = -60 if base["l2"] != "probit" else -11
        a, b = A("zinb").loglike(t), A("nb2").loglike(np.r_[th[:p], th[-1]])
        ctx.close(a, b, "no zero inflation", rtol=1e-5, atol=1e-5)
    elif pair == "zip-pois":
        Z[:] = 0
        Z[:, 0] = 1
        p = case["p"]
        t = np.r_[th[:p], np.zeros(case["q"])]
        t[p] = -60 if base["l2"] != "probit" else -11
        ctx.close(A("zip2").loglike(t), -np.sum(sp.stats.poisson(np.exp(X @ th[:p])).logpmf(y)), "no zero inflation", rtol=1e-5, atol=1e-5)
    else:
        a, b = A("zip1"), A("zip2")
        ctx.close(a.loglike(th), b.loglike(th), "loglike", rtol=1e-9)
        ctx.close(a.gradient(th), b.gradient(th), "gradient", rtol=1e-7, atol=1e-6)
        ctx.close(a.hessian(th), b.hessian(th), "hessian", rtol=1e-7, atol=1e-5)


@P.facet("bootstrap", dicts(seed=seeds(), p=st.integers(1, 2)), quick=10, rule="all", cost=6)
def bootstrap(case, ctx):
    """the NB2 bootstrap returns plausible refits, and the model afterwards still describes its own data"""
    case = dict(case, kind="nb2", n=80, q=1, w=False, l1="logit", l2="logit")
    X, Z, y, w, th, rng = gen(case)
    ctx.nontrivial(True)
    m, t = run_fit(case, X, Z, y, w, "formula")
    f = m.loglike(t)
    np.random.seed(case["seed"] % 2 ** 31)
    with contextlib.redirect_stderr(io.StringIO()):
        m.bootstrap(n_boot=3)
    S = m.beta_samples
    ctx.equal(S.shape, (3, len(t)), "sample shape")
    ctx.close(m.boot_res["mean"].to_numpy(), S.mean(axis=0), "means")
    ctx.close(m.boot_res["std"].to_numpy(), S.std(axis=0, ddof=1), "standard deviations")
    ctx.close(m.loglike(t), f, "model data are restored", rtol=1e-10)
    ctx.close(m.loglike(t), -np.sum(LL["nb2"](t, X, Z, y, None)), "model data are restored", rtol=1e-8)
