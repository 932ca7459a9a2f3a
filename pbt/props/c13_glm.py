"""C13: generalized linear models (pyglm.linear_model.GLM, pyglm2.glm.GLM, pyglm.glm.GLM)."""
import importlib, warnings
import numpy as np
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num
from .c12_families import nlp

P = Property("C13", "GLM fits maximise the likelihood; inference, diagnostics and weights follow")
P.assumptions = ["prior weights are trial counts for the binomial, precision multipliers for Gaussian, gamma and inverse Gaussian, and likelihood multipliers for Poisson and negative binomial",
                 "fits are compared with an independent optimiser to 1e-3 standard errors-scale tolerance (the library stops at gradient 1e-6)"]

IMPL = {"lin": "pystatsm.pyglm.linear_model", "glm2": "pystatsm.pyglm2.glm", "glm": "pystatsm.pyglm.glm"}
FAMILIES = {"Gaussian": ["identity", "log"], "Gamma": ["log", "reciprocal", "identity"], "InverseGaussian": ["log", "power-2"],
            "Poisson": ["log", "power0.5", "identity"], "NegativeBinomial": ["log"], "Binomial": ["logit", "probit", "cloglog"]}
HAS_PHI = ("Gaussian", "InverseGaussian", "Gamma")


def make(case, ctx=None):
    """data + family; returns a dict"""
    rng = rng_of(case)
    name = case["fam"]
    lk = FAMILIES[name][case["link"] % len(FAMILIES[name])]
    pkg = "pyglm2" if case["impl"] == "glm2" else "pyglm"
    F, L = importlib.import_module(f"pystatsm.{pkg}.families"), importlib.import_module(f"pystatsm.{pkg}.links")
    link = L.PowerLink(float(lk[5:])) if lk.startswith("power") else {"identity": L.IdentityLink, "log": L.LogLink, "reciprocal": L.ReciprocalLink, "logit": L.LogitLink,
                                                                     "probit": L.ProbitLink, "cloglog": L.CloglogLink}[lk]()
    p, n = case["p"], case["n"] + 6 * case["p"]
    X = np.concatenate([np.ones((n, 1)), rng.uniform(-1, 1, (n, p - 1))], axis=1)
    positive = lk in ("identity", "reciprocal") or lk.startswith("power")
    if positive:
        beta = np.r_[1.5, rng.uniform(-0.5, 0.5, p - 1) / max(p - 1, 1)]
    else:
        beta = np.r_[rng.uniform(-0.3, 0.8), rng.uniform(-0.8, 0.8, p - 1)]
    eta = X @ beta
    mu = link.inv_link(eta)
    w = rng.integers(1, 5, n).astype(float) if (case["weighted"] or name == "Binomial") else np.ones(n)
    phi, k = case["phi"], case["disp"]
    if name == "Gaussian":
        y = mu + rng.standard_normal(n) * np.sqrt(phi / w) * (0.3 if lk == "log" else 1.0)
        if lk == "log":
            y = np.maximum(y, 0.05)         # the library starts at log(y)
    elif name == "Gamma":
        y = rng.gamma(w / phi, mu * phi / w) + 1e-3
    elif name == "InverseGaussian":
        y = rng.wald(mu, w / phi) + 1e-3
    elif name == "Poisson":
        y = rng.poisson(mu).astype(float)
    elif name == "NegativeBinomial":
        y = rng.negative_binomial(1 / k, 1 / (1 + k * mu)).astype(float)
    else:
        y = rng.binomial(w.astype(int), mu) / w
    if ctx is not None:
        ctx.label(f"{case['impl']}.{name}.{lk}")
        ctx.label(case["scale"])
        ctx.nontrivial(p > 1)
    return dict(X=X, y=y, w=w, beta=beta, f=getattr(F, name)(link=link), link=link, name=name, lk=lk, n=n, p=p, F=F, rng=rng, positive=positive)


def scale_of(case, name):
    if name in ("Binomial", "Poisson") or (name == "NegativeBinomial" and case["impl"] == "glm"):    # pyglm.glm has no dispersion parameter
        return "fixed"
    s = case["scale"]
    return "NR" if (name == "NegativeBinomial" and s == "M") else s


def model(case, d, w=None, X=None, y=None, scale=None):
    mod = importlib.import_module(IMPL[case["impl"]])
    X, y, w = d["X"] if X is None else X, d["y"] if y is None else y, d["w"] if w is None else w
    scale = scale or scale_of(case, d["name"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["impl"] == "glm":
            f = getattr(d["F"], d["name"])(link=d["link"], weights=w if np.any(w != 1) else 1.0)
            return mod.GLM(X=X, Y=y, fam=f, scale_estimator=scale)
        return mod.GLM(X=X, y=y, family=d["f"], weights=w, scale_estimator=scale)


def split(theta, d, scale):
    """beta, phi, dispersion of a parameter vector"""
    if scale == "NR":
        if d["name"] == "NegativeBinomial":
            return theta[:-1], 1.0, np.exp(theta[-1])
        return theta[:-1], np.exp(theta[-1]), 1.0
    return theta, 1.0, 1.0


def ref_nll(theta, d, scale, X=None, y=None, w=None):
    X, y, w = d["X"] if X is None else X, d["y"] if y is None else y, d["w"] if w is None else w
    b, phi, k = split(np.asarray(theta, float), d, scale)
    with np.errstate(all="ignore"):
        return -np.sum(nlp(d["name"], y, d["link"].inv_link(X @ b), w, phi, k))


def ref_grad(theta, d, scale, **kw):
    return num.grad(lambda t: ref_nll(t, d, scale, **kw), theta, h=2e-4)


def ref_fit(d, scale, X=None, y=None, w=None, start=None):
    """independent optimum: damped Newton on the reference likelihood with numerical derivatives"""
    Xr = d["X"] if X is None else X
    t = np.array(start if start is not None else np.r_[d["beta"], [0.0] if scale == "NR" else []], float)
    kw = dict(X=X, y=y, w=w)
    f = ref_nll(t, d, scale, **kw)
    for _ in range(80):
        g = ref_grad(t, d, scale, **kw)
        H = num.hess(lambda z: ref_nll(z, d, scale, **kw), t, h=1e-3, levels=2)
        H = (H + H.T) / 2
        ev, U = np.linalg.eigh(H)
        step = -U @ ((U.T @ g) / np.maximum(np.abs(ev), 1e-6))
        a, ok = 1.0, False
        for _ in range(40):
            f2 = ref_nll(t + a * step, d, scale, **kw)
            if np.isfinite(f2) and f2 <= f:
                ok = True
                break
            a /= 2
        if not ok or np.max(np.abs(a * step)) < 1e-11:
            break
        t, f = t + a * step, f2
    return t, f


BASE = dict(seed=seeds(), impl=st.sampled_from(["lin", "glm2", "glm"]), fam=st.sampled_from(list(FAMILIES)), link=st.integers(0, 2), n=st.integers(10, 40), p=st.sampled_from([2, 1, 3, 4]),
            weighted=st.booleans(), scale=st.sampled_from(["fixed", "NR", "M"]), phi=st.sampled_from([0.05, 0.3, 1.0]), disp=st.sampled_from([0.2, 0.7]))
FIT = dict(BASE, n=st.integers(20, 50), p=st.sampled_from([2, 1, 3]), phi=st.sampled_from([0.05, 0.15, 0.3]))


@P.facet("derivatives", dicts(**BASE), quick=1000, rule="two or more columns", shards=4, cost=2)
def derivatives(case, ctx):
    """likelihood, score and Hessian at an arbitrary point, for every family, scale treatment and weighting"""
    case = dict(case, scale="fixed" if case["scale"] == "M" else case["scale"])
    d = make(case, ctx)
    m = model(case, d)
    s = scale_of(case, d["name"])
    t = d["beta"] + d["rng"].uniform(-0.1, 0.1, d["p"]) / d["p"]
    if s == "NR":
        t = np.r_[t, d["rng"].uniform(-1, 1)]
    t0 = t.copy()
    sc = d["n"]
    ctx.close(m.full_loglike(t), ref_nll(t, d, s), "full_loglike", rtol=1e-9, atol=1e-8)
    t2 = t.copy()
    t2[0] += 0.05
    ctx.close(m.loglike(t2) - m.loglike(t), ref_nll(t2, d, s) - ref_nll(t, d, s), "loglike differences", rtol=1e-8, atol=1e-8 * sc)
    if s == "NR":
        t2[-1] += 0.3
        if d["name"] == "NegativeBinomial" or case["impl"] != "x":
            ctx.close(m.loglike(t2) - m.loglike(t), ref_nll(t2, d, s) - ref_nll(t, d, s), "loglike differences in the scale", rtol=1e-8, atol=1e-8 * sc)
    g = ref_grad(t, d, s)
    ctx.close(m.gradient(t), g, "gradient", rtol=1e-6, atol=1e-6 * sc)
    H = num.jac(lambda z: np.asarray(m.gradient(z)), t, h=3e-4)
    ctx.close(m.hessian(t), H, "hessian is the derivative of the gradient", rtol=1e-6, atol=1e-6 * sc)
    if case["impl"] != "glm":
        G = m.gradient_i(t)
        ctx.close(G.shape, (d["n"], len(t)), "gradient_i shape")
        ctx.close(G.sum(axis=0), m.gradient(t), "gradient_i sums to the gradient", rtol=1e-8, atol=1e-8 * sc)
        i = int(d["rng"].integers(d["n"]))
        gi = ref_grad(t, d, s, X=d["X"][[i]], y=d["y"][[i]], w=d["w"][[i]])
        ctx.close(G[i], gi, "gradient_i row", rtol=1e-6, atol=1e-6)
        sub = d["rng"].permutation(d["n"])[: d["n"] // 2]
        data = (d["X"][sub], d["y"][sub], d["w"][sub])
        ctx.close(m.full_loglike(t, data=data), ref_nll(t, d, s, X=data[0], y=data[1], w=data[2]), "full_loglike of other data", rtol=1e-9, atol=1e-8)
        ctx.close(m.gradient(t, data=data), ref_grad(t, d, s, X=data[0], y=data[1], w=data[2]), "gradient of other data", rtol=1e-6, atol=1e-6 * sc)
    elif np.all(d["w"] == 1):
        sub = d["rng"].permutation(d["n"])[: d["n"] // 2]
        data = dict(X=d["X"][sub], Y=d["y"][sub])
        ctx.close(m.full_loglike(t, **data), ref_nll(t, d, s, d["X"][sub], d["y"][sub], d["w"][sub]), "full_loglike of other data", rtol=1e-9, atol=1e-8)
        ctx.close(m.hessian(t, **data), num.jac(lambda z: np.asarray(m.gradient(z, **data)), t, h=3e-4), "hessian of other data", rtol=1e-6, atol=1e-6 * sc)
    ctx.equal(t, t0, "the parameter vector is not modified")


def fitted(case, d, tight=False, **kw):
    """tight: ask the optimiser for more digits than its default stopping rule gives"""
    m = model(case, d, **kw)
    meth = ["sp", "mn", "ee"][case["seed"] % 3] if d["name"] in ("Gamma", "InverseGaussian") and not d["positive"] and scale_of(case, d["name"]) != "NR" else "sp"
    if meth != "sp":
        tight = False
    opt = dict(opt_kws=dict(options=dict(verbose=0, gtol=1e-8, xtol=1e-13, maxiter=3000))) if tight else {}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if case["impl"] == "glm":
            m.fit(method=meth, **opt)
        else:
            m.fit(**opt)
    return m


def fit_case(case, ctx, converge=False):
    """converge: the optimum itself is judged, so only links whose domain is the whole line (the library's optimiser is unconstrained)"""
    if case["fam"] == "Binomial" and case["p"] > 2:
        case = dict(case, n=case["n"] + 30)
    if converge and case["fam"] in ("Gamma", "InverseGaussian", "Poisson", "Gaussian"):
        case = dict(case, link=0)
    d = make(case, ctx)
    if case["impl"] == "glm" and d["positive"] and d["name"] not in ("Gaussian", "Gamma", "InverseGaussian"):
        ctx.skip("pyglm.glm starts at zero, outside the domain of this link")
    if d["positive"] and not (d["name"] == "Gaussian"):
        # links with a bounded linear predictor: the library's optimiser is unconstrained, so only well-separated data is judged
        if np.min(d["X"] @ d["beta"]) < 0.6:
            ctx.skip("near-boundary linear predictor")
    return d


def phi_hat(d, beta, k, s, theta):
    if s == "M":
        mu = d["link"].inv_link(d["X"] @ beta)
        V = variance(d["name"], mu, k)
        return np.sum(d["w"] * (d["y"] - mu) ** 2 / V) / (d["n"] - d["p"])
    return split(theta, d, s)[1]


def variance(name, mu, k):
    return {"Gaussian": np.ones_like(mu), "Gamma": mu ** 2, "InverseGaussian": mu ** 3, "Poisson": mu, "NegativeBinomial": mu + k * mu ** 2, "Binomial": mu * (1 - mu)}[name]


@P.facet("maximum_likelihood", dicts(**FIT), quick=300, rule="two or more columns", shards=6, cost=4)
def maximum_likelihood(case, ctx):
    """the estimate is a maximum found by an independent optimiser; standard errors come from the observed information there"""
    d = fit_case(case, ctx, True)
    s = scale_of(case, d["name"])
    m = fitted(case, d, True)
    th = np.asarray(m.params)
    sref = "NR" if s == "NR" else "fixed"
    tr, fr = ref_fit(d, sref)
    g = ref_grad(tr, d, sref)
    if not np.all(np.isfinite(tr)) or np.max(np.abs(g)) > 1e-4 * d["n"] or np.max(np.abs(tr)) > 5:
        ctx.skip("no interior optimum")
    H = num.hess(lambda z: ref_nll(z, d, sref), tr, h=1e-3)
    H = (H + H.T) / 2
    if np.linalg.eigvalsh(H)[0] < 1e-2:
        ctx.skip("nearly flat likelihood")
    se = np.sqrt(np.diag(np.linalg.inv(H)))
    ctx.check(ref_nll(th, d, sref) <= fr + 1e-3, lambda: f"log-likelihood at the estimate {-ref_nll(th, d, sref)} is below the attainable {-fr}")
    ctx.close((th - tr) / se, 0 * tr, "estimate vs independent optimum (in standard errors)", atol=3e-2, rtol=0)
    # standard errors
    b, phi, k = split(th, d, sref)
    if s == "M":
        phi = phi_hat(d, b, k, s, th)
    Hth = num.hess(lambda z: ref_nll(z, d, sref), th, h=1e-3)
    C = np.linalg.inv((Hth + Hth.T) / 2) * (phi if s == "M" else 1.0)
    got_se = m.params_se if case["impl"] != "glm" else m.se_theta
    ctx.close(got_se, np.sqrt(np.diag(C)), "standard errors", rtol=1e-4)
    if s == "M" or d["name"] in HAS_PHI:
        ctx.close(np.squeeze(m.phi), phi, "phi", rtol=1e-8)
    tab = m.res
    par = "parameter" if case["impl"] != "glm" else "params"
    ctx.close(tab[par].values, th, "table estimates", rtol=1e-12)
    ctx.close(tab["t"].values, th / np.asarray(got_se), "table t", rtol=1e-10)
    from scipy import stats
    dof = d["n"] - len(th) if case["impl"] != "glm" else d["n"] - d["p"]
    ctx.close(tab["p"].values, 2 * stats.t.sf(np.abs(th / got_se), dof), "table p", rtol=1e-8, atol=1e-14)
    ctx.check(len(tab) == len(m.param_labels) == len(th), "labels")


@P.facet("fit_statistics", dicts(**dict(FIT)), quick=300, rule="two or more columns", shards=6, cost=4)
def fit_statistics(case, ctx):
    """likelihoods, information criteria, pseudo R-squares, deviance and chi-square follow their definitions"""
    d = fit_case(case, ctx)
    s = scale_of(case, d["name"])
    m = fitted(case, d)
    th = np.asarray(m.params)
    if not np.all(np.isfinite(th)):
        ctx.skip("fit did not converge")
    b, phi, k = split(th, d, "NR" if s == "NR" else "fixed")
    y, w, n = d["y"], d["w"], d["n"]
    mu = d["link"].inv_link(d["X"] @ b)
    phi = phi_hat(d, b, k, s, th)
    ll1 = np.sum(nlp(d["name"], y, mu, w, phi, k))
    ybar = np.sum(w * y) / np.sum(w)
    if d["name"] == "NegativeBinomial" and s == "NR" and case["impl"] != "glm":
        from scipy.optimize import minimize_scalar
        h = lambda t: -np.sum(nlp("NegativeBinomial", y, np.full(n, ybar), w, 1.0, np.exp(t)))
        r = minimize_scalar(h, bounds=(-12, 6), method="bounded", options=dict(xatol=1e-9))
        ll0 = -r.fun
        if not -6 < r.x < 4:
            ctx.skip("null model dispersion on the boundary")
        tol0 = 1e-5
    else:
        ll0 = np.sum(nlp(d["name"], y, np.full(n, ybar), w, phi, k))
        tol0 = 1e-9
    q = len(th)
    S = m.sumstats.iloc[:, 0]
    D = np.sum(w * dev_unit(d["name"], y, mu, k))
    chi2 = np.sum(w * (y - mu) ** 2 / variance(d["name"], mu, k))
    if case["impl"] == "glm":
        want = dict(aic=-2 * ll1 + 2 * q, bic=-2 * ll1 + np.log(n) * q, caic=-2 * ll1 + q * (np.log(n) + 1), LLR=2 * (ll1 - ll0), pearson_chi2=chi2, deviance=D,
                    PseudoR2_CS=1 - np.exp(2 * (ll0 - ll1) / n), PseudoR2_MCF=1 - ll1 / ll0, PseudoR2_MCFA=1 - (ll1 - q) / ll0)
        want["aicc"] = -2 * ll1 + 2 * q * n / (n - q - 1)
        want["PseudoR2_N"] = want["PseudoR2_CS"] / (1 - np.exp(2 * ll0 / n))
        want["PseudoR2_MFA"] = want["LLR"] / (want["LLR"] + n)
    else:
        L = 2 * (ll1 - ll0)
        want = dict(AIC=-2 * ll1 + 2 * q, AICC=-2 * ll1 + 2 * q * n / (n - q - 1), BIC=-2 * ll1 + q * np.log(n), CAIC=-2 * ll1 + q * (np.log(n) + 1),
                    R2_CS=1 - np.exp(-L / n), R2_MC=1 - ll1 / ll0, R2_MB=1 - (ll1 - q) / ll0, LLR=L, LLF=-ll1, LLN=-ll0, Deviance=D, Chi2=chi2,
                    R2_SS=1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2))
        want["R2_NK"] = want["R2_CS"] / (1 - np.exp(2 * ll0 / n))
        if case["impl"] == "glm2":
            want["R2_AN"] = L / (L + n)
            want["R2_VZ"] = want["R2_AN"] * (2 * ll0 - n) / (2 * ll0)
            if ll1 < 0 and ll0 < 0:
                want["R2_ES"] = 1 - (ll1 / ll0) ** (-2 * ll0 / n)
                want["R2_EA"] = 1 - ((ll1 - q) / ll0) ** (-2 * ll0 / n)
    sc = max(1.0, abs(ll1), abs(ll0))
    if case["impl"] == "glm":
        ctx.close(m.pearson_resid, (y - mu) * np.sqrt(w / variance(d["name"], mu, k)), "Pearson residuals", rtol=1e-8)
        ctx.close(m.predict(kind="mean"), mu, "predicted mean", rtol=1e-10)
        ctx.close(m.predict(X=d["X"][:3], kind="both"), np.stack([d["X"][:3] @ b, mu[:3]], axis=1), "predicted eta and mean", rtol=1e-10)
    for kk, v in want.items():
        if kk in ("R2_NK", "PseudoR2_N") and abs(1 - np.exp(2 * ll0 / n)) < 1e-3 or abs(ll0) < 1e-2 * n and "R2" in kk:
            continue
        t = max(tol0, 1e-8) * (sc if not kk.startswith(("R2", "Pseudo")) else max(abs(v), 1) * sc / min(1, abs(ll0) / n + 1e-12))
        ctx.close(S[kk], v, kk, rtol=1e-7, atol=t)


def dev_unit(name, y, mu, k):
    from scipy.special import xlogy
    if name == "Gaussian":
        return (y - mu) ** 2
    if name == "Gamma":
        return 2 * ((y - mu) / mu - np.log(y / mu))
    if name == "InverseGaussian":
        return (y - mu) ** 2 / (mu ** 2 * y)
    if name == "Poisson":
        return 2 * (xlogy(y, y / mu) - (y - mu))
    if name == "NegativeBinomial":
        return 2 * (xlogy(y, y / mu) - (y + 1 / k) * np.log((1 + k * y) / (1 + k * mu)))
    return 2 * (xlogy(y, y / mu) + xlogy(1 - y, (1 - y) / (1 - mu)))


@P.facet("diagnostics", dicts(**dict(FIT, impl=st.sampled_from(["lin", "glm2"]))), quick=260, rule="two or more columns", shards=4, cost=3)
def diagnostics(case, ctx):
    """leverage, residuals, Cook's distance, robust covariance, prediction and one-step jackknife"""
    d = fit_case(case, ctx)
    s = scale_of(case, d["name"])
    m = fitted(case, d)
    th = np.asarray(m.params)
    if not np.all(np.isfinite(th)):
        ctx.skip("fit did not converge")
    b, phi, k = split(th, d, "NR" if s == "NR" else "fixed")
    X, y, w, n, p = d["X"], d["y"], d["w"], d["n"], d["p"]
    mu = d["link"].inv_link(X @ b)
    if k < 1e-3:
        ctx.skip("dispersion at the boundary")
    phi = phi_hat(d, b, k, s, th)
    V = variance(d["name"], mu, k)
    gp = 1 / num.deriv(d["link"].inv_link, X @ b, h=1e-4)
    W = w / (phi * V * gp ** 2)
    h = np.einsum("ij,jk,ik,i->i", X, np.linalg.inv(X.T @ (X * W[:, None])), X, W)
    ctx.close(m.h, h, "leverage", rtol=1e-6)
    ctx.close(np.sum(m.h), p, "leverages sum to the number of coefficients", rtol=1e-8)
    rp = (y - mu) * np.sqrt(w / V)
    rd = np.sign(y - mu) * np.sqrt(np.maximum(w * dev_unit(d["name"], y, mu, k), 0))
    R = m.resids
    ok = h < 1 - 1e-6
    A = lambda v: np.asarray(v)[ok]
    ctx.close(R["Raw"].values, y - mu, "raw residuals", rtol=1e-8)
    ctx.close(R["Pearson"].values, rp, "Pearson residuals", rtol=1e-8)
    ctx.close(R["Deviance"].values ** 2, rd ** 2, "squared deviance residuals", rtol=1e-6, atol=1e-8)
    ctx.close(np.sum(R["Deviance"].values ** 2), m.sumstats.loc["Deviance"].iloc[0], "deviance is the sum of squared deviance residuals", rtol=1e-6, atol=1e-8)
    ctx.check(np.all(R["Deviance"].values * (y - mu) >= -1e-9), "deviance residual signs")
    ctx.close(A(R["PearsonSS"]), A(rp / np.sqrt(phi * (1 - h))), "studentised Pearson residuals", rtol=1e-5)
    ctx.close(A(R["DevianceSS"]) ** 2, A(rd ** 2 / (phi * (1 - h))), "studentised deviance residuals", rtol=1e-5, atol=1e-7)
    ctx.close(A(R["Cooks"]), A(h * rp ** 2 / (phi * (1 - h) ** 2 * p)), "Cook's distance", rtol=1e-5)
    ctx.close(A(R["Likelihood"]) ** 2, A((h * rp ** 2 + (1 - h) * rd ** 2) / (phi * (1 - h))), "likelihood residuals", rtol=1e-5, atol=1e-7)
    # robust covariance
    G = m.gradient_i(th)
    Vr = m.params_cov @ (G.T @ G) @ m.params_cov
    ctx.close(m.get_robust_res()["SE"].values, np.sqrt(np.diag(Vr)), "robust standard errors", rtol=1e-7)
    # prediction
    from scipy import stats
    X2 = X[: min(5, n)] * 0.9 + 0.1 * X.mean(axis=0)
    lev = float(d["rng"].uniform(0.5, 0.99))
    pr = m._predict(m.beta, X2, d["f"], phi=float(np.squeeze(m.phi)), dispersion=m.dispersion, coefs_cov=m.beta_cov, mean_ci_level=lev, predicted_ci=d["name"] != "Binomial", predicted_ci_level=lev)
    eta = X2 @ b
    se = np.sqrt(np.einsum("ij,jk,ik->i", X2, m.params_cov[:p, :p], X2))
    z = stats.norm.ppf(0.5 + lev / 2)
    ctx.close(pr["eta"], eta, "predicted eta", rtol=1e-9)
    ctx.close(pr["mu"], d["link"].inv_link(eta), "predicted mean", rtol=1e-9)
    ctx.close(pr["eta_se"], se, "prediction standard error", rtol=1e-8)
    ctx.close(pr["eta_lower_ci"], eta - z * se, "lower limit", rtol=1e-7, atol=1e-9)
    ctx.close(pr["eta_upper_ci"], eta + z * se, "upper limit", rtol=1e-7, atol=1e-9)
    if d["name"] != "Binomial":
        mu2 = d["link"].inv_link(eta)
        a = 0.5 + lev / 2
        ph = float(np.squeeze(m.phi))
        q = {"Gaussian": lambda u: stats.norm.ppf(u, mu2, np.sqrt(ph)), "Gamma": lambda u: stats.gamma.ppf(u, 1 / ph, scale=mu2 * ph), "Poisson": lambda u: stats.poisson.ppf(u, mu2),
             "InverseGaussian": lambda u: stats.invgauss.ppf(u, mu2 * ph, scale=1 / ph), "NegativeBinomial": lambda u: stats.nbinom.ppf(u, 1 / k, 1 / (1 + k * mu2))}[d["name"]]
        ctx.close(pr["predicted_lower_ci"], q(1 - a), "prediction interval, lower", rtol=1e-5, atol=1e-8)
        ctx.close(pr["predicted_upper_ci"], q(a), "prediction interval, upper", rtol=1e-5, atol=1e-8)


@P.facet("weights_replicate", dicts(**dict(FIT, fam=st.sampled_from(["Poisson", "NegativeBinomial", "Binomial", "Gaussian"]))), quick=160, rule="two or more columns", shards=4, cost=3)
def weights_replicate(case, ctx):
    """integer weights equal replicated rows (Poisson, negative binomial, binomial); weights rescale rows (Gaussian)"""
    case = dict(case, weighted=True, link=0, scale="NR" if case["fam"] == "NegativeBinomial" else "fixed")
    d = fit_case(case, ctx, True)
    m = fitted(case, d, True)
    X, y, w = d["X"], d["y"], d["w"]
    wi = w.astype(int)
    if case["fam"] == "Gaussian":
        r = np.sqrt(w)
        b = np.linalg.lstsq(X * r[:, None], y * r, rcond=None)[0]
        ctx.close(m.params, b, "weighted least squares", rtol=1e-5, atol=1e-6)
        return
    X2 = np.repeat(X, wi, axis=0)
    if case["fam"] == "Binomial":
        s = np.round(w * y).astype(int)
        y2 = np.concatenate([np.r_[np.ones(a), np.zeros(t - a)] for a, t in zip(s, wi)])
    else:
        y2 = np.repeat(y, wi)
    d2 = dict(d, n=len(y2))
    m2 = fitted(case, d2, True, X=X2, y=y2, w=np.ones(len(y2)))
    if np.max(np.abs(m.params)) > 5:
        ctx.skip("no interior optimum")
    s1, s2 = (m.params_se, m2.params_se) if case["impl"] != "glm" else (m.se_theta, m2.se_theta)
    ctx.close((m.params - m2.params) / s1, 0 * m.params, "estimates (in standard errors)", atol=3e-2, rtol=0)
    ctx.close(s1, s2, "standard errors", rtol=5e-3)


@P.facet("invariance", dicts(**FIT, t=st.integers(0, 2)), quick=160, rule="two or more columns", shards=4, cost=4)
def invariance(case, ctx):
    """row order, invertible recoding of the columns, and formula versus matrices give the same fit"""
    import pandas as pd
    d = fit_case(case, ctx, True)
    if d["p"] == 1:
        ctx.skip("one column")
    m = fitted(case, d, True)
    X, y, w, rng = d["X"], d["y"], d["w"], d["rng"]
    p = d["p"]
    se = np.asarray(m.params_se if case["impl"] != "glm" else m.se_theta)
    if not np.all(np.isfinite(se)) or np.max(np.abs(m.params)) > 5:
        ctx.skip("no interior optimum")
    if case["t"] == 0:
        ix = rng.permutation(d["n"])
        m2 = fitted(case, d, True, X=X[ix], y=y[ix], w=w[ix])
        T = np.eye(p)
    elif case["t"] == 1:
        T = np.eye(p) + np.diag(np.full(p - 1, 0.5), 1)
        T[0, 1:] += rng.uniform(-0.5, 0.5, p - 1)
        m2 = fitted(case, d, True, X=X @ T)
    else:
        df = pd.DataFrame(X[:, 1:], columns=[f"v{i}" for i in range(1, p)], index=[f"r{i}" for i in range(d["n"])])
        df["resp"] = y
        mod = importlib.import_module(IMPL[case["impl"]])
        fm = "resp ~ " + " + ".join(f"v{i}" for i in range(1, p))
        keep = df.copy()
        tk = dict(options=dict(verbose=0, gtol=1e-8, xtol=1e-13, maxiter=3000))
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            s = scale_of(case, d["name"])
            if case["impl"] == "glm":
                m2 = mod.GLM(formula=fm, data=df, fam=getattr(d["F"], d["name"])(link=d["link"], weights=w), scale_estimator=s)
                m2.fit(method="sp", opt_kws=tk)
            else:
                m2 = mod.GLM(formula=fm, data=df, family=d["f"], weights=w, scale_estimator=s)
                m2.fit(opt_kws=tk)
        ctx.check(df.equals(keep), "the data frame is not modified")
        ctx.check(list(m2.res.index[:p]) == ["Intercept"] + [f"v{i}" for i in range(1, p)], "labels from the formula")
        T = np.eye(p)
    b2 = np.asarray(m2.params)
    back = np.r_[T @ b2[:p], b2[p:]]
    ctx.close((back - m.params) / se, 0 * se, "estimates (in standard errors)", atol=5e-2, rtol=0)
    l1, l2 = (m.LLA, m2.LLA) if case["impl"] == "glm" else (m.llf, m2.llf)
    ctx.close(l2, l1, "log-likelihood", rtol=1e-5, atol=1e-3)


@P.facet("resampling", dicts(**dict(FIT, n=st.integers(14, 22), p=st.sampled_from([2, 1]), fam=st.sampled_from(["Gaussian", "Poisson", "Gamma"]), weighted=st.booleans())), quick=48, rule="two or more columns", shards=4, cost=6)
def resampling(case, ctx):
    """the jackknife is the leave-one-out refit, the bootstrap the refit on the drawn rows, and the one-step jackknife approximates the former"""
    case = dict(case, link=0, scale="fixed", phi=0.3, impl="lin" if case["impl"] == "glm" else case["impl"])
    d = fit_case(case, ctx)
    m = fitted(case, d)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        J = m._jacknife(method="optimize", verbose=False).values
        O = m._jacknife(method="one-step", verbose=False).values
        seed = int(d["rng"].integers(2**31))
        B = m._bootstrap(n_boot=3, verbose=False, rng=np.random.default_rng(seed))
    B = np.asarray(B[0] if isinstance(B, tuple) else B)
    se = m.params_se
    for i in d["rng"].permutation(d["n"])[:4]:
        k = np.arange(d["n"]) != i
        t, _ = ref_fit(dict(d, n=d["n"] - 1), "fixed", X=d["X"][k], y=d["y"][k], w=d["w"][k], start=m.params)
        ctx.close((J[i] - t) / se, 0 * t, f"jackknife row {i} (in standard errors)", atol=2e-2, rtol=0)
    # one Fisher-scoring step from the full fit with row i removed (exact for Gaussian identity)
    b = np.asarray(m.params)
    mu = d["link"].inv_link(d["X"] @ b)
    gp = 1 / num.deriv(d["link"].inv_link, d["X"] @ b, h=1e-4)
    W = d["w"] / (variance(d["name"], mu, 1.0) * gp ** 2)
    I = d["X"].T @ (d["X"] * W[:, None])
    for i in range(d["n"]):
        h = W[i] * d["X"][i] @ np.linalg.solve(I, d["X"][i])
        want = b - np.linalg.solve(I, d["X"][i]) * W[i] * (d["y"][i] - mu[i]) * gp[i] / (1 - h)
        ctx.close((O[i] - want) / se, 0 * b, f"one-step jackknife row {i} (in standard errors)", atol=1e-4, rtol=0)
    rng = np.random.default_rng(seed)
    for r in range(3):
        ii = rng.choice(d["n"], size=d["n"], replace=True)
        if np.linalg.matrix_rank(d["X"][ii]) < d["p"] or (d["name"] == "Poisson" and d["y"][ii].sum() < 3):
            return
        t, _ = ref_fit(d, "fixed", X=d["X"][ii], y=d["y"][ii], w=d["w"][ii], start=m.params)
        ctx.close((B[r] - t) / se, 0 * t, f"bootstrap replicate {r} (in standard errors)", atol=5e-2, rtol=0)
