"""C14: ordinary least squares classes (pyglm.ols.OLS, pyglm.linear_model.LinearModel, pyglm2.ols.OLS)."""
import importlib
import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C14", "Least-squares fits, their tests, diagnostics and resampling follow their definitions")
P.assumptions = ["designs have full column rank and more rows than columns + 2",
                 "resampling is checked by replaying the seed of the generator the library draws from"]

REML = {"lm": "pystatsm.pyglm.linear_model:LinearModel", "ols2": "pystatsm.pyglm2.ols:OLS"}


def cls(name):
    m, c = REML.get(name, "pystatsm.pyglm.ols:OLS").split(":")
    return getattr(importlib.import_module(m), c)


def make(case, ctx=None):
    rng = rng_of(case)
    p = case["p"]
    n = p + 3 + case["n"]
    X = rng.standard_normal((n, p)) @ (np.eye(p) + 0.4 * rng.standard_normal((p, p)) / p) * np.exp(rng.uniform(-1, 1, p))
    if case["intercept"]:
        X[:, 0] = 1.0
    beta = rng.integers(-2, 3, p).astype(float)
    y = X @ beta + rng.standard_normal(n) * (1 + 0.5 * np.abs(X[:, -1])) * case["sd"] + case["shift"]
    if ctx is not None:
        ctx.nontrivial(p > 1)
        ctx.label(f"p={p}")
    return X, y, rng


def ols(X, y):
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    r = y - X @ b
    return b, r, r @ r, np.linalg.inv(X.T @ X)


BASE = dict(seed=seeds(), n=st.integers(0, 25), p=st.sampled_from([2, 1, 3, 4, 6]), intercept=st.booleans(),
            sd=st.sampled_from([1.0, 0.2, 4.0]), shift=st.sampled_from([0.0, 3.0]))


@P.facet("likelihood", dicts(**BASE, impl=st.sampled_from(list(REML)), reml=st.booleans()), quick=500, rule="two or more columns")
def likelihood(case, ctx):
    """loglike is minus the Gaussian log-likelihood (n or n-p in the scale terms), gradient and hessian its derivatives"""
    X, y, rng = make(case, ctx)
    n, p = X.shape
    m = cls(case["impl"])(X=X, y=y)
    b, r, sse, _ = ols(X, y)
    t = np.r_[b + rng.standard_normal(p) * 0.3, np.log(sse / n) + rng.uniform(-1, 1)]
    reml = case["reml"]
    f = lambda t: m.loglike(t, reml=reml)
    e = y - X @ t[:-1]
    nn = n - p if reml else n
    want = 0.5 * nn * (np.log(2 * np.pi) + t[-1]) + 0.5 * e @ e * np.exp(-t[-1])
    if not reml:
        ctx.close(f(t), -sp.stats.norm(X @ t[:-1], np.exp(t[-1] / 2)).logpdf(y).sum(), "loglike")
    ctx.close(f(t), want, "loglike")
    g = m.gradient(t, reml=reml)
    ctx.close(g, num.grad(f, t), "gradient", rtol=1e-6, atol=1e-6 * abs(want))
    ctx.close(m.hessian(t, reml=reml), num.jac(lambda z: m.gradient(z, reml=reml), t), "hessian", rtol=1e-6, atol=1e-6)


@P.facet("fit", dicts(**BASE, impl=st.sampled_from(list(REML)), reml=st.booleans()), quick=400, rule="two or more columns")
def fit(case, ctx):
    """coefficients, scales, covariance, table and analysis of variance of the likelihood classes"""
    X, y, rng = make(case, ctx)
    n, p = X.shape
    m = cls(case["impl"])(X=X, y=y)
    X0, y0 = X.copy(), y.copy()
    if case["impl"] == "ols2" and p > 1:
        m.fit(reml=case["reml"])
    else:
        m._fit(reml=case["reml"])
    b, r, sse, Gi = ols(X, y)
    nn = n - p if case["reml"] else n
    ctx.close(m.beta, b, "beta", rtol=1e-7)
    ctx.close(m.sse, sse, "sse", rtol=1e-7)
    ctx.close(m.params, np.r_[b, np.log(sse / nn)], "params", rtol=1e-7)
    ctx.close(m.scale ** 2, sse / nn, "scale", rtol=1e-7)
    ctx.close(m.scale_ml ** 2, sse / n, "ML scale", rtol=1e-7)
    ctx.close(m.scale_unbiased ** 2, sse / (n - p), "unbiased scale", rtol=1e-7)
    if case["reml"]:
        # (without reml the library still evaluates the information of the restricted likelihood)
        V = np.zeros((p + 1, p + 1))
        V[:p, :p], V[p, p] = Gi * sse / nn, 2.0 / nn
        ctx.close(m.params_cov, V, "covariance", rtol=1e-6)
        ctx.close(m.params_se, np.sqrt(np.diag(V)), "standard errors", rtol=1e-6)
        t = m.params[:p] / m.params_se[:p]
        ctx.close(m.res.iloc[:p, 2].to_numpy(float), t, "t statistics", rtol=1e-6)
        ctx.close(m.res.iloc[:p, 3].to_numpy(float), 2 * sp.stats.t(n - p).sf(np.abs(t)), "p-values", rtol=1e-6, atol=1e-12)
    ctx.equal(X, X0, "X modified")
    ctx.equal(y, y0, "y modified")
    if case["impl"] == "ols2":
        Xn = rng.standard_normal((3, p))
        ctx.close(m.predict(Xn), Xn @ b, "predict", rtol=1e-7)
    if case["impl"] == "ols2" and p > 1:
        anova(ctx, m, X, y, b, r)


def anova(ctx, m, X, y, b, r):
    n, p = X.shape
    yc = y - y.mean()
    ssr, sst, ssm = r @ r, yc @ yc, np.sum((X @ b - y.mean()) ** 2)
    t = m.ssq.to_numpy(float)
    ctx.close(t, [[ssr, n - p, ssr / (n - p)], [ssm, p - 1, ssm / (p - 1)], [sst, n - 1, sst / (n - 1)]], "analysis of variance", rtol=1e-6)
    F = (ssm / (p - 1)) / (ssr / (n - p))
    s = m.sumstats
    ctx.close([float(s.iloc[0, 0]), float(s.iloc[1, 0]), float(s.iloc[2, 0]), float(s.iloc[2, 1])],
              [1 - ssr / sst, 1 - ssr / sst * (n - 1) / (n - p), F, sp.stats.f(p - 1, n - p).sf(F)], "R2, adjusted R2, F, p", rtol=1e-6, atol=1e-12)


@P.facet("constrained", dicts(**BASE, impl=st.sampled_from(list(REML)), k=st.integers(1, 3), rhs=st.booleans(), via=st.sampled_from(["data", "L", "Linv"])),
         quick=400, rule="two or more columns")
def constrained(case, ctx):
    """least squares under C beta = d, by any of the three ways to supply the factor, equals the KKT solution"""
    X, y, rng = make(case, ctx)
    n, p = X.shape
    k = min(case["k"], p)
    C = rng.standard_normal((k, p))
    d = rng.standard_normal(k) if case["rhs"] else None
    m = cls(case["impl"])(X=X, y=y)
    m._fit()
    L = np.linalg.cholesky(X.T @ X)
    kw = {"data": {}, "L": dict(L=L), "Linv": dict(Linv=np.linalg.inv(L))}[case["via"]]
    bc, sc = m._get_coef_constrained(m.params, m.sse, (X, y), C, d, **kw)
    K = np.block([[X.T @ X, C.T], [C, np.zeros((k, k))]])
    sol = np.linalg.solve(K, np.r_[X.T @ y, np.zeros(k) if d is None else d])
    cond = np.linalg.cond(K)
    if cond > 1e6:
        ctx.skip("ill conditioned constraint")
    ctx.close(bc, sol[:p], "constrained coefficients", rtol=1e-6, atol=1e-7)
    e = y - X @ sol[:p]
    ctx.close(sc, e @ e, "constrained sum of squares", rtol=1e-6)


@P.facet("legacy_fit", dicts(**BASE, kinds=st.lists(st.sampled_from(["HC0", "HC1", "HC2", "HC3", "HC4"]), max_size=3, unique=True),
                             how=st.sampled_from(["array", "frame", "formula", "series"])), quick=400, rule="two or more columns")
def legacy_fit(case, ctx):
    """pyglm.ols.OLS: estimates, robust standard errors, table and analysis of variance from arrays, frames or a formula"""
    from pystatsm.pyglm.ols import OLS
    X, y, rng = make(dict(case, intercept=True) if case["how"] == "formula" else case, ctx)
    n, p = X.shape
    if p < 2:
        ctx.skip("no model degrees of freedom")
    idx = pd.Index([f"r{i}" for i in range(n)])
    names = [f"v{j}" for j in range(p)]
    df = pd.DataFrame(X, columns=names, index=idx).assign(y=y)
    how = case["how"]
    if how == "array":
        m = OLS(X=X, y=y)
    elif how == "frame":
        m = OLS(X=df[names], y=df[["y"]])
    elif how == "series":
        m = OLS(X=df[names], y=df["y"])
    else:
        m = OLS("y~" + "+".join(names[1:]), df)
        ctx.equal(list(m.res_index) if hasattr(m, "res_index") else list(m.xcols), ["Intercept"] + names[1:], "column names")
    m.fit(var_beta=list(case["kinds"]) or None)
    b, r, sse, Gi = ols(X, y)
    s2 = sse / (n - p)
    se = np.sqrt(s2 * np.diag(Gi))
    ctx.close(np.ravel(m.beta), b, "beta", rtol=1e-7)
    ctx.close(np.ravel(m.beta_se), se, "standard errors", rtol=1e-7)
    ctx.close(m.res["t"].to_numpy(), b / se, "t", rtol=1e-7)
    ctx.close(m.res["p"].to_numpy(), 2 * sp.stats.t(n - p).sf(np.abs(b / se)), "p", rtol=1e-7, atol=1e-13)
    ctx.close(m.Vbeta, s2 * Gi, "covariance", rtol=1e-7)
    ctx.close(m.s2, s2, "s2", rtol=1e-7)
    h = np.sum((X @ Gi) * X, axis=1)
    ctx.close(m.h, h, "leverage", rtol=1e-7)
    om = {"HC0": r ** 2, "HC1": r ** 2 * n / (n - p), "HC2": r ** 2 / (1 - h), "HC3": r ** 2 / (1 - h) ** 2,
          "HC4": r ** 2 / (1 - h) ** np.minimum(4.0, n * h / p)}
    for k in case["kinds"]:
        rse = np.sqrt(np.diag(Gi @ (X.T * om[k]) @ X @ Gi))
        ctx.close(m.res["SE_" + k].to_numpy(), rse, k, rtol=1e-6)
        ctx.close(m.res["t_" + k].to_numpy(), b / rse, "t " + k, rtol=1e-6)
        ctx.close(m.res["p_" + k].to_numpy(), 2 * sp.stats.t(n - p).sf(np.abs(b / rse)), "p " + k, rtol=1e-6, atol=1e-13)
        _, _, again = m.robust_rcov(k)
        ctx.close(again, rse, "robust_rcov " + k, rtol=1e-6)
    anova(ctx, m, X, y, b, r)
    Xn = rng.standard_normal((4, p))
    ctx.close(np.ravel(m.predict(X=Xn)), Xn @ b, "predict", rtol=1e-7)
    t = np.r_[b + 0.1, 0.5 * np.log(s2) + 0.2]
    ctx.close(m.loglike(t), sp.stats.norm(X @ t[:-1], np.exp(t[-1])).logpdf(y).sum(), "loglike (with log sigma)", rtol=1e-8)
    e = y - X @ t[:-1]
    ctx.close(m.loglike(t[:-1]), sp.stats.norm(0, np.sqrt(e @ e / n)).logpdf(e).sum(), "profile loglike", rtol=1e-8)


@P.facet("legacy_influence", dicts(**BASE), quick=300, rule="two or more columns")
def legacy_influence(case, ctx):
    """studentised residuals, DFFITS, Cook's distance, COVRATIO, DFBETA and the jackknife equal refits without each row"""
    from pystatsm.pyglm.ols import OLS
    X, y, rng = make(case, ctx)
    n, p = X.shape
    if p < 2:
        ctx.skip("no model degrees of freedom")
    m = OLS(X=X, y=y)
    m.fit()
    b, r, sse, Gi = ols(X, y)
    h = np.sum((X @ Gi) * X, axis=1)
    if h.max() > 1 - 1e-6:
        ctx.skip("leverage one")
    s2 = sse / (n - p)
    V = s2 * Gi
    inf = m.get_influence()
    jack, rst, dff, cook, cov = [], [], [], [], []
    for i in range(n):
        k = np.arange(n) != i
        bi, ri, ssei, Gii = ols(X[k], y[k])
        s2i = ssei / (n - 1 - p)
        jack.append(bi)
        rst.append((y[i] - X[i] @ bi) / np.sqrt(s2i * (1 + X[i] @ Gii @ X[i])))
        dff.append((X[i] @ b - X[i] @ bi) / np.sqrt(s2i * h[i]))
        cook.append((b - bi) @ (X.T @ X) @ (b - bi) / (p * s2))
        cov.append(np.linalg.det(s2i * Gii) / np.linalg.det(V))
    m._compute_jackknife_coefs()
    jack = np.array(jack)
    ctx.close(m.beta_jackknife, jack, "jackknife coefficients", rtol=1e-6, atol=1e-7)
    ctx.close(m.beta_jackknife_z, jack - jack.mean(axis=0), "centred jackknife", rtol=1e-6, atol=1e-6)
    ctx.close(inf["leverage"], h, "leverage", rtol=1e-6)
    ctx.close(inf[list(m.xcols)].to_numpy(), b - jack, "dfbeta", rtol=1e-5, atol=1e-6)
    ctx.close(inf["r_students"], rst, "externally studentised residuals", rtol=1e-5, atol=1e-6)
    ctx.close(inf["studentized_d_residuals"], rst, "studentised deleted residuals", rtol=1e-5, atol=1e-6)
    ctx.close(inf["dfits"], dff, "DFFITS", rtol=1e-5, atol=1e-6)
    ctx.close(inf["cooks_distance"], cook, "Cook's distance", rtol=1e-5, atol=1e-6)
    ctx.close(inf["cov_ratio"], cov, "COVRATIO", rtol=1e-5, atol=1e-6)


def tstats(X, z):
    n, p = X.shape
    b, r, sse, Gi = ols(X, z)
    return b / np.sqrt(sse / (n - p) * np.diag(Gi))


@P.facet("legacy_resampling", dicts(**BASE, mode=st.sampled_from(["perm", "perm_store", "freedman_lane", "bootstrap"]), n_perms=st.integers(1, 12)),
         quick=150, rule="two or more columns")
def legacy_resampling(case, ctx):
    """permutation and Freedman-Lane p-values are shares of exceeding |t| (max |t| for FWER); bootstrap refits the drawn rows"""
    from pystatsm.pyglm.ols import OLS
    X, y, rng = make(dict(case, intercept=True), ctx)
    n, p = X.shape
    if p < 2:
        ctx.skip("no model degrees of freedom")
    ctx.label(case["mode"])
    m = OLS(X=X, y=y)
    m.fit()
    t0, N, s = np.abs(tstats(X, y)), case["n_perms"], case["seed"]
    np.random.seed(s)
    if case["mode"].startswith("perm"):
        m.permutation_test(n_perms=N, store_samples=case["mode"] == "perm_store", verbose=False)
        np.random.seed(s)
        T = np.array([np.abs(tstats(X, y[np.random.permutation(n)])) for _ in range(N)])
        near = np.min(np.abs(T[:, :, None] - t0), initial=1) < 1e-9
        if near:
            ctx.skip("tie")
        ctx.close(m.res["permutation_p"].to_numpy(float), (T > t0).mean(axis=0), "permutation p")
        ctx.close(m.res["permutation_p_fwer"].to_numpy(float), (T.max(axis=1)[:, None] > t0).mean(axis=0), "FWER p")
        if case["mode"] == "perm_store":
            ctx.close(np.abs(m.permutation_t_samples), T, "stored statistics", rtol=1e-6)
    elif case["mode"] == "freedman_lane":
        v = np.arange(1, p)
        m.freedman_lane(v, n_perms=N, verbose=False)
        np.random.seed(s)
        g, r, _, _ = ols(X[:, :1], y)
        u = X[:, :1] @ g
        T = np.array([np.abs(tstats(X, u + r[np.random.permutation(n)]))[v] for _ in range(N)])
        if np.min(np.abs(T[:, :, None] - t0[v]), initial=1) < 1e-7:
            ctx.skip("tie")
        ctx.close(m.res["freedman_lane_p"].to_numpy()[1:].astype(float), (T > t0[v]).mean(axis=0), "Freedman-Lane p")
        ctx.close(m.res["freedman_lane_p_fwer"].to_numpy()[1:].astype(float), (T.max(axis=1)[:, None] > t0[v]).mean(axis=0), "Freedman-Lane FWER p")
    else:
        N = max(N, 2)
        m.bootstrap(n_boot=N, ssq=True)
        B = m.beta_samples
        np.random.seed(s)
        # draws that gave a singular cross-product are redrawn; compare the accepted ones
        i = 0
        for _ in range(50 * N):
            ix = np.random.choice(n, n)
            Xb, yb = X[ix], y[ix]
            try:
                np.linalg.cholesky(Xb.T @ Xb)
            except np.linalg.LinAlgError:
                continue
            c = np.linalg.cond(Xb.T @ Xb)
            if c < 1e8:
                ctx.close(B[i], ols(Xb, yb)[0], "bootstrap coefficients", rtol=1e-5, atol=1e-6)
            i += 1
            if i == N:
                break
        ctx.close(m.res["SE_boot"].to_numpy(float), B.std(axis=0), "bootstrap standard errors", rtol=1e-6)
        ctx.close(m.res["t_boot"].to_numpy(float), m.res["beta"] / B.std(axis=0), "bootstrap t", rtol=1e-6)


@P.facet("permutation", dicts(**BASE, impl=st.sampled_from(list(REML)), k=st.integers(1, 3), n_perms=st.integers(1, 10)), quick=200, rule="two or more columns")
def permutation(case, ctx):
    """Freedman-Lane test of the likelihood classes: share of permutations whose |t| exceeds the observed one"""
    X, y, rng = make(dict(case, intercept=True), ctx)
    n, p = X.shape
    if p < 2:
        ctx.skip("nothing to keep fixed")
    v = np.sort(rng.permutation(p)[:min(case["k"], p - 1)])
    m = cls(case["impl"])(X=X, y=y)
    m._fit()
    N = case["n_perms"]
    pf, pv = m._permutation_test(v, n_perms=N, verbose=False, rng=np.random.default_rng(case["seed"]))
    t0 = np.abs(tstats(X, y))[v]
    ic = np.setdiff1d(np.arange(p), v)
    g, r, _, _ = ols(X[:, ic], y)
    u = X[:, ic] @ g
    rg = np.random.default_rng(case["seed"])
    T = np.array([np.abs(tstats(X, u + r[rg.permutation(n)]))[v] for _ in range(N)])
    if np.min(np.abs(T[:, :, None] - t0), initial=1) < 1e-7:
        ctx.skip("tie")
    ctx.close(pv, (T > t0).mean(axis=0), "p-values")
    ctx.close(pf, (T.max(axis=1)[:, None] > t0).mean(axis=0), "FWER p-values")


@P.facet("weights", dicts(**BASE, impl=st.sampled_from(list(REML))), quick=60, rule="two or more columns")
def weights(case, ctx):
    """weights given to the model act as replication counts on the coefficients"""
    X, y, rng = make(case, ctx)
    w = rng.integers(1, 4, len(y)).astype(float)
    if ctx.excludes("F049", np.any(w != 1)):
        return
    m = cls(case["impl"])(X=X, y=y, weights=w)
    m._fit()
    k = np.repeat(np.arange(len(y)), w.astype(int))
    ctx.close(m.beta, ols(X[k], y[k])[0], "weighted coefficients", rtol=1e-6)


@P.facet("invariance", dicts(**BASE, impl=st.sampled_from(["ols", "lm", "ols2"])), quick=200, rule="two or more columns")
def invariance(case, ctx):
    """row order does not matter; X A transforms the coefficients by the inverse of A; formula and arrays agree"""
    X, y, rng = make(dict(case, intercept=True), ctx)
    n, p = X.shape
    if p < 2:
        ctx.skip("no model degrees of freedom")

    def coef(**k):
        m = cls(case["impl"])(**k)
        m.fit() if case["impl"] == "ols" else m._fit()
        return np.ravel(m.beta), (m.s2 if case["impl"] == "ols" else m.scale_unbiased ** 2)
    b, s = coef(X=X, y=y)
    o = rng.permutation(n)
    b1, s1 = coef(X=X[o], y=y[o])
    ctx.close(b1, b, "row order", rtol=1e-6, atol=1e-8)
    A = rng.standard_normal((p, p)) + 2 * np.eye(p)
    if np.linalg.cond(X @ A) < 1e4:
        b2, s2 = coef(X=X @ A, y=y)
        ctx.close(A @ b2, b, "reparameterisation", rtol=1e-5, atol=1e-6)
        ctx.close(s2, s, "scale under reparameterisation", rtol=1e-5)
    df = pd.DataFrame(X[:, 1:], columns=[f"v{j}" for j in range(1, p)]).assign(y=y)
    b3, s3 = coef(formula="y~" + "+".join(df.columns[:-1]), data=df)
    ctx.close(b3, b, "formula", rtol=1e-6, atol=1e-8)
    ctx.close(s3, s, "formula scale", rtol=1e-6)
