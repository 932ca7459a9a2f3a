"""C16: multivariate regression with MANOVA tests (pyglm2.mvols)."""
import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C16", "Multivariate regression: likelihood, fit, association measures and MANOVA tests")
P.assumptions = ["designs have full column rank and n - p > q + 1"]


def MV():
    from pystatsm.pyglm2 import mvols
    return mvols


BASE = dict(seed=seeds(), n=st.integers(0, 25), p=st.sampled_from([2, 3, 1, 4]), q=st.sampled_from([2, 1, 3, 4]), weighted=st.booleans(), intercept=st.booleans())


def make(case, ctx):
    rng = rng_of(case)
    p, q = case["p"], case["q"]
    n = p + q + 2 + case["n"]
    X = rng.standard_normal((n, p))
    if case["intercept"]:
        X[:, 0] = 1
    Y = X @ (rng.standard_normal((p, q)) * rng.uniform(0.1, 1.5)) + rng.standard_normal((n, q)) @ num.spd(rng, q)
    w = rng.integers(1, 4, n).astype(float) if case["weighted"] else None
    ctx.nontrivial(q > 1 and p > 1)
    ctx.label(f"q={q}")
    return X, Y, w, rng


def model(X, Y, w):
    return MV().MVOLS(X=X, y=Y, weights=w)


def wls(X, Y, w):
    w = np.ones(len(X)) if w is None else w
    G = X.T @ (X * w[:, None])
    B = np.linalg.solve(G, X.T @ (Y * w[:, None]))
    E = Y - X @ B
    return B, E, E.T @ (E * w[:, None]), np.linalg.inv(G), w


@P.facet("derivatives", dicts(**BASE), quick=500, rule="several responses and columns")
def derivatives(case, ctx):
    """packing round trip; loglike is minus the weighted matrix-normal log-likelihood; gradient, per-row scores and hessian are its derivatives"""
    X, Y, w, rng = make(case, ctx)
    p, q = case["p"], case["q"]
    m = model(X, Y, w)
    w = np.ones(len(X)) if w is None else w
    pk = m.packer
    B = rng.standard_normal((p, q))
    L = np.linalg.cholesky(num.spd(rng, q))
    t = pk.pack(B, L)
    B2, L2 = pk.unpack(t)
    ctx.close(B2, B, "unpack(pack) coefficients")
    ctx.close(L2, L, "unpack(pack) Cholesky factor")
    ctx.close(pk.pack(*pk.unpack(t)), t, "pack(unpack)")
    ctx.check(len(t) == pk.n_params == len(pk.theta_labels()) == p * q + q * (q + 1) // 2, "parameter count and labels")
    S = np.linalg.inv(L @ L.T)
    lp = sp.stats.multivariate_normal(np.zeros(q), S).logpdf(Y - X @ B)
    ctx.close(m.loglike(t), -np.sum(np.atleast_1d(lp) * w), "loglike")
    g = m.gradient(t)
    ctx.close(g, num.grad(m.loglike, t), "gradient", rtol=1e-6, atol=1e-6)
    gi = m.gradient_i(t)
    ctx.close(gi.sum(axis=0), g, "row scores sum to the gradient", rtol=1e-8, atol=1e-8)
    i = int(rng.integers(len(X)))
    one = num.grad(lambda z: -w[i] * sp.stats.multivariate_normal(np.zeros(q), np.linalg.inv((lambda M: M @ M.T)(pk.unpack(z)[1]))).logpdf(Y[i] - X[i] @ pk.unpack(z)[0]), t)
    ctx.close(gi[i], one, "score of one row", rtol=1e-6, atol=1e-6)
    ctx.close(m.hessian(t), num.jac(m.gradient, t), "hessian", rtol=1e-6, atol=1e-6)


@P.facet("fit", dicts(**BASE, method=st.sampled_from(["closed_form", "closed_form", "mle"])), quick=200, rule="several responses and columns", cost=2)
def fit(case, ctx):
    """estimates are weighted least squares; covariance is the inverse information; information criteria, R-squares, predictions"""
    X, Y, w, rng = make(case, ctx)
    n, p, q = len(X), case["p"], case["q"]
    m = model(X, Y, w)
    m.fit(method=case["method"])
    B, E, R, Gi, w = wls(X, Y, w)
    S = R / w.sum()
    se = np.sqrt(np.outer(np.diag(Gi), np.diag(S)))
    tol = 1e-3 if case["method"] == "mle" else 1e-7
    ctx.close((m.beta - B) / se, np.zeros((p, q)), "coefficients (standard-error units)", atol=tol)
    if case["method"] == "mle":
        return
    ctx.close(m.sigma_mle, S, "error covariance", rtol=1e-6)
    ctx.close(m.beta_cov, np.kron(S, Gi), "coefficient covariance", rtol=1e-5)
    ctx.close(m.beta_se, np.sqrt(np.diag(np.kron(S, Gi))), "standard errors", rtol=1e-5)
    ctx.close(m.params_cov @ m.hessian(m.params), np.eye(len(m.params)), "covariance times information", rtol=1e-5, atol=1e-5)
    llf = np.sum(np.atleast_1d(sp.stats.multivariate_normal(np.zeros(q), S).logpdf(E)) * w)
    ctx.close(m.llf, llf, "log-likelihood", rtol=1e-7, atol=1e-6)
    k = len(m.params)
    if n - k - 1 != 0:
        ctx.close([m.aic, m.aicc, m.bic, m.caic], [-2 * llf + 2 * k, -2 * llf + 2 * k * n / (n - k - 1), -2 * llf + k * np.log(n), -2 * llf + k * (np.log(n) + 1)],
                  "information criteria", rtol=1e-6)
    ctx.close(m.residuals, E, "residuals", rtol=1e-7, atol=1e-9)
    yb = np.average(Y, axis=0, weights=w)
    sst = np.sum(w[:, None] * (Y - yb) ** 2, axis=0)
    r2 = 1 - np.diag(R) / sst
    ctx.close(m.rsquared["R2"].to_numpy(), r2, "R2 per response", rtol=1e-7, atol=1e-9)
    ctx.close(m.rsquared["R2_adj"].to_numpy(), 1 - (1 - r2) * (n - 1) / (n - p), "adjusted R2", rtol=1e-7, atol=1e-9)
    ctx.close(m.r2_trace, 1 - np.trace(R) / sst.sum(), "trace R2", rtol=1e-7, atol=1e-9)
    Xn = rng.standard_normal((3, p))
    ctx.close(m.predict(Xn), Xn @ B, "predict", rtol=1e-7, atol=1e-9)
    ctx.close(m.sigma_unbiased, R / (n - p), "unbiased covariance", rtol=1e-6)


def ftests(H, E, v, dfh):
    """Wilks, Pillai, Hotelling-Lawley, Roy with the textbook F approximations (SAS notation)."""
    p = E.shape[0]
    q = dfh
    lam = np.clip(np.sort(np.real(np.linalg.eigvals(np.linalg.solve(E, H))))[::-1], 0, None)
    s, mm, nn = min(p, q), (abs(p - q) - 1) / 2, (v - p - 1) / 2
    W = np.linalg.det(E) / np.linalg.det(E + H)
    V = np.trace(H @ np.linalg.inv(H + E))
    U = np.trace(np.linalg.solve(E, H))
    t = np.sqrt((p * p * q * q - 4) / (p * p + q * q - 5)) if p * p + q * q - 5 > 0 else 1.0
    r, u = v - (p - q + 1) / 2, (p * q - 2) / 4
    out = [(W, p * q, r * t - 2 * u, (1 - W ** (1 / t)) / W ** (1 / t) * (r * t - 2 * u) / (p * q)),
           (V, s * (2 * mm + s + 1), s * (2 * nn + s + 1), (2 * nn + s + 1) / (2 * mm + s + 1) * V / (s - V))]
    if nn > 0:
        k = 2 * (2 * nn + 1) * (nn - 1)
        ratio = (p * q + 2) * k / ((p + 2 * nn) * (q + 2 * nn) - k)          # (pq+2)/(b-1), also at nn = 1
        d2 = 4 + ratio
        c = (2 + ratio) / (2 * nn)
        out.append((U, p * q, d2, U / c * d2 / (p * q)))
    else:
        out.append((U, s * (2 * mm + s + 1), 2 * (s * nn + 1), 2 * (s * nn + 1) * U / (s * s * (2 * mm + s + 1))))
    r = max(p, q)
    out.append((lam[0], r, v - r + q, lam[0] * (v - r + q) / r))
    return np.array([(a, b, c, f, sp.stats.f.sf(f, b, c)) for a, b, c, f in out]), s


@P.facet("manova", dicts(**BASE, k=st.integers(1, 3), transform=st.booleans()), quick=500, rule="several responses and columns")
def manova(case, ctx):
    """test_hypothesis(L, M): SSCP matrices from the constrained fit, the four statistics and their F approximations"""
    X, Y, w, rng = make(case, ctx)
    n, p, q = len(X), case["p"], case["q"]
    m = model(X, Y, w)
    m.fit()
    B, Er, R, Gi, w = wls(X, Y, w)
    k = min(case["k"], p)
    C = rng.standard_normal((k, p))
    M = rng.standard_normal((q, int(rng.integers(1, q + 1)))) if case["transform"] else None
    T = np.eye(q) if M is None else M
    # SSCP of the hypothesis as the increase of the residual SSCP under the constraint C B T = 0
    Z = Y @ T
    K = np.block([[X.T @ (X * w[:, None]), C.T], [C, np.zeros((k, k))]])
    B0 = np.linalg.solve(K, np.r_[X.T @ (Z * w[:, None]), np.zeros((k, Z.shape[1]))])[:p]
    E0 = Z - X @ B0
    E = T.T @ R @ T
    H = E0.T @ (E0 * w[:, None]) - E
    v = n - p
    nn = (v - E.shape[0] - 1) / 2
    want, s = ftests((H + H.T) / 2, E, v, k)
    ctx.label(f"s={s}")
    got = m.test_hypothesis(C, M)
    ctx.check(list(got.columns) == ["Value", "Num DF", "Den DF", "F Value", "P Value"], "columns")
    g = got.to_numpy(float)
    if np.linalg.cond(E) > 1e8 or want[0, 2] <= 0 or want[2, 2] <= 0:
        ctx.skip("ill conditioned or no degrees of freedom")
    for i, name in enumerate(["Wilks", "Pillai", "Hotelling-Lawley", "Roy"]):
        ctx.close(g[i], want[i], name, rtol=1e-5, atol=1e-7, scale="elem")
    if min(E.shape[0], k) == 1:
        f = want[3, 3] if E.shape[0] == 1 or k == 1 else None
        # exact case: all four are the same F test
        ctx.close(g[:2, 3], [f, f], "exact F", rtol=1e-5, atol=1e-7)


@P.facet("association", dicts(**BASE), quick=200, rule="several responses and columns")
def association(case, ctx):
    """term tests are single-column hypotheses; association measures follow from the squared canonical correlations"""
    X, Y, w, rng = make(dict(case, intercept=True, p=max(case["p"], 2)), ctx)
    n, p, q = len(X), X.shape[1], case["q"]
    m = model(X, Y, w)
    m.fit()
    labels = m.mv_tests.index.get_level_values(0)
    for j in range(1, p):
        c = np.zeros((1, p))
        c[0, j] = 1
        ctx.close(m.mv_tests[labels == m.term_names[j]].to_numpy(float), m.test_hypothesis(c).to_numpy(float), f"term {j}", rtol=1e-8)
    L = np.eye(p)[1:]
    if p > 2:
        ctx.close(m.mv_tests[labels == "Regression"].to_numpy(float), m.test_hypothesis(L).to_numpy(float), "joint test", rtol=1e-8)
    ww = np.ones(n) if w is None else w
    sw = np.sqrt(ww / ww.sum())[:, None]
    xc, yc = (X[:, 1:] - np.average(X[:, 1:], axis=0, weights=ww)) * sw, (Y - np.average(Y, axis=0, weights=ww)) * sw
    Qx, Qy = np.linalg.qr(xc)[0], np.linalg.qr(yc)[0]
    rho = np.linalg.svd(Qx.T @ Qy, compute_uv=False)
    rho2 = rho ** 2
    ctx.close(m.canonical_corr, rho, "canonical correlations", rtol=1e-6, atol=1e-6)
    s = min(q, p - 1)
    W, V, U, R = np.prod(1 - rho2), rho2.sum(), np.sum(rho2 / (1 - rho2)), rho2[0] / (1 - rho2[0])
    want = [W, V, U, R, 1 - W, 1 - W ** (1 / s), V / s, (U / s) / (1 + U / s), rho2[0], rho2.mean()]
    ctx.close(m.assoc["Value"].to_numpy(float), want, "association measures", rtol=1e-6, atol=1e-7)
    ctx.close(m.r2_det, 1 - W, "generalised R2", rtol=1e-6, atol=1e-8)


@P.facet("invariance", dicts(**BASE), quick=150, rule="several responses and columns")
def invariance(case, ctx):
    """integer weights replicate rows; response transformations leave the MANOVA statistics alone; formula and arrays agree"""
    X, Y, w, rng = make(dict(case, intercept=True, p=max(case["p"], 2)), ctx)
    n, p, q = len(X), X.shape[1], case["q"]
    m = model(X, Y, w)
    m.fit()
    if w is not None:
        k = np.repeat(np.arange(n), w.astype(int))
        m2 = model(X[k], Y[k], None)
        m2.fit()
        ctx.close(m2.params, m.params, "replicated rows: parameters", rtol=1e-6, atol=1e-7)
        ctx.close(m2.llf, m.llf, "replicated rows: log-likelihood", rtol=1e-7, atol=1e-7)
        ctx.close(m2.params_cov, m.params_cov, "replicated rows: covariance", rtol=1e-5, atol=1e-8)
        ctx.close(m2.resid_sscp, m.resid_sscp, "replicated rows: SSCP", rtol=1e-6)
    A = rng.standard_normal((q, q)) + 2 * np.eye(q)
    if np.linalg.cond(Y @ A) < 1e4:
        m3 = model(X, Y @ A, w)
        m3.fit()
        ctx.close(m3.mv_tests.to_numpy(float), m.mv_tests.to_numpy(float), "tests under response transformation", rtol=1e-5, atol=1e-6, scale="elem")
    df = pd.DataFrame(np.c_[X[:, 1:], Y], columns=[f"v{j}" for j in range(1, p)] + [f"y{j}" for j in range(q)])
    m4 = MV().MVOLS(formula="+".join(f"y{j}" for j in range(q)) + " ~ " + "+".join(df.columns[:p - 1]), data=df, weights=w)
    m4.fit()
    ctx.close(m4.params, m.params, "formula: parameters", rtol=1e-7, atol=1e-8)
    ctx.close(m4.mv_tests.to_numpy(float), m.mv_tests.to_numpy(float), "formula: tests", rtol=1e-6, atol=1e-8, scale="elem")
