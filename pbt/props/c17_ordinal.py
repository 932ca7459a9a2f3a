"""C17: cumulative link models (pyglm.clm.CLM, pyglm2.clm.CLM, OrderedTransform)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C17", "Cumulative link (ordinal) models")
P.assumptions = ["every category is observed and the data are not separable (fits with a finite maximum)"]
LINKS = {"logit": lambda z: 1 / (1 + np.exp(-z)), "probit": sp.special.ndtr, "cloglog": lambda z: -np.expm1(-np.exp(z))}


def link_of(pack, name):
    import importlib
    m = importlib.import_module(f"pystatsm.{pack}.links")
    return {"logit": m.LogitLink, "probit": m.ProbitLink, "cloglog": m.CloglogLink}[name]


def CLM2():
    from pystatsm.pyglm2.clm import CLM
    return CLM


def simulate(case):
    """(frame with columns x1..xp, y), response codes, X, weights, category values"""
    rng = rng_of(case)
    n, p, K = case["n"], case["p"], case["K"]
    X = rng.standard_normal((n, p))
    beta = rng.uniform(-0.9, 0.9, p)
    z = X @ beta + rng.logistic(size=n) * 0.8
    q = np.sort(rng.choice(np.arange(1, 10), K - 1, replace=False)) / 10
    codes = np.searchsorted(np.quantile(z, q), z)
    # a few moved rows, so that no category is separated; every category kept
    mv = rng.permutation(n)[: n // 6]
    codes[mv] = rng.integers(0, K, len(mv))
    codes[rng.permutation(n)[:K]] = np.arange(K)
    vals = np.sort(rng.choice(np.arange(-5, 20), K, replace=False)) if case.get("lab", True) else np.arange(K)
    w = rng.integers(1, 4, n).astype(float) if case.get("w") else np.ones(n)
    df = pd.DataFrame(X, columns=[f"x{i+1}" for i in range(p)], index=rng.permutation(n) + 100)
    df["y"] = vals[codes]
    return df, codes, X, w, vals


def nll(params, X, codes, w, K, link):
    F = LINKS[link]
    tau, beta = params[: K - 1], params[K - 1:]
    c = np.hstack([np.zeros((len(X), 1)), F(tau[None, :] - (X @ beta)[:, None]), np.ones((len(X), 1))])
    pr = np.diff(c, axis=1)[np.arange(len(X)), codes]
    return -np.sum(w * np.log(pr))


def nll_i(params, X, codes, w, K, link):
    F = LINKS[link]
    tau, beta = params[: K - 1], params[K - 1:]
    c = np.hstack([np.zeros((len(X), 1)), F(tau[None, :] - (X @ beta)[:, None]), np.ones((len(X), 1))])
    return -w * np.log(np.diff(c, axis=1)[np.arange(len(X)), codes])


def some_params(rng, K, p):
    gaps = rng.uniform(0.15, 1.2, K - 2)
    tau = np.cumsum(np.r_[rng.uniform(-1.5, -0.5), gaps * min(1.0, 2.0 / max(gaps.sum(), 1e-9))])
    return np.r_[tau, rng.uniform(-0.8, 0.8, p)]


def tame(th, X, codes, K, link):
    """shrink the coefficients until no category probability is tiny (they are differences of two CDF values)"""
    for _ in range(60):
        if np.exp(-nll_i(th, X, codes, 1.0, K, link)).min() >= 3e-4:
            break
        th = np.r_[th[:K - 1], th[K - 1:] * 0.6]
    return th


def best(x0, X, codes, w, K, link):
    """independent maximum: own objective, spacing parametrisation, BFGS"""
    def back(u):
        return np.r_[u[0], u[0] + np.cumsum(np.exp(u[1:K - 1])), u[K - 1:]]
    u0 = np.r_[x0[0], np.log(np.diff(x0[:K - 1])), x0[K - 1:]]
    f = lambda u: nll(back(u), X, codes, w, K, link)
    r = sp.optimize.minimize(f, u0, method="BFGS", options=dict(gtol=1e-7))
    return back(r.x), r.fun


MODEL = dict(seed=seeds(), n=st.sampled_from([40, 60, 90]), p=st.integers(1, 3), K=st.integers(2, 6), link=st.sampled_from(sorted(LINKS)), w=st.booleans(), lab=st.booleans())


@P.facet("ordered_transform", dicts(seed=seeds(), q=st.integers(1, 6), p=st.integers(0, 3)), quick=500, rule="three or more thresholds and some free parameters")
def ordered_transform(case, ctx):
    """the threshold transform is a bijection onto increasing thresholds; its derivative arrays are its derivatives"""
    from pystatsm.pyglm2.clm import OrderedTransform as T
    rng = rng_of(case)
    q, p = case["q"], case["p"]
    ctx.nontrivial(q >= 3 and p > 0)
    y = rng.uniform(-2, 1.5, q + p)
    x = T._rvs(y, q)
    y0 = y.copy()
    ctx.check(bool(np.all(np.diff(x[:q]) > 0)), "thresholds increase")
    ctx.close(x[q:], y[q:], "other parameters unchanged")
    ctx.close(x[:q], y[0] + np.r_[0, np.cumsum(np.exp(y[1:q]))], "thresholds")
    ctx.close(T._fwd(x, q), y, "round trip", rtol=1e-9, atol=1e-9)
    ctx.equal(y.tolist(), y0.tolist(), "input kept")
    r = T._rvs
    ctx.close(T._jac_rvs(y[:q], q), num.jac(lambda z: r(z, q), y[:q]), "d thresholds / d transformed", rtol=1e-6, atol=1e-8)
    ctx.close(T._hess_rvs(y[:q], q), num.jac(lambda z: T._jac_rvs(z, q), y[:q]), "second derivatives of the reverse map", rtol=1e-6, atol=1e-7)
    x = x[:q]
    sc = np.min(np.diff(x)) if q > 1 else 1.0
    J, H = T._jac_fwd(x, q), T._hess_fwd(x, q)
    ctx.close(J, num.jac(lambda z: T._fwd(z, q), x, h=1e-2 * sc), "d transformed / d thresholds", rtol=1e-6, scale=1 / sc)
    ctx.close(H, num.jac(lambda z: T._jac_fwd(z, q), x, h=1e-2 * sc), "second derivatives of the forward map", rtol=1e-6, scale=1 / sc ** 2)
    ctx.close(J @ T._jac_rvs(y[:q], q), np.eye(q), "the two jacobians are inverse", rtol=1e-8, atol=1e-8)


@P.facet("derivatives2", dicts(**MODEL, arrays=st.booleans()), quick=300, rule="weighted, three or more categories", cost=3)
def derivatives2(case, ctx):
    """pyglm2 CLM: loglike is the weighted multinomial one, and gradient, scores and hessian are its derivatives in both parametrisations"""
    from pystatsm.pyglm2.clm import OrderedTransform as T
    df, codes, X, w, vals = simulate(case)
    rng = np.random.default_rng(case["seed"] + 7)
    K, p, lk = case["K"], case["p"], case["link"]
    ctx.nontrivial(case["w"] and K >= 3)
    ctx.label(lk)
    kw = dict(weights=w) if case["w"] else {}
    L = link_of("pyglm2", lk)
    if case["arrays"]:
        m = CLM2()(None, None, X=X.copy(), y=df["y"].to_numpy().copy(), link=L, **kw)
    else:
        m = CLM2()("y ~ " + "+".join(df.columns[:p]), df, link=L() if case["seed"] % 2 else L, **kw)
    th = tame(some_params(rng, K, p), X, codes, K, lk)
    ref = lambda z: nll(z, X, codes, w, K, lk)
    ctx.close(m.loglike(th), ref(th), "loglike", rtol=1e-9)
    g = num.grad(ref, th)
    sc = 1 + np.abs(g).max()
    ctx.close(m.gradient(th), g, "gradient", rtol=1e-6, scale=sc)
    gi = num.jac(lambda z: nll_i(z, X, codes, w, K, lk), th)
    ctx.close(m.gradient_i(th), gi, "per-row scores", rtol=1e-6, scale=1 + np.abs(gi).max())
    H = num.jac(m.gradient, th)
    ctx.close(m.hessian(th), H, "hessian", rtol=1e-6, scale=1 + np.abs(H).max())
    q = K - 1
    u = T._fwd(th, q)
    ctx.close(m.loglike_unconstrained(u), ref(th), "unconstrained loglike", rtol=1e-9)
    gu = num.grad(lambda z: ref(T._rvs(z, q)), u)
    ctx.close(m.gradient_unconstrained(u), gu, "unconstrained gradient", rtol=1e-6, scale=1 + np.abs(gu).max())
    giu = num.jac(lambda z: nll_i(T._rvs(z, q), X, codes, w, K, lk), u)
    ctx.close(m.gradient_unconstrained_i(u), giu, "unconstrained scores", rtol=1e-6, scale=1 + np.abs(giu).max())
    Hu = num.jac(m.gradient_unconstrained, u)
    ctx.close(m.hessian_unconstrained(u), Hu, "unconstrained hessian", rtol=1e-6, scale=1 + np.abs(Hu).max())


def fit2(case, df, X, w, arrays=False, weights=True, **kw):
    L = link_of("pyglm2", case["link"])
    wk = dict(weights=w) if case["w"] and weights else {}
    if arrays:
        m = CLM2()(None, None, X=X.copy(), y=df["y"].to_numpy().copy(), link=L, **wk)
    else:
        m = CLM2()("y ~ " + "+".join(df.columns[:-1]), df, link=L, **wk)
    m.fit(opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-10, maxiter=2000)), **kw)
    return m


@P.facet("fit2", dicts(**MODEL, arrays=st.booleans()), quick=96, shards=2, rule="weighted, three or more categories", cost=12)
def fit2_(case, ctx):
    """pyglm2 CLM: the fit is the likelihood maximum (against an independent search), with inverse-information covariance and the stated summary statistics"""
    df, codes, X, w, vals = simulate(case)
    n, K, p, lk = case["n"], case["K"], case["p"], case["link"]
    ctx.nontrivial(case["w"] and K >= 3)
    m = fit2(case, df, X, w, case["arrays"])
    th = np.asarray(m.params)
    xb, fb = best(th + 0.05 * np.random.default_rng(case["seed"]).uniform(0, 1, len(th)) * np.r_[np.arange(1, K), np.ones(p)], X, codes, w, K, lk)
    f = nll(th, X, codes, w, K, lk)
    ctx.check(f <= fb + 1e-5, f"a search finds a likelihood higher by {f - fb:.3g}")
    V = np.linalg.inv(num.jac(lambda z: num.grad(lambda y: nll(y, X, codes, w, K, lk), z), th, h=1e-2))
    se = np.sqrt(np.diag(V))
    ctx.check(bool(np.all(np.abs(th - xb) < 1e-2 * se)), "parameters differ from the maximum")
    ctx.close(m.params_cov, V, "params_cov", rtol=1e-4, scale=np.abs(V).max())
    ctx.close(m.params_se, se, "params_se", rtol=1e-4)
    ctx.close(m.beta, th[K - 1:], "beta")
    ctx.close(m.beta_cov, m.params_cov[K - 1:, K - 1:], "beta_cov")
    ctx.close(m.beta_se, se[K - 1:], "beta_se", rtol=1e-4)
    N = w.sum()
    tau0 = np.cumsum(np.bincount(codes, weights=w, minlength=K))[:-1] / N
    c = np.bincount(codes, weights=w, minlength=K)
    ll0 = -np.sum(c * np.log(c / N))
    ctx.close(m.lln, ll0, "null likelihood is the saturated one of the margins", rtol=1e-6)
    ctx.close(m.llf, f, "llf", rtol=1e-9)
    k = len(th)
    ctx.close([m.aic, m.bic, m.caic, m.aicc], [2 * f + 2 * k, 2 * f + k * np.log(n), 2 * f + k * (np.log(n) + 1), 2 * f + 2 * k * n / (n - k - 1)], "information criteria", rtol=1e-7)
    ctx.close(m.llr, 2 * (m.lln - m.llf), "llr", rtol=1e-7, atol=1e-7)
    ctx.close(m.r2_mc, 1 - f / ll0, "McFadden", rtol=1e-5, atol=1e-6)
    ctx.close(m.r2_cs, 1 - np.exp(-2 / n * (ll0 - f)), "Cox-Snell", rtol=1e-5, atol=1e-6)
    ctx.close(m.r2_nk, m.r2_cs / (1 - np.exp(-2 / n * ll0)), "Nagelkerke", rtol=1e-5, atol=1e-6)
    r = m.res
    labs = [f"{vals[i-1]}|{vals[i]}" for i in range(1, K)]
    got = [str(i) for i in r.index][: K - 1]
    ctx.check([tuple(float(v) for v in g.split("|")) for g in got] == [tuple(float(v) for v in g.split("|")) for g in labs], f"threshold labels {got}")
    if not case["arrays"]:
        ctx.equal([str(i) for i in r.index][K - 1:], [f"x{i+1}" for i in range(p)], "coefficient labels")
    A = r.to_numpy()
    ctx.close(A[:, 0], th, "table estimates")
    ctx.close(A[:, 1], se, "table standard errors", rtol=1e-4)
    ctx.close(A[:, 2], th / A[:, 1], "table t", rtol=1e-8, atol=1e-12)
    ctx.close(A[:, 3], 2 * sp.stats.t(n - k).sf(np.abs(A[:, 2])), "table p", rtol=1e-7, atol=1e-14)


@P.facet("predict2", dicts(**MODEL, newx=st.sampled_from(["none", "array", "frame"]), level=st.sampled_from([0.95, 0.8, 0.99])), quick=96, rule="new data", cost=8)
def predict2(case, ctx):
    """pyglm2 CLM.predict: category and cumulative probabilities, delta-method errors of the linear predictor and its interval"""
    df, codes, X, w, vals = simulate(case)
    rng = np.random.default_rng(case["seed"] + 9)
    K, p, lk = case["K"], case["p"], case["link"]
    q = K - 1
    ctx.nontrivial(case["newx"] != "none")
    m = fit2(case, df, X, w)
    if case["newx"] == "none":
        Xn, arg, ix = X, {}, df.index
    else:
        Xn = rng.standard_normal((7, p))
        ix = pd.Index([f"r{i}" for i in range(7)])
        arg = dict(X=Xn if case["newx"] == "array" else pd.DataFrame(Xn, index=ix, columns=df.columns[:-1]))
    lin, pr, cp = m.predict(ci_level=case["level"], **arg)
    tau, beta = m.params[:q], m.params[q:]
    eta = tau[None, :] - (Xn @ beta)[:, None]
    F = LINKS[lk](eta)
    ctx.close(lin["mean"].to_numpy(), eta, "linear predictor", rtol=1e-8, atol=1e-10)
    ctx.close(cp["mean"].to_numpy(), F, "cumulative probabilities", rtol=1e-8, atol=1e-10)
    pm = np.diff(np.hstack([np.zeros((len(Xn), 1)), F, np.ones((len(Xn), 1))]), axis=1)
    ctx.close(pr["mean"].to_numpy(), pm, "category probabilities", rtol=1e-8, atol=1e-10)
    ctx.close(pr["mean"].to_numpy().sum(axis=1), np.ones(len(Xn)), "probabilities add to one")
    se = np.empty_like(eta)
    for i in range(q):
        G = np.zeros((len(Xn), len(m.params)))
        G[:, i] = 1
        G[:, q:] = -Xn
        se[:, i] = np.sqrt(np.sum((G @ m.params_cov) * G, axis=1))
    ctx.close(lin["se"].to_numpy(), se, "standard errors", rtol=1e-7)
    zc = sp.stats.norm.ppf(0.5 + case["level"] / 2)
    ctx.close(lin["lower"].to_numpy(), eta - zc * se, "interval lower", rtol=1e-7, atol=1e-9)
    ctx.close(lin["upper"].to_numpy(), eta + zc * se, "interval upper", rtol=1e-7, atol=1e-9)
    ctx.close(cp["lower"].to_numpy(), LINKS[lk](eta - zc * se), "cumulative interval lower", rtol=1e-7, atol=1e-9)
    ctx.close(cp["upper"].to_numpy(), LINKS[lk](eta + zc * se), "cumulative interval upper", rtol=1e-7, atol=1e-9)
    ctx.equal([float(c) for c in pr["mean"].columns], [float(v) for v in vals], "category columns")
    if case["newx"] != "array":
        ctx.equal(list(pr["mean"].index), list(ix), "row labels")


@P.facet("relations2", dicts(**MODEL, rel=st.sampled_from(["replicate", "relabel", "rows", "reverse", "scale", "columns", "binary"])), quick=120, shards=2, rule="all", cost=15)
def relations2(case, ctx):
    """weights act as replication; labels, row order, column order, scaling and (symmetric links) reversal of the categories act as they must; two categories are binary regression"""
    case = dict(case)
    rel = case["rel"]
    if rel == "replicate":
        case["w"] = True
    if rel == "reverse" and case["link"] == "cloglog":
        case["link"] = "logit"
    if rel == "binary":
        case["K"] = 2
    df, codes, X, w, vals = simulate(case)
    rng = np.random.default_rng(case["seed"] + 11)
    K, p = case["K"], case["p"]
    q = K - 1
    ctx.nontrivial(True)
    ctx.label(rel)
    m = fit2(case, df, X, w)
    tol = 1e-3 * m.params_se
    def same(got, want, what, t=tol):
        ctx.check(bool(np.all(np.abs(np.asarray(got) - want) < t)), f"{what}: {got} != {want}")
    if rel == "replicate":
        ii = np.repeat(np.arange(case["n"]), w.astype(int))
        m2 = fit2(case, df.iloc[ii].reset_index(drop=True), X[ii], w, weights=False)
        same(m2.params, m.params, "replicated rows")
        ctx.close(m2.llf, m.llf, "likelihood", rtol=1e-8)
        ctx.close(m2.params_se, m.params_se, "standard errors of replicated rows", rtol=1e-3)
    elif rel == "relabel":
        d2 = df.copy()
        d2["y"] = (np.cumsum(rng.uniform(0.1, 3, K)) - 2)[codes]
        m2 = fit2(case, d2, X, w)
        same(m2.params, m.params, "increasing relabelling of the categories")
    elif rel == "rows":
        ii = rng.permutation(case["n"])
        m2 = fit2(case, df.iloc[ii], X[ii], w[ii])
        same(m2.params, m.params, "row order")
    elif rel == "columns":
        ii = rng.permutation(p)
        m2 = fit2(case, df[[df.columns[i] for i in ii] + ["y"]], X[:, ii], w)
        same(m2.params, np.r_[m.params[:q], m.params[q:][ii]], "column order", np.r_[tol[:q], tol[q:][ii]])
    elif rel == "scale":
        s, a = rng.uniform(0.5, 2, p), rng.uniform(-1, 1, p)
        d2 = df.copy()
        for j in range(p):
            d2.iloc[:, j] = (X[:, j] - a[j]) / s[j]
        m2 = fit2(case, d2, d2.iloc[:, :p].to_numpy(), w)
        # X b = (Xs s + a) b
        same(m2.params[q:], m.params[q:] * s, "rescaled columns", tol[q:] * s)
        same(m2.params[:q], m.params[:q] - np.sum(a * m.params[q:]), "thresholds under shifted columns", 1e-3 * (np.sum(np.abs(a) * m.params_se[q:]) + m.params_se[:q]))
    elif rel == "reverse":
        d2 = df.copy()
        d2["y"] = -df["y"]
        m2 = fit2(case, d2, X, w)
        same(m2.params, np.r_[-m.params[:q][::-1], -m.params[q:]], "reversed categories", np.r_[tol[:q][::-1], tol[q:]])
    else:
        from pystatsm.pyglm2.glm import GLM, Binomial
        g = GLM("y ~ " + "+".join(df.columns[:-1]), df.assign(y=codes.astype(float)), family=Binomial(link=link_of("pyglm2", case["link"])()), weights=w) if case["link"] != "cloglog" else None
        if g is None:
            b, f = best(m.params, X, codes, w, 2, "cloglog")
            same(m.params, b, "binary model", 1e-2 * m.params_se)
        else:
            g.fit()
            same(m.params, np.r_[-g.params[0], g.params[1:1 + p]], "binary regression", 1e-2 * m.params_se)


@P.facet("fit_options2", dicts(seed=seeds(), K=st.integers(3, 5), link=st.sampled_from(sorted(LINKS)), method=st.sampled_from([None, "trust-constr", "BFGS", "trust-exact", "Newton-CG"])), quick=40, rule="a method other than the default", cost=8)
def fit_options2(case, ctx):
    """the optimiser options only change how the optimum is found"""
    case = dict(case, n=60, p=2, w=False, lab=True)
    df, codes, X, w, vals = simulate(case)
    ctx.nontrivial(case["method"] not in (None, "trust-constr"))
    m = fit2(case, df, X, w)
    m2 = CLM2()("y ~ x1 + x2", df, link=link_of("pyglm2", case["link"]))
    if case["seed"] % 2:
        m2.fit(method=case["method"])
    else:
        m2.fit(**({} if case["method"] is None else dict(opt_kws=dict(method=case["method"]))))
    tol = 0.02
    ctx.check(bool(np.all(np.abs(m2.params - m.params) < tol * m.params_se)), f"method {case['method']}: {m2.params} != {m.params}")


@P.facet("resample2", dicts(seed=seeds(), K=st.integers(2, 4), p=st.integers(1, 2), link=st.sampled_from(sorted(LINKS)), w=st.booleans()), quick=32, shards=2, rule="weighted", cost=14)
def resample2(case, ctx):
    """jackknife rows are refits without the row (one-step rows their Newton step); bootstrap rows are refits to the drawn rows"""
    case = dict(case, n=30, lab=False)
    df, codes, X, w, vals = simulate(case)
    K, p, n, lk = case["K"], case["p"], 30, case["link"]
    ctx.nontrivial(case["w"])
    counts = np.bincount(codes, minlength=K)
    if counts.min() < 3:
        return ctx.skip("a category is nearly empty")
    m = fit2(case, df, X, w)
    J = m._jacknife(verbose=False)
    O = m._jacknife(method="one-step", verbose=False)
    ctx.equal(J.shape, (n, len(m.params)), "jackknife shape")
    H = num.jac(lambda z: num.grad(lambda y: nll(y, X, codes, w, K, lk), z), m.params, h=1e-2)
    GI = num.jac(lambda z: nll_i(z, X, codes, w, K, lk), m.params)
    ctx.close(O.to_numpy(), m.params + GI @ np.linalg.inv(H), "one-step jackknife", rtol=1e-3, scale=m.params_se.max())
    for i in np.random.default_rng(case["seed"]).permutation(n)[:3]:
        k = np.arange(n) != i
        b, f = best(m.params, X[k], codes[k], w[k], K, lk)
        ctx.check(nll(J.to_numpy()[i], X[k], codes[k], w[k], K, lk) <= f + 1e-4, f"jackknife row {i} is not the optimum without the row")
    with contextlib.redirect_stdout(io.StringIO()):
        B, info = m._bootstrap(n_boot=3, verbose=False, rng=np.random.default_rng(case["seed"]))
        B2, info2 = m._bootstrap(n_boot=3, verbose=False, rng=np.random.default_rng(case["seed"]), return_info=True)
    ctx.close(B.to_numpy(), B2.to_numpy(), "bootstrap reproducible", rtol=1e-12)
    rng = np.random.default_rng(case["seed"])
    for i in range(3):
        ii = rng.choice(n, size=n, replace=True)
        if len(np.unique(codes[ii])) < K:
            break
        try:
            b, f = best(m.params, X[ii], codes[ii], w[ii], K, lk)
        except Exception:
            break
        if np.abs(b).max() > 6:
            break
        ctx.check(nll(B.to_numpy()[i], X[ii], codes[ii], w[ii], K, lk) <= f + 1e-3, f"bootstrap row {i} is not the optimum of its sample")


# ------------------------------------------------------------------ pyglm.clm
def CLM1(case, df, link=None):
    from pystatsm.pyglm.clm import CLM
    return CLM("y ~ " + ("-1 + " if case.get("noint", True) else "") + "+".join(c for c in df.columns if c != "y"), df, link=link_of("pyglm", case["link"]))


@P.facet("derivatives1", dicts(**{k: v for k, v in MODEL.items() if k != "w"}), quick=200, rule="three or more categories", cost=2)
def derivatives1(case, ctx):
    """pyglm CLM: loglike is the multinomial one, gradient and hessian its derivatives; threshold constraints are the ordering"""
    df, codes, X, w, vals = simulate(case)
    rng = np.random.default_rng(case["seed"] + 7)
    K, p, lk = case["K"], case["p"], case["link"]
    ctx.nontrivial(K >= 3)
    m = CLM1(case, df)
    th = tame(some_params(rng, K, p), X, codes, K, lk)
    ref = lambda z: nll(z, X, codes, w, K, lk)
    ctx.close(m.loglike(th), ref(th), "loglike", rtol=1e-9)
    g = num.grad(ref, th)
    ctx.close(m.gradient(th), g, "gradient", rtol=1e-6, scale=1 + np.abs(g).max())
    H = num.jac(m.gradient, th)
    ctx.close(m.hessian(th), H, "hessian", rtol=1e-6, scale=1 + np.abs(H).max())
    z = rng.standard_normal(len(th))
    if len(m.constraints) == K - 2:
        ctx.close(sorted(np.ravel([np.sum(c["fun"](z)) for c in m.constraints])), sorted(np.diff(z[:K - 1])), "order constraints", rtol=1e-12, atol=1e-12)


@P.facet("fit1", dicts(**{k: v for k, v in MODEL.items() if k != "w"}, noint=st.booleans()), quick=72, shards=2, rule="three or more categories", cost=14)
def fit1(case, ctx):
    """pyglm CLM: fit is the likelihood maximum, with inverse-information errors and the stated summary statistics; predicted categories follow the thresholds"""
    df, codes, X, w, vals = simulate(case)
    n, K, p, lk = case["n"], case["K"], case["p"], case["link"]
    ctx.nontrivial(K >= 3)
    m = CLM1(case, df)
    m.fit(optimizer_kwargs=dict(method="trust-constr", options=dict(gtol=1e-8, xtol=1e-9, maxiter=2000)))
    th = np.asarray(m.params)
    if not case["noint"]:       # the redundant intercept shifts every threshold
        full = th
        th = np.r_[full[:K - 1] - full[K - 1], full[K:]]
    f = nll(th, X, codes, w, K, lk)
    xb, fb = best(th, X, codes, w, K, lk)
    V = np.linalg.inv(num.jac(lambda z: num.grad(lambda y: nll(y, X, codes, w, K, lk), z), xb, h=1e-2))
    se = np.sqrt(np.diag(V))
    ctx.check(f <= fb + 1e-4, f"a search finds a likelihood higher by {f - fb:.3g}")
    ctx.check(bool(np.all(np.abs(th - xb) < 2e-2 * se)), "parameters differ from the maximum")
    if case["noint"]:
        ctx.close(m.SE, se, "SE", rtol=5e-3)
        ctx.close(m.Vcov, V, "Vcov", rtol=5e-3, scale=np.abs(V).max())
        k = len(th)
        A = m.res.to_numpy()
        ctx.close(A[:, 2], th / A[:, 1], "table t", rtol=1e-8, atol=1e-12)
        ctx.close(A[:, 3], 2 * sp.stats.t(n - k).sf(np.abs(A[:, 2])), "table p", rtol=1e-7, atol=1e-14)
        ctx.equal(list(m.res.index)[K - 1:], [f"x{i+1}" for i in range(p)], "coefficient labels")
        # predicted category: thresholds below the linear predictor
        lp = X @ th[K - 1:]
        if np.all(np.diff(th[:K - 1]) > 1e-6):
            ctx.equal([int(v) for v in m.predict()], np.searchsorted(th[:K - 1], lp).tolist(), "predicted categories")
    ctx.close(m.theta, m.params[:K - 1], "theta")
    ctx.close(m.beta, m.params[K - 1:], "beta")
    c = np.bincount(codes, minlength=K)
    ll0 = -np.sum(c * np.log(c / n))
    s = m.sumstats["statistic"]
    llr = 2 * (ll0 - fb)
    ctx.close(s["LLR"], llr, "LR statistic", rtol=1e-3, atol=1e-3)
    ctx.close(m.sumstats.loc["LLR", "pvalue"], sp.stats.chi2(p).sf(llr), "LR p-value", rtol=1e-2, atol=1e-3)
    ctx.close(s["r2_coxsnell"], 1 - np.exp(-2 / n * (ll0 - fb)), "Cox-Snell", rtol=1e-3, atol=1e-4)
    ctx.close(s["r2_mcfadden"], 1 - fb / ll0, "McFadden", rtol=1e-3, atol=1e-4)
    ctx.close(s["r2_nagelkerke"], (1 - np.exp(-2 / n * (ll0 - fb))) / (1 - np.exp(-2 / n * ll0)), "Nagelkerke", rtol=1e-3, atol=1e-4)
    k = p + (not case["noint"])
    ctx.close(s["r2_mcfadden_adj"], 1 - (fb + k) / ll0, "adjusted McFadden", rtol=1e-3, atol=1e-3)


@P.facet("agree", dicts(**{k: v for k, v in MODEL.items() if k != "w"}), quick=60, rule="three or more categories", cost=10)
def agree(case, ctx):
    """the two implementations agree"""
    df, codes, X, w, vals = simulate(case)
    ctx.nontrivial(case["K"] >= 3)
    m2 = fit2(dict(case, w=False), df, X, w)
    m1 = CLM1(case, df)
    m1.fit(optimizer_kwargs=dict(method="trust-constr", options=dict(gtol=1e-8, xtol=1e-9, maxiter=2000)))
    ctx.check(bool(np.all(np.abs(m1.params - m2.params) < 2e-2 * m2.params_se)), f"{m1.params} != {m2.params}")
    ctx.close(m1.SE, m2.params_se, "standard errors", rtol=5e-3)
    th = some_params(np.random.default_rng(case["seed"]), case["K"], case["p"])
    ctx.close(m1.loglike(th), m2.loglike(th), "loglike", rtol=1e-9)
    ctx.close(m1.hessian(th), m2.hessian(th), "hessian", rtol=1e-7, scale=np.abs(m2.hessian(th)).max())


@P.facet("bootstrap1", dicts(seed=seeds(), K=st.integers(2, 4), link=st.sampled_from(["logit", "probit"])), quick=12, rule="all", cost=8)
def bootstrap1(case, ctx):
    """the pyglm bootstrap returns refits and leaves the model's data as they were"""
    case = dict(case, n=60, p=1, lab=False, w=False)
    df, codes, X, w, vals = simulate(case)
    ctx.nontrivial(True)
    m = CLM1(case, df)
    np.random.seed(case["seed"] % 2 ** 31)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        m.bootstrap(n_boot=4)
    ctx.equal(m.beta_samples.shape, (4, len(m.params)), "sample shape")
    S = m.beta_samples
    R = m.boot_res
    ctx.close(R["mean"].to_numpy(), S.mean(axis=0), "mean")
    ctx.close(R["std"].to_numpy(), S.std(axis=0, ddof=1), "std")
    ctx.close(R["max"].to_numpy(), S.max(axis=0), "max")
    ctx.close(R["min"].to_numpy(), S.min(axis=0), "min")
    ctx.close(m.loglike(m.params), nll(m.params, X, codes, w, case["K"], case["link"]), "model data are restored", rtol=1e-9)
    if len(np.unique(codes)) == case["K"]:
        ctx.check(bool(np.all(np.abs(S - m.params) < 8 * m.SE)), "bootstrap estimates are far from the fit")
