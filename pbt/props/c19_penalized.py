"""C19: elastic net, lasso and LARS (pystatsm.pyglmnet)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.linalg
import scipy.optimize
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C19", "Elastic net, lasso and LARS")
P.assumptions = ["predictors are standardised (mean 0, variance 1) where an intercept is fitted, as the package assumes"]


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


def design(case, rng=None):
    """standardised X (n, p) and a sparse linear predictor"""
    rng = rng_of(case) if rng is None else rng
    n, p = case["n"], case["p"]
    S = case.get("rho", 0.5) ** sp.linalg.toeplitz(np.arange(p))
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(S).T
    X = (X - X.mean(0)) / X.std(0)
    beta = np.where(rng.random(p) < 0.6, rng.choice([-1.0, 1.0, 0.5, -0.3], p), 0.0)
    if not beta.any():
        beta[0] = 1.0
    return X, beta, rng


def kkt(grad_loss, b, lam, alpha):
    """largest violation of the elastic net optimality conditions"""
    g = -grad_loss - lam * (1 - alpha) * b
    v = np.where(b != 0, np.abs(g - lam * alpha * np.sign(b)), np.maximum(np.abs(g) - lam * alpha, 0))
    return float(v.max())


def enet_pen(b, lam, alpha):
    return lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * np.sum(b ** 2))


GC = dicts(seed=seeds(), n=st.sampled_from([15, 30, 60]), p=st.sampled_from([1, 2, 3, 5, 8, 20]),
           rho=st.sampled_from([0.0, 0.5, 0.9, -0.7]), alpha=st.sampled_from([0.99, 1.0, 0.5, 0.1]),
           lf=st.sampled_from([0.5, 0.1, 0.02, 0.9, 1.0, 1.3]), start=st.sampled_from(["default", "zero", "random"]),
           mean=st.sampled_from([0.0, 5.0]), intercept=st.booleans())


@P.facet("gaussian", GC, quick=250, thorough=20000, shards=2,
         rule="the solution has both zero and non-zero coefficients",
         examples=({"seed": 1, "n": 30, "p": 8, "rho": 0.9, "alpha": 0.99, "lf": 0.02, "start": "random", "mean": 0.0, "intercept": True},))
def gaussian(case, ctx):
    from pystatsm.pyglmnet.gaussian_eln import elnet, elnet_loglike, elnet_penalty
    X, beta, rng = design(case)
    n, p = X.shape
    alpha = case["alpha"]
    y = X @ beta + rng.standard_normal(n) + case["mean"]
    yc = y - y.mean() if case["intercept"] else y
    lmax = np.abs(X.T @ yc).max() / n / alpha
    lam = lmax * case["lf"]
    b0 = {"default": None, "zero": np.zeros(p), "random": rng.standard_normal(p)}[case["start"]]
    y_in, X_in = y.copy(), X.copy()
    b, fv, active, nit = elnet(X, y, lam, alpha, b=None if b0 is None else b0.copy(), n_iters=200000, dtol=1e-14 * (1 + yc @ yc / n),
                               intercept=case["intercept"])
    ctx.nontrivial(0 < np.sum(b != 0) < p)
    ctx.equal(y, y_in, "y after elnet")
    ctx.equal(X, X_in, "X after elnet")
    grad = -X.T @ (yc - X @ b) / n
    ctx.check(kkt(grad, b, lam, alpha) <= 2e-5 * lmax * max(1.0, 1 / alpha), f"elnet: KKT residual {kkt(grad, b, lam, alpha)} at lambda {lam}")
    if case["lf"] >= 1.0 + 1e-9:
        ctx.check(not b.any(), "elnet: non-zero coefficients above lambda_max")
    f = np.sum((yc - X @ b) ** 2) / (2 * n)
    ctx.close(np.array(elnet_loglike(X, yc, b, alpha, lam)), np.array([f, enet_pen(b, lam, alpha), f + enet_pen(b, lam, alpha)]),
              "elnet_loglike", rtol=1e-9)
    ctx.close(elnet_penalty(b, alpha, lam), enet_pen(b, lam, alpha), "elnet_penalty", rtol=1e-10, atol=1e-14)
    ctx.close(fv[-1, 2], f + enet_pen(b, lam, alpha), "last recorded objective", rtol=1e-7)
    ctx.check(np.all(np.diff(fv[:, 2]) <= 1e-10 * (1 + fv[0, 2])), "elnet: the objective rose during descent")
    # lasso solutions of the proximal solvers agree
    if alpha == 1.0 and n > p + 3:
        from pystatsm.pyglmnet.lasso import lasso_prox_grad, lasso_accelerated_grad, lasso_obj
        me = np.linalg.eigvalsh(X.T @ X / n).max()
        s0 = np.zeros(p) if b0 is None else b0
        b1, h1 = lasso_prox_grad(s0.copy(), X, yc, X.T @ yc, X.T @ X, lam, me, n_iters=3000, rtol=1e-9, atol=1e-11)
        ctx.check(np.all(np.diff(h1[:-1, 2]) <= 0), "lasso_prox_grad: the objective rose")
        ctx.close(h1[0], np.array(lasso_obj(s0, X, yc, lam)), "lasso_prox_grad history[0]", rtol=1e-9)
        if len(h1) < 3000:
            ctx.close(np.array(lasso_obj(b1, X, yc, lam))[2], f + enet_pen(b, lam, 1.0), "lasso_prox_grad objective", rtol=1e-5)
        b2, h2 = lasso_accelerated_grad(s0.copy(), X, yc, X.T @ yc, X.T @ X, lam, me, n_iters=3000, rtol=1e-9, atol=1e-11)
        if len(h2) < 3000:
            ctx.close(np.array(lasso_obj(b2, X, yc, lam))[2], f + enet_pen(b, lam, 1.0), "lasso_accelerated_grad objective", rtol=1e-5)


def sigm(z):
    return 1 / (1 + np.exp(-z))


BC = dicts(seed=seeds(), n=st.sampled_from([40, 80]), p=st.sampled_from([1, 2, 3, 5, 10]),
           rho=st.sampled_from([0.0, 0.5, 0.9, -0.7]), alpha=st.sampled_from([0.99, 1.0, 0.5]),
           lf=st.sampled_from([0.5, 0.2, 0.05, 0.9, 1.3]), start=st.sampled_from(["default", "random"]),
           shift=st.sampled_from([0.0, 1.2]), intercept=st.booleans(), nr=st.booleans(), w=st.booleans())


@P.facet("binomial", BC, quick=200, thorough=15000, shards=2,
         rule="the solution has both zero and non-zero coefficients",
         examples=({"seed": 1, "n": 40, "p": 5, "rho": 0.9, "alpha": 0.99, "lf": 0.05, "start": "random", "shift": 0.0, "intercept": True, "nr": False, "w": False},
                   {"seed": 1, "n": 40, "p": 5, "rho": 0.9, "alpha": 0.99, "lf": 0.05, "start": "default", "shift": 1.2, "intercept": False, "nr": True, "w": True}))
def binomial(case, ctx):
    from pystatsm.pyglmnet.binomial_eln import binom_glmnet, binom_eval
    from pystatsm.pyglmnet.binom_eln2 import binom_elnet
    X, beta, rng = design(case)
    n, p = X.shape
    y = (rng.random(n) < sigm(X @ beta + case["shift"])).astype(float)
    if y.sum() < 4 or y.sum() > n - 4:
        ctx.skip("one class is nearly empty")
    alpha, ic = case["alpha"], case["intercept"]
    lmax = np.abs(X.T @ (y - (y.mean() if ic else 0.5))).max() / n / alpha
    lam = lmax * case["lf"]
    b0 = 0.02 * rng.standard_normal(p) if case["start"] == "random" else None
    act = np.ones(p, dtype=bool)
    b, a, active, fv, ni = binom_glmnet(X, y, lam, alpha, b=None if b0 is None else b0.copy(), active=act.copy(),
                                        n_iters=20000, btol=1e-18, dtol=0.0, nr_ent=case["nr"], intercept=ic)
    ctx.nontrivial(0 < np.sum(b != 0) < p)
    mu = sigm(X @ b + a)
    grad = -X.T @ (y - mu) / n
    ctx.check(kkt(grad, b, lam, alpha) <= 1e-5 * lmax, f"binom_glmnet: KKT residual {kkt(grad, b, lam, alpha)} at lambda {lam}")
    if ic:
        ctx.check(abs(np.mean(y - mu)) <= 1e-6, f"binom_glmnet: residuals do not sum to zero ({np.mean(y - mu)})")
    else:
        ctx.equal(float(a), 0.0, "intercept when none is fitted")
    if case["lf"] > 1:
        ctx.check(not b.any(), "binom_glmnet: non-zero coefficients above lambda_max")
    ll = np.sum(y * np.log(mu) + (1 - y) * np.log(1 - mu)) / n
    ctx.close(np.array(binom_eval(y, X @ b + a, b, alpha, lam)), np.array([-2 * ll, enet_pen(b, lam, alpha), enet_pen(b, lam, alpha) - ll]),
              "binom_eval", rtol=1e-9)
    # second implementation (always with an intercept, weights allowed)
    w = rng.integers(1, 5, n).astype(float) if case["w"] else np.ones(n)
    wn = w / w.sum()
    yb = wn @ y
    lam2 = np.abs(X.T @ (wn * (y - yb))).max() / alpha * case["lf"]
    bb, fval, _, _ = binom_elnet(X, y, lam2, alpha, weights=w.copy(), cd_kws=dict(n_iters=2000, dtol=1e-20, ftol=1e-15, max_iters=20000))
    mu2 = sigm(bb[0] + X @ bb[1:])
    g2 = -X.T @ (wn * (y - mu2))
    ctx.check(kkt(g2, bb[1:], lam2, alpha) <= 1e-5 * lmax, f"binom_elnet: KKT residual {kkt(g2, bb[1:], lam2, alpha)} at lambda {lam2}")
    ctx.check(abs(wn @ (y - mu2)) <= 1e-5, f"binom_elnet: weighted residuals do not sum to zero ({wn @ (y - mu2)})")
    f2 = -wn @ (y * np.log(mu2) + (1 - y) * np.log(1 - mu2)) + enet_pen(bb[1:], lam2, alpha)
    ctx.close(fval[-1], f2, "binom_elnet objective", rtol=1e-6)


@P.facet("binompath", dicts(seed=seeds(), n=st.sampled_from([40, 80]), p=st.sampled_from([1, 2, 3, 5]), rho=st.sampled_from([0.0, 0.5, 0.9]),
                            alpha=st.sampled_from([0.99, 0.5]), nl=st.sampled_from([4, 8]), w=st.booleans(), scale=st.sampled_from([1.0, 3.0]),
                            shift=st.sampled_from([0.0, 2.0])),
         quick=80, thorough=6000, rule="observation weights differ",
         examples=({"seed": 1, "n": 40, "p": 5, "rho": 0.5, "alpha": 0.99, "nl": 8, "w": True, "scale": 1.0, "shift": 0.0},))
def binompath(case, ctx):
    from pystatsm.pyglmnet.binom_eln2 import binom_elnet_path, binom_glmnet_cv
    from pystatsm.pyglmnet.eln_utils import kfold_indices
    X, beta, rng = design(case)
    n, p = X.shape
    y = (rng.random(n) < sigm(X @ beta)).astype(float)
    if min(y.sum(), n - y.sum()) < 8:
        ctx.skip("one class is nearly empty")
    alpha = case["alpha"]
    w = rng.integers(1, 5, n).astype(float) if case["w"] else np.ones(n)
    wn = w / w.sum()
    ctx.nontrivial(case["w"])
    lmax = np.abs(X.T @ (wn * (y - wn @ y))).max() / alpha
    lams = lmax * np.exp(np.linspace(0, np.log(0.05), case["nl"]))
    kws = dict(n_iters=2000, dtol=1e-18, ftol=1e-15, max_iters=20000)
    Xr = X * case["scale"] + case["shift"]
    with quiet():
        betas, fv, fh, l2 = binom_elnet_path(Xr, y, w.copy(), alpha, lams.copy(), cd_kws=kws)
        b3, _, _, l3 = binom_elnet_path(Xr, y, w.copy(), alpha, case["nl"], cd_kws=kws)
    ctx.equal(l2, lams, "lambdas")
    ctx.close(l3[0], lmax, "first lambda of an automatic path", rtol=1e-8)
    ctx.check(np.abs(b3[0][1:]).max() <= 1e-6, "non-zero coefficients at lambda_max")
    for B, L in ((betas, lams), (b3, l3)):
        for i, l in enumerate(L):
            mu = sigm(B[i][0] + X @ B[i][1:])
            r = kkt(-X.T @ (wn * (y - mu)), B[i][1:], l, alpha)
            ctx.check(r <= 1e-4 * lmax, f"binom_elnet_path: KKT residual {r} at lambda[{i}]={l}")
    with quiet():
        bcv, fcv, l4 = binom_glmnet_cv(X, y, alpha, lams.copy(), cv=3, cd_kws=kws)
    for k, (f, v) in enumerate(kfold_indices(n, 3, y, categorical=True)):
        for i in (0, len(lams) - 1):
            b = bcv[0, k, i]
            mu = sigm(b[0] + X[v] @ b[1:])
            dev = -np.mean(y[v] * np.log(mu) + (1 - y[v]) * np.log(1 - mu))
            ctx.close(fcv[0, i, k, 0], dev, f"held-out log loss, fold {k}", rtol=1e-7)
            ctx.close(fcv[0, i, k, 1], enet_pen(b[1:], lams[i], alpha), f"penalty, fold {k}", rtol=1e-7, atol=1e-12)


@P.facet("kfold", dicts(seed=seeds(), n=st.sampled_from([6, 10, 23, 40]), k=st.sampled_from([2, 3, 5]), cat=st.booleans(), rand=st.booleans(),
                        K=st.sampled_from([2, 3])),
         quick=150, thorough=8000, rule="folds of different sizes")
def kfold(case, ctx):
    from pystatsm.pyglmnet.eln_utils import kfold_indices, crossval_mats, process_cv
    rng = rng_of(case)
    n, k = case["n"], case["k"]
    y = rng.integers(0, case["K"], n).astype(float)
    folds = kfold_indices(n, k, y, categorical=case["cat"], randomize=case["rand"], random_state=np.random.default_rng(3))
    ctx.equal(len(folds), k, "number of folds")
    val = np.concatenate([v for _, v in folds])
    ctx.equal(np.sort(val), np.arange(n), "union of the validation folds")
    sizes = [len(v) for _, v in folds]
    ctx.nontrivial(len(set(sizes)) > 1)
    for f, v in folds:
        ctx.equal(np.sort(np.concatenate([f, v])), np.arange(n), "fit and validation rows")
    if case["cat"]:
        for c in np.unique(y):
            cnt = [int(np.sum(y[v] == c)) for _, v in folds]
            ctx.check(max(cnt) - min(cnt) <= 1, f"stratified folds have class counts {cnt}")
    else:
        ctx.check(max(sizes) - min(sizes) <= 1, f"folds have sizes {sizes}")
    if not case["rand"]:
        X = rng.standard_normal((n, 3))
        Xf, yf, Xt, yt = crossval_mats(X, y, n, k, case["cat"])
        for (f, v), a, b, c, d in zip(folds, Xf, yf, Xt, yt):
            ctx.equal(a, X[f], "crossval_mats Xf")
            ctx.equal(b, y[f], "crossval_mats yf")
            ctx.equal(c, X[v], "crossval_mats Xt")
            ctx.equal(d, y[v], "crossval_mats yt")
    fv = rng.standard_normal((7, k))
    lams = np.exp(-np.arange(7.0))
    s, lmin = process_cv(fv, lams)
    ctx.close(s["mean"].values, fv.mean(1), "process_cv mean", rtol=1e-10)
    ctx.close(s["std"].values, fv.std(1, ddof=1) / np.sqrt(k), "process_cv standard error", rtol=1e-10)
    ctx.equal(lmin, lams[np.argmin(fv.mean(1))], "process_cv lambda of the minimum")


GLC = dicts(seed=seeds(), n=st.sampled_from([40, 60]), p=st.sampled_from([2, 3, 5]), rho=st.sampled_from([0.0, 0.5, 0.9]),
            alpha=st.sampled_from([0.99, 0.5]), fam=st.sampled_from(["gaussian", "binomial"]), cv=st.sampled_from([2, 3, 4]),
            nl=st.sampled_from([6, 12]), seq=st.booleans(), warm=st.booleans(), mean=st.sampled_from([0.0, 4.0]), frame=st.booleans(),
            refit=st.just(True))


@P.facet("glmen", GLC, quick=60, thorough=4000, shards=2, cost=3, rule="the chosen model has non-zero coefficients",
         examples=({"seed": 1, "n": 60, "p": 3, "rho": 0.5, "alpha": 0.99, "fam": "binomial", "cv": 3, "nl": 6, "seq": True, "warm": True, "mean": 0.0, "frame": False, "refit": True},))
def glmen(case, ctx):
    from pystatsm.pyglmnet.glmen import GLMEN
    from pystatsm.pyglmnet.eln_utils import kfold_indices
    X, beta, rng = design(case)
    n, p = X.shape
    alpha, binom = case["alpha"], case["fam"] == "binomial"
    y = (rng.random(n) < sigm(X @ beta)).astype(float) if binom else X @ beta + rng.standard_normal(n) + case["mean"]
    if binom and (y.sum() < 3 * case["cv"] or n - y.sum() < 3 * case["cv"]):
        ctx.skip("one class is nearly empty")
    if case["frame"]:
        m = GLMEN(X=pd.DataFrame(X, columns=[f"v{i}" for i in range(p)]), y=pd.DataFrame({"resp": y}), family=case["fam"])
    else:
        m = GLMEN(X=X, y=y, family=case["fam"])
    tight = dict(btol=1e-18, dtol=0.0 if binom else 1e-15)
    lam = 0.15 * np.abs(X.T @ (y - y.mean())).max() / n / alpha
    m.fit(lam, alpha, n_iters=20000, **tight)

    def resid(b, a, X, y):
        return y - (sigm(X @ b + a) if binom else X @ b + a)

    b = m.beta
    a = m.b0 if binom else y.mean()
    r = kkt(-X.T @ resid(b, a, X, y) / n, b, lam, alpha)
    ctx.check(r <= 1e-4 * lam, f"GLMEN.fit: KKT residual {r}")
    ctx.close(m.predict(), y - resid(b, a, X, y), "GLMEN.predict", rtol=1e-6, atol=1e-6)
    with quiet():
        m.fit_cv(cv=case["cv"], alpha=alpha, lambdas=case["nl"], n_iters=20000, seq_rule=case["seq"], warm_start=case["warm"],
                 **(dict(lmin=lam / 2) if binom else dict(path_len=0.05)), **tight)
    lams = m.lambdas
    ctx.equal(len(lams), case["nl"], "number of lambdas")
    ctx.check(np.all(np.diff(lams) < 0), "lambdas do not decrease")
    lmax = np.abs(X.T @ (y - y.mean())).max() / n / alpha
    ctx.close(lams[0], lmax, "largest lambda of the path", rtol=1e-8)
    ctx.check(np.abs(m.bfits[0]).max() <= 1e-7, "non-zero coefficients at lambda_max")
    ctx.nontrivial(bool(np.any(m.beta)))
    folds = kfold_indices(n, case["cv"], y, categorical=binom)
    for i, l in enumerate(lams):
        a = m.b0[i] if binom else y.mean()
        r = kkt(-X.T @ resid(m.bfits[i], a, X, y) / n, m.bfits[i], l, alpha)
        ctx.check(r <= 1e-4 * l + 1e-6, f"GLMEN.fit_cv: refit KKT residual {r} at lambda[{i}]={l}")
        for k, (f, v) in enumerate(folds):
            bk = m.beta_path[i, k]
            a = m.b0_path[i, k] if binom else y[f].mean()
            r = kkt(-X[f].T @ resid(bk, a, X[f], y[f]) / len(f), bk, l, alpha)
            ctx.check(r <= 1e-4 * l + 1e-6, f"GLMEN.fit_cv: fold {k} KKT residual {r} at lambda[{i}]={l}")
            if binom:
                mu = sigm(X[v] @ bk + a)
                dev = -2 * np.mean(y[v] * np.log(mu) + (1 - y[v]) * np.log(1 - mu))
            else:
                dev = np.mean((y[v] - y[v].mean() - X[v] @ bk) ** 2)
            ctx.close(m.f_path[i, k, 0], dev, f"held-out deviance of fold {k}, lambda[{i}]", rtol=1e-6)
    cv = m.f_path[:, :, 0].mean(1)
    ctx.equal(int(m.lmin_idx), int(np.argmin(cv)), "index of the chosen lambda")
    ctx.equal(float(m.lambda_min), float(lams[np.argmin(cv)]), "chosen lambda")
    ctx.equal(m.beta, m.bfits[m.lmin_idx], "chosen coefficients")
    ctx.equal(m.n_nonzero, (m.bfits != 0).sum(1), "n_nonzero")


EGC = dicts(seed=seeds(), n=st.sampled_from([50, 80]), p=st.sampled_from([1, 2, 3, 5]), rho=st.sampled_from([0.0, 0.5, 0.9]),
            alpha=st.sampled_from([0.99, 1.0, 0.5]), fam=st.sampled_from(["gaussian", "binomial", "poisson"]), cv=st.sampled_from([2, 3]),
            nl=st.sampled_from([10, 25]), w=st.booleans(), scale=st.sampled_from([1.0, 1.0, 3.0]), shift=st.sampled_from([0.0, 2.0]))


def dev_unit(fam, y, mu):
    if fam == "gaussian":
        return (y - mu) ** 2
    if fam == "binomial":
        return -2 * (y * np.log(mu) + (1 - y) * np.log1p(-mu))
    return 2 * (sp.special.xlogy(y, y / mu) - (y - mu))


def enet_ref(fam, X, y, w, lam, alpha):
    """minimum of dev/2 + penalty over (b0, b) by L-BFGS-B on positive and negative parts"""
    inv = {"gaussian": lambda e: e, "binomial": sigm, "poisson": np.exp}[fam]
    p = X.shape[1]

    def fun(t):
        b = t[1:p + 1] - t[p + 1:]
        mu = inv(np.clip(t[0] + X @ b, -30, 30))
        f = np.sum(w * dev_unit(fam, y, mu)) / 2 + lam * (alpha * np.sum(t[1:]) + (1 - alpha) / 2 * b @ b)
        r = -w * (y - mu)
        g = X.T @ r + lam * (1 - alpha) * b
        return f, np.r_[r.sum(), g + lam * alpha, -g + lam * alpha]
    yb = w @ y
    t0 = np.r_[{"gaussian": yb, "binomial": np.log(yb / (1 - yb)), "poisson": np.log(yb)}[fam], np.zeros(2 * p)]
    o = sp.optimize.minimize(fun, t0, jac=True, method="L-BFGS-B", bounds=[(None, None)] + [(0, None)] * (2 * p),
                             options=dict(maxiter=5000, ftol=1e-14, gtol=1e-9))
    return o.fun


@P.facet("elnetglm", EGC, quick=60, thorough=4000, shards=2, cost=3, rule="some path solution mixes zero and non-zero coefficients",
         examples=({"seed": 1, "n": 50, "p": 5, "rho": 0.9, "alpha": 0.99, "fam": "binomial", "cv": 2, "nl": 25, "w": False, "scale": 3.0, "shift": 2.0},))
def elnetglm(case, ctx):
    from pystatsm.pyglmnet.glmen2 import ElasticNetGLM
    from pystatsm.pyglmnet.eln_utils import kfold_indices
    from pystatsm.pyglm.families import Gaussian, Binomial, Poisson
    X, beta, rng = design(case)
    n, p = X.shape
    fam, alpha = case["fam"], case["alpha"]
    lp = X @ beta * 0.6
    if fam == "gaussian":
        y = lp + rng.standard_normal(n) + case["shift"]
    elif fam == "binomial":
        y = (rng.random(n) < sigm(lp)).astype(float)
        if min(y.sum(), n - y.sum()) < 8:
            ctx.skip("one class is nearly empty")
    else:
        y = rng.poisson(np.exp(0.5 * lp + 0.5)).astype(float)
    w = rng.integers(1, 4, n).astype(float) if case["w"] else None
    Xr = X * case["scale"] + case["shift"]
    Xr_in = Xr.copy()
    m = ElasticNetGLM(X=Xr, y=y, family={"gaussian": Gaussian, "binomial": Binomial, "poisson": Poisson}[fam](), wobs=w, alpha=alpha)
    wn = np.ones(n) / n if w is None else w / w.sum()
    # objective, gradient and Hessian at an arbitrary point without zeros
    t = np.r_[0.2, 0.3 * rng.choice([-1, 1], p) * (0.3 + rng.random(p))]
    lam = 0.1
    mu = {"gaussian": lambda e: e, "binomial": sigm, "poisson": np.exp}[fam](t[0] + X @ t[1:])
    ctx.close(m.obj_func(t, lam), np.sum(wn * dev_unit(fam, y, mu)) / 2 + enet_pen(t[1:], lam, alpha), "objective", rtol=1e-8)
    ctx.close(m.obj_grad(t, lam), num.grad(lambda z: m.obj_func(z, lam), t), "gradient of the objective", rtol=1e-6, atol=1e-8)
    ctx.close(m.obj_hess(t, lam), num.jac(lambda z: m.obj_grad(z, lam), t), "Hessian of the objective", rtol=1e-6, atol=1e-8)
    with quiet():
        m.fit(n_lambdas=case["nl"], cv=case["cv"], lambda_min_ratio=0.01)
    ctx.equal(Xr, Xr_in, "X after fit")
    lams = m.lambdas
    yb = wn @ y
    ctx.close(lams[0], np.abs(X.T @ (wn * (y - yb))).max() / alpha, "largest lambda", rtol=1e-7)
    ctx.check(np.all(np.diff(lams) < 0), "lambdas do not decrease")
    ctx.check(np.abs(m.betas[0][1:]).max() <= 1e-5, f"non-zero coefficients at lambda_max: {m.betas[0]}")
    nz = (m.betas[:, 1:] != 0).sum(1)
    ctx.nontrivial(bool(np.any((nz > 0) & (nz < p))) or p == 1)
    mus = {"gaussian": lambda e: e, "binomial": sigm, "poisson": np.exp}[fam]
    f0 = np.sum(wn * dev_unit(fam, y, np.full(n, yb))) / 2
    for i in sorted({0, len(lams) // 3, len(lams) // 2, len(lams) - 1}):
        b = m.betas[i]
        mu = mus(b[0] + X @ b[1:])
        got = np.sum(wn * dev_unit(fam, y, mu)) / 2 + enet_pen(b[1:], lams[i], alpha)
        ref = enet_ref(fam, X, y, wn, lams[i], alpha)
        if got > ref + 2e-4 * (0.1 + f0):
            on = np.flatnonzero(b[1:])
            ref_on = enet_ref(fam, X[:, on], y, wn, lams[i], alpha)
            # F085: a variable that was dropped should have come back; the rest is still optimal
            if got <= ref_on + 2e-4 * (0.1 + f0) and ctx.excludes("F085"):
                continue
            ctx.fail(f"objective {got} at lambda[{i}] is above the minimum {ref}")
    for i in range(len(lams)):
        mu = mus(m.betas[i][0] + X @ m.betas[i][1:])
        ctx.close(m.dev_vals[i], np.sum(wn * dev_unit(fam, y, mu)), f"deviance at lambda[{i}]", rtol=1e-6, atol=1e-8)
    ctx.close(m.null_dev, 2 * f0, "null deviance", rtol=1e-8)
    ctx.close(m.dev_ratios, 1 - m.dev_vals / (2 * f0), "deviance ratio", rtol=1e-7, atol=1e-9)
    # cross-validation: fold fits evaluated on their own held-out rows
    folds = kfold_indices(n, case["cv"], y, categorical=fam == "binomial")
    fp, bp = np.asarray(m.f_paths), np.asarray(m.beta_path)
    ctx.equal(fp.shape, (len(lams), 1, case["cv"]), "shape of f_paths")
    ctx.equal(bp.shape, (len(lams), p + 1, 1, case["cv"]), "shape of beta_path")
    for k, (f, v) in enumerate(folds):
        B = bp[:, :, 0, k]
        for i in (0, len(lams) - 1):
            mu = mus(np.clip(B[i][0] + X[v] @ B[i][1:], -36, 36))
            ctx.close(fp[i, 0, k], np.sum(wn[v] * dev_unit(fam, y[v], mu)) / wn[v].sum(), f"held-out deviance fold {k} lambda[{i}]", rtol=1e-6)
    ctx.equal(int(m.lmin_idx), int(np.argmin(fp.mean(axis=(1, 2)))), "index of the chosen lambda")
    ctx.equal(m.beta, m.betas[m.lmin_idx], "chosen coefficients")
    ctx.close(m.mu, mus(m.beta[0] + X @ m.beta[1:]), "fitted means", rtol=1e-9)


LC = dicts(seed=seeds(), n=st.sampled_from([25, 60]), p=st.sampled_from([2, 3, 5, 8, 12]), rho=st.sampled_from([0.0, 0.5, 0.9, -0.6]),
           method=st.sampled_from(["lasso", "lar"]), noise=st.sampled_from([0.5, 2.0, 6.0]), shift=st.sampled_from([0.0, 3.0]),
           std=st.booleans(), norm=st.booleans())


@P.facet("lars", LC, quick=200, thorough=20000, shards=2, rule="lasso path with at least one variable leaving",
         examples=({"seed": 3, "n": 25, "p": 8, "rho": 0.9, "method": "lasso", "noise": 6.0, "shift": 0.0, "std": False, "norm": False},))
def lars_(case, ctx):
    from pystatsm.pyglmnet.lars import lars
    X, beta, rng = design(case)
    n, p = X.shape
    y = X @ beta + case["noise"] * rng.standard_normal(n) + case["shift"]
    Xr = X * (np.exp(0.3 * rng.standard_normal(p)) if case["std"] else 1.0) + case["shift"]
    lams, active, betas = lars(Xr, y, method=case["method"], standardize=case["std"], normalize=case["norm"])
    Xs = X / np.sqrt(n) if case["norm"] else X
    yc = y - y.mean()
    C = (yc[:, None] - Xs @ betas.T).T @ Xs / n            # (steps, p)
    sc = np.abs(Xs.T @ yc).max() / n
    ctx.equal(len(lams), len(betas), "lengths of the lambda and coefficient paths")
    ctx.check(not betas[0].any(), "the path does not start at zero")
    ctx.check(np.all(np.diff(lams) <= 1e-10 * sc), f"lambdas rise: {lams}")
    ctx.close(lams[0], sc, "first lambda", rtol=1e-9)
    ctx.close(betas[-1], np.linalg.lstsq(Xs, yc, rcond=None)[0], "end of the path (least squares)", rtol=1e-6, atol=1e-7)
    ctx.equal(np.sort(active), np.arange(p), "active set at the end of the path")
    drop = np.any((betas[:-1] != 0) & (betas[1:] == 0))
    ctx.nontrivial(bool(drop) or case["method"] == "lar")
    tol = 1e-6 * sc
    for i in range(len(lams)):
        lam = lams[i]
        ctx.check(np.abs(C[i]).max() <= lam + tol, f"step {i}: correlation {np.abs(C[i]).max()} above lambda {lam}")
        on = betas[i] != 0
        ctx.check(np.all(np.abs(np.abs(C[i][on]) - lam) <= tol), f"step {i}: active correlations {C[i][on]} not at lambda {lam}")
        if case["method"] == "lasso":
            ctx.check(np.all(np.sign(betas[i][on]) * C[i][on] >= -tol), f"step {i}: sign disagreement in a lasso path")
    if case["method"] == "lasso":
        # the path is linear between steps, and every point of it solves a lasso problem
        for i in range(len(lams) - 1):
            bm, lm = (betas[i] + betas[i + 1]) / 2, (lams[i] + lams[i + 1]) / 2
            g = -Xs.T @ (yc - Xs @ bm) / n
            ctx.check(kkt(g, np.where(np.abs(bm) < 1e-12, 0, bm), lm, 1.0) <= tol, f"between steps {i} and {i+1}: not a lasso solution")
    else:
        ctx.equal(len(lams), p + 1, "number of LAR steps")
        ctx.equal((betas != 0).sum(1), np.arange(p + 1), "LAR adds one variable at a step")
