"""C15: likelihood inference tools and model data containers (pyglm.linear_model, pyglm2.likelihood_model / regression_model)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C15", "Likelihood inference tools and model data containers")
P.assumptions = ["information matrices are positive definite", "profile functions are unimodal around the estimate"]
PACK = st.sampled_from(["pyglm2", "pyglm"])


def LM(pack):
    if pack == "pyglm2":
        from pystatsm.pyglm2.likelihood_model import LikelihoodModel
    else:
        from pystatsm.pyglm.linear_model import LikelihoodModel
    return LikelihoodModel


def RM(pack):
    if pack == "pyglm2":
        from pystatsm.pyglm2 import regression_model as m
    else:
        from pystatsm.pyglm import linear_model as m
    return m


@P.facet("constraints", dicts(seed=seeds(), p=st.integers(1, 6), k=st.integers(1, 6), mask=st.booleans(), pack=PACK), quick=400, rule="two or more fixed parameters")
def constraints(case, ctx):
    """each constraint returned is x[index] - value of its own parameter"""
    rng = rng_of(case)
    p = case["p"]
    k = min(case["k"], p)
    ctx.nontrivial(k >= 2)
    ind = rng.permutation(p)[:k]
    if case["mask"]:
        ind = np.sort(ind)
    val = rng.standard_normal(k)
    arg = np.isin(np.arange(p), ind) if case["mask"] else ind
    cs = LM(case["pack"])._make_constraints(arg, val)
    ctx.equal(len(cs), k, "one constraint per fixed parameter")
    x = rng.standard_normal(p)
    ctx.close(np.array([c["fun"](x) for c in cs]), x[ind] - val, "constraint values")
    ctx.check(all(c["type"] == "eq" for c in cs), "equality constraints")


@P.facet("profile", dicts(seed=seeds(), p=st.integers(2, 5), k=st.integers(1, 3), method=st.sampled_from(["restricted", "constrained"]), scalar=st.booleans(), pack=PACK),
         quick=160, rule="two or more fixed parameters", cost=4)
def profile(case, ctx):
    """for a convex quadratic objective the profile value is the Schur-complement quadratic, both ways"""
    rng = rng_of(case)
    p = case["p"]
    k = 1 if case["scalar"] else min(case["k"], p - 1)
    ctx.nontrivial(k >= 2)
    A = num.spd(rng, p)
    m = rng.standard_normal(p)
    c0 = rng.standard_normal()
    f = lambda x: 0.5 * (x - m) @ A @ (x - m) + c0
    g = lambda x: A @ (x - m)
    H = lambda x: A
    ind = rng.permutation(p)[:k]
    par = m[ind] + rng.uniform(-1.5, 1.5, k)
    S = np.linalg.inv(np.linalg.inv(A)[np.ix_(ind, ind)])
    want = 0.5 * (par - m[ind]) @ S @ (par - m[ind]) + c0
    L = LM(case["pack"])
    fn = L._profile_loglike_restricted if case["method"] == "restricted" else L._profile_loglike_constrained
    start = m + 0.1 * rng.standard_normal(p)
    s0 = start.copy()
    a, i = (float(par[0]), int(ind[0])) if case["scalar"] else (par, ind)
    got = fn(a, i, start, f, g, H)
    ctx.close(got, want, f"profile value ({case['method']})", rtol=1e-5, atol=1e-5)
    ctx.equal(start.tolist(), s0.tolist(), "the parameters passed in are not modified")
    info = fn(a, i, start, f, g, H, return_info=True)
    ctx.close(info.fun, want, "profile info value", rtol=1e-5, atol=1e-5)


@P.facet("interval", dicts(seed=seeds(), shape=st.sampled_from(["quad", "gamma", "poisson", "quartic"]), method=st.sampled_from(["root", "lstq"]),
                          crit=st.sampled_from([3.84, 0.5, 1.0, 6.6, 10.8]), pack=PACK), quick=300, rule="asymmetric profile")
def interval(case, ctx):
    """both interval ends solve profile(x) = lli on their own side of the estimate"""
    rng = rng_of(case)
    s = case["shape"]
    ctx.nontrivial(s in ("gamma", "poisson"))
    ctx.label(case["method"])
    a = rng.uniform(0.5, 4)
    mu = rng.uniform(-2, 2)
    if s == "quad":
        f, se = (lambda x: 0.5 * a * (x - mu) ** 2), a ** -0.5
    elif s == "gamma":
        f, se = (lambda x: a * (np.exp(x - mu) - (x - mu) - 1)), a ** -0.5
    elif s == "poisson":
        f, se = (lambda x: a * (np.exp(-(x - mu)) + (x - mu) - 1)), a ** -0.5
    else:
        f, se = (lambda x: 0.5 * a * (x - mu) ** 2 + 0.1 * (x - mu) ** 4), a ** -0.5
    ff = lambda x: float(np.asarray(f(x)).ravel()[0])
    lli = ff(mu) + case["crit"] / 2
    lo, hi = LM(case["pack"])._solve_interval(ff, mu, se, lli, method=case["method"])
    lo, hi = float(np.ravel(lo)[0]), float(np.ravel(hi)[0])
    ctx.check(lo < mu < hi, "the estimate lies inside the interval")
    tol = 1e-6 if case["method"] == "root" else 2e-3
    ctx.close(ff(lo), lli, "profile at the lower end", rtol=tol, atol=tol)
    ctx.close(ff(hi), lli, "profile at the upper end", rtol=tol, atol=tol)
    if s == "quad":
        d = np.sqrt(case["crit"] / a)
        ctx.close([lo, hi], [mu - d, mu + d], "quadratic interval", rtol=5 * tol, atol=5 * tol)


@P.facet("tests", dicts(seed=seeds(), p=st.integers(1, 6), k=st.integers(1, 4), frame=st.booleans(), pack=PACK), quick=400, rule="several constraints of several parameters")
def tests(case, ctx):
    """LR, Wald and score statistics, degrees of freedom and p-values; the first is chi-square additive, the other two invariant to the constraint basis"""
    rng = rng_of(case)
    p = case["p"]
    k = min(case["k"], p)
    ctx.nontrivial(k >= 2 and p > k)
    L = LM(case["pack"])
    A, B = num.spd(rng, p), num.spd(rng, p)
    C = rng.standard_normal((k, p))
    while np.linalg.svd(C)[1].min() < 0.2:
        C = rng.standard_normal((k, p))
    t, t0, d = rng.standard_normal((3, p))
    V = A @ B @ A
    fr = case["frame"]

    def val(r):
        return (float(r["Stat"].iloc[0]), int(r["df"].iloc[0]), float(r["P Value"].iloc[0])) if fr else (r["Stat"], r["df"], r["P Value"])
    M = np.linalg.inv(C @ V @ C.T)
    a = C @ (t - t0)
    W = a @ M @ a
    for CC in (C, num.spd(rng, k) @ C):
        s, df, pv = val(L._wald_test(t, t0, CC, A, B, return_dataframe=fr))
        ctx.close(s, W, "Wald statistic", rtol=1e-7)
        ctx.equal(df, k, "Wald df")
        ctx.close(pv, sp.stats.chi2.sf(W, k), "Wald p", rtol=1e-6, atol=1e-12)
        b = C @ A @ d
        Sc = b @ M @ b
        s, df, pv = val(L._score_test(d, CC, A, B, return_dataframe=fr))
        ctx.close(s, Sc, "score statistic", rtol=1e-7)
        ctx.equal(df, k, "score df")
        ctx.close(pv, sp.stats.chi2.sf(Sc, k), "score p", rtol=1e-6, atol=1e-12)
    l1 = rng.normal(-50, 10)
    l0 = l1 - rng.gamma(k)
    s, df, pv = val(L._lr_test(l1, l0, k, return_dataframe=fr))
    ctx.close(s, 2 * (l1 - l0), "LR statistic")
    ctx.equal(df, k, "LR df")
    ctx.close(pv, sp.stats.chi2.sf(2 * (l1 - l0), k), "LR p", rtol=1e-9)


@P.facet("criteria", dicts(seed=seeds(), n=st.integers(2, 200), k=st.integers(1, 30), pack=PACK), quick=300, rule="n > k + 1")
def criteria(case, ctx):
    """AIC, AICc, BIC and CAIC of minus the log-likelihood"""
    rng = rng_of(case)
    n, k = case["n"], case["k"]
    ctx.nontrivial(n > k + 1)
    f = rng.normal(100, 50)
    aic, aicc, bic, caic = LM(case["pack"])._get_information(f, k, n)
    ctx.close(aic, 2 * f + 2 * k, "AIC")
    ctx.close(bic, 2 * f + k * np.log(n), "BIC")
    ctx.close(caic, 2 * f + k * (np.log(n) + 1), "CAIC")
    if n != k + 1:
        ctx.close(aicc, aic + 2 * k * (k + 1) / (n - k - 1), "AICc")
    else:
        ctx.equal(bool(np.isinf(aicc)), True, "AICc at n = k + 1")


@P.facet("param_table", dicts(seed=seeds(), p=st.integers(1, 6), df=st.sampled_from([None, 3, 10, 200]), alpha=st.sampled_from([0.05, 0.1, 0.01, 0.5]), pack=PACK), quick=250, rule="finite degrees of freedom")
def param_table(case, ctx):
    """estimates, standard errors, t, two-sided p and confidence limits of the parameter table"""
    from pystatsm.utilities import output
    rng = rng_of(case)
    p, df, al = case["p"], case["df"], case["alpha"]
    ctx.nontrivial(df is not None)
    b, se = rng.standard_normal(p), rng.uniform(0.1, 2, p)
    lab = [f"b{i}" for i in range(p)]
    D = sp.stats.t(np.inf if df is None else df)
    r = output.get_param_table(b, se, df, lab, alpha=al)
    ctx.equal(list(r.index), lab, "labels")
    ctx.close(r.iloc[:, 0], b, "estimate")
    ctx.close(r["SE"], se, "SE")
    ctx.close(r["t"], b / se, "t")
    ctx.close(r["p"], 2 * D.sf(np.abs(b / se)), "p", rtol=1e-9)
    q = D.ppf(1 - al / 2)
    ctx.close(r.iloc[:, 4], b - q * se, "lower limit")
    ctx.close(r.iloc[:, 5], b + q * se, "upper limit")
    if al == 0.05:
        r2 = LM(case["pack"])._parameter_inference(b, se, D.args[0], lab)
        ctx.close(r2.to_numpy(), r.to_numpy(), "_parameter_inference")


@P.facet("bca", dicts(seed=seeds(), p=st.integers(1, 4), n=st.integers(5, 30), nb=st.integers(50, 400), alpha=st.sampled_from([0.05, 0.1, 0.32])), quick=200, rule="several parameters")
def bca(case, ctx):
    """bias-corrected and accelerated intervals equal the textbook formula"""
    from pystatsm.utilities.output import compute_bias_corrected_bootstrap_intervals as f
    rng = rng_of(case)
    p, al = case["p"], case["alpha"]
    ctx.nontrivial(p > 1)
    boot = rng.gamma(2, 1, (case["nb"], p))
    t = np.quantile(boot, rng.uniform(0.25, 0.75), axis=0)
    jk = rng.gamma(2, 1, (case["n"], p))
    got = f(t, jk, boot, al)
    for j in range(p):
        z0 = sp.stats.norm.ppf(np.mean(boot[:, j] < t[j]))
        d = jk[:, j].mean() - jk[:, j]
        a = (d ** 3).sum() / (6 * (d ** 2).sum() ** 1.5)
        q = []
        for z in sp.stats.norm.ppf([al / 2, 1 - al / 2]):
            q.append(sp.stats.norm.cdf(z0 + (z0 + z) / (1 - a * (z0 + z))))
        ctx.close(got[j], np.quantile(boot[:, j], q), f"BCa interval {j}", rtol=1e-8, atol=1e-10)


@P.facet("sandwich", dicts(seed=seeds(), n=st.integers(4, 30), p=st.integers(1, 3), pack=PACK), quick=300, rule="p >= 2")
def sandwich(case, ctx):
    """robust meat matrices, leverages two ways, R squared"""
    rng = rng_of(case)
    p = case["p"]
    n = case["n"] + p
    ctx.nontrivial(p >= 2)
    R = RM(case["pack"]).RegressionMixin
    X = rng.standard_normal((n, p))
    w = rng.standard_normal(n)
    H = X @ np.linalg.solve(X.T @ X, X.T)
    h = np.diag(H)
    ctx.close(R._compute_leverage_cholesky(X), h, "leverage (Cholesky)", rtol=1e-7)
    ctx.close(R._compute_leverage_cholesky(X, np.linalg.inv(np.linalg.cholesky(X.T @ X))), h, "leverage (given factor)", rtol=1e-7)
    ctx.close(R._compute_leverage_qr(X), h, "leverage (QR)", rtol=1e-7)
    ctx.close(R._compute_leverage_qr(Q=np.linalg.qr(X)[0]), h, "leverage (given Q)", rtol=1e-7)
    om = dict(HC0=w ** 2, HC1=w ** 2 * n / (n - p), HC2=w ** 2 / (1 - h), HC3=w ** 2 / (1 - h) ** 2, HC4=w ** 2 / (1 - h) ** np.minimum(4, n * h / p))
    for k, o in om.items():
        ctx.close(R.sandwich_cov(w.copy(), X, h, k), (X.T * o) @ X, k, rtol=1e-7)
    y, yh = rng.standard_normal((2, n))
    ctx.close(R._rsquared(y, yh), 1 - ((y - yh) ** 2).sum() / ((y - y.mean()) ** 2).sum(), "R squared")


KINDS = st.lists(st.sampled_from(["frame", "array", "flat", "series"]), min_size=1, max_size=4)


def pieces(rng, kinds, n, miss=0.0):
    out, arrs, cols, idx = [], [], [], []
    index = rng.permutation(n) + 100
    for j, k in enumerate(kinds):
        a = rng.standard_normal((n, 1 + int(rng.integers(3))))
        if k in ("flat", "series"):
            a = a[:, 0]
        if miss:
            a[rng.uniform(size=a.shape) < miss] = np.nan
        if k == "frame":
            o = pd.DataFrame(a, index=index, columns=[f"c{j}_{i}" for i in range(a.shape[1])])
            cols.append(list(o.columns)); idx.append(index)
        elif k == "series":
            o = pd.Series(a, index=index, name=f"s{j}")
            cols.append([f"s{j}"]); idx.append(index)
            a = a.reshape(-1, 1)
        else:
            o = a.copy()
            cols.append([f"x{i}" for i in range(1 if a.ndim == 1 else a.shape[1])]); idx.append(np.arange(n))
        out.append(o); arrs.append(a)
    return out, arrs, cols, idx


@P.facet("model_data", dicts(seed=seeds(), n=st.integers(1, 8), kinds=KINDS, weighted=st.sampled_from([False, True, "ones", "scalar"]), pack=PACK), quick=400, rule="two or more stored variables of different kinds")
def model_data(case, ctx):
    """stored arrays, names and indexes stay aligned; iteration, length and indexing return every array and the weights last"""
    rng = rng_of(case)
    n = case["n"]
    ctx.nontrivial(len(set(case["kinds"])) > 1)
    objs, arrs, cols, idx = pieces(rng, case["kinds"], n)
    M = RM(case["pack"]).ModelData
    w = rng.uniform(0.5, 2, n)
    md = M(*objs, weights=w if case["weighted"] is True else None)
    if case["weighted"] == "ones":
        md.add_weights(); w = np.ones(n)
    elif case["weighted"] == "scalar":
        md.add_weights(2.0); w = np.full(n, 2.0)
    hw = case["weighted"] is not False
    ctx.equal(md.has_weights, hw, "has_weights")
    want = arrs + ([w] if hw else [])
    ctx.equal(len(md), len(want), "length")
    got = list(md)
    ctx.equal(len(got), len(want), "iteration length")
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.close(a, b, f"iterated array {i}")
    for lst, name in ((md.indexes, "indexes"), (md.columns, "columns"), (md.design_info, "design_info")):
        ctx.equal(len(lst), len(arrs), f"one entry of {name} per variable")
    for i in range(len(arrs)):
        ctx.equal(list(md.columns[i]), cols[i], f"columns of variable {i}")
        ctx.equal(list(md.indexes[i]), list(idx[i]), f"index of variable {i}")
    sel = rng.integers(0, n, 3)
    for s in (sel, slice(0, max(1, n // 2)), rng.uniform(size=n) < 0.5):
        got = md[s]
        ctx.equal(len(got), len(want), "indexed length")
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.close(a, b[s], f"indexed array {i}")
    ctx.check(repr(md).count("(") >= len(want), "repr lists every array")


@P.facet("drop_missing", dicts(seed=seeds(), n=st.integers(1, 12), kinds=KINDS, weighted=st.booleans()), quick=300, rule="some rows have a missing value")
def drop_missing(case, ctx):
    """exactly the rows with a missing value anywhere are removed from arrays, indexes and weights"""
    rng = rng_of(case)
    n = case["n"]
    objs, arrs, cols, idx = pieces(rng, case["kinds"], n, miss=0.12)
    w = rng.uniform(0.5, 2, n)
    md = RM("pyglm2").ModelData(*objs, weights=w if case["weighted"] else None)
    keep = np.ones(n, bool)
    for a in arrs:
        keep &= ~np.isnan(a.reshape(n, -1)).any(axis=1)
    ctx.nontrivial(0 < keep.sum() < n)
    md.drop_missing()
    for i, a in enumerate(arrs):
        ctx.close(md.data[i], a[keep], f"array {i}")
        ctx.equal(list(md.indexes[i]), list(np.asarray(idx[i])[keep]), f"index {i}")
    if case["weighted"]:
        ctx.close(md.weights, w[keep], "weights")


TERMS = {"x1": ["x1"], "x2": ["x2"], "C(g)": None, "x1:x2": None, "x1:C(g)": None, "np.log(z)": None}


def frame(rng, n):
    return pd.DataFrame(dict(x1=rng.standard_normal(n), x2=rng.standard_normal(n), z=rng.uniform(0.5, 3, n), g=np.r_[np.arange(3), rng.integers(0, 3, n - 3)], y=rng.standard_normal(n)))


def design(f, df):
    g = [np.asarray(df.g == k, float) for k in (1, 2)]
    col = {"x1": [df.x1], "x2": [df.x2], "C(g)": g, "x1:x2": [df.x1 * df.x2], "x1:C(g)": [df.x1 * g[0], df.x1 * g[1]], "np.log(z)": [np.log(df.z)]}
    return [np.column_stack(col[t]) for t in f]


@P.facet("formulas", dicts(seed=seeds(), n=st.integers(8, 20), terms=st.lists(st.sampled_from(["x1", "x2", "C(g)", "x1:x2", "np.log(z)"]), min_size=1, max_size=4, unique=True),
                          terms2=st.lists(st.sampled_from(["x1", "x2", "C(g)"]), min_size=1, max_size=2, unique=True), intercept=st.booleans(), second=st.booleans(), pack=PACK),
         quick=250, rule="a categorical or interaction term")
def formulas(case, ctx):
    """from_formulas gives each right-hand side's design, then the response, with names; ordinal data drops only the intercept"""
    rng = rng_of(case)
    df = frame(rng, case["n"])
    ctx.nontrivial("C(g)" in case["terms"] or "x1:x2" in case["terms"])
    num_terms = [t for t in case["terms"]]
    order = sorted(num_terms, key=lambda t: (1 if ":" in t else 0))
    cats = [t for t in order if t == "C(g)"]
    rhs = " + ".join(case["terms"])
    f = "y ~ " + rhs if case["intercept"] else "y ~ 0 + " + rhs
    args = []
    if case["second"]:
        args = ["~ " + " + ".join(case["terms2"])]
    M = RM(case["pack"]).ModelData
    md = M.from_formulas(df, f, *args)
    X = md.data[0]
    import patsy
    want = np.asarray(patsy.dmatrix(f.split("~")[1], df))
    ctx.close(X, want, "main design")
    if case["intercept"]:
        mine = np.column_stack([np.ones(len(df))] + design(cats + [t for t in order if t not in cats], df))
        ctx.equal(X.shape, mine.shape, "main design shape")
        ctx.close(np.linalg.norm(X - mine @ np.linalg.lstsq(mine, X, rcond=None)[0]), 0.0, "column space of the main design", atol=1e-8)
    ctx.close(md.data[-1].ravel(), df.y, "response is last")
    ctx.equal(len(md), 3 if case["second"] else 2, "number of arrays")
    ctx.equal([len(c) for c in md.columns], [np.atleast_2d(d).shape[1] for d in md.data], "names per array")
    if case["second"]:
        ctx.close(md.data[1], np.asarray(patsy.dmatrix(args[0].replace("~", ""), df)), "second design")
    if case["pack"] == "pyglm2":
        df["yo"] = np.r_[0, 1, 2, rng.integers(0, 3, len(df) - 3)]
        od = RM("pyglm2").OrdinalModelData.from_formulas(df, "yo ~ " + rhs)
        B1, B2, o1, o2, ix = od.data
        full = np.asarray(patsy.dmatrix(rhs, df))[:, 1:]
        q = 2
        Y = np.eye(3)[df.yo]
        ctx.close(B1, np.c_[Y[:, :2], -full], "upper design of the ordinal data")
        ctx.close(B2, np.c_[Y[:, 1:], -full], "lower design of the ordinal data")
        ctx.equal(list(ix), list(df.yo == 2), "last category mask")
        ctx.check(np.all(o1[ix] > 40) and np.all(o1[~ix] == 0), "offset of the last category")
        ctx.check(np.all(o2[df.yo == 0] < -40) and np.all(o2[df.yo != 0] == 0), "offset of the first category")
        ctx.equal(list(od.counts), [int((df.yo == k).sum()) for k in range(3)], "counts")
        ctx.close(sp.stats.norm.cdf(od.tau_init), np.cumsum(od.counts)[:2] / len(df), "initial thresholds")
        di = od.design_info[0]
        ctx.equal(list(di.column_names), list(od.columns[0]), "column names agree with design info")
        ctx.check("Intercept" not in list(od.columns[0]), "no intercept left")
        tot = 0
        for nm in di.term_names:
            s = di.term_name_slices[nm]
            tot += s.stop - s.start
            got = full[:, s]
            ctx.close(got, np.asarray(patsy.dmatrix("1 + " + nm, df))[:, 1:] if nm != "x1:x2" else np.asarray(df.x1 * df.x2)[:, None], f"slice of term {nm}")
        ctx.equal(tot, full.shape[1], "terms cover the columns")


@P.facet("term_tests", dicts(seed=seeds(), n=st.integers(30, 60), fam=st.sampled_from(["poisson", "binomial", "gaussian"]), terms=st.lists(st.sampled_from(["x1", "x2", "C(g)"]), min_size=1, max_size=3, unique=True),
                            which=st.sampled_from(["ll_tests", "ll_tests2"])), quick=48, rule="a term with several columns", cost=12)
def term_tests(case, ctx):
    """robust Wald and score tests of every term of a pyglm2 GLM against an independent constrained fit"""
    from pystatsm.pyglm2 import glm, families
    rng = rng_of(case)
    n = case["n"]
    df = frame(rng, n)
    eta = 0.3 * df.x1 - 0.2 * df.x2 + 0.3 * (df.g == 1)
    F = dict(poisson=families.Poisson, binomial=families.Binomial, gaussian=families.Gaussian)[case["fam"]]
    if case["fam"] == "poisson":
        df["y"] = rng.poisson(np.exp(eta)).astype(float); df.loc[0, "y"] = 3.0
    elif case["fam"] == "binomial":
        df["y"] = (rng.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
        if df.y.mean() in (0, 1):
            ctx.skip("constant response")
        g1 = df.groupby("g").y.mean()
        if g1.min() == 0 or g1.max() == 1:
            ctx.skip("separation")
    else:
        df["y"] = eta + rng.standard_normal(n)
    ctx.nontrivial("C(g)" in case["terms"])
    kw = dict(scale_estimator="NR") if case["fam"] == "gaussian" else {}
    with contextlib.redirect_stdout(io.StringIO()):
        m = glm.GLM("y ~ " + " + ".join(case["terms"]), df, family=F, **kw)
        m.fit()
        if np.max(np.abs(m.params)) > 8:
            ctx.skip("near separation")
        sc = case["fam"] == "gaussian"
        getattr(m, case["which"])(scale=sc)
        m.n_params = len(m.params)
        m.make_termwise_constraint_matrices()
    X = m.X
    k = X.shape[1]
    th = m.params
    for nm in [t for t in m.x_design_info.term_names if t != "Intercept"]:
        sl = m.x_design_info.term_name_slices[nm]
        z = np.arange(k)[sl]
        C = np.zeros((len(z), len(th)))
        C[np.arange(len(z)), z] = 1
        ctx.close(m.constraint_matrices[nm], C, f"constraint matrix of {nm}")
        free = np.setdiff1d(np.arange(len(th)), z)

        def full(v):
            t = np.zeros(len(th)); t[free] = v
            return t
        opt = sp.optimize.minimize(lambda v: m.full_loglike(full(v)), th[free], jac=lambda v: m.gradient(full(v))[free], hess=lambda v: m.hessian(full(v))[np.ix_(free, free)], method="trust-exact", options=dict(gtol=1e-9))
        t0 = full(opt.x)
        A, G = np.linalg.inv(m.hessian(th)), m.gradient_i(th)
        V = A @ (G.T @ G) @ A
        a = C @ (th - t0)
        W = a @ np.linalg.solve(C @ V @ C.T, a)
        A0, G0 = np.linalg.inv(m.hessian(t0)), m.gradient_i(t0)
        V0 = A0 @ (G0.T @ G0) @ A0
        b = C @ A0 @ G0.sum(0)
        S = b @ np.linalg.solve(C @ V0 @ C.T, b)
        key = nm if case["which"] == "ll_tests" else f"array_0_{nm}"
        w, s = m.wald_tests.loc[key].iloc[0], m.score_tests.loc[key].iloc[0]
        ctx.close([w["Stat"], w["df"], w["P Value"]], [W, len(z), sp.stats.chi2.sf(W, len(z))], f"Wald test of {nm}", rtol=5e-3, atol=1e-3)
        ctx.close([s["Stat"], s["df"], s["P Value"]], [S, len(z), sp.stats.chi2.sf(S, len(z))], f"score test of {nm}", rtol=5e-3, atol=1e-3)
