"""C20: linear mixed models (pylmm.lmm.LMM, pylmm.re_mod.LMM2, ranef_terms, prf)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.linalg
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C20", "Linear mixed models")
P.assumptions = ["covariance parameters are positive definite; fits are judged where the estimate is inside the parameter space"]


def LMM():
    from pystatsm.pylmm.lmm import LMM
    return LMM


def LMM2():
    from pystatsm.pylmm.re_mod import LMM2
    return LMM2


def vech(A):
    i, j = np.triu_indices(A.shape[0])
    return A[j, i]


def invech(v):
    p = int((np.sqrt(8 * len(v) + 1) - 1) / 2)
    A = np.zeros((p, p))
    i, j = np.triu_indices(p)
    A[j, i] = v
    A[i, j] = v
    return A


RE_FORMS = {"int": "1", "slope": "1+x1", "slope0": "0+x2", "two": "1+x1+d", "dum": "1+d"}


def re_matrix(kind, df):
    one = np.ones(len(df))
    return np.column_stack({"int": [one], "slope": [one, df.x1], "slope0": [df.x2], "two": [one, df.x1, df.d], "dum": [one, df.d]}[kind])


def make(case, q_min=0):
    """(formula, frame, X, y, terms) with terms = [(re matrix, codes)]"""
    rng = rng_of(case)
    q1, per = max(case["q"], q_min), case["per"]
    g1 = np.repeat(np.arange(q1), rng.integers(max(1, per - 1), per + 2, q1))
    if len(g1) < 8:
        g1 = np.repeat(np.arange(q1), 3)
    n = len(g1)
    if case["g2"] == "crossed":
        g2 = rng.integers(0, case["q2"], n)
        g2[rng.permutation(n)[:case["q2"]]] = np.arange(case["q2"])
    elif case["g2"] == "nested":
        g2 = g1 // 2 if q1 > 3 else g1 * 0 + rng.integers(0, 2, n)
    else:
        g2 = None
    df = pd.DataFrame({"x1": rng.standard_normal(n), "x2": rng.uniform(-1, 2, n), "d": np.where(np.arange(n) < 2, np.arange(n), rng.random(n) < 0.4).astype(float)})
    lab = rng.permutation(q1) * 3 - 5
    df["g1"] = [f"s{v:03d}" for v in lab[g1]] if case["lab"] == "str" else lab[g1]
    codes = [g1]
    kinds = [case["k1"]]
    form = f"({RE_FORMS[case['k1']]}|g1)"
    if g2 is not None:
        df["g2"] = [f"t{v}" for v in g2] if case["lab"] == "str" else g2 * 7
        codes.append(g2)
        kinds.append(case["k2"])
        form2 = f"({RE_FORMS[case['k2']]}|g2)"
    fe = case["fe"]
    fx = {"1+x1+x2": ["1", "x1", "x2"], "1": ["1"], "1+x1": ["1", "x1"], "1+x2+d": ["1", "x2", "d"]}[fe]
    if case["order"] == "after":
        formula = f"y~{fe}+{form}" + (f"+{form2}" if g2 is not None else "")
    elif case["order"] == "spaced":
        formula = f"y ~ {fe.replace('+', ' + ')} + {form}" + (f" + {form2}" if g2 is not None else "")
    else:
        formula = f"y~{form}+" + (f"{form2}+" if g2 is not None else "") + fe
    y = 0.5 + 0.7 * df.x1.values - 0.4 * df.x2.values + rng.standard_normal(n)
    perm = rng.permutation(n) if case["perm"] else np.arange(n)
    terms_u = []
    for k, c in zip(kinds, codes):
        Xr = re_matrix(k, df)
        B = case["sd"] * rng.standard_normal((c.max() + 1, Xr.shape[1]))
        y = y + np.sum(Xr * B[c], axis=1)
        terms_u.append((Xr, c))
    df["y"] = y
    df = df.iloc[perm]
    if not case["perm"]:
        df.index = np.arange(n)
    X = np.column_stack([np.ones(n) if v == "1" else df[v].values for v in fx])
    terms = [(Xr[perm], c[perm]) for Xr, c in terms_u]
    return formula, df, X, df["y"].values, terms, rng


def theta_of(terms, rng, scale=1.0):
    """a random positive definite theta, its G matrices and residual variance"""
    Gs = [num.spd(rng, t[0].shape[1]) * scale / t[0].shape[1] for t in terms]
    s2 = float(np.exp(0.4 * rng.standard_normal()))
    return np.r_[np.concatenate([vech(G) for G in Gs]), s2], Gs, s2


def dense_V(terms, Gs, s2):
    n = len(terms[0][1])
    V = s2 * np.eye(n)
    for (Xr, c), G in zip(terms, Gs):
        V += (Xr @ G @ Xr.T) * (c[:, None] == c[None, :])
    return V


def unpack(theta, terms):
    Gs, k = [], 0
    for Xr, _ in terms:
        p = Xr.shape[1]
        m = p * (p + 1) // 2
        Gs.append(invech(np.asarray(theta[k:k + m])))
        k += m
    return Gs, theta[k]


def dense_dev(theta, X, y, terms, reml):
    """-2 log (restricted) likelihood without the 2 pi constant, REML including log|X'V^-1X|"""
    Gs, s2 = unpack(theta, terms)
    V = dense_V(terms, Gs, s2)
    L = np.linalg.cholesky(V)
    Xs, ys = sp.linalg.solve_triangular(L, X, lower=True), sp.linalg.solve_triangular(L, y, lower=True)
    b, *_ = np.linalg.lstsq(Xs, ys, rcond=None)
    r = ys - Xs @ b
    f = 2 * np.log(np.diag(L)).sum() + r @ r
    if reml:
        f += np.linalg.slogdet(Xs.T @ Xs)[1]
    return f


KW = dict(seed=seeds(), q=st.sampled_from([3, 5, 8, 30]), per=st.sampled_from([2, 4, 6]), g2=st.sampled_from([None, None, "crossed", "nested"]),
          q2=st.sampled_from([2, 4]), k1=st.sampled_from(["int", "slope", "slope0", "two", "dum"]), k2=st.sampled_from(["int", "slope", "slope0"]),
          fe=st.sampled_from(["1+x1+x2", "1", "1+x1", "1+x2+d"]), lab=st.sampled_from(["int", "str"]), perm=st.booleans(),
          order=st.sampled_from(["after", "spaced", "before"]), sd=st.sampled_from([0.5, 1.0]))
BASE = {"seed": 1, "q": 8, "per": 4, "g2": None, "q2": 2, "k1": "slope", "k2": "int", "fe": "1+x1+x2", "lab": "int", "perm": False,
        "order": "after", "sd": 1.0}


@P.facet("likelihood", dicts(**KW), quick=90, thorough=10000, shards=2, rule="more than one random term, or a random slope",
         examples=(BASE, {**BASE, "q": 30, "k1": "two", "g2": "crossed", "perm": True}, {**BASE, "k1": "dum", "per": 2}))
def likelihood(case, ctx):
    formula, df, X, y, terms, rng = make(case)
    theta, Gs, s2 = theta_of(terms, rng)
    ctx.nontrivial(len(terms) > 1 or case["k1"] not in ("int", "slope0"))
    m1, m2 = LMM()(formula, data=df.copy()), LMM2()(formula, df.copy())
    V = dense_V(terms, Gs, s2)
    Vi = np.linalg.inv(V)
    XVX = X.T @ Vi @ X
    n = len(y)
    ctx.close(np.asarray(m1.Z.dot(m1.update_gmat(theta.copy()).toarray()).dot(m1.Z.T.toarray())), V - s2 * np.eye(n), "LMM Z G Z'", rtol=1e-10)
    for reml in (True, False):
        want = np.linalg.slogdet(V)[1] + (np.linalg.slogdet(XVX)[1] if reml else 0.0)
        r = y - X @ np.linalg.solve(XVX, X.T @ Vi @ y)
        want += r @ Vi @ r
        ctx.close(m1.loglike(theta.copy(), reml=reml), want, f"LMM loglike reml={reml}", rtol=1e-8)
        ctx.close(m1.loglike(theta.copy(), reml=reml, use_sparse=False), want, f"LMM dense loglike reml={reml}", rtol=1e-8)
        ctx.close(m2.loglike(theta.copy(), reml=reml), want, f"LMM2 loglike reml={reml}", rtol=1e-8)
        g = num.grad(lambda t: dense_dev(t, X, y, terms, reml), theta, h=2e-4)
        kw = dict(rtol=1e-5, atol=1e-5)
        ctx.close(m1.gradient(theta.copy(), reml=reml), g, f"LMM gradient reml={reml}", **kw)
        ctx.close(m1.gradient(theta.copy(), reml=reml, assume_sparse_inverse=False), g, f"LMM gradient (dense inverse) reml={reml}", **kw)
        ctx.close(m2.gradient(theta.copy(), reml=reml), g, f"LMM2 gradient reml={reml}", **kw)
        ctx.close(m2.gradient_v2(theta.copy(), reml=reml), g, f"LMM2 gradient_v2 reml={reml}", **kw)
        tc = m1.transform_theta(theta.copy())
        ctx.close(m1.inverse_transform_theta(tc.copy()), theta, "theta round trip", rtol=1e-10)
        ctx.close(m1.loglike_c(tc.copy(), reml=reml), want, f"LMM loglike_c reml={reml}", rtol=1e-8)
        ctx.close(m1.gradient_chol(tc.copy(), reml=reml), num.grad(lambda t: m1.loglike_c(t.copy(), reml=reml), tc, h=2e-4),
                  f"LMM gradient_chol reml={reml}", **kw)
        eta = m2.mme.re_mod.reparam.fwd(theta.copy())
        ctx.close(m2.loglike_reparam(eta, reml=reml), want, f"LMM2 loglike_reparam reml={reml}", rtol=1e-8)
        ge = num.grad(lambda t: m2.loglike_reparam(t, reml=reml), eta, h=2e-4)
        ctx.close(m2.gradient_reparam(eta, reml=reml), ge, f"LMM2 gradient_reparam reml={reml}", **kw)
        ctx.close(m2.gradient_v2_reparam(eta, reml=reml), ge, f"LMM2 gradient_v2_reparam reml={reml}", **kw)
    # Hessian (restricted likelihood)
    ctx.close(m1.hessian(theta.copy()), num.jac(lambda t: m1.gradient(t.copy()), theta, h=5e-4), "LMM hessian", rtol=2e-5, atol=2e-5)
    ctx.close(m1.hessian_chol(tc.copy()), num.jac(lambda t: m1.gradient_chol(t.copy()), tc, h=5e-4), "LMM hessian_chol", rtol=2e-5, atol=2e-5)
    # evaluating elsewhere leaves no trace
    th2, *_ = theta_of(terms, rng)
    a = m1.loglike(theta.copy()), m2.loglike(theta.copy())
    m1.loglike(th2), m2.gradient(th2), m1.gradient(th2), m1._compute_effects(th2), m2.compute_effects(th2)
    ctx.close(np.array([m1.loglike(theta.copy()), m2.loglike(theta.copy())]), np.array(a), "loglike after evaluating at another theta", rtol=1e-12)


@P.facet("effects", dicts(**KW), quick=160, thorough=10000, rule="more than one random term, or a random slope", examples=(BASE,))
def effects(case, ctx):
    formula, df, X, y, terms, rng = make(case)
    theta, Gs, s2 = theta_of(terms, rng)
    ctx.nontrivial(len(terms) > 1 or case["k1"] not in ("int", "slope0"))
    V = dense_V(terms, Gs, s2)
    Vi = np.linalg.inv(V)
    C = np.linalg.inv(X.T @ Vi @ X)
    beta = C @ X.T @ Vi @ y
    zu = (V - s2 * np.eye(len(y))) @ Vi @ (y - X @ beta)
    m1, m2 = LMM()(formula, data=df.copy()), LMM2()(formula, df.copy())
    for nm, m, f in (("LMM", m1, m1._compute_effects), ("LMM2", m2, m2.compute_effects)):
        b, Cb, u = f(theta.copy())
        Z = m1.Z if nm == "LMM" else m2.mme.Z
        ctx.close(b, beta, f"{nm} fixed effects", rtol=1e-7, atol=1e-8)
        ctx.close(Cb, C, f"{nm} fixed effect covariance", rtol=1e-7)
        ctx.close(Z.dot(u), zu, f"{nm} random effect predictions", rtol=1e-6, atol=1e-7)
        ctx.equal(len(u), sum((c.max() + 1) * Xr.shape[1] for Xr, c in terms), f"{nm} number of random effects")
        m.theta, m.beta, m.u = theta.copy(), b, u
        ctx.close(m.predict(), X @ beta + zu, f"{nm} predict", rtol=1e-6, atol=1e-7)
        A, B = rng.standard_normal((len(y), 2)), rng.standard_normal((len(y), 3))
        ctx.close(np.asarray(m.vinvcrossprod(A, B, theta.copy())), A.T @ Vi @ B, f"{nm} vinvcrossprod", rtol=1e-7, atol=1e-9)
    # penalised least squares at unit residual variance
    t1 = np.r_[theta[:-1], 1.0]
    dev, b, u = m1.pls(t1.copy())
    ctx.close(dev, len(y) * np.log(2 * np.pi) + dense_dev(t1, X, y, terms, True), "LMM pls deviance", rtol=1e-7)
    b2, _, u2 = m1._compute_effects(t1.copy())
    ctx.close(np.ravel(b), b2, "LMM pls fixed effects", rtol=1e-6, atol=1e-8)
    ctx.close(np.ravel(u), u2, "LMM pls random effects", rtol=1e-5, atol=1e-7)
    # LMM2 extras at this theta
    m2.XtVinvX_inv = C
    Z = m2.mme.Z.toarray()
    G = m2.mme.re_mod.update_gcov(theta.copy(), inv=False).toarray()
    ctx.close(Z @ G @ Z.T, V - s2 * np.eye(len(y)), "LMM2 Z G Z'", rtol=1e-10)
    P_ = Vi - Vi @ X @ C @ X.T @ Vi
    pev = np.diag(G - G @ Z.T @ P_ @ Z @ G)
    ctx.close(m2.random_effects_se(theta.copy()), np.sqrt(pev), "LMM2 random_effects_se", rtol=1e-6, atol=1e-7)
    vd = m2.variance_decomposition(theta.copy())
    ctx.close(vd["v_fe"], np.var(X @ beta), "v_fe", rtol=1e-6, atol=1e-9)
    for k, ((Xr, c), Gk) in enumerate(zip(terms, Gs)):
        ctx.close(vd["v_re"][k], np.mean(np.einsum("ij,jk,ik->i", Xr, Gk, Xr)), f"v_re[{k}]", rtol=1e-8)
    ctx.close(vd["v_resid"], s2, "v_resid", rtol=1e-12)
    r2 = m2.r_squared(theta.copy())
    tot = vd["v_fe"] + sum(vd["v_re"].values()) + s2
    ctx.close(np.array([r2["marginal"], r2["conditional"]]), np.array([vd["v_fe"] / tot, 1 - s2 / tot]), "r_squared", rtol=1e-9, atol=1e-12)
    fr = m2.random_effects()
    u = m2.random_effects_array()
    k0 = 0
    for k, (Xr, c) in enumerate(terms):
        Uk = fr[k].values
        ctx.equal(Uk.shape, (c.max() + 1, Xr.shape[1]), f"random_effects frame {k}")
        # rows are the groups in order of first appearance
        codes = pd.factorize(c)[0]
        part = np.sum(Xr * Uk[codes], axis=1)
        want = (Xr @ Gs[k] @ Xr.T * (c[:, None] == c[None, :])) @ Vi @ (y - X @ beta)
        ctx.close(part, want, f"random_effects of term {k}", rtol=1e-6, atol=1e-7)
        ctx.close(m2.random_effects("multi").loc[k].values[:, :Uk.shape[1]], Uk, "random_effects multi", rtol=1e-12)
        ctx.close(m2.random_effects("long").loc[k]["estimate"].values, Uk.reshape(-1), "random_effects long", rtol=1e-12)
        k0 += Uk.size


def satterthwaite(L, C, dC, Vt, beta):
    """one-row contrast: F and degrees of freedom, Vt the covariance of the variance parameters"""
    v = float(L @ C @ L)
    g = np.array([L @ D @ L for D in dC])
    return float((L @ beta) ** 2 / v), 2 * v ** 2 / float(g @ Vt @ g)


FKW = dict(KW, q=st.sampled_from([12, 20]), per=st.sampled_from([4, 6]), g2=st.sampled_from([None, None, "crossed"]), q2=st.just(7),
           k1=st.sampled_from(["int", "slope", "slope0"]), k2=st.just("int"), sd=st.just(1.2), reml=st.booleans(), se=st.sampled_from(["grad", "analytic", "func"]),
           adj=st.booleans())


@P.facet("fit", dicts(**FKW), quick=32, thorough=3000, shards=2, cost=4, rule="estimate inside the parameter space",
         examples=({**BASE, "q": 12, "per": 6, "sd": 1.2, "reml": False, "se": "grad", "adj": True, "k1": "int"},
                   {**BASE, "q": 12, "per": 6, "sd": 1.2, "reml": True, "se": "analytic", "adj": True, "k1": "slope"}))
def fit(case, ctx):
    formula, df, X, y, terms, rng = make(case)
    n, p = X.shape
    reml = case["reml"]
    m1, m2 = LMM()(formula, data=df.copy()), LMM2()(formula, df.copy())
    ok = dict(gtol=1e-9, xtol=1e-12, maxiter=3000)
    m1.fit(reml=reml, use_grad=case["se"] != "func", analytic_se=case["se"] == "analytic", adjusted_pvals=case["adj"], opt_kws=dict(ok))
    m2.fit(reml=reml, opt_kws=dict(ok))
    Gs, s2 = unpack(m2.theta, terms)
    if min(np.linalg.eigvalsh(G).min() for G in Gs) < 0.02 * s2:
        ctx.skip("estimate at the boundary")
    ctx.nontrivial()
    f = lambda t: dense_dev(t, X, y, terms, reml)
    H = num.jac(lambda t: num.grad(f, t, h=1e-3), m2.theta.copy(), h=1e-3)
    H = (H + H.T) / 2
    Vt = np.linalg.inv(H / 2)
    se = np.sqrt(np.diag(Vt))
    # no better point: one Newton step from the estimate moves by a negligible fraction of the standard errors
    for nm, m in (("LMM", m1), ("LMM2", m2)):
        step = np.linalg.solve(H, num.grad(f, m.theta.copy(), h=2e-4))
        ctx.check(np.abs(step / se).max() <= 5e-3, f"{nm}: estimate is not the optimum (Newton step {step / se} standard errors)")
        Gm, sm = unpack(m.theta, terms)
        V = dense_V(terms, Gm, sm)
        Vi = np.linalg.inv(V)
        C = np.linalg.inv(X.T @ Vi @ X)
        b = C @ X.T @ Vi @ y
        ctx.close(m.beta, b, f"{nm} beta", rtol=1e-6, atol=1e-8)
        ctx.close(m.se_beta, np.sqrt(np.diag(C)), f"{nm} se_beta", rtol=1e-6)
        ctx.close(m.se_theta, se, f"{nm} se_theta", rtol=3e-2)
        dev = f(m.theta) + (n - p if reml else n) * np.log(2 * np.pi)
        ctx.close(m.ll, dev, f"{nm} -2 log likelihood", rtol=1e-7)
        ctx.close(m.llf, -dev / 2, f"{nm} log likelihood", rtol=1e-7)
        k = len(m.theta)
        ne, d = (n - p, k) if reml else (n, k + p)
        want = np.array([dev, -dev / 2, dev + 2 * d, dev + 2 * d * ne / (ne - d - 1), dev + d * np.log(ne), dev + d * (np.log(ne) + 1)])
        ctx.close(m.sumstats["value"].values, want, f"{nm} sumstats", rtol=1e-7)
        ctx.close(m.params, np.r_[b, m.theta], f"{nm} params", rtol=1e-6, atol=1e-8)
        ctx.equal(list(m.res.index), list(m.param_names), f"{nm} row names")
        ctx.close(m.res["estimate"].values, m.params, f"{nm} table estimates", rtol=1e-10)
        ctx.close(m.res["SE"].values, m.se_params, f"{nm} table errors", rtol=1e-10)
        for i, G in enumerate(Gm):
            ctx.close(m.re_covs[i], G, f"{nm} re_covs", rtol=1e-10)
            dg = np.sqrt(np.diag(G))
            ctx.close(m.re_corrs[i], G / np.outer(dg, dg), f"{nm} re_corrs", rtol=1e-9)
        # t statistics of the fixed effects are signed, their p-values two-sided
        t = m.res["t"].values[:p]
        ctx.close(t, b / np.sqrt(np.diag(C)), f"{nm} t statistics", rtol=1e-5, atol=1e-7)
        dfree = m.res["degfree"].values[:p].astype(float)
        ctx.close(m.res["p"].values[:p].astype(float), 2 * sp.stats.t(dfree).sf(np.abs(t)), f"{nm} p values", rtol=1e-5, atol=1e-9)
        # Satterthwaite degrees of freedom
        dC = []
        kk = 0
        for (Xr, c), G in zip(terms, Gm):
            i, j = np.triu_indices(len(G))
            for a, b_ in zip(j, i):
                E = np.zeros_like(G)
                E[a, b_] = E[b_, a] = 1.0
                dV = (Xr @ E @ Xr.T) * (c[:, None] == c[None, :])
                dC.append(C @ X.T @ Vi @ dV @ Vi @ X @ C)
        dC.append(C @ X.T @ Vi @ Vi @ X @ C)
        Ls = [np.eye(p)[[i]] for i in range(p)] + [rng.standard_normal((1, p))]
        got = m.approx_degfree(Ls)
        for L, r in zip(Ls, got):
            F, nu = satterthwaite(L[0], C, dC, Vt, b)
            ctx.close(r["F"], F, f"{nm} approx_degfree F", rtol=1e-5)
            ctx.equal(int(r["df1"]), 1, f"{nm} approx_degfree df1")
            if nu > 3 and reml:
                ctx.close(r["df2"], nu, f"{nm} Satterthwaite degrees of freedom", rtol=6e-2)
                ctx.close(r["p"], sp.stats.f(1, r["df2"]).sf(F), f"{nm} approx_degfree p", rtol=1e-5, atol=1e-10)
    ctx.close(m1.theta, m2.theta, "LMM and LMM2 estimates", rtol=0, atol=float(0.01 * se.min()))
    ci = m2.confint(0.1)
    q = sp.stats.t(n - p).ppf(0.95)
    ctx.close(ci.values, np.column_stack([m2.beta - q * m2.se_beta, m2.beta + q * m2.se_beta]), "LMM2 confint", rtol=1e-9)


@P.facet("singular", dicts(seed=seeds(), q=st.sampled_from([6, 12]), per=st.sampled_from([3, 5]), sd=st.sampled_from([0.0, 0.3, 0.6]), reml=st.booleans(),
                            form=st.sampled_from(["int", "slope"])), quick=32, thorough=2000, cost=3, rule="estimated covariance singular or nearly so",
         examples=({"seed": 3, "q": 12, "per": 4, "sd": 0.3, "reml": True, "form": "slope"},))
def singular(case, ctx):
    """small variances: the estimate may lie on the boundary, the fit still has to give a likelihood not below the plain linear model's"""
    c = {**BASE, **{k: case[k] for k in ("seed", "q", "per", "sd")}, "k1": case["form"], "fe": "1+x1"}
    formula, df, X, y, terms, rng = make(c)
    k = terms[0][0].shape[1]
    reml = case["reml"]
    f = lambda t: dense_dev(t, X, y, terms, reml)

    def full(v):
        L = np.zeros((k, k))
        i, j = np.triu_indices(k)
        L[j, i] = v[:-1]
        return np.r_[vech(L @ L.T), np.exp(v[-1])]
    best = np.inf
    for s in (0.05, 0.5, 1.0):
        v0 = np.r_[s * vech(np.eye(k)) + 0.01, np.log(np.var(y))]
        o = sp.optimize.minimize(lambda v: f(full(v)), v0, method="L-BFGS-B", bounds=[(-30, 30)] * (len(v0) - 1) + [(-12, 12)])
        if o.fun < best:
            best, th = o.fun, full(o.x)
    ctx.nontrivial(np.linalg.eigvalsh(unpack(th, terms)[0][0]).min() < 1e-3)
    n, p = X.shape
    # zero variance is a limit point of the logarithmic parametrisation, so the plain linear model is an acceptable answer
    r = y - X @ np.linalg.lstsq(X, y, rcond=None)[0]
    ne = n - p if reml else n
    s0 = r @ r / ne
    best = max(best, ne * np.log(s0) + r @ r / s0 + (np.linalg.slogdet(X.T @ X)[1] if reml else 0.0))
    for nm, cl in (("LMM", LMM()), ("LMM2", LMM2())):
        m = cl(formula, df.copy())
        with contextlib.redirect_stderr(io.StringIO()):
            m.fit(reml=reml)
        ctx.check(f(m.theta) <= best + 0.05, f"{nm}: -2 log likelihood {f(m.theta)} at the estimate, {best} attainable")
        ctx.close(m.ll, f(m.theta) + (n - p if reml else n) * np.log(2 * np.pi), f"{nm} -2 log likelihood", rtol=1e-5)
        ctx.finite(m.res.loc[m.res.index[:p]].values.astype(float), f"{nm} fixed effects table")
        V = dense_V(terms, *unpack(m.theta, terms))
        C = np.linalg.inv(X.T @ np.linalg.solve(V, X))
        ctx.close(m.beta, C @ X.T @ np.linalg.solve(V, y), f"{nm} beta", rtol=1e-4, atol=1e-5)
        ctx.close(m.se_beta, np.sqrt(np.diag(C)), f"{nm} se_beta", rtol=1e-4)


@P.facet("lrt", dicts(seed=seeds(), q=st.sampled_from([15, 25]), per=st.just(5)), quick=16, thorough=400, cost=3, rule="every case")
def lrt(case, ctx):
    c = {**BASE, **case}
    formula, df, X, y, terms, rng = make(c)
    m, r = LMM2()("y~1+x1+(1+x1|g1)", df), LMM2()("y~1+x1+(1|g1)", df)
    m.fit(opt_kws=dict(gtol=1e-8, xtol=1e-12))
    r.fit(opt_kws=dict(gtol=1e-8, xtol=1e-12))
    t = m.lrt(r)
    ctx.nontrivial()
    ctx.close(t["stat"].iloc[0], 2 * (m.llf - r.llf), "likelihood ratio", rtol=1e-10)
    ctx.equal(int(t["df"].iloc[0]), 2, "degrees of freedom")
    ctx.close(t["p"].iloc[0], sp.stats.chi2(2).sf(2 * (m.llf - r.llf)), "p value", rtol=1e-9)


@P.facet("profile", dicts(seed=seeds(), reml=st.booleans(), slope=st.booleans()), quick=8, thorough=200, cost=8, rule="interior estimate")
def profile(case, ctx):
    c = {**BASE, "seed": case["seed"], "q": 14, "per": 5, "sd": 1.2, "k1": "slope" if case["slope"] else "int", "fe": "1+x1"}
    formula, df, X, y, terms, rng = make(c)
    m = LMM2()(formula, df)
    m.fit(reml=case["reml"], opt_kws=dict(gtol=1e-9, xtol=1e-12, maxiter=2000))
    Gs, s2 = unpack(m.theta, terms)
    if np.linalg.eigvalsh(Gs[0]).min() < 0.1 * s2:
        ctx.skip("estimate at the boundary")
    ctx.nontrivial()
    with contextlib.redirect_stderr(io.StringIO()):
        thetas, zetas, ix = m.profile(n_points=3, tb=1.5)
    K = len(m.theta)
    ctx.equal(thetas.shape, (3 * K, K), "profile shape")
    ctx.equal(ix, np.repeat(np.arange(K), 3), "profile index")
    f0 = dense_dev(m.theta, X, y, terms, case["reml"])
    for k in range(len(zetas)):
        f = dense_dev(thetas[k], X, y, terms, case["reml"])
        ctx.close(zetas[k] ** 2, max(f - f0, 0), f"zeta^2 of profile point {k}", rtol=1e-4, atol=1e-4)
    for i in range(K):
        z = zetas[ix == i]
        ctx.check(np.all(np.diff(z) > -1e-4), f"signed roots of parameter {i} are not increasing: {z}")
        ctx.check(z[0] < 0 < z[-1], f"signed roots of parameter {i} do not change sign: {z}")
    # profile of a variance is the minimum over the other parameters
    j = 0
    k = 0
    t0 = thetas[k].copy()

    def obj(v):
        t = t0.copy()
        L = np.zeros((len(Gs[0]), len(Gs[0])))
        if case["slope"]:
            sd1, r = np.exp(v[0]), np.tanh(v[1])
            a = np.sqrt(t0[0])
            t[:3] = [t0[0], a * sd1 * r, sd1 ** 2]
        t[-1] = np.exp(v[-1])
        return dense_dev(t, X, y, terms, case["reml"])
    if case["slope"] and abs(t0[1]) > 0.97 * np.sqrt(t0[0] * t0[2]):
        return
    v0 = np.r_[[0.5 * np.log(t0[2]), np.arctanh(t0[1] / np.sqrt(t0[0] * t0[2]))] if case["slope"] else [], np.log(t0[-1])]
    o = sp.optimize.minimize(obj, v0, method="Nelder-Mead", options=dict(xatol=1e-6, fatol=1e-8, maxiter=2000))
    ctx.check(obj(v0) - o.fun <= 5e-3, f"profile point is {obj(v0) - o.fun} above the constrained optimum")


@P.facet("related", dicts(seed=seeds(), q=st.sampled_from([4, 8]), per=st.sampled_from([2, 4]), p=st.sampled_from([1, 2]), A=st.sampled_from(["dense", "block", "tri", "ar1"]), sparse_in=st.booleans()),
         quick=80, thorough=5000, rule="more than one random variable")
def related(case, ctx):
    """random effects correlated across levels through a known matrix A: G = A (x) G0"""
    from pystatsm.pylmm.re_mod import RandomEffects, MMEBlocked
    rng = rng_of(case)
    q, p = case["q"], case["p"]
    g = np.repeat(np.arange(q), case["per"])
    n = len(g)
    A = {"dense": lambda: num.spd(rng, q), "block": lambda: sp.linalg.block_diag(*[num.spd(rng, 2) for _ in range(q // 2)]),
         "tri": lambda: np.eye(q) + 0.4 * (np.eye(q, k=1) + np.eye(q, k=-1)),
         "ar1": lambda: np.round(np.linalg.inv(np.eye(q) + 0.3 * (np.eye(q, k=1) + np.eye(q, k=-1))), 12)}[case["A"]]()
    df = pd.DataFrame({"x1": rng.standard_normal(n), "g": g})
    re = RandomEffects([("1+x1" if p == 2 else "1", "g")], data=df, a_covs=[sp.sparse.csc_matrix(A) if case["sparse_in"] else A])
    X = np.column_stack([np.ones(n), df.x1])
    y = rng.standard_normal(n) * 2
    ctx.nontrivial(p > 1)
    mme = MMEBlocked(X, y[:, None], re)
    G0 = num.spd(rng, p)
    s2 = float(np.exp(0.3 * rng.standard_normal()))
    theta = np.r_[vech(G0), s2]
    Xr = np.column_stack([np.ones(n), df.x1])[:, :p]

    def dev(t, reml):
        G = invech(t[:-1])
        V = t[-1] * np.eye(n) + (Xr @ G @ Xr.T) * A[np.ix_(g, g)]
        Vi = np.linalg.inv(V)
        XVX = X.T @ Vi @ X
        r = y - X @ np.linalg.solve(XVX, X.T @ Vi @ y)
        return np.linalg.slogdet(V)[1] + r @ Vi @ r + (np.linalg.slogdet(XVX)[1] if reml else 0)
    for reml in (True, False):
        ctx.close(mme._loglike(theta.copy(), reml), dev(theta, reml), f"loglike with related levels reml={reml}", rtol=1e-7)
        gr = num.grad(lambda t: dev(t, reml), theta, h=2e-4)
        ctx.close(mme._gradient(theta.copy(), reml), gr, f"gradient with related levels reml={reml}", rtol=1e-5, atol=1e-5)
        ctx.close(mme._gradient_v2(theta.copy(), reml), gr, f"gradient (v2) with related levels reml={reml}", rtol=1e-5, atol=1e-5)


@P.facet("equivariance", dicts(**KW), quick=60, thorough=4000, rule="more than one random term, or a random slope")
def equivariance(case, ctx):
    formula, df, X, y, terms, rng = make(case)
    theta, Gs, s2 = theta_of(terms, rng)
    ctx.nontrivial(len(terms) > 1 or case["k1"] not in ("int", "slope0"))
    n, p = X.shape
    for nm, cl in (("LMM", LMM()), ("LMM2", LMM2())):
        m = cl(formula, df.copy())
        f0 = m.loglike(theta.copy())
        d2 = df.sample(frac=1.0, random_state=3)
        ctx.close(cl(formula, d2).loglike(theta.copy()), f0, f"{nm} loglike with rows permuted", rtol=1e-9)
        d3 = df.copy()
        labs = pd.unique(d3.g1)
        mp = dict(zip(labs, rng.permutation(len(labs)) + 100))
        d3["g1"] = d3.g1.map(mp)
        ctx.close(cl(formula, d3).loglike(theta.copy()), f0, f"{nm} loglike with groups relabelled", rtol=1e-9)
        d4 = df.copy()
        d4["y"] = 3.0 * d4.y
        ctx.close(cl(formula, d4).loglike(9.0 * theta), f0 + (n - p) * np.log(9.0), f"{nm} loglike with y rescaled", rtol=1e-9)
        d5 = df.copy()
        d5["y"] = d5.y + 11.0
        ctx.close(cl(formula, d5).loglike(theta.copy()), f0, f"{nm} loglike with y shifted", rtol=1e-8)


@P.facet("varcorr", dicts(seed=seeds(), dims=st.lists(st.sampled_from([1, 2, 3, 4]), min_size=1, max_size=2), which=st.sampled_from(["prf", "model_matrices"])),
         quick=100, thorough=5000, rule="a term with two or more variables",
         examples=({"seed": 1, "dims": [4], "which": "prf"}, {"seed": 1, "dims": [4], "which": "model_matrices"}))
def varcorr(case, ctx):
    """variance-correlation reparametrisation: variances stay, correlations become their arctanh"""
    import importlib
    from pystatsm.pylmm.model_matrices import make_theta
    rng = rng_of(case)
    dims = {f"g{i}": dict(n_groups=3, n_vars=k) for i, k in enumerate(case["dims"])}
    theta0, ind = make_theta(dims)
    ctx.equal(theta0, np.concatenate([vech(np.eye(k)) for k in case["dims"]] + [np.ones(1)]), "initial theta")
    VR = importlib.import_module(f"pystatsm.pylmm.{case['which']}").VarCorrReparam
    rp = VR(dims, {"theta": ind})
    Gs = [num.spd(rng, k) for k in case["dims"]]
    theta = np.r_[np.concatenate([vech(G) for G in Gs]), 0.7]
    ctx.nontrivial(max(case["dims"]) > 1)
    tau = rp.transform(theta.copy())
    want = []
    for G in Gs:
        sd = np.sqrt(np.diag(G))
        R = np.arctanh(np.where(np.eye(len(G)) > 0, 0, G / np.outer(sd, sd)))
        want.append(vech(R + np.diag(np.diag(G))))
    ctx.close(tau, np.r_[np.concatenate(want), 0.7], "transform", rtol=1e-9)
    ctx.close(rp.inverse_transform(tau.copy()), theta, "inverse of transform", rtol=1e-9)
    J = num.jac(lambda t: rp.inverse_transform(t.copy()), tau)
    ctx.close(rp.jacobian(theta.copy()), J.T, "jacobian (rows: tau)", rtol=1e-7, atol=1e-8)
