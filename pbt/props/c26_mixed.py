"""C26: multivariate and generalised linear mixed models (pylmm.mlmm, pylmm.glmm, pylmm.model_matrices)."""
import re
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num
from pystatsm.pylmm.mlmm import MLMM
from pystatsm.pylmm.glmm import GLMM_LAP, GLMM_AGQ
from pystatsm.pylmm import model_matrices as mm
from pystatsm.pyglm import families, links

P = Property("C26", "Multivariate and generalised mixed models")
P.assumptions = ["one random-effect term per grouping factor", "variances between 0.05 and 4; correlations of random effects up to about 0.8"]
RE = {"int": ["1"], "slope": ["1+x1"], "only": ["0+x1"], "crossed": ["1", "1"], "mixed": ["1+x1", "0+x2"]}


def tri(n):
    """row, column of vech in column order"""
    return [(i, j) for j in range(n) for i in range(j, n)]


def mat(v):
    n = int(((8 * len(v) + 1) ** 0.5 - 1) / 2)
    S = np.zeros((n, n))
    for t, (i, j) in zip(v, tri(n)):
        S[i, j] = S[j, i] = t
    return S


def half(S):
    return np.array([S[i, j] for i, j in tri(len(S))])


def cols(term, df):
    return np.stack([{"1": np.ones(len(df)), "x1": df["x1"].values, "x2": df["x2"].values}[t] for t in term.split("+") if t != "0"], axis=1)


def frame(rng, case):
    ng, npg = case["ng"], case["nper"]
    n = ng * npg
    lab = {"str": [f"k{i:02d}" for i in range(ng)], "int": [3 * i + 1 for i in range(ng)], "rev": [f"z{ng - i:02d}" for i in range(ng)]}[case["labels"]]
    g = np.repeat(np.arange(ng), npg)
    if case["order"] == "shuffled":
        g = rng.permutation(g)
    if case["balance"] == "un":
        keep = rng.uniform(size=n) < 0.8
        keep[[np.flatnonzero(g == i)[0] for i in range(ng)]] = True
        g = g[keep]
    n = len(g)
    h = rng.permutation(np.arange(n) % 4)
    df = pd.DataFrame({"x1": rng.standard_normal(n), "x2": rng.uniform(-1, 1, n), "g": [lab[i] for i in g], "h": np.array(["a", "b", "c", "d"])[h]})
    return df


def sp_(s, wide):
    return " " + s + " " if wide else s


def re_part(case):
    w = case["spaces"]
    return "+".join(sp_("(" + sp_(t, w) + "|" + sp_(f, w) + ")", w) for t, f in zip(RE[case["re"]], ("g", "h")))


def setup(case, ny):
    rng = rng_of(case)
    df = frame(rng, case)
    n = len(df)
    terms = list(zip(RE[case["re"]], ("g", "h")))
    X = {"x": np.c_[np.ones(n), df.x1], "one": np.ones((n, 1)), "noint": np.c_[df.x1, df.x2]}[case["fe"]]
    fe = {"x": "1+x1", "one": "1", "noint": "0+x1+x2"}[case["fe"]]
    G = []
    Z = []
    for t, f in terms:
        z = cols(t, df)
        Z.append((z, (df[f].values[:, None] == df[f].values[None]).astype(float), df[f].values))
        G.append(num.spd(rng, z.shape[1] * ny, 0.3) * rng.choice([0.3, 1.0]))
    return rng, df, X, fe, Z, G


FR = dict(seed=seeds(), ng=st.sampled_from([6, 4, 12]), nper=st.sampled_from([5, 3]), labels=st.sampled_from(["str", "int", "rev"]), order=st.sampled_from(["sorted", "shuffled"]), balance=st.sampled_from(["bal", "un"]), fe=st.sampled_from(["x", "one", "noint"]), spaces=st.booleans(), place=st.sampled_from(["last", "first"]))
ML = dicts(ny=st.sampled_from([2, 1, 3]), re=st.sampled_from(["int", "slope", "only", "crossed", "mixed"]), reml=st.booleans(), **FR)


def names(ny):
    return ["yb", "ya", "yc"][:ny]


def formula(lhs, fe, case):
    w = case["spaces"]
    parts = [fe, re_part(case)]
    if case["place"] == "first":
        parts = parts[::-1]
    return lhs + sp_("~", w) + "+".join(parts)


def simulate(rng, df, X, Z, G, ny, s):
    n = len(df)
    Y = X @ rng.uniform(-1, 1, (X.shape[1], ny)) + rng.standard_normal((n, ny)) * np.sqrt(s)
    for (z, _, lab), g in zip(Z, G):
        L = np.linalg.cholesky(g)
        u = {k: (L @ rng.standard_normal(len(L))).reshape(-1, ny) for k in sorted(set(lab))}
        Y += np.stack([z[i] @ u[lab[i]] for i in range(n)])
    return Y


def cov(Z, G, s, n):
    """covariance of the responses, ordered by row and then by outcome"""
    ny = len(s)
    V = np.kron(np.eye(n), np.diag(s)).astype(float)
    for (z, same, _), g in zip(Z, G):
        g4 = np.asarray(g).reshape(z.shape[1], ny, z.shape[1], ny)
        V += (np.einsum("ik,kalb,jl->iajb", z, g4, z) * same[:, None, :, None]).reshape(n * ny, n * ny)
    return V


class Dense:
    """-2 log-likelihood without its constant, and everything that follows from it, from the dense covariance"""

    def __init__(self, X, Y, Z, ny):
        self.n, self.ny, self.Z = len(Y), ny, Z
        self.X, self.y = np.kron(X, np.eye(ny)), Y.reshape(-1)
        self.dims = [z.shape[1] * ny for z, _, _ in Z]

    def split(self, theta):
        k, G = 0, []
        for d in self.dims:
            m = d * (d + 1) // 2
            G.append(mat(theta[k:k + m]))
            k += m
        return G, np.asarray(theta[k:])

    def natural(self, t):
        k, out = 0, []
        for d in self.dims:
            m = d * (d + 1) // 2
            L = np.tril(mat(t[k:k + m]))
            out.append(half(L @ L.T))
            k += m
        return np.concatenate(out + [np.exp(t[k:])])

    def chol(self, theta):
        G, s = self.split(theta)
        return np.concatenate([half(np.linalg.cholesky(g)) for g in G] + [np.log(s)])

    def gls(self, theta):
        G, s = self.split(theta)
        V = cov(self.Z, G, s, self.n)
        Vi = np.linalg.inv(V)
        C = np.linalg.inv(self.X.T @ Vi @ self.X)
        b = C @ self.X.T @ Vi @ self.y
        return V, Vi, C, b

    def m2ll(self, theta, reml):
        V, Vi, C, b = self.gls(theta)
        r = self.y - self.X @ b
        v = np.linalg.slogdet(V)[1] + r @ Vi @ r
        return v - np.linalg.slogdet(C)[1] if reml else v

    def blup(self, theta):
        G, s = self.split(theta)
        V, Vi, C, b = self.gls(theta)
        a = Vi @ (self.y - self.X @ b)
        out = []
        for (z, _, lab), g in zip(self.Z, G):
            for k in sorted(set(lab)):
                zk = np.kron(z * (lab == k)[:, None], np.eye(self.ny))
                out.append(g @ zk.T @ a)
        return np.concatenate(out)


def mlmm_case(case):
    ny = case["ny"]
    rng, df, X, fe, Z, G = setup(case, ny)
    s = rng.choice([0.2, 1.0, 2.0], ny)
    Y = simulate(rng, df, X, Z, G, ny, s)
    for j, nm in enumerate(names(ny)):
        df[nm] = Y[:, j]
    lhs = names(1)[0] if ny == 1 else "(" + (", " if case["spaces"] else ",").join(names(ny)) + ")"
    fm = formula(lhs, fe, case)
    D = Dense(X, Y, Z, ny)
    return rng, df, fm, D, G, s


@P.facet("mlmm_like", ML, quick=60, thorough=1500, cost=3.0, rule="two or more outcomes",
         examples=[dict(ny=2, re=r, reml=m, seed=5, ng=g, nper=3, labels="str", order="shuffled", balance="bal", fe="x", spaces=sp, place="last") for r, m, g, sp in (("int", True, 12, False), ("crossed", False, 6, False), ("slope", True, 6, True))])
def mlmm_like(case, ctx):
    rng, df, fm, D, G, s = mlmm_case(case)
    ny, reml = case["ny"], case["reml"]
    df0 = df.copy()
    m = MLMM(fm, df)
    ctx.label(case["re"], f"ny={ny}", "reml" if reml else "ml")
    ctx.nontrivial(ny > 1)
    ctx.check(df.equals(df0), "the data frame is changed")
    t = np.concatenate([half(num.spd(rng, d, 0.4)) for d in D.dims] + [rng.choice([0.3, 1.0, 2.5], ny)])
    t0 = t.copy()
    want = D.m2ll(t, reml)
    for rep in range(2):
        for sparse in (True, False):
            ctx.close(m.loglike(t, use_sparse=sparse, reml=reml), want, f"-2 log-likelihood (sparse={sparse})", rtol=1e-8, atol=1e-7)
        f = lambda v: D.m2ll(v, reml)
        if rep == 0:
            g = num.grad(f, t, 1e-3)
        ctx.close(np.ravel(m.gradient(t, reml)), g, "gradient", rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(g))))
    ctx.equal(t.tolist(), t0.tolist(), "the parameters are left alone")
    c = D.chol(t)
    ctx.close(m.loglike_c(c, reml), want, "-2 log-likelihood in the unconstrained parameters", rtol=1e-8, atol=1e-7)
    gc = num.grad(lambda v: D.m2ll(D.natural(v), reml), c, 1e-3)
    ctx.close(np.ravel(m.gradient_chol(c, reml)), gc, "gradient in the unconstrained parameters", rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(gc))))
    if len(t) <= 8:
        H = num.jac(lambda v: np.ravel(m.gradient(v, reml)), t, 1e-3)
        ctx.close(m.hessian(t, reml), H, "hessian", rtol=1e-4, atol=1e-4 * np.max(np.abs(H)))
        H = num.jac(lambda v: np.ravel(m.gradient_chol(v, reml)), c, 1e-3)
        ctx.close(m.hessian_chol(c, reml), H, "hessian in the unconstrained parameters", rtol=1e-4, atol=1e-4 * np.max(np.abs(H)))
    b, C, u = m._compute_effects(t)
    V, Vi, C0, b0 = D.gls(t)
    ctx.close(b, b0, "generalised least squares", rtol=1e-7, atol=1e-7)
    ctx.close(C, C0, "covariance of the fixed effects", rtol=1e-7, atol=1e-9)
    ctx.close(u, D.blup(t), "best linear unbiased predictions", rtol=1e-7, atol=1e-7)


@P.facet("mlmm_fit", ML, quick=12, thorough=300, cost=20.0, shards=3, rule="two or more outcomes",
         examples=[dict(ny=2, re="int", reml=m, seed=5, ng=12, nper=5, labels="str", order="shuffled", balance="bal", fe="x", spaces=False, place="last") for m in (True, False)])
def mlmm_fit(case, ctx):
    case = dict(case, ng=max(case["ng"], 12 if case["ny"] > 1 or case["re"] in ("slope", "mixed") else 6), nper=5)
    if case["ny"] == 3 and case["re"] in ("slope", "mixed"):
        case["re"] = "int"
    rng, df, fm, D, G, s = mlmm_case(case)
    ny, reml = case["ny"], case["reml"]
    m = MLMM(fm, df)
    kw = dict(gtol=1e-6)
    m.fit(reml=reml, opt_kws=kw)
    ctx.label(case["re"], f"ny={ny}", "reml" if reml else "ml")
    ctx.nontrivial(ny > 1)
    ctx.equal(kw, dict(gtol=1e-6), "the caller's options are left alone")
    t = m.theta
    f = lambda v: D.m2ll(v, reml)
    fc = lambda v: f(D.natural(v))
    c = m.theta_chol
    ctx.close(D.natural(c), t, "theta and its unconstrained form", rtol=1e-8, atol=1e-10)
    Gs, rs = D.split(t)
    ctx.check(all(np.min(np.linalg.eigvalsh(g)) > -1e-9 for g in Gs) and np.all(rs > 0), "an indefinite covariance estimate")
    singular = min(np.min(np.linalg.eigvalsh(g)) for g in Gs) < 1e-4
    if singular:
        ctx.label("singular")
    v = f(t) if not singular else m.loglike(t, reml=reml)
    if not singular:
        ctx.close(m.lltheta, v, "the criterion at the estimate", rtol=1e-7, atol=1e-6)
    with np.errstate(all="ignore"):
        best = np.inf
        for start in (c, D.chol(np.concatenate([half(g) for g in G] + [s]))):
            def safe(z):
                try:
                    w = fc(z)
                except np.linalg.LinAlgError:
                    return 1e10
                return w if np.isfinite(w) else 1e10
            def jac(z):
                try:
                    return np.ravel(m.gradient_chol(z, reml))
                except Exception:
                    return np.zeros(len(z))
            o = sp.optimize.minimize(safe, start, jac=jac, method="BFGS", options=dict(maxiter=200, gtol=1e-4))
            best = min(best, o.fun)
    ctx.check(v <= best + (0.02 if not singular else 0.1), f"the fit stops at {v}, the minimum is {best}")
    N, p = D.X.shape
    const = (N - p if reml else N) * np.log(2 * np.pi)
    ctx.close(m.ll, v + const, "-2 log-likelihood", rtol=1e-7, atol=1e-5)
    ctx.close(m.llf, -m.ll / 2, "log-likelihood", rtol=1e-12)
    d, nn = (len(t), N - p) if reml else (len(t) + p, N)
    ctx.close([m.AIC, m.AICC, m.BIC, m.CAIC], [m.ll + 2 * d, m.ll + 2 * d * nn / (nn - d - 1), m.ll + d * np.log(nn), m.ll + d * (np.log(nn) + 1)], "information criteria", rtol=1e-10)
    ctx.close(m.sumstats["value"].values, [m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC], "fit statistics", rtol=1e-12)
    if singular:
        return
    V, Vi, C0, b0 = D.gls(t)
    ctx.close(m.beta, b0, "fixed effects", rtol=1e-6, atol=1e-6)
    ctx.close(m.se_beta, np.sqrt(np.diag(C0)), "standard errors of the fixed effects", rtol=1e-6)
    ctx.close(m.u, D.blup(t), "random effects", rtol=1e-6, atol=1e-6)
    yh = D.X @ b0 + (cov(D.Z, Gs, 0 * rs, D.n)) @ Vi @ (D.y - D.X @ b0)
    ctx.close(np.ravel(m.predict()), yh, "predictions", rtol=1e-6, atol=1e-6)
    H = num.jac(lambda q: num.grad(f, q, 1e-3), t, 1e-3) if len(t) <= 8 else None
    if H is not None and np.min(np.linalg.eigvalsh((H + H.T) / 2)) > 1e-3 * np.max(np.abs(H)) * 1e-2:
        se = np.sqrt(np.diag(np.linalg.inv(H / 2)))
        ctx.close(m.se_theta, se, "standard errors of the variance parameters", rtol=1e-3)
    # tables
    R = m.res
    ctx.close(R["estimate"].values, np.r_[m.beta, m.theta], "estimates in the table", rtol=1e-10)
    ctx.close(R["SE"].values, np.r_[m.se_beta, m.se_theta], "standard errors in the table", rtol=1e-10)
    ctx.close(R["t"].values, R["estimate"].values / R["SE"].values, "t", rtol=1e-10)
    ctx.close(R["p"].values, 2 * sp.stats.t(N - p).sf(np.abs(R["t"].values)), "p-values", rtol=1e-8, atol=1e-300)
    xn = {"x": ["Intercept", "x1"], "one": ["Intercept"], "noint": ["x1", "x2"]}[case["fe"]]
    for k in range(ny):
        for j, nm in enumerate(xn):
            ctx.close(R.loc[f"y{k + 1}~{nm}", "estimate"], b0[j * ny + k], f"coefficient of {nm} for outcome {k + 1}", rtol=1e-6, atol=1e-6)
        ctx.close(R.loc[f"y{k + 1} resid_cov", "estimate"], rs[k], "residual variance", rtol=1e-10)
    for (t_, fac), g in zip(zip(RE[case["re"]], ("g", "h")), Gs):
        nv = len(g) // ny
        ctx.close(m.re_covs[fac], g, "covariance of the random effects", rtol=1e-10)
        sd = np.sqrt(np.diag(g))
        ctx.close(m.re_corrs[fac], g / np.outer(sd, sd), "correlation of the random effects", rtol=1e-8)
        for nm in R.index:
            mt = re.fullmatch(re.escape(fac) + r":\(y(\d), y(\d)\):G\[(\d)\]\[(\d)\]", nm)
            if mt:
                a, b, k, l = [int(q) - 1 for q in mt.groups()]
                ctx.close(float(R.loc[nm, "estimate"]), g[k * ny + a, l * ny + b], f"parameter {nm}", rtol=1e-10)
    ctx.equal(len(set(R.index)), len(R), "distinct names")


# ---------------------------------------------------------------- generalised
FAM = {"binomial": (families.Binomial, None), "probit": (families.Binomial, links.ProbitLink), "cloglog": (families.Binomial, links.CloglogLink), "poisson": (families.Poisson, None)}


def ll_obs(fam, y, eta):
    if fam == "poisson":
        return y * eta - np.exp(eta)
    if fam == "binomial":
        return y * eta - np.logaddexp(0, eta)
    if fam == "probit":
        return y * sp.special.log_ndtr(eta) + (1 - y) * sp.special.log_ndtr(-eta)
    e = np.exp(eta)
    return y * np.log(-np.expm1(-e)) - (1 - y) * e


def glmm_case(case):
    rng, df, X, fe, Z, G = setup(case, 1)
    G = [np.clip(np.diag(np.diag(g)), 0.2, 1.5) @ num.corr(rng, len(g), 0.5) if False else g * min(1.0, 1.2 / np.max(np.diag(g))) for g in G]
    beta = rng.uniform(-0.7, 0.7, X.shape[1])
    z, _, lab = Z[0]
    u = {k: np.linalg.cholesky(G[0]) @ rng.standard_normal(len(G[0])) for k in sorted(set(lab))}
    eta = X @ beta + np.array([z[i] @ u[lab[i]] for i in range(len(df))])
    if case["fam"] == "poisson":
        y = rng.poisson(np.exp(np.clip(eta, -5, 3)))
    else:
        pr = {"binomial": sp.special.expit, "probit": sp.special.ndtr, "cloglog": lambda q: -np.expm1(-np.exp(q))}[case["fam"]](eta)
        y = (rng.uniform(size=len(df)) < pr) * 1.0
    df["y"] = y
    F, lk = FAM[case["fam"]]
    fam = F if lk is None else F(link=lk)
    if case["inst"] and lk is None:
        fam = F()
    return rng, df, X, fe, z, lab, G[0], beta, fam, formula("y", fe, case)


def modes(case, df, X, z, lab, beta, G):
    """per group: posterior mode, curvature there, and the joint log density"""
    Gi = np.linalg.inv(G)
    y = df["y"].values.astype(float)
    out = []
    for k in sorted(set(lab)):
        ix = lab == k
        xb, zi, yi = X[ix] @ beta, z[ix], y[ix]

        def joint(u, xb=xb, zi=zi, yi=yi):
            return np.sum(ll_obs(case["fam"], yi, xb + zi @ u)) - 0.5 * u @ Gi @ u
        u = sp.optimize.minimize(lambda q: -joint(q), np.zeros(z.shape[1]), method="BFGS", options=dict(gtol=1e-6)).x
        for _ in range(6):
            g, H = num.grad(joint, u, 1e-2), num.hess(joint, u, 2e-2)
            step = np.linalg.solve(H, g)
            u = u - step
            if np.max(np.abs(step)) < 1e-9:
                break
        out.append((u, -num.hess(joint, u, 2e-2), joint))
        if case["fam"] == "cloglog" and max(np.max(xb), np.max(xb + zi @ u)) > 3.45:
            # the mean rounds to one and its variance to zero
            raise Saturated
    return out


class Saturated(Exception):
    pass


def modes_or_skip(ctx, *args):
    try:
        return modes(*args)
    except Saturated:
        ctx.skip("mean rounds to one")


GL = dicts(re=st.sampled_from(["int", "slope", "only"]), fam=st.sampled_from(["binomial", "poisson", "probit", "cloglog"]), inst=st.booleans(), **FR)
GEX = [dict(re=r, fam=f, inst=False, seed=3, ng=6, nper=5, labels="str", order=o, balance="bal", fe="x", spaces=False, place="last") for r, f, o in (("int", "binomial", "sorted"), ("int", "poisson", "shuffled"), ("only", "probit", "shuffled"))]


@P.facet("laplace", GL, quick=60, thorough=1500, cost=4.0, rule="unbalanced or shuffled groups, or two random effects per group", examples=GEX)
def laplace(case, ctx):
    rng, df, X, fe, z, lab, G, beta, fam, fm = glmm_case(case)
    df0 = df.copy()
    m = GLMM_LAP(fm, df, fam)
    ctx.check(df.equals(df0), "the data frame is changed")
    ctx.label(case["re"], case["fam"])
    ctx.nontrivial(case["order"] == "shuffled" or case["balance"] == "un" or len(G) == 2)
    ctx.equal(len(m.params), X.shape[1] + len(half(G)), "one parameter per coefficient and per covariance")
    y = df["y"].values.astype(float)
    const = -np.sum(sp.special.gammaln(y + 1)) if case["fam"] == "poisson" else 0.0
    vals = []
    for rep in range(2):
        b = beta if rep == 0 else beta + rng.uniform(-0.3, 0.3, len(beta))
        S = G if rep == 0 else num.spd(rng, len(G), 0.3) * 0.6
        md = modes_or_skip(ctx, case, df, X, z, lab, b, S)
        want = sum(j(u) - 0.5 * np.linalg.slogdet(H)[1] for u, H, j in md) - 0.5 * len(md) * np.linalg.slogdet(S)[1]
        got = m.loglike(np.r_[b, half(S)])
        vals.append(-got - want)
        U = m.pirls(np.r_[b, half(S), 1.0])[0]
        ctx.close(U, np.concatenate([u for u, _, _ in md]), "modes of the random effects", rtol=1e-5, atol=1e-5)
    ctx.close(vals[0], vals[1], "difference of two log-likelihoods", atol=1e-5)
    ctx.check(min(abs(vals[0]), abs(vals[0] - const)) < 1e-5, f"the log-likelihood is off by {vals[0]}")


@P.facet("quadrature", GL, quick=40, thorough=1000, cost=4.0, rule="unbalanced or shuffled groups", examples=GEX)
def quadrature(case, ctx):
    case = dict(case, re="int" if case["re"] == "slope" else case["re"])
    rng, df, X, fe, z, lab, G, beta, fam, fm = glmm_case(case)
    m = GLMM_AGQ(fm, df, fam)
    ctx.label(case["re"], case["fam"])
    ctx.nontrivial(case["order"] == "shuffled" or case["balance"] == "un")
    ctx.equal(len(m.params), X.shape[1] + 1, "one parameter per coefficient and per covariance")
    v, l, qt = [], [], 1e-4
    GXn, GWn = np.polynomial.legendre.leggauss(400)
    lp = GLMM_LAP(fm, df, fam)
    for rep in range(2):
        b = beta if rep == 0 else beta + rng.uniform(-0.3, 0.3, len(beta))
        S = G if rep == 0 else G * rng.choice([0.5, 1.3])
        md = modes_or_skip(ctx, case, df, X, z, lab, b, S)
        tot = 0.0
        for u, H, j in md:
            sd = min(1 / np.sqrt(H[0, 0]), np.sqrt(S[0, 0])) if H[0, 0] > 0 else np.sqrt(S[0, 0])
            hw = min(14 * np.sqrt(S[0, 0]), 50 * sd)
            lo, hi = u[0] - hw, u[0] + hw
            q = (lo + hi) / 2 + (hi - lo) / 2 * GXn
            j0 = j(u)
            tot += j0 + np.log(np.sum(GWn * (hi - lo) / 2 * np.array([np.exp(j(np.array([t])) - j0) for t in q])))
        want = tot - 0.5 * len(md) * np.log(2 * np.pi * S[0, 0])
        pr = np.r_[b, half(S)]
        v.append(-m.loglike(pr, 30) - want)
        l.append(-m.loglike(pr, 1) + lp.loglike(pr))
        n9 = -m.loglike(pr, 9) - want
        ctx.check(abs(n9 - v[-1]) < 0.02 * len(md), f"nine and thirty points differ by {n9 - v[-1]}")
        qt = max(qt, abs(n9 - v[-1]))
    ctx.close(v[0], v[1], "difference of two log-likelihoods", atol=qt)
    ctx.close(l[0], l[1], "one point is the Laplace approximation", atol=1e-4)
    y = df["y"].values.astype(float)
    const = -np.sum(sp.special.gammaln(y + 1)) if case["fam"] == "poisson" else 0.0
    ctx.check(min(abs(v[0]), abs(v[0] - const)) < qt, f"the log-likelihood is off by {v[0]}")


@P.facet("glmm_fit", dicts(re=st.sampled_from(["int", "slope", "only"]), fam=st.sampled_from(["binomial", "poisson", "probit"]), inst=st.booleans(), agq=st.booleans(), **FR), quick=12, thorough=300, cost=20.0, shards=2, rule="poisson or two random effects per group",
         examples=[dict(re="int", fam="poisson", inst=False, agq=a, seed=3, ng=12, nper=5, labels="str", order="sorted", balance="bal", fe="x", spaces=False, place="last") for a in (True, False)])
def glmm_fit(case, ctx):
    case = dict(case, ng=16 if case["fam"] == "poisson" else 24, nper=6)
    if case["agq"] and case["re"] == "slope":
        case["re"] = "int"
    rng, df, X, fe, z, lab, G, beta, fam, fm = glmm_case(case)
    ctx.label(case["re"], case["fam"], "agq" if case["agq"] else "laplace")
    ctx.nontrivial(case["fam"] == "poisson" or case["re"] == "slope")
    p = X.shape[1]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if case["agq"]:
            m = GLMM_AGQ(fm, df, fam)
            m.fit(nagq=9)
            f = lambda t: m.loglike(t, 9)
        else:
            m = GLMM_LAP(fm, df, fam)
            m.fit(opt_kws=dict(options=dict(verbose=0, gtol=1e-6, xtol=1e-8)))
            f = m.loglike
    t = m.params.copy()
    ctx.finite(t, "estimates")
    S = mat(t[p:])
    if np.min(np.linalg.eigvalsh(S)) < 5e-3:
        ctx.label("singular")
        ctx.skip("variance estimate on the boundary")
    H = num.hess(f, t, 5e-3 * np.maximum(1, 0.2 * np.abs(t)), 2) if False else num.jac(lambda q: num.grad(f, q, 2e-3, 2), t, 2e-3, 2)
    H = (H + H.T) / 2
    if np.min(np.linalg.eigvalsh(H)) < 1e-2:
        ctx.skip("flat log-likelihood")
    se = np.sqrt(np.diag(np.linalg.inv(H)))
    g = num.grad(f, t, 1e-3, 2)
    ctx.check(np.max(np.abs(np.linalg.solve(H, g)) / se) < 0.02, f"the gradient at the estimate is {g}")
    # the second differences of the code are accurate to a few thousandths
    ctx.close(m.se_params, se, "standard errors", rtol=0.02 + 0.006 / np.min(np.linalg.eigvalsh(H)))
    R = m.res
    ctx.close(R.iloc[:, 0].values, t, "estimates in the table", rtol=1e-10)
    ctx.close(R["SE"].values, m.se_params, "standard errors in the table", rtol=1e-10)
    ctx.close(R["p"].values, 2 * sp.stats.t(len(df) - len(t)).sf(np.abs(t / m.se_params)), "p-values", rtol=1e-7, atol=1e-300)


# ---------------------------------------------------------------- kernels
@P.facet("matrices", dicts(re=st.sampled_from(["int", "slope", "only", "crossed", "mixed"]), **FR), quick=100, thorough=3000, rule="two or more random effects",
         examples=[dict(re="mixed", seed=3, ng=6, nper=5, labels="str", order="shuffled", balance="un", fe="x", spaces=s, place=p) for s in (True, False) for p in ("last", "first")])
def matrices(case, ctx):
    rng, df, X, fe, Z, G = setup(case, 1)
    df["y"] = rng.standard_normal(len(df))
    fm = formula("y", fe, case)
    ctx.label(case["re"], "spaces" if case["spaces"] else "tight")
    ctx.nontrivial(sum(len(g) for g in G) > 1)
    X1, Z1, y1, dims, levels, names_ = mm.construct_model_matrices(fm, df, return_fe=True)
    ctx.close(X1, X, "fixed effects")
    ctx.close(np.ravel(y1), df["y"].values, "response")
    ctx.equal(list(names_), {"x": ["Intercept", "x1"], "one": ["Intercept"], "noint": ["x1", "x2"]}[case["fe"]], "names")
    ctx.equal(list(levels), ["g", "h"][:len(G)], "grouping factors")
    want = []
    for z, _, lab in Z:
        for k in sorted(set(lab)):
            want.append(z * (lab == k)[:, None])
    ctx.close(num.dense(Z1), np.concatenate(want, axis=1), "random effects")
    for (z, _, lab), f in zip(Z, "gh"):
        ctx.equal((dims[f]["n_groups"], dims[f]["n_vars"]), (len(set(lab)), z.shape[1]), "dimensions")
    t, ix = mm.make_theta(dims)
    ctx.close(t, np.concatenate([half(np.eye(len(g))) for g in G] + [[1.0]]), "starting values")
    k = 0
    for g, f in zip(G, "gh"):
        d = len(half(g))
        ctx.equal(list(ix[f]), list(range(k, k + d)), "positions")
        k += d
    ctx.equal(list(np.ravel(ix["resid"])), [k], "position of the residual variance")
    ind = {"theta": ix}
    th = np.concatenate([half(g) for g in G] + [[rng.uniform(0.3, 2)]])
    for inv in (False, True):
        Gm, gi = mm.make_gcov(th, ind, dims, inverse=inv)
        W = sp.linalg.block_diag(*[np.kron(np.eye(len(set(lab))), np.linalg.inv(g) if inv else g) for (_, _, lab), g in zip(Z, G)])
        ctx.close(num.dense(Gm), W, "covariance of the random effects", rtol=1e-9, atol=1e-9)
        for f, g, (_, _, lab) in zip("gh", G, Z):
            e = np.linalg.inv(g) if inv else g
            ctx.close(Gm.data[gi[f]], np.tile(e.reshape(-1, order="F"), len(set(lab))), "positions of its entries", rtol=1e-9, atol=1e-9)
    ctx.close(mm.lndet_gmat(th, dims, ind), np.linalg.slogdet(num.dense(mm.make_gcov(th, ind, dims)[0]))[1], "log-determinant", rtol=1e-9, atol=1e-9)
    c = np.concatenate([half(np.linalg.cholesky(g)) for g in G] + [[np.log(th[-1])]])
    ctx.close(mm.transform_theta(th.copy(), dims, ind), c, "Cholesky form", rtol=1e-9, atol=1e-12)
    ctx.close(mm.inverse_transform_theta(c.copy(), dims, ind), th, "back from the Cholesky form", rtol=1e-9, atol=1e-12)
    ctx.close(mm.lndet_gmat_chol(c, dims, ind), mm.lndet_gmat(th, dims, ind), "log-determinant from the Cholesky form", rtol=1e-9, atol=1e-9)
    for f, g in zip("gh", G):
        H = mm.get_d2_chol(dims[f])
        L = half(np.linalg.cholesky(g))
        d = len(L)
        fn = lambda v: half(np.tril(mat(v)) @ np.tril(mat(v)).T)
        H0 = num.jac(lambda v: num.jac(fn, v, 1e-1, 1), L, 1e-1, 1)
        got = num.dense(H) if not isinstance(H, list) else np.array([num.dense(h) for h in H])
        # got[k, i, j] or any arrangement of the same symmetric array
        ctx.equal(got.shape, (d, d, d), "shape of the second derivatives")
        ok = any(np.allclose(np.moveaxis(H0, 0, a), got, atol=1e-8) for a in range(3))
        ctx.check(ok, "second derivatives of L L' in L")
    miss = rng.uniform(size=df.shape) < 0.1
    dm = df.mask(miss)
    used = ["y", "g"] + (["x1"] if case["fe"] != "one" else []) + (["x2"] if case["fe"] == "noint" else []) + (["h"] if len(G) > 1 else [])
    used += [v for t_ in RE[case["re"]] for v in ("x1", "x2") if v in t_]
    dm["unused"] = np.nan
    ctx.equal(list(mm.handle_missing(fm, dm)), list(~dm[sorted(set(used))].isnull().any(axis=1)), "complete rows")
