"""C28: flexible distributions, independence tests, intraclass correlations."""
import io
import itertools
import contextlib

import numpy as np
import pandas as pd
import scipy as sp
import scipy.special
import scipy.stats
import scipy.integrate
from hypothesis import strategies as st

from pbt import num
from pbt.core import Property, dicts, seeds, rng_of

import importlib

from pystatsm.misc import shash1, shashr, sash, skewnorm_dist, independence_tests as it

P = Property("C28", "Flexible distributions, independence tests and intraclass correlations")

LOC = st.sampled_from([0.0, 1.5, -20.0])
SC = st.sampled_from([1.0, 0.3, 4.0])
NU = st.sampled_from([0.0, 0.5, -1.2, 2.0])
TA = st.sampled_from([1.0, 0.6, 1.7])


def full(packed, d, order):
    """tensor of a packed symmetric array (ascending index tuples, last axis)."""
    T = np.zeros(packed.shape[:-1] + (d,) * order)
    for k, ix in enumerate(itertools.combinations_with_replacement(range(d), order)):
        for q in set(itertools.permutations(ix)):
            T[(Ellipsis, *q)] = packed[..., k]
    return T


def quant(u, m, s, v, t):
    return m + s * np.sinh((np.arcsinh(sp.special.ndtri(u)) + v) / t)


def density(y, m, s, v, t):
    z = (y - m) / s
    x = t * np.arcsinh(z) - v
    return t * np.cosh(x) / (s * np.sqrt(1 + z ** 2)) * sp.stats.norm.pdf(np.sinh(x))


def sas_module():
    return importlib.import_module("pystatsm.misc.sinharcsinh_dist")


# ---------------------------------------------------------------- sinh-arcsinh
@P.facet("sas", dicts(mod=st.sampled_from(["shash1", "shashr", "sash", "sas"]), m=LOC, s=SC, v=NU, t=TA, seed=seeds()), quick=80, thorough=3000,
         rule="a skewed distribution", examples=[dict(mod=k, m=1.5, s=0.3, v=0.5, t=1.7, seed=1) for k in ("shash1", "shashr", "sash", "sas")])
def sas(case, ctx):
    rng = rng_of(case)
    m, s, v, t = case["m"], case["s"], case["v"], case["t"]
    ctx.label(case["mod"])
    ctx.nontrivial(v != 0 and t != 1)
    u = np.sort(np.r_[rng.uniform(0.0005, 0.9995, 20), 0.5, 0.01, 0.99])
    y = quant(u, m, s, v, t)
    f = density(y, m, s, v, t)
    if case["mod"] in ("shash1", "shashr"):
        M = shash1 if case["mod"] == "shash1" else shashr
        a = (m, s, v, t) if M is shash1 else (m, np.log(s), v, np.log(t))
        L = M.logpdf(y, params=[a[0], a[1], a[3], a[2]])
        ctx.close(L, M.logpdf(y, m=a[0], s=a[1], t=a[3], v=a[2]), "parameters by name", rtol=1e-14)
        q, c, p = M.inverse_cdf(u, *a), M.cdf(y, *a), M.pdf(y, *a)
        ctx.close(M.median(*a), quant(0.5, m, s, v, t), "median", rtol=1e-9, atol=1e-9)
        r1, r2 = M.rvs(*a, size=500, rng=np.random.default_rng(5)), M.rvs(*a, size=500, rng=np.random.default_rng(5))
    elif case["mod"] == "sash":
        L, q, c, p = sash._logpdf(y, m, s, v, t), sash._qtf(u, m, s, v, t), sash._cdf(y, m, s, v, t), sash._pdf(y, m, s, v, t)
        ctx.close(sash.SASH.loglike(y, m, s, v, t), L, "class", rtol=1e-14)
        r1, r2 = [sash._rvs(np.random.default_rng(5), m, s, v, t, size=500) for _ in range(2)]
    else:
        M = sas_module()
        L, q, c, p = M._logpdf(y, m, s, v, t), M._qtf(u, m, s, v, t), M._cdf(y, m, s, v, t), M._pdf(y, m, s, v, t)
        r1, r2 = [M._rvs(np.random.default_rng(5), m, s, v, t, size=500) for _ in range(2)]
    ctx.close(L, np.log(f), "log density", rtol=1e-9, atol=1e-9)
    ctx.close(p, f, "density", rtol=1e-9)
    ctx.close(q, y, "quantiles", rtol=1e-9, atol=1e-9)
    ctx.close(c, u, "distribution function", rtol=1e-8)
    ctx.close(r1, r2, "samples of a generator", rtol=0, atol=0)
    k = np.sum(r1 < quant(0.5, m, s, v, t))
    ctx.check(150 < k < 350 and sp.stats.kstest(r1, lambda x: sp.special.ndtr(np.sinh(t * np.arcsinh((x - m) / s) - v))).pvalue > 1e-6, "the samples have another distribution")


@P.facet("shash_moments", dicts(m=LOC, s=SC, v=NU, t=st.sampled_from([1.0, 0.6, 1.7, 2.5]), seed=seeds()), quick=60, thorough=500, rule="a skewed distribution",
         examples=[dict(m=-20.0, s=4.0, v=-1.2, t=1.7, seed=1)])
def shash_moments(case, ctx):
    m, s, v, t = case["m"], case["s"], case["v"], case["t"]
    ctx.nontrivial(v != 0)
    z = np.linspace(-13, 13, 40001)
    w = sp.stats.norm.pdf(z)
    w = w / w.sum()
    y = m + s * np.sinh((np.arcsinh(z) + v) / t)
    raw = [w @ y ** k for k in (1, 2, 3, 4)]
    mu = raw[0]
    cen = [w @ (y - mu) ** k for k in (2, 3, 4)]
    sk, ku = cen[1] / cen[0] ** 1.5, cen[2] / cen[0] ** 2
    sd = np.sqrt(cen[0])
    big = (abs(m) + sd) / sd
    for M, a in ((shash1, (m, s, v, t)), (shashr, (m, np.log(s), v, np.log(t)))):
        ctx.close(M.mean(*a), mu, "mean", rtol=1e-8, atol=1e-8)
        ctx.close(M.variance(*a), cen[0], "variance", rtol=1e-7)
        ctx.close(M.moments(*a), raw, "moments about zero", rtol=1e-7, atol=1e-7 * sd)
        ctx.close(M.skew(*a), sk, "skewness", rtol=1e-6, atol=1e-10 * big ** 3)
        ctx.close(M.kurt(*a), ku, "kurtosis", rtol=1e-6, atol=1e-10 * big ** 4)
    ctx.close(shash1.skewness(m, s, v, t), sk, "skewness from standard moments", rtol=1e-6, atol=1e-8)
    ctx.close(shash1.excess_kurtosis(m, s, v, t), ku - 3, "excess kurtosis", rtol=1e-6, atol=1e-7)
    M = sas_module()
    ctx.close(M._mean(m, s, v, t), mu, "mean (sinharcsinh)", rtol=1e-8, atol=1e-8)
    ctx.close(M._variance(m, s, v, t), cen[0], "variance (sinharcsinh)", rtol=1e-7)


@P.facet("derivs", dicts(mod=st.sampled_from(["shash1", "shashr", "sash", "sas"]), m=LOC, s=SC, v=NU, t=TA, seed=seeds(), nd=st.sampled_from([1, 1, 2])), quick=120, thorough=4000, cost=2.0,
         rule="a skewed distribution", examples=[dict(mod=k, m=1.5, s=0.3, v=0.5, t=1.7, seed=1, nd=n) for k in ("shash1", "shashr", "sash", "sas") for n in (1, 2)])
def derivs(case, ctx):
    rng = rng_of(case)
    m, s, v, t = case["m"], case["s"], case["v"], case["t"]
    ctx.label(case["mod"])
    ctx.nontrivial(v != 0 and t != 1)
    y = quant(rng.uniform(0.02, 0.98, (2, 3) if case["nd"] == 2 and case["mod"] != "sas" else 6), m, s, v, t)
    k = case["mod"]
    if k in ("shash1", "shashr"):
        M = shash1 if k == "shash1" else shashr
        th = np.array([m, s, t, v]) if M is shash1 else np.array([m, np.log(s), np.log(t), v])
        # lower orders come along with the higher ones
        D = {o: M.logpdf(y, params=th, derivs=o) for o in (1, 2, 3, 4)}
        for o in (2, 3, 4):
            for j in range(o):
                ctx.close(D[o][j], D[max(1, o - 1)][j], f"order {j} in the result of order {o}", rtol=1e-7, atol=1e-7)
        ctx.close(D[1][0], M.logpdf(y, params=th), "log density in the result", rtol=1e-12)
        fun = lambda o: (lambda x: M.logpdf(y, params=x) if o == 0 else full(M.logpdf(y, params=x, derivs=o)[o], 4, o))
        orders = (1, 2, 3, 4)
    elif k == "sash":
        th = np.array([m, s, v, t])
        C = [sash.SASH.loglike, sash.SASH.d1loglike, sash.SASH.d2loglike, sash.SASH.d3loglike, sash.SASH.d4loglike]
        fun = lambda o: (lambda x: C[0](y, *x) if o == 0 else full(C[o](y, *x), 4, o))
        orders = (1, 2, 3, 4)
    else:
        M = sas_module()
        th = np.array([m, s, v, t])
        C = [lambda x: M._logpdf(y, *x), lambda x: M._grad_elementwise(x, y), lambda x: M._hess_elementwise(x, y)]
        fun = lambda o: C[o]
        orders = (1, 2)
        ctx.close(M._grad(th, y), C[1](th).sum(axis=0), "gradient of the sample", rtol=1e-9, atol=1e-9)
        ctx.close(M._hess(th, y), C[2](th).sum(axis=0), "second derivatives of the sample", rtol=1e-9, atol=1e-9)
    h = 1e-3 * np.minimum(1.0, s)
    for o in orders:
        got = fun(o)(th)
        ctx.equal(got.shape, y.shape + (4,) * o, "shape")
        want = num.jac(fun(o - 1), th, h, 3)
        ctx.close(got, want, f"derivatives of order {o}", rtol=1e-5, atol=1e-6 * max(1.0, np.abs(want).max()))


# ---------------------------------------------------------------- skew normal
@P.facet("skewnorm", dicts(m=LOC, s=SC, v=st.sampled_from([0.0, 0.5, -1.2, 3.0]), seed=seeds()), quick=80, thorough=3000, rule="a skewed distribution",
         examples=[dict(m=1.5, s=0.3, v=0.5, seed=1)])
def skewnorm(case, ctx):
    rng = rng_of(case)
    m, s, v = case["m"], case["s"], case["v"]
    ctx.nontrivial(v != 0)
    ref = sp.stats.skewnorm(v, m, s)
    y = m + s * rng.uniform(-1.2, 1.8, 7) * (1 if v >= 0 else -1)
    S = skewnorm_dist.SkewNorm
    ctx.close(S.loglike(y, m, s, v), ref.logpdf(y), "log density", rtol=1e-8, atol=1e-8)
    C = [S.loglike, S.d1loglike, S.d2loglike, S.d3loglike, S.d4loglike]
    fun = lambda o: (lambda x: C[0](y, *x) if o == 0 else full(C[o](y, *x), 3, o))
    th = np.array([m, s, v])
    for o in (1, 2, 3, 4):
        got = fun(o)(th)
        ctx.equal(got.shape, y.shape + (3,) * o, "shape")
        want = num.jac(fun(o - 1), th, 1e-3 * min(1.0, s), 3)
        ctx.close(got, want, f"derivatives of order {o}", rtol=1e-4, atol=1e-5 * max(1.0, np.abs(want).max()))
    mu, va, sk = ref.stats("mvs")
    ctx.close(skewnorm_dist._mean(m, s, v), mu, "mean", rtol=1e-9, atol=1e-12)
    ctx.close(skewnorm_dist._variance(m, s, v), va, "variance", rtol=1e-9)
    if v != 0:
        ctx.close(skewnorm_dist._skewness(m, s, v), sk, "skewness", rtol=1e-8)
    a, b = [skewnorm_dist._rvs(size=600, m=m, s=s, v=v, rng=np.random.default_rng(3)) for _ in range(2)]
    ctx.close(a, b, "samples of a generator", rtol=0, atol=0)
    ctx.check(sp.stats.kstest(skewnorm_dist._rvs(size=600, m=m, s=s, v=v, rng=rng), ref.cdf).pvalue > 1e-7, "the samples have another distribution")


# ---------------------------------------------------------------- distance correlation
def dcor_ref(X, Y, unbiased):
    n = len(X)
    A, B = [np.sqrt(((M[:, None] - M[None]) ** 2).sum(-1)) for M in (X, Y)]
    out = []
    for D in (A, B):
        if unbiased:
            U = D - D.sum(0) / (n - 2) - D.sum(1)[:, None] / (n - 2) + D.sum() / ((n - 1) * (n - 2))
            np.fill_diagonal(U, 0)
        else:
            U = D - D.mean(0) - D.mean(1)[:, None] + D.mean()
        out.append(U)
    return (out[0] * out[1]).sum() / np.sqrt((out[0] ** 2).sum() * (out[1] ** 2).sum())


def hsic_ref(X, Y, bx, by):
    n = len(X)
    K, L = [np.exp(-((M[:, None] - M[None]) ** 2).sum(-1) / (2 * b ** 2)) for M, b in ((X, bx), (Y, by))]
    H = np.eye(n) - 1 / n
    return np.trace(K @ H @ L @ H) / n ** 2


@P.facet("dcorr", dicts(n=st.sampled_from([5, 6, 15, 40]), p=st.sampled_from([1, 2, 4]), q=st.sampled_from([1, 3]), unbiased=st.booleans(), vec=st.booleans(), seed=seeds()), quick=40, thorough=1000,
         rule="several variables", examples=[dict(n=5, p=2, q=1, unbiased=u, vec=True, seed=1) for u in (True, False)])
def dcorr(case, ctx):
    rng = rng_of(case)
    n, p, q, ub = case["n"], case["p"], case["q"], case["unbiased"]
    X = rng.standard_normal((n, p))
    Y = 0.5 * X[:, :1] + rng.standard_normal((n, q))
    ctx.nontrivial(p > 1 or q > 1)
    X1 = X[:, 0].copy() if p == 1 and case["vec"] else X.copy()
    Y1 = Y[:, 0].copy() if q == 1 and case["vec"] else Y.copy()
    r = dcor_ref(X, Y, ub)
    ctx.close(it.euclidean_distance(X), np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)), "distances", atol=1e-10)
    ctx.close(it.dcorr(X1, Y1, unbiased=ub), r, "distance correlation", atol=1e-9)
    ctx.close(it.dcorr(Y1, X1, unbiased=ub), r, "symmetry", atol=1e-9)
    ctx.close(it.dcorr(X1, 3.0 * X1 - 1.0, unbiased=ub), 1.0, "correlation with a shifted and scaled copy", atol=1e-9)
    if n <= 6:
        N = 3000
        vals = np.array([dcor_ref(X, Y[list(o)], ub) for o in itertools.permutations(range(n))])
        share = np.mean(np.abs(vals) > np.abs(r) + 1e-9)
        lo = np.mean(np.abs(vals) > np.abs(r) - 1e-9)
        tol = 6 * np.sqrt(0.25 / N)
        r1, dist, pv = it.dcorr_permutation_test(X1, Y1, n_perms=N, unbiased=ub, return_samples=True)
        ctx.close(r1, r, "statistic", atol=1e-9)
        ctx.equal(len(dist), N, "number of permutations")
        d = np.min(np.abs(np.asarray(dist)[:300, None] - vals[None]), axis=1)
        ctx.check(np.max(d) < 1e-8, "a permuted statistic belongs to no permutation")
        ctx.check(share - tol <= pv <= lo + tol, f"p-value {pv}, over all permutations {share} to {lo}")
        r2, none, pv2 = it.dcorr_permutation_test(X1, Y1, n_perms=N, unbiased=ub, return_samples=False)
        ctx.close(r2, r, "statistic without samples", atol=1e-9)
        ctx.check(share - tol <= pv2 <= lo + tol, f"p-value without samples {pv2}, over all permutations {share} to {lo}")


@P.facet("dhsic", dicts(n=st.sampled_from([5, 6, 15, 40]), p=st.sampled_from([1, 2, 4]), q=st.sampled_from([1, 3]), bw=st.sampled_from(["median", "list"]), vec=st.booleans(), seed=seeds()), quick=40, thorough=1000,
         rule="several variables", examples=[dict(n=5, p=2, q=1, bw=b, vec=True, seed=1) for b in ("median", "list")])
def dhsic(case, ctx):
    rng = rng_of(case)
    n, p, q = case["n"], case["p"], case["q"]
    X = rng.standard_normal((n, p))
    Y = 0.5 * X[:, :1] + rng.standard_normal((n, q))
    ctx.nontrivial(p > 1 or q > 1)
    X1 = X[:, 0].copy() if p == 1 and case["vec"] else X.copy()
    Y1 = Y[:, 0].copy() if q == 1 and case["vec"] else Y.copy()
    ix = np.triu_indices(n, 1)
    if case["bw"] == "median":
        b = [np.sqrt(0.5 * np.median(((M[:, None] - M[None]) ** 2).sum(-1)[ix])) for M in (X, Y)]
        arg = "median"
    else:
        b = [float(rng.uniform(0.3, 2)), float(rng.uniform(0.3, 2))]
        arg = list(b)
    h = hsic_ref(X, Y, *b)
    got = it.dhsic(X1, Y1, bw=arg)
    ctx.close(got[0], h, "independence criterion", atol=1e-11)
    ctx.close(got[1:], b, "bandwidths", rtol=1e-9)
    if n <= 6:
        N = 3000
        vals = np.array([hsic_ref(X, Y[list(o)], *b) for o in itertools.permutations(range(n))])
        share, lo = np.mean(vals > h + 1e-10), np.mean(vals > h - 1e-10)
        tol = 6 * np.sqrt(0.25 / N)
        s, bx, by, dist, pv = it.dhsic_test(X1, Y1, bw=arg, n_perms=N)
        ctx.close((s, bx, by), (h, *b), "statistic of the test", rtol=1e-8, atol=1e-11)
        ctx.equal(len(dist), N, "number of permutations")
        ctx.check(np.max(np.min(np.abs(np.asarray(dist)[:300, None] - vals[None]), axis=1)) < 1e-9, "a permuted statistic belongs to no permutation")
        ctx.check(share - tol <= pv <= lo + tol, f"p-value {pv}, over all permutations {share} to {lo}")


# ---------------------------------------------------------------- intraclass correlation
def icc_ref(msb, msj, mse, n, k):
    msw = ((k - 1) * n * 0 + (msj * (k - 1) + mse * (n - 1) * (k - 1)) / (n * (k - 1)))
    rows = [((msb - msw) / (msb + (k - 1) * msw), msb / msw, n - 1, n * (k - 1)),
            ((msb - mse) / (msb + (k - 1) * mse + k / n * (msj - mse)), msb / mse, n - 1, (n - 1) * (k - 1)),
            ((msb - mse) / (msb + (k - 1) * mse), msb / mse, n - 1, (n - 1) * (k - 1)),
            ((msb - msw) / msb, msb / msw, n - 1, n * (k - 1)),
            ((msb - mse) / (msb + (msj - mse) / n), msb / mse, n - 1, (n - 1) * (k - 1)),
            ((msb - mse) / msb, msb / mse, n - 1, (n - 1) * (k - 1))]
    d = np.array([n - 1, k - 1, (n - 1) * (k - 1)], dtype=float)
    ms = np.array([msb, msj, mse])
    F = ms[:2] / mse
    stats = np.vstack([d, ms * d, ms, np.r_[F, np.nan], np.r_[sp.stats.f.sf(F, d[:2], d[2]), np.nan]])
    return np.array(rows), stats


IR = ["ICC1", "ICC2", "ICC3", "ICC1k", "ICC2k", "ICC3k"]


@P.facet("iccfun", dicts(n=st.sampled_from([12, 5, 40]), k=st.sampled_from([4, 2, 7]), vs=st.sampled_from([1.0, 0.2, 5.0]), vr=st.sampled_from([0.5, 0.0, 2.0]), ve=st.sampled_from([0.7, 0.1, 3.0])),
         quick=60, thorough=300, rule="raters differ", examples=[dict(n=12, k=4, vs=1.0, vr=0.5, ve=0.7)])
def iccfun(case, ctx):
    icc = importlib.import_module("pystatsm.misc.icc")
    n, k, vs, vr, ve = [case[q] for q in ("n", "k", "vs", "vr", "ve")]
    ctx.nontrivial(vr > 0)
    rows, stats = icc_ref(k * vs + ve, n * vr + ve, ve, n, k)
    a, s1 = icc.icc(vs, vr, ve, n, k)
    s2, b, comp = icc.icc_from_summary_stats(vs, vr, ve, n, k)
    for t, s, w in ((a, s1, "icc"), (b, s2, "icc_from_summary_stats")):
        ctx.equal((list(t.index), list(t.columns)), (IR, ["ICC", "F", "df1", "df2"]), "labels of " + w)
        ctx.close(t.values, rows, "coefficients of " + w, rtol=1e-9, atol=1e-12)
        ctx.equal((list(s.index), list(s.columns)), (["df", "ssq", "ms", "f", "p"], ["subs", "judges", "resids"]), "labels of the table of " + w)
        ctx.close(np.nan_to_num(s.values), np.nan_to_num(stats), "analysis of variance of " + w, rtol=1e-8)
    ctx.close(comp["variance"].values, [vs, vr, ve, vs + vr + ve], "components", rtol=1e-10)
    ctx.close(comp["percent"].values, np.array([vs, vr, ve, vs + vr + ve]) / (vs + vr + ve), "shares", rtol=1e-10)
    # a single rating has a coefficient of the variance components
    tot = vs + vr + ve
    ctx.close(a["ICC"]["ICC2"], vs / tot, "agreement of single ratings", rtol=1e-9)
    ctx.close(a["ICC"]["ICC3"], vs / (vs + ve), "consistency of single ratings", rtol=1e-9)


@P.facet("icc", dicts(n=st.sampled_from([12, 20, 30]), k=st.sampled_from([4, 3, 6]), long=st.sampled_from(["sorted", "shuffled"]), cov=st.booleans(), seed=seeds()), quick=12, thorough=300, cost=8.0,
         rule="rows in arbitrary order", examples=[dict(n=12, k=4, seed=1, long="shuffled", cov=False)])
def icc(case, ctx):
    mod = importlib.import_module("pystatsm.misc.icc")
    rng = rng_of(case)
    n, k = case["n"], case["k"]
    Y = rng.standard_normal((n, 1)) + 0.6 * rng.standard_normal((1, k)) + 0.7 * rng.standard_normal((n, k)) + 3
    ctx.label(case["long"])
    ctx.nontrivial(case["long"] == "shuffled")
    g = Y.mean()
    a, b = Y.mean(1), Y.mean(0)
    msb, msj = k * ((a - g) ** 2).sum() / (n - 1), n * ((b - g) ** 2).sum() / (k - 1)
    mse = ((Y - a[:, None] - b + g) ** 2).sum() / ((n - 1) * (k - 1))
    if msb < 1.3 * mse or msj < 1.3 * mse:
        ctx.skip("a variance component at zero")
    i, j = np.meshgrid(range(n), range(k), indexing="ij")
    df = pd.DataFrame(dict(score=Y.ravel(), rater=j.ravel(), subj=i.ravel()))
    if case["long"] == "shuffled":
        df = df.sample(frac=1, random_state=case["seed"] % 1000)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m = mod.ICC("score", "rater", "subj", df, lmm_fit_kws=dict(opt_kws=dict(verbose=0, gtol=1e-9, xtol=1e-12)))
    rows, stats = icc_ref(msb, msj, mse, n, k)
    ctx.equal((list(m.res.index), list(m.res.columns)), (IR, ["ICC", "F", "df1", "df2"]), "labels")
    # the restricted likelihood of balanced data gives the mean squares
    ctx.close(m.res.values, rows, "coefficients", rtol=2e-3, atol=1e-4)
    ctx.close(np.nan_to_num(m.stats.values), np.nan_to_num(stats), "analysis of variance", rtol=5e-3, atol=1e-4)
