"""C24: robust M-, S- and scale estimators (pyrobust)."""
import math
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C24", "Robust M-, S- and scale estimators")
P.assumptions = ["M-estimates are judged where their residual scale is positive (a majority of the rows is not fitted exactly)"]

from pystatsm.pyrobust import m_estimators as me, dispersion_estimators as de  # noqa: E402
from pystatsm.pyrobust.rls import RobustLM, RobustSLM  # noqa: E402
from pystatsm.pyrobust.robust_model_sim import RobustRegressionModel  # noqa: E402

CS = st.sampled_from([1.345, 0.5, 4.685, 1.0, 2.5, 1.548])
XS = st.lists(st.one_of(st.floats(-6, 6), st.integers(-9, 9), st.sampled_from([0.0, 1e-9, 30.0, -1e6])), min_size=1, max_size=12)
NX, NW = np.polynomial.legendre.leggauss(60)


def hub(x, c):
    a = abs(x)
    return (x * x / 2, x, 1.0, 1.0) if a <= c else (c * (a - c / 2), math.copysign(c, x), 0.0, c / a)


def bis(x, c):
    u = x / c
    if abs(u) > 1:
        return 1.0, 0.0, 0.0, 0.0
    v = 1 - u * u
    return 1 - v ** 3, x * v * v, v * (1 - 5 * u * u), v * v


def ev(f, c):
    """E f(Z) for standard normal Z and f with kinks at +-c"""
    s = 0.0
    for a, b in [(-40, -c - 8), (-c - 8, -c - 3), (-c - 3, -c), (-c, 0), (0, c), (c, c + 3), (c + 3, c + 8), (c + 8, 40)]:
        x = (a + b) / 2 + (b - a) / 2 * NX
        s += (b - a) / 2 * np.sum(NW * np.array([f(t) for t in x]) * sp.stats.norm.pdf(x))
    return s


@P.facet("psi", dicts(kind=st.sampled_from(["huber", "bisquare"]), c=CS, how=st.sampled_from(["init", "arg", "default"]), x=XS, shape=st.sampled_from(["1d", "2d", "scalar", "list"])), quick=250, thorough=6000,
         examples=[dict(kind="huber", c=0.5, how="init", x=[2, -3, 0], shape="1d"), dict(kind="bisquare", c=2.5, how="arg", x=[1, 2, 3], shape="1d")],
         rule="some argument beyond the tuning constant and some inside")
def psi(case, ctx):
    kind, c, how = case["kind"], case["c"], case["how"]
    K, f = (me.Huber, hub) if kind == "huber" else (me.Bisquare, bis)
    if how == "default":
        c = 1.345 if kind == "huber" else 4.685
    M = K(c) if how == "init" else K()
    kw = {"c": c} if how == "arg" else {}
    xs = case["x"]
    if any(abs(abs(v) - c) < 1e-9 for v in xs):
        ctx.skip()
    ctx.label(kind, how, case["shape"], "integer" if all(isinstance(v, int) for v in xs) else "float")
    ins = sum(abs(v) < c for v in xs)
    ctx.nontrivial(0 < ins < len(xs))
    if case["shape"] == "scalar":
        xs = xs[:1]
        x = xs[0]
    elif case["shape"] == "list":
        x = list(xs)
    else:
        x = np.array(xs)
        if case["shape"] == "2d":
            x = x[:, None]
    want = np.array([f(float(v), c) for v in xs])
    x0 = np.array(x, copy=True)
    for j, name in enumerate(["rho", "psi", "phi", "weights"]):
        got = getattr(M, name)(x, **kw)
        ctx.close(np.ravel(got), want[:, j], name, rtol=1e-12, atol=1e-14)
        if case["shape"] in ("1d", "2d"):
            ctx.equal(np.shape(got), x.shape, f"{name} shape")
    ctx.equal(np.asarray(x).tolist(), x0.tolist(), "the argument is left alone")
    k = c ** 2 / 6 if kind == "bisquare" else 1.0
    arg = (c,) if how == "arg" else ()
    ctx.close(np.ravel(M.chi(x, 0, *arg)), want[:, 0], "chi", rtol=1e-12, atol=1e-14)
    ctx.close(np.ravel(M.chi(x, 1, *arg)), want[:, 1] / k, "chi' is the derivative of rho", rtol=1e-12, atol=1e-14)
    ctx.close(np.ravel(M.chi(x, 2, *arg)), want[:, 2] / k, "chi'' is its second derivative", rtol=1e-12, atol=1e-14)
    # the relations that make them an M-estimator
    h = 1e-5
    xa = np.asarray(xs, float)
    ok = (np.abs(np.abs(xa) - c) > 2 * h) & (np.abs(xa) < 50)
    if ok.any():
        d = (M.rho(xa + h, **kw) - M.rho(xa - h, **kw)) / (2 * h) * k
        ctx.close(np.ravel(M.psi(xa, **kw))[ok], d[ok], "psi is proportional to the slope of rho", rtol=1e-6, atol=1e-7)
        d = (M.psi(xa + h, **kw) - M.psi(xa - h, **kw)) / (2 * h)
        ctx.close(np.ravel(M.phi(xa, **kw))[ok], d[ok], "phi is the slope of psi", rtol=1e-6, atol=1e-7)
    ctx.close(np.ravel(M.weights(xa, **kw)) * xa, np.ravel(M.psi(xa, **kw)), "weights times argument", rtol=1e-12, atol=1e-14)
    for j, name in enumerate(["E_rho", "E_psi", "E_phi"]):
        ctx.close(np.ravel(getattr(M, name)(**kw))[0], ev(lambda t: f(t, c)[j], c), name, rtol=1e-6, atol=1e-7)
    ctx.close(np.ravel(M.E_psi2(**kw))[0], ev(lambda t: f(t, c)[1] ** 2, c), "E_psi2", rtol=1e-6, atol=1e-7)


def vals(case):
    rng = rng_of(case)
    n = case["n"]
    x = {"normal": lambda: rng.standard_normal(n), "cauchy": lambda: rng.standard_cauchy(n), "ties": lambda: rng.integers(-3, 4, n).astype(float), "int": lambda: rng.integers(-20, 20, n), "skew": lambda: rng.exponential(size=n)}[case["dist"]]()
    return rng, x


@P.facet("scale", dicts(seed=seeds(), n=st.sampled_from([10, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 20, 25, 40, 61]), dist=st.sampled_from(["normal", "cauchy", "ties", "int", "skew"]), corrected=st.booleans()), quick=250, thorough=6000,
         examples=[dict(seed=1, n=n, dist=d, corrected=c) for n in (2, 3, 9, 10, 11) for d in ("normal", "int") for c in (True, False)],
         rule="at least four values")
def scale(case, ctx):
    rng, x = vals(case)
    n, cor = case["n"], case["corrected"]
    ctx.label(case["dist"], f"n={n}" if n < 12 else "n>=12", f"corrected={cor}")
    ctx.nontrivial(n >= 4)
    xl = [float(v) for v in x]
    D = [[abs(a - b) for b in xl] for a in xl]
    pairs = sorted(D[i][j] for i in range(n) for j in range(i))
    x0 = x.copy()
    # Gini's mean difference
    g = math.fsum(pairs) / len(pairs) * (math.sqrt(math.pi) / 2 if cor else 1)
    for f in (de.gmd, de.gmd2, de.gmd3):
        r = f(x, cor)
        ctx.equal(np.size(r), 1, f"{f.__name__} size")
        ctx.close(np.ravel(r)[0], g, f.__name__, rtol=1e-10, atol=1e-12)
    X2 = np.c_[x, 2.0 * x + 1, x[::-1]]
    ctx.close(de.gmd3(X2, cor), np.array([g, 2 * g, g]), "gmd3 by column", rtol=1e-10, atol=1e-12)
    # Qn: the C(h, 2)-th smallest distance between pairs, h = [n/2] + 1
    h = n // 2 + 1
    q = pairs[h * (h - 1) // 2 - 1] * (1 / (math.sqrt(2) * sp.stats.norm.ppf(5 / 8)) if cor else 1)
    for f in (de.qn_estimator, de.qn_estimator2):
        ctx.close(np.ravel(f(x, cor))[0], q, f.__name__, rtol=1e-10, atol=1e-12)
    # plain medians
    s0 = np.median([np.median(r) for r in D]) * (1.1926 if cor else 1)
    for f in (de.sn_estimator, de.sn_estimator2):
        ctx.close(np.ravel(f(x, cor))[0], s0, f.__name__, rtol=1e-10, atol=1e-12)
    # Sn of Rousseeuw and Croux: lomed himed
    a = [sorted(r)[n // 2] for r in D]
    cn = 1.0
    if cor:
        cn = [0.743, 1.851, 0.954, 1.351, 0.993, 1.198, 1.005, 1.131][n - 2] if n < 10 else (n / (n - 0.9) if n % 2 else 1.0)
    s = 1.1926 * sorted(a)[(n + 1) // 2 - 1] * cn
    for f in (de.sn, de.sn_naive):
        r, aa = f(x, cor)
        ctx.close(r, s, f.__name__, rtol=1e-10, atol=1e-12)
        ctx.close(np.sort(np.asarray(aa, float)), np.sort(a), f"{f.__name__}: medians of the distances", rtol=1e-10, atol=1e-12)
    m = np.median(np.abs(np.asarray(xl) - np.median(xl)))
    ctx.close(de.mad(x), m / sp.stats.norm.ppf(0.75), "mad", rtol=1e-10, atol=1e-12)
    ctx.close(de.mad(x, cn=1.0), m, "mad with its own constant", rtol=1e-10, atol=1e-12)
    ctx.close(de.mad(X2, axis=0), np.array([m, 2 * m, m]) / sp.stats.norm.ppf(0.75), "mad by column", rtol=1e-10, atol=1e-12)
    ctx.close(np.ravel(de.mad(X2.T, axis=1)), np.array([m, 2 * m, m]) / sp.stats.norm.ppf(0.75), "mad by row", rtol=1e-10, atol=1e-12)
    ctx.equal(x.tolist(), x0.tolist(), "the data are left alone")
    # equivariance of all of them
    k, b = float(rng.choice([-3.0, 0.25, 7.0])), float(rng.choice([0.0, -100.0, 5.0]))
    z = rng.permutation(k * np.asarray(xl) + b)
    for f in (de.gmd, de.gmd2, de.gmd3, de.qn_estimator, de.qn_estimator2, de.sn_estimator, de.sn_estimator2, de.mad, lambda v: de.sn(v)[0], lambda v: de.sn_naive(v)[0]):
        ctx.close(np.ravel(f(z))[0], abs(k) * np.ravel(f(np.asarray(xl)))[0], "location invariant and scale equivariant", rtol=1e-9, atol=1e-10)


def estimator(case):
    return (me.Huber(c=case["c"]) if case["kind"] == "huber" else me.Bisquare(c=case["c"])), (hub if case["kind"] == "huber" else bis)


def bd_of(case):
    f = hub if case["kind"] == "huber" else bis
    return case["bd"] * (0.5 if case["kind"] == "bisquare" else ev(lambda t: f(t, case["c"])[0], case["c"]))


@P.facet("mscale", dicts(seed=seeds(), n=st.sampled_from([30, 8, 15, 60]), dist=st.sampled_from(["normal", "cauchy", "int", "skew"]), kind=st.sampled_from(["bisquare", "huber"]), c=st.sampled_from([1.548, 1.345, 2.5, 4.685]), bd=st.sampled_from([1.0, 0.6, 0.8])), quick=150, thorough=4000,
         rule="at least one residual beyond the tuning constant")
def mscale(case, ctx):
    rng, x = vals(case)
    r = x - np.median(x)
    M, f = estimator(case)
    c, bd = case["c"], bd_of(case)
    ctx.label(case["kind"], case["dist"])
    if np.mean(r == 0) > 0.25:
        ctx.skip()

    def eq(s):
        return np.mean([f(float(v) / s, c)[0] for v in r]) - bd
    s = M.m_estimate_scale(r, bd=bd, n_iters=4000, tol=1e-13)
    ctx.check(s > 0 and abs(eq(s)) < 1e-7 * max(1, bd), f"mean rho(r / s) = {eq(s) + bd} instead of {bd}")
    if case["kind"] == "bisquare" or True:
        lo, hi = 1e-8, 1e8
        s0 = sp.optimize.brentq(eq, lo, hi, xtol=1e-14, rtol=1e-13)
        ctx.close(s, s0, "the M-estimate of scale", rtol=1e-6)
    ctx.nontrivial(bool(np.any(np.abs(r / s) > c)))
    k = float(rng.choice([3.0, 0.1, 50.0]))
    ctx.close(M.m_estimate_scale(k * r, bd=bd, n_iters=4000, tol=1e-13), k * s, "scale equivariance", rtol=1e-7)
    ctx.close(M.m_estimate_scale(r, scale=float(s), bd=bd, n_iters=1), s, "the solution is a fixed point", rtol=1e-7)
    s1 = de.mad(r)
    if s1 > 0:
        ctx.close(M.m_estimate_scale(r, bd=bd), np.sqrt(s1 ** 2 * (eq(s1) + bd) / bd), "one step", rtol=1e-9)
    # location and scale together
    out = me.estimate_simultaneous(np.asarray(x), func=M, d=bd, n_iters=3000, tol=1e-13)
    fv, mu, sd = [float(np.ravel(v)[0]) for v in out]
    u = [(float(v) - mu) / sd for v in x]
    if sd > 1e-6 * s:
        ctx.close(np.mean([f(t, c)[0] for t in u]), bd, "simultaneous: mean rho", rtol=1e-4)
        ctx.check(abs(np.mean([f(t, c)[1] for t in u])) < 1e-4, "simultaneous: mean psi is not zero")
        hist = me.estimate_simultaneous(np.asarray(x), func=M, d=bd, n_iters=3000, tol=1e-13, rethist=True)
        ctx.equal(len({len(h) for h in hist}), 1, "histories of one length")
        ctx.close([h[-1] for h in hist], [fv, mu, sd], "the history ends at the estimate", rtol=1e-12)
        ctx.close(hist[1][0], np.median(x), "the history starts at the median", rtol=1e-12, atol=1e-12)


LM = {"seed": seeds(), "n": st.sampled_from([60, 30, 120]), "p": st.sampled_from([2, 1, 3]), "dist": st.sampled_from(["normal", "t2", "outliers", "hetero"]), "unit": st.sampled_from([1.0, 1e-2, 1e3]), "shift": st.sampled_from([0.0, 5.0]), "form": st.sampled_from(["plain", "factor", "noint", "inter"])}


def reg(case):
    rng = rng_of(case)
    n, p = case["n"], case["p"]
    df = pd.DataFrame(rng.standard_normal((n, p)) + case["shift"], columns=[f"x{i}" for i in range(p)])
    df["g"] = rng.permutation(np.resize(["a", "b", "c"], n))
    rhs = {"plain": "1", "factor": "g", "noint": "0", "inter": "x0:g"}[case["form"]] + "".join(f" + x{i}" for i in range(p) if not (case["form"] == "inter" and i == 0))
    e = {"normal": lambda: rng.standard_normal(n), "t2": lambda: rng.standard_t(2, n), "outliers": lambda: rng.standard_normal(n) + 20 * (rng.uniform(size=n) < 0.15), "hetero": lambda: rng.standard_normal(n) * np.exp(0.7 * rng.standard_normal(n))}[case["dist"]]()
    df["y"] = case["unit"] * (df[[f"x{i}" for i in range(p)]].values @ rng.uniform(-2, 2, p) + 1.5 * (df.g == "b") + e)
    return rng, df, "y ~ " + rhs


def design(df, case):
    n = len(df)
    g = df["g"].values
    xs = [df[f"x{i}"].values for i in range(case["p"])]
    f = case["form"]
    c = [] if f == "noint" else [np.ones(n)]
    if f == "factor":
        c += [(g == "b") * 1.0, (g == "c") * 1.0]
    if f == "inter":
        c += [xs[0] * (g == l) for l in "abc"]
        xs = xs[1:]
    return np.column_stack(c + xs)


@P.facet("huber_lm", dicts(**LM, c=st.sampled_from([None, 1.0, 2.0]), meth=st.sampled_from(["default", "tight"])), quick=60, thorough=1600, cost=2.0,
         rule="some residual beyond the tuning constant at the estimate")
def huber_lm(case, ctx):
    rng, df, fm = reg(case)
    X = design(df, case)
    y = df["y"].values
    n, p = X.shape
    c = 1.345 if case["c"] is None else case["c"]
    kw = {} if case["c"] is None else {"c": case["c"]}
    m = RobustLM(fm, df.copy(), **kw)
    ctx.close(m.X, X, "design", atol=1e-12)
    ctx.label(case["dist"], case["form"], f"c={case['c']}", case["meth"])
    h = np.vectorize(lambda t: hub(t, c)[0])
    hp = np.vectorize(lambda t: hub(t, c)[1])
    hpp = np.vectorize(lambda t: hub(t, c)[2])

    def obj(t, a=0.5):
        s = np.exp(t[-1])
        r = (y - X @ t[:-1]) / s
        return float(np.sum(h(r) * s + a * s))
    t = m.theta_init + 0.2 * rng.standard_normal(p + 1) * np.r_[np.full(p, case["unit"]), 1]
    for a in (None, 0.8):
        aa = 0.5 if a is None else a
        ctx.close(m.rho(t, a), obj(t, aa), "objective", rtol=1e-10)
        sc = np.r_[np.full(p, case["unit"]), 1.0]

        def scaled(v):
            return obj(v * sc, aa) / case["unit"]
        ctx.close(m.grad(t, a) * sc / case["unit"], num.grad(scaled, t / sc), "gradient", rtol=1e-4, atol=1e-3)
        r = np.abs((y - X @ t[:-1]) / np.exp(t[-1]))
        if np.min(np.abs(r - c)) > 2e-3:
            H = num.jac(lambda v: m.grad(v * sc, a) * sc / case["unit"], t / sc)
            if H.size and np.min(np.abs(r - c)) > 2e-2:
                ctx.close(m.hessian(t, a) * np.outer(sc, sc) / case["unit"], H, "Hessian", rtol=1e-4, atol=1e-3)
    before = (m.rho(t), m.theta_init.copy())
    try:
        m.fit(**({} if case["meth"] == "default" else {"opt_kws": dict(method="trust-exact", options=dict(gtol=1e-9 * case["unit"], maxiter=2000))}))
    except np.linalg.LinAlgError:
        ph = hpp((y - X @ m.theta[:-1]) / np.exp(m.theta[-1]))
        ctx.check(not (ph > 0).any() or np.linalg.matrix_rank(X[ph > 0]) < p, "no result although the rows inside the tuning constant identify the coefficients")
        ctx.skip("too few rows inside the tuning constant")
    ctx.close(m.rho(t), before[0], "fitting changes the objective", rtol=1e-12)
    # an independent minimisation of the (jointly convex in (beta, s)) criterion
    from scipy.optimize import minimize
    best = None
    u = case["unit"]
    z = np.r_[np.linalg.lstsq(X, y, rcond=None)[0] / u, np.log(np.std(y - X @ np.linalg.lstsq(X, y, rcond=None)[0]) / u + 1e-9)]
    for _ in range(400):
        s = np.exp(z[-1]) * u
        r = (y - X @ z[:-1] * u) / s
        w = np.where(np.abs(r) <= c, 1.0, c / np.maximum(np.abs(r), 1e-300))
        b = np.linalg.lstsq(X * np.sqrt(w)[:, None], y * np.sqrt(w), rcond=None)[0]
        r = (y - X @ b) / s
        # d/ds sum rho(r0/s) s + a s = 0
        r0 = y - X @ b

        def ds(ls):
            v = r0 / np.exp(ls)
            return np.sum(h(v) - hp(v) * v + 0.5)
        lo, hi = np.log(s) - 8, np.log(s) + 8
        if ds(lo) * ds(hi) > 0:
            ctx.skip()
        ls = sp.optimize.brentq(ds, lo, hi, xtol=1e-14)
        z2 = np.r_[b / u, ls - np.log(u)]
        if np.max(np.abs(z2 - z)) < 1e-12:
            z = z2
            break
        z = z2
    ref = obj(np.r_[z[:-1] * u, z[-1] + np.log(u)]) / u
    ctx.close(m.rho(m.theta) / u, ref, "the fit minimises the objective", rtol=1e-6 if case["meth"] == "tight" else 1e-4)
    s = np.exp(m.theta[-1])
    b = m.theta[:-1]
    res = y - X @ b
    v = res / s
    ctx.nontrivial(bool(np.any(np.abs(v) > c)))
    ctx.close(m.beta, b, "coefficients")
    ctx.close(m.scale, s, "scale")
    # Huber's three covariances and the summary
    ps, ph = hp(v), hpp(v)
    if np.min(np.abs(np.abs(v) - c)) < 1e-6 or ph.sum() < p + 2:
        ctx.skip()
    mph = ph.mean()
    K = 1 + p / n * np.var(ph) / mph ** 2
    E = np.sum(ps ** 2) / (n - p) * s ** 2
    G = np.linalg.inv(X.T @ X)
    W = np.linalg.inv(X.T @ (ph[:, None] * X))
    se = np.array([np.sqrt(np.diag(V)) for V in (K ** 2 * E / mph ** 2 * G, K * E / mph * W, E / K * W @ X.T @ X @ W)]).T
    ctx.close(m.se_beta, se, "standard errors", rtol=1e-6)
    ctx.close(m.res[["SE1", "SE2", "SE3"]].values, se, "table of standard errors", rtol=1e-6)
    ctx.close(m.res["beta"].values, b, "table of coefficients", rtol=1e-9, atol=1e-12)
    ctx.close(m.res[["t1", "t2", "t3"]].values, b[:, None] / se, "t statistics", rtol=1e-6, atol=1e-12)
    ctx.close(m.res[["p1", "p2", "p3"]].values, 2 * sp.stats.t.sf(np.abs(b[:, None] / se), n - p), "p values", rtol=1e-5, atol=1e-12)
    ctx.equal(list(m.res.index), list(m.Xdf.columns), "labels")
    r1 = np.sum(h(v))
    r0 = np.sum(h((y - np.median(y)) / s))
    A = 2 * (E / s ** 2) / mph
    ctx.close(np.ravel(m.sumstats.values), [1 - r1 / r0, 2 * s ** 2 * r1, 2 * r1 + A * p, 2 * r1 + np.log(n) * p], "summary statistics", rtol=1e-6, atol=1e-9)


@P.facet("irwls", dicts(**LM, c=st.sampled_from([None, 1.0, 2.0]), scale=st.sampled_from(["mad", "huber"])), quick=80, thorough=2000, cost=1.5,
         rule="some residual beyond the tuning constant at the estimate")
def irwls(case, ctx):
    rng, df, fm = reg(case)
    X = design(df, case)
    y = df["y"].values
    n, p = X.shape
    c = 1.345 if case["c"] is None else case["c"]
    m = RobustLM(fm, df.copy(), **({} if case["c"] is None else {"c": case["c"]}))
    ctx.label(case["dist"], case["form"], f"c={case['c']}", case["scale"])
    t, hist = m.irwls(scale=case["scale"], n_iters=2000)
    hp = np.vectorize(lambda q: hub(q, c)[1])
    h = np.vectorize(lambda q: hub(q, c)[0])
    ctx.finite(t, "estimate")
    res = y - X @ t[:-1]
    s = np.exp(t[-1])
    ctx.check(len(hist) >= 1, "an empty history")
    ctx.nontrivial(bool(np.any(np.abs(res / s) > c)))
    if len(hist) >= 2000:
        ctx.label("not converged")
        ctx.skip()
    if case["scale"] == "mad":
        ctx.close(s, np.median(np.abs(res - np.median(res))) / sp.stats.norm.ppf(0.75), "the scale is the MAD of the residuals", rtol=1e-6)
    else:
        v = res / s
        ctx.close(np.sum(hp(v) ** 2) / (n - p), ev(lambda q: hub(q, c)[1] ** 2, c), "Huber's second equation", rtol=1e-5)
    g = X.T @ hp(res / s) / (np.linalg.norm(X, axis=0) * np.sqrt(n))
    ctx.check(np.max(np.abs(g)) < 1e-6, f"the estimating equations are not solved: {g}")
    # equivariance
    k = float(rng.choice([3.0, 0.1]))
    gm = rng.uniform(-2, 2, p)
    df2 = df.copy()
    df2["y"] = k * (y + X @ gm)
    m2 = RobustLM(fm, df2, **({} if case["c"] is None else {"c": case["c"]}))
    t2, _ = m2.irwls(scale=case["scale"], n_iters=2000)
    sd = s / np.linalg.norm(X, axis=0)
    ctx.close(t2[:-1] / k / sd, (t[:-1] + gm) / sd, "regression and scale equivariance", rtol=1e-4, atol=1e-4)
    ctx.close(t2[-1], t[-1] + np.log(k), "scale equivariance", atol=1e-5)


@P.facet("s_lm", dicts(seed=seeds(), n=st.sampled_from([60, 40, 100]), p=st.sampled_from([1, 2]), dist=st.sampled_from(["normal", "t2", "outliers"]), unit=st.sampled_from([1.0, 1e-2, 1e3]), shift=st.just(0.0), form=st.sampled_from(["plain", "factor", "noint"]), c=st.sampled_from([1.548, 2.0]), bad=st.sampled_from([0.0, 0.25, 0.35]), refine=st.sampled_from([2, 0, 5])), quick=30, thorough=900, cost=4.0,
         rule="gross outliers present")
def s_lm(case, ctx):
    rng, df, fm = reg(case)
    X = design(df, case)
    y = df["y"].values.copy()
    n, p = X.shape
    bad = rng.uniform(size=n) < case["bad"]
    y0 = y.copy()
    y[bad] += case["unit"] * 500 * (1 + rng.uniform(size=bad.sum()))
    df["y"] = y
    c = case["c"]
    bd = 0.5
    m = RobustSLM(fm, df.copy(), c=c)
    ctx.label(case["dist"], case["form"], f"bad={case['bad']}", f"refine={case['refine']}")
    ctx.nontrivial(bool(bad.sum() > 3))
    s, b = m.fit(n_refining=case["refine"], rng=np.random.default_rng(case["seed"]))
    ctx.finite(b, "coefficients")
    rho = np.vectorize(lambda q: bis(q, c)[0])
    r = y - X @ b
    ctx.close(np.mean(rho(r / s)), bd, "mean rho(residual / scale)", atol=0.01)

    def msc(r):
        f = lambda q: np.mean(rho(r / np.exp(q))) - bd
        return np.exp(sp.optimize.brentq(f, np.log(np.median(np.abs(r)) + 1e-12) - 5, np.log(np.max(np.abs(r))) + 5, xtol=1e-12))
    s0 = msc(y - X @ np.linalg.lstsq(X, y, rcond=None)[0])
    ctx.check(s <= s0 * 1.01, f"the scale {s} exceeds that of least squares {s0}")
    if bad.any() and (~bad).mean() > 0.6 and c < 1.6 and case["dist"] == "normal":
        e = (y0 - X @ np.linalg.lstsq(X[~bad], y[~bad], rcond=None)[0])[~bad]
        bc = np.linalg.lstsq(X[~bad], y[~bad], rcond=None)[0]
        sd = np.std(e)
        ctx.check(np.max(np.abs(X[~bad] @ (b - bc))) < 8 * sd, "gross outliers carry the S-estimate away")
    m1 = RobustSLM(fm, df.copy(), c=c)
    s1, b1 = m1.fit(n_refining=case["refine"], rng=np.random.default_rng(case["seed"]))
    ctx.close(b1, b, "reproducible", rtol=1e-12)
    ctx.close(s1, s, "reproducible scale", rtol=1e-12)


@P.facet("sim", dicts(seed=seeds(), n=st.sampled_from([60, 5, 300]), p=st.sampled_from([4, 1, 2, 5, 8]), nnz=st.sampled_from([1, 2, 3, 4, 5]), rho=st.sampled_from([None, 0.5, -0.3]), rsq=st.sampled_from([None, 0.2, 0.9]), how=st.sampled_from(["nnz", "beta", "vals", "xcov"]), src=st.sampled_from(["seed", "rng"])), quick=100, thorough=2500,
         examples=[dict(seed=1, n=60, p=5, nnz=k, rho=None, rsq=None, how="nnz", src=s) for k in (2, 3) for s in ("seed", "rng")],
         rule="two or more nonzero coefficients")
def sim(case, ctx):
    rng = rng_of(case)
    n, p, k = case["n"], case["p"], min(case["nnz"], case["p"])
    kw = dict(n_obs=n, rho=case["rho"], rsq=case["rsq"])
    beta = None
    if case["how"] == "beta":
        beta = np.where(np.arange(p) < k, rng.uniform(0.5, 2, p), 0.0)
        kw["beta"] = beta
    else:
        kw.update(n_var=p, n_nnz=k)
        if case["how"] == "vals":
            kw["beta_vals"] = rng.uniform(0.5, 2, k)
    S = (0.0 if case["rho"] is None else case["rho"]) ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))
    if case["how"] == "xcov":
        S = num.spd(rng, p)
        kw["x_cov"] = S

    def make():
        np.random.seed(rng.integers(2**31))
        return RobustRegressionModel(**kw, **({"seed": case["seed"] % 2**31} if case["src"] == "seed" else {"rng": np.random.default_rng(case["seed"])}))
    m, m2 = make(), make()
    ctx.label(case["how"], case["src"])
    ctx.nontrivial(k > 1)
    ctx.equal(m.X.shape, (n, p), "shape")
    ctx.close(m2.X, m.X, "predictors reproducible by seed", rtol=1e-12)
    y, y2 = m.simulate_dependent(), m2.simulate_dependent()
    ctx.close(y2, y, "responses reproducible by seed", rtol=1e-12)
    ctx.equal(y.shape, (n,), "response shape")
    ctx.equal(m.simulate_dependent(3).shape, (n, 3), "responses shape")
    if n > p:
        ctx.close(np.cov(m.X, rowvar=False, bias=True).reshape(p, p), S, "predictor covariance", rtol=1e-8, atol=1e-8)
    if beta is None:
        ctx.equal(int(np.sum(m.beta != 0)), k, "number of nonzero coefficients")
        if case["how"] == "vals":
            ctx.close(m.beta[m.beta != 0], kw["beta_vals"], "coefficients")
        else:
            ctx.close(m.beta[m.beta != 0], np.resize([1.0, -1.0], k), "coefficients alternate")
    else:
        ctx.close(m.beta, beta, "coefficients")
    ctx.close(m.lpred, m.X @ m.beta, "linear predictor", atol=1e-10)
    q = 0.5 if case["rsq"] is None else case["rsq"]
    v = np.var(m.lpred)
    ctx.close(v / (v + m.resid_scale ** 2), q if v > 0 else 0.0, "share of variance", rtol=1e-8)
    ctx.equal(list(m.data.columns), [f"x{i}" for i in range(p)] + ["y"], "columns")
    if n < p + 2:
        return
    m.data["y"] = y
    r = RobustLM(m.formula, m.data)
    ctx.equal(r.n_var, p + 1, "the formula fits the data")
