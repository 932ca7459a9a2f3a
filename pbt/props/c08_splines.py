"""C08: spline bases and penalties represent the spline space and roughness functional they name."""
import numpy as np
import scipy as sp
import scipy.interpolate
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts
from .. import num

P = Property("C08", "Spline bases evaluate the named spline and penalties equal its integrated squared curvature")
P.assumptions = ["covariates with more distinct values than knots; knots separated by at least 1e-3 of the range",
                 "oracle: scipy.interpolate CubicSpline / BSpline with exact piecewise integration"]


def S():
    from pystatsm.utilities import splines
    return splines


def xs(rng, n, ties):
    x = rng.uniform(-2, 3, n)
    if ties:
        x = np.round(x, 1)
    return x


def rough(f2, knots):
    """integral of f''^2 for piecewise-linear f'' (Simpson per interval is exact)"""
    a, b = knots[:-1], knots[1:]
    e = (b - a) * 1e-12
    fa, fm, fb = f2(a + e), f2((a + b) / 2), f2(b - e)
    return np.sum((b - a) / 6 * (fa ** 2 + 4 * fm ** 2 + fb ** 2))


CASE = dicts(df=st.integers(4, 12), n=st.integers(30, 80), ties=st.booleans(), seed=seeds())


@P.facet("cubic_regression", CASE, quick=300, rule="df >= 5")
def cr(case, ctx):
    u, rng, df = S(), rng_of(case), case["df"]
    x = xs(rng, case["n"], case["ties"])
    X, Pn, knots, kws = u._get_crsplines(x, df)
    if np.diff(knots).min() < 1e-3:
        ctx.skip("close knots")
    ctx.nontrivial(df >= 5)
    ctx.check(X.shape == (len(x), df) and Pn.shape == (df, df), "shapes")
    ctx.close(knots, np.quantile(np.unique(x), np.linspace(0, 1, df)), "knots at quantiles of the distinct values")
    b = rng.standard_normal(df)
    f = sp.interpolate.CubicSpline(knots, b, bc_type="natural")
    ctx.close(X @ b, f(x), "basis = natural cubic spline through the knot values", rtol=1e-8)
    w = 0.2 * np.ptp(knots)
    xn = np.r_[rng.uniform(knots[0], knots[-1], 20), knots, rng.uniform(knots[0] - w, knots[0], 2), rng.uniform(knots[-1], knots[-1] + w, 2)]
    ctx.close(u.crspline_basis(xn, knots, **kws) @ b, f(xn), "basis at new points, at the knots and beyond them", rtol=1e-8)
    ctx.close(u.crspline_basis(knots, knots, **kws), np.eye(df), "basis at the knots is the identity", rtol=0, atol=1e-9)
    ctx.close(X.sum(axis=1), np.ones(len(x)), "constants reproduced", rtol=0, atol=1e-9)
    ctx.close(X @ knots, x, "linear functions reproduced", rtol=0, atol=1e-8)
    ctx.close(b @ Pn @ b, rough(lambda t: f(t, 2), knots), "penalty = integrated squared second derivative", rtol=1e-7)
    ctx.close(Pn, Pn.T, "penalty symmetric", rtol=1e-9)
    ctx.close(Pn @ np.c_[np.ones(df), knots], np.zeros((df, 2)), "penalty null space", rtol=0, atol=1e-8 * np.abs(Pn).max() * np.abs(knots).max())


@P.facet("cyclic_cubic", CASE, quick=300, rule="df >= 5")
def cc(case, ctx):
    u, rng, df = S(), rng_of(case), case["df"]
    x = xs(rng, case["n"], case["ties"])
    X, Pn, knots, kws = u._get_ccsplines(x, df)
    if np.diff(knots).min() < 1e-3:
        ctx.skip("close knots")
    ctx.nontrivial(df >= 5)
    ctx.check(X.shape == (len(x), df - 1), "shape")
    ctx.check(abs(knots[0] - x.min()) < 1e-12 and abs(knots[-1] - x.max()) < 1e-12, "end knots at the range")
    xu = np.unique(x)
    ctx.close(knots, np.interp(np.linspace(0, len(xu) - 1, df), np.arange(len(xu)), xu), "knots at interpolated order statistics", rtol=1e-9)
    b = rng.standard_normal(df - 1)
    f = sp.interpolate.CubicSpline(knots, np.r_[b, b[0]], bc_type="periodic")
    ctx.close(X @ b, f(x), "basis = periodic cubic spline through the knot values", rtol=1e-7)
    xn = np.r_[rng.uniform(knots[0], knots[-1], 20), knots]
    ctx.close(u.ccspline_basis(xn, knots, **kws) @ b, f(xn), "basis at new points and knots", rtol=1e-7)
    ctx.close(X.sum(axis=1), np.ones(len(x)), "constants reproduced", rtol=0, atol=1e-9)
    ctx.close(b @ Pn @ b, rough(lambda t: f(t, 2), knots), "penalty = integrated squared second derivative", rtol=1e-6)
    ctx.close(Pn @ np.ones(df - 1), np.zeros(df - 1), "constants unpenalised", rtol=0, atol=1e-8 * np.abs(Pn).max())


@P.facet("bspline", CASE, quick=300, rule="df >= 6")
def bs(case, ctx):
    u, rng, df = S(), rng_of(case), case["df"]
    x = xs(rng, case["n"], case["ties"])
    X, Pn, knots, kws = u._get_bsplines(x, df)
    ctx.nontrivial(df >= 6)
    ctx.check(X.shape == (len(x), df) and Pn.shape == (df, df), f"shapes {X.shape} {Pn.shape}")
    b = rng.standard_normal(df)
    f = sp.interpolate.BSpline(knots, b, 3)
    ctx.close(X @ b, f(x), "basis = B-spline with the same knots", rtol=1e-8)
    ctx.close(X.sum(axis=1), np.ones(len(x)), "partition of unity", rtol=0, atol=1e-9)
    ctx.check(X.min() > -1e-12, "B-splines nonnegative")
    for d in (1, 2):
        ctx.close(u.bspline_basis(x, knots, deriv=d) @ b, f(x, d), f"derivative {d}", rtol=1e-7, atol=1e-8)
    ctx.close(b @ Pn @ b, rough(lambda t: f(t, 2), knots[3:-3]), "penalty = integrated squared second derivative", rtol=1e-6)


@P.facet("constraints_and_gcv", dicts(p=st.integers(2, 8), n=st.integers(15, 40), la=st.floats(-3, 3), gamma=st.floats(1.0, 1.6), seed=seeds()), quick=300,
         rule="p >= 3")
def gcv(case, ctx):
    u, rng, p, n = S(), rng_of(case), case["p"], case["n"]
    ctx.nontrivial(p >= 3)
    X, y = rng.standard_normal((n, p)), rng.standard_normal(n)
    A = rng.standard_normal((p, p + 1))
    Q = A @ A.T
    q, _ = np.linalg.qr(X.mean(0).reshape(-1, 1), mode="complete")
    Xc, Sc = u.absorb_constraints(q, X=X, S=Q)
    ctx.close(Xc.mean(0), np.zeros(p - 1), "constrained basis columns have zero mean", rtol=0, atol=1e-12)
    ctx.close(Xc, X @ q[:, 1:], "constrained basis")
    ctx.close(Sc, q[:, 1:].T @ Q @ q[:, 1:], "constrained penalty")
    D = u.difference_mat(p + 2, 2)
    v = rng.standard_normal(p + 2)
    ctx.close(D @ v, np.diff(v, 2), "difference_mat")
    sc = u.get_penalty_scale(X, Q)
    ctx.close(sc, np.abs(Q).sum(0).max() / np.abs(X).sum(1).max() ** 2, "get_penalty_scale")
    a, g = float(np.exp(case["la"])), case["gamma"]
    H = X @ np.linalg.solve(X.T @ X + a * Q, X.T)
    r = y - H @ y
    if n - g * np.trace(H) < 1:
        ctx.skip("gcv denominator near zero")
    ctx.close(u.gcv(a, X, y, Q), n * r @ r / (n - np.trace(H)) ** 2, "gcv")
    ctx.close(u.double_gcv(a, X, y, Q, gamma=g), n * r @ r / (n - g * np.trace(H)) ** 2, "double_gcv")
    want = num.grad(lambda z: u.gcv(z[0], X, y, Q), [a], h=1e-2 * a)
    ctx.close(u.grad_gcv(a, X, y, Q), want, "grad_gcv", rtol=1e-5, atol=1e-8)
    want = num.grad(lambda z: u.double_gcv(z[0], X, y, Q, gamma=g), [a], h=1e-2 * a)
    ctx.close(u.grad_double_gcv(a, X, y, Q, gamma=g), want, "grad_double_gcv", rtol=1e-5, atol=1e-8)
