"""C27: canonical correlation, sparse canonical correlation, independent components and convolutive NMF."""
import itertools
import numpy as np
import pandas as pd
import scipy as sp
import scipy.linalg
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num
from pystatsm.pyscca import base_cca, cca_sim, scca
from pystatsm.pyica import ica
from pystatsm.pynmf import hfuncs as nm

P = Property("C27", "Canonical, sparse, independent and nonnegative components")
P.assumptions = ["sources of different, clearly non-Gaussian shapes in the recovery checks", "sparse weights judged where the thresholds leave a vector of norm above 0.05, the constant of the code"]


def data2(case, rng):
    n, p, q = case["n"], case["p"], case["q"]
    L = rng.standard_normal((p + q, p + q))
    Z = rng.standard_normal((n, p + q)) @ L + rng.uniform(-50, 50, p + q)
    Z = Z * 10.0 ** rng.integers(-2, 3, p + q)
    X, Y = Z[:, :p], Z[:, p:]
    return X, Y


def std(A):
    return (A - A.mean(0)) / A.std(0)


@P.facet("cca", dicts(seed=seeds(), n=st.sampled_from([60, 25, 200]), p=st.sampled_from([3, 2, 4, 1]), q=st.sampled_from([3, 4, 2, 1]), k=st.sampled_from([None, 1, 2]), inp=st.sampled_from(["array", "frame"]), collinear=st.booleans()), quick=120, thorough=4000, rule="two or more canonical pairs",
         examples=[dict(seed=1, n=60, p=4, q=2, k=None, inp="frame", collinear=False), dict(seed=1, n=60, p=3, q=3, k=None, inp="array", collinear=True)])
def cca(case, ctx):
    rng = rng_of(case)
    X, Y = data2(case, rng)
    p, q, n = case["p"], case["q"], case["n"]
    if case["collinear"]:
        X = np.c_[X, X @ rng.uniform(-1, 1, p) / X.std(0).max()]
    px = X.shape[1]
    m0 = min(p, q)
    k = None if case["k"] is None else min(case["k"], m0)
    X0 = X.copy()
    if case["inp"] == "frame":
        ix = [f"r{i}" for i in range(n)]
        m = base_cca.CCA(pd.DataFrame(X, columns=[f"a{i}" for i in range(px)], index=ix), pd.DataFrame(Y, columns=[f"b{i}" for i in range(q)], index=ix))
    else:
        m = base_cca.CCA(X, Y)
    m._fit(n_comps=k)
    ctx.equal(X.tolist(), X0.tolist(), "the data are left alone")
    ctx.label("collinear" if case["collinear"] else "full rank", "p>q" if px > q else "p<=q")
    kk = m.Wx.shape[1]
    ctx.equal(kk, k if k is not None else min(px, q), "number of components")
    ctx.nontrivial(min(kk, m0) > 1)
    Zx, Zy = std(X), std(Y)
    Qx = np.linalg.svd(Zx, full_matrices=False)[0][:, :p]
    Qy = np.linalg.svd(Zy, full_matrices=False)[0][:, :q]
    rho = np.linalg.svd(Qx.T @ Qy, compute_uv=False)
    kt = min(kk, m0)
    ctx.close(m.rhos[:kt], rho[:kt], "canonical correlations", atol=1e-6 if case["collinear"] else 1e-9)
    ctx.check(np.all(np.asarray(m.rhos)[m0:] < 1e-6), "a canonical correlation beyond the rank")
    ctx.close(m.Sxy, Zx.T @ Zy / n, "cross correlations", atol=1e-10)
    A, B = m.Wx[:, :kt], m.Wy[:, :kt]
    tol = 1e-5 if case["collinear"] else 1e-8
    ctx.close(A.T @ (Zx.T @ Zx / n) @ A, np.eye(kt), "variance of the x variates", atol=tol)
    ctx.close(B.T @ (Zy.T @ Zy / n) @ B, np.eye(kt), "variance of the y variates", atol=tol)
    ctx.close(A.T @ (Zx.T @ Zy / n) @ B, np.diag(rho[:kt]), "covariance of the variates", atol=tol)
    ctx.close(m.Zx[:, :kt], Zx @ A, "x variates", atol=1e-8 * (1 + np.abs(A).max()))
    ctx.close(m.Zy[:, :kt], Zy @ B, "y variates", atol=1e-8 * (1 + np.abs(B).max()))
    ctx.close(m.Z, np.c_[m.Zx, m.Zy], "all variates", rtol=1e-12)
    ctx.close(m.Lx[:, :kt], Zx.T @ m.Zx[:, :kt] / n, "x loadings", atol=1e-6)
    ctx.close(m.Ly[:, :kt], Zy.T @ m.Zy[:, :kt] / n, "y loadings", atol=1e-6)
    if kt == kk and not case["collinear"]:
        for Pm, W in ((m.PWx, m.Wx), (m.PWy, m.Wy), (m.PLx, m.Lx), (m.PLy, m.Ly)):
            ctx.close(Pm, W @ np.linalg.pinv(W), "projection", atol=1e-6)
    u = [f"u{i + 1}" for i in range(kk)]
    v = [f"v{i + 1}" for i in range(kk)]
    for D, W, c in ((m.x_coefs, m.Wx, u), (m.y_coefs, m.Wy, v), (m.x_loadings, m.Lx, u), (m.y_loadings, m.Ly, v), (m.x_canvar, m.Zx, u), (m.y_canvar, m.Zy, v), (m.canvar, m.Z, u + v)):
        ctx.close(D.values, W, "table", rtol=1e-12)
        ctx.equal(list(D.columns), c, "column labels")
    if case["inp"] == "frame":
        ctx.equal((list(m.x_coefs.index), list(m.y_loadings.index), list(m.canvar.index)), ([f"a{i}" for i in range(px)], [f"b{i}" for i in range(q)], ix), "row labels")
    a, b = m.predict(Zx[:5], Zy[:5])
    ctx.close(a, Zx[:5] @ m.Wx, "predicted x variates", atol=1e-8 * (1 + np.abs(m.Wx).max()))
    # invariance under invertible linear maps of either set
    if not case["collinear"]:
        m2 = base_cca.CCA(X @ (np.eye(px) + 0.3 * rng.uniform(-1, 1, (px, px)) / px) + 5, -2 * Y)
        m2._fit()
        if np.max(X.std(0)) / np.min(X.std(0)) < 1e3:
            ctx.close(m2.rhos[:m0], rho[:m0], "invariance of the canonical correlations", atol=1e-6)


@P.facet("simcca", dicts(seed=seeds(), p=st.sampled_from([2, 1, 3, 4]), dq=st.sampled_from([0, 1, 2]), rhos=st.booleans(), corr=st.booleans(), coefs=st.booleans(), exact=st.booleans(), src=st.sampled_from(["seed", "rng"])), quick=80, thorough=2500, rule="two or more pairs",
         examples=[dict(seed=1, p=2, dq=1, rhos=True, corr=True, coefs=False, exact=True, src=s) for s in ("seed", "rng")])
def simcca(case, ctx):
    rng = rng_of(case)
    p, q = case["p"], case["p"] + case["dq"]
    kw = {}
    rh = np.sort(rng.uniform(0.1, 0.9, p))[::-1]
    if case["rhos"] or case["coefs"]:
        kw["rhos"] = rh
    Sx, Sy = num.corr(rng, p), num.corr(rng, q)
    if case["corr"] or case["coefs"]:
        kw.update(x_corr=Sx, y_corr=Sy)
    if case["coefs"]:
        Rx, Ry = np.linalg.cholesky(Sx), np.linalg.cholesky(Sy)
        kw["x_coefs"] = np.linalg.solve(Rx.T, np.linalg.qr(rng.standard_normal((p, p)))[0]) * rng.uniform(0.5, 3, p)
        kw["y_coefs"] = np.linalg.solve(Ry.T, np.linalg.qr(rng.standard_normal((q, q)))[0][:, :p]) * rng.uniform(0.5, 3, p)

    def make():
        np.random.seed(rng.integers(2 ** 31))
        return cca_sim.SimCCA(p, q, **kw, **({"seed": case["seed"] % 2 ** 31} if case["src"] == "seed" else {"rng": np.random.default_rng(case["seed"])}))
    m, m2 = make(), make()
    ctx.label(case["src"], "exact" if case["exact"] else "random")
    ctx.nontrivial(p > 1)
    want = rh if "rhos" in kw else 1 / (np.arange(1, p + 1) + 1 / 19)
    S = m.S
    ctx.close(S, S.T, "symmetric", atol=1e-9)
    ctx.close(np.diag(S), np.ones(p + q), "unit variances", atol=1e-8)
    ctx.check(np.min(np.linalg.eigvalsh(S)) > -1e-8, "an indefinite correlation matrix")
    if "x_corr" in kw:
        ctx.close(S[:p, :p], Sx, "x correlations", atol=1e-9)
        ctx.close(S[p:, p:], Sy, "y correlations", atol=1e-9)
    a, b, c = S[:p, :p], S[p:, p:], S[:p, p:]
    if np.linalg.cond(a) < 1e6 and np.linalg.cond(b) < 1e6:
        r = np.sqrt(np.clip(np.sort(np.real(np.linalg.eigvals(np.linalg.solve(a, c) @ np.linalg.solve(b, c.T))))[::-1], 0, None))
        ctx.close(r, np.sort(want)[::-1], "canonical correlations", atol=1e-5)
        Wx, Wy = m.Wx[:, :p], m.Wy[:, :p]
        ctx.close(Wx.T @ a @ Wx, np.eye(p), "scaled x coefficients", atol=1e-6)
        ctx.close(Wx.T @ c @ Wy, np.diag(want), "coefficients and correlations", atol=1e-6)
        ctx.close(m.Lx, a @ m.Wx, "x loadings", atol=1e-8)
    X, Y = m.simulate_data(n_obs=80, exact=case["exact"])
    X2, Y2 = m2.simulate_data(n_obs=80, exact=case["exact"])
    ctx.close(X2, X, "reproducible by seed or generator", rtol=1e-10, atol=1e-10)
    ctx.close(Y2, Y, "reproducible by seed or generator", rtol=1e-10, atol=1e-10)
    D = np.c_[X, Y]
    ctx.equal(D.shape, (80, p + q), "shape")
    if case["exact"]:
        ctx.close(np.corrcoef(D.T), S, "exact correlations", atol=1e-6)
        m3 = base_cca.CCA(X, Y)
        m3._fit()
        ctx.close(m3.rhos, np.sort(want)[::-1], "sample canonical correlations", atol=1e-4)
    else:
        ctx.close(D.mean(0), np.zeros(p + q), "centred", atol=1e-9)
        ctx.close(D.std(0), np.ones(p + q), "scaled", atol=1e-9)
        ctx.check(np.max(np.abs(np.corrcoef(D.T) - S)) < 6 / np.sqrt(80), "sample correlations are far off")


# ---------------------------------------------------------------- sparse CCA
def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def ratio(v):
    s = np.linalg.norm(v)
    return np.sum(np.abs(v)) / s if s > 0 else 0.0


def best_threshold(v, c):
    """smallest t >= 0 with |soft(v, t)|_1 <= c |soft(v, t)|_2"""
    if ratio(v) <= c:
        return 0.0
    a, b = 0.0, np.max(np.abs(v))
    for _ in range(200):
        t = (a + b) / 2
        if ratio(soft(v, t)) <= c:
            b = t
        else:
            a = t
    return b


@P.facet("kernels", dicts(v=st.lists(st.sampled_from([3.0, -1.5, 0.0, 0.25, 7.5, -12.0, 2.0, 2.5, -0.75]), min_size=1, max_size=8), scale=st.sampled_from([1.0, 100.0, 0.3]), c=st.sampled_from([1.2, 1.05, 1.5, 2.0, 3.0]), n=st.integers(2, 17), k=st.integers(2, 6), seed=seeds()), quick=300, thorough=10000, rule="the threshold is active")
def kernels(case, ctx):
    rng = rng_of(case)
    v = np.array(case["v"]) * case["scale"] * (1 + 1e-3 * rng.uniform(size=len(case["v"])))
    v0 = v.copy()
    t = scca.threshold_search(v, case["c"])
    ctx.equal(v.tolist(), v0.tolist(), "the vector is left alone")
    ctx.check(np.ndim(t) == 0 and t >= 0, f"threshold {t}")
    t0 = best_threshold(v, case["c"])
    w = soft(v, t)
    ctx.nontrivial(t0 > 0)
    if np.linalg.norm(soft(v, t0)) > 0.06 and np.linalg.norm(v) > 0.06:
        ctx.close(t, t0, "soft threshold reaching the bound", atol=3e-6 * max(1, case["scale"]))
    elif np.linalg.norm(v) > 0.06:
        ctx.check(np.max(np.abs(w)) > 0, "the threshold leaves nothing")
    ctx.close(scca.sft(v, 0.7), soft(v, 0.7), "soft thresholding")
    ctx.close(scca.l2_penalty(v), max(np.linalg.norm(v), 0.05), "norm with its lower bound", rtol=1e-12)
    if np.linalg.norm(v) > 0.05:
        ctx.close(scca.l1_constraint(v), ratio(v), "L1 norm of the unit vector", rtol=1e-10)
    n, k = max(case["n"], case["k"]), case["k"]
    F = scca.kfold_indices(n, k)
    ctx.equal(len(F), k, "number of folds")
    ctx.equal(sorted(int(i) for _, te in F for i in te), list(range(n)), "the test sets partition the rows")
    for tr, te in F:
        ctx.equal(sorted(list(map(int, tr)) + list(map(int, te))), list(range(n)), "train and test complement each other")
        ctx.check(abs(len(te) - n / k) < 1, "folds of equal size")
    lo, hi = 0.01 * (1 + rng.uniform()), rng.uniform(0.2, 2.0)
    l = scca.make_lambdas(7, lo, hi)
    ctx.close(l, np.geomspace(lo, min(hi, 1.0), 7), "penalty grid", rtol=1e-9)
    A, B = rng.standard_normal((30, 2)) + 3, rng.standard_normal((30, 3))
    ctx.close(scca._corr(A.copy(), B.copy()), np.corrcoef(A.T, B.T)[:2, 2:], "correlations", atol=1e-10)


SC = dict(seed=seeds(), n=st.sampled_from([50, 30, 120]), p=st.sampled_from([5, 3, 8]), q=st.sampled_from([4, 6, 2]), lx=st.sampled_from([0.6, 0.4, 0.8, 1.0]), ly=st.sampled_from([0.6, 0.5, 0.8, 1.0]), k=st.sampled_from([1, 2]), inp=st.sampled_from(["array", "frame"]))


@P.facet("sparse", dicts(**SC), quick=60, thorough=2000, cost=2.0, rule="a weight is zero or two components are extracted",
         examples=[dict(seed=1, n=50, p=5, q=4, lx=0.6, ly=0.6, k=2, inp="frame")])
def sparse(case, ctx):
    rng = rng_of(case)
    # a bound below one cannot be met by a unit vector
    case = dict(case, lx=max(case["lx"], 1.05 / np.sqrt(case["p"])), ly=max(case["ly"], 1.05 / np.sqrt(case["q"])))
    X, Y = data2(case, rng)
    n, p, q, k = case["n"], case["p"], case["q"], case["k"]
    X0, Y0 = X.copy(), Y.copy()
    wrap = (lambda A, s: pd.DataFrame(A, columns=[f"{s}{i}" for i in range(A.shape[1])])) if case["inp"] == "frame" else (lambda A, s: A)
    m = scca.SCCA(wrap(X, "a"), wrap(Y, "b"))
    Zx, Zy = std(X), std(Y)
    ctx.close(m.X, Zx, "standardised x", atol=1e-8)
    ctx.close(m.Y, Zy, "standardised y", atol=1e-8)
    kw = dict(n_iters=5000, tol=1e-10)
    Wx, Wy, rho, opt = m._fit(case["lx"], case["ly"], k, ortho=False, cca_kws=kw)
    ctx.equal((X.tolist(), Y.tolist()), (X0.tolist(), Y0.tolist()), "the data are left alone")
    ctx.equal((Wx.shape, Wy.shape), ((p, k), (q, k)), "shape of the weights")
    ctx.label(f"k={k}", case["inp"])
    ctx.nontrivial(bool(np.any(Wx == 0) or np.any(Wy == 0) or k > 1))
    cx, cy = case["lx"] * np.sqrt(p), case["ly"] * np.sqrt(q)
    Xt, Yt = Zx.copy(), Zy.copy()
    C = []
    for i in range(k):
        wx, wy = Wx[:, i], Wy[:, i]
        S = Xt.T @ Yt
        for w, c, g in ((wx, cx, S @ wy), (wy, cy, S.T @ wx)):
            if np.linalg.norm(soft(g, best_threshold(g, c))) < 0.1:
                # the code divides by at least 0.05
                ctx.skip("no association left, or a tie of the largest entries")
            ctx.close(np.linalg.norm(w), 1.0, "unit weights", atol=1e-6)
            if c >= 1:
                ctx.check(np.sum(np.abs(w)) <= c + 1e-3, f"L1 norm {np.sum(np.abs(w))} above {c}")
        if opt[i, 0] < 1e-9:
            for w, c, g in ((wx, cx, S @ wy), (wy, cy, S.T @ wx)):
                t = best_threshold(g, c)
                b = soft(g, t)
                if np.linalg.norm(b) > 0.1 and c > 1.02:
                    ctx.close(w, b / np.linalg.norm(b), "weights optimal given the other side", atol=2e-3)
        else:
            ctx.label("not converged")
        C.append((Xt @ wx, Yt @ wy))
        for A, v in ((Xt, Xt @ wx), (Yt, Yt @ wy)):
            A -= np.outer(v, v @ A) / (v @ v)
    R = np.array([[np.corrcoef(Zx @ Wx[:, i], Zy @ Wy[:, j])[0, 1] for j in range(k)] for i in range(k)])
    ctx.close(rho, R[0] if k == 1 else [R[0, 0], R[1, 0], R[1, 1]], "correlations of the components", atol=1e-8)
    # orthogonal components in the coordinates of the data
    Bx, By, rho2, _ = m._fit(case["lx"], case["ly"], k, ortho=True, cca_kws=kw)
    for i in range(k):
        a, b = C[i]
        ctx.close(Zx @ Bx[:, i], a, "orthogonal x component", atol=1e-6 * np.abs(a).max() + 1e-8)
        ctx.close(Zy @ By[:, i], b, "orthogonal y component", atol=1e-6 * np.abs(b).max() + 1e-8)
    if k > 1:
        ctx.check(abs(np.corrcoef(C[0][0], C[1][0])[0, 1]) < 1e-6 and abs(np.corrcoef(C[0][1], C[1][1])[0, 1]) < 1e-6, "correlated components")
    ctx.close(rho2[[0, -1]], [np.corrcoef(C[0][0], C[0][1])[0, 1], np.corrcoef(C[-1][0], C[-1][1])[0, 1]], "correlations of the orthogonal components", atol=1e-7)
    # units and origin
    s = 10.0 ** rng.integers(-2, 3, p)
    m2 = scca.SCCA(X * s + 100 * s, Y)
    W2, V2, r2, _ = m2._fit(case["lx"], case["ly"], k, ortho=False, cca_kws=kw)
    ctx.close(np.abs(W2[:, 0] @ Wx[:, 0]), 1.0, "invariance under units and origin", atol=1e-3)
    # labels
    if case["inp"] == "frame":
        for o in (False, True):
            F, G, _, _ = m._fit(case["lx"], case["ly"], k, pdout=True, ortho=o, cca_kws=kw)
            ctx.equal((list(F.index), list(G.index)), ([f"a{i}" for i in range(p)], [f"b{i}" for i in range(q)]), "labels of the weights")
            ctx.close(F.values, Bx if o else Wx, "labelled weights", atol=1e-10)


@P.facet("resampling", dicts(**SC), quick=12, thorough=300, cost=6.0, rule="two components",
         examples=[dict(seed=1, n=50, p=5, q=4, lx=0.6, ly=0.6, k=k, inp="array") for k in (1, 2)])
def resampling(case, ctx):
    rng = rng_of(case)
    X, Y = data2(case, rng)
    n, p, q, k = case["n"], case["p"], case["q"], case["k"]
    m = scca.SCCA(X, Y)
    T = k * (k + 1) // 2
    ctx.label(f"k={k}")
    ctx.nontrivial(k > 1)
    kw = dict(n_iters=300)
    grid = np.array([0.5, 0.7, 0.9])
    X1 = m.X.copy()
    Wx, Wy, rf, rt, lam, opt = m.crossval(3, n_comps=k, lambdas=grid, ortho=False, cca_kws=kw)
    ctx.close(m.X, X1, "the data are left alone", rtol=1e-14)
    ctx.close(lam, grid, "penalties")
    F = np.array_split(np.arange(n), 3)
    for j in range(3):
        te = F[j]
        tr = np.setdiff1d(np.arange(n), te)
        i = int(rng.integers(3))
        a, b, r, _ = m._fit(grid[i], grid[i], k, std(m.X[tr]), std(m.Y[tr]), ortho=False, cca_kws=kw)
        ctx.close(Wx[i, j], a, "weights of a fold", atol=1e-8)
        ctx.close(rf[i, j], r, "correlations of the fitting rows", atol=1e-8)
        Rt = [np.corrcoef(m.X[te] / m.X[te].std(0) @ a[:, u], m.Y[te] / m.Y[te].std(0) @ b[:, v])[0, 1] for v in range(k) for u in range(v, k)]
        ctx.close(rt[i, j], Rt, "correlations of the held-out rows", atol=1e-7)
    m.fit(3, n_comps=k, cv_kws=dict(lambdas=grid, ortho=False, cca_kws=kw), fit_kws=dict(ortho=False, cca_kws=kw))
    d = [t for t, (u, v) in enumerate((u, v) for v in range(k) for u in range(v, k)) if u == v]
    score = rt.mean(axis=1)[:, d].mean(axis=1)
    ctx.close(score[list(grid).index(m.lam)], np.max(score), "the chosen penalty has the best held-out correlation", atol=1e-10)
    a, b, r, _ = m._fit(m.lam, m.lam, k, ortho=False, cca_kws=kw)
    ctx.close(m.Wx, a, "final weights", atol=1e-10)
    ctx.close(m.rho, r, "final correlations", atol=1e-10)
    np.random.seed(case["seed"] % 2 ** 31)
    Pm = m.permutation_test(case["lx"], case["ly"], n_perms=4, n_comps=k, ortho=False, cca_kws=kw)
    np.random.seed(case["seed"] % 2 ** 31)
    P2 = m.permutation_test(case["lx"], case["ly"], n_perms=4, n_comps=k, ortho=False, cca_kws=kw)
    ctx.equal(Pm.shape, (4, T), "shape of the permutation results")
    ctx.close(Pm.values, P2.values, "reproducible permutations", rtol=1e-12)
    ctx.check(np.all(np.abs(Pm.values) <= 1 + 1e-9), "a correlation above one")
    np.random.seed(case["seed"] % 2 ** 31)
    B = m.bootstrap(case["lx"], case["ly"], n_boot=3, n_comps=k, ortho=False, cca_kws=kw)
    ctx.equal((B[0].shape, B[1].shape, B[2].shape), ((3, p, k), (3, q, k), (3, T)), "shape of the bootstrap results")
    np.random.seed(case["seed"] % 2 ** 31)
    for i in range(3):
        ix = np.random.choice(n, n, replace=True)
        a, b, r, _ = m._fit(case["lx"], case["ly"], k, m.X[ix], m.Y[ix], ortho=False, cca_kws=kw)
        ctx.close(B[0][i], a, "bootstrap weights", atol=1e-8)
        ctx.close(B[2].values[i], r, "bootstrap correlations", atol=1e-8)


# ---------------------------------------------------------------- ICA
def sources(rng, n, kinds):
    f = {"laplace": lambda: rng.laplace(size=n), "uniform": lambda: rng.uniform(-1, 1, n), "bimodal": lambda: rng.choice([-1, 1], n) + 0.3 * rng.standard_normal(n), "exp": lambda: rng.exponential(size=n), "t": lambda: rng.standard_t(4, n)}
    return np.stack([f[k]() for k in kinds], axis=1)


@P.facet("ica", dicts(seed=seeds(), n=st.sampled_from([3000, 1000]), kinds=st.lists(st.sampled_from(["laplace", "uniform", "bimodal", "exp"]), min_size=2, max_size=4), alg=st.sampled_from(["fastica", "mle"]), inp=st.sampled_from(["array", "frame"]), drop=st.booleans()), quick=60, thorough=1500, cost=3.0, rule="sources of different shapes",
         examples=[dict(seed=s, n=3000, kinds=["laplace", "uniform", "bimodal"], alg=a, inp="frame", drop=False) for a in ("fastica", "mle") for s in (1, 2)])
def ica_(case, ctx):
    rng = rng_of(case)
    S = sources(rng, case["n"], case["kinds"])
    k = S.shape[1]
    M = rng.standard_normal((k, k)) + np.eye(k)
    if np.linalg.cond(M) > 30:
        M = np.eye(k) + 0.5 * np.triu(np.ones((k, k)), 1)
    X = S @ M * 10.0 ** rng.integers(-1, 2) + rng.uniform(-20, 20, k)
    X0 = X.copy()
    D = pd.DataFrame(X, columns=[f"c{i}" for i in range(k)]) if case["inp"] == "frame" else X
    np.random.seed(case["seed"] % 2 ** 31)
    q = k - 1 if case["drop"] and k > 2 else None
    m = ica.ICA(D, n_comps=q, algorithm=case["alg"])
    m.fit(maxiters=2000)
    ctx.equal(X.tolist(), X0.tolist(), "the data are left alone")
    ctx.label(case["alg"], f"k={k}", "reduced" if q else "complete")
    ctx.nontrivial(len(set(case["kinds"])) > 1)
    kk = q or k
    W, Y, A = np.asarray(m.W), np.asarray(m.Y), np.asarray(m.A)
    ctx.equal((W.shape, Y.shape, A.shape), ((k, kk), (len(X), kk), (kk, k)), "shapes")
    Xc = X - X.mean(0)
    ctx.close(Y, Xc @ W, "components", atol=1e-6)
    ctx.close(Y.T @ Y / len(Y), np.eye(kk), "uncorrelated components of unit variance", atol=1e-6)
    ctx.close(A @ W, np.eye(kk), "mixing inverts unmixing", atol=1e-7)
    if q is None:
        ctx.close(Y @ A, Xc, "the data are mixtures of the components", atol=1e-6 * np.abs(Xc).max())
    if case["inp"] == "frame":
        cn = [f"component_{i}" for i in range(1, kk + 1)]
        ctx.equal((list(m.W.index), list(m.W.columns), list(m.A.index), list(m.A.columns), list(m.Y.columns)), (list(D.columns), cn, cn, list(D.columns), cn), "labels")
    if m.dW_hist[-1] > 1e-6:
        ctx.label("not converged")
        ctx.check(len(m.dW_hist) == 2000, "stopped early")
        ctx.skip("not converged")
    G = np.tanh(Y)
    E = Y.T @ G / len(Y)
    dg = np.mean(1 - G ** 2, axis=0)
    if case["alg"] == "fastica":
        Q = E - np.diag(dg)
        s = np.sign(np.diag(Q))
        Q = Q * s
        ctx.check(np.max(np.abs(Q - Q.T)) < 0.01 * np.max(np.abs(Q)) + 2e-3, f"not a fixed point of symmetric FastICA: {Q}")
    else:
        b = -np.diag(E)
        a = -1 / (b + dg)
        Q = (np.diag(b) + E) * a
        ctx.check(np.max(np.abs(Q - Q.T)) < 5e-3 * (1 + np.max(np.abs(Q))), f"not a fixed point of the maximum likelihood iteration: {Q}")
    if q is None and case["n"] >= 3000:
        # every component is one of the sources
        C = np.abs(np.corrcoef(S.T, Y.T)[:k, k:])
        best = max(min(C[i, p_[i]] for i in range(k)) for p_ in itertools.permutations(range(k)))
        ctx.check(best > 0.85, f"the sources are not recovered: {np.round(C, 2).tolist()}")


@P.facet("icakernels", dicts(seed=seeds(), n=st.sampled_from([5, 20]), p=st.sampled_from([1, 2, 4])), quick=150, thorough=4000, rule="more than one dimension")
def icakernels(case, ctx):
    rng = rng_of(case)
    n, p = case["n"], case["p"]
    ctx.nontrivial(p > 1)
    x = rng.uniform(-5, 5, (n, p))
    ctx.close(ica.logcosh(x), np.logaddexp(x, -x) - np.log(2), "log cosh", atol=1e-10)
    g, d = ica.gfunc(x)
    ctx.close(g, np.tanh(x), "tanh")
    ctx.close(d, 1 / np.cosh(x) ** 2, "its derivative", atol=1e-12)
    ctx.close(g, num.deriv(ica.logcosh, x, 1e-2), "tanh is the derivative of log cosh", atol=1e-7)
    W = rng.standard_normal((p, p)) + 0.5 * np.eye(p)
    if np.linalg.cond(W) < 1e3:
        A = ica.symmetric_decorr(W)
        U, s, Vt = np.linalg.svd(W)
        ctx.close(A, U @ Vt, "nearest orthogonal matrix", atol=1e-7)
    Z = rng.standard_normal((n, 3))
    ctx.close(ica.cov(x, Z), x.T @ Z / n, "cross moments", atol=1e-12)
    ctx.close(ica.cov(x), x.T @ x / n, "moments", atol=1e-12)
    Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
    ctx.check(ica.convergence_check(Q, -Q, p) < 1e-10, "a change of sign counts as a change")


# ---------------------------------------------------------------- convolutive NMF
def conv(W, H):
    n, k, L = W.shape
    T = H.shape[1]
    X = np.zeros((n, T))
    for t in range(T):
        for l in range(min(L, t + 1)):
            X[:, t] += W[:, :, l] @ H[:, t - l]
    return X


def shiftleft(X, i):
    out = np.zeros_like(X)
    out[:, :X.shape[1] - i] = X[:, i:]
    return out


NM = dict(seed=seeds(), n=st.sampled_from([4, 3, 1]), k=st.sampled_from([2, 1, 3]), L=st.sampled_from([3, 2, 5]), T=st.sampled_from([20, 12, 40]))


@P.facet("nmfkernels", dicts(s=st.integers(-4, 4), mode=st.sampled_from(["full", "same"]), a=st.tuples(st.integers(1, 6), st.integers(1, 6)), b=st.tuples(st.sampled_from([1, 3, 5]), st.sampled_from([1, 3, 5])), **NM), quick=150, thorough=4000, rule="two or more factors",
         examples=[dict(s=-2, mode="same", a=(5, 4), b=(3, 3), seed=1, n=4, k=2, L=3, T=20)])
def nmfkernels(case, ctx):
    rng = rng_of(case)
    n, k, L, T, s = (case[v] for v in ("n", "k", "L", "T", "s"))
    ctx.nontrivial(k > 1)
    W, H = rng.uniform(size=(n, k, L)), rng.uniform(size=(k, T))
    X = rng.uniform(size=(n, T))
    R = conv(W, H)
    ctx.close(nm.reconstruct(W, H), R, "convolution", atol=1e-10)
    f, pen, WtX = nm.seqnmf_objfunc(X, W, H)
    ctx.close(f, np.linalg.norm(X - R), "reconstruction error", rtol=1e-10)
    tr = sum(W[:, :, l].T @ shiftleft(X, l) for l in range(L))
    ctx.close(WtX, tr, "transposed convolution", atol=1e-10)
    Sm = (np.abs(np.subtract.outer(np.arange(T), np.arange(T))) < L).astype(float)
    if T >= 2 * L - 1:
        Q = tr @ Sm @ H.T
        np.fill_diagonal(Q, 0)
        ctx.close(pen, np.abs(Q).sum(), "cross-orthogonality penalty", rtol=1e-9)
    v = rng.uniform(size=9)
    want = np.array([v[i - s] if 0 <= i - s < 9 else -1.0 for i in range(9)])
    ctx.close(nm.shift1d(v, s, -1.0), want, "shifted vector")
    A, B = rng.uniform(size=tuple(case["a"])), rng.uniform(size=tuple(case["b"]))
    full = np.zeros((A.shape[0] + B.shape[0] - 1, A.shape[1] + B.shape[1] - 1))
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            full[i:i + B.shape[0], j:j + B.shape[1]] += A[i, j] * B
    if case["mode"] == "same":
        i, j = B.shape[0] // 2, B.shape[1] // 2
        full = full[i:i + A.shape[0], j:j + A.shape[1]]
    ctx.close(nm.conv2(A, B, case["mode"]), full, "two-dimensional convolution", atol=1e-10)
    # centring moves a factor and its activation in opposite directions
    W2 = np.zeros((n, k, 2 * L + 1))
    W2[:, :, L] = rng.uniform(0.5, 1, (n, k))
    j = int(rng.integers(0, 2 * L + 1))
    W2 = np.roll(W2, j - L, axis=2)
    Hp = np.zeros((k, T + 6 * L))
    Hp[:, 3 * L:3 * L + T] = H
    X1 = conv(W2, Hp)
    out = nm.center_factors(W2.copy(), Hp.copy())
    ctx.check(isinstance(out, tuple) and len(out) == 2, "factors and activations")
    ctx.close(conv(*out), X1, "centring keeps the product", atol=1e-10)
    ctx.check(np.max(np.abs(np.argmax(out[0].sum(0), axis=1) - L)) <= 2, "centred factors")


@P.facet("nmf", dicts(lam=st.sampled_from([0.0, 0.001]), center=st.booleans(), **NM), quick=40, thorough=1000, cost=3.0, rule="two or more factors",
         examples=[dict(lam=0.0, center=c, seed=1, n=4, k=2, L=3, T=20) for c in (False, True)])
def nmf(case, ctx):
    rng = rng_of(case)
    n, k, L, T = (case[v] for v in ("n", "k", "L", "T"))
    W, H = rng.uniform(size=(n, k, L)), rng.uniform(size=(k, T)) * (rng.uniform(size=(k, T)) < 0.4)
    X = conv(W, H) + 0.01
    X0 = X.copy()
    runs, its = 2, 30

    def go():
        np.random.seed(case["seed"] % 2 ** 31)
        m = nm.NMFSeq(X, k=k, L=L, lambda_=case["lam"], lambda_w=case["lam"], lambda_h=case["lam"], n_starts=runs, n_iters=its, shift_factors=case["center"])
        m.fit()
        return m
    m = go()
    ctx.equal(X.tolist(), X0.tolist(), "the data are left alone")
    ctx.label("centred" if case["center"] else "plain", f"lambda={case['lam']}")
    ctx.nontrivial(k > 1)
    Xp = np.pad(X, ((0, 0), (L, L)))
    for r in range(runs):
        Wr, Hr = m.Ws[..., r], m.Hs[..., r]
        ctx.equal((Wr.shape, Hr.shape), ((n, k, L), (k, T + 2 * L)), "shapes")
        ctx.check(np.all(Wr >= 0) and np.all(Hr >= 0), "a negative factor")
        e = m.f_evals[:, r]
        ctx.close(e[-1], np.linalg.norm(Xp - conv(Wr, Hr)), "final reconstruction error", rtol=1e-8, atol=1e-10)
        ctx.close(m.penalty_evals[-1, r], nm.seqnmf_objfunc(Xp, Wr, Hr)[1], "final penalty", rtol=1e-8)
        if case["lam"] == 0.0 and not case["center"]:
            up = np.diff(e[1:])
            ctx.check(np.max(up) <= 2e-3 * np.linalg.norm(Xp), f"the reconstruction error rises by {np.max(up)}")
            ctx.check(e[-1] < 0.7 * np.linalg.norm(Xp), "no progress")
            nz = np.linalg.norm(Hr, axis=1)
            ctx.close(nz[nz > 1e-8], np.ones(int((nz > 1e-8).sum())), "activations of unit norm", atol=1e-6)
    ctx.check(runs < 2 or not np.allclose(m.Ws[..., 0], m.Ws[..., 1]), "two starts with the same values")
    m2 = go()
    ctx.close(m2.Ws, m.Ws, "reproducible by the global seed", rtol=1e-12)
