"""C22: factor analysis and rotation (pyfa, pyfa2)."""
import itertools
import numpy as np
import pandas as pd
import scipy as sp
import scipy.linalg
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C22", "Factor analysis and rotation")
P.assumptions = ["fits are judged at proper solutions (no vanishing unique variance)"]

METHODS = ["varimax", "quartimax", "equamax", "parsimax"]


def vec(A):
    return np.asarray(A).reshape(-1, order="F")


def vecl(A):
    A = np.asarray(A)
    j, i = np.triu_indices(len(A), 1)
    return A[i, j]


def vech(A):
    j, i = np.triu_indices(len(A))
    return A[i, j]


def kappa(method, p, m):
    return {"varimax": 1 / p, "quartimax": 0.0, "equamax": m / (2 * p), "parsimax": (m - 1) / (p + m - 2), "parsimony": 1.0}[method]


def cf_value(L, k):
    """Crawford-Ferguson: row complexity (1-k) and column complexity k"""
    B = L ** 2
    row = sum(B[:, a] @ B[:, b] for a, b in itertools.permutations(range(L.shape[1]), 2))
    col = sum(B[i] @ B[j] for i, j in itertools.permutations(range(L.shape[0]), 2))
    return ((1 - k) * row + k * col) / 4


def ob_value(L, g):
    """oblimin: covariance of the squared loadings"""
    B = L ** 2
    p, m = L.shape
    return sum(B[:, a] @ B[:, b] - g / p * B[:, a].sum() * B[:, b].sum() for a, b in itertools.permutations(range(m), 2)) / 4


def ortho(rng, m):
    Q, R = np.linalg.qr(rng.standard_normal((m, m)))
    return Q * np.sign(np.diag(R))


def unit_cols(rng, m, s=0.35):
    T = np.eye(m) + s * rng.uniform(-1, 1, (m, m))
    return T / np.sqrt((T ** 2).sum(axis=0))


PM = {"p": st.sampled_from([6, 4, 5, 8, 9, 12]), "m": st.sampled_from([2, 3, 1, 4])}


def dims(case):
    p, m = case["p"], case["m"]
    return max(p, m + 1), m


CC = dicts(seed=seeds(), **PM, method=st.sampled_from(METHODS), gamma=st.sampled_from([0.0, 0.5, 1.0, -0.3, 1.7]), kind=st.sampled_from(["ortho", "oblique"]),
           scale=st.sampled_from([1.0, 0.1, 5.0]), w=st.sampled_from(["general", "binary", None]))


@P.facet("criterion", CC, quick=220, thorough=20000, shards=2, rule="at least two factors")
def criterion(case, ctx):
    """rotation criteria: definition, gradient, second derivatives, agreement of the two packages"""
    from pystatsm.pyfa import rotation as R
    from pystatsm.pyfa2.criterion import GCFCriterion, TargetCriterion
    from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
    rng = rng_of(case)
    p, m = dims(case)
    ctx.nontrivial(m > 1)
    L = case["scale"] * rng.uniform(-1, 1, (p, m))
    A = case["scale"] * rng.uniform(-1, 1, (p, m))
    kind, k = case["kind"], kappa(case["method"], p, m)
    T = ortho(rng, m) if kind == "ortho" else unit_cols(rng, m)
    D = rng.standard_normal((p, m))
    H = rng.standard_normal((p, m))
    W = {"general": rng.uniform(0.1, 3, (p, m)), "binary": (rng.random((p, m)) < 0.6).astype(float), None: None}[case["w"]]
    Wd = np.ones((p, m)) if W is None else W
    want_rot = A @ T if kind == "ortho" else A @ np.linalg.inv(T).T
    r2 = OrthoRotation(m) if kind == "ortho" else ObliqueRotation(m)
    crits = {"gcf": (R.GeneralizedCrawfordFerguson(A, case["method"], kind), GCFCriterion(case["method"], p, m), lambda X: cf_value(X, k)),
             "target": (R.TargetRotation(A, H, W, kind), TargetCriterion(H, W), lambda X: 0.5 * np.sum(Wd * (X - H) ** 2))}
    for name, (c1, c2, ref) in crits.items():
        tol = dict(rtol=1e-8, atol=1e-10 * max(1, case["scale"] ** 4))
        f = ref(L)
        g = num.grad(lambda v: ref(v.reshape(p, m, order="F")), vec(L), h=1e-3 * case["scale"]).reshape(p, m, order="F")
        gt = dict(rtol=1e-6, atol=1e-7 * max(1e-3, np.abs(g).max()))
        for pk, c in (("pyfa", c1), ("pyfa2", c2)):
            ctx.close(c.Q(L), f, f"{pk} {name} criterion", **tol)
            ctx.close(c.dQ(L), g, f"{pk} {name} gradient", **gt)
        v, gg = c1.vgQ(L)
        ctx.close(v, f, f"vgQ value of {name}", **tol)
        ctx.close(gg, g, f"vgQ gradient of {name}", **gt)
        ctx.close(c2.d2Q(L) @ vec(D), num.deriv(lambda t: vec(c2.dQ(L + t * D)), 0.0, h=1e-3 * case["scale"]), f"second derivatives of {name}", rtol=1e-6, atol=1e-7 * max(1, case["scale"] ** 2))
        ctx.close(c2.d2Q_apply(L, vec(D)), c2.d2Q(L) @ vec(D), f"d2Q_apply of {name}", rtol=1e-9, atol=1e-9)
        # as a function of the rotation
        ctx.close(c1.rotate(T), want_rot, f"{kind} rotate", rtol=1e-9, atol=1e-11)
        ctx.close(r2.rotated_loadings(A, T), want_rot, f"pyfa2 {kind} rotated loadings", rtol=1e-9, atol=1e-11)
        nf = num.grad(lambda t: ref(A @ t.reshape(m, m, order="F") if kind == "ortho" else A @ np.linalg.inv(t.reshape(m, m, order="F")).T), vec(T), h=1e-4).reshape(m, m, order="F")
        tt = dict(rtol=2e-6, atol=1e-6 * max(1e-3, np.abs(nf).max()))
        ctx.close(c1.f(T), ref(want_rot), f"{name} f", **tol)
        ctx.close(c1.df(T), nf, f"{name} df, {kind}", **tt)
        ctx.close(r2.grad(A, T, c2.dQ(want_rot)), nf, f"pyfa2 gradient in the rotation, {kind}", **tt)
        J = num.jac(lambda t: vec(c1.rotate(t.reshape(m, m, order="F"))), vec(T), h=1e-4)
        ctx.close(c1.d_rotate(T), J, f"d_rotate, {kind}", rtol=1e-6, atol=1e-7 * max(1, np.abs(J).max()))
        # constraint functions vanish where the projected gradient does, and their derivatives
        Phi = np.eye(m) if kind == "ortho" else T.T @ T
        if m > 1:
            c0 = r2.constraint(want_rot, Phi, c2)
            M = want_rot.T @ c2.dQ(want_rot)
            ref_c = vecl(M - M.T) if kind == "ortho" else (M @ np.linalg.inv(Phi)).T[~np.eye(m, dtype=bool)]
            ctx.close(c0, ref_c, "pyfa2 constraint", rtol=1e-8, atol=1e-9 * max(1, case["scale"] ** 4))
            ctx.close(c1.constraints(want_rot, Phi), ref_c, "pyfa constraint", rtol=1e-8, atol=1e-9 * max(1, case["scale"] ** 4))
            dL, dP = r2.d_constraint(want_rot, Phi, c2)
            JL = num.jac(lambda v: r2.constraint(v.reshape(p, m, order="F"), Phi, c2), vec(want_rot), h=1e-3 * case["scale"])
            at = 1e-6 * max(1e-3, np.abs(JL).max())
            ctx.close(dL, JL, f"derivative of the {kind} constraints in the loadings ({name})", rtol=1e-6, atol=at)
            if kind == "oblique":
                def ofphi(v):
                    F = np.eye(m)
                    j, i = np.triu_indices(m, 1)
                    F[i, j] = F[j, i] = v
                    return r2.constraint(want_rot, F, c2)
                JP = num.jac(ofphi, vecl(Phi), h=1e-4)
                ctx.close(dP, JP, f"derivative of the oblique constraints in the factor correlations ({name})", rtol=1e-6, atol=1e-6 * max(1e-3, np.abs(JP).max()))
    # projection is tangent and retraction lands on the manifold
    G = rng.standard_normal((m, m))
    Gp = r2.constraint_project(T, G)
    Xr = r2.constraint_retract(T + 0.4 * rng.standard_normal((m, m)))
    if kind == "ortho":
        ctx.close(T.T @ Gp + Gp.T @ T, np.zeros((m, m)), "projected direction is tangent", atol=1e-10)
        ctx.close(Xr.T @ Xr, np.eye(m), "retraction is orthogonal", atol=1e-10)
        ctx.close(np.linalg.det(Xr), 1.0, "retraction keeps the orientation", atol=1e-9)
        if m > 1:
            th = 0.7 * rng.standard_normal(m * (m - 1) // 2)
            Q = r2.unconstrained_to_rotation(th)
            ctx.close(Q.T @ Q, np.eye(m), "Cayley coordinates give a rotation", atol=1e-10)
            ctx.close(r2.rotation_to_unconstrained(Q), th, "Cayley round trip", rtol=1e-7, atol=1e-8)
            ctx.close(r2.d_rotation(th, G), num.grad(lambda t: np.sum(G * r2.unconstrained_to_rotation(t)), th, h=1e-3), "derivative of the Cayley map", rtol=1e-6, atol=1e-7)
    else:
        ctx.close((T * Gp).sum(axis=0), np.zeros(m), "projected direction is tangent", atol=1e-10)
        ctx.close((Xr ** 2).sum(axis=0), np.ones(m), "retraction has unit columns", atol=1e-10)
    # the function interface
    for nm, fun, val in (("cf", R.vgq_cf, cf_value), ("oblimin", R.vgq_ob, ob_value)):
        v, gg = fun(L, case["gamma"])
        ctx.close(v, val(L, case["gamma"]), f"vgq {nm} value", rtol=1e-8, atol=1e-10 * max(1, case["scale"] ** 4))
        g = num.grad(lambda x: val(x.reshape(p, m, order="F"), case["gamma"]), vec(L), h=1e-3 * case["scale"]).reshape(p, m, order="F")
        ctx.close(gg, g, f"vgq {nm} gradient", rtol=1e-6, atol=1e-7 * max(1e-3, np.abs(g).max()))


RC = dicts(seed=seeds(), **PM, method=st.sampled_from(METHODS), kind=st.sampled_from(["ortho", "oblique"]), api=st.sampled_from(["gcf", "func", "pyfa2", "cayley"]),
           family=st.sampled_from(["cf", "oblimin"]), scale=st.sampled_from([1.0, 0.3, 3.0, 12.0]), noise=st.sampled_from([0.1, 0.0, 0.25]), start=st.booleans(), target=st.booleans())


def simple_loadings(rng, p, m, noise):
    L = noise * rng.uniform(-1, 1, (p, m))
    for j, rows in enumerate(np.array_split(rng.permutation(p), m)):
        L[rows, j] = rng.uniform(0.5, 0.9, len(rows)) * rng.choice([-1, 1], len(rows))
    return L


def kaiser(A, gamma):
    """optimal criterion of the orthomax family for two factors by its closed form"""
    p = len(A)
    x, y = A.T
    u, v = x ** 2 - y ** 2, 2 * x * y
    a, b, c, d = u.sum(), v.sum(), np.sum(u ** 2 - v ** 2), 2 * np.sum(u * v)
    phi = np.arctan2(d - 2 * a * b * gamma / p, c - (a ** 2 - b ** 2) * gamma / p) / 4
    return A @ np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])


@P.facet("rotate", RC, quick=170, thorough=12000, shards=4, rule="at least two factors", cost=2.0)
def rotate(case, ctx):
    """a rotation preserves the common covariance, stays on its manifold, does not raise the criterion and ends stationary"""
    from pystatsm.pyfa import rotation as R
    from pystatsm.pyfa2.criterion import GCFCriterion, TargetCriterion
    from pystatsm.pyfa2.identification import RotationIdentification
    from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
    rng = rng_of(case)
    p, m = dims(case)
    p = max(p, 2 * m)
    kind, api = case["kind"], case["api"]
    if api == "cayley":
        kind = "ortho"
    ctx.nontrivial(m > 1)
    S = simple_loadings(rng, p, m, case["noise"])
    A = case["scale"] * S @ (ortho(rng, m) if kind == "ortho" else np.linalg.inv(unit_cols(rng, m)))
    T0 = None
    if case["start"]:
        T0 = ortho(rng, m) if kind == "ortho" else unit_cols(rng, m, 0.2)
        if np.linalg.det(T0) < 0:
            T0[:, 0] *= -1
    k = kappa(case["method"], p, m)
    if api == "func":
        if case["family"] == "cf":
            crit, val, typ = case["method"], lambda X: cf_value(X, k), "cf"
        else:
            crit = {"varimax": "varimax", "quartimax": "quartimax", "equamax": "equamax" if kind == "ortho" else "biquartimin", "parsimax": "biquartimax"}[case["method"]]
            g = {"varimax": 1.0, "quartimax": 0.0, "equamax": m / 2, "biquartimin": 0.5, "biquartimax": 0.5}[crit]
            if kind == "oblique" and crit in ("varimax",):
                crit, g = "quartimin", 0.0          # covarimin on simple structure is unbounded for some data
            val, typ = lambda X: ob_value(X, g), "oblimin"
        L, T, G, Gq, hist, vgq, gam = R.rotate(A, crit, method=typ, rotation_type={"ortho": "orthogonal", "oblique": "oblique"}[kind], T=T0, n_iters=20000)
        T = T if kind == "ortho" else T.T
        conv = hist[-1][1] < 1e-7 * case["scale"] ** 4
        tol_stat = 1e-6
        start = np.eye(m) if T0 is None else T0
    else:
        target = None
        if case["target"]:
            target = case["scale"] * np.where(np.abs(S) > 0.45, S, 0.0)
            val = lambda X: 0.5 * np.sum((X - target) ** 2)
        else:
            val = lambda X: cf_value(X, k)
        start = np.eye(m) if T0 is None else T0
        if api == "gcf":
            r = R.TargetRotation(A, target, rotation_type=kind) if case["target"] else R.GeneralizedCrawfordFerguson(A, case["method"], kind)
            r.fit(dict(T=T0, n_iters=20000))
            T, L, hist = r.T, r.rotate(r.T), r.opt_hist
        else:
            rot = OrthoRotation(m) if kind == "ortho" else ObliqueRotation(m)
            cr = TargetCriterion(target) if case["target"] else GCFCriterion(case["method"], p, m)
            kw = dict(n_iters=20000, tol=1e-8 * case["scale"] ** 4) if api == "pyfa2" else dict(options=dict(gtol=1e-9 * case["scale"] ** 4, xtol=1e-14, maxiter=3000))
            if api == "cayley" and m == 1:
                ctx.skip("no coordinates with one factor")
            if api == "cayley" and T0 is not None:
                start = T0 = rot.unconstrained_to_rotation(0.4 * rng.standard_normal(m * (m - 1) // 2))
            ident = RotationIdentification(rot, cr, solver="gpa" if api == "pyfa2" else "cayley", **kw)
            out = ident.fit(A, T0=T0)
            T, L = out["T"], out["L"]
            ctx.close(out["Phi"], T.T @ T, "factor correlations", atol=1e-9)
            if api == "cayley" and np.abs(out["info"]["theta"]).max() > 20:
                ctx.skip("optimum near the end of the Cayley coordinates")
            ctx.close(out["info"]["f"], val(L), "criterion reported", rtol=1e-7, atol=1e-9 * case["scale"] ** 4)
    sc = max(1e-12, np.abs(A).max())
    if kind == "ortho":
        ctx.close(T.T @ T, np.eye(m), "rotation is orthogonal", atol=1e-8)
        ctx.close(L, A @ T, "rotated loadings", rtol=1e-8, atol=1e-9 * sc)
        Phi = np.eye(m)
    else:
        Phi = T.T @ T
        ctx.close(np.diag(Phi), np.ones(m), "factors keep unit variance", atol=1e-8)
        ctx.close(L, A @ np.linalg.inv(T).T, "rotated loadings", rtol=1e-7, atol=1e-8 * sc)
    ctx.close(L @ Phi @ L.T, A @ A.T, "rotation preserves the common covariance", rtol=1e-7, atol=1e-8 * sc ** 2)
    L0 = A @ start if kind == "ortho" else A @ np.linalg.inv(start).T
    ctx.check(val(L) <= val(L0) + 1e-9 * max(abs(val(L0)), sc ** 4 * 1e-3), f"criterion went up: {val(L)} from {val(L0)}")
    # stationary on the manifold
    f = lambda t: val(A @ t.reshape(m, m) if kind == "ortho" else A @ np.linalg.inv(t.reshape(m, m)).T)
    if m == 1:
        return
    G = num.grad(f, T.ravel(), h=1e-4).reshape(m, m)
    if kind == "ortho":
        M = T.T @ G
        proj = M - M.T
    else:
        proj = G - T * (T * G).sum(axis=0)
    size = sc ** 4 * p if not (api != "func" and case["target"]) else sc ** 2 * p
    if np.linalg.cond(Phi) > 400:
        ctx.skip("factors collapse under this criterion")
    ctx.check(np.abs(proj).max() < 2e-5 * size, f"rotation is not stationary: {np.abs(proj).max()} for loadings of size {sc}")
    if kind == "ortho" and m == 2 and not (api != "func" and case["target"]):
        gam = {"cf": k * p, "oblimin": 0}.get(case["family"], 0) if api == "func" else k * p
        if api == "func" and case["family"] == "oblimin":
            gam = g
        B = kaiser(A, gam)
        if np.linalg.det(start) > 0 or True:
            ctx.check(val(L) <= val(B) + 1e-6 * size, f"criterion {val(L)} above the optimum {val(B)} of the closed form")


FC = dicts(seed=seeds(), p=st.sampled_from([6, 8, 9, 5, 12]), m=st.sampled_from([2, 1, 3]), method=st.sampled_from([None] + METHODS), kind=st.sampled_from(["ortho", "oblique", None]),
           n=st.sampled_from([300, 1000, 150]), scale=st.sampled_from([1.0, 0.1, 10.0, "mixed"]), src=st.sampled_from(["X", "df", "S"]))


def fa_data(case):
    rng = rng_of(case)
    m = case["m"]
    p = max(case["p"], {1: 4, 2: 6, 3: 9}[m])
    L = simple_loadings(rng, p, m, 0.1)
    F = np.eye(m)
    if m > 1:
        F[np.tril_indices(m, -1)] = rng.uniform(-0.3, 0.4, m * (m - 1) // 2)
        F = np.tril(F) + np.tril(F, -1).T
    S = L @ F @ L.T + np.diag(rng.uniform(0.4, 0.8, p))
    X = rng.standard_normal((case["n"], p)) @ np.linalg.cholesky(S).T
    sc = np.exp(rng.uniform(-2, 2, p)) if case["scale"] == "mixed" else np.full(p, case["scale"])
    return rng, p, m, (X + rng.standard_normal(p)) * sc, sc


def fml(S, Sig):
    return np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S))


TIGHT = dict(options=dict(gtol=1e-10, xtol=1e-12, maxiter=5000))


@P.facet("efa", FC, quick=70, thorough=5000, shards=4, rule="several factors or data off unit scale", cost=4.0)
def efa(case, ctx):
    """maximum likelihood factor analysis: derivatives, optimum, identification, standard errors, fit measures, scores"""
    from pystatsm.pyfa.efa import FactorAnalysis
    rng, p, m, X, sc = fa_data(case)
    n = len(X)
    ctx.nontrivial(m > 1 or case["scale"] != 1.0)
    kind = (case["kind"] or "ortho") if case["method"] else None
    if kind and m == 1:
        kind = None
    kw = dict(n_factors=m, rotation_method=case["method"] if kind else None, rotation_type=case["kind"] if kind else None)
    S = np.cov(X.T, bias=True)
    cols = [f"v{i}" for i in rng.permutation(p)]
    if case["src"] == "S":
        mod = FactorAnalysis(S=pd.DataFrame(S, index=cols, columns=cols), n_obs=n, **kw)
    else:
        mod = FactorAnalysis(pd.DataFrame(X, columns=cols) if case["src"] == "df" else X, **kw)
    # number of factors from the eigenvalues
    ev = np.sort(np.linalg.eigvalsh(S))[::-1]
    for prop in (0.6, 0.45):
        ctx.equal(int(FactorAnalysis(X, n_factors="proportion", proportion=prop).n_facs), int(np.argmax(np.cumsum(ev) / ev.sum() >= prop)) + 1, "factors for a proportion of the variance")
    cut = float((ev[m - 1] + ev[m]) / 2)
    ctx.equal(int(FactorAnalysis(X, n_factors="eigmin", eigmin=cut).n_facs), m, "factors with large eigenvalues")
    # derivatives away from the optimum
    psi = np.diag(S) * rng.uniform(0.3, 0.7, p)
    W = S / np.sqrt(np.outer(psi, psi))
    u = np.linalg.eigvalsh(W)[:p - m]
    if np.linalg.eigvalsh(W)[p - m] > 1.05 and np.min(np.abs(np.subtract.outer(np.linalg.eigvalsh(W), np.linalg.eigvalsh(W)))[~np.eye(p, dtype=bool)]) > 1e-4:
        ctx.close(mod.loglike(psi), np.sum(u - np.log(u) - 1), "concentrated objective", rtol=1e-9)
        A = mod.loadings_from_psi(psi)
        ctx.close(mod.loglike(psi), fml(S, A @ A.T + np.diag(psi)) - np.linalg.slogdet(S)[1] - p, "concentrated objective is the fit of the best loadings", rtol=1e-7, atol=1e-8)
        if u[-1] < np.linalg.eigvalsh(W)[p - m] - 1e-2:
            ctx.close(mod.gradient_exp(np.log(psi)), num.grad(mod.loglike_exp, np.log(psi), h=1e-3), "gradient in log psi", rtol=1e-6, atol=1e-7)
            ctx.close(mod.hessian_exp(np.log(psi)), num.jac(mod.gradient_exp, np.log(psi), h=1e-3), "hessian in log psi", rtol=1e-5, atol=1e-6)
            ctx.close(mod.gradient(psi) * psi, num.grad(mod.loglike_exp, np.log(psi), h=1e-3), "gradient in psi", rtol=1e-6, atol=1e-7)
    mod.opt_tight = None
    rot_kw = dict(n_iters=20000, tol=1e-9 * np.abs(S).max() ** 2)
    orig = mod._fit
    mod._fit = lambda *a, **k: orig(loglike_opt_kws=dict(TIGHT), rotation_opt_kws=rot_kw)
    mod.fit()
    ps, L, Phi = mod.psi, mod.L, mod.Phi
    if np.any(ps < 0.02 * np.diag(S)):
        ctx.skip("improper solution")
    Sig = L @ Phi @ L.T + np.diag(ps)
    ctx.close(mod.Sigma, Sig, "implied covariance", rtol=1e-8, atol=1e-10 * np.abs(S).max())
    # scaled residual gradient: the likelihood is stationary in loadings and unique variances
    V = np.linalg.inv(Sig)
    R = V @ (Sig - S) @ V
    d = np.sqrt(np.diag(S))
    ctx.check(np.abs(np.diag(R) * ps).max() < 2e-5, f"gradient in the unique variances at the fit {np.abs(np.diag(R) * ps).max()}")
    ctx.check(np.abs((R @ L) * d[:, None]).max() < 2e-5, f"gradient in the loadings at the fit {np.abs((R @ L) * d[:, None]).max()}")
    fv = fml(S, Sig)
    if kind is None:
        M = L.T @ (L / ps[:, None])
        ctx.close(M - np.diag(np.diag(M)), np.zeros((m, m)), "unrotated loadings are canonical", atol=1e-6 * np.abs(M).max())
    ctx.close(mod.A @ mod.A.T, L @ Phi @ L.T, "rotation preserves the common covariance", rtol=1e-7, atol=1e-8 * np.abs(S).max())
    cv = mod.constraints(mod.params)
    tol_c = 1e-6 * (np.abs(S).max() ** 2 if kind else np.abs(M).max())
    if m > 1 and np.abs(cv).max() > tol_c:
        ctx.skip("rotation stopped before its optimum")
    if np.linalg.cond(Phi) > 100:
        ctx.skip("factors nearly collapse")
    # standard errors from the bordered information, built here by differencing
    free = np.r_[np.arange(p * m), np.arange(p * m + m * (m - 1) // 2, p * m + m * (m - 1) // 2 + p)] if kind != "oblique" else np.arange(p * m + m * (m - 1) // 2 + p)
    jj, ii = np.triu_indices(m, 1)

    def unpack(th):
        F = np.eye(m)
        F[ii, jj] = F[jj, ii] = th[p * m:p * m + len(ii)]
        return th[:p * m].reshape(p, m, order="F"), F, th[-p:]

    def func(th):
        l, F, s = unpack(th)
        return fml(S, l @ F @ l.T + np.diag(s))

    th = np.concatenate([vec(L), vecl(Phi), ps])
    ctx.close(mod.params, th, "parameter vector", rtol=1e-9, atol=1e-12)
    h = np.concatenate([np.tile(d, m), np.ones(len(ii)), d ** 2])
    sf = lambda z: func(th + h * z)
    z0 = 0.02 * rng.uniform(-1, 1, len(th))
    ctx.close(mod.gradient_params(th + h * z0) * h, num.grad(sf, z0, h=1e-3), "gradient in all parameters", rtol=1e-5, atol=1e-6)
    Hn = num.jac(lambda z: mod.gradient_params(th + h * z) * h, np.zeros(len(th)), h=1e-3)
    Hs = mod.hessian_params(th) * np.outer(h, h)
    ctx.close(Hs, Hn, "hessian in all parameters", rtol=1e-5, atol=1e-5 * np.abs(Hn).max())
    if m > 1:
        Cn = num.jac(lambda z: mod.constraints(th + h * z), np.zeros(len(th)), h=1e-3)
        Cs = mod.constraint_derivs(th) * h
        ctx.close(Cs, Cn, "derivatives of the constraints", rtol=1e-5, atol=1e-6 * np.abs(Cn).max())
        Cn = Cs / np.abs(Cs).max()
        nc = len(Cn)
    else:
        Cn, nc = np.zeros((0, len(th))), 0
    B = np.zeros((len(free) + nc,) * 2)
    B[:len(free), :len(free)] = Hs[np.ix_(free, free)]
    B[len(free):, :len(free)] = Cn[:, free]
    B[:len(free), len(free):] = Cn[:, free].T
    if np.linalg.cond(B) > 1e8:
        ctx.skip("information nearly singular")
    se = np.sqrt(2 / n * np.diag(np.linalg.inv(B))[:len(free)]) * h[free]
    r = mod.res.values
    ctx.close(r[:, 0], th[free], "estimates in the table", rtol=1e-9, atol=1e-12)
    ctx.close(r[:, 1] / se, np.ones(len(se)), "standard errors", rtol=2e-4)
    ctx.close(r[:, 2], r[:, 0] / r[:, 1], "z values", rtol=1e-8, atol=1e-12)
    ctx.close(r[:, 3], 2 * sp.stats.norm.sf(np.abs(r[:, 2])), "p values", rtol=1e-8, atol=1e-300)
    ctx.close(mod.L_se, se[:p * m].reshape(p, m, order="F"), "L_se", rtol=2e-4)
    ctx.close(mod.psi_se, se[-p:], "psi_se", rtol=2e-4)
    lab = [f"L[{i}][{j}]" for j in range(m) for i in range(p)] + ([f"Phi[{i}][{j}]" for j in range(m) for i in range(j + 1, m)] if kind == "oblique" else []) + [f"Psi[{i}]" for i in range(p)]
    by = dict(zip(mod.res.index, r[:, 0]))
    ctx.equal(sorted(by), sorted(lab), "labels of the table")
    for l in lab:
        i, j = (int(x) for x in (l[l.index("[") + 1:-1].split("][") + ["0"])[:2])
        ctx.close(by[l], L[i, j] if l[0] == "L" else Phi[i, j] if l[:2] == "Ph" else ps[i], f"entry {l} of the table", rtol=1e-9, atol=1e-12)
    # test and fit measures
    k = p * m + p - m * (m - 1) // 2
    df = p * (p + 1) // 2 - k
    F0 = fv - np.linalg.slogdet(S)[1] - p
    Fn = -np.linalg.slogdet(S / np.outer(d, d))[1]
    dfn = p * (p - 1) // 2
    chi, chin = n * F0, n * Fn
    t = mod.chi2_table
    ctx.close(t.loc["Full", "Chi2"], chi, "chi-square", rtol=1e-6, atol=1e-6)
    ctx.close(t.loc["Null", "Chi2"], chin, "chi-square of independence", rtol=1e-8)
    ctx.equal(int(t.loc["Full", "df"]), df, "degrees of freedom")
    ctx.equal(int(t.loc["Null", "df"]), dfn, "degrees of freedom of independence")
    mi, ic = mod.misc_fit_indices["Value"], mod.incrimental_fit_indices["Value"]
    ctx.close(mi["AIC"] + 2 * mi["loglikelihood"], 2 * k, "AIC", atol=1e-6)
    ctx.close(mi["BIC"] + 2 * mi["loglikelihood"], np.log(n) * k, "BIC", atol=1e-6)
    if df > 0:
        ctx.close(t.loc["Full", "pval"], sp.stats.chi2(df).sf(chi), "p value", rtol=1e-4, atol=1e-9)
        ctx.close(mi["RMSEA"], np.sqrt(max(chi - df, 0) / (df * (n - 1))), "RMSEA", rtol=1e-4, atol=1e-6)
        ctx.close(ic["TLI"], (chin / dfn - chi / df) / (chin / dfn - 1), "TLI", rtol=1e-5, atol=1e-7)
        ctx.close(ic["NFI"], (chin - chi) / chin, "NFI", rtol=1e-5, atol=1e-7)
        ctx.close(ic["IFI"], (chin - chi) / (chin - df), "IFI", rtol=1e-5, atol=1e-7)
        ctx.close(ic["RNI"], 1 - (chi - df) / (chin - dfn), "RNI", rtol=1e-5, atol=1e-7)
        ctx.close(ic["CFI"], 1 - max(chi - df, 0) / max(chi - df, chin - dfn), "CFI", rtol=1e-5, atol=1e-7)
        SV = np.linalg.solve(Sig, S)
        gfi = 1 - np.trace((SV - np.eye(p)) @ (SV - np.eye(p))) / np.trace(SV @ SV)
        ctx.close(mi["GFI"], gfi, "GFI", rtol=1e-6)
        ctx.close(mi["AGFI"], 1 - p * (p + 1) / 2 / df * (1 - gfi), "AGFI", rtol=1e-5, atol=1e-7)
    ctx.close(mi["SRMR"], np.sqrt(np.sum(np.tril(((Sig - S) / np.outer(d, d)) ** 2)) / (p * (p + 1) / 2)), "SRMR", rtol=1e-4, atol=1e-7)
    # the answer does not depend on the units
    m2 = FactorAnalysis(X / sc, n_factors=m)
    f2, psi2 = m2._optimize_psi(dict(TIGHT))[::2][:2] if False else (None, m2._optimize_psi(dict(TIGHT))[2])
    ctx.close(psi2 * sc ** 2 / ps, np.ones(p), "unique variances under change of units", rtol=5e-4)
    # factor scores
    if case["src"] == "S":
        return
    Xc = X - X.mean(axis=0)
    for meth in ("thurstone", "bartlett", "mcdonald", "tenBerge"):
        Z, Bm = mod.estimate_factors(method=meth)
        ctx.close(Z, Xc @ Bm, f"{meth} scores", rtol=1e-8, atol=1e-9)
        if meth == "thurstone":
            ctx.close(Bm, np.linalg.solve(S, L @ Phi), "regression weights", rtol=1e-6, atol=1e-8 / d.min())
        elif meth == "bartlett":
            ctx.close(Bm.T @ L, np.eye(m), "Bartlett scores are unbiased", atol=1e-7)
        else:
            ctx.close(Bm.T @ S @ Bm, Phi, f"{meth} scores keep the factor correlations", atol=1e-6)
            ref = {"tenBerge": None, "mcdonald": None}
            Ph = sp.linalg.sqrtm(Phi).real
            Si = np.linalg.inv(sp.linalg.sqrtm(S).real)
            if meth == "tenBerge":
                U, _, Vt = np.linalg.svd(Si @ L @ Ph, full_matrices=False)
            else:
                U, _, Vt = np.linalg.svd(sp.linalg.sqrtm(S).real @ (L / ps[:, None]) @ Ph, full_matrices=False)
            ctx.close(Bm, Si @ U @ Vt @ Ph, f"{meth} weights", rtol=1e-5, atol=1e-6 / d.min())


@P.facet("agree", FC, quick=40, thorough=3000, shards=4, rule="several factors or data off unit scale", cost=4.0)
def agree(case, ctx):
    """the older estimator and pyfa2 give the same solution as the concentrated one"""
    from pystatsm.pyfa.efa import FactorAnalysis
    from pystatsm.pyfa.factor_analysis import FactorAnalysis as FA0
    from pystatsm.pyfa2.likelihood import MLEstimator
    from pystatsm.pyfa2.identification import RotationIdentification, CanonicalIdentification
    from pystatsm.pyfa2.criterion import GCFCriterion
    from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
    from pystatsm.pyfa2.alignment import align_model
    from pystatsm.pyfa2.inference import param_cov, sandwich_cov, empirical_cov_vech_S
    rng, p, m, X, sc = fa_data(case)
    n = len(X)
    S = np.cov(X.T, bias=True)
    d = np.sqrt(np.diag(S))
    ctx.nontrivial(m > 1 or case["scale"] != 1.0)
    kind = (case["kind"] or "ortho") if case["method"] and m > 1 else None
    e = FactorAnalysis(X, n_factors=m)
    opt, rho, ps, A = e._optimize_psi(dict(TIGHT))
    if np.any(ps < 0.02 * np.diag(S)):
        ctx.skip("improper solution")
    est = MLEstimator(S, m)
    out = est.fit_psi(**TIGHT)
    ctx.close(out["psi"] / ps, np.ones(p), "unique variances of the two packages", rtol=5e-4)
    L2 = out["Lambda"]
    psi = np.diag(S) * rng.uniform(0.3, 0.7, p)
    ctx.close(est.loglike_psi(psi), e.loglike(psi), "concentrated objective", rtol=1e-9)
    ctx.close(est.grad_exp(np.log(psi)), e.gradient_exp(np.log(psi)), "gradient", rtol=1e-7, atol=1e-8)
    ctx.close(est.hess_exp(np.log(psi)), e.hessian_exp(np.log(psi)), "hessian", rtol=1e-6, atol=1e-7)
    # identification
    if kind is None:
        ident = CanonicalIdentification(p, m)
        q = ortho(rng, m)
        fit = ident.fit(L2 @ q, ps)
        M = fit["L"].T @ (fit["L"] / ps[:, None])
        ctx.close(M, np.diag(np.diag(M)), "canonical loadings", atol=1e-7 * np.abs(M).max())
        ctx.close(np.abs(fit["L"]), np.abs(L2[:, np.argsort(-np.sum(L2 ** 2 / ps[:, None], axis=0))]), "canonical loadings are unique up to sign", rtol=1e-4, atol=1e-4 * d.max()) if m > 1 and np.min(np.diff(np.sort(np.diag(M)))) > 0.05 * np.abs(M).max() else None
        ctx.close(fit["L"], L2 @ q @ fit["T"], "canonical rotation", rtol=1e-8, atol=1e-9 * d.max())
        L, Phi = fit["L"], np.eye(m)
    else:
        cr = GCFCriterion(case["method"], p, m)
        rot = OrthoRotation(m) if kind == "ortho" else ObliqueRotation(m)
        ident = RotationIdentification(rot, cr, n_iters=20000, tol=1e-9 * np.abs(S).max() ** 2)
        fit = ident.fit(L2)
        L, Phi = fit["L"], fit["Phi"]
    lay = est.layout
    th = lay.pack(L, Phi, ps)
    l0, F0, s0 = lay.unpack(th)
    ctx.close(np.concatenate([vec(l0), vec(F0), s0]), np.concatenate([vec(L), vec(Phi), ps]), "pack and unpack", rtol=1e-12, atol=1e-12)
    h = np.concatenate([np.tile(d, m), np.ones(m * (m - 1) // 2), d ** 2])
    Sg = L @ Phi @ L.T + np.diag(ps)
    z0 = 0.02 * rng.uniform(-1, 1, len(th))
    F = lambda z: est.F(th + h * z)
    ctx.close(est.F(th), fml(S, Sg), "objective", rtol=1e-9)
    ctx.close(est.sigma(th), Sg, "implied covariance", rtol=1e-9, atol=1e-10 * d.max() ** 2)
    ctx.close(est.grad(th + h * z0) * h, num.grad(F, z0, h=1e-3), "gradient in all parameters", rtol=1e-5, atol=1e-6)
    Hn = num.jac(lambda z: est.grad(th + h * z) * h, np.zeros(len(th)), h=1e-3)
    ctx.close(est.hessian(th) * np.outer(h, h), Hn, "hessian in all parameters", rtol=1e-5, atol=1e-6 * np.abs(Hn).max())
    D = est.dsigma(th)
    Dn = num.jac(lambda z: (est.sigma(th + h * z) / np.outer(d, d)).ravel(), np.zeros(len(th)), h=1e-3)
    ctx.close((D * h[:, None, None] / np.outer(d, d)).reshape(len(th), -1).T, Dn, "derivatives of the implied covariance", rtol=1e-6, atol=1e-7)
    # score jacobian and the sandwich
    v0 = vech(S)

    def of_s(v):
        M = np.zeros((p, p))
        jj, ii = np.triu_indices(p)
        M[ii, jj] = M[jj, ii] = v
        return MLEstimator(M, m).grad(th) * h
    vs = vech(np.outer(d, d))
    Bn = num.jac(lambda z: of_s(v0 + vs * z), np.zeros(len(v0)), h=1e-3)
    ctx.close(est.score_jacobian(th) * h[:, None] * vs, Bn, "derivative of the score in the sample covariance", rtol=1e-5, atol=1e-6)
    Vs = empirical_cov_vech_S(X)
    Xc = X - X.mean(axis=0)
    w = np.array([vech(np.outer(x, x)) for x in Xc])
    ctx.close(Vs, np.cov(w.T) / n, "covariance of the sample moments", rtol=1e-8, atol=1e-12)
    ctx.close(est.meat(th, V_S=Vs) * np.outer(h, h), (Bn / vs) @ Vs @ (Bn / vs).T, "meat", rtol=1e-5, atol=1e-6)
    G = num.jac(lambda z: vech(est.sigma(th + h * z)), np.zeros(len(th)), h=1e-3)
    mt = est.meat(th, n_obs=n) * np.outer(h, h)
    Si = np.linalg.inv(Sg)
    Ds = (D * h[:, None, None])
    ref = 2 / n * np.einsum("aij,bji->ab", Ds @ Si, Ds @ Si)
    ctx.close(mt, ref, "meat under normality", rtol=1e-6, atol=1e-8)
    if m > 1:
        C = ident.d_constraint(th)
        Cn = num.jac(lambda z: ident.constraint(th + h * z), np.zeros(len(th)), h=1e-3)
        ctx.close(C * h, Cn, "derivatives of the constraints", rtol=1e-5, atol=1e-6 * np.abs(Cn).max())
        ctx.equal(len(C), ident.n_constraints(), "number of constraints")
        if np.abs(ident.constraint(th)).max() > 1e-6 * max(np.abs(S).max() ** 2 if kind else 1e9, 1e-12) or np.linalg.cond(Phi) > 100:
            ctx.skip("rotation stopped before its optimum")
    else:
        C = np.zeros((0, len(th)))
    mask = ident.free_mask()
    e2 = FactorAnalysis(X, n_factors=m, rotation_method=case["method"] if kind else None, rotation_type=kind)
    V = param_cov(est.hessian(th), C, mask, n)
    Ha = e2.hessian_aug(th)
    if np.linalg.cond(Ha / np.abs(Ha).max()) > 1e13:
        ctx.skip("information nearly singular")
    se = np.sqrt(np.diag(np.linalg.inv(Ha))[:mask.sum()] * 2 / n)
    ctx.close(np.sqrt(np.diag(V)) / se, np.ones(len(se)), "standard errors of the two packages", rtol=1e-4)
    Wd = sandwich_cov(est.hessian(th), C, est.meat(th, V_S=Vs), mask)
    ctx.check(np.all(np.diag(Wd) > 0), "sandwich variances are positive")
    # older estimator
    o = FA0(X, n_factors=m, rotation_method=case["method"] if kind else None, rotation_type=kind)
    t0 = np.concatenate([vec(A) + 0.05 * np.tile(d, m) * rng.standard_normal(p * m), np.log(ps) + 0.1 * rng.standard_normal(p)])
    hh = np.concatenate([np.tile(d, m), np.ones(p)])
    ctx.close(o.gradient(t0) * hh, num.grad(lambda z: o.loglike(t0 + hh * z), np.zeros(len(t0)), h=1e-3), "gradient of the older estimator", rtol=1e-5, atol=1e-6)
    Hn = num.jac(lambda z: o.gradient(t0 + hh * z) * hh, np.zeros(len(t0)), h=1e-3)
    ctx.close(o.hessian(t0) * np.outer(hh, hh), Hn, "hessian of the older estimator", rtol=1e-5, atol=1e-6 * np.abs(Hn).max())
    if case["scale"] not in (1.0, "mixed"):
        return
    if case["scale"] == "mixed":
        return
    if case["src"] == "S":
        o = FA0(S=pd.DataFrame(S), n_obs=n, n_factors=m, rotation_method=case["method"] if kind else None, rotation_type=kind)
    o.fit(opt_kws=TIGHT)
    Ls = np.asarray(o.L)
    ctx.close(np.diag(o.Psi) / ps, np.ones(p), "unique variances of the older estimator", rtol=2e-3)
    ctx.close(o.Sigma, Sg, "implied covariance of the older estimator", rtol=1e-3, atol=2e-4 * np.abs(S).max())
    k = p * m + p - m * (m - 1) // 2
    df = p * (p + 1) // 2 - k
    ss = o.sumstats
    F0v = fml(S, o.Sigma) - np.linalg.slogdet(S)[1] - p
    ctx.close(ss["chi2"], max((n - 1) * F0v, 1e-12), "chi-square", rtol=1e-5, atol=1e-6)
    if df > 0:
        ctx.close(ss["chi2_pvalue"], sp.stats.chi2(df).sf(ss["chi2"]), "p value of the chi-square test", rtol=1e-6, atol=1e-12)
        ctx.close(ss["RMSEA"], np.sqrt(max(ss["chi2"] - df, 0) / (df * (n - 1))), "RMSEA", rtol=1e-6, atol=1e-9)
        ctx.close(ss["std_chi2"], (ss["chi2"] - df) / np.sqrt(2 * df), "standardised chi-square", rtol=1e-6, atol=1e-9)
    ctx.close(ss["AIC"] + 2 * ss["loglikelihood"], 2 * k, "AIC", atol=1e-6)
    ctx.close(ss["BIC"] + 2 * ss["loglikelihood"], np.log(n) * k, "BIC", atol=1e-6)
    ctx.close(ss["loglikelihood"], -(n - 1) / 2 * fml(S, o.Sigma), "log-likelihood", rtol=1e-8, atol=1e-8)
    if m == 1 or kind is None:
        e2.params = None
        th2 = np.concatenate([vec(Ls), vecl(o.Phi), np.diag(o.Psi)])
        Ha = e2.hessian_aug(th2)
        if np.linalg.cond(Ha / np.abs(Ha).max()) < 1e12:
            s2 = np.sqrt(np.diag(np.linalg.inv(Ha))[:p * m + p] * 2 / n)
            ctx.close(o.se_params / s2, np.ones(len(s2)), "standard errors of the older estimator", rtol=1e-3)
    if o.X is None:
        return
    if kind is None and m > 1:
        M = Ls.T @ (Ls / np.diag(o.Psi)[:, None])
        ctx.close(M - np.diag(np.diag(M)), np.zeros((m, m)), "the older estimator's unrotated loadings are canonical", atol=2e-3 * np.abs(M).max())
    W = np.asarray(o.factor_coefs)
    ctx.close(W.T @ S @ W, o.Phi, "ten Berge scores keep the factor correlations", atol=1e-5)
    c2, sc2 = o.compute_factors("thurstone")
    ctx.close(c2, np.linalg.solve(S, Ls @ o.Phi), "regression scores", rtol=1e-5, atol=1e-7)


AC = dicts(seed=seeds(), **PM, noise=st.sampled_from([0.0, 0.05, 0.1]), normalize=st.booleans())


@P.facet("align", AC, quick=150, thorough=10000, shards=1, rule="at least two factors")
def align(case, ctx):
    """alignment recovers the signed permutation that was applied"""
    from pystatsm.pyfa2 import alignment as al
    from pystatsm.pyfa.align_loadings import align_model_matrices, get_loadings_permutation
    from pystatsm.pyfa.efa import FactorAnalysis
    rng = rng_of(case)
    p, m = dims(case)
    p = max(p, 3 * m)
    ctx.nontrivial(m > 1)
    L0 = simple_loadings(rng, p, m, 0.1)
    Phi0 = num.corr(rng, m) if m > 1 else np.eye(1)
    Phi0 = 0.5 * Phi0 + 0.5 * np.eye(m)
    se0, fse0 = rng.uniform(0.1, 1, (p, m)), rng.uniform(0.1, 1, (m, m))
    fse0 = fse0 + fse0.T
    Lx = L0 + case["noise"] * rng.uniform(-1, 1, L0.shape)
    o, s = rng.permutation(m), rng.choice([-1.0, 1.0], m)
    L, Phi, se, fse = (Lx * s)[:, o], (Phi0 * np.outer(s, s))[np.ix_(o, o)], se0[:, o], fse0[np.ix_(o, o)]
    out = al.align_model(L, L0, Phi=Phi, L_se=se, Phi_se=fse, normalize=case["normalize"])
    for got, want, w in ((out["L"], Lx, "loadings"), (out["Phi"], Phi0, "factor correlations"), (out["L_se"], se0, "standard errors"), (out["Phi_se"], fse0, "standard errors of the correlations")):
        ctx.close(got, want, f"aligned {w}", rtol=1e-12, atol=1e-12)
    a, b, c, d, j, sg = align_model_matrices(L0, L, Phi, se, fse)
    for got, want, w in ((a, Lx, "loadings"), (c, Phi0, "factor correlations"), (b, se0, "standard errors"), (d, fse0, "standard errors of the correlations")):
        ctx.close(got, want, f"align_model_matrices: {w}", rtol=1e-12, atol=1e-12)
    # sorting of the factors
    A = L0 @ np.linalg.cholesky(Phi0)
    T = unit_cols(rng, m)
    L1, P1 = A @ np.linalg.inv(T).T, T.T @ T
    mod = FactorAnalysis(S=pd.DataFrame(L0 @ L0.T + np.eye(p)), n_obs=100, n_factors=m)
    L2, T2, P2, perm = mod.order_loadings(L1, T, P1)
    ctx.close(L2, L1 @ perm, "sorted loadings and the permutation", rtol=1e-10, atol=1e-12)
    ctx.close(T2, T @ perm, "sorted rotation and the permutation", rtol=1e-10, atol=1e-12)
    ctx.close(P2, T2.T @ T2, "sorted factor correlations", rtol=1e-10, atol=1e-12)
    ctx.close(L2 @ P2 @ L2.T, A @ A.T, "sorting preserves the common covariance", rtol=1e-9, atol=1e-11)
    ctx.check(np.all(np.diff((L2 ** 2).sum(axis=0)) >= -1e-12), "factors are in order of their sum of squares")
    ctx.check(np.all(L2.sum(axis=0) >= -1e-12), "factors point to positive loadings")


SIMC = dicts(seed=seeds(), p=st.sampled_from([6, 9, 12, 7]), m=st.sampled_from([2, 3, 1, 4]), n=st.sampled_from([50, 200]), rl=st.booleans(), rf=st.booleans(), rr=st.booleans(), given=st.booleans())


@P.facet("simulate", SIMC, quick=80, thorough=5000, shards=1, rule="at least two factors")
def simulate(case, ctx):
    """simulated factor models: the covariance they declare is the one they draw from, and a seed reproduces the data"""
    from pystatsm.pyfa.simulate_factor_model import FactorModelSim
    from pystatsm.pyfa2.simulation import FactorModel, generate_loadings, generate_factor_corr, generate_uniquenesses
    rng = rng_of(case)
    p, m, n = case["p"], case["m"], case["n"]
    ctx.nontrivial(m > 1)

    def make():
        kw = dict(L=simple_loadings(np.random.default_rng(3), p, m, 0.1)) if case["given"] else {}
        s = FactorModelSim(n_vars=p, n_facs=m, seed=case["seed"], **kw)
        s.simulate_cov(loadings_kws=dict(random=case["rl"]), factor_corr_kws=dict(random=case["rf"]), residual_cov_kws=dict(random=case["rr"]))
        return s
    s = make()
    ctx.equal(np.shape(s.Phi), (m, m), "shape of the factor correlations")
    ctx.close(np.diag(s.Phi), np.ones(m), "factors have unit variance", atol=1e-10)
    ctx.close(s.Sigma, s.L @ s.Phi @ s.L.T + s.Psi, "declared covariance", rtol=1e-10, atol=1e-12)
    if case["given"]:
        ctx.close(s.L, simple_loadings(np.random.default_rng(3), p, m, 0.1), "given loadings are kept")
    s2 = make()
    ctx.close(s2.Sigma, s.Sigma, "same seed, same model", rtol=1e-12, atol=1e-14)
    for exact in (True, False):
        Z, X = s.simulate_data(n_obs=n, exact=exact)
        ctx.equal((Z.shape, X.shape), ((n, p + m), (n, p)), "shapes of the simulated data")
        ctx.close(X, Z[:, :m] @ s.L.T + Z[:, m:], "data from the factors and residuals", rtol=1e-10, atol=1e-11)
        if exact:
            ctx.close(np.cov(X.T, bias=True), s.Sigma, "exact draws reproduce the covariance", rtol=1e-7, atol=1e-8)
        Z2, X2 = s2.simulate_data(n_obs=n, exact=exact)
        ctx.close(X2, X, f"same seed, same data (exact={exact})", rtol=1e-10, atol=1e-11)
    L = generate_loadings(p, m, random=case["rl"], rng=np.random.default_rng(case["seed"]))
    ctx.close(L, generate_loadings(p, m, random=case["rl"], rng=np.random.default_rng(case["seed"])), "same generator, same loadings")
    ctx.check(np.all((L != 0).sum(axis=1) == 1) and np.all((L != 0).sum(axis=0) >= p // m), "every variable loads on one factor")
    ctx.check(np.all((L[L != 0] >= 0.4) & (L[L != 0] <= 0.9)), "loadings in the asked range")
    Phi = generate_factor_corr(m, random=case["rf"], rng=np.random.default_rng(case["seed"]))
    ctx.equal(np.shape(Phi), (m, m), "shape of generate_factor_corr")
    ctx.close(np.diag(Phi), np.ones(m), "generated correlations have unit diagonal", atol=1e-10)
    ctx.check(np.linalg.eigvalsh(Phi)[0] > 0, "generated correlations are positive definite")
    psi = generate_uniquenesses(p, random=case["rr"], rng=np.random.default_rng(case["seed"]))
    fm = FactorModel(L, Phi, psi)
    ctx.close(fm.Sigma, L @ Phi @ L.T + np.diag(psi), "FactorModel covariance", rtol=1e-10, atol=1e-12)
    X = fm.sample(4000, rng=np.random.default_rng(case["seed"]))
    z = (np.cov(X.T, bias=True) - fm.Sigma) / np.sqrt((np.outer(np.diag(fm.Sigma), np.diag(fm.Sigma)) + fm.Sigma ** 2) / 4000)
    ctx.check(np.abs(z).max() < 6.5, f"sample covariance of FactorModel is {np.abs(z).max()} standard errors off")
