"""C07: random generators and covariance constructors honour their documented law / structure."""
import numpy as np
import scipy as sp
import scipy.stats
import scipy.spatial
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts
from .. import num

P = Property("C07", "Random generators and covariance constructors satisfy their defining constraints exactly and their law statistically")
P.assumptions = ["statistical facets are deterministic per case (seeded) and use Kolmogorov-Smirnov / z thresholds with false-alarm probability below 1e-8 per comparison"]


def R():
    from pystatsm.utilities import random
    return random


def CU():
    from pystatsm.utilities import cov_utils
    return cov_utils


_seed = None


def nbseed(s):
    global _seed
    if _seed is None:
        import numba

        @numba.jit(nopython=True)
        def f(s):
            np.random.seed(s)
        _seed = f
    _seed(int(s))


def is_corr(ctx, S, what, tol=1e-8, psd=True):
    ctx.close(np.diag(S), np.ones(len(S)), what + " unit diagonal", rtol=0, atol=1e-10)
    ctx.close(S, S.T, what + " symmetric", rtol=0, atol=1e-12)
    ctx.check(np.abs(S).max() <= 1 + 1e-9, what + " entries within [-1, 1]")
    if psd:
        m = np.linalg.eigvalsh((S + S.T) / 2).min()
        ctx.check(m > -tol, f"{what} is not positive semidefinite: min eigenvalue {m}")


def ks(ctx, x, cdf, what):
    """two-sided KS with p-value threshold about 2e-9"""
    n = len(x)
    D = sp.stats.kstest(x, cdf).statistic
    ctx.check(D * np.sqrt(n) < 3.25, f"{what}: KS distance {D:.4f} from the named law (n={n}, limit {3.25/np.sqrt(n):.4f})")


@P.facet("exact_rmvnorm", dicts(p=st.integers(1, 6), n=st.integers(12, 60), mean=st.booleans(), corr=st.booleans(), s=st.integers(0, 2**31 - 1), seed=seeds()),
         quick=200, rule="p >= 2 with a mean")
def exact(case, ctx):
    u, rng, p = R(), rng_of(case), case["p"]
    S = num.corr(rng, p) if case["corr"] else num.spd(rng, p) * rng.uniform(0.2, 5)
    mu = rng.standard_normal(p) if case["mean"] else None
    X = u.exact_rmvnorm(S, n=case["n"], mu=mu, seed=case["s"])
    ctx.nontrivial(p >= 2 and mu is not None)
    ctx.check(X.shape == (case["n"], p), "shape")
    ctx.close(np.cov(X, rowvar=False, ddof=0).reshape(p, p), S, "sample covariance equals S exactly", rtol=1e-7, atol=1e-9)
    ctx.close(X.mean(axis=0), np.zeros(p) if mu is None else mu, "sample mean equals mu exactly", rtol=1e-7, atol=1e-9)
    ctx.equal(u.exact_rmvnorm(S, n=case["n"], mu=mu, seed=case["s"]), X, "same seed, same draw")
    c = CU()
    Y = rng.standard_normal((case["n"], p)) @ rng.standard_normal((p, p))
    Z = c._exact_cov(Y, cov=S)
    ctx.close(np.cov(Z, rowvar=False, ddof=0).reshape(p, p), S, "_exact_cov covariance", rtol=1e-6, atol=1e-8)
    Yc = Y - Y.mean(0)
    m = rng.standard_normal(p)
    ctx.close(c._exact_cov(Yc, mean=m, cov=S).mean(0), m, "_exact_cov mean of centred input", rtol=1e-7, atol=1e-7)


@P.facet("correlation_generators", dicts(d=st.integers(2, 7), eta=st.floats(0.6, 4.0), s=st.integers(0, 2**31 - 1), n=st.integers(1, 4),
                                         etas=st.lists(st.floats(0.6, 4.0), min_size=1, max_size=3)), quick=250, rule="d >= 3")
def corrgen(case, ctx):
    u, d = R(), case["d"]
    ctx.nontrivial(d >= 3)
    V = u.vine_corr(d, eta=case["eta"], seed=case["s"])
    broken = ctx.excludes("F006", d >= 3)
    is_corr(ctx, V, "vine_corr", psd=not broken)
    ctx.equal(u.vine_corr(d, eta=case["eta"], seed=case["s"]), V, "vine_corr is reproducible by seed")
    is_corr(ctx, u.vine_corr(d, eta=case["eta"], seed=case["s"], min_eig=True), "vine_corr(min_eig)")
    nbseed(case["s"])
    is_corr(ctx, u.onion_corr(d, eta=case["eta"]), "onion_corr")
    L = u.r_lkj_cholesky(eta=np.array(case["etas"]), n=case["n"], dim=d, seed=case["s"])
    K = u.r_lkj(eta=np.array(case["etas"]), n=case["n"], dim=d, seed=case["s"])
    ctx.check(K.shape == (case["n"], len(case["etas"]), d, d), f"r_lkj shape {K.shape}")
    for i in np.ndindex(*K.shape[:2]):
        is_corr(ctx, K[i], "r_lkj")
        ctx.equal(np.triu(L[i], 1), np.zeros((d, d)), "r_lkj_cholesky lower triangular")
        ctx.check((np.diag(L[i]) > 0).all(), "r_lkj_cholesky positive diagonal")
        ctx.close(L[i] @ L[i].T, K[i], "r_lkj = L L'", rtol=0, atol=1e-12)
    c = CU()
    is_corr(ctx, c.get_lkj_corr(d, case["eta"], dict(seed=case["s"])), "get_lkj_corr")


@P.facet("lkj_law", dicts(d=st.integers(2, 5), eta=st.floats(0.7, 4.0), s=st.integers(0, 2**31 - 1)), quick=40, shards=4, cost=3, rule="d >= 3")
def lkj_law(case, ctx):
    """each off-diagonal entry of an LKJ(eta) matrix is 2 Beta(eta-1+d/2, eta-1+d/2) - 1"""
    u, d, eta = R(), case["d"], case["eta"]
    ctx.nontrivial(d >= 3)
    law = sp.stats.beta(eta - 1 + d / 2, eta - 1 + d / 2, loc=-1, scale=2).cdf
    K = u.r_lkj(eta=eta, n=3000, dim=d, seed=case["s"])[:, 0]
    nbseed(case["s"])
    O = np.array([u.onion_corr(d, eta=eta) for _ in range(1500)])
    for i in range(d):
        for j in range(i):
            ks(ctx, K[:, i, j], law, f"r_lkj entry {i},{j}")
            ks(ctx, O[:, i, j], law, f"onion_corr entry {i},{j}")


@P.facet("wishart", dicts(p=st.integers(1, 5), extra=st.integers(0, 12), s=st.integers(0, 2**31 - 1), seed=seeds()), quick=120, rule="p >= 2")
def wish(case, ctx):
    u, rng, p = R(), rng_of(case), case["p"]
    df = p + case["extra"] + 1
    V = num.spd(rng, p) * rng.uniform(0.3, 3)
    ctx.nontrivial(p >= 2)
    L = np.linalg.cholesky(V)
    nbseed(case["s"])
    W = u.wishart(df, V)
    nbseed(case["s"])
    W1 = u.wishart(df, np.eye(p))
    ctx.close(W, L @ W1 @ L.T, "wishart scale equivariance", rtol=1e-9)
    ctx.check(np.linalg.eigvalsh(W).min() > 0, "wishart draw positive definite")
    nbseed(case["s"])
    ctx.close(u.invwishart(df, V), np.linalg.inv(W), "invwishart(df, V) inverts wishart(df, V)", rtol=1e-6)
    nbseed(case["s"])
    a = u.r_invwishart(df, V)
    nbseed(case["s"])
    ctx.close(a, np.linalg.inv(u.wishart(df, np.linalg.inv(V))), "r_invwishart(df, V) inverts wishart(df, V^-1)", rtol=1e-6)
    nbseed(case["s"] + 1)
    n = 600
    D = np.array([u.wishart(df, V) for _ in range(n)])
    for i in range(p):
        # W_ii / V_ii ~ chi2(df); e_i' W^-1 e_i: V^-1_ii / W^-1_ii ~ chi2(df - p + 1)
        ks(ctx, D[:, i, i] / V[i, i], sp.stats.chi2(df).cdf, f"wishart diagonal {i}")
    Wi = np.linalg.inv(D)
    Vi = np.linalg.inv(V)
    for i in range(p):
        ks(ctx, Vi[i, i] / Wi[:, i, i], sp.stats.chi2(df - p + 1).cdf, f"inverse wishart diagonal {i}")


@P.facet("truncated_normal", dicts(mu=st.floats(-3, 3), sd=st.floats(0.1, 4), kind=st.sampled_from(["none", "lower", "upper", "both"]),
                                   a=st.floats(-4, 4), w=st.floats(0.05, 5), s=st.integers(0, 2**31 - 1)), quick=150, cost=2, rule="bounded")
def trunc(case, ctx):
    u = R()
    mu, sd, k = case["mu"], case["sd"], case["kind"]
    lb = mu + sd * case["a"] if k in ("lower", "both") else -np.inf
    ub = (lb + sd * case["w"]) if k == "both" else (mu + sd * case["a"] if k == "upper" else np.inf)
    if k == "none":
        lb, ub = -np.inf, np.inf
    ctx.nontrivial(k != "none")
    ctx.label(k)
    n = 1500
    nbseed(case["s"])
    one = np.ones(n)
    z = u.trnorm(mu * one, sd * one, lb * one, ub * one).astype(float)
    eps = 1e-5 * (1 + abs(mu) + 6 * sd)
    ctx.check((z >= lb - eps).all() and (z <= ub + eps).all(), f"trnorm outside [{lb}, {ub}]: {z.min()}..{z.max()}")
    law = sp.stats.truncnorm((lb - mu) / sd, (ub - mu) / sd, loc=mu, scale=sd)
    ks(ctx, z, law.cdf, f"trnorm ({k})")
    nbseed(case["s"])
    y = np.array([u.scalar_truncnorm(mu, sd, lb, ub) for _ in range(200)])
    ctx.close(y, z[:200], "trnorm = scalar_truncnorm elementwise", rtol=0, atol=eps)


@P.facet("multivariate_t", dicts(p=st.integers(1, 4), nu=st.integers(1, 12), s=st.integers(0, 2**31 - 1), seed=seeds()), quick=60, rule="p >= 2")
def mvt(case, ctx):
    u, rng, p, nu = R(), rng_of(case), case["p"], case["nu"]
    ctx.nontrivial(p >= 2)
    S, m = num.spd(rng, p), rng.standard_normal(p) * 3
    n = 3000
    g = lambda: np.random.default_rng(case["s"])
    X = u.multivariate_t(m, S, nu=nu, size=n, rng=g())
    X0 = u.multivariate_t(np.zeros(p), S, nu=nu, size=n, rng=g())
    ctx.check(X.shape == (n, p), "shape")
    ctx.close(X - X0, np.broadcast_to(m, X.shape), "multivariate_t location", rtol=0, atol=1e-8 * (1 + np.abs(X0).max()))
    q = np.einsum("ij,jk,ik->i", X - m, np.linalg.inv(S), X - m) / p
    ks(ctx, q, sp.stats.f(p, nu).cdf, "multivariate_t Mahalanobis distance")
    for i in range(p):
        ks(ctx, (X[:, i] - m[i]) / np.sqrt(S[i, i]), sp.stats.t(nu).cdf, f"multivariate_t margin {i}")
    loc, scale = rng.standard_normal(), rng.uniform(0.2, 4)
    ks(ctx, (u.students_t(loc, scale, nu=nu, size=n, rng=g()) - loc) / scale, sp.stats.t(nu).cdf, "students_t")
    ks(ctx, (u.cauchy(loc, scale, size=n, rng=g()) - loc) / scale, sp.stats.cauchy.cdf, "cauchy")


@P.facet("orthogonal", dicts(n=st.integers(2, 9), p=st.integers(1, 9), s=st.integers(0, 2**31 - 1)), quick=200, rule="n >= 3")
def ortho(case, ctx):
    u, n = R(), case["n"]
    ctx.nontrivial(n >= 3)
    H = u._special_ortho(n, seed=case["s"])
    ctx.close(H @ H.T, np.eye(n), "_special_ortho orthogonal", rtol=0, atol=1e-10)
    ctx.close(np.linalg.det(H), 1.0, "_special_ortho determinant", rtol=0, atol=1e-8)
    p = min(case["p"], n)
    Q = u._ortho_norm(n, p, seed=case["s"])
    ctx.check(Q.shape == (n, p), "_ortho_norm shape")
    ctx.close(Q.T @ Q, np.eye(p), "_ortho_norm orthonormal columns", rtol=0, atol=1e-10)


@P.facet("structured_correlations", dicts(n=st.integers(2, 8), k=st.integers(1, 3), seed=seeds()), quick=300, rule="n >= 4")
def structs(case, ctx):
    c, rng, n, k = CU(), rng_of(case), case["n"], case["k"]
    ctx.nontrivial(n >= 4)
    lag = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
    r = rng.uniform(-0.95, 0.95)
    A = c.get_ar1_corr(n, r)
    ctx.close(A, np.where(lag == 0, 1.0, np.sign(r) ** lag * np.abs(r) ** lag), "get_ar1_corr")
    is_corr(ctx, A, "get_ar1_corr")
    cc = rng.uniform(-1 / (n - 1), 1)
    E = c.get_exchangeable_corr(n, cc)
    ctx.close(E, np.where(lag == 0, 1.0, cc), "get_exchangeable_corr")
    is_corr(ctx, E, "get_exchangeable_corr")
    ctx.raises(ValueError, lambda: c.get_exchangeable_corr(n, -1 / (n - 1) - 0.01), "get_exchangeable_corr below its bound")
    rho = rng.uniform(-0.95, 0.95, n - 1)
    want = np.eye(n)
    for i in range(n):
        for j in range(i + 1, n):
            want[i, j] = want[j, i] = np.prod(rho[i:j])
    An = c.get_antedependence1_corr(rho)
    ctx.close(An, want, "get_antedependence1_corr")
    is_corr(ctx, An, "get_antedependence1_corr")
    off = [rng.uniform(-0.4, 0.4, n - i) for i in range(1, min(k, n - 1) + 1)]
    M = np.eye(n)
    for i, o in enumerate(off, 1):
        M += np.diag(o, i) + np.diag(o, -i)
    ctx.close(c.get_mdependent_corr(off), M, "get_mdependent_corr")
    Lm, psi, Phi = rng.standard_normal((n, k)), rng.uniform(0.1, 2, n), num.corr(rng, k)
    want = Lm @ Phi @ Lm.T + np.diag(psi)
    ctx.close(c.get_factor_cov(Lm, psi, Phi), want, "get_factor_cov")
    ctx.close(c.get_factor_cov(Lm, np.diag(psi), Phi), want, "get_factor_cov with a diagonal matrix")
    ctx.close(c.get_factor_cov(Lm, psi), Lm @ Lm.T + np.diag(psi), "get_factor_cov orthogonal factors")
    pts = rng.uniform(0, 3, (n, 2))
    D = sp.spatial.distance.pdist(pts)
    DM = sp.spatial.distance.squareform(D)
    p, th = rng.uniform(0.05, 0.95), rng.uniform(0.2, 4)
    for d in (D, DM):
        S = c.get_spatialpower_corr(p, d)
        ctx.close(S, p ** DM, "get_spatialpower_corr")
        is_corr(ctx, S, "get_spatialpower_corr")
        S = c.get_spatialexp_corr(th, d)
        ctx.close(S, np.exp(-DM / th), "get_spatialexp_corr")
        is_corr(ctx, S, "get_spatialexp_corr")
        is_corr(ctx, c.get_spatialgaussian_corr(th, d), "get_spatialgaussian_corr")
    t = rng.uniform(-0.3, 0.3, n - 1)
    ctx.close(c.get_toeplitz_corr(t), np.r_[1.0, t][lag], "get_toeplitz_corr")
    u = rng.uniform(0.1, 3, n)
    Rm = c.get_eig_corr(u, rng=np.random.default_rng(case["seed"]))
    is_corr(ctx, Rm, "get_eig_corr")
    ctx.close(np.linalg.eigvalsh(Rm), np.sort(u / u.sum() * n), "get_eig_corr eigenvalues", rtol=1e-7)
    ev = c.get_eigvals(n, 0.5)
    ctx.check((ev > 0).all() and (np.diff(ev) <= 0).all(), "get_eigvals positive and decreasing")


@P.facet("canonical_correlation_structure", dicts(p=st.integers(1, 4), q=st.integers(1, 5), seed=seeds()), quick=200, rule="p >= 2 and q > p")
def canvar(case, ctx):
    c, rng = CU(), rng_of(case)
    p, q = min(case["p"], case["q"]), max(case["p"], case["q"])
    ctx.nontrivial(p >= 2 and q > p)
    Sx, Sy = num.corr(rng, p), num.corr(rng, q)
    r = np.sort(rng.uniform(0.05, 0.9, p))[::-1]

    def cancor(S):
        ctx.close(S[:p, :p], Sx, "x block", rtol=1e-9)
        ctx.close(S[p:, p:], Sy, "y block", rtol=1e-9)
        ctx.close(S, S.T, "symmetric", rtol=1e-9)
        ix = lambda A: np.linalg.inv(np.linalg.cholesky(A))
        return np.linalg.svd(ix(S[:p, :p]) @ S[:p, p:] @ ix(S[p:, p:]).T, compute_uv=False)
    ctx.close(cancor(c.get_canvar_corr(Sx, Sy, r)), r, "canonical correlations", rtol=0, atol=1e-7)
    k = p
    Qx = np.linalg.qr(rng.standard_normal((p, k)))[0]
    Qy = np.linalg.qr(rng.standard_normal((q, k)))[0]
    Vx = np.linalg.inv(np.linalg.cholesky(Sx)).T @ Qx * rng.uniform(0.5, 2, k)
    Vy = np.linalg.inv(np.linalg.cholesky(Sy)).T @ Qy * rng.uniform(0.5, 2, k)
    S = c.get_canvar_corr(Sx, Sy, r[:k], Vx=Vx, Vy=Vy)
    ctx.close(cancor(S)[:k], r[:k], "canonical correlations with given variates", rtol=0, atol=1e-7)
    wx, wy = Vx[:, 0] / np.sqrt(Vx[:, 0] @ Sx @ Vx[:, 0]), Vy[:, 0] / np.sqrt(Vy[:, 0] @ Sy @ Vy[:, 0])
    ctx.close(wx @ S[:p, p:] @ wy, r[0], "correlation of the first given variate pair", rtol=0, atol=1e-8)


@P.facet("nearest_psd", dicts(n=st.integers(2, 7), mix=st.floats(0.0, 1.2), seed=seeds()), quick=250, rule="indefinite input")
def nearpsd(case, ctx):
    c, rng, n = CU(), rng_of(case), case["n"]
    C = num.corr(rng, n, ridge=0.2)
    E = rng.uniform(-1, 1, (n, n))
    E = np.triu(E, 1) + np.triu(E, 1).T
    A = np.clip(C + case["mix"] * E, -1, 1)
    np.fill_diagonal(A, 1.0)
    A0 = A.copy()
    m = np.linalg.eigvalsh(A).min()
    ctx.nontrivial(m < -1e-3)
    X = c.near_psd(A)
    ctx.equal(A, A0, "near_psd leaves its input alone")
    ctx.close(np.diag(X), np.ones(n), "near_psd unit diagonal", rtol=0, atol=1e-10)
    ctx.close(X, X.T, "near_psd symmetric", rtol=0, atol=1e-10)
    ctx.check(np.linalg.eigvalsh(X).min() > -1e-3, f"near_psd not PSD: {np.linalg.eigvalsh(X).min()}")
    if m > 1e-3:
        ctx.close(X, A, "near_psd of a positive definite correlation matrix is itself", rtol=0, atol=1e-6)
    Y = c.project_psd(A)
    w, V = np.linalg.eigh(A)
    ctx.close(Y, (V * np.maximum(w, 1e-9)) @ V.T, "project_psd", rtol=0, atol=1e-10)
    ctx.close(c.project_psd(A, use_transpose=False), Y, "project_psd(use_transpose=False)", rtol=0, atol=1e-8)
    # nearest: no random feasible correlation matrix is closer (tolerance for early stopping)
    dist = np.linalg.norm(X - A)
    for _ in range(3):
        Z = num.corr(rng, n, ridge=0.01)
        for t in (1.0, 0.5, 0.1, 0.02):
            ctx.check(np.linalg.norm((1 - t) * X + t * Z - A) >= dist - 1e-2, "a feasible matrix is closer than near_psd's answer")


@P.facet("asymptotic_covariance", dicts(p=st.integers(2, 5), seed=seeds()), quick=150, rule="p >= 3")
def acov(case, ctx):
    """delta method by definition: Acov(vec R) = J 2Ms(S x S) J', Cov(vech S) elementwise"""
    c, rng, p = CU(), rng_of(case), case["p"]
    ctx.nontrivial(p >= 3)
    S = num.spd(rng, p)
    G = np.zeros((p,) * 4)
    for i, j, k, l in np.ndindex(p, p, p, p):
        G[i, j, k, l] = S[i, k] * S[j, l] + S[i, l] * S[j, k]
    V = G.reshape(p * p, p * p)              # symmetric in (i,j): row- and column-major vec coincide in value
    def f(v):
        A = v.reshape(p, p)
        A = (A + A.T) / 2
        s = np.sqrt(np.diag(A))
        return (A / np.outer(s, s)).reshape(-1)
    J = num.jac(f, S.reshape(-1))
    want = J @ V @ J.T
    ctx.close(c.corr_acov_neudecker(S), want, "corr_acov_neudecker", rtol=1e-6)
    ctx.close(c.corr_acov_browne(S), want, "corr_acov_browne", rtol=1e-6)
    il = [(i, j) for j in range(p) for i in range(j, p)]
    want = np.array([[G[a + b] for b in il] for a in il])
    ctx.close(c.cov_sample_cov(S=S), want, "cov_sample_cov normal", rtol=1e-9)
    kurt = rng.uniform(0.8, 2.0, p)
    u = np.sqrt(kurt)
    C = S * (u[:, None] + u[None]) / 2
    want = np.array([[C[a] * C[b] + C[a[0], b[0]] * C[a[1], b[1]] + C[a[0], b[1]] * C[a[1], b[0]] - S[a] * S[b] for b in il] for a in il])
    ctx.close(c.cov_sample_cov(S=S, kurt=kurt), want, "cov_sample_cov heterogeneous kurtosis", rtol=1e-9)
    ctx.close(c.cov_sample_cov(S=S, excess_kurt=3 * kurt - 3), want, "cov_sample_cov excess kurtosis", rtol=1e-9)
    X = rng.standard_normal((20, p)) ** 3
    m4 = ((X - X.mean(0)) ** 4).mean(0) / X.var(0) ** 2 / 3
    ctx.close(c.multivar_marginal_kurtosis(X), m4, "multivar_marginal_kurtosis", rtol=1e-9)
    ctx.close(c.cov_sample_cov(X=X), c.cov_sample_cov(S=np.cov(X, rowvar=False), kurt=m4), "cov_sample_cov from data", rtol=1e-9)
