"""C05: linear-algebra helpers return the object their name defines."""
import numpy as np
import scipy as sp
import scipy.linalg
import scipy.sparse as sps
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts

P = Property("C05", "Linear-algebra helpers compute the decomposition or solution they name")
P.assumptions = ["well-conditioned inputs (condition number bounded by construction); stated tolerances"]


def la():
    from pystatsm.utilities import linalg_operations
    return linalg_operations


def ints(rng, *shape):
    return rng.integers(-9, 10, size=shape).astype(float)


def spd(rng, n, ridge=0.5):
    A = rng.standard_normal((n, n + 2))
    return A @ A.T / (n + 2) + ridge * np.eye(n)


def d(A):
    return A.toarray() if hasattr(A, "toarray") else np.asarray(A)


@P.facet("vectorisations", dicts(n=st.integers(1, 8), m=st.integers(1, 8), batch=st.lists(st.integers(1, 3), max_size=2), seed=seeds()), quick=400,
         rule="n >= 3, m != n")
def vecs(case, ctx):
    u, rng = la(), rng_of(case)
    n, m, b = case["n"], case["m"], tuple(case["batch"])
    ctx.nontrivial(n >= 3 and m != n)
    ctx.label(f"batch{len(b)}")
    A = ints(rng, n, m)
    v = np.array([A[i, j] for j in range(m) for i in range(n)])
    ctx.equal(u.vec(A), v, "vec")
    ctx.equal(u.invec(v, n, m), A, "invec")
    ctx.equal(u.vec(A.T.copy().T), v, "vec of a Fortran-ordered array")
    S = ints(rng, n, n)
    S = S + S.T
    h = np.array([S[i, j] for j in range(n) for i in range(j, n)])
    ctx.equal(u.vech(S), h, "vech")
    ctx.equal(u.invech(h), S, "invech(vech)")
    low = ints(rng, n, n)
    ctx.equal(u.vech(low), [low[i, j] for j in range(n) for i in range(j, n)], "vech of a non-symmetric matrix takes the lower half")
    ctx.equal(u._vech_nb(low), u.vech(low), "_vech_nb")
    L = np.tril(low)
    ctx.equal(u.invech_chol(u.vech(L)), L, "invech_chol")
    if n >= 2:
        R = S.copy(); np.fill_diagonal(R, 1)
        l = np.array([R[i, j] for j in range(n) for i in range(j + 1, n)])
        ctx.equal(u.vecl(R), l, "vecl")
        ctx.equal(u.invecl(l), R, "invecl(vecl)")
    # batched forms agree with the unbatched form on every slice
    B = ints(rng, *b, n, n)
    B = B + np.swapaxes(B, -1, -2)
    Bi = [B[i] for i in np.ndindex(*b)]
    sh = lambda a: a.reshape((-1,) + a.shape[len(b):]) if b else a[None]
    VH = u._vech(B)
    ctx.equal(sh(VH), [u.vech(x) for x in Bi], "_vech batched")
    ctx.equal(u._invech(VH), B, "_invech batched")
    if n >= 2:
        VL = u._vecl(B)
        ctx.equal(sh(VL), [u.vecl(x) for x in Bi], "_vecl batched")
        C = B.copy()
        C[..., np.arange(n), np.arange(n)] = 1
        ctx.equal(u._invecl(VL), C, "_invecl batched")
        ctx.equal(u.lower_half_vec(B), VL, "lower_half_vec")
        T = np.tril(C, -1)
        ctx.equal(u.inv_lower_half_vec(VL), T, "inv_lower_half_vec")
        ctx.check(u.lhv_size_to_mat_size(VL.shape[-1]) == n and u.mat_size_to_lhv_size(n) == VL.shape[-1], "lhv sizes")
    ctx.check(u.hv_size_to_mat_size(VH.shape[-1]) == n and u.mat_size_to_hv_size(n) == VH.shape[-1], "hv sizes")
    if not b:
        ctx.equal(u._vec(A), v, "_vec")
        ctx.equal(u._invec(v, n, m), A, "_invec")
    if n >= 2:
        M = ints(rng, n, n)
        ctx.equal(u._vec_ndg(M), [M[i, j] for j in range(n) for i in range(n) if i != j], "_vec_ndg")
    k = case["seed"] % 3 - 1
    M = ints(rng, n, n)
    ctx.equal(M.reshape(-1, order="F")[u._vec_tril_mask(n, k)], [M[i, j] for j in range(n) for i in range(n) if j - i <= k], f"_vec_tril_mask {k}")
    blocks = [ints(rng, *rng.integers(1, 4, size=2)) for _ in range(case["seed"] % 4 + 1)]
    ctx.equal(u.gb_diag(*blocks), sp.linalg.block_diag(*blocks), "gb_diag")
    ctx.equal(u.vdg(A), np.diag(v), "vdg")


@P.facet("weighted_products", dicts(n=st.integers(1, 12), p=st.integers(1, 5), q=st.integers(1, 5), seed=seeds()), quick=300, rule="n >= 2, p != q")
def wprod(case, ctx):
    u, rng = la(), rng_of(case)
    n, p, q = case["n"], case["p"], case["q"]
    ctx.nontrivial(n >= 2 and p != q)
    X, Y, X2, w = ints(rng, n, p), ints(rng, n, q), ints(rng, n, p), ints(rng, n)
    ctx.equal(u.wcrossp(X, w), X.T @ np.diag(w) @ X, "wcrossp")
    ctx.equal(u.wdcrossp(X, w, Y), X.T @ np.diag(w) @ Y, "wdcrossp")
    ctx.equal(u.diag_outer_prod(X, X2), np.diag(X @ X2.T), "diag_outer_prod")
    W = ints(rng, p, q)
    ctx.equal(u.wdiag_outer_prod(X, W, Y), np.diag(X @ W @ Y.T), "wdiag_outer_prod")


@P.facet("weighted_least_squares", dicts(p=st.integers(1, 6), extra=st.integers(0, 25), neg=st.integers(0, 3), zero=st.integers(0, 2), seed=seeds()), quick=400,
         rule="p >= 2 and at least one negative or zero weight")
def wls(case, ctx):
    u, rng = la(), rng_of(case)
    p = case["p"]
    n = p + case["extra"] + case["neg"] + case["zero"]
    X, y = rng.standard_normal((n, p)), rng.standard_normal(n)
    w = rng.uniform(0.3, 2, n)
    ctx.nontrivial(p >= 2 and case["neg"] + case["zero"] > 0)

    def solve(w):
        G = X.T @ (X * w[:, None])
        return G, np.linalg.solve(G, X.T @ (w * y))
    G, b = solve(w)
    c = np.linalg.cond(G)
    if c > 1e6:
        ctx.skip("ill-conditioned")
    tol = dict(rtol=1e-11 * c, atol=1e-11 * c)
    ctx.close(u.wls_chol(X, y, w), b, "wls_chol", **tol)
    ctx.close(u.wls_qr(X, y, w), b, "wls_qr", **tol)
    ctx.close(u.nwls(X, y, w), b, "nwls, positive weights", **tol)
    ctx.close(u.lsqr(X, y), np.linalg.lstsq(X, y, rcond=None)[0], "lsqr", **tol)
    w2 = w.copy()
    idx = rng.permutation(n)
    w2[idx[:case["neg"]]] *= -0.3
    w2[idx[case["neg"]:case["neg"] + case["zero"]]] = 0
    G, b = solve(w2)
    # QR of sqrt|w| X must have full rank, and the indefinite normal matrix must be well conditioned
    c = max(np.linalg.cond(G), np.linalg.cond(X.T @ (X * np.abs(w2)[:, None])))
    if c > 1e5:
        ctx.skip("ill-conditioned")
    ctx.label("negative weights" if case["neg"] else "non-negative")
    ctx.close(u.nwls(X, y, w2), b, "nwls, mixed-sign weights", rtol=1e-10 * c ** 1.5, atol=1e-10 * c ** 1.5)


@P.facet("cholesky_updates", dicts(n=st.integers(2, 9), k=st.integers(0, 8), seed=seeds()), quick=400, rule="0 < removed row < n-1")
def cholupd(case, ctx):
    u, rng = la(), rng_of(case)
    n = case["n"]
    k = case["k"] % n
    ctx.nontrivial(0 < k < n - 1)
    A = spd(rng, n)
    L = np.zeros((n, n))
    for i in range(n):
        L = u.add_chol_row(A, L, i)
        ctx.close(L[:i + 1, :i + 1], np.linalg.cholesky(A[:i + 1, :i + 1]), f"add_chol_row step {i}")
    D = u.chol_downdate(np.linalg.cholesky(A), k)
    keep = [i for i in range(n) if i != k]
    ctx.close(D[:-1, :-1], np.linalg.cholesky(A[np.ix_(keep, keep)]), f"chol_downdate row {k} of {n}")


@P.facet("cholesky_histories", dicts(n=st.integers(3, 8), ops=st.lists(st.tuples(st.booleans(), st.integers(0, 7)), min_size=1, max_size=14), seed=seeds()), quick=250,
         rule="at least one removal followed by an addition")
def cholhist(case, ctx):
    """Growing/shrinking an active set (as LARS does) keeps the factor of the active block."""
    u, rng = la(), rng_of(case)
    n = case["n"]
    A = spd(rng, n)
    L = np.zeros((n, n))
    act = []
    removed = False
    for add, v in case["ops"]:
        out = [i for i in range(n) if i not in act]
        if add and out:
            act.append(out[v % len(out)])
            k = len(act)
            Ak = np.zeros((n, n))
            Ak[:k, :k] = A[np.ix_(act, act)]
            L = u.add_chol_row(Ak, L, k - 1)
            ctx.nontrivial(removed)
        elif not add and len(act) > 1:
            j = v % len(act)
            k = len(act)
            sub = np.ascontiguousarray(L[:k, :k])
            new = u.chol_downdate(sub.copy(), j)[:k - 1, :k - 1]
            L = np.zeros((n, n))
            L[:k - 1, :k - 1] = np.tril(new)
            act.pop(j)
            removed = True
        k = len(act)
        if k:
            ctx.close(L[:k, :k] @ L[:k, :k].T, A[np.ix_(act, act)], f"factor of active set {act}", rtol=1e-9)


@P.facet("structured_cholesky", dicts(n=st.integers(2, 14), rho=st.floats(-0.95, 0.95), seed=seeds()), quick=300, rule="n >= 4, |rho| > 0.05")
def structured(case, ctx):
    u, rng = la(), rng_of(case)
    n, rho = case["n"], case["rho"]
    ctx.nontrivial(n >= 4 and abs(rho) > 0.05)
    R = sp.linalg.toeplitz(rho ** np.arange(n))
    want = np.linalg.cholesky(R)
    ctx.close(u.ar1_chol(n, rho), want, f"ar1_chol({n},{rho})", rtol=1e-9, atol=1e-9)
    ctx.close(u.toeplitz_cholesky_lower_nb(n, R), want, "toeplitz_cholesky_lower_nb AR(1)", rtol=1e-8, atol=1e-8)
    # a generic unit-diagonal positive definite Toeplitz matrix (autocorrelation of a random filter plus a nugget)
    f = rng.standard_normal(4)
    r = np.correlate(f, f, "full")[3:]
    r = np.concatenate([r, np.zeros(max(0, n - 4))])[:n]
    r[0] *= 1.3
    T = sp.linalg.toeplitz(r / r[0])
    ctx.close(u.toeplitz_cholesky_lower_nb(n, T), np.linalg.cholesky(T), "toeplitz_cholesky_lower_nb", rtol=1e-8, atol=1e-8)


@P.facet("spectral_functions", dicts(n=st.integers(1, 8), rank=st.integers(1, 8), seed=seeds(), scale=st.sampled_from([0, -3, -8, 5, -6, -10])), quick=400,
         rule="n >= 3 and rank-deficient, or a scale far from one")
def spectral(case, ctx):
    u, rng = la(), rng_of(case)
    n = case["n"]
    r = min(case["rank"], n)
    ctx.nontrivial((n >= 3 and r < n) or case["scale"] != 0)
    A = spd(rng, n) * 10.0 ** case["scale"]
    amax = np.abs(A).max()
    ev, V = u.eighs(A)
    ctx.check(np.all(np.diff(ev) <= 1e-12 * amax), "eighs sorts descending")
    ctx.close((V * ev) @ V.T / amax, A / amax, "eighs reconstructs")
    ctx.close(V.T @ V, np.eye(n), "eighs orthonormal")
    B = u.mat_sqrt(A)
    if np.linalg.eigvalsh(A)[0] > 1e-11:
        ctx.close(B @ B / amax, A / amax, "mat_sqrt squared")
        ctx.close(B, B.T, "mat_sqrt symmetric")
        C = u.inv_sqrt(A)
        ctx.close(C @ A @ C, np.eye(n), "inv_sqrt A inv_sqrt = I", rtol=1e-8, atol=1e-8)
    F = rng.standard_normal((n, r))
    Pj = u.cproject(F)
    ctx.close(Pj @ F, F, "cproject fixes its columns", rtol=1e-8, atol=1e-8)
    ctx.close(Pj @ Pj, Pj, "cproject idempotent", rtol=1e-8, atol=1e-8)
    ctx.close(Pj, Pj.T, "cproject symmetric", rtol=1e-8, atol=1e-8)
    ctx.close(np.trace(Pj), float(r), "cproject rank", rtol=1e-7)


@P.facet("vandermonde", dicts(n=st.integers(2, 7), seed=seeds()), quick=200, rule="n >= 3")
def vander(case, ctx):
    u, rng = la(), rng_of(case)
    n = case["n"]
    ctx.nontrivial(n >= 3)
    a = (np.arange(n) - (n - 1) / 2) / 2 + rng.uniform(-0.15, 0.15, n)
    a = rng.permutation(a)
    b = rng.standard_normal(n)
    b0, a0 = b.copy(), a.copy()
    x = u.solve_vander(a, b)
    V = np.vander(a, increasing=True)
    ctx.equal(b, b0, "solve_vander leaves b unchanged")
    ctx.equal(a, a0, "solve_vander leaves a unchanged")
    ctx.close(V.T @ x, b, "solve_vander solves the (transposed, increasing) Vandermonde system", rtol=1e-7, atol=1e-7 * np.linalg.cond(V) ** 0.5)


@P.facet("matrix_exponential_derivative", dicts(n=st.integers(2, 5), seed=seeds()), quick=100, rule="n >= 3")
def dexp(case, ctx):
    u, rng = la(), rng_of(case)
    n = case["n"]
    ctx.nontrivial(n >= 3)
    Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    ev = np.arange(n) * 0.6 - 0.5 + rng.uniform(-0.2, 0.2, n)
    A = (Q * ev) @ Q.T
    A = (A + A.T) / 2
    J = u.dmat_exp(A)
    E = rng.standard_normal((n, n))
    D = sp.linalg.expm_frechet(A, E, compute_expm=False)
    ctx.close((J @ E.reshape(-1, order="F")).reshape(n, n, order="F"), D, "dmat_exp is the Frechet derivative of expm", rtol=1e-7, atol=1e-8)


@P.facet("lhv_transform", dicts(n=st.integers(2, 6), scale=st.floats(0.05, 3), seed=seeds()), quick=200, rule="n >= 3")
def lhv(case, ctx):
    """Unit-row-norm scaling of the strict lower half: inverse maps and their derivatives."""
    u, rng = la(), rng_of(case)
    n = case["n"]
    ctx.nontrivial(n >= 3)
    T = u.LHV(n)
    m = n * (n - 1) // 2
    x = rng.standard_normal(m) * case["scale"]
    y = T._fwd(x)
    M = np.tril(u.inv_lower_half_vec(x)) + np.eye(n)
    rn = np.sqrt((M ** 2).sum(1))
    ctx.close(u.lhv_row_norms(x), rn, "lhv_row_norms")
    ctx.close(y, u.lower_half_vec(M / rn[:, None]), "forward map normalises rows")
    ctx.close(T._rvs(y), x, "reverse(forward(x)) = x", rtol=1e-7, atol=1e-8)
    h = 1e-30
    # complex-step derivatives of an independent formula
    def fwd(z):
        Z = np.zeros((n, n), dtype=complex); i, j = np.triu_indices(n, 1)
        Z[j, i] = z
        Z = Z + np.eye(n)
        return (Z / np.sqrt((Z ** 2).sum(1))[:, None])[j, i]

    J = np.stack([fwd(x + 1j * h * e).imag / h for e in np.eye(m)], axis=1)
    ctx.close(T._jac_fwd(x), J, "jacobian of forward map", rtol=1e-8, atol=1e-9)
    Jr = np.linalg.inv(J)
    ctx.close(T._jac_rvs(y), Jr, "jacobian of reverse map", rtol=1e-6, atol=1e-7)
    eps = 1e-5
    H = np.stack([(T._jac_fwd(x + eps * e) - T._jac_fwd(x - eps * e)) / (2 * eps) for e in np.eye(m)], axis=2)
    ctx.close(T._hess_fwd(x), H, "hessian of forward map", rtol=1e-5, atol=1e-6)
    slack = 1 - max([np.sum(M[i, :i] ** 2) / rn[i] ** 2 for i in range(1, n)])
    e2 = 1e-4 * slack
    H = np.stack([(T._jac_rvs(y + e2 * e) - T._jac_rvs(y - e2 * e)) / (2 * e2) for e in np.eye(m)], axis=2)
    ctx.close(T._hess_rvs(y), H, "hessian of reverse map", rtol=1e-4, atol=1e-4)


@P.facet("sparse_cholesky", dicts(n=st.integers(1, 14), density=st.floats(0.0, 0.6), seed=seeds(), ops=st.lists(st.integers(0, 7), min_size=1, max_size=10),
                                  beta=st.sampled_from([0.0, 0.5]), order=st.sampled_from(["default", "natural", "amd"])), quick=400,
         rule="n >= 4, non-identity fill-reducing permutation or a refactorisation in the history")
def schol(case, ctx):
    """Any sequence of solves / determinants / refactorisations on one symbolic factor answers for the latest matrix."""
    u, rng = la(), rng_of(case)
    n = case["n"]
    M = sps.random(n, n, density=case["density"], random_state=np.random.RandomState(case["seed"] % 2**31), format="csc")
    pat = (M + M.T).toarray() != 0

    def newA():
        B = np.tril(np.where(pat, rng.standard_normal((n, n)), 0.0), -1)
        B = B + B.T
        return B + np.diag(np.abs(B).sum(1) + rng.uniform(0.5, 1.5, n))
    A = newA()
    # keep an identical pattern (explicit zeros never dropped by csc_matrix of coordinates)
    r, c = np.nonzero(pat | np.eye(n, dtype=bool))
    csc = lambda A: sps.csc_matrix((A[r, c], (r, c)), shape=(n, n))
    beta = case["beta"]
    if beta:
        f = u.cholesky(csc(A), beta=beta)
        A = A + beta * np.eye(n)
        refac = False
    else:
        f = u.cholesky(csc(A), ordering_method=case["order"])
        refac = True
    Pm = np.asarray(f.P())
    ctx.check(sorted(Pm.tolist()) == list(range(n)), "P is a permutation")
    ctx.nontrivial(n >= 4 and (not np.array_equal(Pm, np.arange(n)) or (refac and 7 in case["ops"])))
    b = rng.standard_normal((n, 2))
    tol = dict(rtol=1e-8, atol=1e-8)
    for op in case["ops"]:
        ctx.label(f"op{op}")
        Ap = A[np.ix_(Pm, Pm)]
        if op == 0:
            ctx.close(f.solve_A(b), np.linalg.solve(A, b), "solve_A", **tol)
        elif op == 1:
            L = d(f.L())
            ctx.close(L @ L.T, Ap, "L L' = P A P'", **tol)
            ctx.check(np.all(np.triu(L, 1) == 0) and np.all(np.diag(L) > 0), "L lower triangular with positive diagonal")
        elif op == 2:
            L = np.linalg.cholesky(Ap)
            ctx.close(f.solve_L(b, use_LDLt_decomposition=False), np.linalg.solve(L, b), "solve_L (LL')", **tol)
            ctx.close(f.solve_Lt(b, use_LDLt_decomposition=False), np.linalg.solve(L.T, b), "solve_Lt (LL')", **tol)
        elif op == 3:
            sgn, ld = f.slogdet()
            ctx.close(float(ld), np.linalg.slogdet(A)[1], "slogdet", **tol)
            ctx.check(float(np.real(sgn)) == 1.0, "slogdet sign")
        elif op == 4:
            ctx.close(f.apply_Pt(f.apply_P(b)), b, "Pt P = I")
            ctx.close(f.apply_P(b), b[Pm], "apply_P")
        elif op == 5:
            ctx.close(d(f.inv()), np.linalg.inv(A), "inv", **tol)
        elif op == 6:
            ctx.close(np.sum(np.log(f.D())), np.linalg.slogdet(A)[1], "log D sums to the log determinant", **tol)
            x = f.apply_Pt(f.solve_Lt(f.solve_L(f.apply_P(b), False), False))
            ctx.close(x, np.linalg.solve(A, b), "solution through the permuted factors", **tol)
        elif op == 7 and refac:
            A = newA()
            g = f.cholesky_inplace(csc(A))
            if g is not None:
                f = g
    f = u.analyze(csc(A))
    g = f.cholesky_inplace(csc(A))
    f = f if g is None else g
    ctx.close(f.solve_A(b), np.linalg.solve(A, b), "analyze + cholesky_inplace, solve_A", **tol)
    F = rng.standard_normal((n, n + 2))
    f = u.cholesky_AAt(sps.csc_matrix(F), beta=0.3)
    ctx.close(f.solve_A(b), np.linalg.solve(F @ F.T + 0.3 * np.eye(n), b), "cholesky_AAt solve", **tol)


@P.facet("memoised_objectives", dicts(n=st.integers(1, 4), ops=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.booleans()), min_size=1, max_size=20), seed=seeds()),
         quick=300, rule="an argument modified in place between calls")
def memo(case, ctx):
    """Cached value/gradient/Hessian always belong to the argument just given, for any call order and in-place edits of it."""
    from pystatsm.utilities import optimizer_utils as ou
    rng = rng_of(case)
    n = case["n"]
    A = rng.standard_normal((n, n)); A = A + A.T
    f = lambda x: float(x @ A @ x + np.sum(x ** 4))
    g = lambda x: 2 * A @ x + 4 * x ** 3
    h = lambda x: 2 * A + np.diag(12 * x ** 2)
    m2 = ou.MemoizeGradHess(lambda x: (f(x), g(x), h(x)))
    m1 = ou.MemoizeJac(lambda x: (f(x), g(x)))
    pts = [rng.standard_normal(n) for _ in range(4)]
    for which, op, mutate in case["ops"]:
        x = pts[which]
        if mutate:
            x[which % n] += 0.25
            ctx.nontrivial()
        if op == 0:
            ctx.close(m2(x), f(x), "value")
            ctx.close(m1(x), f(x), "value (MemoizeJac)")
        elif op == 1:
            ctx.close(m2.derivative(x), g(x), "gradient")
            ctx.close(m1.derivative(x), g(x), "gradient (MemoizeJac)")
        else:
            ctx.close(m2.hessian(x), h(x), "hessian")


@P.facet("zero_constraint", dicts(n=st.integers(1, 8), idx=st.lists(st.integers(0, 7), min_size=1, max_size=5, unique=True), seed=seeds()), quick=100, rule="2+ indices")
def zeroc(case, ctx):
    from pystatsm.utilities import optimizer_utils as ou
    rng = rng_of(case)
    n = max(case["n"], max(case["idx"]) + 1)
    z = ou.ZeroConstraint(n, np.array(case["idx"]))
    x = rng.standard_normal(n)
    ctx.nontrivial(len(case["idx"]) > 1)
    ctx.equal(z.func(x), x[case["idx"]], "ZeroConstraint.func")
    ctx.equal(z.grad(x) @ x, x[case["idx"]], "ZeroConstraint.grad is the selection matrix")
    c = z.make_constraint()
    ctx.check(np.all(np.asarray(c.lb) == 0) and np.all(np.asarray(c.ub) == 0), "bounds are zero")


@P.facet("optimizer_defaults", dicts(calls=st.lists(st.tuples(st.sampled_from(["trust-constr", "L-BFGS-B", "SLSQP", "trust-ncg", None]), st.booleans(), st.integers(1, 9)), min_size=1, max_size=6)),
         quick=200, rule="two calls with the same method, one of which edits the returned options")
def optdef(case, ctx):
    """Options returned for one call are complete, keep the caller's values, and do not leak into later calls."""
    from pystatsm.utilities import optimizer_utils as ou
    import copy
    base = {}
    seen = set()
    for meth, give, val in case["calls"]:
        kw = {}
        if meth is not None:
            kw["method"] = meth
        key = meth or "trust-constr"
        if give:
            kw["options"] = {"gtol": val * 1e-3}
        out = ou.process_optimizer_kwargs(kw)
        ctx.check(out["method"] == key, "method kept or defaulted")
        o = dict(out["options"])
        if give:
            ctx.check(o.get("gtol") == val * 1e-3, "caller's option kept")
            o.pop("gtol")
        else:
            if key in base and "full" in base[key]:
                ctx.check(o == base[key]["full"], f"defaults for {key} changed between calls: {base[key]['full']} -> {o}")
                ctx.nontrivial()
            base.setdefault(key, {})["full"] = dict(o)
        out["options"]["user_edit"] = val       # a caller customising its own options
