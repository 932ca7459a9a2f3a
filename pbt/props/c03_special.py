"""C03: structured matrices satisfy the vec/vech identities that define them."""
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts

P = Property("C03", "Commutation, duplication and elimination matrices obey their identities")
P.assumptions = ["matrix orders up to 9 (operators have order n^2)"]


def sm():
    from pystatsm.utilities import special_mats
    return special_mats


def vec(A):
    return np.asarray(A).reshape(-1, order="F")


def vech(A):
    n = A.shape[0]
    return np.array([A[i, j] for j in range(n) for i in range(j, n)])


def d(A):
    return A.toarray() if hasattr(A, "toarray") else np.asarray(A)


def ints(rng, *shape):
    return rng.integers(-9, 10, size=shape).astype(float)


@P.facet("commutation", dicts(p=st.integers(1, 9), q=st.integers(1, 9), r=st.integers(1, 4), seed=seeds()), quick=300, rule="p != q, both >= 2")
def commutation(case, ctx):
    s = sm()
    p, q, rng = case["p"], case["q"], rng_of(case)
    ctx.nontrivial(p != q and min(p, q) >= 2)
    A = ints(rng, p, q)
    K = s.kmat(p, q)
    ctx.equal(d(K) @ vec(A), vec(A.T), f"kmat({p},{q}) vec(A) = vec(A')")
    ctx.equal(d(s.comm_mat(p, q)) @ vec(A), vec(A.T), "comm_mat")
    ctx.equal(d(s.comm_mat(p, q)), d(K), "comm_mat == kmat")
    V = ints(rng, p * q, case["r"])
    W = d(K) @ V
    ctx.equal(s.apply_kmat1(V, p, q), W, "apply_kmat1")
    ctx.equal(s.apply_kmat2(V, p, q), W, "apply_kmat2")
    C = s.CommutationMatrix(p, q)
    ctx.equal(C.apply(V), W, "CommutationMatrix.apply")
    ctx.equal(C.apply_alt(V), W, "CommutationMatrix.apply_alt")
    ctx.equal(d(s.kmat(q, p)) @ d(K), np.eye(p * q), "K_qp K_pq = I")
    # K_(pm)(A kron B) K = B kron A
    B = ints(rng, case["r"], p)
    ctx.equal(d(s.kmat(B.shape[0], A.shape[0])) @ np.kron(A, B) @ d(s.kmat(A.shape[1], B.shape[1])), np.kron(B, A), "Kronecker commutation")


@P.facet("duplication_elimination", dicts(n=st.integers(1, 9), r=st.integers(1, 4), seed=seeds()), quick=250, rule="n >= 3")
def dupelim(case, ctx):
    s = sm()
    n, rng = case["n"], rng_of(case)
    ctx.nontrivial(n >= 3)
    A = ints(rng, n, n)
    S = A + A.T
    L, D, N, Dp = (d(f(n)) for f in (s.lmat, s.dmat, s.nmat, s.dpmat))
    K = d(s.kmat(n, n))
    ctx.equal(L @ vec(A), vech(A), "lmat vec(A) = vech(A)")
    ctx.equal(d(s.elim_mat(n)), L, "elim_mat == lmat")
    ctx.equal(D @ vech(S), vec(S), "dmat vech(S) = vec(S)")
    ctx.equal(N, K + np.eye(n * n), "nmat = I + K")
    ctx.equal(Dp @ vec(A), vech(S) / 2, "dpmat vec(A) = vech of the symmetric part")
    ctx.equal(Dp @ D, np.eye(n * (n + 1) // 2), "dpmat dmat = I")
    m = n * (n + 1) // 2
    V = ints(rng, n * n, case["r"])
    V2 = ints(rng, n * n, n * n)
    R = ints(rng, case["r"], n * n)
    H = ints(rng, m, case["r"])
    ctx.equal(s.apply_lmat1(V), L @ V, "apply_lmat1")
    ctx.equal(s.apply_lmat2(V), L @ V, "apply_lmat2")
    ctx.equal(s.apply_lmat_post1(R), R @ L.T, "apply_lmat_post1")
    ctx.equal(s.apply_lmat_pre_post1(V2), L @ V2 @ L.T, "apply_lmat_pre_post1")
    E = s.EliminationMatrix(n)
    ctx.equal(E.apply(V), L @ V, "EliminationMatrix.apply")
    ctx.equal(E.apply_alt(V), L @ V, "EliminationMatrix.apply_alt")
    ctx.equal(E.apply_post(R), R @ L.T, "EliminationMatrix.apply_post")
    ctx.equal(E.app(V2, True, True), L @ V2 @ L.T, "EliminationMatrix.app")
    ctx.equal(s.apply_dmat1(V.copy()), D.T @ V, "apply_dmat1 pre")
    ctx.equal(s.apply_dmat1(V2.copy(), pre_mult=False, post_mult=True), V2 @ D, "apply_dmat1 post")
    ctx.equal(s.apply_dmat1(V2.copy(), post_mult=True), D.T @ V2 @ D, "apply_dmat1 both")
    ctx.equal(s.apply_dmat2_pre(V), D.T @ V, "apply_dmat2_pre")
    ctx.equal(s.apply_dmat2_pre(H, n=n, transpose=False), D @ H, "apply_dmat2_pre no transpose")
    ctx.equal(s.apply_dmat2_pre_post(V2), D.T @ V2 @ D, "apply_dmat2_pre_post")
    T = ints(rng, 3, n * n, n * n)
    ctx.equal(s.apply_dmat3(T.copy(), post_mult=True), np.einsum("ab,kbc,cd->kad", D.T, T, D), "apply_dmat3")
    U = s.DuplicationMatrix(n)
    ctx.equal(U.apply(V.copy()), D.T @ V, "DuplicationMatrix.apply")
    ctx.equal(U.apply(V2.copy(), pre_mult=False, post_mult=True), V2 @ D, "DuplicationMatrix.apply post")
    ctx.equal(U.apply_pre(V), D.T @ V, "DuplicationMatrix.apply_pre")
    ctx.equal(U.apply_post(R), R @ D, "DuplicationMatrix.apply_post")
    ctx.equal(U.apply_pre_post(V2), D.T @ V2 @ D, "DuplicationMatrix.apply_pre_post")
    Q = s.DpMatrix(n)
    ctx.equal(Q.apply(V.copy()), Dp @ V, "DpMatrix.apply")
    ctx.equal(Q.apply(V2.copy(), post_mult=True), Dp @ V2 @ Dp.T, "DpMatrix.apply both")


@P.facet("pattern_matrices", dicts(n=st.integers(1, 6), order=st.integers(1, 4), seed=seeds()), quick=100, rule="n >= 3")
def pattern(case, ctx):
    s = sm()
    n, rng = case["n"], rng_of(case)
    ctx.nontrivial(n >= 3)
    A = ints(rng, n, n)
    sym = (A + A.T) / 2
    dg = np.diag(np.diag(A))
    ctx.equal(d(s.pattern_mat_s(n)) @ vec(A), vec(sym), "pattern_mat_s: symmetric part")
    ctx.equal(d(s.pattern_mat_d(n)) @ vec(A), vec(dg), "pattern_mat_d: diagonal part")
    ctx.equal(d(s.pattern_mat_c(n)) @ vec(A), vec(sym - dg), "pattern_mat_c: off-diagonal symmetric part")
    ctx.equal(d(s.pattern_mat_k(n)) @ np.diag(A), vec(dg), "pattern_mat_k: vec(diag(v))")
    k = n + case["order"]
    y = ints(rng, k)
    ctx.equal(s.difference_mat(k, case["order"]) @ y, np.diff(y, case["order"]), "difference_mat")


@P.facet("kronvec", dicts(n=st.integers(1, 4), p=st.integers(1, 4), q=st.integers(1, 4), r=st.integers(1, 4), seed=seeds()), quick=200,
         rule="all four dimensions differ from 1 and p != q")
def kronvec(case, ctx):
    s = sm()
    n, p, q, r = (case[k] for k in "npqr")
    rng = rng_of(case)
    ctx.nontrivial(min(n, p, q, r) > 1 and p != q)
    A, B = ints(rng, n, p), ints(rng, q, r)
    M = d(s.kronvec_mat((n, p), (q, r)))
    ctx.equal(M @ np.kron(vec(A), vec(B)), vec(np.kron(A, B)), f"kronvec_mat {n,p,q,r}: vec(A kron B)")


@P.facet("covariance_factor_derivatives", dicts(n=st.integers(1, 5), seed=seeds(), both=st.booleans()), quick=80, rule="n >= 2")
def mats(case, ctx):
    """make_mats/make_mats2: d vech(G)/d vech(L) = LN (L kron I) L' and the constant second derivative."""
    s = sm()
    n, rng = case["n"], rng_of(case)
    ctx.nontrivial(n >= 2)
    f = s.make_mats if case["both"] else s.make_mats2
    LN, I, E, D2 = f(n)
    m = n * (n + 1) // 2
    low = [(i, j) for j in range(n) for i in range(j, n)]
    Lc = np.tril(ints(rng, n, n))
    J = np.zeros((m, m))
    H = np.zeros((m, m, m))
    for a, (i, j) in enumerate(low):
        Ea = np.zeros((n, n)); Ea[i, j] = 1
        J[:, a] = vech(Ea @ Lc.T + Lc @ Ea.T)
        for b, (k, l) in enumerate(low):
            Eb = np.zeros((n, n)); Eb[k, l] = 1
            H[:, a, b] = vech(Ea @ Eb.T + Eb @ Ea.T)
    ctx.equal(d(LN) @ np.kron(Lc, d(I)) @ d(E).T, J, "first derivative of vech(LL')")
    D = d(D2)
    ctx.check(D.shape == (m * m, m), f"D2 shape {D.shape}")
    # rows are ordered (parameter, element of G) by the Kronecker product E kron (E N)
    ctx.equal(D.reshape(m, m, m), np.transpose(H, (1, 0, 2)), "second derivative of vech(LL')")
