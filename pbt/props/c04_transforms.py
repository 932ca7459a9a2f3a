"""C04: parameter transforms are bijections onto the documented domain, with exact derivatives."""
import numpy as np
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts
from .. import num

P = Property("C04", "Parameter transforms are bijections with exact derivatives")
P.assumptions = ["float64 arguments away from the boundary of the domain by a stated margin (variances in [0.05, 20], correlation eigenvalues >= 0.05)"]


def pt():
    from pystatsm.utilities import param_transforms
    return param_transforms


def vech(A):
    n = A.shape[0]
    return np.array([A[i, j] for j in range(n) for i in range(j, n)])


def vecl(A):
    n = A.shape[0]
    return np.array([A[i, j] for j in range(n) for i in range(j + 1, n)])


def invech(v):
    n = int((np.sqrt(8 * len(v) + 1) - 1) // 2)
    M = np.zeros((n, n))
    k = 0
    for j in range(n):
        for i in range(j, n):
            M[i, j] = M[j, i] = v[k]
            k += 1
    return M


def rcov(rng, n):
    s = np.exp(rng.uniform(-1, 1, n))
    return num.corr(rng, n) * np.outer(s, s)


KINDS = ["ordered", "log", "tanh", "identity", "unconstrained_chol", "cov_corr", "log_scale", "corr_chol", "off_diag", "cholesky_cov", "old_cholesky_cov"]


def make(kind, n, rng):
    """(transform, x in its domain, reference forward map or None)"""
    t = pt()
    if kind == "ordered":
        return t.OrderedTransform(), np.cumsum(rng.uniform(0.1, 2, n)) - n / 2, lambda x: np.r_[x[:1], np.log(np.diff(x))]
    if kind == "log":
        return t.LogTransform(), rng.uniform(0.1, 4, n), np.log
    if kind == "tanh":
        return t.TanhTransform(), rng.uniform(-0.9, 0.9, n), np.arctanh
    if kind == "identity":
        return t.IdentityTransform(), rng.standard_normal(n), lambda x: x
    n = max(n, 1)
    if kind == "unconstrained_chol":
        n = max(n, 2)
        L = np.linalg.cholesky(num.corr(rng, n))
        return t.UnconstrainedCholeskyCorr(n), vecl(L), lambda y: vecl(np.array([[y_ / np.sqrt(max(1e-300, 1 - np.sum(M[i, :j] ** 2))) for j, y_ in enumerate(M[i])]
                                                                                 for i in range(n)])) if (M := lowm(y, n)) is not None else None
    if kind == "corr_chol":
        n = max(n, 2)
        return t.CorrCholesky(n), vecl(num.corr(rng, n)), lambda x: vecl(np.linalg.cholesky(symm1(x, n)))
    S = rcov(rng, n)
    if kind == "cov_corr":
        def ref(x):
            M = invech(x); s = np.sqrt(np.diag(M))
            R = M / np.outer(s, s)
            np.fill_diagonal(R, np.diag(M))
            return vech(R)
        return t.CovCorr(n), vech(S), ref
    if kind == "log_scale":
        def ref(x):
            M = invech(x); np.fill_diagonal(M, np.log(np.diag(M)))
            return vech(M)
        return t.LogScale(n), vech(S), ref
    if kind == "off_diag":
        tt = t.TanhTransform(); tt.mat_size = n
        def ref(x):
            M = np.arctanh(np.where(np.eye(n), 0, invech(x)))
            np.fill_diagonal(M, np.diag(invech(x)))
            return vech(M)
        R = num.corr(rng, n); np.fill_diagonal(R, rng.uniform(0.5, 3, n))
        return t.OffDiagMask(tt), vech(R), ref
    if kind == "cholesky_cov":
        return t.CholeskyCov(n), vech(S), lambda x: ccref(x, n)
    if kind == "old_cholesky_cov":
        from pystatsm.utilities import cov_transform
        return cov_transform.CholeskyCov(n), vech(S), None
    raise KeyError(kind)


def lowm(y, n):
    M = np.zeros((n, n)); k = 0
    for j in range(n):
        for i in range(j + 1, n):
            M[i, j] = y[k]; k += 1
    return M


def symm1(x, n):
    M = lowm(x, n)
    return M + M.T + np.eye(n)


def ccref(x, n):
    """log variances on the diagonal; atanh of the canonical partial correlations below it."""
    M = invech(x); s = np.sqrt(np.diag(M))
    L = np.linalg.cholesky(M / np.outer(s, s))
    Z = np.diag(np.log(np.diag(M)))
    for i in range(n):
        for j in range(i):
            Z[i, j] = Z[j, i] = np.arctanh(L[i, j] / np.sqrt(1 - np.sum(L[i, :j] ** 2)))
    return vech(Z)


@P.facet("bijection_and_derivatives", dicts(kind=st.sampled_from(KINDS), n=st.integers(1, 4), seed=seeds()), quick=700, shards=4, cost=3,
         rule="at least 2 parameters and a non-identity transform")
def bij(case, ctx):
    kind, rng = case["kind"], rng_of(case)
    T, x, ref = make(kind, case["n"], rng)
    ctx.label(kind)
    ctx.nontrivial(x.size >= 2 and kind != "identity")
    x0 = x.copy()
    y = T._fwd(x)
    ctx.equal(x, x0, "forward map leaves its argument unchanged")
    if ref is not None:
        ctx.close(y, ref(x), f"{kind} forward", rtol=1e-9, atol=1e-9)
    y0 = y.copy()
    ctx.close(T._rvs(y), x, f"{kind} reverse(forward(x)) = x", rtol=1e-8, atol=1e-8)
    ctx.equal(y, y0, "reverse map leaves its argument unchanged")
    ctx.close(T._fwd(T._rvs(y)), y, f"{kind} forward(reverse(y)) = y", rtol=1e-7, atol=1e-8)
    # local step small against the distance to the domain boundary
    sx, sy = slack(kind, x, y)
    tol = dict(rtol=2e-6, atol=2e-6)
    Jf = T._jac_fwd(x)
    ctx.close(Jf, num.jac(T._fwd, x, sx), f"{kind} forward jacobian", **tol)
    Jr = T._jac_rvs(y)
    ctx.close(Jr, num.jac(T._rvs, y, sy), f"{kind} reverse jacobian", **tol)
    ctx.close(Jr @ Jf, np.eye(x.size), f"{kind} jacobians are inverse", rtol=1e-6, atol=1e-6)
    ctx.close(T._hess_fwd(x), num.jac(T._jac_fwd, x, sx), f"{kind} forward hessian", **tol)
    ctx.close(T._hess_rvs(y), num.jac(T._jac_rvs, y, sy), f"{kind} reverse hessian", **tol)


def slack(kind, x, y):
    if kind in ("ordered",):
        return 0.05 * (np.min(np.diff(x)) if len(x) > 1 else 1), 1e-2
    if kind == "log":
        return 0.05 * x.min(), 1e-2
    if kind == "tanh":
        return 0.05 * (1 - np.abs(x).max()), 1e-2
    if kind == "identity":
        return 1e-2, 1e-2
    if kind == "unconstrained_chol":
        n = int((np.sqrt(8 * len(x) + 1) + 1) // 2)
        M = lowm(x, n)
        return 0.02 * (1 - (M ** 2).sum(1).max()), 0.02 * (1 - np.abs(y).max())
    if kind == "corr_chol":
        n = int((np.sqrt(8 * len(x) + 1) + 1) // 2)
        e = np.linalg.eigvalsh(symm1(x, n)).min()
        return 0.02 * e, 0.02 * (1 - (lowm(y, n) ** 2).sum(1).max())
    M = invech(x)
    if kind == "off_diag":
        return 0.02 * (1 - np.abs(M - np.diag(np.diag(M))).max()), 1e-2
    if kind == "old_cholesky_cov":
        N = invech(y)
        e = 1 - (np.tril(N, -1) ** 2).sum(1).max()
        return 0.02 * np.linalg.eigvalsh(M).min(), 0.02 * e
    return 0.02 * np.linalg.eigvalsh(M).min(), (1e-2 if kind in ("cholesky_cov",) else 0.02 * min(1, np.abs(np.diag(invech(y))).min()) if kind == "cov_corr" else 1e-2)


@P.facet("covariance_parameterisation_unconstrained", dicts(n=st.integers(1, 6), scale=st.floats(0.1, 2.5), seed=seeds()), quick=400,
         rule="n >= 2")
def uncon(case, ctx):
    """Every real vector is the image of exactly one positive definite covariance matrix."""
    n, rng = case["n"], rng_of(case)
    ctx.nontrivial(n >= 2)
    T = pt().CholeskyCov(n)
    u = rng.uniform(-1, 1, n * (n + 1) // 2) * case["scale"]
    x = T.rvs(u)
    S = invech(x)
    ctx.check(np.linalg.eigvalsh(S).min() > 0, "not positive definite")
    ctx.close(np.log(np.diag(S)), np.diag(invech(u)), "log variances")
    ctx.close(T.fwd(x), u, "forward(reverse(u)) = u", rtol=1e-6, atol=1e-6)
    if n >= 2:
        O = pt().OrderedTransform()
        v = O.rvs(u)
        ctx.check(np.all(np.diff(v) > 0), "reverse ordered transform is increasing")
        ctx.close(O.fwd(v), u, "ordered round trip", rtol=1e-8, atol=1e-8)


@P.facet("composition_blocks_batches", dicts(blocks=st.lists(st.tuples(st.sampled_from(["log", "tanh", "identity", "cholesky_cov", "gap"]), st.integers(1, 2)), min_size=1, max_size=4),
                                            batch=st.lists(st.integers(1, 2), max_size=2), style=st.sampled_from(["int", "tuple", "slice"]), seed=seeds()),
         quick=300, shards=2, rule="2+ blocks")
def comb(case, ctx):
    """A block transform acts on each block by its own transform, identity elsewhere; batched calls act slice-wise."""
    t, rng = pt(), rng_of(case)
    Ts, rngs, xs, pos = [], [], [], 0
    style = case["style"] if all(k != "gap" for k, _ in case["blocks"]) or case["style"] != "int" else "tuple"
    for kind, n in case["blocks"]:
        if kind == "gap":
            x = rng.standard_normal(n)
        else:
            T, x, _ = make(kind, n, rng)
            Ts.append(T)
            a, b = pos, pos + len(x)
            rngs.append({"int": len(x), "tuple": (a, b), "slice": slice(a, b)}[style])
        xs.append(x)
        pos += len(x)
    if not Ts:
        ctx.skip("no block")
    ctx.nontrivial(len(case["blocks"]) >= 2)
    C = t.CombinedTransform(Ts, rngs)
    x = np.concatenate(xs)
    y, J, H = [], np.zeros((pos, pos)), np.zeros((pos,) * 3)
    i = q = 0
    for (kind, n), xb in zip(case["blocks"], xs):
        s = slice(q, q + len(xb))
        if kind == "gap":
            y.append(xb)
            J[s, s] = np.eye(len(xb))
        else:
            y.append(Ts[i]._fwd(xb.copy()))
            J[s, s] = Ts[i]._jac_fwd(xb.copy())
            H[s, s, s] = Ts[i]._hess_fwd(xb.copy())
            i += 1
        q += len(xb)
    y = np.concatenate(y)
    ctx.close(C.fwd(x), y, "block forward", rtol=1e-12)
    ctx.close(C.rvs(y), x, "block reverse", rtol=1e-7, atol=1e-8)
    ctx.close(C.jac_fwd(x), J, "block jacobian", rtol=1e-12)
    ctx.close(C.jac_rvs(y) @ J, np.eye(pos), "block reverse jacobian", rtol=1e-6, atol=1e-6)
    ctx.close(C.hess_fwd(x), H, "block hessian", rtol=1e-12)
    Jr = C.jac_rvs(y)
    # second derivative of the inverse map
    Hr = -np.einsum("ia,abc,bj,ck->ijk", Jr, H, Jr, Jr)
    ctx.close(C.hess_rvs(y), Hr, "block reverse hessian", rtol=1e-5, atol=1e-6)
    b = tuple(case["batch"])
    if b:
        X = np.empty(b + (pos,))
        for ix in np.ndindex(*b):
            X[ix] = x
        X[(0,) * len(b)] = x
        Y = C.fwd(X)
        for ix in np.ndindex(*b):
            ctx.close(Y[ix], y, "batched forward", rtol=1e-12)
        ctx.close(C.jac_fwd(X)[(-1,) * len(b)], J, "batched jacobian", rtol=1e-12)


@P.facet("composed_chain_rule", dicts(names=st.lists(st.sampled_from(["log", "exp", "tanh_rvs", "identity"]), min_size=1, max_size=4), n=st.integers(1, 3), seed=seeds()),
         quick=200, rule="3+ non-identity links")
def chain(case, ctx):
    """Composition of elementwise maps (reversed transforms included) has chain-rule derivatives of both orders."""
    t, rng = pt(), rng_of(case)

    class Rev(t.ParameterTransformBase):
        def __init__(self, b): self.b = b
        def _fwd(self, x): return self.b._rvs(x)
        def _rvs(self, x): return self.b._fwd(x)
        def _jac_fwd(self, x): return self.b._jac_rvs(x)
        def _jac_rvs(self, x): return self.b._jac_fwd(x)
        def _hess_fwd(self, x): return self.b._hess_rvs(x)
        def _hess_rvs(self, x): return self.b._hess_fwd(x)

    # keep the running value inside every domain: track it
    x = rng.uniform(0.2, 0.8, case["n"])
    links, cur = [], x.copy()
    for nm in case["names"]:
        T = {"log": t.LogTransform(), "exp": Rev(t.LogTransform()), "tanh_rvs": Rev(t.TanhTransform()), "identity": t.IdentityTransform()}[nm]
        if nm == "log" and cur.min() < 0.15:
            T = Rev(t.LogTransform())
        links.append(T)
        cur = T._fwd(cur)
        if np.abs(cur).max() > 3:
            break
    C = t.ComposedTransform(links)
    ctx.nontrivial(sum(1 for l in links if not isinstance(l, t.IdentityTransform)) >= 3)
    ctx.label(f"links{len(links)}")
    y = C.fwd(x)
    ctx.close(y, cur, "composed forward")
    ctx.close(C.rvs(y), x, "composed reverse", rtol=1e-7, atol=1e-8)
    h = 0.01
    ctx.close(C.jac_fwd(x), num.jac(C._fwd, x, h), "composed jacobian", rtol=1e-6, atol=1e-6)
    ctx.close(C.hess_fwd(x), num.jac(C._jac_fwd, x, h), "composed hessian", rtol=1e-6, atol=1e-6)
    Jr = C.jac_rvs(y)
    ctx.close(Jr @ C.jac_fwd(x), np.eye(len(x)), "reverse jacobian", rtol=1e-6, atol=1e-6)
    ctx.close(C.hess_rvs(y), -np.einsum("ia,abc,bj,ck->ijk", Jr, C.hess_fwd(x), Jr, Jr), "composed reverse hessian", rtol=1e-5, atol=1e-6)


@P.facet("scalar_arguments", dicts(v=st.floats(-0.95, 0.95)), quick=150, rule="argument bounded away from 0")
def scalars(case, ctx):
    t, v = pt(), case["v"]
    ctx.nontrivial(abs(v) > 0.01)
    T = t.TanhTransform()
    for nm, arg, want in (("fwd", v, np.arctanh(v)), ("rvs", v, np.tanh(v)), ("jac_fwd", v, 1 / (1 - v * v)), ("jac_rvs", v, 1 / np.cosh(v) ** 2),
                          ("hess_fwd", v, 2 * v / (1 - v * v) ** 2), ("hess_rvs", v, -2 * np.tanh(v) / np.cosh(v) ** 2)):
        ctx.close(getattr(T, nm)(arg), want, f"tanh {nm} scalar", rtol=1e-9)
    L, w = t.LogTransform(), abs(v) + 0.05
    for nm, want in (("fwd", np.log(w)), ("rvs", np.exp(w)), ("jac_fwd", 1 / w), ("jac_rvs", np.exp(w)), ("hess_fwd", -1 / w ** 2), ("hess_rvs", np.exp(w))):
        ctx.close(getattr(L, nm)(w), want, f"log {nm} scalar", rtol=1e-9)


@P.facet("cholesky_derivatives", dicts(n=st.integers(1, 4), order=st.integers(0, 2), seed=seeds()), quick=120, rule="n >= 2, order 2", cost=2)
def dchol(case, ctx):
    """Derivatives of a Cholesky factor along an arbitrary smooth matrix curve."""
    from pystatsm.utilities import dchol as dc
    n, rng = case["n"], rng_of(case)
    ctx.nontrivial(n >= 2 and case["order"] == 2)
    m = 2
    M0 = num.spd(rng, n, 1.0)
    A = rng.standard_normal((n, n, m)) * 0.2; A = A + np.swapaxes(A, 0, 1)
    B = rng.standard_normal((n, n, m, m)) * 0.2; B = B + np.swapaxes(B, 0, 1); B = B + np.swapaxes(B, 2, 3)

    def M(t):
        return M0 + A @ t + 0.5 * np.einsum("abij,i,j->ab", B, t, t)
    # axes of the second-derivative input: derivative axes last
    L, dL, d2L = dc.dchol(M0, A, B, order=case["order"])
    ctx.close(L, np.linalg.cholesky(M0), "factor")
    f = lambda t: np.linalg.cholesky(M(t))
    z = np.zeros(m)
    if case["order"] >= 1:
        ctx.close(dL, num.jac(f, z, 0.02), "first derivative", rtol=1e-6, atol=1e-7)
    if case["order"] == 2:
        low = np.tril(np.ones((n, n), dtype=bool))
        ctx.close(d2L[low], num.jac(lambda t: num.jac(f, t, 0.02), z, 0.02)[low], "second derivative along a curve", rtol=1e-5, atol=1e-6)
    dM, d2M = dc.unit_matrices(n)
    ctx.check(dM.shape == (n, n, n * (n + 1) // 2) and d2M.shape == (n, n) + (n * (n + 1) // 2,) * 2, "unit matrix shapes")
    v = rng.standard_normal(dM.shape[-1])
    ctx.close(np.tril(dM @ v), np.tril(invech(v)), "unit matrices span the lower half")
    if case["order"] == 2:
        x = vech(M0)
        _, dL, d2L = dc.dchol(M0, dM, d2M, order=2)
        g = lambda q: np.linalg.cholesky(invech(q))
        G = lambda q: dc.dchol(invech(q), dM, d2M, order=1)[1]
        ctx.close(dL, num.jac(g, x, 0.02), "d chol / d vech", rtol=1e-6, atol=1e-7)
        ctx.close(d2L, num.jac(G, x, 0.02), "d2 chol / d vech2", rtol=1e-6, atol=1e-7)
