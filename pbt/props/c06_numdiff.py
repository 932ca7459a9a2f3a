"""C06: numerical differentiation helpers agree with analytic derivatives to their stated order."""
import numpy as np
from math import factorial
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts

P = Property("C06", "Numerical differentiation approximates the derivative to the order of its scheme")
P.assumptions = ["smooth test functions (trigonometric + quadratic with bounded frequencies), coordinates 0 or of size 0.2..2 as the relative step requires",
                 "tolerances: forward first order 2e-4, second order 2e-2/5e-3, central 1e-6, Richardson and complex step 1e-7/1e-9 relative to the derivative scale"]


def nd():
    from pystatsm.utilities import numerical_derivs
    return numerical_derivs


class Fn:
    """f_m(x) = sum_k c_mk sin(w_k.x + p_k) + x'Q_m x/2 + b_m.x ; analytic in complex x."""

    def __init__(self, rng, n, m):
        k = 3
        self.c, self.p = rng.standard_normal((m, k)), rng.uniform(0, 6, k)
        self.w = rng.uniform(-1.2, 1.2, (k, n))
        Q = rng.standard_normal((m, n, n))
        self.Q, self.b = (Q + Q.transpose(0, 2, 1)) / 2, rng.standard_normal((m, n))

    def __call__(self, x):
        x = np.asarray(x)
        return self.c @ np.sin(self.w @ x + self.p) + np.einsum("mij,i,j->m", self.Q, x, x) / 2 + self.b @ x

    def jac(self, x):
        return np.einsum("mk,k,kj->mj", self.c, np.cos(self.w @ x + self.p), self.w) + self.Q @ x + self.b

    def hess(self, x):
        return np.einsum("mk,k,ki,kj->mij", self.c, -np.sin(self.w @ x + self.p), self.w, self.w) + self.Q


def point(rng, n, zeros):
    x = rng.uniform(0.2, 2.0, n) * rng.choice([-1, 1], n)
    if zeros:
        x[rng.random(n) < 0.4] = 0.0
    return x


def sc(a):
    return 1 + np.abs(a).max()


BASE = dict(n=st.integers(1, 5), zeros=st.booleans(), seed=seeds())


@P.facet("scalar_functions", dicts(**BASE), quick=300, rule="n >= 2")
def scalar(case, ctx):
    u, rng, n = nd(), rng_of(case), case["n"]
    F = Fn(rng, n, 1)
    x = point(rng, n, case["zeros"])
    x0 = x.copy()
    f, g = (lambda z: F(z)[0]), (lambda z: F.jac(z)[0])
    G, H = F.jac(x)[0], F.hess(x)[0]
    ctx.nontrivial(n >= 2)
    for nm, tol in (("fo_fc_fd", 2e-4), ("fo_fc_cd", 1e-7), ("fo_fc_cs", 1e-8)):
        ctx.close(getattr(u, nm)(f, x), G, nm, rtol=0, atol=tol * sc(G) * (1 + n))
    for nm, a, tol in (("so_fc_fd", f, 3e-3), ("so_gc_fd", g, 3e-4), ("so_fc_cd", f, 3e-3), ("so_gc_cd", g, 1e-7)):
        r = getattr(u, nm)(a, x)
        ctx.close(r, H, nm, rtol=0, atol=tol * sc(H) * (1 + n))
        ctx.equal(r, r.T, nm + " symmetric")
    ctx.close(np.squeeze(u.grad_approx(f, x), 0), G, "grad_approx", rtol=0, atol=1e-6 * sc(G))
    ctx.close(u.hess_cs(f, x), H, "hess_cs", rtol=0, atol=1e-6 * sc(H))
    a = rng.standard_normal(2)
    fa = lambda z, s, t: s * f(z) + t
    ctx.close(u.fo_fc_cd(fa, x, args=tuple(a)), a[0] * G, "fo_fc_cd(args)", rtol=0, atol=1e-6 * sc(a) * sc(G))
    ctx.close(u.so_gc_cd(lambda z, s: s * g(z), x, args=(a[0],)), a[0] * H, "so_gc_cd(args)", rtol=0, atol=1e-6 * sc(a) * sc(H))
    ctx.close(u.fo_fc_cd(f, x, eps=1e-4), G, "fo_fc_cd(eps)", rtol=0, atol=1e-6 * sc(G))
    ctx.equal(x, x0, "the evaluation point is not modified")


@P.facet("vector_functions", dicts(m=st.integers(1, 4), mask=st.booleans(), **BASE), quick=250, rule="n >= 2 and m >= 2")
def vector(case, ctx):
    u, rng, n, m = nd(), rng_of(case), case["n"], case["m"]
    F = Fn(rng, n, m)
    x = point(rng, n, case["zeros"])
    x0 = x.copy()
    J, H = F.jac(x), F.hess(x)
    ctx.nontrivial(n >= 2 and m >= 2)
    for nm, tol in (("jac_approx", 1e-6), ("jac_approx4", 1e-6), ("jac_approx3", 1e-6), ("jac_cs", 1e-8)):
        ctx.close(getattr(u, nm)(F, x), J, nm, rtol=0, atol=tol * sc(J) * (1 + n))
    ctx.close(u.jac_approx2(F, x)[0].T, J, "jac_approx2", rtol=0, atol=1e-6 * sc(J))
    ctx.close(u.hess_approx(F, x), H, "hess_approx", rtol=0, atol=2e-4 * sc(H) * (1 + n) * (1 + np.abs(x).max() / 0.2))
    ctx.close(u.hess_approx2(F, x), H, "hess_approx2", rtol=0, atol=5e-2 * sc(H) * (1 + n))
    ctx.close(u.hess_cs(F, x), H, "hess_cs vector", rtol=0, atol=1e-6 * sc(H))
    if case["mask"]:
        mk = rng.random(m) < 0.6
        ctx.close(u.jac_approx(F, x, mask=mk), np.where(mk[:, None], J, 0), "jac_approx(mask)", rtol=0, atol=1e-5 * sc(J) * (1 + n))
        mk = rng.random((m, n, n)) < 0.6
        got = u.hess_approx(F, x, mask=mk)
        full = u.hess_approx(F, x)
        ctx.equal(got, np.where(mk, full, 0), "hess_approx(mask) = masked hess_approx")
    # matrix-shaped argument
    if n >= 2:
        X = np.stack([x, point(rng, n, case["zeros"])])
        A = rng.standard_normal((2, n))
        FM = lambda Z: np.atleast_1d(np.sum(A * np.sin(Z)))
        ctx.close(u.jac_approx(FM, X)[0], A * np.cos(X), "jac_approx of a matrix argument", rtol=0, atol=1e-5)
        ctx.close(u.jac_approx4(FM, X)[0], A * np.cos(X), "jac_approx4 of a matrix argument", rtol=0, atol=1e-5)
        FMM = lambda Z: A * np.sin(Z) * np.sum(Z)
        D = np.zeros((2, n, 2, n))
        for i in np.ndindex(2, n):
            D[i] += A[i] * np.sin(X[i])
            D[i + i] += A[i] * np.cos(X[i]) * X.sum()
        ctx.close(u.jac_approx(FMM, X), D, "jac_approx matrix to matrix", rtol=0, atol=1e-5 * sc(D))
    ctx.equal(x, x0, "the evaluation point is not modified")


@P.facet("stencils", dicts(m=st.integers(2, 8), order=st.integers(0, 4), x0=st.integers(-3, 3), last=st.booleans(), seed=seeds(),
                           nodes=st.lists(st.integers(-12, 12), min_size=9, max_size=12, unique=True)), quick=400, rule="order >= 1 and non-uniform nodes")
def stencils(case, ctx):
    """weights reproduce the derivative of every polynomial of degree < number of nodes"""
    u, rng, k = nd(), rng_of(case), case["order"]
    ctx.nontrivial(k >= 1)
    x = np.array(case["nodes"][:max(case["m"], k + 1)], dtype=float) / 4.0
    x0 = float(case["x0"]) / 4.0
    m = len(x)
    W = u.fd_coefs(x, x0=x0, n=k, last_col=False)
    ctx.check(W.shape == (m, k + 1), f"fd_coefs shape {W.shape}")
    cond = np.abs(W).max()
    for d in range(k + 1):
        for p in range(m):
            want = factorial(p) / factorial(p - d) * x0 ** (p - d) if p >= d else 0.0
            terms = W[:, d] * x ** p
            ctx.close(terms.sum(), want, f"fd_coefs derivative {d} of x^{p}", rtol=0, atol=1e-9 * (1 + np.abs(terms).sum()) * (1 + cond) ** 0.5)
    ctx.equal(u.fd_coefs(x, x0=x0, n=k), W[:, -1], "fd_coefs last column")
    pts = np.sort(np.unique(np.array(case["nodes"][:max(min(case["m"], 7), k + 1)])))
    c = u.fd_coefficients(pts, k)
    for p in range(len(pts)):
        t = c * pts.astype(float) ** p
        ctx.close(t.sum(), float(factorial(p)) if p == k else 0.0, f"fd_coefficients order {k} on x^{p}", rtol=0, atol=1e-8 * (1 + np.abs(t).sum()) * 10)


@P.facet("univariate_stencil_derivatives", dicts(order=st.integers(1, 3), n=st.integers(1, 6), seed=seeds()), quick=250, rule="order >= 2")
def univ(case, ctx):
    u, rng, k, n = nd(), rng_of(case), case["order"], case["n"]
    ctx.nontrivial(k >= 2)
    a, w, p = rng.standard_normal(3), rng.uniform(-1.5, 1.5, 3), rng.uniform(0, 6, 3)
    x = rng.uniform(-2, 2, n)
    f = lambda z: np.sin(np.multiply.outer(z, w) + p) @ a
    d = (np.sin(np.multiply.outer(x, w) + p + k * np.pi / 2) * w ** k) @ a
    ctx.close(u.finite_diff(f, x, order=k, m=6, n=16), d, "finite_diff", rtol=0, atol=1e-4 * (1 + np.abs(w).max()) ** (k + 10) * 1e-2)
    eps = {1: 1e-3, 2: 5e-3, 3: 1e-2}[k]
    ctx.close(u.fd_derivative(f, x, epsilon=eps, order=k), d, "fd_derivative", rtol=0, atol=1e-6 * sc(d))
    ctx.close(u.fd_derivative(f, x, epsilon=eps, order=k, points=np.arange(0, 8)), d, "fd_derivative one-sided", rtol=0, atol=1e-4 * sc(d))
