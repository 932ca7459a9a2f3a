"""C25: polychoric and polyserial correlations (pylvcorr)."""
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num
from pystatsm.pylvcorr import lvcorr, polychoric, polychoric2, statfuncs, sim_lvcorr

P = Property("C25", "Polychoric and polyserial correlations")
P.assumptions = ["correlations up to 0.97 in absolute value", "every category of a variable occurs; likelihood derivatives are judged where no occupied cell has a probability below 1e-7"]
GX, GW = np.polynomial.legendre.leggauss(24)
phi, Phi = sp.stats.norm.pdf, sp.special.ndtr


def bvn_cells(ta, tb, r):
    """cell probabilities of a standard bivariate normal cut at ta (rows) and tb (columns), by quadrature over the rows"""
    a = np.r_[-9.5, np.clip(ta, -9.5, 9.5), 9.5]
    tb = np.r_[-np.inf, tb, np.inf]
    s = np.sqrt(1 - r * r)
    out = np.zeros((len(a) - 1, len(tb) - 1))
    for i in range(len(a) - 1):
        k = max(4, int(np.ceil((a[i + 1] - a[i]) / 0.25)))
        e = np.linspace(a[i], a[i + 1], k + 1)
        x = ((e[1:] + e[:-1])[:, None] + (e[1:] - e[:-1])[:, None] * GX).ravel() / 2
        w = ((e[1:] - e[:-1])[:, None] * GW).ravel() / 2
        z = (tb[None, :] - r * x[:, None]) / s
        up, lo = z[:, 1:], z[:, :-1]
        d = np.where(lo > 0, Phi(-lo) - Phi(-up), Phi(up) - Phi(lo))
        out[i] = (w * phi(x)) @ d
    return out


def thr(x):
    c = np.unique(x, return_counts=True)[1]
    return sp.stats.norm.ppf(np.cumsum(c)[:-1] / c.sum())


def table(x, y):
    ux, uy = np.unique(x), np.unique(y)
    return np.array([[np.sum((x == a) & (y == b)) for b in uy] for a in ux])


DATA = {"seed": seeds(), "n": st.sampled_from([120, 60, 300]), "p": st.sampled_from([2, 3, 4]), "k": st.lists(st.sampled_from([3, 2, 4, 5]), min_size=4, max_size=4), "codes": st.sampled_from(["zero", "one", "gaps", "negative"]), "cor": st.sampled_from(["mid", "high", "low"])}


def make(case, floats=True):
    rng = rng_of(case)
    n, p = case["n"], case["p"]
    s = {"mid": 0.5, "high": 0.85, "low": 0.1}[case["cor"]]
    f = rng.choice([-1, 1], p) * np.sqrt(rng.uniform(0.6 * s, s, p))
    R = np.outer(f, f)
    np.fill_diagonal(R, 1)
    Z = rng.multivariate_normal(np.zeros(p), R, n)
    X = np.zeros((n, p), int)
    for j in range(p):
        k = case["k"][j]
        q = np.cumsum(rng.dirichlet(np.full(k, 6.0)))[:-1]
        X[:, j] = np.digitize(Z[:, j], np.quantile(Z[:, j], np.clip(q, 0.03, 0.97)))
        u, X[:, j] = np.unique(X[:, j], return_inverse=True)
    C = {"zero": lambda v, j: v, "one": lambda v, j: v + 1, "gaps": lambda v, j: np.array([1, 2, 4, 9, 11])[v] + j, "negative": lambda v, j: v - 2}[case["codes"]]
    Y = np.column_stack([C(X[:, j], j) for j in range(p)])
    if any(len(np.unique(X[:, j])) < 2 for j in range(p)):
        return None
    return rng, R, X, pd.DataFrame(Y.astype(float) if floats else Y, columns=[f"v{j}" for j in range(p)])


def degenerate(X, i, j):
    """the correlation of a table with too many empty cells runs to +-1"""
    t = table(X[:, i], X[:, j])
    return abs(num_fit(t)[0]) > 0.97


_cache = {}


def num_fit(t):
    """two-step reference: maximise over r alone at the marginal thresholds"""
    key = (t.shape, tuple(t.ravel()))
    if key not in _cache:
        n = t.sum()
        a = sp.stats.norm.ppf(np.cumsum(t.sum(1))[:-1] / n)
        b = sp.stats.norm.ppf(np.cumsum(t.sum(0))[:-1] / n)
        f = lambda z: -np.sum(t * np.log(np.maximum(bvn_cells(a, b, np.tanh(z)), 1e-300)))
        g = np.linspace(-2.6, 2.6, 14)
        v = [f(z) for z in g]
        i = int(np.argmin(v))
        o = sp.optimize.minimize_scalar(f, bounds=(g[max(i - 1, 0)], g[min(i + 1, 13)]), method="bounded", options=dict(xatol=1e-9))
        _cache.clear() if len(_cache) > 200 else None
        _cache[key] = (np.tanh(o.x), o.fun, a, b)
    return _cache[key]


@P.facet("cells", dicts(**DATA, r=st.sampled_from([0.3, -0.7, 0.0, 0.9, -0.95])), quick=60, thorough=2000, cost=1.5,
         examples=[dict(seed=1, n=60, p=2, k=[2, 4, 3, 3], codes=c, cor="mid", r=0.3) for c in ("zero", "gaps")],
         rule="two variables with different numbers of categories")
def cells(case, ctx):
    d = make(case)
    if d is None:
        ctx.skip()
    rng, R, X, df = d
    p, r = case["p"], case["r"]
    i, j = [int(v) for v in rng.permutation(p)[:2]]
    t = table(X[:, i], X[:, j])
    a, b = thr(X[:, i]), thr(X[:, j])
    ctx.nontrivial(t.shape[0] != t.shape[1])
    ctx.label(case["codes"], f"r={r}")
    q = bvn_cells(a, b, r)
    fine = q[t > 0].min() > 1e-7
    ll = lambda v: -np.sum(t * np.log(bvn_cells(a, b, v)))
    g = num.deriv(ll, r, 1) if False else (ll(r + 1e-5) - ll(r - 1e-5)) / 2e-5
    h = (ll(r + 1e-3) - 2 * ll(r) + ll(r - 1e-3)) / 1e-6
    h2 = (ll(r + 5e-4) - 2 * ll(r) + ll(r - 5e-4)) / 2.5e-7
    h = (4 * h2 - h) / 3
    n = t.sum()
    P1 = lvcorr._Polychor(df.iloc[:, i].values, df.iloc[:, j].values)
    ctx.equal(P1.xtab, t, "cross table")
    mods = {"_Polychor": (P1, (), True), "Polychoric": (lvcorr.Polychoric(df), (i, j), False), "PolychoricCorr": (lvcorr.PolychoricCorr(df), (i, j), True)}
    for k, (m, arg, flat) in mods.items():
        # Polychoric keeps the lower triangle only; its table is of (max, min)
        T = (lambda v: v.T) if (k == "Polychoric" and i < j) else (lambda v: v)
        ctx.close(np.asarray(m.prob(r, *arg)).reshape(T(q).shape), T(q), f"{k} cell probabilities", atol=1e-8, rtol=1e-6)
        if fine:
            ctx.close(m.loglike(r, *arg), ll(r), f"{k} log-likelihood", rtol=1e-6, atol=1e-6)
            ctx.close(m.gradient(r, *arg), g, f"{k} gradient", rtol=1e-4, atol=1e-4 * n)
            ctx.close(m.hessian(r, *arg), h, f"{k} Hessian", rtol=1e-3, atol=2e-3 * n)
            if arg:
                z = np.arctanh(r)
                f = lambda v: ll(np.tanh(v))
                ctx.close(m.loglike_tanh(z, *arg), ll(r), f"{k} log-likelihood in z", rtol=1e-6, atol=1e-6)
                ctx.close(m.gradient_tanh(z, *arg), (f(z + 1e-5) - f(z - 1e-5)) / 2e-5, f"{k} gradient in z", rtol=1e-4, atol=1e-4 * n)
                ctx.close(m.hessian_tanh(z, *arg), (f(z + 1e-3) - 2 * f(z) + f(z - 1e-3)) / 1e-6, f"{k} Hessian in z", rtol=1e-3, atol=2e-3 * n)
    hi, lo = max(i, j), min(i, j)
    th, tl, tt = thr(X[:, hi]), thr(X[:, lo]), table(X[:, hi], X[:, lo])
    for mod in (polychoric, polychoric2):
        m = mod.Polychor(df)
        k = int(m.II_ind[i, j])
        i1, i2 = [int(v) for v in m.inds1[k]]
        ctx.equal(sorted([i1, i2]), [lo, hi], "pair index")
        t1, t2 = thr(X[:, i1]), thr(X[:, i2])
        T = table(X[:, i1], X[:, i2])
        ctx.equal(m.counts[k], T, "counts")
        ctx.close(m.predicted_probs(i1, i2, r=r), bvn_cells(t1, t2, r), "predicted probabilities", atol=1e-8, rtol=1e-6)
        if fine:
            ctx.close(m.qloglike(r, i1, i2), ll(r), "profile log-likelihood", rtol=1e-6, atol=1e-6)
            ctx.close(m.qgradient(r, i1, i2), g, "its gradient", rtol=1e-4, atol=1e-4 * n)
            ctx.close(m.qhessian(r, i1, i2), h, "its Hessian", rtol=1e-3, atol=2e-3 * n)
            ws = polychoric2._PairWorkspace(m, i1, i2, r)
            ctx.close([ws.loglike(), ws.score(), ws.hessian()], [m.qloglike(r, i1, i2), m.qgradient(r, i1, i2), m.qhessian(r, i1, i2)], "workspace", rtol=1e-9, atol=1e-9)
            z = np.arctanh(r)
            f = lambda v: float(np.ravel(m.qloglike_transformed(v, i1, i2))[0])
            ctx.close(f(z), ll(r), "transformed", rtol=1e-6, atol=1e-6)
            ctx.close(np.ravel(m.qgradient_transformed(z, i1, i2))[0], (f(z + 1e-5) - f(z - 1e-5)) / 2e-5, "transformed gradient", rtol=1e-4, atol=1e-4 * n)
            ctx.close(np.ravel(m.qhessian_transformed(z, i1, i2))[0], (f(z + 1e-3) - 2 * f(z) + f(z - 1e-3)) / 1e-6, "transformed Hessian", rtol=1e-3, atol=2e-3 * n)
        # thresholds and correlation together
        par = np.r_[np.sort(t1 + 0.1 * rng.standard_normal(len(t1))), np.sort(t2 + 0.1 * rng.standard_normal(len(t2))), r]
        q1 = bvn_cells(par[:len(t1)], par[len(t1):-1], r)
        ctx.close(m.predicted_probs(i1, i2, params=par), q1, "probabilities at given thresholds", atol=1e-8, rtol=1e-6)
        if q1[T > 0].min() < 1e-7 or min(np.diff(par[:len(t1)]).min(initial=1), np.diff(par[len(t1):-1]).min(initial=1)) < 0.02:
            continue
        full = lambda v: -np.sum(T * np.log(bvn_cells(v[:len(t1)], v[len(t1):-1], v[-1])))
        ctx.close(m.loglike(par, i1, i2), full(par), "joint log-likelihood", rtol=1e-6, atol=1e-6)
        ctx.close(m.gradient(par, i1, i2), num.grad(full, par), "joint gradient", rtol=1e-4, atol=2e-4 * n)
        ctx.close(m.hessian(par, i1, i2), num.jac(lambda v: m.gradient(v, i1, i2), par), "joint Hessian", rtol=1e-4, atol=2e-4 * n)
        u = m.trns[k].fwd(par.copy())
        ctx.close(m.loglike_transformed(u, i1, i2), full(par), "unconstrained log-likelihood", rtol=1e-6, atol=1e-6)
        ctx.close(m.gradient_transformed(u, i1, i2), num.grad(lambda v: m.loglike_transformed(v, i1, i2), u), "unconstrained gradient", rtol=1e-4, atol=2e-4 * n)
        ctx.close(m.hessian_transformed(u, i1, i2), num.jac(lambda v: m.gradient_transformed(v, i1, i2), u), "unconstrained Hessian", rtol=1e-4, atol=2e-4 * n)


def influence(X, i, j, r):
    """asymptotic two-step influence of each row on r(i, j), at expected information"""
    a, b = thr(X[:, i]), thr(X[:, j])
    q = bvn_cells(a, b, r)
    h = 1e-5
    dr = (bvn_cells(a, b, r + h) - bvn_cells(a, b, r - h)) / (2 * h)

    def dt(t, which):
        out = []
        for k in range(len(t)):
            e = np.zeros(len(t))
            e[k] = h
            out.append(((bvn_cells(a + e, b, r) - bvn_cells(a - e, b, r)) if which == 0 else (bvn_cells(a, b + e, r) - bvn_cells(a, b - e, r))) / (2 * h))
        return out
    D = np.sum(dr ** 2 / q)
    x, y = np.unique(X[:, i], return_inverse=True)[1], np.unique(X[:, j], return_inverse=True)[1]
    s = (dr / q)[x, y]
    for t, v, w in ((a, x, 0), (b, y, 1)):
        d = dt(t, w)
        for k in range(len(t)):
            # tau_k = ppf(F_k): its influence is (1[v <= k] - F_k) / phi(tau_k)
            s = s - np.sum(dr * d[k] / q) * ((v <= k) * 1.0 - Phi(t[k])) / phi(t[k])
    return s / D


@P.facet("fit", dicts(**DATA, missing=st.sampled_from([0.0, 0.1])), quick=40, thorough=1200, cost=3.0,
         examples=[dict(seed=2, n=120, p=3, k=[2, 4, 3, 3], codes=c, cor="mid", missing=0.1) for c in ("zero", "gaps")],
         rule="three or more variables")
def fit(case, ctx):
    d = make(case)
    if d is None:
        ctx.skip()
    rng, R, X, df = d
    p, n = case["p"], case["n"]
    pairs = [(i, j) for i in range(p) for j in range(i)]
    ref = {}
    for i, j in pairs:
        ref[i, j] = num_fit(table(X[:, i], X[:, j]))
        if abs(ref[i, j][0]) > 0.97:
            ctx.skip("a correlation at the boundary")
    ctx.nontrivial(p > 2)
    ctx.label(case["codes"], f"p={p}", "missing" if case["missing"] else "complete")
    want = np.eye(p)
    for i, j in pairs:
        want[i, j] = want[j, i] = ref[i, j][0]

    def obs_se(i, j, XX=X):
        t = table(XX[:, i], XX[:, j])
        r, _, a, b = num_fit(t)
        f = lambda v: -np.sum(t * np.log(bvn_cells(a, b, v)))
        e = 2e-3 * (1 - r * r)
        return 1 / np.sqrt((f(r + e) - 2 * f(r) + f(r - e)) / e ** 2)
    small = min(bvn_cells(ref[k][2], ref[k][3], ref[k][0])[table(X[:, k[0]], X[:, k[1]]) > 0].min() for k in pairs) > 1e-6
    opt = dict(options=dict(gtol=1e-9, xtol=1e-12))
    for K in (lvcorr.Polychoric, lvcorr.PolychoricCorr):
        m = K(df)
        m.fit(opt_kws=dict(method="trust-constr", **opt))
        ctx.close(m.R, want, f"{K.__name__} correlations", atol=2e-5)
        if small:
            se = np.zeros((p, p))
            for i, j in pairs:
                se[i, j] = se[j, i] = obs_se(i, j)
            ctx.close(m.R_se, se, f"{K.__name__} standard errors", rtol=2e-3, atol=1e-6)
    i, j = pairs[0]
    m = lvcorr._Polychor(df.iloc[:, i], df.iloc[:, j])
    m.fit()
    ctx.close(m.rho_hat, want[i, j], "_Polychor", atol=1e-4)
    if small:
        ctx.close(m.se_rho, obs_se(i, j), "_Polychor standard error", rtol=3e-3)
    ctx.close(lvcorr._Polychor(df=df.iloc[:, [i, j]]).loglike(0.2), m.loglike(0.2), "from a data frame", rtol=1e-10)
    for mod in (polychoric, polychoric2):
        for meth in ("twostep", "ml"):
            if meth == "ml" and case["seed"] % 3:
                continue
            m = mod.Polychor(df)
            m.fit(method=meth, **({"opt_kws": dict(opt)} if meth == "ml" or mod is polychoric else {}))
            r = m.rhos if mod is polychoric else m.rho_hat
            ctx.equal(len(r), len(pairs), "number of correlations")
            for k, (i1, i2) in enumerate(m.inds1):
                i1, i2 = int(i1), int(i2)
                if meth == "twostep":
                    ctx.close(r[k], want[i1, i2], f"{mod.__name__[-12:]} r({i1},{i2})", atol=2e-5)
                else:
                    par = m.params[k]
                    ctx.close(par[-1], r[k], "joint estimate", rtol=1e-9, atol=1e-12)
                    T = table(X[:, i1], X[:, i2])
                    ka = T.shape[0] - 1
                    l0 = ref[max(i1, i2), min(i1, i2)][1]
                    l1 = -np.sum(T * np.log(np.maximum(bvn_cells(par[:ka], par[ka:-1], par[-1]), 1e-300)))
                    ctx.check(l1 <= l0 + 1e-5 * max(1, abs(l0)) and l0 - l1 < 0.1 * n, f"joint likelihood {l1} against two-step {l0}")
                    full = lambda v: -np.sum(T * np.log(np.maximum(bvn_cells(v[:ka], v[ka:-1], v[-1]), 1e-300)))
                    g = num.grad(full, par)
                    if small:
                        ctx.check(np.max(np.abs(g)) < 2e-2 * np.sqrt(n), f"joint estimate not stationary: {g}")
            if meth == "twostep" and small:
                G = np.array([influence(X, int(a), int(b), want[a, b]) for a, b in m.inds1])
                V = G @ G.T / n
                sd = np.sqrt(np.diag(V))
                ctx.close(m.acov / np.outer(sd, sd) * (1 if mod is polychoric else n), V / np.outer(sd, sd), "asymptotic covariance", atol=5e-3)
                if mod is polychoric2:
                    ctx.close(m.get_acov_loop(), m.acov, "covariance by loops", rtol=1e-8, atol=1e-12)
            if mod is polychoric2:
                for k, (i1, i2) in enumerate(m.inds1):
                    ctx.close(m.R_hat[i1, i2], r[k], "matrix of correlations", rtol=1e-12)
                    ctx.close(m.R_hat[i2, i1], r[k], "symmetric", rtol=1e-12)
                    ctx.equal(m.rho_labels[k], f"r(v{i1}, v{i2})", "label")
                ctx.close(np.diag(m.R_hat), np.ones(p), "unit diagonal")
                ctx.close(m.R_df.values, m.R_hat, "frame")
                ctx.close(m.rho_se, np.sqrt(np.diag(m.acov)), "standard errors")
                ctx.close(m.res.iloc[:, 0].values, r, "table")
                ctx.close(m.res.iloc[:, 2].values, r / m.rho_se, "t values", rtol=1e-8)
                ctx.equal(list(m.res.index), m.rho_labels, "table labels")
    # reversing one variable's categories changes the sign of its correlations
    df2 = df.copy()
    df2["v0"] = -df2["v0"]
    m = polychoric2.Polychor(df2)
    m.fit()
    sgn = np.ones((p, p))
    sgn[0, 1:] = sgn[1:, 0] = -1
    ctx.close(m.R_hat, want * sgn, "reversed variable", atol=2e-5)
    if case["missing"]:
        M = df.mask(rng.uniform(size=df.shape) < case["missing"])
        w = np.eye(p)
        for i, j in pairs:
            a, b = M.iloc[:, i].values, M.iloc[:, j].values
            ok = ~(np.isnan(a) | np.isnan(b))
            if len(np.unique(a[ok])) < len(np.unique(X[:, i])) or len(np.unique(b[ok])) < len(np.unique(X[:, j])):
                ctx.skip("a category is lost to missing values")
            w[i, j] = w[j, i] = num_fit(table(a[ok], b[ok]))[0]
            if abs(w[i, j]) > 0.97:
                ctx.skip("a correlation at the boundary")
        m = lvcorr.PolychoricCorr(M)
        m.fit()
        ctx.close(m.R, w, "pairwise complete rows", atol=1e-4)
        for v in range(p):
            ctx.close(m.taus[v][1:-1], thr(M.iloc[:, v].dropna().values), "thresholds of the observed values", atol=1e-9)
            ctx.equal(m.ncats[v], len(np.unique(X[:, v])), "categories")
        m = lvcorr.Polychoric(M)
        m.fit()
        for i, j in pairs:
            a, b = M.iloc[:, i].values, M.iloc[:, j].values
            ok = ~(np.isnan(a) | np.isnan(b))
            ta, tb = thr(a[~np.isnan(a)]), thr(b[~np.isnan(b)])
            T = table(a[ok], b[ok])
            f = lambda v: -np.sum(T * np.log(np.maximum(bvn_cells(ta, tb, v), 1e-300)))
            ctx.check(f(m.R[i, j]) <= min(f(m.R[i, j] - 0.01), f(m.R[i, j] + 0.01)) + 1e-9 or abs(m.R[i, j]) > 0.96, "not the maximum with missing values")


@P.facet("serial", dicts(seed=seeds(), n=st.sampled_from([120, 60, 400]), k=st.sampled_from([3, 2, 5]), cor=st.sampled_from([0.5, -0.7, 0.0, 0.9]), codes=st.sampled_from(["int", "float", "gaps", "str"]), mu=st.sampled_from([0.0, 40.0]), sd=st.sampled_from([1.0, 12.0, 0.05]), how=st.sampled_from(["xy", "df", "names"])), quick=50, thorough=1500, cost=1.5,
         rule="a covariate with another location or scale than 0 and 1")
def serial(case, ctx):
    rng = rng_of(case)
    n, k, c = case["n"], case["k"], case["cor"]
    Z = rng.multivariate_normal([0, 0], [[1, c], [c, 1]], n)
    y = np.digitize(Z[:, 1], np.quantile(Z[:, 1], np.clip(np.cumsum(rng.dirichlet(np.full(k, 8.0)))[:-1], 0.05, 0.95)))
    y = np.unique(y, return_inverse=True)[1]
    x = case["mu"] + case["sd"] * Z[:, 0]
    lab = {"int": np.arange(5), "float": np.arange(5) * 0.5 - 1, "gaps": np.array([1, 2, 7, 20, 21]), "str": np.array(list("abcde"))}[case["codes"]]
    yy = lab[y]
    ctx.label(case["codes"], case["how"], f"k={k}")
    ctx.nontrivial(case["mu"] != 0 or case["sd"] != 1)
    if case["how"] == "xy":
        m = lvcorr.Polyserial(x, yy)
    elif case["codes"] == "str":
        ctx.skip("text labels are given as arrays")
    elif case["how"] == "df":
        m = lvcorr.Polyserial(df=pd.DataFrame({"x": x, "y": yy}))
    else:
        m = lvcorr.Polyserial("x", "y", pd.DataFrame({"q": y, "y": yy, "x": x}))
    z = (x - x.mean()) / x.std()
    t = np.r_[-np.inf, thr(y), np.inf]

    def pr(r):
        s = np.sqrt(1 - r * r)
        a, b = (t[y] - r * z) / s, (t[y + 1] - r * z) / s
        return np.where(a > 0, Phi(-a) - Phi(-b), Phi(b) - Phi(a))
    ll = lambda r: -np.sum(np.log(pr(r)))
    for r in (0.3, -0.6, 0.0):
        if pr(r).min() < 1e-9:
            continue
        ctx.close(m.prob(r), pr(r), "conditional probabilities", rtol=1e-4 if n < 500 else 1e-4, atol=1e-2 / n)
        ctx.close(m.gradient(r), num.deriv(m.loglike, r) if False else (m.loglike(r + 1e-5) - m.loglike(r - 1e-5)) / 2e-5, "gradient", rtol=1e-5, atol=1e-4)
        ctx.close(np.ravel(m.hessian(r))[0], (m.loglike(r + 1e-4) - 2 * m.loglike(r) + m.loglike(r - 1e-4)) / 1e-8, "Hessian", rtol=1e-2, atol=1e-2 * n ** 0.5)
    o = sp.optimize.minimize_scalar(lambda v: ll(np.tanh(v)) if np.isfinite(ll(np.tanh(v))) else 1e12, bounds=(-2.5, 2.5), method="bounded", options=dict(xatol=1e-9))
    r = np.tanh(o.x)
    if abs(r) > 0.95 or k == 1 or not np.isfinite(ll(np.corrcoef(z, y)[0, 1])):
        ctx.skip("a correlation at the boundary")
    m.fit()
    se = 1 / np.sqrt((ll(r + 1e-3) - 2 * ll(r) + ll(r - 1e-3)) / 1e-6)
    ctx.close(m.rho_hat / se, r / se, "polyserial correlation", atol=0.02)
    ctx.close(np.ravel(m.se_rho)[0], se, "standard error", rtol=2e-2)


@P.facet("kernels", dicts(h=st.floats(-4, 4), k=st.floats(-4, 4), r=st.sampled_from([0.0, 0.5, -0.5, 0.9, -0.95, 0.1]), mu=st.floats(-2, 2), s=st.sampled_from([1.0, 0.5, 3.0]), seed=seeds()), quick=200, thorough=5000,
         rule="a correlation other than zero")
def kernels(case, ctx):
    h, k, r, mu, s = case["h"], case["k"], case["r"], case["mu"], case["s"]
    sf = statfuncs
    ctx.nontrivial(r != 0)
    N = sp.stats.norm
    for f in (sf.norm_pdf, sf.norm_pdf_jit):
        ctx.close(f(h, mu, s), N.pdf(h, mu, s), f.__name__ if hasattr(f, "__name__") else "pdf", rtol=1e-10)
    for f in (sf.norm_cdf, sf.norm_cdf_jit):
        ctx.close(f(h, mu, s), N.cdf(h, mu, s), "normal cdf", rtol=1e-6, atol=1e-14)
    q = N.cdf(h)
    ctx.close(sf.norm_qtf(q), h, "normal quantile", atol=1e-8)
    C = bvn_cells(np.array([h]), np.array([k]), r)[0, 0]
    for f in (sf.binorm_cdf, sf.binorm_cdf_old, sf.binorm_cdf_jit):
        ctx.close(f(h, k, r), C, "bivariate cdf", rtol=1e-7, atol=1e-9)
    if abs(r) <= 0.5:
        ctx.close(sf.binorm_l(h, k, r), 1 - q - N.cdf(k) + C, "upper orthant", atol=1e-5)
    for f in (sf.binorm_l2, sf.binorm_l2_jit):
        ctx.close(f(h, k, r), 1 - q - N.cdf(k) + C, "upper orthant", atol=1e-8)
    D = N.pdf(h) * N.pdf((k - r * h) / np.sqrt(1 - r * r)) / np.sqrt(1 - r * r)
    for f in (sf.binorm_pdf, sf.binorm_pdf_old, sf.binorm_pdf_jit, sf.binorm_dl, sf.binorm_dl_jit):
        ctx.close(f(h, k, r), D, "bivariate density", rtol=1e-9, atol=1e-300)
    for f in (sf.binorm_pdf_old, sf.binorm_pdf_jit):
        ctx.close(f(mu + s * h, 1.0 + 2 * k, r, mu, 1.0, s, 2.0), D / (2 * s), "bivariate density with moments", rtol=1e-8, atol=1e-300)
    e = 1e-5
    pdf = lambda v: N.pdf(h) * N.pdf((k - v * h) / np.sqrt(1 - v * v)) / np.sqrt(1 - v * v)
    ctx.close(sf.dbinorm_pdf(h, k, r), (pdf(r + e) - pdf(r - e)) / (2 * e), "slope of the density in r", rtol=1e-5, atol=1e-8)
    ctx.close(sf.dbinorm_du(h, k, r), N.pdf(h) * N.cdf((k - r * h) / np.sqrt(1 - r * r)), "slope of the cdf", rtol=1e-8, atol=1e-14)
    H, K = np.array([[h, k], [0.3, -1.0]]), np.array([[k, h], [1.0, 0.2]])
    ctx.close(sf.binorm_cdf(H, K, r), np.vectorize(lambda a, b: sf.binorm_cdf(float(a), float(b), r))(H, K), "elementwise", rtol=1e-12)
    ctx.close(sf.binorm_pdf(H, K, np.array([r])), np.vectorize(lambda a, b: sf.binorm_pdf(float(a), float(b), r))(H, K), "elementwise", rtol=1e-12)
    rng = rng_of(case)
    X = rng.integers(1, 9, (rng.integers(2, 5), rng.integers(2, 5)))
    a, b = sf.polychor_thresh(X)
    n = X.sum()
    ctx.close(a[1:-1], N.ppf(np.cumsum(X.sum(0))[:-1] / n), "thresholds of the columns", atol=1e-9)
    ctx.close(b[1:-1], N.ppf(np.cumsum(X.sum(1))[:-1] / n), "thresholds of the rows", atol=1e-9)
    w = np.sum(X * np.log(bvn_cells(b[1:-1], a[1:-1], r)))
    ctx.close(sf.polychor_loglike(X, a, b, r), w, "log-likelihood of a table", rtol=1e-6)
    ctx.close(sf.polychor_ll(np.r_[r, a, b], X, len(a)), -w, "its negative, joint", rtol=1e-6)
    ctx.close(sf.polychor_partial_ll(r, X, len(a), np.r_[a, b]), -w, "its negative, in r", rtol=1e-6)


@P.facet("sim", dicts(seed=seeds(), p=st.sampled_from([3, 2, 5]), lo=st.sampled_from([2, 3]), hi=st.sampled_from([3, 5]), bins=st.sampled_from([2, 4, "array"]), ybins=st.sampled_from([3, False, "array"])), quick=60, thorough=1500,
         rule="four or more variables or cut points given as an array")
def sim(case, ctx):
    rng = rng_of(case)
    p = case["p"]
    ctx.nontrivial(p > 3 or "array" in (case["bins"], case["ybins"]))
    for mod in (sim_lvcorr, polychoric2):
        q, taus = mod.random_thresholds(p, min_cat=case["lo"], max_cat=case["hi"], rng=np.random.default_rng(case["seed"]))
        for given in (4, np.full(p, 4), [4] * p):
            ctx.equal([len(v) for v in mod.random_thresholds(p, given, rng=np.random.default_rng(1))[0].values()], [5] * p, "four categories each")
        q2, _ = mod.random_thresholds(p, min_cat=case["lo"], max_cat=case["hi"], rng=np.random.default_rng(case["seed"]))
        for i in range(p):
            ctx.check(case["lo"] <= len(q[i]) - 1 <= case["hi"], f"{len(q[i]) - 1} categories outside {case['lo']}..{case['hi']}")
            ctx.check(q[i][0] == 0 and q[i][-1] == 1 and np.all(np.diff(q[i]) > 0), "quantiles from 0 to 1")
            ctx.close(taus[i], sp.stats.norm.ppf(q[i]), "thresholds", atol=1e-8)
            ctx.equal(q2[i], q[i], "reproducible")
        R = num.corr(rng, p)
        Z, Y = mod.PolycoricSim(R, taus, rng=np.random.default_rng(5)).simulate_data(size=4000)
        ctx.close(np.corrcoef(Z, rowvar=False), R, "latent correlations", atol=0.1)
        for i in range(p):
            ctx.equal(Y[:, i], np.array([np.sum(taus[i] <= z) for z in Z[:, i]], float), "categories of the latent values")
    c = rng.uniform(-0.8, 0.8)
    R = np.array([[1, c], [c, 1]])
    xb = np.array([0.2, 0.5, 0.9]) if case["bins"] == "array" else case["bins"]
    yb = np.array([0.3, 0.6]) if case["ybins"] == "array" else case["ybins"]
    x, y = sim_lvcorr.LVCorrSim(R, xb, yb, rng=np.random.default_rng(3)).simulate(3000)
    x2, y2 = sim_lvcorr.LVCorrSim(R, xb, yb, rng=np.random.default_rng(3)).simulate(3000)
    ctx.equal(x2, x, "reproducible")
    ctx.equal(y2, y, "reproducible")
    for v, b in ((x, xb), (y, yb)):
        if b is False:
            ctx.check(len(np.unique(v)) == 3000, "a continuous second variable")
            continue
        f = np.unique(v, return_counts=True)[1] / 3000
        w = np.diff(np.r_[0, b, 1]) if isinstance(b, np.ndarray) else np.full(len(f), 1 / len(f))
        ctx.close(f, w, "shares of the categories", atol=2e-3)
    m = lvcorr._Polychor(x, y) if yb is not False else lvcorr.Polyserial(x=y, y=x)
    m.fit()
    ctx.close(m.rho_hat, c, "the simulated correlation is recovered", atol=0.15)
    # reordering a covariance of correlations
    pairs_d = [tuple(int(v) for v in t) for t in polychoric2.indexing_utils.generate_indices((p,) * 2, first_indices_change_fastest=False, ascending=False, strict=True)]
    pairs_a = [tuple(int(v) for v in t) for t in polychoric2.indexing_utils.generate_indices((p,) * 2, first_indices_change_fastest=False, ascending=True, strict=True)]
    S = num.spd(rng, p * p)
    key = lambda t: min(t) * p + max(t)
    A = np.array([[S[key(s), key(t)] for t in pairs_d] for s in pairs_d])
    B = np.array([[S[key(s), key(t)] for t in pairs_a] for s in pairs_a])
    for mod in (polychoric, polychoric2):
        ctx.close(mod.convert_acm(A, p), B, "reordered covariance", rtol=1e-12)
        tt = {0: np.array([1.0, 2]), 1: np.array([3.0]), 2: np.array([4.0, 5, 6])}
        ctx.equal(mod.threshold_dict_to_array(tt), np.array([[1, 2, 0], [3, 0, 0], [4, 5, 6.0]]), "thresholds as an array")
