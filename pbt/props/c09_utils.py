"""C09: data-handling, probability and reporting helpers equal their elementary definitions."""
import itertools
from fractions import Fraction
import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats
import scipy.signal
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts
from .. import num

P = Property("C09", "Data, probability and reporting helpers equal their elementary definitions")
P.assumptions = ["population (1/n) moments unless documented otherwise", "bivariate normal: |r| <= 0.95"]


def DU():
    from pystatsm.utilities import data_utils
    return data_utils


def FU():
    from pystatsm.utilities import func_utils
    return func_utils


@P.facet("moments", dicts(n=st.integers(3, 30), p=st.integers(1, 5), q=st.integers(1, 4), shift=st.floats(-1e3, 1e3), seed=seeds()), quick=250, rule="p >= 2")
def moments(case, ctx):
    u, rng = DU(), rng_of(case)
    n, p, q = case["n"], case["p"], case["q"]
    ctx.nontrivial(p >= 2)
    X = rng.standard_normal((n, p)) * rng.uniform(0.2, 4, p) + case["shift"]
    Y = rng.standard_normal((n, q)) + X[:, :1]
    X0, Y0 = X.copy(), Y.copy()
    K = dict(rtol=1e-7, atol=1e-7)
    S = np.cov(X, rowvar=False, ddof=0).reshape(p, p)
    C = np.cov(np.c_[X, Y], rowvar=False, ddof=0)
    sx, sy = np.sqrt(np.diag(C))[:p], np.sqrt(np.diag(C))[p:]
    ctx.close(u.cov(X), S, "cov", **K)
    ctx.close(u.cov_nb(X), S, "cov_nb", **K)
    ctx.close(u.cov(X, Y), C[:p, p:], "cov(X, Y)", **K)
    Rr = S / np.outer(sx, sx)
    ctx.close(u.corr(X), Rr, "corr", **K)
    ctx.close(u.corr_nb(X), Rr, "corr_nb", **K)
    ctx.close(u.corr(X, Y), C[:p, p:] / np.outer(sx, sy), "corr(X, Y)", **K)
    ctx.close(u.center(X), X - X.mean(0), "center", **K)
    ctx.close(u.standardize(X).std(0), np.ones(p), "standardize gives unit standard deviation", **K)
    Z = (X - X.mean(0)) / sx
    ctx.close(u.csd(X), Z, "csd", **K)
    z, m, s = u._csd(X, return_stats=True)
    ctx.close(z, Z, "_csd", **K)
    ctx.close(m, X.mean(0), "_csd mean", **K)
    ctx.close(s, sx, "_csd sd", **K)
    ctx.close(u._csd(X), Z, "_csd", **K)
    m, v = u.welford_cov(X)
    ctx.close(m, X.mean(0), "welford_cov mean", **K)
    ctx.close(v, S, "welford_cov", **K)
    ctx.close(u.welford_cov(X, unbiased=True)[1], S * n / (n - 1), "welford_cov unbiased", **K)
    ctx.close(u.welford_cov(X, Y)[1], C[:p, p:], "welford_cov(X, Y)", **K)
    ctx.equal(X, X0, "input untouched")
    ctx.equal(Y, Y0, "input untouched")


@P.facet("welford_variance", dicts(shape=st.lists(st.integers(1, 5), min_size=1, max_size=3), axis=st.integers(0, 2), unbiased=st.booleans(), seed=seeds()), quick=200,
         rule="3-d input", cost=3)
def welford(case, ctx):
    u, rng = DU(), rng_of(case)
    shape = list(case["shape"])
    ax = case["axis"] % len(shape)
    shape[ax] += 2
    A = rng.standard_normal(tuple(shape)) * 3 + rng.standard_normal()
    ctx.nontrivial(len(shape) == 3)
    m, v = u.welford_variance(A, axis=ax, unbiased=case["unbiased"])
    ctx.close(m, A.mean(axis=ax), "welford_variance mean")
    ctx.close(v, A.var(axis=ax, ddof=int(case["unbiased"])), "welford_variance variance")
    if ax == 0:
        m2, v2 = u.welford_variance(A, unbiased=case["unbiased"])
        ctx.equal(v2, v, "default axis is the first")


@P.facet("scalings", dicts(n=st.integers(1, 6), p=st.integers(1, 5), seed=seeds()), quick=250, rule="n >= 2")
def scalings(case, ctx):
    u, rng = DU(), rng_of(case)
    n, p = case["n"], case["p"]
    ctx.nontrivial(n >= 2)
    A = num.spd(rng, n)
    s = rng.uniform(0.2, 3, n)
    W = rng.standard_normal((n, p))
    ctx.close(u.scale_diag(A, s), np.diag(s) @ A @ np.diag(s), "scale_diag")
    ctx.close(u.scale_dg(A, s), np.diag(s) @ A @ np.diag(s), "scale_dg")
    B = A.copy()
    o = u.scale_dg(B, s, inplace=True)
    ctx.close(B, np.diag(s) @ A @ np.diag(s), "scale_dg inplace")
    out = np.zeros_like(A)
    u.scale_dg(A, s, out=out)
    ctx.close(out, np.diag(s) @ A @ np.diag(s), "scale_dg(out)")
    d = 1 / np.sqrt(np.diag(A))
    ctx.close(u.norm_diag(A), A * np.outer(d, d), "norm_diag")
    N = u.normalize_xtrx(W, A)
    ctx.close(np.diag(N.T @ A @ N), np.ones(p), "normalize_xtrx", rtol=0, atol=1e-9)
    ctx.close(N / N[[0]], W / W[[0]], "normalize_xtrx only rescales columns", rtol=1e-7)
    ctx.close(u.ssq(W), (W ** 2).sum(0), "ssq axis 0")
    ctx.close(u.ssq(W, axis=1), (W ** 2).sum(1), "ssq axis 1")
    ctx.close(u.ssq(W[:, 0]), [(W[:, 0] ** 2).sum()], "ssq of a vector")
    F = u.flip_signs(W)
    for j in range(p):
        i = np.argmax(np.abs(W[:, j]))
        ctx.check(F[i, j] > 0 and np.array_equal(np.abs(F[:, j]), np.abs(W[:, j])) and abs(abs(F[:, j] @ W[:, j]) - W[:, j] @ W[:, j]) < 1e-9,
                  "flip_signs makes the largest entry of each column positive")


@P.facet("coding_and_tables", dicts(n=st.integers(2, 30), k=st.integers(1, 4), d=st.integers(1, 4), kind=st.sampled_from(["int", "float", "gap"]), seed=seeds()), quick=250,
         rule="k >= 2 and d >= 2")
def coding(case, ctx):
    u, rng = DU(), rng_of(case)
    n, k, dd = case["n"], case["k"], case["d"]
    ctx.nontrivial(k >= 2 and dd >= 2)
    x = rng.integers(0, k, n)
    x = {"int": x, "float": x / 4.0 - 1, "gap": x * 7 - 3}[case["kind"]]
    cats = np.unique(x)
    want = (x[:, None] == cats[None]).astype(float)
    ctx.equal(u.dummy(x), want, "dummy")
    ctx.equal(u.dummy(x, fullrank=False), want[:, :-1], "dummy(fullrank=False) drops the last category")
    ctx.equal(u.dummy(pd.Series(x)), want, "dummy of a Series")
    ctx.equal(u.dummy_encode(x), want, "dummy_encode")
    more = np.r_[cats, cats.max() + 1]
    ctx.equal(u.dummy_encode(x, categories=more), (x[:, None] == more[None]).astype(float), "dummy_encode(categories)")
    ctx.equal(u.dummy(x, categories=more), (x[:, None] == more[None]).astype(float), "dummy(categories)")
    s = x.astype(str)
    ctx.equal(u.dummy_encode(s), (s[:, None] == np.unique(s)[None]).astype(float), "dummy_encode of strings")
    arr = rng.integers(0, [2 + i for i in range(dd)], size=(n, dd)) * 2 + 1
    counts, levels = u.cross_tabulate(arr)
    for i in range(dd):
        ctx.equal(levels[i], np.unique(arr[:, i]), "cross_tabulate levels")
    for ii in np.ndindex(*counts.shape):
        c = np.all([arr[:, j] == levels[j][ii[j]] for j in range(dd)], axis=0).sum()
        ctx.check(counts[ii] == c, f"cross_tabulate count at {ii}: {counts[ii]} != {c}")
    E = u.expand_crosstab(counts)
    ctx.check(E.shape == (n, dd), "expand_crosstab shape")
    idx = np.array([[np.searchsorted(levels[j], r[j]) for j in range(dd)] for r in arr])
    ctx.equal(sorted(map(tuple, E.astype(int).tolist())), sorted(map(tuple, idx.tolist())), "expand_crosstab gives back the observations")
    if dd >= 2:
        col = int(rng.integers(-1, dd))
        f, rl, cl, _ = u.flat_cross_tabulate(arr, column_dim=col)
        col = col % dd
        others = [j for j in range(dd) if j != col]
        ctx.equal(cl, np.unique(arr[:, col]), "flat_cross_tabulate column labels")
        for r, lab in enumerate(rl):
            for c, v in enumerate(cl):
                w = np.all([arr[:, j] == lab[t] for t, j in enumerate(others)] + [arr[:, col] == v], axis=0).sum()
                ctx.check(f[r, c] == w, f"flat_cross_tabulate row {lab} column {v}: {f[r, c]} != {w}")


@P.facet("sign_change", dicts(signs=st.lists(st.sampled_from([-1, 1]), min_size=2, max_size=14), m=st.integers(1, 3), k=st.integers(1, 3), off=st.integers(-2, 2), seed=seeds()),
         quick=300, rule="at least k changes and k >= 2")
def sign_change(case, ctx):
    u, rng = DU(), rng_of(case)
    s = np.array(case["signs"])
    off, k = float(case["off"]), case["k"]
    a = s * rng.uniform(0.1, 3, len(s)) + off
    ch = [i for i in range(len(s) - 1) if s[i] != s[i + 1]]
    if len(ch) < k:
        ctx.skip("fewer changes than asked for")
    ctx.nontrivial(k >= 2)
    ctx.check(int(u.sign_change(a, nth_change=k, offset=off)) == ch[k - 1], lambda: f"sign_change {u.sign_change(a, nth_change=k, offset=off)} want {ch[k-1]}")
    m = case["m"]
    A = np.column_stack([a * (i + 1) for i in range(m)])
    ctx.equal(u.sign_change(A, nth_change=k, offset=off * (1.0 + np.arange(m))), [ch[k - 1]] * m, "sign_change 2-d")


@P.facet("cross_correlation", dicts(n=st.integers(2, 25), kind=st.sampled_from(["unbiased", "biased", "coef"]), seed=seeds()), quick=150, rule="n >= 5")
def xc(case, ctx):
    from pystatsm.utilities import xcorr as u
    rng, n = rng_of(case), case["n"]
    ctx.nontrivial(n >= 5)
    x, y = rng.standard_normal(n), rng.standard_normal(n)
    r = np.array([x[k:] @ y[:n - k] for k in range(n)])
    sym = np.r_[r[1:][::-1], r]
    ctx.close(u.xcorr_brute(x, y), sym, "xcorr_brute")
    ctx.close(u.xcorr_mat(x, y), sym, "xcorr_mat")
    ctx.close(u.xcorr_fft(x, y), np.correlate(x, y, "full"), "xcorr_fft")
    lags, rho = u.xcorr_fftc(x, y, normalization=case["kind"])
    ctx.equal(lags, np.arange(1 - n, n), "lags")
    c = {"unbiased": 1.0 / (n - np.abs(lags)), "biased": 1.0 / n, "coef": 1 / np.sqrt((x @ x) * (y @ y))}[case["kind"]]
    ctx.close(rho, sym * c, "xcorr_fftc")
    ctx.close(u.xcorr_fftc(x, y, normalization=case["kind"], retlags=False), sym * c, "xcorr_fftc without lags")


@P.facet("normal_functions", dicts(n=st.integers(1, 6), r=st.floats(-0.95, 0.95), scale=st.floats(0.3, 4), seed=seeds()), quick=300, rule="|r| > 0.1")
def normals(case, ctx):
    u, rng, n, r = FU(), rng_of(case), case["n"], case["r"]
    ctx.nontrivial(abs(r) > 0.1)
    x = rng.standard_normal(n) * case["scale"]
    y = rng.standard_normal(n) * case["scale"]
    m, s = rng.standard_normal(), rng.uniform(0.3, 3)
    N = sp.stats.norm(m, s)
    ctx.close(u.norm_cdf(x, m, s), N.cdf(x), "norm_cdf", rtol=1e-10)
    ctx.close(u.norm_pdf(x, m, s), N.pdf(x), "norm_pdf", rtol=1e-10)
    ctx.close([u.norm_cdf_jit(t, m, s) for t in x], N.cdf(x), "norm_cdf_jit", rtol=0, atol=1e-9)
    Q = sp.stats.multivariate_normal([0, 0], [[1, r], [r, 1]])
    cdf = np.array([Q.cdf([a, b]) for a, b in zip(x, y)])
    pdf = Q.pdf(np.c_[x, y]).reshape(n)
    ctx.close(u.binorm_cdf(x, y, r), cdf, "binorm_cdf", rtol=0, atol=1e-6)
    ctx.close(u.binorm_pdf(x, y, r), pdf, "binorm_pdf", rtol=1e-9)
    ctx.close(u.binorm_cdf(x, y, np.array([r])), u.binorm_cdf(x, y, r), "binorm_cdf with an array correlation")
    ctx.close(u.binorm_cdf(float(x[0]), float(y[0]), r), cdf[0], "binorm_cdf scalar", rtol=0, atol=1e-6)
    ctx.close([u.binorm_cdf_jit(a, b, r) for a, b in zip(x, y)], u.binorm_cdf(x, y, r), "binorm_cdf_jit")
    lo = (np.minimum(x, y) - 0.3, np.minimum(x, y) - 0.1)
    up = (np.maximum(x, y) + 0.2, np.maximum(x, y))
    F = lambda a, b: u.binorm_cdf(a, b, r)
    box = F(up[0], up[1]) - F(up[0], lo[1]) - F(lo[0], up[1]) + F(lo[0], lo[1])
    ctx.close(u.binorm_cdf_region(lo, up, r), box, "binorm_cdf_region", rtol=0, atol=1e-10)
    ctx.check((u.binorm_cdf_region(lo, up, r) > -1e-7).all(), "rectangle probabilities are nonnegative")
    # derivatives with respect to r and the arguments
    # d Phi2 / dr = phi2
    dr = num.deriv(lambda t: u.binorm_cdf(x, y, float(t)), 0.0 + r, h=1e-3 * (1 - abs(r)) * 10)
    ctx.close(u.binorm_pdf(x, y, r), dr, "binorm_pdf = d binorm_cdf / dr", rtol=1e-5, atol=1e-6)
    ctx.close(u.binorm_pdf_region(lo, up, r), num.deriv(lambda t: u.binorm_cdf_region(lo, up, float(t)), 0.0 + r, h=1e-3 * (1 - abs(r)) * 10),
              "binorm_pdf_region", rtol=1e-5, atol=1e-6)
    h = 1e-3 * (1 - abs(r)) * 5
    ctx.close(u.dbinorm_pdf(x, y, r), num.deriv(lambda t: u.binorm_pdf(x, y, float(t)), 0.0 + r, h=h), "dbinorm_pdf", rtol=1e-5, atol=1e-7)
    ctx.close(u.dbinorm_pdf_region(lo, up, r), num.deriv(lambda t: u.binorm_pdf_region(lo, up, float(t)), 0.0 + r, h=h), "dbinorm_pdf_region", rtol=1e-5, atol=1e-7)
    hx = 5e-3
    ctx.close(u.dbinorm_cdf_du(x, y, r), num.deriv(lambda t: u.binorm_cdf(t, y, r), x, h=hx), "dbinorm_cdf_du", rtol=1e-5, atol=1e-6)
    ctx.close(u.d2binorm_cdf_du2(x, y, r), num.deriv(lambda t: u.dbinorm_cdf_du(t, y, r), x, h=hx), "d2binorm_cdf_du2", rtol=1e-5, atol=1e-6)
    ctx.close(u.d2binorm_cdf_duv(x, y, r), num.deriv(lambda t: u.dbinorm_cdf_du(x, t, r), y, h=hx), "d2binorm_cdf_duv", rtol=1e-5, atol=1e-6)
    ctx.close(u.d2binorm_cdf_dur(x, y, r), num.deriv(lambda t: u.dbinorm_cdf_du(x, y, t), 0.0 + r, h=h), "d2binorm_cdf_dur", rtol=1e-5, atol=1e-6)


@P.facet("scalar_functions", dicts(n=st.integers(1, 40), k=st.integers(0, 40), mu=st.floats(0.01, 50), level=st.floats(0.5, 0.999), seed=seeds()), quick=300, rule="n >= 3")
def scalars(case, ctx):
    u, rng, n = FU(), rng_of(case), case["n"]
    ctx.nontrivial(n >= 3)
    k = min(case["k"], n)
    mu = case["mu"]
    import math
    ctx.close(u.logbinom(n, k), math.log(math.comb(n, k)), "logbinom", rtol=1e-9, atol=1e-9)
    ctx.close(u.poisson_logp(k, mu), sp.stats.poisson(mu).logpmf(k), "poisson_logp", rtol=1e-9, atol=1e-9)
    ctx.close(u.poisson_logp(k, mu, logp=False), sp.stats.poisson(mu).pmf(k), "poisson_logp(logp=False)", rtol=1e-9)
    x = rng.standard_normal(8) * 3
    t = rng.uniform(0, 2)
    ctx.close(u.soft_threshold(x, t), np.where(x > t, x - t, np.where(x < -t, x + t, 0)), "soft_threshold")
    ctx.close(u.expit(x), sp.special.expit(x), "expit")
    q = u.symmetric_conf_int(case["level"])
    ctx.close(q, (1 + case["level"]) / 2, "symmetric_conf_int")
    ctx.close(u.symmetric_conf_int(100 * case["level"]), q, "symmetric_conf_int in percent")
    h = sum(Fraction(1, i) for i in range(1, n + 1))
    a, b = u.harmonic_fraction(n)
    ctx.check(Fraction(a, b) == h, "harmonic_fraction")
    ctx.close(u.harmonic_exact(n), float(h), "harmonic_exact")
    ctx.close(u.harmonic_asymptotic(n), float(h), "harmonic_asymptotic", rtol=0, atol=2e-2 / n ** 6 + 1e-12 + 1e-4 / n ** 4)
    ctx.check(u.triangular_number(n) == n * (n + 1) // 2 and u.triangular_number(n, -1) == n * (n - 1) // 2, "triangular_number")
    ctx.equal(u.triangular_number(np.arange(n)), np.arange(n) * (np.arange(n) + 1) // 2, "triangular_number of an array")
    d = u.handle_default_kws(dict(a=1), dict(a=0, b=2))
    ctx.check(d == dict(a=1, b=2) and u.handle_default_kws(None, dict(b=2)) == dict(b=2), "handle_default_kws")


@P.facet("partitions_and_allocation", dicts(m=st.integers(1, 5), n=st.integers(5, 200), k=st.integers(1, 5), whole=st.booleans(), seed=seeds()), quick=300, rule="k >= 2")
def alloc(case, ctx):
    u, rng, k, n = FU(), rng_of(case), case["k"], case["n"]
    ctx.nontrivial(k >= 2)
    parts = u.partition_set(case["m"])
    m = case["m"]
    rgs = [p for p in itertools.product(range(m), repeat=m) if p[0] == 0 and all(p[i] <= max(p[:i]) + 1 for i in range(1, m))]
    lab = sorted(tuple(np.unique(np.asarray(p), return_inverse=True)[1].tolist()) for p in parts)
    canon = sorted(tuple([list(dict.fromkeys(p)).index(v) for v in p]) for p in (np.asarray(q).tolist() for q in parts))
    ctx.check(len(parts) == len(rgs) and canon == sorted(rgs), f"partition_set({m}) lists each set partition once")
    a = rng.uniform(0, 9, k)
    if case["whole"]:
        a = np.floor(a)
    else:
        a[-1] += np.ceil(a.sum()) - a.sum()
    r = u.sum_preserving_round(a.copy())
    ctx.check(np.all(r == np.round(r)) and np.all(np.abs(r - a) <= 1 + 1e-12), f"sum_preserving_round rounds each entry: {a} -> {r}")
    ctx.close(r.sum(), a.sum(), "sum_preserving_round keeps the sum", rtol=0, atol=1e-9)
    sizes = rng.integers(0, 5, k)
    ctx.equal(u.sizes_to_inds(sizes), np.r_[0, np.cumsum(sizes)], "sizes_to_inds")
    pos = 0
    for s, (lo, hi) in zip(sizes, u.sizes_to_slice_vals(sizes)):
        ctx.check(lo == pos and hi == pos + s, "sizes_to_slice_vals")
        pos += s
    ia = u.sizes_to_ind_arrs(sizes, keys=[f"k{i}" for i in range(k)])
    ctx.equal(np.concatenate([ia[f"k{i}"] for i in range(k)]), np.arange(sizes.sum()), "sizes_to_ind_arrs partition the range")
    ctx.equal([len(ia[f"k{i}"]) for i in range(k)], sizes, "sizes_to_ind_arrs sizes")
    w = rng.uniform(0.2, 1, k)
    w = w / w.sum()
    if case["whole"]:
        w = np.ones(k) / k
    if abs(1 - w.sum()) <= 1e-12 and n * w.min() >= 1:
        s, sl = u.allocate_from_proportions(n, w.copy())
        ctx.check(s.sum() == n, f"allocate_from_proportions({n}, {w}) gives {s}")
        ctx.check(np.all(np.abs(s - n * w) <= 1 + 1e-9), "allocation within one of the exact share")
        ctx.check(sl[0][0] == 0 and sl[-1][1] == n, "slices cover the sample")
    ctx.raises(ValueError, lambda: u.allocate_from_proportions(n, w * 0.9), "proportions that do not sum to one")
    x = rng.standard_normal(n)
    c = u.quantile_cut(x, k + 1)
    c2, t = u.quantile_cut(x, k + 1, return_quantiles=True)
    ctx.equal(c, c2, "quantile_cut")
    ctx.equal(c, (x[:, None] >= t[None]).sum(1), "quantile_cut categories")
    ctx.close(t, np.quantile(x, np.arange(1, k + 1) / (k + 1)), "quantile_cut cut points")
    cnt = np.bincount(c, minlength=k + 1)
    ctx.check(cnt.max() - cnt.min() <= 2, f"quantile_cut bins are balanced: {cnt}")


@P.facet("parameter_table", dicts(p=st.integers(1, 5), alpha=st.floats(0.001, 0.4), df=st.one_of(st.none(), st.integers(2, 50)), norm=st.booleans(), seed=seeds()), quick=200,
         rule="p >= 2")
def ptable(case, ctx):
    from pystatsm.utilities import output as u
    rng, p, al = rng_of(case), case["p"], case["alpha"]
    ctx.nontrivial(p >= 2)
    b, se = rng.standard_normal(p) * 2, rng.uniform(0.1, 2, p)
    names = [f"v{i}" for i in range(p)]
    D = sp.stats.norm if (case["norm"] or case["df"] is None) else sp.stats.t(case["df"])
    kw = dict(pdist=sp.stats.norm) if case["norm"] else dict(degfree=case["df"])
    T = u.get_param_table(b, se, index=names, alpha=al, **kw)
    ctx.check(list(T.index) == names and list(T.columns)[:4] == ["parameter", "SE", "t", "p"], f"layout {list(T.columns)}")
    ctx.close(T["t"], b / se, "t")
    ctx.close(T["p"], 2 * D.sf(np.abs(b / se)), "p", rtol=1e-8)
    q = D.ppf(1 - al / 2)
    ctx.close(T.iloc[:, 4:].values, np.c_[b - q * se, b + q * se], "confidence limits", rtol=1e-7)
    # duality: the interval excludes zero exactly when p < alpha
    ex = (T.iloc[:, 4].values > 0) | (T.iloc[:, 5].values < 0)
    ctx.equal(ex, T["p"].values < al, "interval / p-value duality")
    # BCa
    B, n = 300, 25
    data = rng.gamma(2.0, size=(n, p))
    est = data.mean(0)
    jack = np.array([np.delete(data, i, 0).mean(0) for i in range(n)])
    boot = np.array([data[rng.integers(0, n, n)].mean(0) for _ in range(B)])
    ci = u.compute_bias_corrected_bootstrap_intervals(est, jack, boot, alpha=al)
    ref = np.zeros((p, 2))
    for j in range(p):
        z0 = sp.stats.norm.ppf((boot[:, j] < est[j]).mean())
        dj = jack[:, j].mean() - jack[:, j]
        a = (dj ** 3).sum() / (6 * (dj ** 2).sum() ** 1.5)
        for i, pr in enumerate((al / 2, 1 - al / 2)):
            z = z0 + sp.stats.norm.ppf(pr)
            ref[j, i] = np.quantile(boot[:, j], sp.stats.norm.cdf(z0 + z / (1 - a * z)))
    ctx.close(ci, ref, "BCa intervals", rtol=1e-7)
