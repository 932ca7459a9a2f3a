"""C12: exponential families (pyglm, pyglm2, pylmm)."""
import importlib
import numpy as np
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C12", "GLM families: densities, scores, curvatures and deviances agree with each other")
P.assumptions = ["prior weights are trial counts for the binomial, precision multipliers for Gaussian, gamma and inverse Gaussian, and likelihood multipliers for Poisson and negative binomial",
                 "pylmm's Gaussian and inverse Gaussian log-likelihoods are on the -2 log scale (that module's convention)"]

FAMS = ["Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial", "Poisson", "Binomial"]
LINKS = dict(Gaussian=["identity", "log", "reciprocal"], InverseGaussian=["power-2", "log", "identity", "reciprocal"], Gamma=["reciprocal", "log", "identity", "power0.5"],
             NegativeBinomial=["log", "negbin", "identity", "power0.5"], Poisson=["log", "identity", "power0.5"], Binomial=["logit", "probit", "cloglog", "logcomp"])
HAS_PHI = ("Gaussian", "InverseGaussian", "Gamma")


def setup(case, ctx, pkg=None):
    pkg = pkg or case["pkg"]
    F, L = importlib.import_module(f"pystatsm.{pkg}.families"), importlib.import_module(f"pystatsm.{pkg}.links")
    name = case["fam"]
    lk = LINKS[name][case["link"] % len(LINKS[name])]
    disp = case["disp"]
    link = {"identity": L.IdentityLink, "log": L.LogLink, "reciprocal": L.ReciprocalLink, "logit": L.LogitLink, "probit": L.ProbitLink, "cloglog": L.CloglogLink,
            "logcomp": L.LogComplementLink}.get(lk)
    link = L.NegativeBinomialLink(disp) if lk == "negbin" else L.PowerLink(float(lk[5:])) if lk.startswith("power") else link()
    rows = case["rows"]
    u, v, m = np.array([r[0] for r in rows]), np.array([r[1] for r in rows]), np.array([r[2] for r in rows])
    if name == "Binomial":
        mu, w = 0.05 + 0.9 * u, m.astype(float)
        y = np.minimum(np.floor(v * (m + 1)), m) / m
    elif name in ("Poisson", "NegativeBinomial"):
        mu, w, y = 0.2 + 6 * u, m.astype(float), np.floor(12 * v * v)
    else:
        mu, w, y = 0.3 + 5 * u, 0.5 + 0.5 * m, 0.2 + 6 * v
        if name == "Gaussian":
            y = y - 2
    if not case["weighted"] and name != "Binomial":
        w = np.ones(len(w))
    phi = case["phi"] if name in HAS_PHI else 1.0
    f = getattr(F, name)(link) if pkg != "pylmm" else getattr(F, name)(link, weights=w)
    ctx.label(f"{pkg}.{name}.{lk}")
    ctx.nontrivial(len(rows) > 1)
    return f, y, mu, w, phi, disp


UNIT = st.floats(0, 1, allow_subnormal=False).map(lambda v: round(v, 4))
ROWS = st.lists(st.tuples(UNIT, UNIT, st.integers(1, 5)), min_size=1, max_size=5)
BASE = dict(pkg=st.sampled_from(["pyglm", "pyglm2"]), fam=st.sampled_from(FAMS), link=st.integers(0, 3), rows=ROWS, weighted=st.booleans(),
            phi=st.sampled_from([0.2, 0.5, 1.0, 1.7, 3.0]), disp=st.sampled_from([0.2, 0.5, 1.0, 1.7, 3.0]))


def logpdf(name, y, mu, w, phi, k):
    from scipy import stats
    if name == "Gaussian":
        return stats.norm(mu, np.sqrt(phi / w)).logpdf(y)
    if name == "InverseGaussian":
        return stats.invgauss(mu * phi / w, scale=w / phi).logpdf(y)
    if name == "Gamma":
        return stats.gamma(w / phi, scale=mu * phi / w).logpdf(y)
    if name == "Poisson":
        return w * stats.poisson(mu).logpmf(y)
    if name == "NegativeBinomial":
        return w * stats.nbinom(1 / k, 1 / (1 + k * mu)).logpmf(y)
    return stats.binom(w, mu).logpmf(np.round(w * y))


def nlp(name, y, mu, w, phi, k):
    """closed-form log densities (fast; checked against scipy.stats in `densities`)"""
    from scipy.special import gammaln, xlogy
    if name == "Gaussian":
        return -0.5 * (w * (y - mu) ** 2 / phi + np.log(2 * np.pi * phi / w))
    if name == "InverseGaussian":
        return -0.5 * (w * (y - mu) ** 2 / (phi * mu ** 2 * y) + np.log(2 * np.pi * phi * y ** 3 / w))
    if name == "Gamma":
        a = w / phi
        return a * np.log(a / mu) + (a - 1) * np.log(y) - a * y / mu - gammaln(a)
    if name == "Poisson":
        return w * (xlogy(y, mu) - mu - gammaln(y + 1))
    if name == "NegativeBinomial":
        r = 1 / k
        return w * (gammaln(y + r) - gammaln(r) - gammaln(y + 1) - r * np.log1p(k * mu) + xlogy(y, k * mu / (1 + k * mu)))
    return gammaln(w + 1) - gammaln(w * y + 1) - gammaln(w - w * y + 1) + xlogy(w * y, mu) + xlogy(w * (1 - y), 1 - mu)


@P.facet("densities", dicts(**BASE), quick=900, rule="two or more observations")
def densities(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    kw = dict(y=y, mu=mu, weights=w, phi=phi, dispersion=k)
    y0, mu0, w0 = y.copy(), mu.copy(), w.copy()
    lp = logpdf(case["fam"], y, mu, w, phi, k)
    ctx.close(nlp(case["fam"], y, mu, w, phi, k), lp, "reference", rtol=1e-9, atol=1e-9)
    ctx.close(f._full_loglike(**kw), -lp, "_full_loglike is minus the log density", rtol=1e-9, atol=1e-9)
    ctx.close(f.full_loglike(**kw), -lp.sum(), "full_loglike sums", rtol=1e-9, atol=1e-8)
    mu2 = mu[::-1].copy()
    d = f._loglike(**kw) - f._loglike(**dict(kw, mu=mu2))
    ctx.close(d, -lp + logpdf(case["fam"], y, mu2, w, phi, k), "_loglike differences", rtol=1e-8, atol=1e-8)
    ctx.close(f.loglike(**kw), np.sum(f._loglike(**kw)), "loglike sums", rtol=1e-12)
    if case["fam"] in HAS_PHI:
        d = f._loglike(**kw) - f._loglike(**dict(kw, phi=2.2))
        ctx.close(d, -lp + logpdf(case["fam"], y, mu, w, 2.2, k), "_loglike differences in phi", rtol=1e-8, atol=1e-8)
    for a, b in ((y, y0), (mu, mu0), (w, w0)):
        ctx.equal(a, b, "arguments are not modified")


@P.facet("deviance_and_residuals", dicts(**BASE), quick=900, rule="two or more observations")
def deviance(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    name = case["fam"]
    kw = dict(y=y, mu=mu, weights=w, phi=phi, dispersion=k)
    ysat = y if name not in ("Poisson", "NegativeBinomial") else np.where(y == 0, 1e-300, y)
    if name == "Binomial":
        # saturated term computed per observation
        want = 2 * (nlp(name, y, np.clip(y, 1e-300, 1), w, phi, k) - nlp(name, y, mu, w, phi, k))
    else:
        want = 2 * phi * (nlp(name, y, ysat, w, phi, k) - nlp(name, y, mu, w, phi, k))
    d = f.deviance(**kw)
    ctx.close(d, want, "deviance = 2 phi (ll saturated - ll)", rtol=1e-7, atol=1e-7)
    ctx.check(np.all(np.asarray(d) >= -1e-9), "deviance is non-negative")
    V = {"Gaussian": 1 + 0 * mu, "InverseGaussian": mu ** 3, "Gamma": mu ** 2, "Poisson": mu, "NegativeBinomial": mu + k * mu ** 2, "Binomial": mu * (1 - mu)}[name]
    ctx.close(f.var_func(mu=mu, dispersion=k), V, "var_func", rtol=1e-12)
    ctx.close(f.pearson_resid(**kw), (y - mu) * np.sqrt(w / V), "pearson_resid", rtol=1e-10, atol=1e-12)
    ctx.close(f.pearson_chi2(**kw), np.sum(w * (y - mu) ** 2 / V), "pearson_chi2", rtol=1e-10, atol=1e-12)
    ok = np.asarray(d) > 1e-12
    ctx.close(np.where(ok, f.deviance_resid(**kw), 0), np.where(ok, np.sign(y - mu) * np.sqrt(np.abs(want)), 0), "deviance_resid", rtol=1e-6, atol=1e-5)
    ctx.close(np.where(ok, f.signed_resid(**kw), 0), np.where(ok, np.sign(y - mu) * np.sqrt(np.abs(want)), 0), "signed_resid", rtol=1e-6, atol=1e-5)
    vkw = dict(mu=mu, phi=phi, dispersion=k)
    ctx.close(f.variance(**vkw, **({"weights": w} if case["pkg"] == "pyglm2" else {})), phi * V / (w if case["pkg"] == "pyglm2" else 1), "variance", rtol=1e-12)


@P.facet("score_and_curvature", dicts(**BASE), quick=900, rule="two or more observations")
def score(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    eta = f.link(mu)
    ctx.close(f.inv_link(np.array(eta, dtype=float)), mu, "family link round trip", rtol=1e-8)
    kw = dict(y=y, mu=mu, weights=w, phi=phi, dispersion=k)
    ll = lambda e: -nlp(case["fam"], y, f.inv_link(np.array(e)), w, phi, k)
    h = 0.02 * np.abs(eta) if case["fam"] != "Binomial" or LINKS["Binomial"][case["link"] % 4] == "logcomp" else 0.05
    h = np.maximum(h, 1e-4) if LINKS[case["fam"]][case["link"] % len(LINKS[case["fam"]])] == "log" else h
    d1 = num.deriv(ll, eta, h, 4)
    d2 = num.deriv(lambda e: num.deriv(ll, e, h, 4), eta, h, 4)
    s = np.abs(d1) + 1 / np.maximum(np.abs(h), 1e-3)
    g, H = f.gw(**kw), f.hw(**kw)
    ctx.check(np.all(np.abs(g - d1) <= 1e-5 * s), lambda: f"gw {g} but d(-ll)/d eta = {d1}")
    ctx.check(np.all(np.abs(H - d2) <= 1e-4 * (np.abs(d2) + s / np.maximum(np.abs(h), 1e-3) * 1e-2 + s)), lambda: f"hw {H} but d2(-ll)/d eta2 = {d2}")
    g2, H2 = f.get_ghw(**kw)
    ctx.close(g2, g, "get_ghw gradient part", rtol=1e-10, atol=1e-12)
    ctx.close(H2, H, "get_ghw curvature part", rtol=1e-10, atol=1e-12)
    # the curvature is affine in y, so its expectation is its value at y = mu
    ctx.close(f.get_ehw(**kw), f.hw(**dict(kw, y=mu)), "get_ehw is the expected curvature", rtol=1e-9, atol=1e-12)


@P.facet("weight_derivatives", dicts(**BASE), quick=600, rule="two or more observations")
def weight_derivs(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    V = lambda m: np.asarray(f.var_func(mu=m, dispersion=k), dtype=float)
    dist = np.minimum(mu, 1 - mu) if case["fam"] == "Binomial" else mu
    h = 0.05 * dist
    # variance function derivatives
    prev = V
    for nm in ("dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4"):
        want = num.deriv(prev, mu, h, 4)
        cur = lambda m, nm=nm: np.broadcast_to(np.asarray(getattr(f, nm)(mu=m, dispersion=k), dtype=float), m.shape)
        ctx.close(cur(mu), want, nm, rtol=1e-8, atol=1e-8)
        prev = cur
    if case["pkg"] == "pyglm2":
        for o in range(5):
            r = f.var_derivs(mu, k, o)
            r = [r] if o == 0 else list(r)
            ctx.check(len(r) == o + 1, "var_derivs returns order + 1 arrays")
            for j, nm in enumerate(["var_func", "dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4"][:o + 1]):
                ctx.close(np.broadcast_to(r[j], mu.shape), np.broadcast_to(getattr(f, nm)(mu=mu, dispersion=k), mu.shape), f"var_derivs[{j}] = {nm}", rtol=1e-12)
    g1 = lambda m: np.asarray(f.dlink(m), dtype=float)
    a = lambda m: 1 + (y - m) * (np.asarray(f.dvar_dmu(m, dispersion=k)) / V(m) + np.asarray(f.d2link(m)) / g1(m))
    kw = dict(y=y, mu=mu, dispersion=k)
    ctx.close(f.get_a(**kw), a(mu), "get_a", rtol=1e-9, atol=1e-9)
    ww = lambda m: a(m) / (g1(m) ** 2 * V(m))
    ctx.close(f.get_w(**kw), ww(mu), "get_w", rtol=1e-9, atol=1e-9)
    ok = np.abs(a(mu)) > 0.05
    if ok.all():
        ctx.close(f.get_g(**kw), g1(mu) / a(mu), "get_g", rtol=1e-8, atol=1e-9)
    else:
        ctx.label("a near 0")
    d1, d2 = num.deriv(a, mu, h, 4), num.deriv(lambda m: num.deriv(a, m, h, 4), mu, h, 4)
    A = np.abs(a(mu)) + 1
    got = f.da_dmu(**kw)
    ctx.check(np.all(np.abs(got - d1) <= 1e-5 * (np.abs(d1) + A / dist)), lambda: f"da_dmu {got} want {d1}")
    got = f.d2a_dmu2(**kw)
    ctx.check(np.all(np.abs(got - d2) <= 1e-4 * (np.abs(d2) + A / dist ** 2)), lambda: f"d2a_dmu2 {got} want {d2}")
    de = lambda F: (lambda m: num.deriv(F, m, 0.03 * dist if np.shape(m) == mu.shape else h, 4) / g1(m))
    w1 = num.deriv(ww, mu, h, 4) / g1(mu)
    w2 = num.deriv(lambda m: num.deriv(ww, m, h, 4) / g1(m), mu, h, 4) / g1(mu)
    if ok.all():
        W = (np.abs(ww(mu)) + 1 / (g1(mu) ** 2 * V(mu))) / np.abs(g1(mu))
        got = f.dw_deta(**kw)
        ctx.check(np.all(np.abs(got - w1) <= 1e-5 * (np.abs(w1) + W / dist)), lambda: f"dw_deta {got} want {w1}")
        got = f.d2w_deta2(**kw)
        ctx.check(np.all(np.abs(got - w2) <= 1e-4 * (np.abs(w2) + W / np.abs(g1(mu)) / dist ** 2)), lambda: f"d2w_deta2 {got} want {w2}")


@P.facet("scale_derivatives", dicts(**BASE), quick=600, rule="two or more observations")
def scale_derivs(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    name = case["fam"]
    if name in ("Poisson", "Binomial"):
        ctx.skip("no scale parameter")
    if name == "NegativeBinomial":
        ll, t = (lambda t: -nlp(name, y, mu, w, 1.0, np.exp(t))), np.log(k)
    else:
        ll, t = (lambda t: -nlp(name, y, mu, w, np.exp(t), k)), np.log(phi)
    h = 0.05
    D = lambda F: (lambda t: (8 * (F(t + h / 2) - F(t - h / 2)) / h - (F(t + h) - F(t - h)) / h) / 6 * 1.0)
    d1 = num.jac(lambda z: ll(z[0]), np.array([t]), h, 4)[:, 0]
    d2 = num.jac(lambda z: num.jac(lambda q: ll(q[0]), z, h, 4)[:, 0], np.array([t]), h, 4)[:, 0]
    g, H = f.dtau(t, y, mu, weights=w, reduce=False), f.d2tau(t, y, mu, weights=w, reduce=False)
    ctx.close(g, d1, "dtau", rtol=1e-6, atol=1e-7)
    ctx.close(H, d2, "d2tau", rtol=1e-5, atol=1e-6)
    ctx.close(f.dtau(t, y, mu, weights=w), d1.sum(), "dtau summed", rtol=1e-6, atol=1e-6)
    ctx.close(f.d2tau(t, y, mu, weights=w), d2.sum(), "d2tau summed", rtol=1e-5, atol=1e-5)
    if name != "NegativeBinomial":
        yy = np.abs(y) + 0.1
        ls = lambda p: -np.sum(nlp(name, yy, yy, np.ones(len(yy)), p, k))
        ctx.close(f.llscale(phi, yy), ls(phi), "llscale is the saturated negative log-likelihood", rtol=1e-8, atol=1e-8)
        ph = np.array([phi])
        d = lambda z: num.grad(lambda q: ls(q[0]), z, 0.05 * phi, 4)
        ctx.close(f.dllscale(phi, yy), d(ph)[0], "dllscale", rtol=1e-6, atol=1e-6)
        ctx.close(f.d2llscale(phi, yy), num.jac(d, ph, 0.05 * phi, 4)[0, 0], "d2llscale", rtol=1e-5, atol=1e-5)


@P.facet("canonical", dicts(**dict(BASE, pkg=st.sampled_from(["pyglm", "pylmm"]))), quick=600, rule="two or more observations")
def canonical(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx)
    nb = case["fam"] == "NegativeBinomial"
    kw = ({"scale": k} if case["pkg"] == "pylmm" else {"dispersion": k}) if nb else {}
    T = np.asarray(f.canonical_parameter(mu, **kw), dtype=float)
    dist = np.minimum(mu, 1 - mu) if case["fam"] == "Binomial" else mu
    h = 0.05 * dist
    theta = lambda m: np.asarray(f.canonical_parameter(m, **kw), dtype=float)
    V = np.asarray(f.var_func(mu=mu, **kw), dtype=float)
    d1 = num.deriv(theta, mu, h, 4)
    ctx.close(d1, 1 / V, "d theta / d mu = 1 / V", rtol=1e-7, scale="elem")
    d2 = num.deriv(lambda m: num.deriv(theta, m, h, 4), mu, h, 4)
    got = np.broadcast_to(f.d2canonical(mu, **kw), mu.shape)
    ctx.check(np.all(np.abs(got - d2) <= 1e-5 * (np.abs(d2) + 1 / V / dist)), lambda: f"d2canonical {got} want {d2}")
    ctx.close(f.mean_func(T, **kw), mu, "mean_func inverts canonical_parameter", rtol=1e-9, scale="elem")
    hT = 0.02 * np.maximum(np.abs(T), 1e-3) if case["fam"] in ("Gamma", "InverseGaussian", "NegativeBinomial") else 0.02
    ctx.close(num.deriv(lambda t: np.asarray(f.cumulant(t, **kw), dtype=float), T, hT, 4), mu, "the cumulant's derivative is the mean", rtol=1e-6, scale="elem")


@P.facet("pylmm_families", dicts(**{k: v for k, v in BASE.items() if k != "pkg"}), quick=600, rule="two or more observations")
def pylmm_families(case, ctx):
    f, y, mu, w, phi, k = setup(case, ctx, "pylmm")
    name = case["fam"]
    s = k if name == "NegativeBinomial" else phi
    two = 2.0 if name in ("Gaussian", "InverseGaussian") else 1.0
    ctx.close(f._full_loglike(y, mu=mu, scale=s), -two * nlp(name, y, mu, w, phi, k), "full log-likelihood", rtol=1e-8, atol=1e-8)
    ctx.close(f.full_loglike(y, mu=mu, scale=s), -two * nlp(name, y, mu, w, phi, k).sum(), "full_loglike sums", rtol=1e-8, atol=1e-8)
    mu2 = mu[::-1].copy()
    ctx.close(f.loglike(y, mu=mu, scale=s) - f.loglike(y, mu=mu2, scale=s), -two * (nlp(name, y, mu, w, phi, k) - nlp(name, y, mu2, w, phi, k)).sum(),
              "loglike differences", rtol=1e-8, atol=1e-7)
    eta = np.asarray(f.link(mu), dtype=float)
    if name != "NegativeBinomial":
        h = 0.02 * np.abs(eta) if name != "Binomial" or LINKS["Binomial"][case["link"] % 4] == "logcomp" else 0.05
        h = np.maximum(h, 1e-4) if LINKS[name][case["link"] % len(LINKS[name])] == "log" else h
        ll = lambda e: -nlp(name, y, np.asarray(f.inv_link(np.array(e))), w, phi, k)
        d1 = num.deriv(ll, eta, h, 4)
        d2 = num.deriv(lambda e: num.deriv(ll, e, h, 4), eta, h, 4)
        sc = np.abs(d1) + 1 / np.maximum(np.abs(h), 1e-3)
        g, H = f.gw(y, mu, phi), f.hw(y, mu, phi)
        ctx.check(np.all(np.abs(g - d1) <= 1e-5 * sc), lambda: f"gw {g} want {d1}")
        ctx.check(np.all(np.abs(H - d2) <= 1e-4 * (np.abs(d2) + sc + 1e-2 * sc / np.maximum(np.abs(h), 1e-3))), lambda: f"hw {H} want {d2}")
    if name not in ("Poisson", "Binomial"):
        t = np.array([np.log(s)])
        F = (lambda t: -two * nlp(name, y, mu, w, phi, np.exp(t))) if name == "NegativeBinomial" else (lambda t: -two * nlp(name, y, mu, w, np.exp(t), k))
        d1 = num.jac(lambda z: F(z[0]), t, 0.05, 4)[:, 0]
        d2 = num.jac(lambda z: num.jac(lambda q: F(q[0]), z, 0.05, 4)[:, 0], t, 0.05, 4)[:, 0]
        ctx.close(np.sum(f.dtau(t[0], y, mu)), d1.sum(), "dtau", rtol=1e-6, atol=1e-6)
        ctx.close(np.sum(f.d2tau(t[0], y, mu)), d2.sum(), "d2tau", rtol=1e-5, atol=1e-5)
    m1, m2 = np.asarray(f.dlink(mu)), f.d2link(mu)
    d = num.deriv(lambda m: np.broadcast_to(np.asarray(f.dlink(m), dtype=float), m.shape), mu, 0.02 * (np.minimum(mu, 1 - mu) if name == "Binomial" else mu), 4)
    ctx.check(np.all(np.abs(np.broadcast_to(m2, mu.shape) - d) <= 1e-5 * (np.abs(d) + np.abs(m1) / 0.05)), lambda: f"d2link {m2} want {d}")
    dk = {"scale": s} if name == "NegativeBinomial" else {}
    ysat = np.where(y == 0, 1e-300, y)
    want = 2 * phi * (nlp(name, y, ysat, w, phi, k) - nlp(name, y, mu, w, phi, k))
    ctx.close(f.deviance(y, mu=mu, **dk), want, "deviance", rtol=1e-7, atol=1e-7)


@P.facet("sampling", dicts(pkg=st.sampled_from(["pyglm", "pyglm2"]), fam=st.sampled_from(FAMS), mu=st.sampled_from([0.15, 0.4, 0.8]), scale=st.sampled_from([1.0, 3.0, 9.0]),
                           phi=st.sampled_from([0.25, 0.6, 1.5]), m=st.integers(1, 6), seed=seeds()), quick=150, cost=2, rule="phi != 1")
def sampling(case, ctx):
    """rvs follows the family's law (exact-level KS / chi-square with a 1e-9 threshold) and ppf is its quantile function"""
    from scipy import stats
    F = importlib.import_module(f"pystatsm.{case['pkg']}.families")
    name, phi = case["fam"], case["phi"]
    mu = case["mu"] if name == "Binomial" else case["mu"] * case["scale"]
    ctx.label(case["pkg"] + "." + name)
    ctx.nontrivial()
    f = getattr(F, name)(weights=case["m"]) if name == "Binomial" else getattr(F, name)()
    n = 4000
    m = np.full(n, mu)
    ref = {"Gaussian": stats.norm(mu, np.sqrt(phi)), "InverseGaussian": stats.invgauss(mu * phi, scale=1 / phi), "Gamma": stats.gamma(1 / phi, scale=mu * phi),
           "Poisson": stats.poisson(mu), "NegativeBinomial": stats.nbinom(1 / phi, 1 / (1 + phi * mu)), "Binomial": stats.binom(case["m"], mu)}[name]
    kw = {"Poisson": {}, "Binomial": {}, "NegativeBinomial": {"dispersion": phi}}.get(name, {"phi": phi})
    y = f.rvs(m, seed=case["seed"], **kw)
    ctx.equal(y, f.rvs(m, rng=np.random.default_rng(case["seed"]), **kw), "seed and generator agree")
    if name == "Binomial":
        y = y * case["m"]
        ctx.close(y, np.round(y), "binomial proportions are multiples of 1/m", atol=1e-9)
        y = np.round(y)
    q = np.array([0.03, 0.2, 0.5, 0.9, 0.985])
    got = f.ppf(q, mu, **kw)
    ctx.close(got, ref.ppf(q) / (case["m"] if name == "Binomial" else 1), "ppf", rtol=1e-6, atol=1e-9)
    if name in ("Gaussian", "InverseGaussian", "Gamma"):
        p = stats.kstest(y, ref.cdf).pvalue
    else:
        top = int(ref.ppf(0.999))
        obs = np.bincount(np.minimum(y.astype(int), top + 1), minlength=top + 2)
        pr = np.r_[ref.pmf(np.arange(top + 1)), ref.sf(top)]
        keep = pr * n > 8
        obs, pr = np.r_[obs[keep], obs[~keep].sum()], np.r_[pr[keep], pr[~keep].sum()]
        if pr[-1] * n < 8:
            obs, pr = np.r_[obs[:-2], obs[-2:].sum()], np.r_[pr[:-2], pr[-2:].sum()]
        p = stats.chisquare(obs, pr / pr.sum() * n).pvalue if len(pr) > 1 else 1.0
    ctx.check(p > 1e-9, f"samples of {name} do not follow its law (p = {p:.3g})")
