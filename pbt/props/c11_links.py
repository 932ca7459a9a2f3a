"""C11: link functions."""
import numpy as np
from hypothesis import strategies as st
from ..core import Property, dicts
from .. import num

P = Property("C11", "Link functions are invertible with exact derivatives in every GLM package")
P.assumptions = ["means are kept away from the boundary of their range by 2e-3 so that reference differences are accurate"]

NAMES = ["identity", "logit", "probit", "log", "reciprocal", "cloglog", "power", "logcomp", "negbin"]
PKGS = ["pyglm", "pyglm2", "pylmm"]


def make(pkg, name, a):
    import importlib
    L = importlib.import_module(f"pystatsm.{pkg}.links")
    cls = dict(identity=L.IdentityLink, logit=L.LogitLink, probit=L.ProbitLink, log=L.LogLink, reciprocal=L.ReciprocalLink,
               cloglog=L.CloglogLink, power=L.PowerLink, logcomp=L.LogComplementLink, negbin=L.NegativeBinomialLink)[name]
    if name == "power":
        return cls(a)
    if name == "negbin":
        return cls(abs(a) + 0.25)
    return cls()


def ref_inv(name, a, e):
    """the mean function each link is named after, from its textbook definition"""
    from scipy.stats import norm
    if name == "negbin":
        return 1 / ((abs(a) + 0.25) * np.expm1(-e))
    if name == "power":
        return np.exp(e) if a == 0 else e ** (1 / a)
    return dict(identity=lambda: e, logit=lambda: 1 / (1 + np.exp(-e)), probit=lambda: norm.cdf(e), log=lambda: np.exp(e), reciprocal=lambda: 1 / e,
                cloglog=lambda: -np.expm1(-np.exp(e)), logcomp=lambda: -np.expm1(e))[name]()


def domain(name, u):
    """maps u in (0,1) to means inside the open range of the link"""
    u = np.asarray(u, dtype=float)
    if name == "identity":
        return 10 * u - 5
    if name in ("logit", "probit", "cloglog", "logcomp"):
        return 0.004 + 0.992 * u
    return 0.2 + 6 * u


U = st.lists(st.floats(0, 1, allow_subnormal=False).map(lambda v: round(v, 4)), min_size=1, max_size=5)
ALPHA = st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.25, 1 / 3, 0.5, 1.0, 1.5, 2.0, 3.0])
BASE = dict(pkg=st.sampled_from(PKGS), name=st.sampled_from(NAMES), a=ALPHA, u=U)


def setup(case, ctx):
    L = make(case["pkg"], case["name"], case["a"])
    mu = domain(case["name"], case["u"])
    ctx.label(case["pkg"] + "." + case["name"])
    ctx.nontrivial(len(mu) > 1)
    return L, mu


@P.facet("inverse_pair", dicts(**BASE), quick=1500, rule="two or more means")
def inverse(case, ctx):
    L, mu = setup(case, ctx)
    keep = mu.copy()
    eta = np.asarray(L.link(mu), dtype=float)
    ctx.close(L.inv_link(eta.copy()), mu, "inv_link(link(mu))", rtol=1e-7, atol=1e-9, scale="elem")
    ctx.close(ref_inv(case["name"], case["a"], eta), mu, "link agrees with the textbook mean function", rtol=1e-7, atol=1e-9, scale="elem")
    ctx.close(L.link(np.asarray(L.inv_link(eta.copy()))), eta, "link(inv_link(eta))", rtol=1e-6, atol=1e-8, scale="elem")
    ctx.equal(mu, keep, "the argument is not modified")
    o = np.argsort(mu)
    d = np.diff(np.asarray(eta)[o])
    d = d[np.diff(mu[o]) > 1e-6]
    ctx.check(len(d) == 0 or np.all(d > 0) or np.all(d < 0), "links are strictly monotone")


@P.facet("inverse_derivatives", dicts(**BASE), quick=1500, rule="two or more means")
def dinv(case, ctx):
    L, mu = setup(case, ctx)
    n = case["name"]
    eta = np.asarray(L.link(mu), dtype=float)
    f = lambda e: ref_inv(n, case["a"], e)
    if n in ("reciprocal", "power", "negbin", "logcomp"):
        h = 2e-2 * np.abs(eta)
    else:
        h = 2e-2 * np.ones_like(eta)
    d1 = num.deriv(f, eta, h, 4)
    d2 = num.deriv(lambda e: num.deriv(f, e, h, 4), eta, h, 4)
    s = np.maximum(np.abs(d1), np.abs(mu) / h) if n != "identity" else 1.0
    got = np.broadcast_to(np.asarray(L.dinv_link(eta), dtype=float), eta.shape)
    ctx.check(np.all(np.abs(got - d1) <= 1e-6 * np.abs(s)), lambda: f"dinv_link {got} but d mu/d eta is {d1}")
    got = np.broadcast_to(np.asarray(L.d2inv_link(eta), dtype=float), eta.shape)
    ctx.check(np.all(np.abs(got - d2) <= 1e-4 * np.abs(d2) + 1e-6 * np.abs(s) / h), lambda: f"d2inv_link {got} but d2 mu/d eta2 is {d2}")


@P.facet("link_derivatives", dicts(**BASE), quick=1500, rule="two or more means")
def dlinks(case, ctx):
    L, mu = setup(case, ctx)
    n = case["name"]
    lo, hi = {True: (0.0, 1.0), False: (0.0, np.inf)}[n in ("logit", "probit", "cloglog", "logcomp")]
    dist = np.minimum(mu - lo, hi - mu) if n != "identity" else np.ones_like(mu)
    h = 0.05 * dist
    from scipy.stats import norm
    k = abs(case["a"]) + 0.25
    a = case["a"]
    f0 = dict(identity=lambda m: m, logit=lambda m: np.log(m / (1 - m)), probit=norm.ppf, log=np.log, reciprocal=lambda m: 1 / m,
              cloglog=lambda m: np.log(-np.log1p(-m)), power=lambda m: np.log(m) if a == 0 else m ** a, logcomp=lambda m: np.log1p(-m),
              negbin=lambda m: np.log(m * k / (1 + k * m)))[n]
    fs = [("dlink", f0)]
    if case["pkg"] != "pylmm":
        for nm in ("dlink", "d2link", "d3link"):
            nxt = {"dlink": "d2link", "d2link": "d3link", "d3link": "d4link"}[nm]
            fs.append((nxt, lambda m, nm=nm: np.broadcast_to(np.asarray(getattr(L, nm)(m), dtype=float), m.shape)))
    for nm, f in fs:
        want = num.deriv(f, mu, h, 4)
        got = np.broadcast_to(np.asarray(getattr(L, nm)(mu), dtype=float), mu.shape)
        s = np.abs(want) + np.abs(f(mu)) / dist
        ctx.check(np.all(np.abs(got - want) <= 1e-5 * s + 1e-9), lambda: f"{nm}({mu}) = {got}, derivative of the previous order is {want}")
