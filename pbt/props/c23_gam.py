"""C23: additive models (pygam)."""
import numpy as np
import pandas as pd
import scipy as sp
import scipy.interpolate
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C23", "Additive models")
P.assumptions = ["derivatives of a criterion are judged where the penalised fit is a regular minimum", "tables are judged where the smoothing parameters are identified"]

FAMS = {"gauss": ("Gaussian", ["IdentityLink", "LogLink"]), "gamma": ("Gamma", ["LogLink", "ReciprocalLink"]), "invgauss": ("InverseGaussian", ["LogLink"])}
SM = {"nsm": st.sampled_from([1, 2, 3]), "kinds": st.lists(st.sampled_from(["cr", "cc", "bs"]), min_size=3, max_size=3),
      "dfs": st.lists(st.sampled_from([6, 5, 8]), min_size=3, max_size=3), "by": st.sampled_from([None, 0, 1]), "par": st.sampled_from(["none", "factor", "linear", "noint"]),
      "order": st.sampled_from(["after", "before"]), "style": st.sampled_from(["kw", "pos", "quotes"])}


def term(v, kind, df, by, style):
    if style == "pos":
        return f"s({v}, {df}, {kind}" + (f", {by}" if by else "") + ")"
    q = "'" if style == "quotes" else ""
    return f"s({v}, kind={q}{kind}{q}, df={df}" + (f", by={by}" if by else "") + ")"


def wiggles(rng, x, kind):
    a, b = rng.uniform(1.2, 2.2), rng.uniform(0, 6)
    u = (x - x.min()) / np.ptp(x)
    return a * np.sin(2 * np.pi * u * rng.choice([1, 2]) + b) if kind == "cc" else a * np.sin(rng.uniform(3, 6) * u + b)


def setup(case, pre="x"):
    """data frame, formula right-hand side, signal, list of smooth specs"""
    rng = rng_of(case)
    n = case.get("n", 120)
    df = pd.DataFrame({f"{pre}{i}": np.sort(rng.uniform(-1, 1, n)) if i == 0 else rng.uniform(-2, 3, n) for i in range(3)})
    g = np.array(["a", "b", "c"])[:2 + case["seed"] % 2]
    df["g"] = rng.permutation(np.resize(g, n))
    df["z"] = rng.standard_normal(n)
    sig, terms, specs = np.zeros(n), [], []
    for i in range(case["nsm"]):
        v, kind, k = f"{pre}{i}", case["kinds"][i], case["dfs"][i]
        by = "g" if case["by"] == i else None
        x = df[v].values
        if by:
            for lev in g:
                sig = sig + wiggles(rng, x, kind) * (df["g"].values == lev)
        else:
            sig = sig + wiggles(rng, x, kind)
        terms.append(term(v, kind, k, by, case["style"]))
        specs += [(v, kind, k, lev) for lev in g] if by else [(v, kind, k, None)]
    par = {"none": [], "factor": ["C(g)"], "linear": ["z"], "noint": ["z"]}[case["par"]]
    sig = sig + {"none": 0, "factor": 0.5 * (df["g"].values == "b"), "linear": 0.6 * df["z"].values, "noint": 0.6 * df["z"].values}[case["par"]]
    rhs = " + ".join(terms + par if case["order"] == "after" else par + terms)
    if case["par"] == "noint":
        rhs += " - 1"
    return rng, df, rhs, sig, specs


def check_design(ctx, mod, df, specs, case, Xp_names):
    """parametric columns, centred splines and wiggliness penalties, each over its own variable and rows"""
    n = len(df)
    par = {"none": ["Intercept"], "factor": ["Intercept"] + [f"C(g)[T.{l}]" for l in sorted(set(df["g"]))[1:]], "linear": ["Intercept", "z"], "noint": ["z"]}[case["par"]]
    ctx.equal(list(Xp_names[:len(par)]), par, "parametric columns")
    want = {"Intercept": np.ones(n), "z": df["z"].values}
    for j, p in enumerate(par):
        ctx.close(mod.X[:, j], want[p] if p in want else (df["g"].values == p[7:-1]).astype(float), f"column {p}", atol=1e-12)
    pos = len(par)
    keys = list(mod.smooths)
    ctx.equal(len(keys), len(specs), "number of smooths")
    bys = [s[3] for s in specs]
    for i, (v, kind, k, lev) in enumerate(specs):
        s = mod.smooths[keys[i]]
        width = {"cr": k - 1, "cc": k - 2, "bs": k - 1}[kind]
        ix = np.arange(pos, pos + width)
        ctx.equal(np.asarray(s["ix"]), ix, f"columns of {keys[i]}")
        ctx.equal(keys[i], v if lev is None else f"{v}_{lev}", "name of the smooth")
        X = mod.X[:, ix]
        x = df[v].values
        rows = np.ones(n, bool) if lev is None else df["g"].values == lev
        ctx.close(X[~rows], np.zeros((np.sum(~rows), width)), "a by-smooth is zero outside its level")
        if lev is None:
            ctx.close(X.mean(axis=0), np.zeros(width), "smooth is centred over the data", atol=1e-10)
        # the functions are splines on the knots; the penalty is their integrated squared curvature
        rng = np.random.default_rng(case["seed"] + i)
        kn = s["knots"]
        inner = kn[3:-3] if kind == "bs" else kn
        rr = []
        for _ in range(3):
            b = rng.standard_normal(width)
            y = X[rows] @ b
            xr = x[rows]
            u, first = np.unique(xr, return_index=True)
            if kind == "cc":
                B = np.stack([sp.interpolate.CubicSpline(kn, np.r_[e, e[0]], bc_type="periodic")(xr) for e in np.eye(k - 1)], 1)
                f = lambda c: sp.interpolate.CubicSpline(kn, np.r_[c, c[0]], bc_type="periodic")
            elif kind == "cr":
                B = np.stack([sp.interpolate.CubicSpline(kn, e, bc_type="natural")(xr) for e in np.eye(k)], 1)
                f = lambda c: sp.interpolate.CubicSpline(kn, c, bc_type="natural")
            else:
                B = np.stack([sp.interpolate.BSpline(kn, e, 3)(xr) for e in np.eye(k)], 1)
                f = lambda c: sp.interpolate.BSpline(kn, c, 3)
            c, *_ = np.linalg.lstsq(B, y, rcond=None)
            ctx.close(B @ c, y, f"{keys[i]} is a spline of its variable", rtol=1e-6, atol=1e-7)
            if np.linalg.matrix_rank(B) < B.shape[1]:
                rr = None
                break
            sf = f(c)
            t = [sf(np.r_[a + 1e-9 * (e - a), (a + e) / 2, e - 1e-9 * (e - a)], 2) for a, e in zip(inner[:-1], inner[1:])]
            J = sum((e - a) / 6 * (q[0] ** 2 + 4 * q[1] ** 2 + q[2] ** 2) for (a, e), q in zip(zip(inner[:-1], inner[1:]), t))
            rr.append((b @ mod.S[i][np.ix_(ix, ix)] @ b) / J)
        if rr:
            ctx.close(rr, np.full(3, rr[0]), "penalty is proportional to the integrated squared curvature", rtol=1e-4)
        M = mod.S[i].copy()
        M[np.ix_(ix, ix)] = 0
        ctx.close(M, np.zeros_like(M), "penalty touches only its own coefficients")
        pos += width
    ctx.equal(mod.X.shape[1], pos, "number of columns")


def ranks_of(specs):
    return np.array([{"cr": k - 2, "cc": k - 2, "bs": k - 2}[kind] for _, kind, k, _ in specs])


def logdet_plus(S, r):
    u = np.sort(np.linalg.eigvalsh((S + S.T) / 2))[::-1]
    return np.sum(np.log(u[:r]))


def fam_nll(fam, y, mu, phi):
    if fam == "gauss":
        return -sp.stats.norm.logpdf(y, mu, np.sqrt(phi)).sum()
    if fam == "gamma":
        return -sp.stats.gamma.logpdf(y, 1 / phi, scale=mu * phi).sum()
    return -sp.stats.invgauss.logpdf(y, mu * phi, scale=1 / phi).sum()


INV = {"IdentityLink": lambda e: e, "LogLink": np.exp, "ReciprocalLink": lambda e: 1 / e}
GC = dicts(seed=seeds(), n=st.sampled_from([120, 70, 250]), **SM, fam=st.sampled_from(["gauss", "gamma", "invgauss"]), link=st.sampled_from([0, 1]),
           phi=st.sampled_from([0.05, 0.2]), scale=st.sampled_from([1.0, 20.0, 0.02]))


def gam_model(case, ctx):
    from pystatsm.pygam.gam import GAM
    from pystatsm.pyglm import families, links
    rng, df, rhs, sig, specs = setup(case)
    fam = case["fam"]
    fname, ls = FAMS[fam]
    lname = ls[case["link"] % len(ls)]
    n = len(df)
    if lname == "IdentityLink":
        y = case["scale"] * (sig + np.sqrt(case["phi"] * 4) * rng.standard_normal(n))
    else:
        eta = 0.35 * sig
        if lname == "ReciprocalLink":
            eta = 1.5 + np.abs(eta - eta.min())
        mu = INV[lname](eta)
        phi = case["phi"] * (0.3 if fam != "gamma" else 1)
        if fam == "gauss":
            y = np.maximum(mu * (1 + 0.2 * np.sqrt(phi) * rng.standard_normal(n)), 0.05 * mu)
        elif fam == "gamma":
            y = rng.gamma(1 / phi, mu * phi)
        else:
            y = sp.stats.invgauss.rvs(mu * phi, scale=1 / phi, random_state=rng)
        if lname == "LogLink" and case["par"] != "noint":
            y = y * case["scale"]
    df["y"] = y
    perm = rng.permutation(n)
    df.index = perm + 7
    mod = GAM(f"y ~ {rhs}", df, family=getattr(families, fname)(link=getattr(links, lname)))
    return rng, df, specs, fam, lname, mod, rhs


@P.facet("gam", GC, quick=60, thorough=4000, shards=4, rule="several smooths, a by-variable or a non-Gaussian family", cost=3.0)
def gam(case, ctx):
    """GAM: design, penalised fit, marginal likelihood criterion and its derivatives"""
    rng, df, specs, fam, lname, mod, rhs = gam_model(case, ctx)
    n, y = len(df), df["y"].values
    ctx.nontrivial(len(specs) > 1 or fam != "gauss")
    check_design(ctx, mod, df, specs, case, mod.varnames)
    ns, nx = len(specs), mod.X.shape[1]
    X, S = mod.X, mod.S
    ctx.close(mod.y, y, "response")
    rk = ranks_of(specs)
    ctx.equal(np.asarray(mod.ranks).astype(int), rk, "ranks of the penalties")
    rho = rng.uniform(-3, 3, ns)
    lam = np.exp(rho)
    phi0 = np.var(y) * 0.2 if fam == "gauss" else case["phi"]
    theta = np.append(rho, np.log(phi0) + rng.uniform(-0.5, 0.5))
    Sl = sum(l * s for l, s in zip(lam, S))
    ctx.close(mod.get_penalty_mat(lam), Sl, "penalty matrix", rtol=1e-10, atol=1e-12)
    try:
        beta, eta, mu, dev, conv, it = mod.pirls(lam)
    except np.linalg.LinAlgError:
        ctx.skip("penalised fit is not a regular minimum")
    inv = INV[lname]
    phi = np.exp(theta[-1])

    def pnll(b, ph=1.0, l=None):
        Q = Sl if l is None else sum(a * s for a, s in zip(l, S))
        return fam_nll(fam, y, inv(X @ b), ph) + b @ Q @ b / (2 * ph)

    if not conv or not np.all(np.isfinite(beta)):
        ctx.skip("penalised fit is not a regular minimum")
    sd = np.sqrt(np.diag(np.linalg.inv(X.T @ X + 1e-3 * np.trace(X.T @ X) / nx * np.eye(nx)))) * (np.sqrt(phi) if lname == "IdentityLink" else 0.1)
    g = num.grad(lambda z: pnll(beta + sd * z, phi), np.zeros(nx), h=1e-2)
    H = num.hess(lambda z: pnll(beta + sd * z, phi), np.zeros(nx), h=3e-2, levels=2) / np.outer(sd, sd)
    if not np.all(np.isfinite(H)) or np.linalg.eigvalsh(H * np.outer(sd, sd))[0] < 1e-6:
        ctx.skip("penalised fit is not a regular minimum")
    step = np.linalg.solve(H, g / sd)
    ctx.check(np.sqrt(max(step @ H @ step, 0)) < 2e-4, f"penalised fit is off by {np.sqrt(step @ H @ step)} standard errors")
    ctx.close(eta, X @ beta, "linear predictor", rtol=1e-9, atol=1e-10)
    ctx.close(mu, inv(eta), "mean", rtol=1e-9)
    D2, Dp2 = mod.hess_dev_beta(beta, Sl)
    hs = np.sqrt(np.diag(H))
    ctx.close(Dp2 / phi / np.outer(hs, hs), H / np.outer(hs, hs), "second derivatives of the penalised fit", rtol=1e-4, atol=2e-5)
    ctx.close(Dp2 - D2, Sl, "penalised minus unpenalised", rtol=1e-7, atol=1e-7 * np.abs(Dp2).max())
    b0 = beta + sd * rng.uniform(-0.3, 0.3, nx)
    if lname != "ReciprocalLink" or np.all(X @ b0 > 0.3):
        gg = num.grad(lambda z: pnll(b0 + sd * z, phi), np.zeros(nx), h=1e-2) * phi
        ctx.close(mod.grad_dev_beta(b0, Sl) * sd, gg, "gradient of the penalised deviance", rtol=1e-5, atol=1e-6 * np.abs(gg).max())
    # derivatives of the coefficients
    hb = np.sqrt(np.diag(np.linalg.inv(H)))

    def br(r):
        Q, b = mod.get_penalty_mat(np.exp(r)), beta.copy()
        for _ in range(30):
            d = np.linalg.solve(mod.hess_dev_beta(b, Q)[1], mod.grad_dev_beta(b, Q))
            b = b - d
            if np.max(np.abs(d / hb)) < 1e-13:
                break
        return b
    beta = br(rho)
    J = num.jac(lambda r: br(r) / hb, rho, h=2e-2)
    ctx.close(mod.grad_beta_rho(beta, lam) / hb[:, None], J, "derivatives of the coefficients", rtol=1e-4, atol=1e-4)
    J2 = num.jac(lambda r: mod.grad_beta_rho(br(r), np.exp(r)) / hb[:, None], rho, h=2e-2)
    b2 = mod.hess_beta_rho(beta, lam)
    ctx.close(np.transpose(b2, (2, 0, 1)) / hb[:, None, None], J2, "second derivatives of the coefficients", rtol=1e-4, atol=2e-4)
    J3 = num.jac(lambda r: mod.hess_beta_rho(br(r), np.exp(r)) / hb, rho, h=2e-2)
    ctx.close(np.transpose(mod.dhess_beta_rho(beta, lam), (0, 1, 3, 2)) / hb[:, None], J3, "third derivatives of the coefficients", rtol=1e-4, atol=5e-4)
    # the criterion: Laplace approximate marginal likelihood with the improper smoothness prior
    lds = sum(logdet_plus(s, r) + r * np.log(l / phi) for s, r, l in zip(S, rk, lam))
    ctx.close(mod.logdetS(lam, phi), lds, "log determinant of the penalty", rtol=1e-7, atol=1e-6)
    ref = pnll(beta, phi) + 0.5 * np.linalg.slogdet(Dp2 / phi)[1] - 0.5 * lds
    ctx.close(mod.reml(theta), ref, "marginal likelihood criterion", rtol=1e-8, atol=1e-6)
    if lname == "IdentityLink":
        def dense(t):
            l, ph = np.exp(t[:-1]), np.exp(t[-1])
            Q = sum(a * s for a, s in zip(l, S))
            r = int(rk.sum())
            u, V = np.linalg.eigh(Q / np.sqrt(np.outer(np.maximum(np.diag(Q), 1e-300), np.maximum(np.diag(Q), 1e-300))) if False else Q)
            N, R, d = X @ V[:, :nx - r], X @ V[:, nx - r:], u[nx - r:]
            C = ph * (np.eye(n) + (R / d) @ R.T)
            Ci = np.linalg.inv(C)
            A = N.T @ Ci @ N
            Py = Ci @ y - Ci @ N @ np.linalg.solve(A, N.T @ Ci @ y)
            return 0.5 * (np.linalg.slogdet(C)[1] + np.linalg.slogdet(A)[1] + y @ Py)
        t2 = theta + rng.uniform(-1, 1, ns + 1)
        ctx.close(mod.reml(theta) - mod.reml(t2), dense(theta) - dense(t2), "restricted likelihood of the equivalent mixed model", rtol=1e-5, atol=1e-4)
    if not all(mod.pirls(np.exp(rho + d * e))[4] for e in np.eye(ns) for d in (-0.02, -0.01, 0.01, 0.02)):
        ctx.skip("penalised fit is not a regular minimum nearby")
    ctx.close(mod.gradient(theta), num.grad(mod.reml, theta, h=2e-2), "gradient of the criterion", rtol=2e-5, atol=1e-4)
    ctx.close(mod.hessian(theta), num.jac(mod.gradient, theta, h=2e-2), "hessian of the criterion", rtol=1e-4, atol=2e-4)


@P.facet("gam_fit", GC, quick=32, thorough=2000, shards=4, rule="several smooths, a by-variable or a non-Gaussian family", cost=5.0)
def gam_fit(case, ctx):
    """GAM.fit: optimum, covariance, effective degrees of freedom, tables, components, invariances"""
    from pystatsm.pygam.gam import GAM
    from pystatsm.pyglm import families, links
    rng, df, specs, fam, lname, mod, rhs = gam_model(case, ctx)
    n, y, ns = len(df), df["y"].values, len(specs)
    ctx.nontrivial(len(specs) > 1 or fam != "gauss")
    start = mod.theta.copy()
    try:
        fits = [mod.pirls(np.exp(start[:-1] + d))[4] for d in (0, -2, 2)]
    except np.linalg.LinAlgError:
        fits = [False]
    if not all(fits):
        ctx.skip("penalised fit is not a regular minimum")
    try:
        mod.fit(opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-11)))
    except np.linalg.LinAlgError:
        if lname == "IdentityLink":
            raise
        ctx.skip("no optimum")
    th = mod.theta
    r0 = mod.reml(start)
    if lname != "IdentityLink" and not mod.pirls(np.exp(th[:-1]))[4] or mod.opt.status == 0:
        ctx.skip("no optimum")
    ctx.check(mod.reml(th) <= r0 + 1e-6 * (1 + abs(r0)), "criterion no worse than at the start")
    X, S = mod.X, mod.S
    lam, phi = np.exp(th[:-1]), np.exp(th[-1])
    Sl = sum(l * s for l, s in zip(lam, S))
    g, H = mod.gradient(th), mod.hessian(th)
    inner = (th[:-1] > -15) & (th[:-1] < 15)
    if lname != "IdentityLink":
        # a penalised fit that jumps between local minima or does not converge makes the criterion discontinuous
        pr = [mod.pirls(np.exp(th[:-1] + d)) for d in 1e-3 * rng.uniform(-1, 1, (4, ns))]
        hb0 = np.sqrt(np.diag(mod.Vb))
        if not all(q[4] for q in pr) or max(np.abs((q[0] - mod.beta) / hb0).max() for q in pr) > 0.05:
            ctx.skip("no optimum")
    ctx.check(np.abs(g[:-1][inner]).max(initial=0) < 2e-3 and abs(g[-1]) < 5e-3, f"gradient at the fit {g}")
    beta = mod.beta
    ctx.close(mod.scale, phi, "scale", rtol=1e-10)
    Hb = mod.hess_dev_beta(beta, np.zeros_like(Sl))[0]
    Vb = np.linalg.inv((Hb + Sl) / phi)
    if np.linalg.cond(Hb + Sl) > 1e12:
        ctx.skip("coefficients nearly unidentified")
    sb = np.sqrt(np.diag(Vb))
    at = dict(rtol=1e-4, atol=1e-6)
    ctx.close(mod.Vb / np.outer(sb, sb), Vb / np.outer(sb, sb), "conditional covariance", **at)
    F = np.linalg.solve(Hb + Sl, Hb)
    ctx.close(mod.F * sb / sb[:, None], F * sb / sb[:, None], "influence of the data on the coefficients", **at)
    ctx.close(mod.edf, np.trace(F), "effective degrees of freedom", rtol=1e-6)
    ctx.close(mod.Vs / np.outer(sb, sb), F @ Vb / np.outer(sb, sb), "sampling covariance", **at)
    # smooth tests
    for key, (v, kind, k, lev) in zip(mod.smooths, specs):
        ix = mod.smooths[key]["ix"]
        row = mod.res_smooths.loc[key]
        e = np.trace(F[np.ix_(ix, ix)]) if False else np.sum(np.diag(F)[ix])
        ctx.close(row["edf"], e, f"edf of {key}", rtol=1e-5)
        ctx.check(-1e-8 < row["edf"] < len(ix) + 1e-8, "edf between zero and the number of coefficients")
        if np.linalg.matrix_rank(X[:, ix]) == len(ix) and np.linalg.cond(X[:, ix]) < 1e5:
            q = beta[ix] @ np.linalg.solve(Vb[np.ix_(ix, ix)], beta[ix])
            ctx.close(row["chisq"], q, f"chi-square of {key}", rtol=1e-4)
        r = np.floor(e) if e - np.floor(e) < 0.05 else np.ceil(e)
        if abs((e - np.floor(e)) - 0.05) > 1e-4 and min(e % 1, 1 - e % 1) > 1e-4:
            ctx.equal(int(row["rdf"]), int(r), "rounded degrees of freedom")
            ctx.close(row["p_approx"], sp.stats.chi2(r).sf(row["chisq"]), "p value of the smooth", rtol=1e-6, atol=1e-300)
    yb = y.mean()
    dv = lambda m: 2 * phi * (fam_nll(fam, y, m, phi) - fam_nll(fam, y, y, phi))
    D, D0 = dv(mod.mu), dv(np.full(n, yb))
    ctx.close(mod.model_deviance, D, "deviance", rtol=1e-6)
    ctx.close(mod.deviance_explained, 1 - D / D0, "deviance explained", rtol=1e-6, atol=1e-8)
    ctx.close(mod.rsquared, 1 - np.sum((y - mod.mu) ** 2) / np.sum((y - yb) ** 2), "R squared", rtol=1e-8, atol=1e-10)
    nll = fam_nll(fam, y, mod.mu, D / n)
    ctx.close(mod.ll_model, nll, "log-likelihood", rtol=1e-6, atol=1e-6)
    ctx.close(mod.aic, 2 * nll + 2 * mod.edf + 2, "AIC", rtol=1e-6, atol=1e-5)
    if np.any(~inner) or np.linalg.eigvalsh(H)[0] < 1e-4:
        ctx.label("smoothing parameter at the end of its range")
    else:
        Vp = np.linalg.inv(H)
        ctx.close(mod.Vp, Vp, "covariance of the log smoothing parameters", rtol=1e-3, atol=1e-5)
        J = mod.grad_beta_rho(beta, lam)
        Vc = Vb + J @ Vp[:-1, :-1] @ J.T
        ctx.close(mod.Vc / np.outer(sb, sb), Vc / np.outer(sb, sb), "covariance with smoothing uncertainty", rtol=1e-3, atol=1e-5)
        ctx.close(mod.Vf / np.outer(sb, sb), (Vc - Vb + F @ Vb) / np.outer(sb, sb), "sampling covariance with smoothing uncertainty", rtol=1e-3, atol=1e-5)
        r = mod.res
        par = np.append(beta, th)
        ctx.equal(len(r), len(par), "rows of the table")
        se = np.append(np.sqrt(np.diag(Vc)), np.sqrt(np.diag(Vp)))
        ctx.close(r["param"], par, "estimates in the table", rtol=1e-10)
        ctx.close(r["SE"] / se, np.ones(len(se)), "standard errors", rtol=1e-3)
        c = sp.stats.norm.ppf(0.975)
        ctx.close(r["CI95-"], par - c * r["SE"], "lower limits", rtol=1e-8, atol=1e-10 * np.abs(par).max())
        ctx.close(r["CI95+"], par + c * r["SE"], "upper limits", rtol=1e-8, atol=1e-10 * np.abs(par).max())
        ctx.close(r["t"], par / r["SE"], "t values", rtol=1e-8)
        ctx.close(r["p"], 2 * sp.stats.t(n - mod.edf).sf(np.abs(r["t"])), "p values are two-sided with the residual degrees of freedom", rtol=1e-6, atol=1e-12)
        # components
        for ci in (90, 50):
            comps = mod.get_smooth_comps(ci=ci)
            z = sp.stats.norm.ppf(0.5 + ci / 200)
            for key, (v, kind, k, lev) in zip(mod.smooths, specs):
                xs, f, s = np.asarray(comps[key]).T
                ix = mod.smooths[key]["ix"]
                rows = np.ones(n, bool) if lev is None else df["g"].values == lev
                o = np.argsort(df[v].values[rows])
                xd = df[v].values[rows][o]
                inside = (xd >= xs[0]) & (xd <= xs[-1])
                fd = (X[rows][:, ix] @ beta[ix])[o]
                ctx.close(sp.interpolate.CubicSpline(xs, f)(xd[inside]), fd[inside], f"component {key} as plotted and as fitted", rtol=1e-2, atol=2e-3 * np.abs(f).max())
                sdd = z * np.sqrt(np.sum(X[rows][:, ix] @ mod.Vc[np.ix_(ix, ix)] * X[rows][:, ix], axis=1))[o]
                ctx.close(sp.interpolate.PchipInterpolator(xs, s)(xd[inside]), sdd[inside], f"band of {key}", rtol=3e-2, atol=1e-2 * s.max())
        got = mod.get_smooth_comps(data=df)
        for key, (v, kind, k, lev) in zip(mod.smooths, specs):
            rows = np.ones(n, bool) if lev is None else df["g"].values == lev
            ix = mod.smooths[key]["ix"]
            ctx.close(np.asarray(got[key])[rows, 1], X[rows][:, ix] @ beta[ix], f"component {key} at the data", rtol=1e-6, atol=1e-8)
    # units of the variables and of the response, order of the rows
    if case["scale"] == 1.0 and not np.any(~inner) and np.linalg.eigvalsh(H)[0] > 1e-2:
        d2 = df.sample(frac=1.0, random_state=case["seed"] % 2 ** 31)
        c = 7.3 if lname in ("IdentityLink", "LogLink") else 1.0
        d2 = d2.assign(x0=3.7 * d2["x0"] + 11, y=d2["y"] * c)
        if lname == "LogLink" and case["par"] == "noint":
            d2["y"] = d2["y"] / c
            c = 1.0
        m2 = GAM(f"y ~ {rhs}", d2, family=type(mod.f)(link=type(mod.f.link_func if hasattr(mod.f, 'link_func') else mod.f._link)) if False else getattr(families, FAMS[fam][0])(link=getattr(links, lname)))
        sh = {"gauss": 2 * np.log(c), "gamma": 0.0, "invgauss": -np.log(c)}[fam]
        t2 = th.copy()
        t2[-1] += sh
        if lname == "LogLink":
            t2[:-1] += {"gauss": 2, "gamma": 0, "invgauss": -1}[fam] * np.log(c)
        f2 = m2.pirls(np.exp(t2[:-1]))[2]
        o = d2.index.get_indexer(df.index)
        ctx.close(f2[o] / c, mod.mu, "fit under change of units and row order", rtol=1e-5)
        ctx.close(m2.gradient(t2), g, "criterion under change of units and row order", rtol=1e-4, atol=2e-3)


@P.facet("gaussian", dicts(seed=seeds(), n=st.sampled_from([120, 70, 250]), **SM, scale=st.sampled_from([1.0, 20.0, 0.02])), quick=40, thorough=3000, shards=2, rule="several smooths", cost=3.0)
def gaussian(case, ctx):
    """GaussianAdditiveModel is GAM with the Gaussian family"""
    from pystatsm.pygam.gam import GAM
    from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel
    rng, df, rhs, sig, specs = setup(case)
    n, ns = len(df), len(specs)
    ctx.nontrivial(ns > 1)
    df["y"] = case["scale"] * (sig + 0.6 * rng.standard_normal(n))
    a, b = GAM(f"y ~ {rhs}", df), GaussianAdditiveModel(f"y~{rhs}", df)
    ctx.close(b.X, a.X, "design", rtol=1e-12, atol=1e-14)
    ctx.close(b.theta, a.theta, "starting values", rtol=1e-12)
    ctx.equal(list(b.varnames), list(a.varnames), "names")
    check_design(ctx, b, df, specs, case, b.varnames)
    th = np.append(rng.uniform(-3, 3, ns), np.log(np.var(df["y"])) + rng.uniform(-2, 0))
    ctx.close(b.reml(th), a.reml(th), "criterion", rtol=1e-8, atol=1e-6)
    ctx.close(b.gradient(th), a.gradient(th), "gradient", rtol=1e-6, atol=1e-6)
    ctx.close(b.hessian(th), a.hessian(th), "hessian", rtol=1e-6, atol=1e-6)
    ctx.close(b.hessian(th), num.jac(b.gradient, th, h=2e-2), "hessian of the criterion", rtol=1e-5, atol=1e-5)
    lam = np.exp(th[:-1])
    ba, bb = a.pirls(lam)[0], b.pirls(lam)[0]
    sc = np.sqrt(np.diag(np.linalg.inv(a.X.T @ a.X + a.get_penalty_mat(lam)))) * df["y"].std()
    ctx.close(bb / sc, ba / sc, "coefficients", rtol=1e-5, atol=1e-6)
    ctx.close(b.grad_beta_rho(bb, lam) / sc[:, None], a.grad_beta_rho(ba, lam) / sc[:, None], "derivatives of the coefficients", rtol=1e-5, atol=1e-6)
    kw = dict(options=dict(gtol=1e-9, xtol=1e-11))
    b.fit(opt_kws=kw)
    th = b.theta
    if np.any(np.abs(th[:-1]) > 12) or np.linalg.eigvalsh(b.hessian(th))[0] < 1e-3:
        ctx.skip("smoothing parameter at the end of its range")
    ctx.check(np.abs(b.gradient(th)).max() < 2e-3, f"gradient at the fit {b.gradient(th)}")
    lam, phi = np.exp(th[:-1]), np.exp(th[-1])
    Sl, XtX = b.get_penalty_mat(lam), b.X.T @ b.X
    Vb = np.linalg.inv(XtX + Sl) * phi
    sb = np.sqrt(np.diag(Vb))
    F = np.linalg.solve(XtX + Sl, XtX)
    ctx.close(b.beta / sb, np.linalg.solve(XtX + Sl, b.X.T @ df["y"].values) / sb, "coefficients at the fit", rtol=1e-6, atol=1e-6)
    ctx.close(b.Vb / np.outer(sb, sb), Vb / np.outer(sb, sb), "conditional covariance", rtol=1e-5, atol=1e-6)
    ctx.close(b.edf, np.trace(F), "effective degrees of freedom", rtol=1e-6)
    J = a.grad_beta_rho(b.beta, lam)
    C = J @ np.linalg.inv(b.hessian(th))[:-1, :-1] @ J.T
    ctx.close(b.Vc / np.outer(sb, sb), (Vb + C) / np.outer(sb, sb), "covariance with smoothing uncertainty", rtol=1e-4, atol=1e-5)
    ctx.close(b.Vf / np.outer(sb, sb), (F @ Vb + C) / np.outer(sb, sb), "sampling covariance", rtol=1e-4, atol=1e-5)
    r = b.res
    ctx.close(r["param"], np.append(b.beta, th), "estimates in the table", rtol=1e-10)
    ctx.close(r["p"], 2 * sp.stats.t(n - b.edf).sf(np.abs(r["param"] / r["SE"])), "p values", rtol=1e-6, atol=1e-12)
    comps = b.get_smooth_comps(b.beta, ci=80)
    a.beta, a.Vc = b.beta, b.Vc
    want = a.get_smooth_comps(ci=80)
    for k in want:
        ctx.close(comps[k], want[k], f"component {k}", rtol=1e-8, atol=1e-10)


LINKS = {"LogbLink": lambda e: 1 / (np.exp(e) + 0.01), "LogLink": np.exp, "IdentityLink": lambda e: e}
LC = dicts(seed=seeds(), n=st.sampled_from([150, 90]), **{**SM, "nsm": st.sampled_from([1, 2, 0])}, ssm=st.sampled_from([1, 0, 2]), skinds=st.lists(st.sampled_from(["cr", "bs", "cc"]), min_size=2, max_size=2),
           mlink=st.sampled_from(["IdentityLink", "LogLink"]), slink=st.sampled_from(["LogbLink", "LogLink"]), w=st.sampled_from([None, "col", "array", "freq"]), sint=st.booleans())


def gauls_model(case, ctx):
    from pystatsm.pygam import gauls
    from pystatsm.pyglm import links
    if case["nsm"] + case["ssm"] == 0:
        case = dict(case, ssm=1)
    rng, df, rhs, sig, specs = setup(case)
    if not rhs:
        rhs = "1"
    if rhs == " - 1":
        rhs = "z - 1"
    n = len(df)
    v = rng.uniform(0, 1, (n, 2))
    df["v0"], df["v1"] = v.T
    sterms = [term(f"v{i}", case["skinds"][i], 6, None, case["style"]) for i in range(case["ssm"])]
    srhs = " + ".join(["1"] + sterms) if case["sint"] or not sterms else " + ".join(sterms + ["z - 1"])
    ls = -0.7 + sum((0.8 * np.sin(5 * v[:, i] + i) for i in range(case["ssm"])), np.zeros(n))
    mean = sig if case["mlink"] == "IdentityLink" else np.exp(0.4 * sig)
    sd = np.exp(ls) if case["mlink"] == "IdentityLink" else 0.2 * np.exp(ls) * mean.mean()
    df["y"] = mean + sd * rng.standard_normal(n)
    w, norm, wv = None, True, np.ones(n)
    if case["w"] == "col":
        df["wt"] = rng.uniform(0.2, 3, n)
        w, wv = "wt", df["wt"].values * n / df["wt"].sum()
    elif case["w"] == "array":
        w = rng.uniform(0.2, 3, n)
        wv = w * n / w.sum()
    elif case["w"] == "freq":
        w, norm = rng.integers(0, 3, n).astype(float), False
        wv = w
    G = lambda d, ww=w, nm=norm: gauls.GauLS(f"y ~ {rhs}", f"y ~ {srhs}", d, m_link=getattr(links, case["mlink"]), s_link=gauls.LogbLink if case["slink"] == "LogbLink" else getattr(links, case["slink"]), weights=ww, weights_normalize=nm)
    return rng, df, specs, [(f"v{i}", case["skinds"][i], 6, None) for i in range(case["ssm"])], wv, G


@P.facet("gauls", LC, quick=44, thorough=3000, shards=4, rule="a smooth in both predictors, a link or weights", cost=4.0)
def gauls(case, ctx):
    """GauLS: likelihood of a Gaussian with modelled mean and precision, its derivatives, the criterion and its derivatives"""
    rng, df, mspec, sspec, wv, G = gauls_model(case, ctx)
    mod = G(df)
    n, y = len(df), df["y"].values
    ctx.nontrivial(len(mspec) * len(sspec) > 0 or case["w"] or case["mlink"] != "IdentityLink")
    if mspec:
        check_design(ctx, mod.m, df, mspec, case, mod.m.x_varnames)
    Xm, Xs = mod.m.X, mod.s.X
    mi, si = LINKS[case["mlink"]], LINKS[case["slink"]]
    nll = lambda b: -np.sum(wv * sp.stats.norm.logpdf(y, mi(Xm @ b[mod.ixm]), 1 / si(Xs @ b[mod.ixs])))
    b0 = np.zeros(mod.nx)
    b0[mod.ixm] = np.linalg.lstsq(Xm, y if case["mlink"] == "IdentityLink" else np.log(np.maximum(y, 0.3)), rcond=None)[0]
    b0[mod.ixs] = 0.3 * np.random.default_rng(case["seed"]).standard_normal(mod.nxs)
    b0[mod.ixm] = 0.8 * b0[mod.ixm]
    sgn = -1 if case["slink"] == "LogbLink" else 1
    b0[mod.ixs[0]] += sgn * 0.5
    ctx.close(mod.loglike(b0), nll(b0), "negative log-likelihood", rtol=1e-9)
    # per-row derivatives in the predictors up to fourth order
    em, es = Xm @ b0[mod.ixm], Xs @ b0[mod.ixs]
    f = lambda a, b: wv * sp.stats.norm.logpdf(y, mi(a), 1 / si(b))
    L = mod.ll_eta_derivs(b0[mod.ixm], b0[mod.ixs])
    da = lambda h: (lambda a, b: num.deriv(lambda t: h(t, b), a, h=3e-3))
    db = lambda h: (lambda a, b: num.deriv(lambda t: h(a, t), b, h=3e-3))
    want1 = np.stack([da(f)(em, es), db(f)(em, es)], 1)
    ctx.close(L[0], want1, "first derivatives in the predictors", rtol=1e-6, atol=1e-6)

    def at(Lk):
        def h(a, b):
            bm, bs = np.linalg.lstsq(Xm, a, rcond=None)[0], np.linalg.lstsq(Xs, b, rcond=None)[0]
            return bm, bs
        return h
    # higher orders by differencing the model's own lower order along the coefficients
    dm, ds = rng.standard_normal(mod.nxm), rng.standard_normal(mod.nxs)
    um, us = Xm @ dm, Xs @ ds
    dm, ds = dm / np.abs(um).max(), ds / np.abs(us).max()
    um, us = Xm @ dm, Xs @ ds
    for k in range(3):
        lo, hi = L[k], L[k + 1]
        d1 = num.deriv(lambda t: mod.ll_eta_derivs(b0[mod.ixm] + t * dm, b0[mod.ixs])[k], 0.0, h=2e-2)
        d2 = num.deriv(lambda t: mod.ll_eta_derivs(b0[mod.ixm], b0[mod.ixs] + t * ds)[k], 0.0, h=2e-2)
        a = dict(rtol=1e-5, atol=1e-5 * max(1, np.abs(hi).max()))
        ctx.close(d1, hi[:, :-1] * um[:, None], f"order {k + 2} derivatives, mean direction", **a)
        ctx.close(d2, hi[:, 1:] * us[:, None], f"order {k + 2} derivatives, precision direction", **a)
    rho = rng.uniform(-2, 3, mod.ns)
    lam = np.exp(rho)
    Sl = mod.get_penalty_mat(lam)
    specs = mspec + sspec
    for i in range(len(specs)):
        ix = mod.ixm if i < len(mspec) else mod.ixs
        M = mod.S[i].copy()
        M[np.ix_(ix, ix)] = 0
        ctx.close(M, np.zeros_like(M), "penalties stay in their predictor")
        ctx.close(mod.S[i][np.ix_(ix, ix)], (mod.m.S[i] if i < len(mspec) else mod.s.S[i - len(mspec)]), "penalty blocks")
    sd = 0.1 / np.maximum(np.abs(np.concatenate([Xm, Xs], 1)).max(axis=0), 1e-3)
    pn = lambda b: nll(b) + b @ Sl @ b / 2
    ctx.close(mod.penalized_loglike(b0, Sl), pn(b0), "penalised objective", rtol=1e-9)
    g = num.grad(lambda z: pn(b0 + sd * z), np.zeros(mod.nx), h=1e-1)
    ctx.close(mod.grad_pll_beta(b0, Sl) * sd, g, "gradient", rtol=1e-5, atol=1e-6 * np.abs(g).max())
    Hn = num.jac(lambda z: mod.grad_pll_beta(b0 + sd * z, Sl) * sd, np.zeros(mod.nx), h=1e-1)
    ctx.close(mod.hess_pll_beta(b0, Sl) * np.outer(sd, sd), Hn, "hessian", rtol=1e-5, atol=1e-6 * np.abs(Hn).max())
    try:
        beta, it, conv = mod.outer_step(Sl)
    except np.linalg.LinAlgError:
        ctx.skip("penalised fit is not a regular minimum")
    H = mod.hess_pll_beta(beta, Sl)
    if not conv or np.linalg.eigvalsh(H)[0] < 1e-6 * np.abs(H).max() ** 0 or np.linalg.cond(H) > 1e10:
        ctx.skip("penalised fit is not a regular minimum")
    step = np.linalg.solve(H, mod.grad_pll_beta(beta, Sl))
    ctx.check(np.sqrt(step @ H @ step) < 1e-3, f"penalised fit is off by {np.sqrt(step @ H @ step)} standard errors")
    ctx.close(mod.beta_rho(rho), beta, "beta_rho", rtol=1e-10)
    hb = np.sqrt(np.diag(np.linalg.inv(H)))

    def br(r):
        Q = mod.get_penalty_mat(np.exp(r))
        b = mod.outer_step(Q, beta_init=beta.copy())[0]
        for _ in range(3):
            b = b - np.linalg.solve(mod.hess_pll_beta(b, Q), mod.grad_pll_beta(b, Q))
        return b
    beta = br(rho)
    for d in (0, -0.02, -0.01, 0.01, 0.02):
        for e in np.eye(mod.ns):
            try:
                bb, _, ok = mod.outer_step(mod.get_penalty_mat(np.exp(rho + d * e)))
            except np.linalg.LinAlgError:
                ok = False
            if not ok or np.abs((bb - br(rho + d * e)) / hb).max() > 1e-3:
                ctx.skip("penalised fit is not a regular minimum nearby")
    ctx.close(mod.grad_beta_rho(beta, lam) / hb[:, None], num.jac(br, rho, h=2e-2) / hb[:, None], "derivatives of the coefficients", rtol=1e-5, atol=1e-5)
    J2 = num.jac(lambda r: mod.grad_beta_rho(br(r), np.exp(r)), rho, h=2e-2)
    ctx.close(np.transpose(mod.hess_beta_rho(beta, lam), (2, 0, 1)) / hb[:, None, None], J2 / hb[:, None, None], "second derivatives of the coefficients", rtol=1e-5, atol=1e-5)
    dH = mod.dhess(beta, lam)
    dHn = np.moveaxis(num.jac(lambda r: mod.hess_ll_beta(br(r)), rho, h=2e-2), -1, 0)
    hh = np.sqrt(np.diag(H))
    ctx.close(dH / np.outer(hh, hh), dHn / np.outer(hh, hh), "derivatives of the hessian", rtol=1e-5, atol=1e-6)
    d2Hn = np.moveaxis(num.jac(lambda r: mod.dhess(br(r), np.exp(r)), rho, h=2e-2), -1, 0)
    ctx.close(mod.d2hess(beta, lam) / np.outer(hh, hh), d2Hn / np.outer(hh, hh), "second derivatives of the hessian", rtol=1e-5, atol=1e-6)
    rk = ranks_of(specs)
    lds = sum(logdet_plus(s, r) + r * l for s, r, l in zip(mod.S, rk, rho))
    ctx.close(mod.logdetS(rho), lds, "log determinant of the penalty", rtol=1e-7, atol=1e-6)
    ref = pn(beta) + 0.5 * np.linalg.slogdet(H)[1] - 0.5 * lds - 0.5 * (mod.nx - rk.sum()) * np.log(2 * np.pi)
    ctx.close(mod.reml(rho), ref, "marginal likelihood criterion", rtol=1e-7, atol=1e-5)
    full = lambda r: pn_r(r)

    def pn_r(r):
        Q, b = mod.get_penalty_mat(np.exp(r)), br(r)
        return mod.penalized_loglike(b, Q) + 0.5 * np.linalg.slogdet(mod.hess_pll_beta(b, Q))[1] - 0.5 * np.sum(rk * r)
    mod.beta_rho = br
    ctx.close(mod.gradient(rho), num.grad(pn_r, rho, h=2e-2), "gradient of the criterion", rtol=1e-4, atol=1e-4)
    ctx.close(mod.hessian(rho), num.jac(mod.gradient, rho, h=2e-2), "hessian of the criterion", rtol=1e-3, atol=1e-3)
    a = mod._f_grad_hess(rho)
    for got, w_, nm in zip(a, (mod.reml(rho), mod.gradient(rho), mod.hessian(rho)), ("value", "gradient", "hessian")):
        ctx.close(got, w_, f"joint {nm}", rtol=1e-7, atol=1e-7)
    # frequency weights replicate rows
    if case["w"] == "freq":
        rep = df.loc[df.index.repeat(wv.astype(int))].reset_index(drop=True)
        # same basis: evaluate the replicated likelihood at the same design rows
        idx = np.repeat(np.arange(n), wv.astype(int))
        ll = -np.sum(sp.stats.norm.logpdf(y[idx], mi(Xm[idx] @ b0[mod.ixm]), 1 / si(Xs[idx] @ b0[mod.ixs])))
        ctx.close(mod.loglike(b0), ll, "integer weights replicate", rtol=1e-9)
    elif case["w"]:
        m2 = G(df, (df["wt"].values if case["w"] == "col" else wv) * 5.0)
        ctx.close(m2.loglike(b0), mod.loglike(b0), "scale of normalised weights is immaterial", rtol=1e-9)


@P.facet("gauls_fit", LC, quick=24, thorough=1500, shards=4, rule="a smooth in both predictors, a link or weights", cost=6.0)
def gauls_fit(case, ctx):
    """GauLS.fit: optimum, tables, residuals, components"""
    rng, df, mspec, sspec, wv, G = gauls_model(case, ctx)
    mod = G(df)
    n, y = len(df), df["y"].values
    ctx.nontrivial(len(mspec) * len(sspec) > 0 or case["w"] or case["mlink"] != "IdentityLink")
    try:
        r0 = mod.reml(mod.theta.copy())
        b0 = mod.outer_step(mod.get_penalty_mat(np.exp(mod.theta)))
    except np.linalg.LinAlgError:
        ctx.skip("penalised fit is not a regular minimum at the start")
    if not b0[2] or not np.isfinite(r0):
        ctx.skip("penalised fit is not a regular minimum at the start")
    try:
        mod.fit(opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-11)))
    except np.linalg.LinAlgError:
        ctx.skip("no optimum")
    if mod.opt.status == 0 or not mod.outer_step(mod.get_penalty_mat(np.exp(mod.theta)))[2]:
        ctx.skip("no optimum")
    rho, beta = mod.theta, mod.beta
    g, Hr = mod.gradient(rho), mod.hessian(rho)
    lam = np.exp(rho)
    Sl = mod.get_penalty_mat(lam)
    H = mod.hess_ll_beta(beta)
    if np.linalg.eigvalsh(H + Sl)[0] < 1e-6 or np.linalg.cond(H + Sl) > 1e11:
        ctx.skip("penalised fit is not a regular minimum")
    hb0 = np.sqrt(np.diag(np.linalg.inv(H + Sl)))
    for d in np.concatenate([np.zeros((1, mod.ns)), 1e-3 * rng.uniform(-1, 1, (4, mod.ns))]):
        Q = mod.get_penalty_mat(np.exp(rho + d))
        try:
            b_, _, ok = mod.outer_step(Q)
        except np.linalg.LinAlgError:
            ok = False
        if not ok or np.abs((b_ - beta) / hb0).max() > 0.05 or np.abs(mod.grad_pll_beta(b_, Q) * hb0).max() > 1e-3:
            ctx.skip("no optimum")
    ctx.check(mod.reml(rho) <= r0 + 1e-6 * (1 + abs(r0)), "criterion no worse than at the start")
    inner = np.abs(rho) < 13
    ctx.check(np.abs(g[inner]).max(initial=0) < 2e-3, f"gradient at the fit {g}")
    Vb = np.linalg.inv(H + Sl)
    sb = np.sqrt(np.diag(Vb))
    F = np.linalg.solve(H + Sl, H)
    at = dict(rtol=1e-4, atol=1e-6)
    ctx.close(mod.Vb / np.outer(sb, sb), Vb / np.outer(sb, sb), "conditional covariance", **at)
    ctx.close(mod.edf, np.trace(F), "effective degrees of freedom", rtol=1e-6)
    ctx.close(mod.Vs / np.outer(sb, sb), F @ Vb / np.outer(sb, sb), "sampling covariance", **at)
    mi, si = LINKS[case["mlink"]], LINKS[case["slink"]]
    mu, tau = mi(mod.m.X @ beta[mod.ixm]), si(mod.s.X @ beta[mod.ixs])
    ctx.close(mod.mu, mu, "mean", rtol=1e-9, atol=1e-10)
    ctx.close(mod.tau, tau, "inverse standard deviation", rtol=1e-9)
    ctx.close(mod.resids, y - mu, "residuals", rtol=1e-8, atol=1e-9)
    ctx.close(mod.pearson_resids, (y - mu) * tau, "Pearson residuals", rtol=1e-8, atol=1e-9)
    ctx.close(mod.rsquared, 1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2), "R squared", rtol=1e-8, atol=1e-9)
    nll = -np.sum(wv * sp.stats.norm.logpdf(y, mu, 1 / tau))
    ctx.close(mod.ll_model, nll, "negative log-likelihood", rtol=1e-9)
    for key, (v, kind, k, lev) in zip(mod.smooths, mspec + sspec):
        ix = mod.smooths[key]["ix"]
        row = mod.res_smooths.loc[key]
        ctx.close(row["edf"], np.sum(np.diag(F)[ix]), f"edf of {key}", rtol=1e-5, atol=1e-7)
        Xk = mod.Xt[:, ix]
        if np.linalg.cond(Xk) < 1e5:
            ctx.close(row["chisq"], beta[ix] @ np.linalg.solve(Vb[np.ix_(ix, ix)], beta[ix]), f"chi-square of {key}", rtol=1e-4)
    ctx.equal(list(mod.smooths), [f"m({v})" if lev is None else f"m({v}_{lev})" for v, _, _, lev in mspec] + [f"s({v})" for v, *_ in sspec], "names of the smooths")
    if np.any(~inner) or np.linalg.eigvalsh(Hr)[0] < 1e-4:
        ctx.skip("smoothing parameter at the end of its range")
    Vp = np.linalg.inv(Hr)
    J = mod.grad_beta_rho(beta, lam)
    Vc = Vb + J @ Vp @ J.T
    ctx.close(mod.Vc / np.outer(sb, sb), Vc / np.outer(sb, sb), "covariance with smoothing uncertainty", rtol=1e-3, atol=1e-5)
    r = mod.res
    par = np.append(beta, rho)
    se = np.append(np.sqrt(np.diag(Vc)), np.sqrt(np.diag(Vp)))
    ctx.close(r["param"], par, "estimates in the table", rtol=1e-10)
    ctx.close(r["SE"] / se, np.ones(len(se)), "standard errors", rtol=1e-3)
    c = sp.stats.norm.ppf(0.975)
    ctx.close(r["CI95-"], par - c * r["SE"], "lower limits", rtol=1e-8, atol=1e-10 * np.abs(par).max())
    ctx.close(r["p"], 2 * sp.stats.t(n - mod.edf).sf(np.abs(par / r["SE"])), "p values", rtol=1e-6, atol=1e-12)
    # components on their own scale
    comps = mod.get_smooth_comps(beta, ci=90)
    z = sp.stats.norm.ppf(0.95)
    for key, (v, kind, k, lev) in zip(mod.smooths, mspec + sspec):
        ix = mod.smooths[key]["ix"]
        rows = np.ones(n, bool) if lev is None else df["g"].values == lev
        xs, f, s = np.asarray(comps[key]).T
        o = np.argsort(df[v].values[rows])
        xd, Xk = df[v].values[rows][o], mod.Xt[rows][:, ix][o]
        ins = (xd >= xs[0]) & (xd <= xs[-1])
        ctx.close(sp.interpolate.CubicSpline(xs, f)(xd[ins]), (Xk @ beta[ix])[ins], f"component {key}", rtol=1e-2, atol=3e-3 * np.abs(f).max())
        ctx.close(sp.interpolate.PchipInterpolator(xs, s)(xd[ins]), z * np.sqrt(np.sum(Xk @ Vc[np.ix_(ix, ix)] * Xk, axis=1))[ins], f"band of {key}", rtol=3e-2, atol=1e-2 * s.max())
    names = mod.m.x_varnames
    im = beta[0] if "Intercept" in names else 0.0
    js = list(mod.s.x_varnames)
    isg = beta[mod.ixs[js.index("Intercept")]] if "Intercept" in js else 0.0
    done = [v for v, _, _, lev in mspec if lev is None] + [v for v, *_ in sspec]
    for v in done:
        pts = df[v].values
        t = mod.predict_component(v, points=pts)
        em, es = np.full(n, im), np.full(n, isg)
        for key, (vv, kind, k, lev) in zip(mod.smooths, mspec + sspec):
            if vv == v and lev is None:
                ix = mod.smooths[key]["ix"]
                (em if key[0] == "m" else es).__iadd__(mod.Xt[:, ix] @ beta[ix])
        ctx.close(t["mu"], mi(em), f"predicted mean along {v}", rtol=1e-7, atol=1e-9)
        ctx.close(t["sd"], 1 / si(es), f"predicted standard deviation along {v}", rtol=1e-7)


@P.facet("logb", dicts(b=st.sampled_from([0.01, 0.1, 0.5, 0.0, 0.001]), seed=seeds()), quick=60, thorough=2000, shards=1, rule="b other than the default")
def logb(case, ctx):
    """the log-b link with any b: inverse and derivatives"""
    from pystatsm.pygam.gauls import LogbLink
    b = case["b"]
    rng = rng_of(case)
    ctx.nontrivial(b != 0.01)
    l = LogbLink(b=b)
    eta = rng.uniform(-3, 3, 20)
    mu = l.inv_link(eta)
    ctx.close(mu, 1 / (np.exp(eta) + b), "inverse link", rtol=1e-12)
    ctx.close(l.link(mu), eta, "link of the inverse", rtol=1e-8, atol=1e-8)
    ctx.close(l.dinv_link(eta), num.deriv(l.inv_link, eta, h=1e-2), "derivative of the inverse", rtol=1e-8)
    d = [l.link]
    for k in range(1, 5):
        d.append(None)
    g1 = lambda m: 1 / l.dinv_link(l.link(m))
    ctx.close(l.d2link(mu), num.deriv(g1, mu, h=1e-2 * mu * (1 - b * mu)), "second derivative of the link", rtol=1e-7, atol=1e-9)
    ctx.close(l.d3link(mu), num.deriv(l.d2link, mu, h=1e-2 * mu * (1 - b * mu)), "third derivative of the link", rtol=1e-6, atol=1e-9)
    ctx.close(l.d4link(mu), num.deriv(l.d3link, mu, h=1e-2 * mu * (1 - b * mu)), "fourth derivative of the link", rtol=1e-6, atol=1e-9)


FORM = dicts(terms=st.lists(st.sampled_from(["s(a)", "s(b, df=5)", "z", "C(g)", "s(c,kind='cc')", "1", "s(d, 6, 'bs', by=g)"]), min_size=1, max_size=5, unique=True), noint=st.booleans(),
             sep=st.sampled_from([" + ", "+", "  +  "]), tail=st.booleans())


@P.facet("formula", FORM, quick=120, thorough=3000, shards=1, rule="smooth and parametric terms together")
def formula(case, ctx):
    """the parametric part of a formula is what is left without the smooths, its intercept included"""
    import patsy
    from pystatsm.pygam.smooth_setup import get_parametric_formula, parse_smooths
    rng = np.random.default_rng(0)
    df = pd.DataFrame({c: rng.standard_normal(30) for c in "abcdyz"})
    df["g"] = np.resize(["u", "v"], 30)
    terms = case["terms"]
    par = [t for t in terms if not t.startswith("s(")]
    ctx.nontrivial(0 < len(par) < len(terms))
    f = "y" + (" ~ " if case["tail"] else "~") + case["sep"].join(terms) + (" - 1" if case["noint"] else "")
    if case["noint"] and "1" in par:
        ctx.skip("intercept added and removed")
    got = patsy.ModelDesc.from_formula(get_parametric_formula(f))
    want = patsy.ModelDesc.from_formula("y ~ " + (" + ".join(par) or "1") + (" - 1" if case["noint"] else ""))
    ctx.equal(sorted(t.name() for t in got.rhs_termlist), sorted(t.name() for t in want.rhs_termlist), f"terms of {f!r}")
    ctx.equal([t.name() for t in got.lhs_termlist], ["y"], "response")
    sm = parse_smooths(f, df)
    spec = {"s(a)": ("a", 10, "cr", False), "s(b, df=5)": ("b", 5, "cr", False), "s(c,kind='cc')": ("c", 10, "cc", False), "s(d, 6, 'bs', by=g)": ("d", 6, "bs", True)}
    ctx.equal(sorted(sm), sorted(spec[t][0] for t in terms if t in spec), "smoothed variables")
    for t in terms:
        if t in spec:
            v, k, kind, by = spec[t]
            ctx.equal((sm[v]["df"], sm[v]["kind"], sm[v]["by"] is not None), (k, kind, by), f"arguments of {t}")
            ctx.close(sm[v]["x"], df[v].values, f"variable of {t}")
            if by:
                ctx.close(sm[v]["by"]["by_vals"], np.stack([(df["g"] == l).values for l in sm[v]["by"]["by_cats"]], 1).astype(float), "by indicators")
