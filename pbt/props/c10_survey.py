"""C10: complex-survey variance estimation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Property, rng_of, seeds, dicts
from .. import num

P = Property("C10", "Survey designs give the stratified-cluster variance of totals and estimators")
P.assumptions = ["numeric stratum and PSU labels"]


def M():
    from pystatsm.utilities.complexdesign import sample_design, replication, population
    return sample_design, replication, population


def make(case, rng):
    rows = []
    for h, psus in enumerate(case["strata"]):
        for j, m in enumerate(psus):
            for _ in range(m):
                rows.append((h * case["gap"] - 2, j * 3 + (0 if case["nested"] else 100 * h)))
    df = pd.DataFrame(rows, columns=["h", "j"])
    df["x"], df["w"] = rng.standard_normal(len(df)), rng.uniform(0.3, 4, len(df))
    df["y"] = 1 + 0.5 * df["x"] + rng.standard_normal(len(df)) + 0.3 * df["j"] % 2
    df["yb"] = (rng.random(len(df)) < 0.5).astype(float)
    df["c"] = rng.integers(0, 4, len(df)).astype(float)
    df["id"] = np.arange(len(df))
    return df


def meat(U, h, j, fpc=None, pool=True):
    """variance of the total from the definition, lonely strata pooled (aggregate) or dropped"""
    p = U.shape[1]
    key = {}
    for i in range(len(U)):
        key.setdefault(h[i], {}).setdefault(j[i], np.zeros(p))
        key[h[i]][j[i]] = key[h[i]][j[i]] + U[i]
    groups = [list(v.values()) for _, v in sorted(key.items())]
    if pool:
        lone = [g[0] for g in groups if len(g) == 1]
        groups = [g for g in groups if len(g) > 1] + ([lone] if lone else [])
    V = np.zeros((p, p))
    for t, g in enumerate(groups):
        g, n = np.array(g), len(g)
        if n > 1:
            f = 0.0 if fpc is None else fpc[t]
            c = g - g.mean(0)
            V += (1 - f) * n / (n - 1) * c.T @ c
    return V, len(groups)


DES = dict(strata=st.lists(st.lists(st.integers(1, 4), min_size=1, max_size=4), min_size=1, max_size=5), gap=st.integers(1, 3), nested=st.booleans(), seed=seeds())


@P.facet("meat", dicts(p=st.integers(1, 3), policy=st.sampled_from(["aggregate", "none", "error"]), fpc=st.booleans(), weight=st.booleans(), **DES), quick=500,
         rule="two or more strata, one with several PSUs of several rows")
def meat_facet(case, ctx):
    sd, _, _ = M()
    rng = rng_of(case)
    df = make(case, rng)
    n, p = len(df), case["p"]
    lonely = sum(len(s) == 1 for s in case["strata"])
    ctx.label(f"lonely={min(lonely, 3)}")
    ctx.nontrivial(len(case["strata"]) >= 2 and any(len(s) > 1 and max(s) > 1 for s in case["strata"]))
    perm = rng.permutation(n)
    dfp = df.iloc[perm].reset_index(drop=True)
    before = dfp.copy()
    kw = dict(strata="h", psuind="j", weight="w" if case["weight"] else None, singleton=case["policy"])
    if case["policy"] == "error" and lonely:
        ctx.raises(ValueError, lambda: sd.SampleDesign(dfp, **kw), "singleton='error' with a lonely PSU")
        return
    pool = case["policy"] == "aggregate"
    U0 = rng.standard_normal((n, p)) + 1
    fpc = None
    if case["fpc"]:
        fpc = rng.uniform(0, 0.9, meat(U0, df["h"].values, df["j"].values, None, pool)[1])
    D = sd.SampleDesign(dfp, fpc=fpc, **kw)
    ctx.check(dfp.equals(before), "the caller's data frame is not modified")
    ctx.equal(np.sort(D.df["id"].values), np.arange(n), "the design keeps every row once")
    U = U0[D.df["id"].values]
    want, nstr = meat(U0, df["h"].values, df["j"].values, fpc, pool)
    ctx.close(D.meat(U), want, "meat", rtol=1e-10, atol=1e-10)
    ctx.check(D.n == n and D.n_str == nstr and D.n_grp == sum(len(s) for s in case["strata"]), "design sizes")
    ctx.equal(D.w, D.df["w"].values if case["weight"] else np.ones(n), "weights follow the rows")
    D2 = sd.SampleDesign(df, fpc=fpc, **kw)
    ctx.close(D2.meat(U0[D2.df["id"].values]), D.meat(U), "row order of the input does not matter", rtol=1e-10, atol=1e-10)
    m = rng.random(n) < 0.5
    S = D.subset(m)
    ctx.equal(S.w, np.where(m, D.w, 0), "subset zeroes weights outside the domain")
    ctx.equal(D.w, D.df["w"].values if case["weight"] else np.ones(n), "subset leaves its parent alone")
    ctx.close(S.meat(U * m[:, None]), meat(U0 * m[np.argsort(D.df["id"].values)][:, None], df["h"].values, df["j"].values, fpc, pool)[0],
              "domain meat keeps the full design structure", rtol=1e-10, atol=1e-10)
    A = num.spd(rng, p)
    ctx.close(sd.design_sandwich(A, U, D), A @ want @ A, "design_sandwich", rtol=1e-9, atol=1e-9)
    ctx.raises(ValueError, lambda: D.meat(U[:-1]), "meat of misaligned scores")
    ctx.raises(ValueError, lambda: D.subset(m[:-1]), "subset with a misaligned mask")
    if fpc is not None:
        ctx.raises(ValueError, lambda: sd.SampleDesign(df, fpc=np.r_[fpc, 0.1], **kw), "fpc of the wrong length")


@P.facet("default_structures", dicts(p=st.integers(1, 3), which=st.sampled_from(["srs", "strata", "psu"]), **DES), quick=200, rule="n >= 5")
def defaults(case, ctx):
    sd, _, _ = M()
    rng = rng_of(case)
    df = make(case, rng).sample(frac=1.0, random_state=1).reset_index(drop=True)
    n = len(df)
    ctx.nontrivial(n >= 5)
    w = case["which"]
    df["j"] = df["h"] * 1000 + df["j"]
    D = sd.SampleDesign(df, strata="h" if w == "strata" else None, psuind="j" if w == "psu" else None)
    U = rng.standard_normal((n, case["p"]))
    order = D.df["id"].values
    h = D.df["h"].values if w == "strata" else np.zeros(n)
    ids = df.set_index("id").loc[order]
    h = ids["h"].values if w == "strata" else np.zeros(n)
    j = ids["j"].values if w == "psu" else np.arange(n)
    ctx.close(D.meat(U), meat(U, h, j)[0], f"meat of a {w} design", rtol=1e-10, atol=1e-10)
    if w == "srs" and n > 1:
        c = U - U.mean(0)
        ctx.close(D.meat(U), n / (n - 1) * c.T @ c, "simple random sampling", rtol=1e-10, atol=1e-10)


@P.facet("model_adapters", dicts(kind=st.sampled_from(["wls", "gaussian", "binomial", "poisson"]), scale=st.floats(0.2, 5), **DES), quick=80, cost=3, rule="at least 12 rows")
def adapters(case, ctx):
    sd, rep, _ = M()
    rng = rng_of(case)
    case = dict(case, strata=[list(s) + [3, 4, 2] for s in case["strata"]] + [[3, 3, 4]])
    df = make(case, rng)
    n = len(df)
    D = sd.SampleDesign(df, strata="h", psuind="j", weight="w")
    k = case["kind"]
    ctx.label(k)
    ctx.nontrivial(n >= 12)
    X = np.c_[np.ones(n), D.df["x"].values]
    w = D.df["w"].values
    if k == "wls":
        y = D.df["y"].values
        fit = rep.WLSAdapter("y ~ x").fit(D)
        b = np.linalg.solve(X.T @ (X * w[:, None]), X.T @ (w * y))
        sc, br = X * (w * (y - X @ b))[:, None], np.linalg.inv(X.T @ (X * w[:, None]))
        tol = 1e-8
    else:
        from pystatsm.pyglm2 import families as F
        yn = {"gaussian": "y", "binomial": "yb", "poisson": "c"}[k]
        fam = {"gaussian": F.Gaussian, "binomial": F.Binomial, "poisson": F.Poisson}[k]
        y = D.df[yn].values
        fit = rep.GLMAdapter(f"{yn} ~ x", family=fam).fit(D)
        b = np.asarray(fit.params)[:2]
        mu = {"gaussian": X @ b, "binomial": 1 / (1 + np.exp(-X @ b)), "poisson": np.exp(X @ b)}[k]
        sc = X * (w * (y - mu))[:, None]
        ctx.close(sc.sum(0), np.zeros(2), "weighted estimating equations solved", rtol=0, atol=1e-4 * n * w.max() * (1 + np.abs(y).max()))
        v = {"gaussian": np.ones(n), "binomial": mu * (1 - mu), "poisson": mu}[k]
        br = np.linalg.inv(X.T @ (X * (w * v)[:, None]))
        tol = 1e-5
    V = sd.design_sandwich(fit.bread, fit.score_i, D)[:2, :2]
    want = br @ meat(sc, D.df["h"].values, D.df["j"].values)[0] @ br
    ctx.close(np.asarray(fit.params)[:2], b, "params", rtol=1e-7)
    ctx.close(V, want, f"design-based covariance of the coefficients ({k})", rtol=1e-3 if k != "wls" else tol, atol=1e-9)


@P.facet("replication_summary", dicts(p=st.integers(2, 4), n_rep=st.integers(3, 12), binom=st.booleans(), icc=st.booleans(), seed=seeds()), quick=40, cost=2, rule="n_rep >= 4")
def repl(case, ctx):
    sd, rep, pop = M()
    rng, n_rep = rng_of(case), case["n_rep"]
    ctx.nontrivial(n_rep >= 4)
    Pn = (pop.BinomialPopulation if case["binom"] else pop.LinearPopulation)("y", ["x1", "x2"], "1 + x1 + x2", np.array([0.2, 0.5, -0.4]), 3, 4, 5,
                                                                           intra_cluster_var=0.3 if case["icc"] else 0.0)
    df = Pn.draw(np.random.default_rng(case["seed"]))
    ctx.check(len(df) == 60 and df.groupby("strata").psu.nunique().tolist() == [4] * 3 and set(df.groupby("psu").size()) == {5}, "population draw structure")
    fac = lambda d: sd.SampleDesign(d, strata="strata", psuind="psu", weight="w")
    res = rep.replicate(Pn, fac, rep.WLSAdapter("y ~ x1 + x2"), n_rep, rng=np.random.default_rng(case["seed"]), progress=False)
    g = np.random.default_rng(case["seed"])
    ps, Vs = [], []
    for _ in range(n_rep):
        d = Pn.draw(g)
        X = np.c_[np.ones(60), d["x1"], d["x2"]]
        y = d["y"].values
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        A = np.linalg.inv(X.T @ X)
        ps.append(b)
        Vs.append(A @ meat(X * (y - X @ b)[:, None], d["strata"].values, d["psu"].values)[0] @ A)
    ps, Vs = np.array(ps), np.array(Vs)
    ctx.close(res.params, ps, "replicate estimates", rtol=1e-8)
    ctx.close(res.Vs, Vs, "replicate covariances", rtol=1e-8)
    ctx.close(res.bias(), ps.mean(0) - [0.2, 0.5, -0.4], "bias")
    ctx.close(res.empirical_cov(), np.cov(ps.T), "empirical_cov")
    ctx.close(res.se_emp(), ps.std(0, ddof=1), "se_emp")
    ctx.close(res.se_ana(), np.sqrt(np.diag(Vs.mean(0))), "se_ana")
    z = (ps - [0.2, 0.5, -0.4]) / np.sqrt(np.array([np.diag(v) for v in Vs]))
    ctx.close(res.z_scores(), z, "z_scores", rtol=1e-7)
    ctx.close(res.coverage(0.1), (np.abs(z) < 1.6448536269514722).mean(0), "coverage")
    ctx.check(res.summary().shape == (3, 7), "summary shape")
