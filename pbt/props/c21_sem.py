"""C21: structural equation models (pysem.sem, pysem.sem2, pysem2)."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats
from hypothesis import strategies as st
from ..core import Property, dicts, seeds, rng_of
from .. import num

P = Property("C21", "Structural equation models")
P.assumptions = ["models are recursive and, where fitted, identified; sample covariance matrices are positive definite"]


def vech(A):
    i, j = np.triu_indices(A.shape[0])
    return A[j, i]


# ---------------------------------------------------------------------------------------------
# A generated model, kept as RAM (paths, covariances, means over all variables): the reference.
# ---------------------------------------------------------------------------------------------
class Spec:
    """params: {(lhs, rel, rhs): label or None}, fixed: {(lhs, rel, rhs): value} (explicit ones)"""

    def __init__(self, case, identified=False, opts=None):
        rng = self.rng = rng_of(case)
        self.case = case
        self.opts = dict(fix_lv_var=False, lvx_cov=True, y_cov=True, fix_lv_mean=True, fix_first={}, firstlab=False)
        self.opts.update(opts or {})
        nf = case["nf"]
        # names that a plain string sort orders differently from a numeric one
        pool = {"num": [f"x{i}" for i in (1, 2, 10, 3, 11, 20, 4, 5, 12, 6, 7, 8)], "alpha": list("qdtbwkazmrsn"),
                "mixed": ["x2", "a", "x10", "y1", "x1", "b", "y10", "y2", "c3", "z", "x3", "w"]}[case["names"]]
        pool = [str(v) for v in rng.permutation(pool)]
        fac = [str(v) for v in rng.permutation([f"f{i}" for i in (1, 2, 10)] if case["names"] != "alpha" else ["G", "ll", "h"])[:nf]]
        rows = []      # (lhs, rel, rhs, modifier or None)
        self.nob, self.obs = list(fac), []
        ind = {}
        for f in fac:
            k = 3 if identified else int(rng.integers(2, 4))
            ind[f] = [pool.pop() for _ in range(k)]
            self.obs += ind[f]
            for x in ind[f]:
                rows.append([f, "=~", x, None])
        if nf > 1 and case["cross"]:
            rows.append([fac[0], "=~", ind[fac[1]][-1], None])
        self.lox = []
        zs = [pool.pop() for _ in range(case["nz"])] if (nf or case["ny"]) else []
        ys = [pool.pop() for _ in range(min(case["ny"], len(pool)))]
        for i in range(1, nf):
            for j in range(i):
                if rng.random() < 0.6:
                    rows.append([fac[i], "~", fac[j], None])
        used = set()
        for z in zs:
            targets = [f for f in fac if rng.random() < 0.5] + [y for y in ys if rng.random() < 0.5]
            if not targets:
                targets = [(fac + ys)[int(rng.integers(0, len(fac) + len(ys)))]]
            for t in targets:
                rows.append([t, "~", z, None])
        for i, y in enumerate(ys):
            preds = [f for f in fac if rng.random() < 0.4] + [w for w in ys[:i] if rng.random() < 0.5]
            for t in preds:
                rows.append([y, "~", t, None])
            if not any(r[0] == y and r[1] == "~" for r in rows):
                rows.append([y, "~", (fac + zs)[0] if (fac + zs) else ys[0], None])
                if rows[-1][2] == y:
                    rows.pop()
        ys = [y for y in ys if any(r[1] == "~" and y in (r[0], r[2]) for r in rows)]
        self.obs += zs + ys
        if not fac and not any(r[1] == "~" for r in rows):
            self.bad = True
            return
        self.bad = False
        # second order factor
        if case["second"] and nf == 3 and not any(r[1] == "~" and r[0] in fac for r in rows):
            self.nob.append("hh")
            for f in fac:
                rows.append(["hh", "=~", f, None])
            fac_all = fac + ["hh"]
        elif case["second"] and nf == 3:
            rows = [r for r in rows if not (r[1] == "~" and r[0] in fac)]
            for z in list(zs):
                if not any(r[1] == "~" and z in (r[0], r[2]) for r in rows):
                    self.obs.remove(z)
                    zs.remove(z)
            self.nob.append("hh")
            for f in fac:
                rows.append(["hh", "=~", f, None])
        # residual covariances between indicators of different factors
        allind = [x for f in fac for x in ind[f]]
        if case["rescov"] and nf > 1:
            a, b = ind[fac[0]][0], ind[fac[1]][0]
            rows.append([a, "~~", b, None] if rng.random() < 0.5 else [b, "~~", a, None])
        # intercepts
        if case["means"] != "none":
            for x in allind:
                if rng.random() < 0.5:
                    rows.append([x, "~", "1", None])
        if case["means"] == "mixed":
            for f in fac[:1]:
                x = ind[f][0]
                rows = [r for r in rows if not (r[0] == x and r[1] == "~" and r[2] == "1")]
                rows.append([x, "~", "1", "0"])
                rows.append([f, "~", "1", None])
        if case["selfvar"]:
            for v in (fac + allind)[:2]:
                rows.append([v, "~~", v, None])
        # modifiers: fixed values and equality labels (within one matrix)
        mods = case["mods"]
        load = [r for r in rows if r[1] == "=~"]
        if mods in ("label", "both"):
            for f in fac:
                rf = [r for r in load if r[0] == f and r[2] in ind[f]]
                if len(rf) > 2 and rng.random() < 0.8:
                    for r in rf[1:]:
                        r[3] = f"a{f}"
            iv = [r for r in rows if r[1] == "~" and r[2] == "1" and r[3] is None and r[0] in allind]
            if len(iv) > 1:
                iv[-1][3] = iv[-2][3] = "mm"
            if case["vlabel"] and len(allind) >= 2:
                have = {(r[0], r[2]) for r in rows if r[1] == "~~"}
                for x in allind[-2:]:
                    if (x, x) in have:
                        next(r for r in rows if r[1] == "~~" and r[0] == r[2] == x)[3] = "vv"
                    else:
                        rows.append([x, "~~", x, "vv"])
            rg = [r for r in rows if r[1] == "~" and r[2] != "1" and r[3] is None]
            if len(rg) > 1 and rng.random() < 0.5:
                rg[0][3] = rg[-1][3] = "bb"
        if mods in ("fixed", "both"):
            for f in fac:
                rf = [r for r in load if r[0] == f]
                u = rng.random()
                if u < 0.4:
                    rf[-1][3] = "1" if rf[-1][3] is None else rf[-1][3]
                elif u < 0.7 and rf[0][3] is None:
                    rf[0][3] = "0.75"
            rg = [r for r in rows if r[1] == "~" and r[2] != "1" and r[3] is None]
            if len(rg) > 2:
                rg[0][3] = "-0.5"
        if self.opts["firstlab"] and fac:
            mine = [r for r in rows if r[1] == "=~" and r[0] == fac[0]]
            for r in mine:
                r[3] = None
            mine[0][3] = mine[1][3] = "first"
        self.rows, self.fac, self.ind, self.ys, self.zs = rows, fac, ind, ys, zs
        self._complete()

    def _complete(self):
        rows = self.rows
        reg = [r for r in rows if r[1] == "~" and r[2] != "1"]
        end, exo = {r[0] for r in reg}, {r[2] for r in reg}
        nob = {r[0] for r in rows if r[1] == "=~"}
        indic = {r[2] for r in rows if r[1] == "=~"}
        names = {r[0] for r in rows} | {r[2] for r in rows if r[2] != "1"}
        self.names = sorted(names)
        self.obs = [v for v in self.obs if v in names]
        lox = {v for v in names if v in exo and v not in nob | end | indic}
        self.lox = sorted(lox)
        free, fixed = {}, {}
        for l, r, h, m in rows:
            if m is None or not _isnum(m):
                free[(l, r, h)] = m
            else:
                fixed[(l, r, h)] = float(m)
        for f in nob:
            mine = [(l, r, h) for l, r, h, m in rows if r == "=~" and l == f]
            if not any(k in fixed for k in mine) and self.opts["fix_first"].get(f, True):
                lab = free.pop(mine[0])
                fixed[mine[0]] = 1.0
                for k in [k for k, v in free.items() if lab is not None and v == lab]:
                    free.pop(k)
                    fixed[k] = 1.0
        have = {frozenset((l, h)) for l, r, h, m in rows if r == "~~"}
        for v in names:
            if frozenset((v,)) not in have and v not in lox:
                if v in nob and self.opts["fix_lv_var"]:
                    fixed[(v, "~~", v)] = 1.0
                else:
                    free[(v, "~~", v)] = None
        for on, grp in ((self.opts["lvx_cov"], sorted(nob - indic - end)), (self.opts["y_cov"], sorted(end - exo))):
            if not on:
                continue
            for i, u in enumerate(grp):
                for v in grp[:i]:
                    if frozenset((u, v)) not in have:
                        free[(u, "~~", v)] = None
        havem = {l for l, r, h, m in rows if h == "1"}
        for v in names - havem - lox:
            if v in nob and self.opts["fix_lv_mean"]:
                fixed[(v, "~", "1")] = 0.0
            else:
                free[(v, "~", "1")] = None
        self.free, self.fixed = free, fixed

    def formula(self, jitter=True):
        rng, rows = self.rng, [list(r) for r in self.rows]
        groups = {}
        for l, r, h, m in rows:
            groups.setdefault((l, r), []).append((f"{m}*{h}" if rng.random() < 0.5 else f"{m} * {h}") if m is not None else h)
        lines = []
        for (l, r), rhs in groups.items():
            if self.case["split"] and len(rhs) > 1 and r != "=~":
                lines += [f"{l} {r} {x}" for x in rhs]
            else:
                sep = " + " if rng.random() < 0.6 else "+"
                lines.append(f"{l}{' ' if rng.random()<0.5 else ''}{r} {sep.join(rhs)}")
        lines = list(np.array(lines, dtype=object)[rng.permutation(len(lines))])
        if self.case["comments"]:
            lines = ["# measurement =~ part"] + [("    " + s + ("   # note: a ~ b" if rng.random() < 0.4 else "")) for s in lines] + ["", "   "]
        return "\n".join(lines)

    def name(self, key, label, g, shared):
        """name of the free parameter `key` in group g, as the table labels it"""
        l, r, h = key
        base = label if label is not None else None
        s = shared[self.mat(key)]
        if base is not None:
            return [base if s else f"{g} {base}"]
        c = [f"{l} {r} {h}"] + ([f"{h} {r} {l}"] if r == "~~" and l != h else [])
        return c if s else [f"{g} {x}" for x in c]

    def mat(self, key):
        l, r, h = key
        reg = {x for a, b, c, _ in self.rows if b == "~" and c != "1" for x in (a, c)}
        nob = {a for a, b, _, _ in self.rows if b == "=~"}
        lav = reg | nob
        obs = set(self.names) - nob
        if r == "=~":
            return 1 if h in lav else 0
        if r == "~~":
            return 2 if l in lav else 3
        if h == "1":
            return 5 if l in lav else 4
        return 1

    def ram(self, values, S, mean):
        """implied covariance and mean of self.names; values: {key: number}; S, mean: sample moments of exogenous variables"""
        nm = self.names
        ix = {v: i for i, v in enumerate(nm)}
        k = len(nm)
        A, C, m = np.zeros((k, k)), np.zeros((k, k)), np.zeros(k)
        for (l, r, h), v in list(self.fixed.items()) + list(values.items()):
            if r == "=~":
                A[ix[h], ix[l]] += v
            elif r == "~~":
                C[ix[l], ix[h]] = C[ix[h], ix[l]] = v
            elif h == "1":
                m[ix[l]] = v
            else:
                A[ix[l], ix[h]] += v
        for i, u in enumerate(self.lox):
            m[ix[u]] = mean[u]
            for v in self.lox:
                C[ix[u], ix[v]] = S.loc[u, v]
        T = np.linalg.inv(np.eye(k) - A)
        Sig, mu = T @ C @ T.T, T @ m
        return pd.DataFrame(Sig, nm, nm), pd.Series(mu, nm)


def _isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def build(case, ctx, identified=False, opts=None):
    sp_ = Spec(case, identified, opts)
    if sp_.bad:
        ctx.skip("no relation drawn")
    rng = sp_.rng
    G = case["groups"]
    n = [int(rng.integers(40, 90)) for _ in range(G)]
    shared = [True] * 6 if case["shared"] == "all" else [False] * 6 if case["shared"] == "none" else [bool(b) for b in rng.random(6) < 0.5]
    truth = [true_values(sp_, rng, g, shared, cache) for cache in [{}] for g in range(G)]
    frames = []
    for g in range(G):
        k = len(sp_.lox)
        # exogenous moments come from the data, so data are drawn from the path equations
        Xl = pd.DataFrame(rng.standard_normal((n[g], k)) @ np.linalg.cholesky(num.spd(rng, k)).T + 0.5 * g if k else np.zeros((n[g], 0)), columns=sp_.lox)
        Sl = Xl.cov(ddof=0) if k else pd.DataFrame()
        Sig, mu = sp_.ram(truth[g], Sl, Xl.mean() if k else {})
        Sv, mv = Sig.loc[sp_.obs, sp_.obs].values, mu[sp_.obs].values
        w, V = np.linalg.eigh(Sv)
        if w[0] < 1e-3:
            ctx.skip("drawn parameters give no proper covariance")
        Z = rng.standard_normal((n[g], len(sp_.obs)))
        df = pd.DataFrame(Z @ np.linalg.cholesky(Sv).T + mv, columns=sp_.obs)
        frames.append(df)
    D = pd.concat(frames, ignore_index=True)
    gv = np.repeat(np.arange(G), n)
    o = rng.permutation(len(D)) if case["shuffle"] else np.arange(len(D))
    D, gv = D.iloc[o].reset_index(drop=True), gv[o]
    labs = {"int": np.array([3, 7, 11]), "01": np.array([0, 1, 2]), "str": np.array(["ga", "gb", "gc"], dtype=object), "12": np.array([1, 2, 3])}[case["glab"]]
    if case["extra"]:
        D["extra"] = 5 + 3 * rng.standard_normal(len(D))
    D = D[list(rng.permutation(D.columns))]
    if case["index"]:
        D.index = rng.permutation(len(D)) * 3 + 7
    group = None
    if G > 1 or case["g1"]:
        D["school"] = labs[gv]
        group = "school"
    return sp_, D, gv, group, shared, truth


def true_values(s, rng, g, shared, cache):
    out = {}
    for key, lab in s.free.items():
        nm = s.name(key, lab, g, shared)[0]
        if nm not in cache:
            l, r, h = key
            cache[nm] = (rng.uniform(0.6, 1.2) if r == "=~" else rng.uniform(0.5, 1.2) if r == "~~" and l == h else rng.uniform(-0.15, 0.15) if r == "~~"
                         else rng.normal() if h == "1" else rng.uniform(-0.7, 0.7))
        out[key] = cache[nm]
    return out


class Api:
    """one interface over pysem2.sem.SEM and pysem.sem2.SEM"""

    def __init__(self, which, formula, D, group, shared, default_shared):
        self.which = which
        if which == "pysem2":
            from pystatsm.pysem2.sem import SEM
            kws = dict(group_col=group) if group else {}
            if not default_shared:
                kws["shared"] = shared
            self.m = SEM(formula, D, model_spec_kws=kws) if kws else SEM(formula, D)
            self.func = self.m.fit_func
        else:
            from pystatsm.pysem.sem2 import SEM
            self.m = SEM(formula, D, group_col=group, group_kws=None if default_shared else dict(shared=shared))
            self.func = self.m.func


def values(s, m, theta, ctx, g, shared):
    """{key: value} of group g, through the parameter names the model shows"""
    names = [str(v) for v in m.theta_names]
    look = dict(zip(names, theta))
    out = {}
    for key, lab in s.free.items():
        hit = [nm for nm in s.name(key, lab, g, shared) if nm in look]
        ctx.check(len(hit) == 1, f"free parameter {key} (label {lab}, group {g}) is not among the model's parameters {names}")
        out[key] = look[hit[0]]
    return out


def expected_names(s, G, shared):
    out = set()
    for g in range(G):
        for key, lab in s.free.items():
            out.add(s.name(key, lab, g, shared)[0])
    return len(out)


CASE = dict(seed=seeds(), which=st.sampled_from(["pysem2", "pysem2", "sem2"]), nf=st.sampled_from([2, 1, 3, 0]), nz=st.sampled_from([0, 1, 2]), ny=st.sampled_from([0, 1, 2]),
            names=st.sampled_from(["num", "alpha", "mixed"]), cross=st.booleans(), second=st.booleans(), rescov=st.booleans(),
            means=st.sampled_from(["none", "free", "mixed"]), selfvar=st.booleans(), mods=st.sampled_from(["none", "label", "fixed", "both"]), vlabel=st.booleans(),
            split=st.booleans(), comments=st.booleans(), groups=st.sampled_from([1, 2, 3]), g1=st.booleans(), shared=st.sampled_from(["all", "none", "some"]),
            shuffle=st.booleans(), glab=st.sampled_from(["01", "int", "str", "12"]), extra=st.booleans(), index=st.booleans())
MC = dicts(**CASE)


def prepare(case, ctx, identified=False):
    s, D, gv, group, shared, truth = build(case, ctx, identified)
    f = s.formula()
    api = Api(case["which"], f, D, group, shared, case["shared"] == "all")
    return s, D, gv, shared, truth, f, api


def theta_of(s, m, truth, ctx, shared, rng, jit=0.1):
    """a parameter vector near the generating values"""
    names = [str(v) for v in m.theta_names]
    th = np.asarray(m.theta, dtype=float).copy()
    for g in range(len(truth)):
        for key, lab in s.free.items():
            for nm in s.name(key, lab, g, shared):
                if nm in names:
                    th[names.index(nm)] = truth[g][key]
    return th + jit * rng.uniform(-1, 1, len(th)) * np.maximum(np.abs(th), 0.1)


def gauss_nll(Y, Sig, mu):
    return -sp.stats.multivariate_normal.logpdf(Y, mu, Sig).sum()


@P.facet("moments", MC, quick=240, thorough=20000, shards=4, rule="formula with a regression or a modifier, or several groups")
def moments(case, ctx):
    s, D, gv, shared, truth, f, api = prepare(case, ctx)
    m, G, rng = api.m, len(truth), s.rng
    ctx.nontrivial(case["mods"] != "none" or G > 1 or bool(s.ys) or bool(s.zs))
    ctx.label(api.which)
    obs = list(m.obs_order)
    ctx.equal(sorted(obs), sorted(s.obs), "observed variables")
    ctx.equal(len(m.theta), expected_names(s, G, shared), f"number of free parameters of {f!r}")
    ctx.equal(len(set(map(str, m.theta_names))), len(m.theta), "parameter names repeat")
    th = theta_of(s, m, truth, ctx, shared, rng)
    Sg, mg = m.implied_cov_mean(th)
    nll = []
    sat = 0.0
    stats_ = m.implied_sample_stats(th)
    for g in range(G):
        Dg = D.loc[gv == g, s.obs]
        v = values(s, m, th, ctx, g, shared)
        Sig, mu = s.ram(v, Dg.cov(ddof=0), Dg.mean())
        Sig, mu = Sig.loc[obs, obs].values, mu[obs].values
        ctx.close(Sg[g], Sig, f"implied covariance of group {g} for {f!r}", rtol=1e-9, atol=1e-10)
        ctx.close(mg[g], mu, f"implied mean of group {g} for {f!r}", rtol=1e-9, atol=1e-10)
        ctx.close(stats_[g], np.r_[vech(Sig), mu], "implied_sample_stats", rtol=1e-9, atol=1e-10)
        if np.linalg.eigvalsh(Sig)[0] < 1e-4:
            ctx.skip("implied covariance not positive definite")
        Y = Dg[obs].values
        nll.append(gauss_nll(Y, Sig, mu))
        sat += gauss_nll(Y, Y.T @ Y / len(Y) - np.outer(Y.mean(0), Y.mean(0)), Y.mean(0))
    ctx.close(api.func(th), np.sum(nll) - sat, "fit function (likelihood ratio against the saturated model)", rtol=1e-8, atol=1e-7)
    ctx.close(np.sum(api.func(th, per_group=True)), api.func(th), "fit function by group", rtol=1e-9, atol=1e-8)
    ctx.close(m.loglike(th), np.sum(nll), "loglike", rtol=1e-9)
    ctx.close(m.loglike(th, level="group"), nll, "loglike by group", rtol=1e-9)
    li = m.loglike(th, level="observation")
    ctx.close(li[np.flatnonzero(gv == G - 1)[0]], gauss_nll(D.loc[gv == G - 1, obs].values[:1], Sig, mu), "loglike of one observation", rtol=1e-9, atol=1e-9)
    # the start values: fixed parameters and bounds are honoured
    b = dict(zip(map(str, m.theta_names), m.bounds if case["which"] == "pysem2" else m.bounds_theta))
    for key, lab in s.free.items():
        nm = [x for x in s.name(key, lab, 0, shared) if x in b][0]
        lo = b[nm][0]
        if key[1] == "~~" and key[0] == key[2]:
            ctx.check(lo == 0, f"variance {nm} has lower bound {lo}")
        elif lab is None:
            ctx.check(lo is None or np.isnan(lo) or lo == -np.inf, f"{nm} has lower bound {lo}")


@P.facet("derivatives", MC, quick=36, thorough=4000, shards=4, rule="several groups or labels", cost=2.0)
def derivatives(case, ctx):
    s, D, gv, shared, truth, f, api = prepare(case, ctx)
    m, G, rng = api.m, len(truth), s.rng
    ctx.nontrivial(G > 1 or case["mods"] in ("label", "both"))
    th = theta_of(s, m, truth, ctx, shared, rng)
    for Sig in m.implied_cov_mean(th)[0]:
        if np.linalg.eigvalsh(Sig)[0] < 0.02:
            ctx.skip("implied covariance nearly singular")
    g = m.gradient(th)
    ng = num.grad(api.func, th, h=1e-3)
    sc = max(1.0, np.abs(ng).max())
    ctx.close(g, ng, "gradient", rtol=1e-6, atol=1e-6 * sc)
    ctx.close(m.gradient(th, method=1), g, "gradient, method 1", rtol=1e-8, atol=1e-8 * sc)
    gg = m.gradient(th, per_group=True)
    ctx.close(gg, num.jac(lambda t: api.func(t, per_group=True), th, h=1e-3), "gradient by group", rtol=1e-6, atol=1e-6 * sc)
    go = m.gradient_obs(th)
    ctx.equal(go.shape, (len(D), len(th)), "shape of gradient_obs")
    for i in range(min(2, G)):
        r = np.flatnonzero(gv == i)[-1]
        nr = num.grad(lambda t: m.loglike(t, level="observation")[r], th, h=1e-3)
        ctx.close(go[r], nr, f"score of observation {r}", rtol=1e-6, atol=1e-6 * max(1, np.abs(nr).max()))
    ctx.close(go.sum(0), g, "sum of the scores", rtol=1e-7, atol=1e-7 * sc)
    H = m.hessian(th)
    nH = num.jac(m.gradient, th, h=1e-3)
    hs = max(1.0, np.abs(nH).max())
    ctx.close(H, nH, "hessian", rtol=1e-6, atol=1e-6 * hs)
    Hg = m.hessian(th, per_group=True)
    ctx.close(np.sum(Hg, 0), H, "hessian by group", rtol=1e-9, atol=1e-9 * hs)
    # moments: in the free parameters of one group, chained to theta
    d1, d2 = m.dsigma_mu(th), m.d2sigma_mu(th)
    for i in range(G):
        J = np.array([m.transform_free_to_group_free(m.transform_theta_to_free(e), i) for e in np.eye(len(th))]).T
        n1 = num.jac(lambda t: m.implied_sample_stats(t)[i], th, h=1e-3)
        s1 = max(1.0, np.abs(n1).max())
        ctx.close(d1[i] @ J, n1, f"dsigma_mu of group {i}", rtol=1e-7, atol=1e-7 * s1)
        if i == G - 1:
            n2 = num.jac(lambda t: (m.dsigma_mu(t)[i] @ J).ravel(), th, h=1e-3).reshape(n1.shape + (len(th),))
            ctx.close(np.einsum("kab,ai,bj->kij", d2[i], J, J), n2, f"d2sigma_mu of group {i}", rtol=1e-7, atol=1e-7 * max(1.0, np.abs(n2).max()))


FC = dicts(**{**CASE, "nf": st.sampled_from([2, 1, 3]), "cross": st.just(False), "means": st.sampled_from(["none", "free"]), "hess": st.booleans(), "robust": st.booleans(),
              "opts": st.sampled_from(["dict", "none"]), "method": st.sampled_from(["trust-constr", "trust-constr", "L-BFGS-B"])})


@P.facet("fit", FC, quick=24, thorough=1200, shards=4, rule="identified model fitted inside the parameter space", cost=6.0)
def fit(case, ctx):
    s, D, gv, shared, truth, f, api = prepare(case, ctx, identified=True)
    m, G, rng = api.m, len(truth), s.rng
    th0 = np.array(m.theta, dtype=float)
    tht = theta_of(s, m, truth, ctx, shared, rng, jit=0.0)
    nT = len(th0)
    Ht = num.jac(m.gradient, tht, h=1e-3)
    ev = np.linalg.eigvalsh((Ht + Ht.T) / 2 / np.sqrt(np.outer(np.abs(np.diag(Ht)) + 1e-8, np.abs(np.diag(Ht)) + 1e-8)))
    if ev[0] < 5e-3:
        ctx.skip("model weakly identified")
    tight = dict(gtol=1e-9, xtol=1e-12, maxiter=3000) if case["method"] == "trust-constr" else dict(gtol=1e-9, ftol=1e-15, maxiter=5000, maxfun=100000)
    with contextlib.redirect_stdout(io.StringIO()):
        if case["opts"] == "none" and case["method"] == "trust-constr":
            m.fit(robust_se=case["robust"], use_hess=case["hess"])
        else:
            if case["method"] == "trust-constr":
                tight["verbose"] = 0
            m.fit(robust_se=case["robust"], use_hess=case["hess"] and case["method"] == "trust-constr", minimize_kws=dict(method=case["method"], options=tight))
    th = np.asarray(m.theta)
    names = [str(v) for v in m.theta_names]
    isvar = np.array([nm.split(" ~~ ")[0].split(" ")[-1] == nm.split(" ~~ ")[-1] for nm in names]) | np.array([nm.endswith("vv") for nm in names])
    H = num.jac(m.gradient, th, h=1e-4)
    H = (H + H.T) / 2
    if np.any(th[isvar] < 0.02) or np.linalg.eigvalsh(H)[0] <= 0:
        ctx.skip("estimate at the boundary")
    V = np.linalg.inv(H)
    se = np.sqrt(np.diag(V))
    ctx.nontrivial()
    g = num.grad(api.func, th, h=1e-4)
    dec = g @ V @ g / 2
    ctx.check(dec < 1e-3, f"fit stopped short: predicted decrease {dec} of the fit function; {m.opt_res.message}")
    ctx.check(api.func(th) <= api.func(tht) + 1e-6, f"fit function {api.func(th)} above its value at the generating parameters {api.func(tht)}")
    # table
    want = V
    if case["robust"]:
        S = num.jac(lambda t: m.loglike(t, level="observation"), th, h=1e-4)
        want = V @ (S.T @ S) @ V
    wse = np.sqrt(np.diag(want))
    ctx.equal([str(i) for i in m.res.index], names, "rows of the table")
    r = m.res.values
    ctx.close(r[:, 0], th, "estimates in the table")
    ctx.close(r[:, 1], wse, "standard errors", rtol=2e-4)
    ctx.close(r[:, 2], th / r[:, 1], "t values", rtol=1e-8)
    ctx.close(r[:, 3], 2 * sp.stats.t(len(D) - 2).sf(np.abs(r[:, 2])), "p values", rtol=1e-6, atol=1e-12)
    # model matrices and free parameters in the table
    Sg, mg = m.implied_cov_mean(th)
    for i in range(G):
        L, B, F, Ps, a, b = [m.mats[i][j] for j in range(6)]
        T = np.linalg.inv(np.eye(len(B)) - B.values)
        ctx.close(L.values @ T @ F.values @ T.T @ L.values.T + Ps.values, Sg[i], "covariance from the labelled matrices", rtol=1e-8, atol=1e-9)
        ctx.equal(list(L.index), list(m.obs_order), "rows of the loading matrix")
        v = values(s, m, th, ctx, i, shared)
        for (l, rel, h), x in list(v.items()) + list(s.fixed.items()):
            k = s.mat((l, rel, h))
            M = m.mats[i][k]
            got = (M.loc[h, l] if rel == "=~" else M.loc[l, h]) if k < 4 else M[l].values[0]
            ctx.close(got, x, f"entry of matrix {k} for {l} {rel} {h}", rtol=1e-9, atol=1e-12)
    rf = m.res_free.values[:, 0]
    ctx.close(rf, m.free, "res_free", rtol=1e-10)


OC = dicts(**{**CASE, "nf": st.sampled_from([2, 1, 3]), "which": st.just("pysem2"), "fix_lv_var": st.booleans(), "lvx_cov": st.sampled_from([None, False, True]), "y_cov": st.sampled_from([None, False, True]),
              "fix_lv_mean": st.sampled_from([None, False, True]), "ff": st.sampled_from(["default", "one", "all", "true", "false"]), "firstlab": st.booleans(), "stats": st.booleans()})


@P.facet("options", OC, quick=100, thorough=8000, shards=2, rule="an option differs from its default")
def options(case, ctx):
    """the documented model-building options, and models given by sample moments"""
    from pystatsm.pysem2.sem import SEM
    from pystatsm.pysem2.model_data import ModelData
    base = Spec(case)
    if base.bad:
        ctx.skip("no relation drawn")
    kws, opts = {}, {"firstlab": case["firstlab"]}
    for k in ("lvx_cov", "y_cov", "fix_lv_mean"):
        if case[k] is not None:
            kws[k] = opts[k] = case[k]
    if case["fix_lv_var"]:
        kws["fix_lv_var"] = opts["fix_lv_var"] = True
    if case["ff"] in ("one", "all"):
        kws["fix_first"] = opts["fix_first"] = {f: False for f in (base.fac[:1] if case["ff"] == "one" else base.nob)}
    elif case["ff"] == "true":
        kws["fix_first"] = True
    elif case["ff"] == "false":
        kws["fix_first"] = False
        opts["fix_first"] = {f: False for f in base.nob}
    ctx.nontrivial(bool(kws) or case["stats"] or case["firstlab"])
    s, D, gv, group, shared, truth = build(case, ctx, opts=opts)
    f = s.formula()
    spec_kws = dict(model_builder_kws=dict(kws))
    if group:
        spec_kws["group_col"] = group
    if case["shared"] != "all":
        spec_kws["shared"] = shared
    m = SEM(f, D, model_spec_kws=spec_kws)
    G = len(truth)
    obs = list(m.obs_order)
    ctx.equal(len(m.theta), expected_names(s, G, shared), f"number of free parameters of {f!r} with {kws}")
    th = theta_of(s, m, truth, ctx, shared, s.rng)
    Sg, mg = m.implied_cov_mean(th)
    for g in range(G):
        Dg = D.loc[gv == g, s.obs]
        Sig, mu = s.ram(values(s, m, th, ctx, g, shared), Dg.cov(ddof=0), Dg.mean())
        ctx.close(Sg[g], Sig.loc[obs, obs].values, f"implied covariance of group {g} for {f!r} with {kws}", rtol=1e-9, atol=1e-10)
        ctx.close(mg[g], mu[obs].values, f"implied mean of group {g} for {f!r} with {kws}", rtol=1e-9, atol=1e-10)
    if case["stats"]:
        cols = list(s.obs)
        if G == 1:
            md = ModelData.from_samplestats(D[cols].cov(ddof=0), D[cols].mean(), len(D))
        else:
            md = ModelData.from_samplestats({g: D.loc[gv == g, cols].cov(ddof=0) for g in range(G)}, {g: D.loc[gv == g, cols].mean() for g in range(G)}, {g: int((gv == g).sum()) for g in range(G)})
        m2 = SEM(f, None, model_spec_kws=dict(spec_kws, model_data=md))
        ctx.equal([str(x) for x in m2.theta_names], [str(x) for x in m.theta_names], "parameters from sample moments")
        ctx.close(m2.fit_func(th), m.fit_func(th), "fit function from sample moments", rtol=1e-9, atol=1e-8)
        ctx.close(m2.gradient(th), m.gradient(th), "gradient from sample moments", rtol=1e-9, atol=1e-7)


# ---------------------------------------------------------------------------------------------
# matrix interface: pysem.sem.SEM
# ---------------------------------------------------------------------------------------------
def mat_model(case):
    rng = rng_of(case)
    nf = case["nf"]
    ni = [int(rng.integers(3, 5)) for _ in range(nf)]
    if case["path"]:
        ni = [1] * (nf + 2)
        nf = nf + 2
    p = sum(ni)
    obs = [f"x{i}" for i in rng.permutation(p + 4)[:p]]
    lat = [f"F{i}" for i in range(nf)] if not case["path"] else list(obs)
    Lam = pd.DataFrame(0.0, index=obs, columns=lat)
    i0 = 0
    for j, k in enumerate(ni):
        Lam.iloc[i0:i0 + k, j] = rng.uniform(0.5, 1.0, k) if case["startval"] == "rand" and not case["path"] else 1.0
        i0 += k
    if case["cross"] and nf > 1 and not case["path"]:
        Lam.iloc[ni[0] + 1, 0] = 0.3
    Beta = pd.DataFrame(0.0, index=lat, columns=lat)
    for a in range(nf):
        for b in range(a):
            if rng.random() < 0.5:
                Beta.iloc[a, b] = 0.2
    Phi = pd.DataFrame(np.eye(nf), index=lat, columns=lat)
    exo = [j for j in range(nf) if not Beta.iloc[j].any()]
    for a in exo:
        for b in exo:
            if a != b:
                Phi.iloc[a, b] = 0.1
    Psi = pd.DataFrame(np.eye(p) * (0.0 if case["path"] else 0.6), index=obs, columns=obs)
    if case["rescov"] and nf > 1 and not case["path"]:
        a, b = 0, ni[0]
        Psi.iloc[a, b] = Psi.iloc[b, a] = 0.1
    # generating values
    tv = lambda M, lo, hi: M.where(M == 0, rng.uniform(lo, hi, M.shape))
    Lt = Lam.where(Lam == 0, rng.uniform(0.7, 1.2, Lam.shape))
    for j in range(nf):
        Lt.iloc[int(np.flatnonzero(Lam.iloc[:, j].values)[0]), j] = 1.0
    Bt = Beta.where(Beta == 0, rng.uniform(-0.6, 0.6, Beta.shape))
    Ft, Pt = Phi.values.copy(), Psi.values.copy()
    Ft[np.diag_indices(nf)] = rng.uniform(0.6, 1.4, nf)
    Pt[np.diag_indices(p)] *= rng.uniform(0.7, 1.3, p)
    T = np.linalg.inv(np.eye(nf) - Bt.values)
    Sig = Lt.values @ T @ Ft @ T.T @ Lt.values.T + Pt
    n = case["n"]
    sc = np.exp(case["scale"] * rng.standard_normal(p))
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(Sig).T
    return rng, Lam, Beta, Phi, Psi, pd.DataFrame(X, columns=obs), sc, (Lt, Bt, Ft, Pt)


SC = dicts(seed=seeds(), nf=st.sampled_from([2, 1, 3]), path=st.booleans(), cross=st.booleans(), rescov=st.booleans(), startval=st.sampled_from(["ones", "rand"]),
           n=st.sampled_from([150, 400]), scale=st.sampled_from([0.0, 0.5]), perm=st.booleans(), neg=st.booleans(), hess=st.booleans())


def from_labels(labels, theta, Lam, Beta, Phi, Psi, fixed_first):
    """matrices with the free entries set by their label"""
    L, B, F, R = Lam.copy(), Beta.copy(), Phi.copy(), Psi.copy()
    for j, v in enumerate(L.columns):
        L.iloc[fixed_first[j], j] = Lam.iloc[fixed_first[j], j]
    seen = set()
    for lab, t in zip(labels, theta):
        if lab.startswith("residual cov("):
            a, b = lab[len("residual cov("):-1].split(", ")
            R.loc[a, b] = R.loc[b, a] = t
        elif lab.startswith("cov("):
            a, b = lab[4:-1].split(", ")
            F.loc[a, b] = F.loc[b, a] = t
        elif "<-" in lab:
            a, b = lab.split("<-")
            L.loc[a, b] = t
        else:
            a, b = lab.split("~")
            B.loc[a, b] = t
        assert lab not in seen
        seen.add(lab)
    return L, B, F, R


@P.facet("matrix", SC, quick=48, thorough=3000, shards=2, rule="several latent variables or a path model", cost=2.0,
         examples=({"seed": 3, "nf": 3, "path": False, "cross": True, "rescov": True, "startval": "ones", "n": 400, "scale": 0.5, "perm": True, "neg": False, "hess": True},))
def matrix(case, ctx):
    from pystatsm.pysem.sem import SEM
    rng, Lam, Beta, Phi, Psi, X, sc, truth = mat_model(case)
    p, q = Lam.shape
    ctx.nontrivial(q > 1 or case["path"])
    if case["neg"] and not case["path"]:
        Lam = Lam.copy()
        Lam.iloc[:, 0] *= -1.0
    m = SEM(Lam, Beta, Phi, Psi, data=X)
    first = [int(np.flatnonzero(Lam.iloc[:, j].values)[0]) for j in range(q)]
    nfree = (Lam.values != 0).sum() - q + (Beta.values != 0).sum() + (np.tril(Phi.values) != 0).sum() + (np.tril(Psi.values) != 0).sum()
    ctx.equal(len(m.theta), int(nfree), "number of free parameters (first indicator of each latent variable fixed)")
    ctx.equal(len(m.labels), len(m.theta), "number of labels")
    ctx.equal(len(set(m.labels)), len(m.theta), "labels repeat")
    th = np.asarray(m.theta, float)
    th = th + 0.15 * rng.uniform(-1, 1, len(th)) * np.maximum(np.abs(th), 0.2)
    L, B, F, R = from_labels(m.labels, th, Lam, Beta, Phi, Psi, first)
    T = np.linalg.inv(np.eye(q) - B.values)
    Sig = L.values @ T @ F.values @ T.T @ L.values.T + R.values
    ctx.close(m.implied_cov(th), Sig, "implied covariance at the labelled values", rtol=1e-9, atol=1e-10)
    n = len(X)
    S = X.cov(ddof=0).values
    if np.linalg.eigvalsh(Sig)[0] > 0.01:
        ctx.close(m.loglike(th), np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S)), "loglike", rtol=1e-9)
        g = m.gradient(th)
        ng = num.grad(m.loglike, th, h=1e-3)
        ctx.close(g, ng, "gradient", rtol=1e-6, atol=1e-6 * max(1, np.abs(ng).max()))
        H = m.hessian(th)
        nH = num.jac(m.gradient, th, h=1e-3)
        ctx.close(H, nH, "hessian", rtol=1e-6, atol=1e-6 * max(1, np.abs(nH).max()))
        D = m.dsigma(th)[:, m.theta_indices]
        ctx.close(D, num.jac(lambda t: vech(m.implied_cov(t)), th, h=1e-3), "dsigma", rtol=1e-7, atol=1e-8)
    if case["neg"]:
        return
    kw = dict(opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-12, maxiter=3000)), use_hess=case["hess"])
    m.fit(**kw)
    th = np.asarray(m.theta)
    H = num.jac(m.gradient, th, h=1e-4)
    H = (H + H.T) / 2
    isvar = np.array([("cov(" in l) and l.split("(")[1][:-1].split(", ")[0] == l.split("(")[1][:-1].split(", ")[1] for l in m.labels])
    if np.linalg.eigvalsh(H)[0] < 1e-4 or np.any(th[isvar] < 0.02):
        ctx.skip("weakly identified or improper solution")
    V = 2 * np.linalg.inv(H) / n
    g = num.grad(m.loglike, th, h=1e-4)
    ctx.check(g @ V @ g * n * n / 4 < 1e-3, f"fit stopped short: gradient {np.abs(g).max()}, {m.opt.message}")
    r = m.res.values
    se = np.sqrt(np.diag(V))
    ctx.equal(list(m.res.index), list(m.labels), "rows of the table")
    ctx.close(r[:, 1], se, "standard errors", rtol=1e-4)
    ctx.close(r[:, 2], th / r[:, 1], "t values", rtol=1e-8)
    ctx.close(r[:, 3], 2 * sp.stats.t(n).sf(np.abs(r[:, 2])), "p values", rtol=1e-7, atol=1e-13)
    # fit indices from their definitions
    Sig = m.implied_cov(th)
    ss = m.sumstats
    k = len(th)
    df = p * (p + 1) // 2 - k
    F0 = np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S)) - np.linalg.slogdet(S)[1] - p
    chi = (n - 1) * F0
    chin = -(n - 1) * np.linalg.slogdet(S / np.sqrt(np.outer(np.diag(S), np.diag(S))))[1]
    dfn = p * (p - 1) // 2
    ll = -n / 2 * (p * np.log(2 * np.pi) + np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S)))
    ctx.close(ss["loglikelihood"], ll, "loglikelihood", rtol=1e-8)
    ctx.close(ss["AIC"], -2 * ll + 2 * k, "AIC", rtol=1e-8)
    ctx.close(ss["BIC"], -2 * ll + np.log(n) * k, "BIC", rtol=1e-8)
    ctx.close(ss["Chi2"], chi, "chi-square", rtol=1e-6, atol=1e-6)
    res = Sig - S
    il = np.tril_indices(p)
    ctx.close(ss["RMR"], np.sqrt(np.mean(res[il] ** 2)), "RMR", rtol=1e-6, atol=1e-9)
    ctx.close(ss["SRMR"], np.sqrt(np.mean((res / np.sqrt(np.outer(np.diag(S), np.diag(S))))[il] ** 2)), "SRMR", rtol=1e-6, atol=1e-9)
    if df > 0:
        ctx.close(ss["Chi2_pval"], sp.stats.chi2(df).sf(chi), "p value of the chi-square test", rtol=1e-5, atol=1e-9)
        ctx.close(ss["RMSEA"], np.sqrt(max(chi - df, 0) / (df * (n - 1))), "RMSEA", rtol=1e-5, atol=1e-7)
        ctx.close(ss["CFI"], 1 - max(chi - df, 0) / max(chi - df, chin - dfn, 1e-300) if max(chi - df, chin - dfn) > 0 else ss["CFI"], "CFI", rtol=1e-6, atol=1e-8)
        ctx.close(ss["NFI1"], (chin - chi) / chin, "NFI", rtol=1e-6, atol=1e-8)
        ctx.close(ss["Rho2"], (chin / dfn - chi / df) / (chin / dfn - 1), "TLI", rtol=1e-5, atol=1e-7)
        SV = np.linalg.solve(Sig, S)
        gfi = 1 - np.trace((SV - np.eye(p)) @ (SV - np.eye(p))) / np.trace(SV @ SV)
        ctx.close(ss["GFI"], gfi, "GFI", rtol=1e-7)
        ctx.close(ss["AGFI"], 1 - p * (p + 1) / 2 / df * (1 - gfi), "AGFI", rtol=1e-7, atol=1e-9)
        for a, kk in ((0.05, "CN05"), (0.01, "CN01")):
            ctx.close(ss[kk], sp.stats.chi2(df).isf(a) / F0 + 1, f"critical N at level {a}", rtol=1e-4)
    # the model does not depend on the order of the variables or their units
    o = rng.permutation(p) if case["perm"] else np.arange(p)
    X2 = (X * sc).iloc[:, o]
    first2 = Lam.columns
    m2 = SEM(Lam, Beta, Phi, Psi, data=X2)
    if not case["perm"] and not case["path"]:
        m2.theta = np.array(m2.theta)
        m2.fit(**kw)
        if df > 0:
            for kk in ("Chi2", "CFI", "SRMR", "GFI"):
                ctx.close(m2.sumstats[kk], ss[kk], f"{kk} under change of units", rtol=1e-3, atol=2e-4 + 1e-3 * (kk == "Chi2"))
    elif case["perm"]:
        m3 = SEM(Lam, Beta, Phi, Psi, data=X.iloc[:, o], indicator_vars=None)
        d = dict(zip(m.labels, th))
        t3 = []
        for lab in m3.labels:
            if lab in d:
                t3.append(d[lab])
                continue
            a = lab.split("(")[0], lab.split("(")[1][:-1].split(", ") if "(" in lab else None
            alt = f"{a[0]}({a[1][1]}, {a[1][0]})" if a[1] else None
            if alt in d:
                t3.append(d[alt])
            else:
                return       # another indicator carries the scale: not the same parameters
        ctx.close(m3.loglike(np.array(t3)), m.loglike(th), "loglike with the data columns in another order", rtol=1e-9)
