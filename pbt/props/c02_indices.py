"""C02: index maps are mutually inverse bijections that agree with the enumeration they index."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Property

P = Property("C02", "Index maps are bijections agreeing with the array layout they describe")
P.assumptions = ["sizes small enough that every index fits in a 53-bit integer"]


def iu():
    from pystatsm.utilities import indexing_utils
    return indexing_utils


def tup(x):
    return tuple(int(v) for v in x)


@P.facet("vec_vech_vecl", st.fixed_dictionaries(dict(n=st.integers(1, 60), m=st.integers(1, 60), seed=st.integers(0, 2**32 - 1))), quick=400,
         rule="n >= 3 and m >= 2")
def vecs(case, ctx):
    u = iu()
    n, m = case["n"], case["m"]
    ctx.nontrivial(n >= 3 and m >= 2)
    # column-major vec of an (m x n) matrix
    M = np.arange(m * n).reshape(m, n, order="F")
    r, s = np.indices((m, n))
    ctx.equal(u.vec_inds_forwards(r, s, m), M, "vec_inds_forwards")
    rr, ss = u.vec_inds_reverse(np.arange(m * n), m)
    ctx.equal(M[rr, ss], np.arange(m * n), "vec_inds_reverse")
    # half vectorisation, column by column of the lower triangle
    low = [(i, j) for j in range(n) for i in range(j, n)]
    R = np.array([a for a, _ in low]); S = np.array([b for _, b in low])
    k = np.arange(len(low))
    ctx.equal(u.vech_inds_forwards(R, S, n), k, "vech_inds_forwards")
    j, c = u.vech_inds_reverse(k, n)
    ctx.equal(j, R, "vech_inds_reverse rows")
    ctx.equal(c, S, "vech_inds_reverse cols")
    pick = case["seed"] % len(low)
    ctx.check(tup(u.vech_inds_reverse(pick, n)) == low[pick], f"vech_inds_reverse scalar {pick},{n}")
    ctx.check(int(u.vech_inds_forwards(*low[pick], n)) == pick, "vech_inds_forwards scalar")
    ctx.equal(u.vech_diag_indices(n), [q for q, (a, b) in enumerate(low) if a == b], "vech_diag_indices")
    ctx.equal(u.vech_diag_indices_forward(np.arange(n), n), [q for q, (a, b) in enumerate(low) if a == b], "vech_diag_indices_forward")
    if n >= 2:
        low = [(i, j) for j in range(n) for i in range(j + 1, n)]
        R = np.array([a for a, _ in low]); S = np.array([b for _, b in low])
        k = np.arange(len(low))
        ctx.equal(u.vecl_inds_forwards(R, S, n), k, "vecl_inds_forwards")
        j, c = u.vecl_inds_reverse(k, n)
        ctx.equal(j, R, "vecl_inds_reverse rows")
        ctx.equal(c, S, "vecl_inds_reverse cols")
        ix = u.vecl_inds(n)
        A = np.arange(n * n).reshape(n, n)
        ctx.equal(A.reshape(-1, order="F")[ix], [A[i, j] for i, j in low], "vecl_inds")
    # triangular numbers
    q = np.arange(0, n * m)
    kk = u.largest_triangular(q)
    ctx.check(np.all(kk * (kk + 1) // 2 <= q) and np.all((kk + 1) * (kk + 2) // 2 > q), "largest_triangular bracket")
    ctx.check(int(u.largest_triangular(int(q[-1]))) == int(kk[-1]), "largest_triangular scalar")


@P.facet("triangular_index_sets", st.fixed_dictionaries(dict(n=st.integers(1, 14), m=st.one_of(st.none(), st.integers(1, 14)), k=st.integers(-6, 6),
         order=st.sampled_from("FC"))), quick=500, rule="n >= 3 and k != 0")
def tri(case, ctx):
    u = iu()
    n, k, order, m = case["n"], case["k"], case["order"], case["m"]
    ctx.nontrivial(n >= 3 and k != 0)
    mm = n if m is None else m
    ctx.label(f"order{order}")

    def want(cond):
        if order == "C":
            return [(i, j) for i in range(n) for j in range(mm) if cond(i, j)]
        return [(i, j) for j in range(mm) for i in range(n) if cond(i, j)]
    got = u.tril_indices(n, k, m, order)
    ctx.check(list(map(tup, zip(*got))) == want(lambda i, j: j - i <= k), f"tril_indices({n},{k},{m},{order})")
    got = u.triu_indices(n, k, m, order)
    ctx.check(list(map(tup, zip(*got))) == want(lambda i, j: j - i >= k), f"triu_indices({n},{k},{m},{order})")
    if abs(k) < n:
        r, c = u.diag_indices(n, k)
        ctx.check(list(map(tup, zip(r, c))) == [(i, i + k) for i in range(n) if 0 <= i + k < n], f"diag_indices({n},{k})")
    if order == "F":
        inv = u.inv_tril_indices(n, -1)
        w = np.zeros((n, n), dtype=int)
        for q, (i, j) in enumerate([(i, j) for j in range(n) for i in range(j + 1, n)]):
            w[i, j] = w[j, i] = q
        ctx.equal(inv, w, "inv_tril_indices(k=-1)")


shapes = st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=4), st.lists(st.integers(1, 3), min_size=5, max_size=7).filter(lambda s: int(np.prod(s)) <= 1000))


@P.facet("lex_colex", st.fixed_dictionaries(dict(shape=shapes)), quick=250, rule="at least 2 axes with unequal sizes > 1")
def lexcolex(case, ctx):
    u = iu()
    shape = np.array(case["shape"])
    ctx.nontrivial(len(shape) >= 2 and len(set(case["shape"]) - {1}) >= 2)
    N = int(np.prod(shape))
    A = np.arange(N).reshape(shape)
    F = np.arange(N).reshape(shape, order="F")
    for idx in itertools.product(*[range(s) for s in shape]):
        ia = np.array(idx)
        ctx.check(int(u.lex_index_forward(ia, shape)) == A[idx], f"lex_index_forward({idx},{shape})")
        ctx.check(int(u.colex_index_forward(ia, shape)) == F[idx], f"colex_index_forward({idx},{shape})")
        ctx.check(tup(u.lex_index_reverse(int(A[idx]), shape)) == idx, f"lex_index_reverse({A[idx]},{shape})")
        ctx.check(tup(u.colex_index_reverse(int(F[idx]), shape)) == idx, f"colex_index_reverse({F[idx]},{shape})")


@P.facet("multiset_rank", st.fixed_dictionaries(dict(order=st.integers(1, 5), p=st.integers(1, 7))), quick=35, thorough=35,
         rule="order >= 2 and p >= 2 (the space of 35 (order, p) pairs is small; every multiset of each is visited)")
def multiset(case, ctx):
    u = iu()
    n, p = case["order"], case["p"]
    ctx.nontrivial(n >= 2 and p >= 2)
    shape = (p,) * n
    asc = [t for t in itertools.product(range(p), repeat=n) if list(t) == sorted(t)]
    colex = sorted(asc, key=lambda t: t[::-1])
    for q, t in enumerate(colex):
        a = np.array(t)
        ctx.check(int(u.colex_ascending_indices_forward(a)) == q, f"colex_ascending_indices_forward({t})")
        ctx.check(tup(u.colex_ascending_indices_reverse(q, shape)) == t, f"colex_ascending_indices_reverse({q},{shape})")
        ctx.check(int(u.colex_descending_indices_forward(a[::-1].copy())) == q, f"colex_descending_indices_forward({t[::-1]})")
        ctx.check(tup(u.colex_descending_indices_reverse(q, shape)) == t[::-1], f"colex_descending_indices_reverse({q},{shape})")
        ctx.check(int(u.ascending_indices_forward(a)) == q, f"ascending_indices_forward({t})")
        ctx.check(tup(u.ascending_indices_reversed(q, n, p)) == t, f"ascending_indices_reversed({q},{n},{p})")


@P.facet("monotone_enumerations", st.fixed_dictionaries(dict(shape=shapes, asc=st.booleans(), strict=st.booleans(), fast=st.booleans())), quick=500,
         rule=">= 2 axes of size >= 2")
def mono(case, ctx):
    u = iu()
    from pystatsm.utilities import ordered_indices as oi
    shape = tuple(case["shape"])
    ctx.nontrivial(sum(s >= 2 for s in shape) >= 2)
    allidx = list(itertools.product(*[range(s) for s in shape]))
    asc = [t for t in allidx if all(a <= b for a, b in zip(t, t[1:]))]
    ctx.check([tup(t) for t in u.ascending_indices(shape)] == asc, f"ascending_indices{shape}")
    ctx.check([tup(t) for t in oi.ascending_indices(shape)] == asc, f"compiled ascending_indices{shape}")
    ctx.check([tup(t) for t in u.ascending_indices_generator(shape)] == asc, f"ascending_indices_generator{shape}")
    desc = sorted([t for t in allidx if all(a >= b for a, b in zip(t, t[1:]))], reverse=True)
    ctx.check([tup(t) for t in oi.descending_indices(shape)] == desc, f"descending_indices{shape}")
    A, S, F = case["asc"], case["strict"], case["fast"]
    rel = {(True, True): lambda a, b: a < b, (True, False): lambda a, b: a <= b, (False, True): lambda a, b: a > b, (False, False): lambda a, b: a >= b}[(A, S)]
    want = [t for t in allidx if all(rel(a, b) for a, b in zip(t, t[1:]))]
    if not F:
        want = sorted(want, key=lambda t: t[::-1])
    ctx.check([tup(t) for t in oi.generate_indices(shape, A, F, S)] == want, f"generate_indices({shape}, ascending={A}, first_fastest={F}, strict={S})")


@P.facet("kronecker_index_algebra", st.fixed_dictionaries(dict(d=st.lists(st.integers(1, 5), min_size=4, max_size=4))), quick=200, rule="neither factor is 1 x 1")
def kron(case, ctx):
    u = iu()
    a, b, p, q = case["d"]
    ctx.nontrivial(a * b > 1 and p * q > 1)
    A = np.arange(1, a * b + 1).reshape(a, b)
    B = 1000 * np.arange(1, p * q + 1).reshape(p, q)
    K = np.kron(A, B)
    i, j = np.indices(K.shape)
    (r, s), (t, v) = u.kronecker_indices_forward(i, j, p, q)
    ctx.equal(A[r, s] * B[t, v], K, "kronecker_indices_forward")
    i2, j2 = u.kronecker_indices_reverse(r, s, t, v, p, q)
    ctx.equal(i2, i, "kronecker_indices_reverse row")
    ctx.equal(j2, j, "kronecker_indices_reverse col")


@P.facet("lookup_helpers", st.fixed_dictionaries(dict(x=st.lists(st.integers(-9, 9), min_size=1, max_size=12), y=st.lists(st.integers(-12, 12), max_size=8),
         arr=st.lists(st.lists(st.integers(-1, 1), min_size=3, max_size=3), min_size=1, max_size=5), gx=st.lists(st.integers(0, 3), min_size=1, max_size=3))), quick=500,
         rule="x has a duplicate and is not sorted")
def lookup(case, ctx):
    u = iu()
    x, y = np.array(case["x"]), np.array(case["y"], dtype=int)
    ctx.nontrivial(len(set(case["x"])) < len(x) and np.any(np.diff(x) < 0))
    uu, inv, ind = u.unique(x)
    first = list(dict.fromkeys(case["x"]))
    ctx.equal(uu, first, "unique: order of first occurrence")
    ctx.equal(uu[inv], x, "unique: inverse reconstructs")
    ctx.equal(ind, [case["x"].index(v) for v in first], "unique: first positions")
    ux = np.array(first)
    got = u.array_match(ux, y)
    ctx.equal(got, [first.index(v) for v in case["y"] if v in first], "array_match")
    gm = u.array_match(ux, y, mask=True)
    ctx.equal(np.ma.getmaskarray(gm), np.array([v not in first for v in case["y"]], dtype=bool), "array_match mask")
    ctx.equal(np.ma.compressed(gm), [first.index(v) for v in case["y"] if v in first], "array_match masked values")
    A = np.array(case["arr"])
    want = sorted(map(tup, np.argwhere(A)), key=lambda t: t[::-1])
    ctx.check([tup(c) for c in np.asarray(u.nonzero(A)).T] == want, "nonzero: column-major order")
    nz = u.nonzero(A, as_tuple=True)
    ctx.equal(A[nz], [A[t] for t in want], "nonzero(as_tuple)")
    g = u.flat_mgrid(np.array(case["gx"]), np.arange(2), indexing="ij")
    ctx.check(list(zip(*[map(int, v) for v in g])) == list(itertools.product(case["gx"], range(2))), "flat_mgrid")


@P.facet("symmetric_tensor_fill", st.fixed_dictionaries(dict(p=st.integers(1, 4), n=st.integers(1, 4), lead=st.integers(1, 3))), quick=48, thorough=48,
         rule="order >= 2 and p >= 2")
def fill(case, ctx):
    u = iu()
    p, n = case["p"], case["n"]
    ctx.nontrivial(p >= 2 and n >= 2)
    shape = (p,) * n
    asc = [t for t in itertools.product(range(p), repeat=n) if list(t) == sorted(t)]
    arr = np.arange(1.0, case["lead"] * len(asc) + 1).reshape(case["lead"], len(asc))
    T = u.fill_tensor(arr, shape)
    want = np.zeros((case["lead"],) + shape)
    for t in itertools.product(range(p), repeat=n):
        want[(slice(None),) + t] = arr[:, asc.index(tuple(sorted(t)))]
    ctx.equal(T, want, "fill_tensor")
    seqs = [list(x) for x in map(list, (tuple(s) for s in (list(q) for q in u.multiset_permutations(list(asc[-1 if p == 1 else len(asc) // 2])))))]
    base = asc[-1 if p == 1 else len(asc) // 2]
    if n >= 2:
        got = sorted(tuple(q) for q in [list(v) for v in map(tuple, seqs)])
        ctx.check(got == sorted(set(itertools.permutations(base))), f"multiset_permutations({base})")
