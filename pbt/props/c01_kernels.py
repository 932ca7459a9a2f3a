"""C01: compiled sparse/dense kernels agree exactly with dense algebra, and stay in bounds."""
import json, os, subprocess, sys
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from ..core import Property, VERIF

P = Property("C01", "Compiled sparse kernels compute exact dense algebra and stay in bounds")
P.assumptions = ["entries are small integers (or Gaussian integers), so every product and sum is exact in double precision and is compared with ==",
                 "int32 index arrays, sorted where the kernel documents a sorted-merge; a matrix with no stored entry may be rejected with IndexError"]

val = st.integers(-4, 4)


@st.composite
def sparse(draw, nr=None, nc=None, maxd=5, cplx=False):
    nr = draw(st.integers(1, maxd)) if nr is None else nr
    nc = draw(st.integers(1, maxd)) if nc is None else nc
    gap = draw(st.sampled_from([8, 4, 0]))              # how often a cell is structurally absent
    cells = draw(st.lists(st.integers(-4, 4 + gap), min_size=nr * nc, max_size=nr * nc))
    if all(v > 4 for v in cells) and draw(st.integers(0, 19)):
        cells[0] = 1                                     # keep the matrix without any stored entry a rare case
    im = draw(st.lists(val, min_size=nr * nc, max_size=nr * nc)) if cplx else None
    ent = []
    for k, v in enumerate(cells):
        if v <= 4:
            r, c = divmod(k, nc)
            ent.append([r, c, v, im[k]] if cplx else [r, c, v])
    return dict(shape=[nr, nc], ent=ent)


@st.composite
def dense(draw, nr=None, nc=None, maxd=4):
    nr = draw(st.integers(1, maxd)) if nr is None else nr
    nc = draw(st.integers(1, maxd)) if nc is None else nc
    return [[draw(val) for _ in range(nc)] for _ in range(nr)]


def mk(d, cplx=False, fmt="csc"):
    """CSC with int32 sorted indices; explicit zeros are kept as stored entries."""
    nr, nc = d["shape"]
    dt = np.complex128 if cplx else np.float64
    major = 1 if fmt == "csc" else 0
    n = nc if fmt == "csc" else nr
    ent = sorted(d["ent"], key=lambda e: (e[major], e[1 - major]))
    indptr = np.zeros(n + 1, dtype=np.int32)
    for e in ent:
        indptr[e[major] + 1:] += 1
    idx = np.array([e[1 - major] for e in ent], dtype=np.int32)
    data = np.array([complex(e[2], e[3]) if cplx else float(e[2]) for e in ent], dtype=dt)
    cls = sps.csc_array if fmt == "csc" else sps.csr_array
    return cls((data, idx, indptr), shape=(nr, nc))


def den(A):
    return np.asarray(A.toarray())


def pw():
    from pystatsm.utilities import python_wrappers
    return python_wrappers


def guard(ctx, fn, *mats):
    """Run fn; a matrix with no stored entries may be rejected cleanly with IndexError."""
    try:
        return fn()
    except IndexError:
        if any(m.nnz == 0 for m in mats if hasattr(m, "nnz")):
            ctx.skip("rejected-empty")
        raise


def same(ctx, got, want, what, A_nnz_pattern=None):
    ctx.equal(den(got), want, what)
    if sps.issparse(got):
        ctx.check(got.indptr[0] == 0 and np.all(np.diff(got.indptr) >= 0) and got.indptr[-1] <= len(got.indices), what + ": indptr not a valid CSC pointer")
        if got.nnz:
            ctx.check(got.indices[:got.nnz].min() >= 0 and got.indices[:got.nnz].max() < got.shape[0], what + ": row index out of range")


def nt(ctx, *ms):
    ctx.nontrivial(all(np.count_nonzero(den(m) if sps.issparse(m) else m) >= 2 for m in ms) and any((m.shape[0] != m.shape[1]) for m in ms))
    for m in ms:
        if m.shape[0] != m.shape[1]:
            ctx.label("nonsquare")
        if sps.issparse(m) and np.any(np.diff(m.indptr) == 0):
            ctx.label("empty-column")


@P.facet("kron_sparse_sparse", st.fixed_dictionaries(dict(A=sparse(), B=sparse(), A2=st.lists(val, min_size=25, max_size=25))), quick=1200,
         rule="both factors have >= 2 non-zero entries and at least one is not square")
def kron_ss(case, ctx):
    w = pw()
    A, B = mk(case["A"]), mk(case["B"])
    nt(ctx, A, B)
    want = np.kron(den(A), den(B))
    C = guard(ctx, lambda: w.sparse_kron(A, B), A, B)
    same(ctx, C, want, "sparse_kron")
    # same pattern, new values, written in place
    A2 = A.copy()
    A2.data[:] = case["A2"][:A.nnz]
    ctx.check(w.sparse_kron_inplace(A2, B, C) is C, "sparse_kron_inplace must return its output")
    same(ctx, C, np.kron(den(A2), den(B)), "sparse_kron_inplace")
    # caller-supplied output, sparse and raw-array forms
    out = w.sparse_kron(A, B)
    out.data[:] = 77.0
    same(ctx, w.sparse_kron(A, B, out=out), want, "sparse_kron(out=sparse)")
    Cx, Ci, Cp = (np.zeros(A.nnz * B.nnz), np.zeros(A.nnz * B.nnz, dtype=np.int32), np.zeros(A.shape[1] * B.shape[1] + 1, dtype=np.int32))
    Cx, Ci, Cp = w.sparse_kron(A, B, out=(Cx, Ci, Cp))
    same(ctx, sps.csc_array((Cx, Ci, Cp), shape=want.shape), want, "sparse_kron(out=arrays)")
    ctx.equal(den(A), den(mk(case["A"])), "sparse_kron changed its input")


@P.facet("kron_dense_sparse", st.fixed_dictionaries(dict(A=dense(), B=sparse(), A2=st.lists(val, min_size=16, max_size=16))), quick=1000,
         rule="both factors have >= 2 non-zero entries and at least one is not square")
def kron_ds(case, ctx):
    w = pw()
    A = np.asfortranarray(np.array(case["A"], dtype=float))
    B = mk(case["B"])
    nt(ctx, A, B)
    want = np.kron(A, den(B))
    C = guard(ctx, lambda: w.ds_kron(A, B), B)
    same(ctx, C, want, "ds_kron")
    same(ctx, w.dense_sparse_kron(A, B), want, "dense_sparse_kron")
    same(ctx, w.dense_sparse_kron(np.ascontiguousarray(A), B), want, "dense_sparse_kron(C order)")
    out = w.dense_sparse_kron(A, B)
    out.data[:] = -9.0
    same(ctx, w.dense_sparse_kron(A, B, out=out), want, "dense_sparse_kron(out)")
    A2 = np.asfortranarray(np.array(case["A2"][:A.size], dtype=float).reshape(A.shape))
    w.ds_kron_inplace(A2, B, C)
    same(ctx, C, np.kron(A2, den(B)), "ds_kron_inplace(sparse)")
    buf = np.full(len(C.data), 5.0)
    w.ds_kron_inplace(A, B, buf)
    C.data[:] = buf
    same(ctx, C, want, "ds_kron_inplace(array)")
    C.data[:] = 3.0
    same(ctx, w.ds_kron(A, B, out=C), want, "ds_kron(out)")


@P.facet("kron_sparse_dense", st.fixed_dictionaries(dict(A=sparse(), B=dense(), B2=st.lists(val, min_size=16, max_size=16))), quick=1000,
         rule="both factors have >= 2 non-zero entries and at least one is not square")
def kron_sd(case, ctx):
    w = pw()
    A = mk(case["A"])
    B = np.asfortranarray(np.array(case["B"], dtype=float))
    nt(ctx, A, B)
    want = np.kron(den(A), B)
    C = guard(ctx, lambda: w.sparse_dense_kron(A, B), A)
    same(ctx, C, want, "sparse_dense_kron")
    B2 = np.asfortranarray(np.array(case["B2"][:B.size], dtype=float).reshape(B.shape))
    w.sparse_dense_kron_inplace(A, B2, C)
    same(ctx, C, np.kron(den(A), B2), "sparse_dense_kron_inplace(sparse)")
    buf = np.full(len(C.data), 5.0)
    w.sparse_dense_kron_inplace(A, B, buf)
    C.data[:] = buf
    same(ctx, C, want, "sparse_dense_kron_inplace(array)")
    C.data[:] = 3.0
    same(ctx, w.sparse_dense_kron(A, B, out=C), want, "sparse_dense_kron(out)")


@P.facet("kron_identity", st.fixed_dictionaries(dict(m=st.integers(1, 5), B=sparse(), x=st.lists(val, min_size=25, max_size=25))), quick=800,
         rule="m >= 2 and B has >= 2 non-zero entries")
def kron_id(case, ctx):
    w = pw()
    m, B = case["m"], mk(case["B"])
    ctx.nontrivial(m >= 2 and np.count_nonzero(den(B)) >= 2)
    if B.shape[0] != B.shape[1]:
        ctx.label("nonsquare")
    C = guard(ctx, lambda: w.id_sp_kron(m, B), B)
    same(ctx, C, np.kron(np.eye(m), den(B)), "id_sp_kron")
    B2 = B.copy()
    B2.data[:] = case["x"][:B.nnz]
    w.id_sp_kron_inplace(m, B2, C)
    same(ctx, C, np.kron(np.eye(m), den(B2)), "id_sp_kron_inplace")


@st.composite
def addcase(draw):
    nr, nc = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return dict(A=draw(sparse(nr, nc, cplx=True)), B=draw(sparse(nr, nc, cplx=True)), a=[draw(val), draw(val)], b=[draw(val), draw(val)],
                extra=draw(st.lists(st.tuples(st.integers(0, nr - 1), st.integers(0, nc - 1)), max_size=4)),
                again=draw(st.lists(val, min_size=36, max_size=36)))


@P.facet("add_inplace", addcase(), quick=1200, rule="A and B have >= 2 stored entries, overlap in some cell, and differ in some cell")
def add_inplace(case, ctx):
    w = pw()
    nr, nc = case["A"]["shape"]
    pa = {(e[0], e[1]) for e in case["A"]["ent"]}
    pb = {(e[0], e[1]) for e in case["B"]["ent"]}
    ctx.nontrivial(len(pa) >= 2 and len(pb) >= 2 and pa & pb and pa ^ pb)
    union = pa | pb | {tuple(e) for e in case["extra"]}
    pat = dict(shape=[nr, nc], ent=[[r, c, 5, 5] for r, c in union])
    for cplx in (False, True):
        A, B, C = mk(case["A"], cplx), mk(case["B"], cplx), mk(pat, cplx)
        al, be = (complex(*case["a"]), complex(*case["b"])) if cplx else (float(case["a"][0]), float(case["b"][0]))
        f = w.cs_add_inplace_complex if cplx else w.cs_add_inplace
        for k in range(2):                     # the output buffer is reused call after call
            nm = f"{f.__name__} call {k + 1}"
            r = guard(ctx, lambda: f(A, B, C, al, be), A, B, C)
            same(ctx, r, al * den(A) + be * den(B), nm)
            if cplx:
                break                          # the complex form compacts its pattern (eliminate_zeros)
            A.data[:] = case["again"][:A.nnz]
        r = guard(ctx, lambda: f(A, B, mk(pat, cplx)), A, B, C)
        same(ctx, r, den(A) + den(B), f.__name__ + " default coefficients")


@st.composite
def mmcase(draw):
    n, k, m = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return dict(A=draw(sparse(n, k, cplx=True)), B=draw(sparse(k, m, cplx=True)), again=draw(st.lists(val, min_size=36, max_size=36)))


def symbolic(A, B):
    """Output container holding exactly the structural pattern of A @ B."""
    n, m = A.shape[0], B.shape[1]
    S = (np.abs(den(A)) * 0)
    a = np.zeros(A.shape)
    b = np.zeros(B.shape)
    for M, Z in ((A, a), (B, b)):
        for j in range(M.shape[1]):
            Z[M.indices[M.indptr[j]:M.indptr[j + 1]], j] = 1
    pat = (a @ b) > 0
    return dict(shape=[n, m], ent=[[int(r), int(c), 9, 9] for r, c in np.argwhere(pat)])


@P.facet("matmul_inplace", mmcase(), quick=1200, rule="A and B have >= 2 non-zeros and the product has a column with >= 2 stored entries")
def matmul_inplace(case, ctx):
    w = pw()
    for cplx in (False, True):
        A, B = mk(case["A"], cplx), mk(case["B"], cplx)
        pat = symbolic(A, B)
        C = mk(pat, cplx)
        ctx.nontrivial(np.count_nonzero(den(A)) >= 2 and np.count_nonzero(den(B)) >= 2 and C.nnz and np.diff(C.indptr).max() >= 2)
        f = w.cs_matmul_inplace_complex if cplx else w.cs_matmul_inplace
        for k in range(3):                      # reuse of one output container, as the mixed-model equations do
            nm = f"{f.__name__} call {k + 1}"
            r = guard(ctx, lambda: f(A, B, C), A, B, C)
            ctx.check(r is C, nm + ": must return its output")
            same(ctx, C, den(A) @ den(B), nm)
            for j in range(C.shape[1]):
                col = C.indices[C.indptr[j]:C.indptr[j + 1]]
                ctx.check(np.all(np.diff(col) > 0), f"{nm}: row indices of column {j} not sorted: {col}")
            A.data[:] = case["again"][:A.nnz]


@st.composite
def coocase(draw):
    nr, nc = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    ent = draw(st.lists(st.tuples(st.integers(0, nr - 1), st.integers(0, nc - 1), val), min_size=1, max_size=14))
    return dict(shape=[nr, nc], ent=ent)


@P.facet("coo_to_csc", coocase(), quick=800, rule=">= 3 entries, not already in column order")
def coo(case, ctx):
    w = pw()
    nr, nc = case["shape"]
    r, c, v = (np.array(x) for x in zip(*case["ent"]))
    want = np.zeros((nr, nc))
    np.add.at(want, (r, c), v)
    ctx.nontrivial(len(r) >= 3 and np.any(np.diff(c) < 0))
    if len(set(zip(r.tolist(), c.tolist()))) < len(r):
        ctx.label("duplicates")
    M = w.coo_to_csc(r, c, v, (nr, nc))
    same(ctx, M, want, "coo_to_csc")
    ctx.check(M.shape == (nr, nc), "coo_to_csc shape")
    shape, nz, p, i, x = w.coo_to_csc(r, c, v, (nr, nc), return_array=False)
    ctx.check(tuple(shape) == (nr, nc) and nz == len(r), "coo_to_csc raw form header")
    same(ctx, sps.csc_array((x, i, p), shape=(nr, nc)), want, "coo_to_csc raw form")
    # entries of one column keep their input order (so values can be refilled in place)
    order = np.argsort(c, kind="stable")
    ctx.equal(x, v[order], "coo_to_csc data order")
    ctx.equal(i, r[order], "coo_to_csc index order")


@st.composite
def dotcase(draw):
    n, m = draw(st.integers(1, 10)), draw(st.integers(1, 4))
    return dict(a=draw(sparse(n, 1)), b=draw(sparse(n, 1)), c=draw(val), B=draw(sparse(draw(st.integers(1, 5)), m)), C=draw(sparse(m, m)))


@P.facet("dot_and_trace", dotcase(), quick=1000, rule="vectors share a stored index, or the trace weight has an off-diagonal entry")
def dot_trace(case, ctx):
    w = pw()
    a, b = mk(case["a"]), mk(case["b"])
    ctx.nontrivial(np.any((den(a) != 0) & (den(b) != 0)) or (np.any(np.tril(den(mk(case["C"])), -1)) and mk(case["B"]).nnz))
    try:
        got = w.sparse_dot(a, b, float(case["c"]))
        ctx.equal(got, float(np.sum(den(a) * den(b)) + case["c"]), "sparse_dot")
        ctx.equal(w.sparse_dot(a, b), float(np.sum(den(a) * den(b))), "sparse_dot default start")
    except IndexError:
        if a.nnz and b.nnz:
            raise
    B, C = mk(case["B"]), mk(case["C"])
    try:
        got = w.sparse_pattern_trace(B, C)
        ctx.equal(got, float(np.trace(den(C).T @ den(B).T @ den(B))), "sparse_pattern_trace")
        ctx.equal(w.sparse_pattern_trace(B, C, out=3.0), 3.0 + float(np.sum(den(C) * (den(B).T @ den(B)))), "sparse_pattern_trace start")
    except IndexError:
        if B.nnz and C.nnz:
            raise


@st.composite
def bdcase(draw):
    ng, nv = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    return dict(ng=ng, nv=nv, L=draw(sparse(ng * nv, draw(st.integers(1, 6)))), fill=draw(val))


@P.facet("block_diag_self_dot", bdcase(), quick=600, rule="ng >= 2, nv >= 2 and a non-zero off-diagonal cross term")
def block_diag(case, ctx):
    w = pw()
    ng, nv = case["ng"], case["nv"]
    L = mk(case["L"], fmt="csr")
    D = den(L).reshape(ng, nv, -1)
    want = np.einsum("jap,jbp->ab", D, D)
    ctx.nontrivial(ng >= 2 and nv >= 2 and np.any(np.tril(want, -1)))
    got = guard(ctx, lambda: w.block_diag_self_dot(L, ng, nv), L)
    ctx.equal(got, want, "block_diag_self_dot")
    out = np.full((nv, nv), float(case["fill"]))
    r = w.block_diag_self_dot(L, ng, nv, out=out)
    ctx.equal(r, want, "block_diag_self_dot(out)")
    ctx.equal(out, want, "block_diag_self_dot must fill out")


@P.facet("tile_repeat_matmul", st.fixed_dictionaries(dict(x=st.lists(val, min_size=1, max_size=8), y=st.lists(val, min_size=8, max_size=8),
         reps=st.integers(1, 6), A=dense(maxd=6), k=st.integers(1, 5), b=st.lists(val, min_size=30, max_size=30))), quick=800, rule="length >= 2 and reps >= 2")
def tile(case, ctx):
    w = pw()
    x = np.array(case["x"], dtype=float)
    r = case["reps"]
    ctx.nontrivial(len(x) >= 2 and r >= 2)
    ctx.equal(w.tile_1d(x, r), np.tile(x, r), "tile_1d")
    ctx.equal(w.repeat_1d(x, r), np.repeat(x, r), "repeat_1d")
    z = x + 1j * np.array(case["y"][:len(x)])
    ctx.equal(w.tile_1d_complex(z, r), np.tile(z, r), "tile_1d_complex")
    for f, arr, want in ((w.tile_1d, x, np.tile(x, r)), (w.repeat_1d, x, np.repeat(x, r)), (w.tile_1d_complex, z, np.tile(z, r))):
        out = np.full(len(want), 8.0, dtype=want.dtype)
        ctx.check(f(arr, r, out=out) is out, f.__name__ + " must return out")
        ctx.equal(out, want, f.__name__ + "(out)")
    A = np.array(case["A"], dtype=float)
    B = np.array(case["b"][:A.shape[1] * case["k"]], dtype=float).reshape(A.shape[1], case["k"])
    for f in (w.naive_matmul_inplace, w.naive_matmul_inplace2):
        ctx.equal(f(A, B), A @ B, f.__name__)
        C = np.full((A.shape[0], B.shape[1]), 4.0)
        ctx.check(f(A, B, C) is C, f.__name__ + " must return C")
        ctx.equal(C, A @ B, f.__name__ + "(C)")


@P.facet("csc_helpers", st.fixed_dictionaries(dict(A=dense(maxd=5), S=sparse(), bump=st.integers(0, 11))), quick=400, rule="A has >= 2 columns and >= 2 rows")
def helpers(case, ctx):
    w = pw()
    A = np.array(case["A"], dtype=float)
    ctx.nontrivial(min(A.shape) >= 2)
    for arr in (A, np.asfortranarray(A)):
        (n, m), nnz, p, i, x = w.fully_dense_to_csc(arr)
        ctx.check((n, m) == A.shape and nnz == A.size, "fully_dense_to_csc header")
        ctx.equal(den(sps.csc_array((x, i, p), shape=(n, m))), A, "fully_dense_to_csc")
    S = mk(case["S"])
    T = w.symbolic_csc_like(S)
    ctx.equal(T.indices, S.indices, "symbolic_csc_like indices")
    ctx.equal(T.indptr, S.indptr, "symbolic_csc_like indptr")
    ctx.check(not np.any(T.data), "symbolic_csc_like must be zero")
    ctx.equal(den(S), den(mk(case["S"])), "symbolic_csc_like changed its input")
    ctx.check(bool(w.csc_eq(S, S.copy())), "csc_eq(S, S)")
    if S.nnz:
        T = S.copy()
        T.data[case["bump"] % S.nnz] += 1.0
        ctx.check(not w.csc_eq(S, T), "csc_eq must see a changed value")


@P.facet("larger_operands", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n=st.integers(1, 70), k=st.integers(1, 70), m=st.integers(1, 70),
         dens=st.sampled_from([0.02, 0.1, 0.4, 1.0]))), quick=150, rule="n, k, m all >= 8 and the operands have >= 20 stored entries")
def larger(case, ctx):
    """Same relations on operands far larger than the hand-sized ones (values from the drawn seed)."""
    w = pw()
    rng = np.random.default_rng(case["seed"])
    n, k, m = case["n"], case["k"], case["m"]

    def rand(r, c):
        M = rng.integers(-9, 10, size=(r, c)) * (rng.random((r, c)) < case["dens"])
        M[rng.integers(r), rng.integers(c)] = 3
        S = sps.csc_array(M.astype(float))
        S.indices = S.indices.astype(np.int32)
        S.indptr = S.indptr.astype(np.int32)
        return S
    A, B, A2 = rand(n, k), rand(k, m), rand(n, k)
    ctx.nontrivial(min(n, k, m) >= 8 and min(A.nnz, B.nnz) >= 20)
    pat = symbolic(A, B)
    C = mk(pat)
    for _ in range(2):
        same(ctx, guard(ctx, lambda: w.cs_matmul_inplace(A, B, C), C), den(A) @ den(B), "cs_matmul_inplace")
        A.data[:] = rng.integers(-5, 6, size=A.nnz)
    pa = np.zeros((n, k), bool)
    for M in (A, A2):
        pa[M.indices, np.repeat(np.arange(k), np.diff(M.indptr))] = True
    r, c = np.nonzero(pa)
    U = w.coo_to_csc(r, c, np.ones(len(r)), (n, k))
    same(ctx, w.cs_add_inplace(A, A2, U, 2.0, -3.0), 2 * den(A) - 3 * den(A2), "cs_add_inplace")
    if n * k <= 400:
        Bs = B[:, :min(m, 6)][:6]
        Bs = sps.csc_array(Bs)
        Bs.indices, Bs.indptr = Bs.indices.astype(np.int32), Bs.indptr.astype(np.int32)
        if Bs.nnz:
            same(ctx, w.sparse_kron(A, Bs), np.kron(den(A), den(Bs)), "sparse_kron")
            same(ctx, w.ds_kron(np.asfortranarray(den(A)), Bs), np.kron(den(A), den(Bs)), "ds_kron")
            same(ctx, w.sparse_dense_kron(A, np.asfortranarray(den(Bs))), np.kron(den(A), den(Bs)), "sparse_dense_kron")
            same(ctx, w.id_sp_kron(n, Bs), np.kron(np.eye(n), den(Bs)), "id_sp_kron")
    G = rand(k, k)
    ctx.equal(w.sparse_pattern_trace(A, G), float(np.sum(den(G) * (den(A).T @ den(A)))), "sparse_pattern_trace")
    a, b = rand(n, 1), rand(n, 1)
    ctx.equal(w.sparse_dot(a, b), float(np.sum(den(a) * den(b))), "sparse_dot")
    nv = 1 + case["seed"] % 4
    L = rand(n * nv, k).tocsr()
    D = den(L).reshape(n, nv, k)
    ctx.equal(w.block_diag_self_dot(L, n, nv), np.einsum("jap,jbp->ab", D, D), "block_diag_self_dot")


# ---- memory safety: the same facets in a subprocess with ASan/UBSan-instrumented kernels
ASAN_FACETS = ["kron_sparse_sparse", "kron_dense_sparse", "kron_sparse_dense", "kron_identity", "add_inplace", "matmul_inplace",
               "coo_to_csc", "dot_and_trace", "block_diag_self_dot", "tile_repeat_matmul"]


def asan_strategy():
    pairs = {n: P.facets[n].strategy for n in ASAN_FACETS}
    return st.lists(st.sampled_from(ASAN_FACETS).flatmap(lambda n: pairs[n].map(lambda c: [n, c])), min_size=12, max_size=40)


_child = {}


def asan_child():
    if "p" in _child and _child["p"].poll() is None:
        return _child["p"]
    from .. import build
    lib = build.build(sanitize=True)["cython_wrappers"]
    plain = build.build()
    libasan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=os.path.realpath(libasan), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", VERIF_ASAN_LIB=lib, VERIF_PLAIN_IDX=plain["ordered_indices"],
               PYTHONMALLOC="malloc")
    _child["p"] = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "pbt.asan_child"], cwd=str(VERIF), env=env,
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
    line = _child["p"].stdout.readline()
    if line.strip() != "ready":
        err = _child["p"].stderr.read()
        raise RuntimeError("asan child did not start: " + line + err[-2000:])
    return _child["p"]


@P.facet("memory_safety", st.deferred(asan_strategy), quick=160, thorough=6000, shards=2, cost=4, asan=True,
         rule="a history of >= 10 kernel calls on fresh operands in one process under AddressSanitizer and UBSan")
def memory_safety(case, ctx):
    ctx.nontrivial(len(case) >= 10)
    p = asan_child()
    try:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        p.wait()
        err = p.stderr.read()
        _child.clear()
        if "AddressSanitizer" in err or "runtime error" in err or p.returncode in (77, -6, -11, -7):
            lines = [l.strip() for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or l.strip().startswith("#0") or l.strip().startswith("#1")]
            ctx.fail("sanitizer report: " + " | ".join(lines[:4]))
        raise RuntimeError(f"asan child died with {p.returncode}: {err[-1500:]}")
    r = json.loads(line)
    if r["status"] == "violation":
        ctx.fail(r["message"])
    if r["status"] != "ok":
        raise RuntimeError(r["message"])
