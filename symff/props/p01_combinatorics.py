"""sgn, pf, hf, pt, dt, dt_eigen"""
import itertools
import math

import numpy as np

from ..registry import harness


def sub(np_, A, rows, cols):
    return A[np.ix_(rows, cols)]


# ---------------------------------------------------------------- C01 sgn


@harness("C01", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)], paths=200,
         bound="sequences of n<=4 (thorough 5) distinct integers in [-1000,1000], all orders",
         assumes="entries pairwise distinct")
def sgn_flips_under_transposition(ctx, n):
    p = ctx.ints("p", (n,), -1000, 1000)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.not_(p[i] == p[j]))
    l = [p[i] for i in range(n)]
    s = ctx.ff.sgn(l)
    ctx.check(ctx.or_(s == 1, s == -1), "sign is +-1")
    for i in range(n):
        for j in range(i):
            q = list(l)
            q[i], q[j] = q[j], q[i]
            ctx.eq(ctx.ff.sgn(q), -s, "transposition flips the sign")
    ctx.eq(ctx.ff.sgn(p), s, "array and list agree")
    ctx.eq(ctx.ff.sgn(tuple(l)), s, "tuple and list agree")


@harness("C01", quick=[dict(n=1), dict(n=3), dict(n=5)], thorough=[dict(n=12), dict(n=20), dict(n=7)],
         bound="increasing sequences of n<=5 (7) integers in [-1000,1000]")
def sgn_of_sorted(ctx, n):
    p = ctx.ints("p", (n,), -1000, 1000)
    for i in range(n - 1):
        ctx.assume(p[i] < p[i + 1])
    ctx.eq(ctx.ff.sgn([p[i] for i in range(n)]), 1, "increasing sequence is even")


@harness("C01", quick=[dict(n=3)], thorough=[dict(n=4)], paths=800, t=60,
         bound="all pairs of permutations of n=3 (4) points, as symbolic integers")
def sgn_multiplicative(ctx, n):
    p = ctx.ints("p", (n,), 0, n - 1)
    q = ctx.ints("q", (n,), 0, n - 1)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.not_(p[i] == p[j]))
            ctx.assume(ctx.not_(q[i] == q[j]))
    P = [int(p[i]) for i in range(n)]
    Q = [int(q[i]) for i in range(n)]
    s = ctx.ff.sgn
    ctx.eq(s([P[Q[i]] for i in range(n)]), s(P) * s(Q), "sgn(p o q) = sgn(p) sgn(q)")
    M = np.zeros((n, n))
    for i in range(n):
        M[i, P[i]] = 1
    ctx.eq(s(P), round(np.linalg.det(M)), "sgn is the determinant of the permutation matrix")


PATTERNS = {
    "sorted": lambda n: list(range(n)),
    "rotated": lambda n: list(range(n // 2, n)) + list(range(n // 2)),
    "reversed": lambda n: list(range(n))[::-1],
    "perfect": lambda n: [(i * 2) % n + (i * 2 // n if n % 2 == 0 else 0) for i in range(n)],
}


@harness("C01", quick=[dict(n=n, pat=p, at=a) for p in PATTERNS for n, a in ((7, 3), (8, 0), (10, 4), (11, 5), (12, 6))],
         thorough=[dict(n=n, pat=p, at=a) for p in PATTERNS for n in (9, 13, 16, 24) for a in (0, n // 2, n - 1)], paths=60, t=40,
         bound="fixed sequences of up to 12 (24) integers, sorted, reversed, rotated and shuffled, with one free entry anywhere")
def sgn_long(ctx, n, pat, at):
    base = PATTERNS[pat](n)
    assert sorted(base) == list(range(n))
    x = ctx.int("x", -50, 50 * n)
    l = [10 * b for b in base]
    for i, b in enumerate(l):
        if i != at:
            ctx.assume(ctx.not_(x == b))
    l[at] = x
    inv = sum(1 for i in range(n) for j in range(i + 1, n) if at not in (i, j) and l[i] > l[j])
    below = [l[j] for j in range(n) if j != at]
    # entries smaller than x that come later and larger ones that come before are inversions; decide the order of x once
    r = 0
    for v in sorted(below):
        if ctx.tree(x > v):
            r += 1
        else:
            break
    smaller = set(sorted(below)[:r])
    inv += sum(1 for j in range(n) if j > at and l[j] in smaller) + sum(1 for j in range(at) if l[j] not in smaller)
    ctx.eq(ctx.ff.sgn(l), (-1) ** inv, "parity of the inversions")


@harness("C01", quick=[dict(kind=k) for k in ("uint8", "int8", "int32", "float64", "uint64", "list", "range")], paths=120, t=40,
         bound="the 24 orders of four entries, as arrays of the listed element types and other sequences")
def sgn_containers(ctx, kind):
    v = ctx.ints("p", (4,), 0, 3)
    for i in range(4):
        for j in range(i):
            ctx.assume(ctx.not_(v[i] == v[j]))
    p = [int(x) for x in v]
    inv = sum(1 for i in range(4) for j in range(i + 1, 4) if p[i] > p[j])
    if kind == "range":
        ctx.eq(ctx.ff.sgn(range(p[0], p[0] + 3)), 1, "increasing range")
        ctx.eq(ctx.ff.sgn(range(p[0] + 3, p[0], -1)), -1, "decreasing range of three")
        return
    seq = [np.int64(x) for x in p] if kind == "list" else np.array(p, dtype=kind)
    ctx.eq(ctx.ff.sgn(seq), (-1) ** inv, "parity of the inversions")


# ---------------------------------------------------------------- C02 pf


def pf_ref(A):
    """expansion along the first row"""
    n = len(A)
    if n == 0:
        return 1
    if n % 2:
        return 0
    tot = 0
    for j in range(1, n):
        rest = [k for k in range(1, n) if k != j]
        tot = tot + (-1) ** (j + 1) * A[0][j] * pf_ref([[A[r][c] for c in rest] for r in rest])
    return tot


def hf_ref(A):
    n = len(A)
    if n == 0:
        return 1
    if n % 2:
        return 0
    tot = 0
    for j in range(1, n):
        rest = [k for k in range(1, n) if k != j]
        tot = tot + A[0][j] * hf_ref([[A[r][c] for c in rest] for r in rest])
    return tot


def pt_ref(A, sign=1):
    n = len(A)
    if n == 0:
        return 1
    tot = 0
    for j in range(n):
        tot = tot + sign ** j * A[0][j] * pt_ref([r[:j] + r[j + 1:] for r in A[1:]], sign)
    return tot


def rows(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


@harness("C02", quick=[dict(n=2), dict(n=4), dict(n=4, kind="c"), dict(n=6)], thorough=[dict(n=6, kind="c"), dict(n=8)],
         bound="antisymmetric n x n, real or complex entries, n<=6 (8)", t=40)
def pf_square_is_det(ctx, n, kind="f"):
    A = ctx.antisym("a", n, kind)
    p = ctx.ff.pf(A)
    ctx.eq(p, pf_ref(rows(A)), "row expansion")
    if n <= 6:
        ctx.eq(p * p, pt_ref(rows(A), -1), "pf^2 = det")
    ctx.eq(ctx.ff.pf(A.T), (-1) ** (n // 2) * p, "pf(A^T)")


@harness("C02", quick=[dict(n=2), dict(n=4)], thorough=[dict(n=6), dict(n=4, kind="c")], bound="n<=4 (6), B arbitrary", t=40)
def pf_congruence(ctx, n, kind="f"):
    A = ctx.antisym("a", n, kind)
    B = ctx.matrix("b", n, n, kind)
    ctx.eq(ctx.ff.pf(B @ A @ B.T), pt_ref(rows(B), -1) * ctx.ff.pf(A), "pf(B A B^T) = det(B) pf(A)")


@harness("C02", quick=[dict(n=3), dict(n=4), dict(n=1), dict(n=5), dict(n=0)] + [dict(n=8, part=p) for p in ("below", "above", "sparse")], thorough=[dict(n=6), dict(n=7), dict(n=9)], bound="arbitrary square matrices, n<=5 (7, 9); n=8: strictly lower, strictly upper, and first row and column with a block of zeros")
def pf_general(ctx, n, part=None):
    A = ctx.matrix("a", n, n, "c")
    if part == "below":
        A = ctx.np.tril(A, -1)
    elif part == "above":
        A = ctx.np.triu(A, 1)
    elif part == "sparse":
        for i in range(n):
            for j in range(n):
                if (i * j + i) % 3 == 0:
                    A[i, j] = 0
    p = ctx.ff.pf(A)
    if n % 2:
        ctx.eq(p, 0, "odd dimension gives 0")
        return
    ctx.eq(p, pf_ref(rows((A - A.T) / 2)) if n else 1, "depends only on the antisymmetric part")


@harness("C02", quick=[dict(n=4), dict(n=6)], thorough=[dict(n=8)], bound="integer antisymmetric matrices, entries in [-5,5], n<=6 (8)")
def pf_integer(ctx, n):
    U = ctx.ints("a", (n, n), -5, 5)
    A = ctx.np.triu(U, 1) - ctx.np.triu(U, 1).T
    p = ctx.ff.pf(A)
    ctx.eq(p, pf_ref(rows(A)), "integer entries")
    if n <= 4:
        ctx.eq(ctx.ff.pf([[A[i, j] for j in range(n)] for i in range(n)]), p, "nested lists")


def spread(n, sym, kind="f", mirror=None, free=3):
    """a fixed integer matrix with zeros, and the positions of its free entries"""
    B = np.array([[((3 * i + 5 * j + i * j) % 5) - 2 for j in range(n)] for i in range(n)])
    if kind == "c":
        B = B + 1j * np.array([[((i + 2 * j) % 3) - 1 for j in range(n)] for i in range(n)])
    if mirror:
        U = np.triu(B, 1)
        B = U + mirror * U.T
    ps = [(i, j) for i in range(n) for j in range(n) if (i < j if mirror else True)]
    ps = sorted(ps, key=lambda p: ((7 * p[0] + 11 * p[1] + 3 * sym) % 13, p))[:free]
    return B, ps


@harness("C02", quick=[dict(n=6, sym=0, kind="c"), dict(n=6, sym=1), dict(n=8, sym=0), dict(n=8, sym=1, kind="i")],
         thorough=[dict(n=8, sym=s, kind=k) for s in (2, 3, 4) for k in ("f", "c")], t=60, paths=300,
         bound="antisymmetric matrices up to 8 x 8: fixed integers with three free entries")
def pf_larger(ctx, n, sym, kind="f"):
    base, at = spread(n, sym, kind, -1)
    A = ctx.mixed("a", base, at, kind, mirror=-1)
    ctx.eq(ctx.ff.pf(A), pf_ref(rows(A)), "row expansion")


@harness("C03", quick=[dict(n=6, sym=0, kind="c"), dict(n=6, sym=1), dict(n=8, sym=0), dict(n=8, sym=1, kind="i")],
         thorough=[dict(n=8, sym=s, kind=k) for s in (2, 3, 4) for k in ("f", "c")], t=60, paths=300,
         bound="symmetric matrices up to 8 x 8: fixed integers with three free entries")
def hf_larger(ctx, n, sym, kind="f"):
    base, at = spread(n, sym, kind, 1)
    A = ctx.mixed("a", base, at, kind, mirror=1)
    ctx.eq(ctx.ff.hf(A), hf_ref(rows(A)), "matchings expansion")


@harness("C03", quick=[dict(n=5, sym=0), dict(n=5, sym=1, kind="c"), dict(n=6, sym=0), dict(n=6, sym=1, kind="i"), dict(n=7, sym=0)],
         thorough=[dict(n=n, sym=s, kind=k) for n in (5, 6, 7) for s in (2, 3) for k in ("f", "c")] + [dict(n=8, sym=0)], t=60, paths=300,
         bound="n x n matrices, n<=7 (8): fixed integers with three free entries")
def pt_larger(ctx, n, sym, kind="f"):
    base, at = spread(n, sym, kind)
    A = ctx.mixed("a", base, at, kind)
    ctx.eq(ctx.ff.pt(A), pt_ref(rows(A)), "row expansion")


@harness("C04", quick=[dict(n=5, sym=0), dict(n=5, sym=1, kind="c"), dict(n=6, sym=0), dict(n=6, sym=1, kind="i"), dict(n=7, sym=0)],
         thorough=[dict(n=n, sym=s, kind=k) for n in (5, 6, 7) for s in (2, 3) for k in ("f", "c")] + [dict(n=8, sym=0)], t=60, paths=300,
         bound="n x n matrices, n<=7 (8): fixed integers with three free entries")
def dt_larger(ctx, n, sym, kind="f"):
    base, at = spread(n, sym, kind)
    A = ctx.mixed("a", base, at, kind)
    ctx.eq(ctx.ff.dt(A), pt_ref(rows(A), -1), "row expansion")


@harness("C04", quick=[dict(n=4, sym=0), dict(n=5, sym=1, kind="c"), dict(n=6, sym=0)], thorough=[dict(n=7, sym=0), dict(n=8, sym=1, kind="c")], t=60, paths=300,
         bound="triangular n x n matrices with free diagonal, n<=6 (8)")
def dt_eigen_triangular(ctx, n, sym, kind="f"):
    base, at = spread(n, sym, kind)
    A = ctx.mixed("a", np.triu(base), [(i, i) for i in range(n)], kind)
    want = ctx.np.prod(ctx.np.array([A[i, i] for i in range(n)]))
    ctx.eq(ctx.ff.dt_eigen(A), want, "product of the diagonal", tol=1e-5)
    ctx.eq(ctx.ff.dt_eigen(A.T), want, "product of the diagonal of the transpose", tol=1e-5)


def small(ctx, f, n, s, mirror, ref_, kind="f"):
    """f(s M) / s^(degree) for small s: nothing is rounded away"""
    base, at = spread(n, 0, kind, mirror, free=4)
    M = ctx.mixed("a", base, at, kind, mirror=mirror)
    deg = n if mirror is None else n // 2
    ctx.eq(f(s * M) / s ** deg, ref_(rows(M)), "homogeneous of its degree")


@harness("C02", quick=[dict(n=n, s=s, kind=k) for n, s, k in ((2, 1e-7, "f"), (4, 1e-4, "f"), (4, 1e-3, "c"), (6, 1e-3, "f"), (4, 1e4, "f"))],
         bound="n<=6: fixed matrices with four free entries, scaled by 1e-7 to 1e4", t=40)
def pf_scaled(ctx, n, s, kind):
    small(ctx, ctx.ff.pf, n, s, -1, pf_ref, kind)


@harness("C03", quick=[dict(n=n, s=s, kind=k) for n, s, k in ((2, 1e-7, "f"), (4, 1e-4, "f"), (4, 1e-3, "c"), (6, 1e-3, "f"), (4, 1e4, "f"))],
         bound="n<=6: fixed matrices with four free entries, scaled by 1e-7 to 1e4", t=40)
def hf_scaled(ctx, n, s, kind):
    small(ctx, ctx.ff.hf, n, s, 1, hf_ref, kind)


@harness("C03", quick=[dict(n=n, s=s, kind=k) for n, s, k in ((1, 1e-7, "f"), (2, 1e-4, "f"), (3, 1e-3, "c"), (4, 1e-3, "f"), (5, 1e-3, "f"), (3, 1e4, "f"))],
         bound="n<=5: fixed matrices with four free entries, scaled by 1e-7 to 1e4", t=40)
def pt_scaled(ctx, n, s, kind):
    small(ctx, ctx.ff.pt, n, s, None, pt_ref, kind)


@harness("C04", quick=[dict(n=n, s=s, kind=k) for n, s, k in ((1, 1e-7, "f"), (2, 1e-4, "f"), (3, 1e-3, "c"), (4, 1e-3, "f"), (5, 1e-3, "f"), (3, 1e4, "f"))],
         bound="n<=5: fixed matrices with four free entries, scaled by 1e-7 to 1e4", t=40)
def dt_scaled(ctx, n, s, kind):
    small(ctx, ctx.ff.dt, n, s, None, lambda r: pt_ref(r, -1), kind)


@harness("C04", quick=[dict(n=n, s=s, kind=k) for n, s, k in ((1, 1e-7, "f"), (2, 1e-4, "f"), (2, 1e-3, "c"), (3, 1e-3, "f"))],
         bound="n<=3: fixed matrices with four free entries, scaled by 1e-7 to 1e-3", t=60)
def dt_eigen_scaled(ctx, n, s, kind):
    small(ctx, ctx.ff.dt_eigen, n, s, None, lambda r: pt_ref(r, -1), kind)


@harness("C03", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)], bound="integer matrices with entries in [-5,5], n<=3 (5)")
def pt_integer_exact(ctx, n):
    A = ctx.ints("a", (n, n), -5, 5)
    ctx.check(integral(ctx.ff.pt(A)), "integer input never passes through floating point")


@harness("C04", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)], bound="integer matrices with entries in [-5,5], n<=3 (5)")
def dt_integer_exact(ctx, n):
    A = ctx.ints("a", (n, n), -5, 5)
    ctx.check(integral(ctx.ff.dt(A)), "integer input never passes through floating point")


NARROW = [dict(n=2, dtype="int8"), dict(n=2, dtype="uint8"), dict(n=4, dtype="int8"), dict(n=4, dtype="uint8"), dict(n=2, dtype="int16"), dict(n=4, dtype="uint16")]
NB = "integers stored as 8- or 16-bit types, signed and unsigned, over the type's whole range, n<=4"


def narrow(ctx, n, dtype):
    """machine matrix and the same values as Python integers"""
    U = ctx.narrow_ints("a", (n, n), dtype)
    return U, rows(U.astype(object))


@harness("C02", quick=NARROW, bound=NB + " (the Pfaffian of the antisymmetric part)", t=40)
def pf_narrow_integers(ctx, n, dtype):
    U, R = narrow(ctx, n, dtype)
    want = pf_ref([[R[i][j] - R[j][i] for j in range(n)] for i in range(n)])
    ctx.eq(2 ** (n // 2) * ctx.ff.pf(U), want, "row expansion of the antisymmetric part")


@harness("C03", quick=NARROW, bound=NB, t=40)
def hf_narrow_integers(ctx, n, dtype):
    U, R = narrow(ctx, n, dtype)
    want = hf_ref([[R[i][j] + R[j][i] for j in range(n)] for i in range(n)])
    ctx.eq(2 ** (n // 2) * ctx.ff.hf(U), want, "matchings expansion of the symmetric part")


@harness("C03", quick=[dict(p, n=n) for p in NARROW[:2] for n in (1, 2, 3, 4)] + NARROW[4:], bound=NB, t=40)
def pt_narrow_integers(ctx, n, dtype):
    U, R = narrow(ctx, n, dtype)
    ctx.eq(ctx.ff.pt(U), pt_ref(R), "row expansion")


@harness("C04", quick=[dict(p, n=n) for p in NARROW[:2] for n in (1, 2, 3, 4)] + NARROW[4:], bound=NB, t=40)
def dt_narrow_integers(ctx, n, dtype):
    U, R = narrow(ctx, n, dtype)
    ctx.eq(ctx.ff.dt(U), pt_ref(R, -1), "row expansion")


@harness("C04", quick=[dict(n=1, dtype="int8"), dict(n=2, dtype="uint8")], bound="8-bit integers, n<=2", t=40)
def dt_eigen_narrow_integers(ctx, n, dtype):
    U, R = narrow(ctx, n, dtype)
    ctx.eq(ctx.ff.dt_eigen(U), pt_ref(R, -1), "determinant", tol=1e-5)


def integral(x):
    return np.dtype(getattr(x, "dtype", type(x))).kind in "iu"


@harness("C02", quick=[dict(n=2, m=2), dict(n=2, m=4)], thorough=[dict(n=2, m=6), dict(n=4, m=4)], bound="block sizes up to 2+4 (4+4)", t=40)
def pf_direct_sum(ctx, n, m):
    A, B = ctx.antisym("a", n), ctx.antisym("b", m)
    Z = np.zeros((n, m))
    M = ctx.np.block([[A, Z], [Z.T, B]])
    ctx.eq(ctx.ff.pf(M), ctx.ff.pf(A) * ctx.ff.pf(B), "pf(A (+) B) = pf(A) pf(B)")


@harness("C02", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="n<=3 (4)", t=40)
def pf_bipartite(ctx, n):
    B = ctx.matrix("b", n, n)
    Z = np.zeros((n, n))
    M = ctx.np.block([[Z, B], [-B.T, Z]])
    ctx.eq(ctx.ff.pf(M), (-1) ** (n * (n - 1) // 2) * ctx.ff.dt(B), "pf of a bipartite matrix is +-det")


# ---------------------------------------------------------------- C03 hf, pt


@harness("C03", quick=[dict(n=2), dict(n=4), dict(n=4, kind="c"), dict(n=6)], thorough=[dict(n=8)],
         bound="symmetric n x n, n<=6 (8)", t=40)
def hf_expansion(ctx, n, kind="f"):
    A = ctx.symmetric("a", n, kind)
    h = ctx.ff.hf(A)
    ctx.eq(h, hf_ref(rows(A)), "matchings expansion, diagonal ignored")
    if n <= 4:
        ctx.eq(ctx.ff.hf(rows(A)), h, "nested lists")
        for i in range(n):
            for j in range(i):
                q = list(range(n))
                q[i], q[j] = q[j], q[i]
                ctx.eq(ctx.ff.hf(A[np.ix_(q, q)]), h, "invariant under relabelling")


@harness("C03", quick=[dict(n=0), dict(n=1), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=6), dict(n=7), dict(n=9)], bound="arbitrary square matrices n<=5 (9)")
def hf_general(ctx, n):
    A = ctx.matrix("a", n, n, "c")
    h = ctx.ff.hf(A)
    if n % 2:
        ctx.eq(h, 0, "odd dimension gives 0")
        return
    ctx.eq(h, hf_ref(rows((A + A.T) / 2)) if n else 1, "depends only on the symmetric part")


@harness("C03", quick=[dict(n=4), dict(n=6)], thorough=[dict(n=8)], bound="integer symmetric matrices with entries in [-5,5], n<=6 (8)")
def hf_integer(ctx, n):
    U = ctx.ints("a", (n, n), -5, 5)
    A = ctx.np.triu(U, 1) + ctx.np.triu(U, 1).T
    ctx.eq(ctx.ff.hf(A), hf_ref(rows(A)), "integer entries")


@harness("C03", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="B arbitrary, n<=3 (4)", t=40)
def hf_bipartite(ctx, n):
    B = ctx.matrix("b", n, n, "c")
    Z = np.zeros((n, n))
    M = ctx.np.block([[Z, B], [B.T, Z]])
    ctx.eq(ctx.ff.hf(M), ctx.ff.pt(B), "hf of a bipartite matrix is the permanent")


@harness("C03", quick=[dict(n=4), dict(n=2)], thorough=[dict(n=6), dict(n=8)], bound="n<=4 (8), D arbitrary diagonal")
def hf_scaling(ctx, n):
    A = ctx.symmetric("a", n)
    d = ctx.vector("d", n)
    D = ctx.np.diag(d)
    ctx.eq(ctx.ff.hf(D @ A @ D), ctx.np.prod(d) * ctx.ff.hf(A), "hf(DAD) = det(D) hf(A)")


@harness("C03", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=3, kind="c")], thorough=[dict(n=5), dict(n=6)],
         bound="arbitrary n x n, n<=4 (6)", t=40)
def pt_expansion(ctx, n, kind="f"):
    A = ctx.matrix("a", n, n, kind)
    p = ctx.ff.pt(A)
    ctx.eq(p, pt_ref(rows(A)), "row expansion")
    ctx.eq(ctx.ff.pt(A.T), p, "pt(A^T) = pt(A)")
    ctx.eq(ctx.ff.pt(rows(A)), p, "nested lists")
    if n <= 3:
        for q in itertools.permutations(range(n)):
            ctx.eq(ctx.ff.pt(A[list(q), :]), p, "row order does not matter")
            ctx.eq(ctx.ff.pt(A[:, list(q)]), p, "column order does not matter")


@harness("C03", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)], bound="integer matrices with entries in [-5,5], n<=4 (6)")
def pt_integer(ctx, n):
    A = ctx.ints("a", (n, n), -5, 5)
    ctx.eq(ctx.ff.pt(A), pt_ref(rows(A)), "integer entries")


# ---------------------------------------------------------------- C04 dt, dt_eigen


@harness("C04", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=3, kind="c")], thorough=[dict(n=5), dict(n=6)],
         bound="arbitrary n x n, n<=4 (6)", t=40)
def dt_expansion(ctx, n, kind="f"):
    A = ctx.matrix("a", n, n, kind)
    p = ctx.ff.dt(A)
    ctx.eq(p, pt_ref(rows(A), -1), "row expansion")
    ctx.eq(ctx.ff.dt(A.T), p, "dt(A^T) = dt(A)")
    ctx.eq(ctx.ff.dt(rows(A)), p, "nested lists")
    ctx.eq(ctx.np.linalg.det(A), p, "agrees with the linear-algebra determinant")


@harness("C04", quick=[dict(n=2), dict(n=3), dict(n=2, kind="c")], thorough=[dict(n=5), dict(n=4), dict(n=3, kind="c")],
         bound="arbitrary pairs, n<=3 (4)", t=60)
def dt_multiplicative(ctx, n, kind="f"):
    A, B = ctx.matrix("a", n, n, kind), ctx.matrix("b", n, n, kind)
    ctx.eq(ctx.ff.dt(A @ B), ctx.ff.dt(A) * ctx.ff.dt(B), "dt(AB) = dt(A) dt(B)")


@harness("C04", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)], bound="integer matrices with entries in [-5,5], n<=4 (6)")
def dt_integer(ctx, n):
    A = ctx.ints("a", (n, n), -5, 5)
    ctx.eq(ctx.ff.dt(A), pt_ref(rows(A), -1), "integer entries")


@harness("C04", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=2, kind="c")], thorough=[dict(n=5), dict(n=4), dict(n=3, kind="c")],
         bound="arbitrary square matrices n<=3 (4)")
def dt_eigen_is_det(ctx, n, kind="f"):
    A = ctx.matrix("a", n, n, kind)
    ctx.eq(ctx.ff.dt_eigen(A), pt_ref(rows(A), -1), "product of eigenvalues is the determinant", tol=1e-5)


@harness("C04", quick=[dict(n=2, m=3), dict(n=3, m=2), dict(n=1, m=4)], thorough=[dict(n=3, m=5), dict(n=5, m=4), dict(n=1, m=7), dict(n=6, m=2)], bound="rectangular shapes up to 6 rows and 7 columns")
def dt_eigen_nonsquare(ctx, n, m):
    A = ctx.matrix("a", n, m)
    ctx.check(ctx.ff.dt_eigen(A) is None, "non-square gives None")
