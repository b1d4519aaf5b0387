"""casting to states and distributions, partial traces, cleaning and formatting"""
import math

import numpy as np

from ..registry import harness
from .. import ref


def dag(x):
    return x.conj().T


def density(ctx, name, n, rank=None):
    """every n x n density matrix of rank <= rank: X X^dag with X on the unit sphere"""
    rank = rank or n
    X = ctx.sphere(name, n * rank, "c").reshape(n, rank)
    rho = X @ dag(X)
    ctx.ghost_psd(rho)
    return rho


# ---------------------------------------------------------------- C17 casting


@harness("C17", quick=[dict(n=2), dict(n=4, shape="col"), dict(n=2, shape="row"), dict(n=3), dict(n=4, kind="f")], thorough=[dict(n=16), dict(n=16, shape='col', kind='f'), dict(n=8)],
         bound="every unit vector of length n<=4 (16), real or complex, flat, column or row", t=60)
def cast_wavefunction(ctx, n, shape="flat", kind="c"):
    v = ctx.sphere("v", n, kind)
    x = {"flat": v, "col": v.reshape(n, 1), "row": v.reshape(1, n)}[shape]
    rho = ctx.ff.cast_to_density_matrix(x)
    ctx.same(tuple(rho.shape), (n, n), "square")
    ctx.eq(rho, v.reshape(n, 1) @ v.conj().reshape(1, n), "projector on the wavefunction")


@harness("C17", quick=[dict(n=2), dict(n=3), dict(n=4, shape="col")], thorough=[dict(n=16), dict(n=32, shape='col'), dict(n=8)],
         bound="every distribution of length n<=4 (32) other than the point ones (cast_wavefunction has those)", t=60)
def cast_distribution(ctx, n, shape="flat"):
    p = ctx.simplex("p", n)
    ctx.assume((p @ p) < 1)
    rho = ctx.ff.cast_to_density_matrix(p if shape == "flat" else p.reshape(n, 1))
    ctx.eq(rho, ctx.np.diag(p), "diagonal matrix of the distribution")
    ctx.eq(ctx.ff.cast_to_pdf(p), p, "distribution casts to itself")


@harness("C17", quick=[dict(n=2), dict(n=4, rank=2), dict(n=3, rank=2)], thorough=[dict(n=8, rank=1), dict(n=6, rank=2), dict(n=8, rank=2), dict(n=3), dict(n=4)],
         bound="every n x n density matrix of the given rank, n<=4 (8)", t=60)
def cast_matrix(ctx, n, rank=None):
    rho = density(ctx, "r", n, rank)
    r = ctx.ff.cast_to_density_matrix(rho)
    ctx.eq(r, rho, "density matrices pass through unchanged")
    p = ctx.ff.cast_to_pdf(rho)
    ctx.eq(p, ctx.np.diag(rho).real, "diagonal")
    for i in range(n):
        ctx.check(p[i] >= 0, "nonnegative")


@harness("C17", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=8), dict(n=16)], bound="every unit vector of length n<=4 (16)", t=60)
def cast_pdf_of_wavefunction(ctx, n):
    v = ctx.sphere("v", n, "c")
    p = ctx.ff.cast_to_pdf(v)
    for i in range(n):
        ctx.eq(p[i], v[i].real * v[i].real + v[i].imag * v[i].imag, "Born rule")


@harness("C17", quick=[dict(n=2), dict(n=3), dict(n=2, shape="col")], thorough=[dict(n=4), dict(n=6)], bound="every real vector whose l1 and l2 norms both differ from 1 by > 5e-5", t=60, paths=200)
def cast_rejects_unnormalised(ctx, n, shape="flat"):
    v = ctx.vector("v", n)
    s2 = v @ v
    ctx.assume(ctx.or_(s2 > 1.0001, s2 < 0.9999))
    s1 = sum(abs(x) for x in v)
    ctx.assume(ctx.or_(s1 > 1.00005, s1 < 0.99995))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(v if shape == "flat" else v.reshape(n, 1)), ValueError, "unnormalised vector refused")


@harness("C17", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=6)], bound="every complex square matrix violating trace 1 by > 3e-5", t=60, paths=200)
def cast_rejects_trace(ctx, n):
    M = ctx.hermitian("m", n)
    t = sum(M[i, i].real for i in range(n))
    ctx.assume(ctx.or_(t > 1.00003, t < 0.99997))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "trace differs from 1")


@harness("C17", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="every trace-one matrix that is not Hermitian by > 1e-2 somewhere", t=60, paths=200)
def cast_rejects_nonhermitian(ctx, n):
    M = ctx.matrix("m", n, n, "c")
    M[n - 1, n - 1] = 1 - sum(M[i, i] for i in range(n - 1))
    bad = []
    for i in range(n):
        for j in range(i):
            d = M[i, j] - M[j, i].conj()
            bad += [d.real > 1e-2, d.real < -1e-2, d.imag > 1e-2, d.imag < -1e-2]
    ctx.assume(ctx.or_(*bad))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "not Hermitian")


@harness("C17", quick=[dict(n=2), dict(n=3)], bound="every trace-one matrix with entries in the unit square that is not Hermitian by > 3e-5 somewhere", t=60, paths=200)
def cast_rejects_slightly_nonhermitian(ctx, n):
    M = ctx.matrix("m", n, n, "c")
    for i in range(n):
        for j in range(n):
            for x in (M[i, j].real, M[i, j].imag):
                ctx.assume(ctx.and_(x < 1, x > -1))
    M[n - 1, n - 1] = 1 - sum(M[i, i] for i in range(n - 1))
    bad = []
    for i in range(n):
        for j in range(i):
            d = M[i, j] - M[j, i].conj()
            bad += [d.real > 3e-5, d.real < -3e-5, d.imag > 3e-5, d.imag < -3e-5]
        bad += [M[i, i].imag > 3e-5, M[i, i].imag < -3e-5]
    ctx.assume(ctx.or_(*bad))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "not Hermitian")


@harness("C17", quick=[dict(n=2, k="c"), dict(n=2, k="f"), dict(n=4, k="f")], t=60, paths=100,
         bound="2x2 matrices (and 4x4 ones with that corner) of positive diagonal in [0.3, 0.7], off-diagonal parts in [-0.2, 0.2], one part of one entry differing from its mirror by 3e-5 to 0.05")
def cast_rejects_skew(ctx, n, k):
    """positive apart from the asymmetry, which is refused for itself"""
    p = ctx.real("p", 0.3, 0.7)
    c, d = ctx.real("c", -0.2, 0.2), ctx.real("d", -0.2, 0.2)
    e = ctx.real("e", 3e-5, 0.05)
    lo = c + 1j * d if k == "c" else c
    for up in ((c + e - 1j * d, c - e - 1j * d, c + 1j * (e - d), c - 1j * (e + d)) if k == "c" else (c + e, c - e)):
        M = ctx.np.zeros((n, n), dtype=complex if k == "c" else float) * 1
        M[0, 0], M[1, 1], M[0, 1], M[1, 0] = p, 1 - p, up, lo
        ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "not Hermitian")
        ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M.T), AssertionError, "not Hermitian, transposed")


@harness("C17", quick=[dict(n=2), dict(n=3), dict(n=3, shape="col"), dict(n=4)], thorough=[dict(n=6)],
         bound="every signed vector of absolute sum one with an entry below -1e-9 and l2 norm at most 0.999", t=60, paths=300)
def cast_rejects_signed_vector(ctx, n, shape="flat"):
    p = ctx.simplex("p", n)
    s = [ctx.tree(ctx.bool("s%d" % i)) for i in range(n)]
    q = ctx.np.array([-p[i] if s[i] else p[i] for i in range(n)])
    ctx.assume((p @ p) < 0.998)
    ctx.assume(ctx.or_(*([p[i] > 1e-9 for i in range(n) if s[i]] or [p[0] < 0])))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(q if shape == "flat" else q.reshape(n, 1)), AssertionError, "negative entry")


@harness("C17", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=6), dict(n=8)], bound="every real diagonal matrix of trace one with an entry below -1e-9", t=60, paths=200)
def cast_rejects_negative_diagonal(ctx, n):
    p = ctx.vector("p", n - 1)
    d = [p[i] for i in range(n - 1)] + [1 - sum(p[i] for i in range(n - 1))]
    ctx.assume(ctx.or_(*[x < -1e-9 for x in d]))
    M = ctx.np.diag(ctx.np.array(d))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "negative eigenvalue")
    ctx.raises(lambda: ctx.ff.cast_to_pdf(M), AssertionError, "negative probability")


@harness("C17", quick=[dict(n=2)], bound="every Hermitian trace-one 2x2 matrix with a principal minor < -1e-6", t=60, paths=200)
def cast_rejects_negative(ctx, n):
    M = ctx.hermitian("m", n)
    M[n - 1, n - 1] = 1 - sum(M[i, i] for i in range(n - 1))
    neg = [M[i, i].real < -1e-6 for i in range(n)]
    for i in range(n):
        for j in range(i):
            d = (M[i, i] * M[j, j] - M[i, j] * M[j, i]).real
            neg.append(d < -1e-6)
    ctx.assume(ctx.or_(*neg))
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "negative eigenvalue")


PAIRINGS = {"adjacent": [0, 1, 2, 3], "crossed": [0, 2, 1, 3], "nested": [0, 3, 1, 2]}


@harness("C17", quick=[dict(pairing=k) for k in PAIRINGS], bound="4x4: every Hermitian trace-one sum of two 2x2 blocks with positive diagonals, one (or both) of negative determinant below -1e-6; three index pairings", t=60, paths=200)
def cast_rejects_negative_blocks(ctx, pairing):
    ix = PAIRINGS[pairing]
    d = ctx.simplex("d", 4)
    M = ctx.np.zeros((4, 4)) * 1j + 0 * d[0]
    neg = []
    for b in (0, 2):
        c = ctx.cplx("c%d" % b)
        i, j = ix[b], ix[b + 1]
        M[i, i], M[j, j], M[i, j], M[j, i] = d[b], d[b + 1], c, c.conjugate()
        neg.append(d[b] * d[b + 1] - (c * c.conjugate()).real < -1e-6)
    ctx.assume(neg[0])
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), AssertionError, "negative eigenvalue")


@harness("C17", quick=[dict(n=2, m=3), dict(n=4, m=2)], thorough=[dict(n=3, m=4), dict(n=5, m=3), dict(n=8, m=2), dict(n=2, m=8), dict(n=4, m=5)], bound="rectangular matrices", t=60)
def cast_rejects_shape(ctx, n, m):
    M = ctx.matrix("m", n, m, "c")
    ctx.raises(lambda: ctx.ff.cast_to_density_matrix(M), ValueError, "not square")


# ---------------------------------------------------------------- C18 partial traces


@harness("C18", quick=[dict(a=a, b=b) for a in range(1, 18) for b in range(1, 18) if a * b <= 36 and (a, b) != (1, 1)], thorough=[dict(a=6, b=8), dict(a=8, b=8), dict(a=32, b=2), dict(a=2, b=32)],
         bound="every pair of dimensions up to 17 with product at most 36 (8x8, 32x2, 2x32), every complex matrix", t=40)
def partial_trace_definition(ctx, a, b):
    M = ctx.matrix("m", a * b, a * b, "c")
    R2 = ctx.ff.partial_trace_over_1(M, b)
    ctx.same(tuple(R2.shape), (b, b), "shape of the second factor")
    for k in range(b):
        for l in range(b):
            ctx.eq(R2[k, l], sum(M[i * b + k, i * b + l] for i in range(a)), "trace over the first factor")
    R1 = ctx.ff.partial_trace_over_2(M, a)
    ctx.same(tuple(R1.shape), (a, a), "shape of the first factor")
    for i in range(a):
        for j in range(a):
            ctx.eq(R1[i, j], sum(M[i * b + k, j * b + k] for k in range(b)), "trace over the second factor")
    ctx.eq(ctx.np.trace(R1), ctx.np.trace(M), "trace preserved", tol=1e-6)
    ctx.eq(ctx.np.trace(R2), ctx.np.trace(M), "trace preserved", tol=1e-6)


@harness("C18", quick=[dict(a=16, b=8), dict(a=8, b=16), dict(a=2, b=64), dict(a=64, b=2), dict(a=4, b=32), dict(a=32, b=4), dict(a=11, b=11)],
         thorough=[dict(a=16, b=16), dict(a=128, b=2), dict(a=2, b=128)],
         bound="dimensions up to 128 (256): every matrix with arbitrary complex entries on four scattered diagonals, zero elsewhere", t=60)
def partial_trace_large(ctx, a, b):
    D = a * b
    M = ctx.np.zeros((D, D), dtype=complex) * 1
    v = ctx.matrix("m", 4, D, "c")
    for r in range(D):
        for k, c in enumerate((r, (r + b) % D, r // b * b + (r + 1) % b, (r + 2 * b + 1) % D)):
            M[r, c] = v[k, r]
    R2 = ctx.ff.partial_trace_over_1(M, b)
    R1 = ctx.ff.partial_trace_over_2(M, a)
    ctx.same((tuple(R2.shape), tuple(R1.shape)), ((b, b), (a, a)), "shapes of the factors")
    E2 = ctx.np.array([[sum(M[i * b + k, i * b + l] for i in range(a)) for l in range(b)] for k in range(b)])
    E1 = ctx.np.array([[sum(M[i * b + k, j * b + k] for k in range(b)) for j in range(a)] for i in range(a)])
    ctx.eq(R2, E2, "trace over the first factor")
    ctx.eq(R1, E1, "trace over the second factor")


@harness("C18", quick=[dict(a=2, b=2), dict(a=2, b=3), dict(a=3, b=2)], thorough=[dict(a=5, b=2), dict(a=2, b=5), dict(a=8, b=2), dict(a=2, b=8), dict(a=4, b=4), dict(a=6, b=5), dict(a=4, b=3)], bound="every product A (x) B", t=40)
def partial_trace_product(ctx, a, b):
    A, B = ctx.matrix("a", a, a, "c"), ctx.matrix("b", b, b, "c")
    M = ctx.np.kron(A, B)
    ctx.eq(ctx.ff.partial_trace_over_2(M, a), A * ctx.np.trace(B), "first factor times trace of the second")
    ctx.eq(ctx.ff.partial_trace_over_1(M, b), B * ctx.np.trace(A), "second factor times trace of the first")


@harness("C18", quick=[dict(a=2, b=2), dict(a=2, b=3)], thorough=[dict(a=3, b=3), dict(a=2, b=4), dict(a=4, b=2), dict(a=2, b=8)], bound="every real or Hermitian matrix with entries in [-10, 10]", t=40, box=10)
def partial_trace_real(ctx, a, b):
    M = ctx.matrix("m", a * b, a * b)
    R1, R2 = ctx.ff.partial_trace_over_2(M, a), ctx.ff.partial_trace_over_1(M, b)
    ctx.eq(R1.imag, np.zeros((a, a)), "real stays real")
    ctx.eq(R2.imag, np.zeros((b, b)), "real stays real")
    H = ctx.hermitian("h", a * b)
    R1, R2 = ctx.ff.partial_trace_over_2(H, a), ctx.ff.partial_trace_over_1(H, b)
    ctx.eq(R1, dag(R1), "Hermitian stays Hermitian")
    ctx.eq(R2, dag(R2), "Hermitian stays Hermitian")
    x = ctx.hermitian("x", b)
    ctx.eq(ctx.np.trace(R2 @ x), ctx.np.trace(H @ ctx.np.kron(np.eye(a), x)), "reduced expectation values agree", tol=1e-5)
    y = ctx.hermitian("y", a)
    ctx.eq(ctx.np.trace(R1 @ y), ctx.np.trace(H @ ctx.np.kron(y, np.eye(b))), "reduced expectation values agree", tol=1e-5)


@harness("C18", quick=[dict(D=D, d=d) for D in range(2, 13) for d in range(2, 16) if D % d], bound="D<=12, d<=15: dimensions that do not divide")
def partial_trace_rejects(ctx, D, d):
    M = ctx.matrix("m", D, D, "c")
    ctx.raises(lambda: ctx.ff.partial_trace_over_1(M, d), AssertionError, "dimension must divide")
    ctx.raises(lambda: ctx.ff.partial_trace_over_2(M, d), AssertionError, "dimension must divide")


# ---------------------------------------------------------------- C19 cleaning, formatting, printing


H = 0.5001          # ties round either way in floating point


def thr_of(t):
    return 10.0 ** -t if isinstance(t, int) else t


def prec_of(t):
    """the rounding step of a threshold: the power of ten nearest to it (on a logarithmic scale)"""
    return 10.0 ** -t if isinstance(t, int) else 10.0 ** round(math.log10(t))


def cleaned(ctx, y, x, t):
    """y is x, rounded, or zero if that is below the threshold"""
    thr, pr = thr_of(t), prec_of(t)
    near = ctx.and_(y - x <= H * pr, x - y <= H * pr)
    if pr < thr * 0.999:
        near = ctx.or_(near, ctx.and_(y == 0, x <= thr + H * pr, x >= -thr - H * pr))
    ctx.check(near, "moved by at most half a rounding step, unless it is below the threshold", tol=1e-9)
    if thr > H * pr:
        lim = thr - H * pr
        ctx.check(ctx.or_(x >= lim, x <= -lim, y == 0), "small values become zero", tol=1e-12)


@harness("C19", quick=[dict(t=1e-6), dict(t=1e-3), dict(t=2), dict(t=4), dict(t=1e-1), dict(t=0), dict(t=3e-6), dict(t=0.25), dict(t=0.02), dict(t=5e-3), dict(t=7e-4)], thorough=[dict(t=1e-12), dict(t=1e-9), dict(t=1), dict(t=3), dict(t=8), dict(t=12)], bound="every real in [-10,10], thresholds listed", t=40)
def clean_real(ctx, t):
    x = ctx.real("x", -10, 10)
    y = ctx.ff.clean(x, t) if t != 1e-6 else ctx.ff.clean(x)
    cleaned(ctx, y, x, t)


@harness("C19", quick=[dict(t=1e-6), dict(t=1e-3), dict(t=2)], thorough=[dict(t=1e-9), dict(t=1), dict(t=3), dict(t=8)], bound="every complex number in [-10,10]^2", t=40)
def clean_complex(ctx, t):
    z = ctx.cplx("z")
    thr = thr_of(t)
    y = ctx.ff.clean(z, t) if t != 1e-6 else ctx.ff.clean(z)
    ctx.check(ctx.and_(y.real - z.real <= H * thr, z.real - y.real <= H * thr), "real part moved by at most half the threshold", tol=1e-9)
    ctx.check(ctx.and_(y.imag - z.imag <= thr, z.imag - y.imag <= thr), "imaginary part moved by at most the threshold", tol=1e-9)
    if ctx.tree(abs(z.imag) < thr * 0.999):
        ctx.eq(y.imag, 0, "negligible imaginary part dropped", tol=1e-12)
    elif ctx.tree(abs(z.imag) > thr * 1.001):
        ctx.check(ctx.and_(y.imag - z.imag <= H * thr, z.imag - y.imag <= H * thr), "imaginary part kept", tol=1e-9)


@harness("C19", quick=[dict(n=2, m=2, t=1e-6), dict(n=1, m=3, t=3), dict(n=2, m=2, t=1e-3, kind="c"), dict(n=1, m=2, t=3e-6), dict(n=2, m=1, t=0.25)], thorough=[dict(n=3, m=3, t=1e-6), dict(n=2, m=3, t=1e-6, kind='c'), dict(n=4, m=1, t=4), dict(n=1, m=4, t=2, kind='c')], bound="every n x m array, real or complex", t=60, paths=200)
def clean_array(ctx, n, m, t, kind="f"):
    A = ctx.matrix("a", n, m, kind)
    B = A.copy()
    thr = thr_of(t)
    Y = ctx.ff.clean(A, t)
    ctx.same(tuple(Y.shape), (n, m), "shape preserved")
    ctx.eq(A, B, "argument unchanged")
    for i in range(n):
        for j in range(m):
            if kind != "c":
                cleaned(ctx, Y[i, j], A[i, j], t)
                continue
            d = Y[i, j].real - A[i, j].real
            ctx.check(ctx.and_(d <= H * thr, d >= -H * thr), "moved by at most half the threshold", tol=1e-9)
            if kind == "c":
                d = Y[i, j].imag - A[i, j].imag
                ctx.check(ctx.and_(d <= thr, d >= -thr), "imaginary part moved by at most the threshold", tol=1e-9)
    if kind == "c":
        return
    if prec_of(t) >= thr_of(t) * 0.999:
        # what cleaning returns, a multiple of the rounding step, is left alone
        Z = ctx.ints("k", (n, m), -1000, 1000) * prec_of(t)
        ctx.eq(ctx.ff.clean(Z, t), Z, "clean values are left alone", tol=1e-9)


@harness("C19", quick=[dict(n=3, t=1e-6), dict(n=2, t=2), dict(n=2, t=0.25), dict(n=2, t=4e-3)], thorough=[dict(n=4, t=3), dict(n=3, t=1e-2)], bound="lists of n reals", t=60, paths=200)
def clean_list(ctx, n, t):
    v = ctx.vector("v", n)
    l = [v[i] for i in range(n)]
    y = ctx.ff.clean(l, t)
    ctx.same(type(y).__name__, "list", "lists give lists")
    ctx.same(len(y), n, "length preserved")
    for i in range(n):
        cleaned(ctx, y[i], v[i], t)
        ctx.eq(l[i], v[i], "argument unchanged")


@harness("C19", quick=[dict(n=3)], thorough=[dict(n=5), dict(n=8)], bound="complex arrays whose imaginary parts are all below the threshold", t=60)
def clean_drops_imaginary(ctx, n):
    x = ctx.vector("x", n)
    e = ctx.vector("e", n)
    for i in range(n):
        ctx.assume(ctx.and_(e[i] < 0.99, e[i] > -0.99))
    z = x + 1j * 1e-6 * e
    y = ctx.ff.clean(z)
    ctx.same(np.dtype(getattr(y, "dtype", float)).kind, "f", "real array returned")


@harness("C19", quick=[dict(s="abc"), dict(s="1.23456789"), dict(s="7"), dict(s="1.2.3"), dict(s="")], bound="strings listed")
def clean_string(ctx, s):
    y = ctx.ff.clean(s, 3)
    try:
        v = float(s)
        ctx.check(abs(float(y) - v) <= 0.5e-3 + 1e-12, "numeric text is rounded")
    except ValueError:
        ctx.same(y, s, "other text is returned as is")


@harness("C19", quick=[dict(p=6), dict(p=2), dict(p=0), dict(p=10)], thorough=[dict(p=1), dict(p=3), dict(p=4), dict(p=5), dict(p=8), dict(p=12)], bound="every real number; precision listed", t=40)
def format_real(ctx, p):
    x = ctx.real("x")
    s = ctx.ff.formatted_output(x, precision=p) if p != 6 else ctx.ff.formatted_output(x)
    ctx.check(s == ctx.fmt(x, ".%df" % p), "fixed point with the requested decimals")


@harness("C19", quick=[dict(p=6), dict(p=3)], thorough=[dict(p=0), dict(p=1), dict(p=2), dict(p=8)], bound="every complex number", t=40)
def format_complex(ctx, p):
    z = ctx.cplx("z")
    s = ctx.ff.formatted_output(z, precision=p)
    if ctx.tree(abs(z.imag) < 0.9e-10):
        ctx.check(s == ctx.fmt(z.real, ".%df" % p), "negligible imaginary part omitted")
    elif ctx.tree(abs(z.imag) > 1.1e-10):
        ctx.check(s == ctx.fmt(z.real, ".%df" % p) + " + " + ctx.fmt(z.imag, ".%df" % p) + "j", "both parts shown")


@harness("C19", quick=[dict(kind="f"), dict(kind="c"), dict(kind="scalar"), dict(kind="str"), dict(kind="list"), dict(kind="dict")],
         bound="every prior precision in 0..12 and requested precision in 1..12 (complex arrays: 7..9 and 2..4); arrays, scalars, lists, text, other objects", t=60, paths=400)
def print_restores_options(ctx, kind):
    p, k = (ctx.int("p", 7, 9), ctx.int("k", 2, 4)) if kind == "c" else (ctx.int("p", 0, 12), ctx.int("k", 1, 12))
    ctx.np.set_printoptions(precision=int(p))
    x = {"f": lambda: ctx.matrix("m", 2, 2), "c": lambda: ctx.matrix("m", 2, 2, "c"), "scalar": lambda: ctx.real("x"),
         "str": lambda: "text", "list": lambda: [1.0, 2.0, 3.5], "dict": lambda: {"a": 1}}[kind]()
    before = dict(ctx.np.get_printoptions())
    for f in (ctx.ff.print_custom, ctx.ff.ff_utils._print)[:1 if kind == "dict" else 2]:
        f(x, k)
        ctx.check(dict(ctx.np.get_printoptions()) == before, "global print options restored")
