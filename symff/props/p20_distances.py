"""distances, divergences and entropies of distributions; trace distance"""
import numpy as np

from ..registry import harness
from .. import ref
from .p17_states import density


def dag(x):
    return x.conj().T


def dist(ctx, name, n, zeros=(), point=False):
    """every distribution of length n that vanishes exactly at `zeros` (and is not a point)"""
    p = ctx.simplex(name, n - len(zeros))
    for x in p:
        ctx.assume(x > 1e-5)
    if n - len(zeros) > 1:
        ctx.assume(p @ p < 1)
    out, k = [], 0
    for i in range(n):
        if i in zeros:
            out.append(0.0)
        else:
            out.append(p[k])
            k += 1
    return ctx.np.array(out)


FORMS = ["pdf", "wave", "col", "rho", "mixed"]


def present(ctx, p, form, name):
    """the distribution p in another accepted form, with arbitrary phases / coherences"""
    n = len(p)
    if form == "pdf":
        return p
    if form in ("wave", "col"):
        v = []
        for i in range(n):
            th, u = ctx.angle("%sph%d" % (name, i))
            v.append(ctx.np.sqrt(p[i]) * u)
        v = ctx.np.array(v)
        return v.reshape(n, 1) if form == "col" else v
    if form == "rho":
        return ctx.np.diag(p)
    raise ValueError(form)


# ---------------------------------------------------------------- C20


def tvd_ref(ctx, p, q):
    t = 0
    for a, b in zip(p, q):
        t = t + ctx.np.abs(a - b)
    return t / 2


def bc_ref(ctx, p, q):
    t = 0
    for a, b in zip(p, q):
        t = t + ctx.np.sqrt(a * b)
    return t


def kl_ref(ctx, p, q, zp=()):
    t = 0
    for i, (a, b) in enumerate(zip(p, q)):
        if i not in zp:
            t = t + a * (ctx.np.log(a) - ctx.np.log(b))
    return t


@harness("C20", quick=[dict(n=10, zp=[0, 2, 3, 5, 6, 8, 9], zq=[1, 2, 3, 5, 6, 8, 9]), dict(n=2), dict(n=3), dict(n=4), dict(n=3, zp=[0]), dict(n=3, zp=[2], zq=[2]), dict(n=2, zp=[0], zq=[1])], thorough=[dict(n=8), dict(n=12), dict(n=6, zp=[0, 3], zq=[2, 3]), dict(n=6)],
         bound="pairs of distributions of length n<=4 and 10 with few outcomes (12); zero patterns listed; other entries > 1e-5", t=60, paths=100)
def total_variation(ctx, n, zp=(), zq=()):
    p, q = dist(ctx, "p", n, zp), dist(ctx, "q", n, zq)
    d = ctx.ff.total_variation_distance(p, q)
    ctx.eq(d, tvd_ref(ctx, p, q), "half the l1 distance")
    ctx.eq(ctx.ff.total_variation_distance(q, p), d, "symmetric")
    ctx.le(0, d, "not negative")
    ctx.le(d, 1, "at most one")
    ctx.eq(ctx.ff.total_variation_distance(p, p), 0, "zero on equal distributions")


@harness("C20", quick=[dict(n=10, zp=[0, 2, 3, 5, 6, 8, 9], zq=[1, 2, 3, 5, 6, 8, 9]), dict(n=2), dict(n=3), dict(n=4), dict(n=3, zp=[0]), dict(n=3, zp=[2], zq=[2]), dict(n=2, zp=[0], zq=[1])], thorough=[dict(n=8), dict(n=6, zp=[0, 3], zq=[2, 3]), dict(n=6)],
         bound="as above", t=60, paths=100)
def bhattacharyya(ctx, n, zp=(), zq=()):
    p, q = dist(ctx, "p", n, zp), dist(ctx, "q", n, zq)
    b = ctx.ff.bhattacharyya_coeff(p, q)
    ctx.eq(b, bc_ref(ctx, p, q), "sum of geometric means")
    ctx.eq(ctx.ff.bhattacharyya_coeff(q, p), b, "symmetric")
    ctx.eq(ctx.ff.bhattacharyya_coeff(p, p), 1, "one on equal distributions")
    ctx.le(0, b, "not negative")


@harness("C20", quick=[dict(n=10, zp=[0, 2, 3, 5, 6, 8, 9], zq=[2, 3, 5, 6, 8, 9]), dict(n=2), dict(n=3), dict(n=4), dict(n=3, zp=[0]), dict(n=3, zp=[2], zq=[2])], thorough=[dict(n=8), dict(n=12), dict(n=6, zp=[0, 3], zq=[3]), dict(n=6)], bound="as above; q > 0 wherever p > 0", t=60, paths=100)
def kullback_leibler(ctx, n, zp=(), zq=()):
    p, q = dist(ctx, "p", n, zp), dist(ctx, "q", n, zq)
    ctx.eq(ctx.ff.relative_entropy(p, q), kl_ref(ctx, p, q, zp), "sum p log(p/q)")
    ctx.eq(ctx.ff.relative_entropy(p, p), 0, "zero on equal distributions")


@harness("C20", quick=[dict(n=2, zq=[1]), dict(n=3, zq=[0])], thorough=[dict(n=4, zq=[3]), dict(n=6, zq=[1, 4]), dict(n=8, zq=[7])], bound="q = 0 somewhere p > 0", t=60)
def kullback_leibler_infinite(ctx, n, zq=()):
    p, q = dist(ctx, "p", n), dist(ctx, "q", n, zq)
    d = ctx.ff.relative_entropy(p, q)
    ctx.check(isinstance(d, float) and d == float("inf") if not hasattr(d, "p") else False, "infinite when q misses part of p's support")


@harness("C20", quick=[dict(n=10, zp=[0, 2, 3, 5, 6, 8, 9], zq=[1, 2, 3, 5, 6, 8, 9]), dict(n=2), dict(n=3), dict(n=4), dict(n=3, zp=[0]), dict(n=3, zp=[2], zq=[2]), dict(n=2, zp=[0], zq=[1])], thorough=[dict(n=8), dict(n=12), dict(n=6, zp=[0, 3], zq=[2, 3]), dict(n=6)], bound="as above", t=60, paths=100)
def jensen_shannon(ctx, n, zp=(), zq=()):
    p, q = dist(ctx, "p", n, zp), dist(ctx, "q", n, zq)
    m = (p + q) / 2
    d = ctx.ff.jensen_shannon_divergence(p, q)
    ctx.eq(d, (kl_ref(ctx, p, m, zp) + kl_ref(ctx, q, m, zq)) / 2, "mean divergence from the midpoint")
    ctx.eq(ctx.ff.jensen_shannon_divergence(q, p), d, "symmetric")
    ctx.eq(ctx.ff.jensen_shannon_divergence(p, p), 0, "zero on equal distributions")


@harness("C20", quick=[dict(n=2, form="wave"), dict(n=3, form="col"), dict(n=3, form="rho"), dict(n=2, form="rho", other="wave")], thorough=[dict(n=5, form='col'), dict(n=4, form='rho'), dict(n=6, form='wave'), dict(n=4, form="wave")],
         bound="length n<=3 (6); wavefunctions with arbitrary phases, density matrices", t=60, paths=100)
def any_form(ctx, n, form, other="pdf"):
    """wavefunctions and density matrices stand for their distributions"""
    p, q = dist(ctx, "p", n), dist(ctx, "q", n)
    x, y = present(ctx, p, form, "x"), present(ctx, q, other, "y")
    f = ctx.ff
    ctx.eq(f.total_variation_distance(x, y), tvd_ref(ctx, p, q), "total variation")
    ctx.eq(f.bhattacharyya_coeff(x, y), bc_ref(ctx, p, q), "Bhattacharyya")
    ctx.eq(f.relative_entropy(x, y), kl_ref(ctx, p, q), "relative entropy")
    ctx.eq(f.relative_entropy(y, x), kl_ref(ctx, q, p), "relative entropy, reversed")
    m = (p + q) / 2
    ctx.eq(f.jensen_shannon_divergence(x, y), (kl_ref(ctx, p, m) + kl_ref(ctx, q, m)) / 2, "Jensen-Shannon")


# ---------------------------------------------------------------- C21


@harness("C21", quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=4, z=[1]), dict(n=3, z=[0, 1]), dict(n=1), dict(n=10, z=[0, 1, 3, 4, 6, 7, 8])], thorough=[dict(n=12), dict(n=8)],
         bound="distributions of length n<=4 and 10 with few outcomes (12), zero patterns listed", t=60, paths=100)
def renyi_values(ctx, n, z=()):
    p = dist(ctx, "p", n, z)
    lg = ctx.np.log
    nz = [p[i] for i in range(n) if i not in z]
    f = ctx.ff.renyi_entropy
    ctx.eq(f(p, 0), lg(len(nz)), "order 0: log of the support size")
    t = 0
    for x in nz:
        t = t - x * lg(x)
    ctx.eq(f(p, 1), t, "order 1: Shannon entropy")
    for a in (2, 3, 4):
        s = 0
        for x in nz:
            s = s + x ** a
        ctx.eq(f(p, a), -lg(s) / (a - 1), "order %d" % a)
    s = 0
    for x in nz:
        s = s + ctx.np.sqrt(x)
    ctx.eq(f(p, 0.5), 2 * lg(s), "order one half")
    if n > 4 and z:
        return
    m = nz[0]
    for x in nz[1:]:
        m = ctx.np.maximum(m, x)
    ctx.eq(f(p, float("inf")), -lg(m), "order infinity: -log of the largest")


@harness("C21", quick=[dict(n=2), dict(n=3), dict(n=5)], bound="length n<=5: one probability in [0.1, 1], one in [1e-14, 1e-11], one in [1e-8, 1e-6], the others in [0.01, 1] or zero", t=60)
def renyi_support(ctx, n):
    """every non-zero probability counts at order zero, however small"""
    a, b = ctx.real("a", 1, 1000), ctx.real("b", 1, 100)
    small = [a * 1e-14, b * 1e-8][:n - 1]
    rest = [0.0, ctx.real("c", 0.01, 0.5)][:n - 1 - len(small)]
    p = ctx.np.array(small + [1 - sum(small) - sum(rest)] + rest)
    ctx.eq(ctx.ff.renyi_entropy(p, 0), ctx.np.log(len(small) + 1 + len(rest[1:])), "order 0: log of the support size")


@harness("C21", quick=[dict(n=n, a=a) for n in (1, 2, 3) for a in (0.01, 0.25, 0.9, 0.99, 1.01, 1.5, 2.5, 5)] +
         [dict(n=2, a=a) for a in (0.001, 0.1, 0.7, 0.999, 1.001, 1.1, 3.5, 7, 10, 20, 31.5, 50, 100)], thorough=[dict(n=3, a=a) for a in (7,)] + [dict(n=4, a=a) for a in (0.1, 0.99, 1.01, 5)],
         bound="distributions of length n<=3 (4), listed orders between 0.001 and 100", t=60, paths=100)
def renyi_orders(ctx, n, a):
    p = dist(ctx, "p", n)
    s = 0
    for x in p:
        s = s + x ** a
    l = ctx.np.log(s)
    # n^(1-a) bounds the sum on one side and 1 on the other
    ctx.assume(ctx.and_(l < 1 + 100 * n, l > -1 - 100 * n))
    ctx.eq(ctx.ff.renyi_entropy(p, a), l / (1 - a), "log sum p^a / (1 - a)")


@harness("C21", quick=[dict(n=2), dict(n=4)], thorough=[dict(n=3), dict(n=5), dict(n=16), dict(n=8)], bound="uniform and point distributions of length n<=4 (16), orders 0, 1/2, 1, 2, 3, infinity", t=60)
def renyi_extremes(ctx, n):
    one = ctx.real("one", lo=1, hi=1)
    ctx.assume(one == 1)
    u = ctx.np.ones(n) / n * one
    d = ctx.np.array([one] + [0.0] * (n - 1))
    for a in (0, 0.5, 1, 2, 3, float("inf")):
        ctx.eq(ctx.ff.renyi_entropy(u, a), ctx.np.log(n), "uniform: log n")
        ctx.eq(ctx.ff.renyi_entropy(d, a), 0, "point: 0")


@harness("C21", quick=[dict(n=2, form="wave"), dict(n=3, form="rho"), dict(n=4, form="col")], thorough=[dict(n=8, form='wave'), dict(n=4, form='rho')], bound="length n<=4 (8), wavefunctions with arbitrary phases and density matrices", t=60)
def renyi_any_form(ctx, n, form):
    p = dist(ctx, "p", n)
    x = present(ctx, p, form, "x")
    for a in (0, 1, 2, float("inf")):
        ctx.eq(ctx.ff.renyi_entropy(x, a), ctx.ff.renyi_entropy(p, a), "states stand for their distributions")
    if n == 4:
        ctx.eq(ctx.ff.linear_entropy(x), ctx.ff.linear_entropy(p), "linear entropy too")


@harness("C21", quick=[dict(n=4), dict(n=4, z=[0, 2]), dict(n=1), dict(n=9)], thorough=[dict(n=25), dict(n=36), dict(n=16)], bound="length n in {1, 4, 9 (16, 25, 36)}", t=60)
def linear_entropy_value(ctx, n, z=()):
    p = dist(ctx, "p", n, z)
    t = 1
    for x in p:
        t = t - x * x
    s = ctx.ff.linear_entropy(p)
    ctx.eq(s, t, "1 - sum p^2")
    if n == 4:
        ctx.le(0, s, "not negative")
        ctx.le(s, 0.75, "at most (d-1)/d")


@harness("C21", quick=[dict(n=2), dict(n=3), dict(n=5)], thorough=[dict(n=6), dict(n=7), dict(n=8), dict(n=10), dict(n=12), dict(n=15), dict(n=17), dict(n=24)], bound="lengths that are not squares", t=30)
def linear_entropy_rejects(ctx, n):
    p = dist(ctx, "p", n)
    ctx.raises(lambda: ctx.ff.linear_entropy(p), AssertionError, "length is not a square")


@harness("C21", quick=[dict(n=2), dict(n=3)], bound="length n<=3, integer orders 2 against 3 and infinity", t=60)
def renyi_monotone(ctx, n):
    """larger orders give smaller entropies, through the arguments of the logarithms"""
    p = dist(ctx, "p", n)
    e = [ctx.ff.renyi_entropy(p, a) for a in (2, 3, float("inf"))]
    s2 = sum(x ** 2 for x in p)
    m = p[0]
    for x in p[1:]:
        m = ctx.np.maximum(m, x)
    ctx.eq(e[0], -ctx.np.log(s2), "order 2")
    ctx.eq(e[2], -ctx.np.log(m), "order infinity")
    ctx.le(s2, m, "S_2 >= S_infinity")


# ---------------------------------------------------------------- C22


@harness("C22", quick=[dict(n=2), dict(n=2, rank=1)], bound="every pair of 2 x 2 states", t=60)
def trace_distance_two_level(ctx, n, rank=None):
    A, B = density(ctx, "a", n, rank), density(ctx, "b", n, rank)
    d = ctx.ff.trace_distance(A, B)
    X = A - B
    # a traceless 2x2 Hermitian matrix has eigenvalues +-sqrt(x^2+|y|^2)
    ctx.eq(d * d, X[0, 0].real ** 2 + X[0, 1].real ** 2 + X[0, 1].imag ** 2, "half the trace norm")
    ctx.le(0, d, "not negative")
    ctx.eq(ctx.ff.trace_distance(B, A), d, "symmetric")
    ctx.eq(ctx.ff.trace_distance(A, A), 0, "zero on equal states")


@harness("C22", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=8), dict(n=12), dict(n=6)], bound="diagonal states up to dimension 4 (12), as distributions or matrices", t=60, paths=100)
def trace_distance_classical(ctx, n):
    p, q = dist(ctx, "p", n), dist(ctx, "q", n)
    t = tvd_ref(ctx, p, q)
    ctx.eq(ctx.ff.trace_distance(ctx.np.diag(p), ctx.np.diag(q)), t, "total variation on commuting states")
    ctx.eq(ctx.ff.trace_distance(p, ctx.np.diag(q)), t, "distributions accepted")


@harness("C22", quick=[dict(n=2), dict(n=4)], thorough=[dict(n=6), dict(n=12), dict(n=8)], bound="every unitary change of basis of diagonal states, block-diagonal 2x2", t=60, paths=60)
def trace_distance_blocks(ctx, n):
    """direct sums of two-level states in arbitrary bases"""
    p, q = dist(ctx, "p", n), dist(ctx, "q", n)
    U = None
    for k in range(n // 2):
        u = ctx.unitary("u%d" % k, 2)
        U = u if U is None else ctx.np.block([[U, ctx.np.zeros((U.shape[0], 2))], [ctx.np.zeros((2, U.shape[0])), u]])
    A = U @ ctx.np.diag(p) @ dag(U)
    B = U @ ctx.np.diag(q) @ dag(U)
    ctx.ghost_psd(A)
    ctx.ghost_psd(B)
    ctx.ghost_eigs(A - B, [p[i] - q[i] for i in range(n)])
    ctx.eq(ctx.ff.trace_distance(A, B), tvd_ref(ctx, p, q), "invariant under a common change of basis")


@harness("C22", quick=[dict(n=2), dict(n=3, kind="f")], thorough=[dict(n=4, kind="f")], bound="pure states of dimension n<=3 (4)", t=60)
def trace_distance_pure(ctx, n, kind="c"):
    """|a><a| - |b><b| has the two eigenvalues +-sqrt(1 - |<a|b>|^2)"""
    a, b = ctx.sphere("a", n, kind), ctx.sphere("b", n, kind)
    A = a.reshape(n, 1) @ a.conj().reshape(1, n)
    B = b.reshape(n, 1) @ b.conj().reshape(1, n)
    ov = a.conj() @ b
    g = 1 - (ov.real * ov.real + ov.imag * ov.imag if kind == "c" else ov * ov)
    ctx.assume(g > 1e-3)
    r = ctx.np.sqrt(g)
    X = (A - B)
    if n > 2:
        ctx.ghost_eigs(X * (1 + 0j), [r, -r] + [0] * (n - 2))
    d = ctx.ff.trace_distance(a, b)
    ctx.eq(d, r, "sqrt(1 - overlap)")
    ctx.eq(ctx.ff.trace_distance(a.reshape(n, 1), b.reshape(n, 1)), r, "column vectors")
