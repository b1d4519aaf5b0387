"""Gaussian states, two-point functions, the algebra matrix"""
import numpy as np

from ..registry import harness
from .. import ref
from .p05_operators import sparse


def dag(x):
    return x.conj().T


def canonical(ctx, n, pairing=True, tag=""):
    """a canonical coefficient matrix whose entries are zero or bounded away from zero"""
    A = ctx.hermitian("a" + tag, n)
    B = ctx.antisym("b" + tag, n, "c") if pairing else np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            ctx.assume(A[i, j].real * A[i, j].real + A[i, j].imag * A[i, j].imag > 1e-6)
            if i != j and pairing:
                ctx.assume(B[i, j].real * B[i, j].real + B[i, j].imag * B[i, j].imag > 1e-6)
    H = ctx.np.block([[-A.conj(), B], [-B.conj(), A]])
    return H


def lift(n, H, ops=None):
    ops = ref.ladder(n) if ops is None else ops
    t = 0
    for i in range(2 * n):
        for j in range(2 * n):
            t = t + H[i, j] * (dag(ops[i]) @ ops[j])
    return t


# ---------------------------------------------------------------- C14


def check_gaussian(ctx, rho, Hop, n):
    N = 2 ** n
    ctx.eq(ctx.np.trace(rho), 1, "unit trace")
    ctx.eq(rho, dag(rho), "Hermitian")
    ctx.eq(rho @ Hop, Hop @ rho, "commutes with the parent Hamiltonian")
    E = ctx.linalg.expm(-Hop)
    ctx.eq(rho * ctx.np.trace(E), E, "proportional to exp(-H)")


@harness("C14", quick=[dict(n=1), dict(n=2), dict(n=2, pairing=False)],
         bound="n<=2: every canonical coefficient matrix with entries of modulus > 0.03", t=60)
def gaussian_from_coefficients(ctx, n, pairing=True):
    H = canonical(ctx, n, pairing)
    rho = ctx.ff.generate_gaussian_state(n, H)
    ctx.same(tuple(rho.shape), (2 ** n, 2 ** n), "many-body state")
    check_gaussian(ctx, rho, lift(n, H), n)


@harness("C14", quick=[dict(n=3), dict(n=1, kind="h"), dict(n=2, kind="h")], thorough=[dict(n=5), dict(n=6), dict(n=7), dict(n=4)],
         bound="n<=3 (7): diagonal operators; n=1: every Hermitian operator", t=60)
def gaussian_from_operator(ctx, n, kind="diag"):
    """a 2**n x 2**n parent is taken as the operator itself (unless it has coefficient size)"""
    if kind == "h" and n == 1:
        # same size as a coefficient matrix: lifted
        a = ctx.real("a")
        ctx.assume(ctx.or_(a > 0.04, a < -0.04))
        H = ctx.np.diag(ctx.np.array([-a, a]))
        Hop = lift(n, H)
    elif kind == "h":
        H = canonical(ctx, n)
        Hop = lift(n, H)
        # operator form of the same parent on 2 sites has coefficient size too
    else:
        d = ctx.vector("d", 2 ** n)
        H = ctx.np.diag(d)
        Hop = H
    rho = ctx.ff.generate_gaussian_state(n, H)
    check_gaussian(ctx, rho, Hop, n)


@harness("C14", quick=[dict(n=3), dict(n=4)], t=60, bound="n=3, 4: diagonal operators with levels 0, one anywhere in [0, 2] and the others in [0, 500]")
def gaussian_strong(ctx, n):
    """large levels change nothing: the state is never rescaled or cut off"""
    N = 2 ** n
    d = ctx.np.array([0.0, ctx.real("e1", 0, 2)] + [ctx.real("e%d" % i, 0, 500) for i in range(2, N)])
    rho = ctx.ff.generate_gaussian_state(n, ctx.np.diag(d))
    check_gaussian(ctx, rho, ctx.np.diag(d), n)


@harness("C14", quick=[dict(dtype=d) for d in ("int8", "uint8", "bool")], t=60,
         bound="n=3: diagonal operators of 8-bit integers in [-9, 9] ([0, 9] unsigned), or booleans")
def gaussian_from_narrow_operator(ctx, dtype):
    """a parent stored in a narrow integer type has the Gaussian state of the same real parent"""
    if dtype == "bool":
        d = ctx.np.array([ctx.bool("d%d" % i) for i in range(8)])
    else:
        d = ctx.narrow_ints("d", (8,), dtype, -9 if dtype == "int8" else 0, 9)
    rho = ctx.ff.generate_gaussian_state(3, ctx.np.diag(d))
    check_gaussian(ctx, rho, ctx.np.diag(d * 1.0), 3)


@harness("C14", quick=[dict(n=1), dict(n=2)], bound="n<=2: lift in Majorana operators, real antisymmetric generators of modulus > 0.03", t=60)
def gaussian_custom_operators(ctx, n):
    """custom operators are used in the lift"""
    K = ctx.antisym("k", 2 * n)
    for i in range(2 * n):
        for j in range(i):
            ctx.assume(K[i, j] * K[i, j] > 1e-6)
    ops = ctx.ff.jordan_wigner_majoranas(n)
    H = 1j * K
    rho = ctx.ff.generate_gaussian_state(n, H, ops)
    check_gaussian(ctx, rho, lift(n, H, [ctx.np.array(o) for o in ops]), n)


@harness("C14", quick=[dict(n=2, m=3), dict(n=3, m=4), dict(n=3, m=7), dict(n=1, m=4), dict(n=2, m=4, w=5), dict(n=2, m=4, w=3), dict(n=3, m=6, w=7), dict(n=3, m=8, w=9), dict(n=3, m=8, w=6), dict(n=3, m=6, w=8), dict(n=1, m=2, w=1), dict(n=1, m=3, w=2), dict(n=3, m=5, w=6)], thorough=[dict(n=1, m=3), dict(n=4, m=8, w=16), dict(n=4, m=8, w=9), dict(n=4, m=16, w=8), dict(n=4, m=16, w=17), dict(n=2, m=2), dict(n=2, m=5), dict(n=2, m=8), dict(n=2, m=16), dict(n=3, m=3), dict(n=3, m=5), dict(n=3, m=16), dict(n=4, m=4), dict(n=4, m=7)], bound="parents of other sizes, rectangular ones with one matching side included", t=30)
def gaussian_rejects(ctx, n, m, w=None):
    H = ctx.hermitian("h", m) if w is None else ctx.matrix("h", m, w, "c")
    r = ctx.ff.generate_gaussian_state(n, H)
    ctx.check(r is None or (not hasattr(r, "shape") and r == 0), "no state for a parent of the wrong size")


# ---------------------------------------------------------------- C15


def corr_ref(ctx, rho, ops, conj):
    m = len(ops)
    G = ctx.np.zeros((m, m), dtype=complex) * 1
    for i in range(m):
        for j in range(m):
            a, b = ops[i], ops[j]
            if conj == "second":
                b = dag(b)
            elif conj == "first":
                a = dag(a)
            G[i, j] = ctx.np.trace(rho @ (a @ b))
    return G


@harness("C15", quick=[dict(n=1), dict(n=2), dict(n=3, kind="f")], thorough=[dict(n=4, kind='f'), dict(n=4), dict(n=3)], bound="n<=2 (4) modes; every complex matrix in place of the state", t=60)
def two_point(ctx, n, kind="c"):
    N = 2 ** n
    rho = ctx.matrix("r", N, N, kind)
    ops = ref.ladder(n)
    plain = corr_ref(ctx, rho, ops, None)
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n), plain, "Tr[rho a_i a_j]")
    ctx.eq(ctx.ff.correlation_matrix(rho), plain, "correlation matrix")
    for c in (False, 0):
        ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, conjugation=c), plain, "neither positive nor negative: no adjoint")
    for c in (True, 1, 2):
        ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, conjugation=c), corr_ref(ctx, rho, ops, "second"), "adjoint on the second operator")
    for c in (-1, -2):
        ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, conjugation=c), corr_ref(ctx, rho, ops, "first"), "adjoint on the first operator")
    cov = ctx.ff.compute_cov_matrix(rho, n)
    ctx.eq(cov, plain - plain.T, "covariance is the antisymmetric part")
    ctx.eq(ctx.ff.compute_cov_matrix(rho), cov, "site count inferred from the state")


@harness("C15", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4, kind='f'), dict(n=3, kind="f")], bound="n<=2 (4); Majorana operators and every complex matrix as the state", t=60)
def two_point_majorana(ctx, n, kind="c"):
    N = 2 ** n
    rho = ctx.matrix("r", N, N, kind)
    ops = ctx.ff.jordan_wigner_majoranas(n)
    plain = corr_ref(ctx, rho, ops, None)
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops), plain, "custom operators in the correlation matrix")
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops, True), corr_ref(ctx, rho, ops, "second"), "custom operators, second adjoint")
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops, -1), corr_ref(ctx, rho, ops, "first"), "custom operators, first adjoint")
    ctx.eq(ctx.ff.compute_cov_matrix(rho, n, ops), plain - plain.T, "custom operators in the covariance matrix")
    ctx.eq(ctx.ff.compute_cov_matrix(rho, alphas=ops), plain - plain.T, "custom operators, site count inferred")


@harness("C15", quick=[dict(n=1, m=2), dict(n=2, m=2), dict(n=1, m=3)], thorough=[dict(n=2, m=3), dict(n=3, m=2), dict(n=1, m=5)], bound="every list of 2n arbitrary complex m x m operators", t=60)
def two_point_arbitrary(ctx, n, m):
    """the formulas hold for any operators, Hermitian or not"""
    rho = ctx.matrix("r", m, m, "c")
    ops = [ctx.matrix("o%d_" % i, m, m, "c") for i in range(2 * n)]
    plain = corr_ref(ctx, rho, ops, None)
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops), plain, "no adjoint")
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops, conjugation=1), corr_ref(ctx, rho, ops, "second"), "second adjoint")
    ctx.eq(ctx.ff.compute_2corr_matrix(rho, n, ops, conjugation=-1), corr_ref(ctx, rho, ops, "first"), "first adjoint")
    ctx.eq(ctx.ff.compute_cov_matrix(rho, n, ops), plain - plain.T, "antisymmetric part")


# ---------------------------------------------------------------- C16


def swap_expected(ctx, ops, S):
    m = len(ops)
    for i in range(m):
        for j in range(m):
            d = ops[i].shape[0]
            ctx.eq(ops[i] @ ops[j] + ops[j] @ ops[i], S[i, j] * np.eye(d), "a_i a_j + a_j a_i = S_ij 1")


@harness("C16", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=2, maj=True)], thorough=[dict(n=5), dict(n=4, maj=True), dict(n=4), dict(n=3, maj=True)],
         bound="ladder and Majorana operators scaled by arbitrary non-zero factors, n<=3 (5)", t=60)
def algebra_scaled(ctx, n, maj=False):
    ops = ctx.ff.jordan_wigner_majoranas(n) if maj else ctx.ff.jordan_wigner_alphas(n)
    c = ctx.vector("c", 2 * n, "c")
    for x in c:
        ctx.assume(x.real * x.real + x.imag * x.imag > 1e-6)
    ops = [c[i] * ops[i] for i in range(2 * n)]
    S = ctx.ff.compute_algebra_S(ops)
    ctx.same(tuple(S.shape), (2 * n, 2 * n), "one row per operator")
    swap_expected(ctx, ops, S)
    ctx.eq(S, S.T, "symmetric")
    ctx.eq(ctx.ff.compute_algebra_S(ops, verbose=False), S, "same again")


@harness("C16", quick=[dict(n=1), dict(n=2)], bound="verbose mode: ladder operators scaled by arbitrary real factors of modulus in [0.1, 10]", t=60)
def algebra_verbose_scaled(ctx, n):
    ops = ctx.ff.jordan_wigner_alphas(n)
    c = [ctx.real("c%d" % i, 0.1, 10) for i in range(2 * n)]
    ops = [c[i] * ops[i] for i in range(2 * n)]
    S = ctx.ff.compute_algebra_S(ops, verbose=True)
    swap_expected(ctx, ops, S)


@harness("C16", quick=[dict(n=1), dict(n=2)], bound="lowering operators scaled by 1e-6 to 1e-5, raising ones by 1e-1 to 10", t=60)
def algebra_small(ctx, n):
    ops = ctx.ff.jordan_wigner_alphas(n)
    c = [ctx.real("c%d" % i, 0.1, 10) for i in range(n)] + [ctx.real("c%d" % i, 1, 10) for i in range(n, 2 * n)]
    ops = [(c[i] if i < n else 1e-6 * c[i]) * ops[i] for i in range(2 * n)]
    S = ctx.ff.compute_algebra_S(ops)
    for i in range(n):
        ctx.eq(S[i, n + i] * 1e6, c[i] * c[n + i], "small anticommutators are kept", tol=1e-5)
        ctx.eq(S[n + i, i] * 1e6, c[i] * c[n + i], "small anticommutators are kept", tol=1e-5)


@harness("C16", quick=[dict(n=1), dict(n=2)], bound="n<=2: every rotation of the Majorana modes, every unitary mixing of the modes", t=60)
def algebra_preserved(ctx, n):
    """rotations that preserve the algebra leave its matrix unchanged"""
    Om = ctx.ff.build_Omega(n)
    al = ref.ladder(n)
    O = ctx.rotation("o", 2 * n)
    C = dag(Om) @ O @ Om
    ctx.eq(ctx.ff.compute_algebra_S([ref.lin(C[i], al) for i in range(2 * n)]), ref.swap_metric(n), "rotation")
    U = ctx.unitary("u", n)
    C = ctx.ff.kron_plus(U.conj(), U)
    ctx.eq(ctx.ff.compute_algebra_S([ref.lin(C[i], al) for i in range(2 * n)]), ref.swap_metric(n), "unitary mixing")


@harness("C16", quick=[dict(n=1, kind="f")], thorough=[dict(n=1), dict(n=2, pat=[1, 0, 1])],
         bound="n<=2: every linear combination of the ladder operators, zero patterns listed, anticommutators zero or > 1e-6", t=60, paths=200)
def algebra_rotated(ctx, n, pat=(1,), kind="c"):
    C = sparse(ctx, "c", 2 * n, pat, kind)
    al = ref.ladder(n)
    ops = [ref.lin(C[i], al) for i in range(2 * n)]
    X = ref.swap_metric(n)
    want = C @ X @ C.T
    for i in range(2 * n):
        for j in range(i + 1):
            w = want[i, j]
            if hasattr(w, "imag"):
                ctx.assume(ctx.or_(ctx.and_(w.real == 0, w.imag == 0), w.real > 1e-6, w.real < -1e-6, w.imag > 1e-6, w.imag < -1e-6))
    S = ctx.ff.compute_algebra_S(ops)
    ctx.eq(S, want, "congruence of the original by the combination")


@harness("C16", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)], bound="n<=2 (4), verbose mode", t=60)
def algebra_verbose(ctx, n):
    ops = ctx.ff.jordan_wigner_alphas(n)
    ctx.eq(ctx.ff.compute_algebra_S(ops, verbose=True), ref.swap_metric(n), "verbosity does not change the result")
