"""ladder operators, Majoranas, Pauli group, rotations, lifts, basis changes, predicates"""
import numpy as np

from ..registry import harness
from .. import ref


def dag(x):
    return x.conj().T


# ---------------------------------------------------------------- C05 ladder operators


def unit_box(ctx, xs, eps):
    """the relative tolerance of the code grows with the entries: keep them below one"""
    if eps < 1e-3:
        for x in xs:
            for y in (x.real, x.imag):
                ctx.assume(ctx.and_(y < 1, y > -1))


def says(answer, want):
    """a truth value, either Python's or NumPy's (deciding a symbolic one forks)"""
    return type(answer).__name__ in ("bool", "bool_", "SymBool") and bool(answer) is want


@harness("C05", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=6), dict(n=7), dict(n=5)],
         bound="n<=4 (7) modes, every pair of complex linear combinations of the 2n operators", t=60)
def car_bilinear(ctx, n):
    al = ctx.ff.jordan_wigner_alphas(n)
    ctx.same(len(al), 2 * n, "2n operators")
    u, v = ctx.vector("u", 2 * n, "c"), ctx.vector("v", 2 * n, "c")
    U, V = ref.lin(u, al), ref.lin(v, al)
    S = ref.swap_metric(n)
    ctx.eq(U @ V + V @ U, (u @ S @ v) * np.eye(2 ** n), "{u.alpha, v.alpha} = u^T S v")
    W = ref.lin(u, [dag(a) for a in al])
    ctx.eq(W @ V + V @ W, (u @ v) * np.eye(2 ** n), "{u.alpha^dag, v.alpha} = u.v")


@harness("C05", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5), dict(n=6)], thorough=[dict(n=8), dict(n=7)],
         bound="n<=6 (8) modes, arbitrary state vector", t=60)
def ladder_action(ctx, n):
    N = 2 ** n
    psi = ctx.vector("s", N, "c")
    low = ctx.ff.jordan_wigner_lowering(n)
    al = ctx.ff.jordan_wigner_alphas(n)
    ctx.same(len(low), n, "n lowering operators")
    vac = np.zeros(N)
    vac[0] = 1
    num = 0
    for i in range(n):
        M = ref.lower_op(n, i)
        ctx.eq(low[i] @ psi, M @ psi, "annihilation with sign string, site 0 leftmost")
        ctx.eq(al[n + i] @ psi, M @ psi, "second half are the lowering operators")
        ctx.eq(al[i] @ psi, M.T @ psi, "first half are the raising operators")
        ctx.eq(low[i] @ vac, 0 * vac, "vacuum annihilated")
        num = num + al[i] @ low[i]
    cnt = np.array([bin(b).count("1") for b in range(N)])
    ctx.eq(num @ psi, cnt * psi, "number operator counts occupied modes")


# ---------------------------------------------------------------- C06 Majoranas


@harness("C06", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=7), dict(n=6)],
         bound="n<=5 (7) modes, all complex combinations", t=60)
def majorana_bilinear(ctx, n):
    g = ctx.ff.jordan_wigner_majoranas(n)
    ctx.same(len(g), 2 * n, "2n operators")
    u, v = ctx.vector("u", 2 * n, "c"), ctx.vector("v", 2 * n, "c")
    U, V = ref.lin(u, g), ref.lin(v, g)
    ctx.eq(U @ V + V @ U, (u @ v) * np.eye(2 ** n), "{u.gamma, v.gamma} = u.v")
    x = ctx.vector("x", 2 * n)
    X = ref.lin(x, g)
    ctx.eq(X, dag(X), "real combinations are Hermitian")
    ctx.eq(2 * X @ X, (x @ x) * np.eye(2 ** n), "square of a real combination")


@harness("C06", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=7), dict(n=6)],
         bound="n<=5 (7) modes, all complex combinations", t=60)
def majorana_from_ladder(ctx, n):
    g = ctx.ff.jordan_wigner_majoranas(n)
    al = ref.ladder(n)
    u = ctx.vector("u", 2 * n, "c")
    Om = ctx.ff.build_Omega(n)
    ctx.eq(ref.lin(u, g), ref.lin(u @ Om, al), "gamma = Omega alpha")
    w = ctx.ff.rotate_operators(Om, ctx.ff.jordan_wigner_alphas(n))
    ctx.eq(ref.lin(u, g), ref.lin(u, w), "rotating the ladder operators by Omega gives the Majoranas")
    r2 = ctx.np.sqrt(2)
    ctx.eq(ref.lin(u[:n], g[:n]) * r2, ref.lin(u[:n], [al[i] + al[n + i] for i in range(n)]), "x = (a + a^dag)/sqrt2")
    ctx.eq(ref.lin(u[n:], g[n:]) * r2, ref.lin(u[n:], [1j * (al[i] - al[n + i]) for i in range(n)]), "p = i(a^dag - a)/sqrt2")


# ---------------------------------------------------------------- C07 Pauli group


def digits(k, n):
    return [(k // 4 ** (n - 1 - q)) % 4 for q in range(n)]


@harness("C07", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)],
         bound="n<=3 (4) qubits, every complex matrix", t=60)
def pauli_basis(ctx, n):
    G = ctx.ff.generate_pauli_group(n)
    N = 2 ** n
    ctx.same(len(G), 4 ** n, "4^n operators")
    M = ctx.matrix("m", N, N, "c")
    tot = 0
    sq = 0
    for P in G:
        t = ctx.np.trace(P @ M)
        tot = tot + t * P
        sq = sq + t * t.conjugate()
    ctx.eq(tot, N * M, "every matrix is its Pauli expansion")
    ctx.eq(sq, N * ctx.np.sum(M * M.conj()), "Parseval")


@harness("C07", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5, step=7)], thorough=[dict(n=5), dict(n=6, step=61)],
         bound="n<=4 (5) qubits, every element, arbitrary vector; for five qubits every 7th element in the quick tier, for six every 61st in the thorough one", t=60)
def pauli_order(ctx, n, step=1):
    G = ctx.ff.generate_pauli_group(n)
    ctx.same(len(G), 4 ** n, "4^n operators")
    psi = ctx.vector("s", 2 ** n, "c")
    for k, P in enumerate(G):
        if k % step:
            continue
        ctx.eq(P @ psi, ref.pauli_string(digits(k, n)) @ psi, "lexicographic order I<X<Y<Z, first qubit slowest")
        if n < 4:
            ctx.eq(P @ (P @ psi), psi, "each squares to the identity")
            ctx.eq(dag(P) @ psi, P @ psi, "each is Hermitian")


@harness("C07", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="n<=3 (4)", t=60)
def pauli_verbose(ctx, n):
    G = ctx.ff.generate_pauli_group(n, verbose=True)
    ctx.same(len(G), 4 ** n, "4^n operators")
    names = ["".join("IXYZ"[d] for d in digits(k, n)) for k in range(4 ** n)]
    ctx.same(ctx.printed().split(), names, "printed names")


@harness("C07", quick=[{}], bound="all integers n in [-10, 0]; non-integers")
def pauli_rejects(ctx):
    k = ctx.int("k", -10, 0)
    ctx.raises(lambda: ctx.ff.generate_pauli_group(int(k)), ValueError, "non-positive count")
    x = ctx.real("x", 0.5, 4)
    ctx.raises(lambda: ctx.ff.generate_pauli_group(x), TypeError, "real count")
    ctx.raises(lambda: ctx.ff.generate_pauli_group("2"), TypeError, "string count")
    ctx.raises(lambda: ctx.ff.generate_pauli_group(None), TypeError, "None")
    ctx.raises(lambda: ctx.ff.generate_pauli_group([2]), TypeError, "list")
    ctx.raises(lambda: ctx.ff.generate_pauli_group(2.0), TypeError, "float count")


@harness("C07", quick=[{}], bound="all real combinations")
def pauli_matrices_algebra(ctx):
    s = ctx.ff.pauli_matrices()
    u, v = ctx.vector("u", 3), ctx.vector("v", 3)
    U, V = ref.lin(u, s), ref.lin(v, s)
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    ctx.eq(U @ V, (u @ v) * np.eye(2) + 1j * ref.lin(w, s), "(u.s)(v.s) = u.v + i (u x v).s")


# ---------------------------------------------------------------- C08 rotate_operators


def sparse(ctx, name, n, pattern, kind="c"):
    """matrix whose zero pattern is fixed and whose other entries are not tiny"""
    M = ctx.matrix(name, n, n, kind)
    mask = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            mask[i, j] = pattern[(i * n + j) % len(pattern)]
    for i in range(n):
        for j in range(n):
            if mask[i, j]:
                x = M[i, j]
                ctx.assume(x.real * x.real + x.imag * x.imag > 1e-6)
    return M * mask


@harness("C08", quick=[dict(n=1), dict(n=2), dict(n=2, pat=[1, 0, 1]), dict(n=2, pat=[0, 1, 1, 1, 0]), dict(n=1, kind="f")],
         thorough=[dict(n=3, pat=[1, 0, 0, 1]), dict(n=4, pat=[1, 0, 0]), dict(n=4, pat=[0, 0, 1, 0, 0]), dict(n=3)], bound="n<=2 (4) modes; zero patterns listed; other entries of modulus > 0.03", t=60)
def rotate_right(ctx, n, pat=(1,), kind="c"):
    C = sparse(ctx, "c", 2 * n, pat, kind)
    al = ctx.ff.jordan_wigner_alphas(n)
    R = ref.ladder(n)
    b = ctx.ff.rotate_operators(C, al)
    ctx.same(len(b), 2 * n, "2n rotated operators")
    for j in range(2 * n):
        ctx.eq(b[j], ref.lin(C[j, :], R), "beta_j = sum_i C_ji alpha_i")
    bl = ctx.ff.rotate_operators(C, al, Left=True)
    for j in range(2 * n):
        ctx.eq(bl[j], ref.lin(C[:, j].conj(), R), "left: beta_j = sum_i alpha_i conj(C_ij)")
    bs = ctx.ff.rotate_operators(al, C)
    for j in range(2 * n):
        ctx.eq(bs[j], b[j], "argument order does not matter")
    bv = ctx.ff.rotate_operators(C, al, verbose=True)
    for j in range(2 * n):
        ctx.eq(bv[j], b[j], "verbosity does not change the result")
    for i in range(2 * n):
        ctx.eq(al[i], R[i], "input operators unchanged")


@harness("C08", quick=[dict(n=1)], thorough=[dict(n=3), dict(n=2)], bound="n=1 (2), dense C and D with entries of modulus > 0.03", t=60, paths=100)
def rotate_compose(ctx, n):
    C, D = sparse(ctx, "c", 2 * n, (1,)), sparse(ctx, "d", 2 * n, (1,))
    DC = D @ C
    for i in range(2 * n):
        for j in range(2 * n):
            x = DC[i, j]
            ctx.assume(x.real * x.real + x.imag * x.imag > 1e-6)
    al = ctx.ff.jordan_wigner_alphas(n)
    r = ctx.ff.rotate_operators
    a, b = r(D, r(C, al)), r(DC, al)
    for j in range(2 * n):
        ctx.eq(a[j], b[j], "rotating by C then D is rotating by DC")


@harness("C08", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)], bound="n<=2 (4); arbitrary 2x2 matrix operators", t=60)
def rotate_arbitrary_ops(ctx, n):
    C = sparse(ctx, "c", n, (1,))
    ops = [ctx.matrix("o%d_" % i, 2, 2, "c") for i in range(n)]
    b = ctx.ff.rotate_operators(C, ops)
    for j in range(n):
        ctx.eq(b[j], ref.lin(C[j, :], ops), "works for any operators")


def coefficients(ctx, n, kind):
    """dense coefficients of the given kind, none of them tiny"""
    if kind != "i":
        return sparse(ctx, "c", n, (1,), kind)
    C = ctx.ints("c", (n, n), -5, 5)
    for i in range(n):
        for j in range(n):
            ctx.assume(ctx.not_(C[i, j] == 0))
    return C


KINDS = ("if", "ic", "fi", "fc", "ci", "cf", "ii")


@harness("C08", quick=[dict(kinds=k, mixed=m) for k in KINDS for m in (False, True)], t=60,
         bound="two 2x2 operators, operators and coefficients of different kinds (integer, real, complex), the second operator of the first's kind or real")
def rotate_kinds(ctx, kinds, mixed):
    C = coefficients(ctx, 2, kinds[1])
    ops = [block(ctx, "o", 2, kinds[0]), block(ctx, "p", 2, "f" if mixed else kinds[0])]
    for left in (False, True):
        b = ctx.ff.rotate_operators(C, ops, Left=left)
        for j in range(2):
            ctx.eq(b[j], ref.lin(C[:, j].conj() if left else C[j, :], ops), "works for operators of any kind")


@harness("C08", quick=[dict(left=False), dict(left=True)], bound="two operators: coefficients up to 1e4 next to ones of 1e-7 to 1e-5", t=60)
def rotate_scales(ctx, left):
    X, u = ctx.real("x", 1, 10000), ctx.real("u", 0.1, 10)
    e = [np.array([[1.0, 0.0], [0.0, 0.0]]), np.array([[0.0, 1.0], [0.0, 0.0]])]
    for large, small in ((X, u * 1e-6), (-X, u * 1e-6), (1j * X, -1e-6 * u), (X, 1e-6j * u)):
        C = ctx.np.array([[large, small], [small, large]])
        W = dag(C) if left else C
        b = ctx.ff.rotate_operators(C, e, Left=left)
        for i in range(2):
            for j in range(2):
                ctx.eq(b[i][0, j] * 1e6, W[i, j] * 1e6, "small coefficients count")


@harness("C10", quick=[dict(kinds=k, mixed=m) for k in KINDS for m in (False, True)], t=60,
         bound="one mode, two 2x2 operators, operators and coefficients of different kinds (integer, real, complex), the second operator of the first's kind or real")
def lift_kinds(ctx, kinds, mixed):
    R = coefficients(ctx, 2, kinds[1])
    ops = [block(ctx, "o", 2, kinds[0]), block(ctx, "p", 2, "f" if mixed else kinds[0])]
    for direct in (False, True):
        want = 0
        for i in range(2):
            for j in range(2):
                want = want + R[i, j] * ((ops[i] if direct else dag(ops[i])) @ ops[j])
        ctx.eq(ctx.ff.build_op(1, R, ops, direct=direct), want, "works for operators of any kind")


@harness("C08", quick=[dict(n=1, a=1, b=1), dict(n=1, a=2, b=3), dict(n=1, a=3, b=2), dict(n=1, a=2, b=1), dict(n=2, a=2, b=2), dict(n=2, a=3, b=3), dict(n=2, a=4, b=5), dict(n=2, a=4, b=3),
                       dict(n=2, a=5, b=4), dict(n=2, a=3, b=4), dict(n=2, a=2, b=7), dict(n=2, a=6, b=1), dict(n=3, a=1, b=1), dict(n=3, a=6, b=12), dict(n=3, a=5, b=6), dict(n=3, a=4, b=4)],
         bound="coefficient matrices of the listed shapes a x b other than 2n x 2n, at least one side no longer than 2n", t=60)
def rotate_incompatible(ctx, n, a, b):
    C = ctx.matrix("c", a, b, "c")
    al = ctx.ff.jordan_wigner_alphas(n)
    for f in (lambda: ctx.ff.rotate_operators(C, al), lambda: ctx.ff.rotate_operators(C, al, Left=True), lambda: ctx.ff.rotate_operators(al, C)):
        r = f()
        ctx.check(isinstance(r, int) and r == 0, "incompatible sizes are refused with 0")


@harness("C08", quick=[dict(n=1, a=3, b=3), dict(n=1, a=4, b=3), dict(n=2, a=5, b=5), dict(n=2, a=5, b=8)], bound="coefficient matrices larger than 2n x 2n both ways, two entries symbolic", t=60)
def rotate_oversized(ctx, n, a, b):
    """refused, or at least not passed over in silence"""
    C = ctx.np.ones((a, b), dtype=complex)
    C[0, 0], C[a - 1, b - 1] = ctx.real("x", 1, 2), ctx.real("y", 1, 2)
    r = ctx.ff.rotate_operators(C, ctx.ff.jordan_wigner_alphas(n))
    ctx.check((isinstance(r, int) and r == 0) or ctx.printed().strip() != "", "incompatible sizes are reported")


# ---------------------------------------------------------------- C09 builders


@harness("C09", quick=[dict(n=n) for n in range(1, 7)], thorough=[dict(n=10), dict(n=12), dict(n=16), dict(n=20), dict(n=8)], bound="n<=6 (20), arbitrary complex blocks")
def build_blocks(ctx, n):
    A, B = ctx.matrix("a", n, n, "c"), ctx.matrix("b", n, n, "c")
    H = ctx.ff.build_H(n, A, B)
    ctx.eq(H, ctx.np.block([[-A.conj(), B], [-B.conj(), A]]), "H layout")
    H0 = ctx.ff.build_H(n, A)
    Z = np.zeros((n, n))
    ctx.eq(H0, ctx.np.block([[-A.conj(), Z], [Z, A]]), "pairing block defaults to zero")
    V = ctx.ff.build_V(n, A, B)
    ctx.eq(V, ctx.np.block([[-B.conj(), A], [-A.conj(), B]]), "V layout")
    V0 = ctx.ff.build_V(n, A)
    ctx.eq(V0, ctx.np.block([[Z, A], [-A.conj(), Z]]), "second block defaults to zero")
    ctx.eq(ref.swap_metric(n) @ V, ctx.ff.build_H(n, A, B), "V = S H for the same blocks")


@harness("C09", quick=[dict(n=n) for n in range(1, 6)], thorough=[dict(n=8), dict(n=10), dict(n=16), dict(n=6)], bound="n<=5 (16), Hermitian A, antisymmetric B")
def build_structure(ctx, n):
    A, B = ctx.hermitian("a", n), ctx.antisym("b", n, "c")
    H = ctx.ff.build_H(n, A, B)
    S = ref.swap_metric(n)
    ctx.eq(H, dag(H), "Hermitian")
    ctx.eq(S @ H @ S, -H.T, "particle-hole symmetric")
    V = ctx.ff.build_V(n, A, B)
    ctx.eq(V, -V.T, "V antisymmetric")
    Om = ctx.ff.build_Omega(n)
    G = 1j * Om @ H @ dag(Om)
    ctx.eq(G.imag, np.zeros((2 * n, 2 * n)), "Majorana form is real after factoring i")
    ctx.eq(G, -G.T, "Majorana form antisymmetric")


def block(ctx, name, n, kind):
    return ctx.ints(name, (n, n), -5, 5) if kind == "i" else ctx.matrix(name, n, n, kind)


@harness("C09", quick=[dict(n=n, kinds=k) for n in (1, 2, 3) for k in ("fc", "cf", "if", "fi", "ic", "ci", "ff")], thorough=[dict(n=8, kinds='fc'), dict(n=9, kinds='ci')] + [dict(n=5, kinds=k) for k in ("fc", "cf", "ic", "ci")],
         bound="n<=3 (9), blocks of different kinds (integer, real, complex)")
def build_mixed(ctx, n, kinds):
    A, B = block(ctx, "a", n, kinds[0]), block(ctx, "b", n, kinds[1])
    ctx.eq(ctx.ff.build_H(n, A, B), ctx.np.block([[-A.conj(), B], [-B.conj(), A]]), "H layout")
    ctx.eq(ctx.ff.build_V(n, A, B), ctx.np.block([[-B.conj(), A], [-A.conj(), B]]), "V layout")
    Z = np.zeros((n, n))
    ctx.eq(ctx.ff.build_H(n, A), ctx.np.block([[-A.conj(), Z], [Z, A]]), "pairing block defaults to zero")


@harness("C09", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=6), dict(n=10)], bound="n<=3 (10), integer blocks in [-5,5]")
def build_integer(ctx, n):
    A = ctx.ints("a", (n, n), -5, 5)
    B = ctx.ints("b", (n, n), -5, 5)
    ctx.eq(ctx.ff.build_H(n, A, B), ctx.np.block([[-A, B], [-B, A]]), "H from integer blocks")
    ctx.eq(ctx.ff.build_V(n, A, B), ctx.np.block([[-B, A], [-A, B]]), "V from integer blocks")


@harness("C09", quick=[dict(n=n, dtype=d) for n in (1, 2) for d in ("int8", "uint8", "uint16", "bool")], thorough=[dict(n=3, dtype='int8'), dict(n=4, dtype='uint8'), dict(n=3, dtype='uint16'), dict(n=4, dtype='bool')], t=40,
         bound="n<=2 (4), blocks of 8- or 16-bit integers over the type's whole range, or booleans")
def build_narrow(ctx, n, dtype):
    if dtype == "bool":
        A = ctx.np.array([[ctx.bool("a%d%d" % (i, j)) for j in range(n)] for i in range(n)])
        B = ctx.np.array([[ctx.bool("b%d%d" % (i, j)) for j in range(n)] for i in range(n)])
        a, b = A * 1, B * 1
    else:
        A, B = ctx.narrow_ints("a", (n, n), dtype), ctx.narrow_ints("b", (n, n), dtype)
        a, b = A.astype(int), B.astype(int)
    ctx.eq(ctx.ff.build_H(n, A, B), ctx.np.block([[-a, b], [-b, a]]), "H from narrow blocks")
    ctx.eq(ctx.ff.build_V(n, A, B), ctx.np.block([[-b, a], [-a, b]]), "V from narrow blocks")
    ctx.eq(ctx.ff.build_H(n, A), ctx.np.block([[-a, 0 * b], [0 * b, a]]), "pairing block defaults to zero")
    ctx.eq(ctx.ff.build_V(n, A), ctx.np.block([[0 * b, a], [-a, 0 * b]]), "second block defaults to zero")


@harness("C09", quick=[dict(n=n) for n in range(1, 9)], thorough=[dict(n=16), dict(n=20), dict(n=33), dict(n=12)], bound="n<=8 (33), all real mu, t, delta")
def kitaev_layout(ctx, n):
    mu, t, d = ctx.real("mu"), ctx.real("t"), ctx.real("d")
    H = ctx.ff.kitaev_chain(n, mu, t, d)
    A = -mu * np.eye(n)
    up, dn = np.eye(n, k=1), np.eye(n, k=-1)
    A = A - t * (up + dn)
    B = d * (up - dn)
    ctx.eq(H, ctx.np.block([[-A, B], [-B, A]]), "chain couplings")


@harness("C09", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4), dict(n=3)], bound="n<=2 (4), all real mu, t, delta (|.|>1e-3 or 0)", paths=100, t=60)
def kitaev_operator(ctx, n):
    mu, t, d = ctx.real("mu"), ctx.real("t"), ctx.real("d")
    for x in (mu, t, d):
        ctx.assume(ctx.or_(x == 0, x * x > 1e-6))
    H = ctx.ff.build_op(n, ctx.ff.kitaev_chain(n, mu, t, d), ctx.ff.jordan_wigner_alphas(n))
    al = ref.ladder(n)
    R = 0
    for i in range(n):
        R = R - mu * (al[i] @ al[n + i] - al[n + i] @ al[i])
    for i in range(n - 1):
        hop = al[i] @ al[n + i + 1] + al[i + 1] @ al[n + i]
        pair = al[n + i] @ al[n + i + 1]
        R = R - 2 * t * hop + 2 * d * (pair + pair.T)
    ctx.eq(H, R, "chain Hamiltonian in second quantisation")


@harness("C09", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=2, fixedN=True), dict(n=1, fixedN=True, seed=None), dict(n=5), dict(n=5, fixedN=True)],
         thorough=[dict(n=8), dict(n=8, fixedN=True), dict(n=10), dict(n=10, fixedN=True), dict(n=7)], bound="n<=5 (10), every sequence of normal draws")
def random_generator_structure(ctx, n, fixedN=False, seed=7):
    H = ctx.ff.random_H_generator(n, fixedN=fixedN, seed=seed)
    ctx.eq(H, dag(H), "Hermitian")
    S = ref.swap_metric(n)
    ctx.eq(S @ H @ S, -H.T, "particle-hole symmetric")
    if fixedN:
        ctx.eq(H[:n, n:], np.zeros((n, n)), "no pairing when particle number is fixed")
        ctx.eq(H[n:, :n], np.zeros((n, n)), "no pairing when particle number is fixed")


# ---------------------------------------------------------------- C10 build_op


@harness("C10", quick=[dict(n=1), dict(n=2), dict(n=2, pat=[1, 0, 1]), dict(n=1, kind="f")], thorough=[dict(n=3, pat=[1, 0, 0]), dict(n=4, pat=[1, 0, 0, 0, 0]), dict(n=4, pat=[0, 1, 0, 0, 0, 0, 0]), dict(n=3)],
         bound="n<=2 (4) modes, zero patterns listed, other entries of modulus > 0.03", t=60)
def lift_formula(ctx, n, pat=(1,), kind="c"):
    R = sparse(ctx, "r", 2 * n, pat, kind)
    al = ctx.ff.jordan_wigner_alphas(n)
    L = ref.ladder(n)
    op = ctx.ff.build_op(n, R, al)
    want = want2 = 0
    for i in range(2 * n):
        for j in range(2 * n):
            want = want + R[i, j] * (L[i].T @ L[j])
            want2 = want2 + R[i, j] * (L[i] @ L[j])
    ctx.eq(op, want, "sum R_ij alpha_i^dag alpha_j")
    ctx.eq(ctx.ff.build_op(n, R, al, direct=True), want2, "direct: sum R_ij alpha_i alpha_j")
    ctx.eq(ctx.ff.build_op(n, R, al, True), want, "verbosity does not change the result")
    for i in range(2 * n):
        ctx.eq(al[i], L[i], "input operators unchanged")
    ctx.eq(ctx.np.trace(op), 2 ** (n - 1) * ctx.np.trace(R), "trace of the lift")


@harness("C10", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4), dict(n=3)],
         bound="n<=2 (4), every canonical H with entries of modulus > 0.03", t=90)
def lift_heisenberg(ctx, n):
    A, B = ctx.hermitian("a", n), ctx.antisym("b", n, "c")
    for i in range(n):
        for j in range(i + 1):
            ctx.assume(A[i, j].real * A[i, j].real + A[i, j].imag * A[i, j].imag > 1e-6)
            if i != j:
                ctx.assume(B[i, j].real * B[i, j].real + B[i, j].imag * B[i, j].imag > 1e-6)
    H = ctx.ff.build_H(n, A, B)
    al = ctx.ff.jordan_wigner_alphas(n)
    op = ctx.ff.build_op(n, H, al)
    ctx.eq(op, dag(op), "Hermitian")
    ctx.eq(ctx.np.trace(op), 0, "traceless")
    for k in range(2 * n):
        ctx.eq(op @ al[k] - al[k] @ op, -2 * ref.lin(H[k, :], al), "[H, alpha_k] = -2 sum_l H_kl alpha_l")
    V = ctx.ff.build_V(n, A, B)
    # sum V_ij alpha_i alpha_j with V = S H is the same operator
    ctx.eq(ctx.ff.build_op(n, ref.swap_metric(n) @ H, al, direct=True), op, "direct lift of S H equals the lift of H")
    N = sum(a.T @ a for a in ref.ladder(n)[n:])
    op0 = ctx.ff.build_op(n, ctx.ff.build_H(n, A), al)
    ctx.eq(op0 @ N - N @ op0, np.zeros((2 ** n, 2 ** n)), "no pairing block: particle number conserved")
    Pm = np.diag([(-1) ** bin(b).count("1") for b in range(2 ** n)])
    ctx.eq(op @ Pm - Pm @ op, np.zeros((2 ** n, 2 ** n)), "parity conserved")


@harness("C10", quick=[dict(direct=False), dict(direct=True)], bound="one mode: coefficients up to 1e4 next to ones of 1e-7 to 1e-5", t=60)
def lift_scales(ctx, direct):
    """small coefficients count next to large ones"""
    X, u = ctx.real("x", 1, 10000), ctx.real("u", 0.1, 10)
    al = ctx.ff.jordan_wigner_alphas(1)
    f = ctx.ff.build_op
    for large, small in ((X, u * 1e-6), (-X, u * 1e-6), (1j * X, -1e-6 * u), (X, 1e-6j * u)):
        for swap in (False, True):
            d = [small, large] if swap else [large, small]
            R = ctx.np.array([[0, d[0]], [d[1], 0]] if direct else [[d[0], 0], [0, d[1]]])
            op = f(1, R, al, direct=direct)
            # a a^dag or a^dag a: one of the two levels each
            want = d[0] * ((al[0] if direct else dag(al[0])) @ al[1 if direct else 0]) + d[1] * ((al[1] if direct else dag(al[1])) @ al[0 if direct else 1])
            for i in range(2):
                ctx.eq(op[i, i] * 1e6, want[i, i] * 1e6, "small coefficients count")


@harness("C10", quick=[dict(n=1)], thorough=[dict(n=3), dict(n=2)], bound="n=1 (3), pairs with entries of modulus > 0.03", t=60)
def lift_linear(ctx, n):
    R, Q = sparse(ctx, "r", 2 * n, (1,)), sparse(ctx, "q", 2 * n, (1,))
    c = ctx.cplx("z")
    W = R + c * Q
    for i in range(2 * n):
        for j in range(2 * n):
            ctx.assume(W[i, j].real * W[i, j].real + W[i, j].imag * W[i, j].imag > 1e-6)
    al = ctx.ff.jordan_wigner_alphas(n)
    b = ctx.ff.build_op
    ctx.eq(b(n, W, al), b(n, R, al) + c * b(n, Q, al), "lifting is linear")
    ctx.eq(b(n, R, al) @ b(n, Q, al) - b(n, Q, al) @ b(n, R, al),
           _comm_ref(n, R, Q), "commutator of lifts")


def _comm_ref(n, R, Q):
    L = ref.ladder(n)
    a = b = 0
    for i in range(2 * n):
        for j in range(2 * n):
            t = L[i].T @ L[j]
            a = a + R[i, j] * t
            b = b + Q[i, j] * t
    return a @ b - b @ a


@harness("C10", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)], bound="n<=2 (4); lift in Majorana operators, real antisymmetric coefficients of modulus > 0.03", t=60)
def lift_majorana(ctx, n):
    W = ctx.antisym("w", 2 * n)
    for i in range(2 * n):
        for j in range(i):
            ctx.assume(W[i, j] * W[i, j] > 1e-6)
    g = ctx.ff.jordan_wigner_majoranas(n)
    op = ctx.ff.build_op(n, 1j * W, g)
    ctx.eq(op, dag(op), "i W lifted in Majoranas is Hermitian")
    for k in range(2 * n):
        ctx.eq(op @ g[k] - g[k] @ op, -2j * ref.lin(W[k, :], g), "[H, gamma_k] = -2i sum W_kl gamma_l")


# ---------------------------------------------------------------- C11 basis-change matrices


@harness("C11", quick=[dict(n=n) for n in range(1, 9)], thorough=[dict(n=24), dict(n=32), dict(n=12), dict(n=16)], bound="n<=8 (32), arbitrary vectors")
def omega_change(ctx, n):
    Om = ctx.ff.build_Omega(n)
    v = ctx.vector("v", 2 * n, "c")
    w = Om @ v
    r2 = ctx.np.sqrt(2)
    ctx.eq(w[:n] * r2, v[:n] + v[n:], "first half")
    ctx.eq(w[n:] * r2, 1j * (v[:n] - v[n:]), "second half")
    ctx.eq(dag(Om) @ w, v, "unitary")
    ctx.eq(Om @ (dag(Om) @ v), v, "unitary")
    ctx.eq(Om.T @ (Om @ v), ref.swap_metric(n) @ v, "Omega^T Omega = S")


@harness("C11", quick=[dict(n=n) for n in range(1, 9)], thorough=[dict(n=24), dict(n=32), dict(n=50), dict(n=12), dict(n=16)], bound="n<=8 (50), arbitrary vectors")
def reorder_change(ctx, n):
    P = ctx.ff.build_reordering_xx_to_xp(n)
    v = ctx.vector("v", 2 * n, "c")
    w = P.T @ v
    for i in range(n):
        ctx.eq(w[2 * i], v[i], "x_i goes to slot 2i")
        ctx.eq(w[2 * i + 1], v[n + i], "p_i goes to slot 2i+1")
    ctx.eq(P @ w, v, "inverse is the transpose")


@harness("C11", quick=[dict(n=n) for n in range(1, 7)], thorough=[dict(n=10), dict(n=12), dict(n=16), dict(n=8)], bound="n<=6 (16), arbitrary vectors and spectra")
def canonical_change(ctx, n):
    K = ctx.ff.build_K(n)
    v = ctx.vector("v", 2 * n, "c")
    ctx.eq(dag(K) @ (K @ v), v, "unitary")
    ctx.eq(K @ (dag(K) @ v), v, "unitary")
    # canonical Majorana spectrum -> diagonal standard spectrum
    e = ctx.vector("e", n)
    L = ctx.np.zeros((2 * n, 2 * n)) * e[0]
    for k in range(n):
        L[2 * k, 2 * k + 1] = -e[k]
        L[2 * k + 1, 2 * k] = e[k]
    Om = ctx.ff.build_Omega(n)
    H = -1j * dag(Om) @ L @ Om
    D = K @ H @ dag(K)
    off = D - ctx.np.diag(ctx.np.diag(D))
    ctx.eq(off, np.zeros((2 * n, 2 * n)), "canonical structure becomes diagonal")
    d = ctx.np.diag(D)
    for k in range(n):
        ctx.eq(d[k], -d[n + k], "eigenvalues paired with opposite signs across the halves")
        ctx.eq(d[k] * d[k], e[k] * e[k], "magnitudes preserved in order")
    # symplectic form
    M = K
    ctx.eq(M[n:, n:], M[:n, :n].conj(), "block structure s, s^*")
    ctx.eq(M[n:, :n], M[:n, n:].conj(), "block structure t, t^*")


@harness("C11", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="all permutations of n<=3 (4) points as symbolic integers", paths=120, t=60)
def permutation_matrix(ctx, n):
    p = ctx.ints("p", (n,), 0, n - 1)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.not_(p[i] == p[j]))
    l = [int(p[i]) for i in range(n)]
    M = ctx.ff.permutation_to_matrix(l)
    ctx.check(M is not None, "valid permutation accepted")
    v = ctx.vector("v", n)
    w = M @ v
    for i in range(n):
        ctx.eq(w[l[i]], v[i], "entry i is sent to position p(i)")
    ctx.eq(M.T @ w, v, "inverse is the transpose")
    ctx.eq(ctx.np.linalg.det(M), ctx.ff.sgn(l), "determinant is the sign")


@harness("C11", quick=[dict(n=2), dict(n=3)], bound="all integer sequences in [-2, n+1] of length n<=3 that are not permutations", paths=400, t=60)
def permutation_matrix_rejects(ctx, n):
    p = ctx.ints("p", (n,), -2, n + 1)
    bad = []
    for i in range(n):
        bad += [p[i] < 0, p[i] >= n] + [p[i] == p[j] for j in range(i)]
    ctx.assume(ctx.or_(*bad))
    l = [int(p[i]) for i in range(n)]
    ctx.check(ctx.ff.permutation_to_matrix(l) is None, "not a permutation gives None")


@harness("C11", quick=[dict(a=(2, 2), b=(2, 2)), dict(a=(1, 1), b=(3, 3)), dict(a=(2, 3), b=(1, 2)), dict(a=(3, 1), b=(2, 2)), dict(a=(1, 2), b=(3, 1)),
                       dict(a=(2, 2), b=(1, 3), kind="c"), dict(a=(2, 2), b=(2, 2), kind="f", kindb="c"), dict(a=(1, 2), b=(2, 2), kind="c", kindb="f"),
                       dict(a=(4, 4), b=(4, 4), kind="c"), dict(a=(1, 4), b=(5, 1))],
         bound="block shapes and real/complex combinations listed, arbitrary entries")
def direct_sum(ctx, a, b, kind="f", kindb=None):
    A, B = ctx.matrix("a", a[0], a[1], kind), ctx.matrix("b", b[0], b[1], kindb or kind)
    M = ctx.ff.kron_plus(A, B)
    ctx.same(tuple(M.shape), (a[0] + b[0], a[1] + b[1]), "shape")
    ctx.eq(M[:a[0], :a[1]], A, "first block")
    ctx.eq(M[a[0]:, a[1]:], B, "second block")
    ctx.eq(M[:a[0], a[1]:], np.zeros((a[0], b[1])), "upper right is zero")
    ctx.eq(M[a[0]:, :a[1]], np.zeros((b[0], a[1])), "lower left is zero")


# ---------------------------------------------------------------- C12 predicates


@harness("C12", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], bound="n<=2 (3): every special orthogonal O, C = Omega^dag O Omega", t=60)
def symp_accepts_rotations(ctx, n):
    O = ctx.orthogonal("o", 2 * n)
    Om = ctx.ff.build_Omega(n)
    C = dag(Om) @ O @ Om
    ctx.check(says(ctx.ff.is_symp(C), True), "orthogonal mode rotation accepted")


@harness("C12", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4)], bound="n<=2 (4): every unitary U, diag(U, U^*)", t=60)
def symp_accepts_unitary(ctx, n):
    U = ctx.unitary("u", n)
    Z = np.zeros((n, n))
    C = ctx.np.block([[U, Z], [Z, U.conj()]])
    ctx.check(says(ctx.ff.is_symp(C), True), "number-conserving rotation accepted")


@harness("C12", quick=[dict(n=1), dict(n=1, eps=3e-5)], thorough=[dict(n=2)], paths=200, bound="n=1 (2): every complex matrix whose U S U^T differs from S by > 3e-5 (1e-3) in some entry", t=60)
def symp_rejects(ctx, n, eps=1e-3):
    U = ctx.matrix("u", 2 * n, 2 * n, "c")
    S = ref.swap_metric(n)
    D = U @ S @ U.T - S
    far = []
    for i in range(2 * n):
        for j in range(i + 1):
            far += [D[i, j].real > eps, D[i, j].real < -eps, D[i, j].imag > eps, D[i, j].imag < -eps]
    ctx.assume(ctx.or_(*far))
    ctx.check(says(ctx.ff.is_symp(U), False), "matrices violating U S U^T = S are refused")


@harness("C12", quick=[{}], thorough=[], bound="n=1: every invertible diagonal diag(z, 1/z), not canonical unless |z|=1", t=60)
def symp_noncanonical(ctx):
    z = ctx.real("z", 0.2, 5)
    U = ctx.np.diag(ctx.np.stack([z, 1 / z])) * (1 + 0j)
    ctx.check(says(ctx.ff.is_symp(U), True), "symplectic but not canonical still accepted")


@harness("C12", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=6), dict(n=8)], bound="n<=3 (8) blocks, arbitrary values", t=60)
def canonical_accepts(ctx, n):
    e = ctx.vector("e", n)
    L = ctx.np.zeros((2 * n, 2 * n)) * e[0]
    for k in range(n):
        L[2 * k, 2 * k + 1] = -e[k]
        L[2 * k + 1, 2 * k] = e[k]
    ctx.check(says(ctx.ff.check_canonical_form(L), True), "block antisymmetric accepted")


@harness("C12", quick=[dict(n=2), dict(n=4), dict(n=2, eps=5e-5), dict(n=4, eps=5e-5)], thorough=[dict(n=8), dict(n=6)], paths=300, t=60,
         bound="n<=4 (8): every real matrix that is off the canonical form by > 1e-3 somewhere, or with entries below one and off by > 5e-5")
def canonical_rejects(ctx, n, eps=1e-3):
    M = ctx.matrix("m", n, n)
    unit_box(ctx, M.reshape(-1), eps)
    bad = []

    def far(x):
        return ctx.or_(x > eps, x < -eps)
    for i in range(n):
        for j in range(i + 1):
            d = M[i, j] + M[j, i]
            tol = eps + 2e-5
            bad.append(ctx.or_(d > tol, d < -tol))
            if i // 2 != j // 2:
                bad.append(far(M[i, j]))
    ctx.assume(ctx.or_(*bad))
    ctx.check(says(ctx.ff.check_canonical_form(M), False), "other matrices refused")


@harness("C12", quick=[dict(n=3, m=3), dict(n=2, m=4), dict(n=4, m=2), dict(n=1, m=1)], thorough=[dict(n=5, m=5), dict(n=7, m=7), dict(n=4, m=6), dict(n=6, m=4), dict(n=1, m=2), dict(n=2, m=1), dict(n=9, m=9)], bound="odd or rectangular shapes, antisymmetric where square")
def canonical_shapes(ctx, n, m):
    M = ctx.antisym("m", n) if n == m else ctx.matrix("m", n, m)
    ctx.check(says(ctx.ff.check_canonical_form(M), False), "odd or rectangular refused")


@harness("C12", quick=[dict(k=2), dict(k=2, eps=5e-5)], thorough=[dict(k=4)], bound="n=2 (4): every complex antisymmetric matrix with imaginary part > 1e-3, or with entries below one and imaginary part > 5e-5")
def canonical_complex(ctx, k, eps=1e-3):
    M = ctx.antisym("m", k, "c")
    x = M[0, 1]
    unit_box(ctx, [x], eps)
    ctx.assume(ctx.or_(x.imag > eps, x.imag < -eps))
    ctx.check(says(ctx.ff.check_canonical_form(M), False), "complex entries refused")


@harness("C12", quick=[dict(dtype=d) for d in ("int8", "uint8", "uint16")], paths=200, t=60,
         bound="every 2x2 matrix of 8- or 16-bit integers")
def predicates_narrow(ctx, dtype):
    M = ctx.narrow_ints("m", (2, 2), dtype)
    (a, b), (c, d) = [[x for x in r] for r in M.astype(object)]
    symp = ctx.and_(a * b == 0, c * d == 0, a * d + b * c == 1)
    ctx.iff(ctx.ff.is_symp(M), symp, "symplectic exactly when U S U^T = S")
    ctx.iff(ctx.ff.check_canonical_form(M), ctx.and_(a == 0, d == 0, b + c == 0), "canonical exactly when antisymmetric")


@harness("C12", quick=[dict(kind="f"), dict(kind="c")], bound="every 4x4 matrix whose corner block is a shear image of its inner block", t=60)
def matchgate_accepts(ctx, kind):
    M = ctx.matrix("m", 4, 4, kind)
    a = ctx.vector("s", 3, kind)
    inner = M[1:3, 1:3]
    one, zero = 1 + 0 * a[0], 0 * a[0]

    def mat(p, q, r, s):
        return ctx.np.stack([ctx.np.stack([p, q]), ctx.np.stack([r, s])])
    corner = mat(one, a[0], zero, one) @ mat(one, zero, a[1], one) @ mat(one, a[2], zero, one) @ inner
    G = M.copy()
    for r in (0, 1):
        for c in (0, 1):
            G[3 * r, 3 * c] = corner[r, c]
    ctx.check(says(ctx.ff.is_matchgate(G), True), "equal determinants accepted")
    ctx.check(says(ctx.ff.is_matchgate(G, verbose=True), True), "verbosity does not change the answer")


@harness("C12", quick=[dict(kind="f"), dict(kind="c")], bound="every 4x4 matrix whose two determinants differ by > 1e-2", t=60)
def matchgate_rejects(ctx, kind):
    M = ctx.matrix("m", 4, 4, kind)
    di = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]
    dc = M[0, 0] * M[3, 3] - M[0, 3] * M[3, 0]
    d = di - dc
    gap = 1e-2
    ctx.assume(ctx.or_(d.real > gap, d.real < -gap, d.imag > gap, d.imag < -gap))
    ctx.check(says(ctx.ff.is_matchgate(M), False), "different determinants refused")
    ctx.check(says(ctx.ff.is_matchgate(M, verbose=True), False), "verbosity does not change the answer")


@harness("C12", quick=[dict(kind="f"), dict(kind="c")], bound="every 4x4 matrix with entries of up to 1e-2 whose two determinants differ by > 1e-7", t=60)
def matchgate_rejects_small(ctx, kind):
    N = ctx.matrix("m", 4, 4, kind)
    M = 1e-3 * N
    d = N[1, 1] * N[2, 2] - N[1, 2] * N[2, 1] - N[0, 0] * N[3, 3] + N[0, 3] * N[3, 0]
    ctx.assume(ctx.or_(d.real > 0.1, d.real < -0.1, d.imag > 0.1, d.imag < -0.1))
    ctx.check(says(ctx.ff.is_matchgate(M), False), "different determinants refused")


@harness("C12", quick=[dict(n=4, m=3), dict(n=2, m=2), dict(n=5, m=5)], thorough=[dict(n=3, m=4), dict(n=4, m=5), dict(n=8, m=8), dict(n=3, m=3), dict(n=1, m=1), dict(n=2, m=8), dict(n=1, m=16)], bound="shapes other than 4x4")
def matchgate_shapes(ctx, n, m):
    ctx.check(says(ctx.ff.is_matchgate(ctx.matrix("m", n, m)), False), "wrong shape refused")
