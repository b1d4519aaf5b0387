"""symplectic and Majorana diagonalisation, Gaussian states, correlation matrices"""
import numpy as np

from ..registry import harness
from .. import ref


def dag(x):
    return x.conj().T


def canon(ctx, e):
    """direct sum of [[0,-e],[e,0]]"""
    n = len(e)
    Lc = ctx.np.zeros((2 * n, 2 * n)) * e[0]
    for k in range(n):
        Lc[2 * k, 2 * k + 1] = -e[k]
        Lc[2 * k + 1, 2 * k] = e[k]
    return Lc


def spectral(ctx, n, zeros=0, signs=False):
    """(M, e): every real antisymmetric 2n x 2n matrix with `zeros` vanishing pairs,
    written as O Lc O^T (O a rotation; a reflection only flips the sign of one e)"""
    e = ctx.vector("e", n)
    for k in range(n):
        if k >= n - zeros:
            e[k] = 0
        else:
            ctx.assume(ctx.or_(e[k] > 0.01, e[k] < -0.01))
    O = ctx.rotation("o", 2 * n)
    Lc = canon(ctx, e)
    M = O @ Lc @ O.T
    M = (M - M.T) / 2
    ctx.ghost_schur(M, Lc, O)
    return M, e


# ---------------------------------------------------------------- C13 diagonalisation


def omega(n):
    r = np.eye(n)
    return r


def check_symplectic_unitary(ctx, U, n):
    ctx.eq(dag(U) @ U, np.eye(2 * n), "unitary")
    ctx.eq(U[n:, n:], U[:n, :n].conj(), "blocks s, s^*")
    ctx.eq(U[n:, :n], U[:n, n:].conj(), "blocks t, t^*")


def check_diag(ctx, L, e, n, name):
    off = L - ctx.np.diag(ctx.np.diag(L))
    ctx.eq(off, np.zeros((2 * n, 2 * n)), name + " diagonal")
    d = ctx.np.diag(L)
    ctx.eq(d.imag, np.zeros(2 * n), "eigenvalues are real")
    for k in range(n):
        ctx.eq(d[k].real, -d[n + k].real, "eigenvalues come in opposite pairs across the halves")
    for q in range(1, n + 1):
        ctx.eq(sum(d[k].real ** (2 * q) for k in range(n)), sum(e[k] ** (2 * q) for k in range(n)), "magnitudes are those of the Hamiltonian")


def check_phases(ctx, U, n):
    for k in range(2 * n):
        x = U[k, k]
        ctx.check(x.imag * x.imag <= 1e-15, "phases are canonical: real diagonal")
        ctx.check(x.real >= -1e-8, "phases are canonical: non-negative diagonal")


@harness("C13", quick=[dict(tilt=0)], thorough=[dict(tilt=1)], paths=120, t=60,
         bound="2 modes: every rotation of two uncoupled modes by one angle (tilt: with another angle for the momenta), |e| > 0.01")
def eigenvector_phases(ctx, tilt):
    e = ctx.vector("e", 2)
    for x in e:
        ctx.assume(ctx.or_(x > 0.01, x < -0.01))
    us = [ctx.angle("th0")[1], ctx.angle("th1")[1]]
    if not tilt:
        us[1] = us[0]
    one = ctx.real("one_", lo=1, hi=1)
    O = ctx.np.zeros((4, 4)) * one
    for h in (0, 1):
        c, s = us[h].real, us[h].imag
        O[2 * h, h], O[2 * h, 2 + h] = c, -s
        O[2 * h + 1, h], O[2 * h + 1, 2 + h] = s, c
    Lc = canon(ctx, e)
    M = O @ Lc @ O.T
    M = (M - M.T) / 2
    ctx.ghost_schur(M, Lc, O)
    Om = ctx.ff.build_Omega(2)
    H = -1j * (dag(Om) @ M @ Om)
    L, U = ctx.ff.eigh_sp(H)
    check_phases(ctx, U, 2)


@harness("C13", quick=[dict(n=1), dict(n=2), dict(n=2, zeros=1), dict(n=2, zeros=2)], thorough=[], paths=120, t=100,
         bound="n<=2 modes: every quadratic Hamiltonian with the given number of zero modes (others with |e| > 0.01)")
def hermitian_symplectic(ctx, n, zeros=0):
    M, e = spectral(ctx, n, zeros)
    Om = ctx.ff.build_Omega(n)
    H = -1j * (dag(Om) @ M @ Om)
    L, U = ctx.ff.eigh_sp(H)
    check_symplectic_unitary(ctx, U, n)
    ctx.eq(U @ L @ dag(U), H, "eigenvectors reconstruct the Hamiltonian")
    check_diag(ctx, L, e, n, "eigenvalue matrix")


@harness("C13", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], paths=120, t=100,
         bound="n<=3 (4): number-conserving Hamiltonians with diagonal A; |entries| pairwise > 0.02 apart and > 0.02")
def number_conserving_order(ctx, n):
    """without pairing, the annihilation half of the spectrum is A's, in ascending order"""
    a = ctx.vector("a", n)
    for i in range(n):
        ctx.assume(a[i] * a[i] > 0.01)
        for j in range(i):
            d = a[i] * a[i] - a[j] * a[j]
            ctx.assume(ctx.or_(d > 0.01, d < -0.01))
    A = ctx.np.diag(a)
    H = ctx.ff.build_H(n, A)
    L, U = ctx.ff.eigh_sp(H)
    check_symplectic_unitary(ctx, U, n)
    ctx.eq(U @ L @ dag(U), H, "eigenvectors reconstruct the Hamiltonian")
    check_diag(ctx, L, a, n, "eigenvalue matrix")
    w = ctx.np.linalg.eigvalsh(A)
    d = ctx.np.diag(L)
    for k in range(n):
        ctx.eq(d[n + k].real, w[k], "eigenvalues follow A's")


@harness("C13", quick=[dict(n=1), dict(n=2, zeros=1), dict(n=2, zeros=2)], thorough=[dict(n=2)], paths=120, t=100,
         bound="n<=2 modes, quadratic forms in V-form")
def v_form(ctx, n, zeros=0):
    M, e = spectral(ctx, n, zeros)
    Om = ctx.ff.build_Omega(n)
    H = -1j * (dag(Om) @ M @ Om)
    I, Z = np.eye(n), np.zeros((n, n))
    Sx = np.block([[Z, I], [I, Z]])
    V = Sx @ H
    L, U = ctx.ff.eigv_sp(V)
    check_symplectic_unitary(ctx, U, n)
    ctx.eq(U.T @ V @ U, L, "U^T V U = L")
    check_diag(ctx, Sx @ L, e, n, "V-form spectrum")


@harness("C13", quick=[dict(n=1), dict(n=2, zeros=1), dict(n=2, zeros=2)], thorough=[dict(n=2)], paths=120, t=100,
         bound="n<=2 modes, every Majorana generator")
def majorana_y_form(ctx, n, zeros=0):
    M, e = spectral(ctx, n, zeros)
    G = -1j * M
    L, O = ctx.ff.eigm_sp(G)
    ctx.eq(O.imag, np.zeros((2 * n, 2 * n)), "eigenvectors are real")
    ctx.eq(O.T @ O, np.eye(2 * n), "eigenvectors are orthogonal")
    ctx.eq(O @ L @ O.T, G, "eigenvectors reconstruct the generator")
    ctx.eq(L[:n, :n], np.zeros((n, n)), "upper left block")
    ctx.eq(L[n:, n:], np.zeros((n, n)), "lower right block")
    ctx.eq(L[n:, :n], -L[:n, n:], "off-diagonal blocks are opposite")
    D = L[n:, :n]
    ctx.eq(D - ctx.np.diag(ctx.np.diag(D)), np.zeros((n, n)), "off-diagonal blocks are diagonal")


def check_canonical(ctx, L, n, e=None):
    for i in range(2 * n):
        for j in range(2 * n):
            if i // 2 != j // 2 or i == j:
                ctx.eq(L[i, j], 0, "outside the canonical blocks")
    for k in range(n):
        ctx.eq(L[2 * k, 2 * k + 1], -L[2 * k + 1, 2 * k], "blocks are antisymmetric")
        ctx.eq(L[2 * k, 2 * k + 1].real, 0, "blocks are imaginary")
    if e is not None:
        for q in range(1, n + 1):
            ctx.eq(sum(L[2 * k, 2 * k + 1].imag ** (2 * q) for k in range(n)), sum(e[k] ** (2 * q) for k in range(n)), "magnitudes are those of the generator")


@harness("C13", quick=[dict(n=1), dict(n=2), dict(n=2, zeros=1), dict(n=2, zeros=2)], thorough=[], paths=120, t=100,
         bound="n<=2 modes, every Majorana generator")
def majorana_canonical(ctx, n, zeros=0):
    M, e = spectral(ctx, n, zeros)
    G = -1j * M
    L, O = ctx.ff.eigm_sp_can(G)
    ctx.eq(O.T @ O, np.eye(2 * n), "eigenvectors are orthogonal")
    ctx.eq(O @ L @ O.T, G, "eigenvectors reconstruct the generator")
    check_canonical(ctx, L, n, e)


@harness("C13", quick=[dict(z=0), dict(z=1), dict(z=2)], thorough=[dict(z=0, alln=4), dict(z=1, alln=4)], paths=60, t=60,
         bound="3 or 4 modes, uncoupled pairs of quadratures with zero modes in any place")
def majorana_canonical_zero_modes(ctx, z, alln=3):
    """zero modes in front of, between and behind nonzero pairs"""
    n = alln
    M = ctx.np.zeros((2 * n, 2 * n)) * ctx.real("one_", lo=1, hi=1)
    e = ctx.vector("e", n - 1)
    for k in range(n - 1):
        ctx.assume(ctx.or_(e[k] > 0.01, e[k] < -0.01))
    # one zero mode split around the pairs: quadratures 0 and 2n-1, or 0 and 1, or the last two
    lone = [(0, 2 * n - 1), (0, 1), (2 * n - 3, 2 * n - 1)][z]
    rest = [i for i in range(2 * n) if i not in lone]
    for k in range(n - 1):
        i, j = rest[2 * k], rest[2 * k + 1]
        M[i, j] = -e[k]
        M[j, i] = e[k]
    G = -1j * M
    L, O = ctx.ff.eigm_sp_can(G)
    ctx.eq(O.T @ O, np.eye(2 * n), "eigenvectors are orthogonal")
    ctx.eq(O @ L @ O.T, G, "eigenvectors reconstruct the generator")
    check_canonical(ctx, L, n, list(e) + [0])


@harness("C13", quick=[{}], paths=60, t=60, bound="3 modes: two uncoupled chains of three quadratures, every coupling with modulus > 0.01")
def majorana_canonical_odd_chains(ctx):
    """each chain has one zero mode, so the zeros need not be neighbours in a Schur form"""
    Z = lambda: ctx.np.zeros((6, 6)) * ctx.real("one_", lo=1, hi=1)
    M, Lc, O, es = Z(), Z(), Z(), []
    for k in range(2):
        e = ctx.real("e%d" % k, 0.05, 10)
        th, u = ctx.angle("th%d" % k)
        c, s = u.real, u.imag
        ctx.assume(c * c > 1e-2)
        ctx.assume(s * s > 1e-2)
        i = 3 * k
        M[i, i + 1], M[i + 1, i] = -e * c, e * c
        M[i + 1, i + 2], M[i + 2, i + 1] = -e * s, e * s
        O[i, i], O[i + 2, i] = c, -s
        O[i + 1, i + 1] = 1
        O[i, i + 2], O[i + 2, i + 2] = s, c
        Lc[i, i + 1], Lc[i + 1, i] = -e, e
        es.append(e)
    ctx.ghost_schur(M, Lc, O)
    G = -1j * M
    L, O = ctx.ff.eigm_sp_can(G)
    ctx.eq(O.T @ O, np.eye(6), "eigenvectors are orthogonal")
    ctx.eq(O @ L @ O.T, G, "eigenvectors reconstruct the generator")
    check_canonical(ctx, L, 3, es + [0])
