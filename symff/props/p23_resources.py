"""stabilizer distribution and entropy, covariance distribution and anti-flatness"""
import itertools

import numpy as np

from ..registry import harness
from .. import ref
from .p17_states import density
from .p20_distances import dist


def dag(x):
    return x.conj().T


def expectations(ctx, rho, n):
    return [ctx.np.trace(ref.pauli_string(d) @ rho).real for d in itertools.product(range(4), repeat=n)]


# ---------------------------------------------------------------- C23


def check_distribution(ctx, rho, x, n):
    e = expectations(ctx, rho, n)
    pur = ctx.np.trace(rho @ rho).real
    xi = ctx.ff.stabilizer_distribution(x)
    ctx.same(tuple(xi.shape), (4 ** n,), "one entry per Pauli string")
    for j in range(4 ** n):
        ctx.eq(xi[j] * pur * 2 ** n, e[j] * e[j], "squared expectation over dimension times purity")
    ctx.eq(sum(xi), 1, "sums to one")


@harness("C23", quick=[dict(n=1), dict(n=1, rank=1), dict(n=2, rank=1), dict(n=2, rank=2)], thorough=[dict(n=2)],
         bound="n<=2 qubits: every density matrix of the rank given", t=60)
def distribution_of_matrix(ctx, n, rank=None):
    rho = density(ctx, "r", 2 ** n, rank)
    check_distribution(ctx, rho, rho, n)


@harness("C23", quick=[dict(n=1), dict(n=2), dict(n=2, kind="f", shape="col"), dict(n=3, kind="f")], thorough=[dict(n=3)],
         bound="n<=3 qubits: every wavefunction, flat or column", t=60)
def distribution_of_wavefunction(ctx, n, kind="c", shape="flat"):
    N = 2 ** n
    v = ctx.sphere("v", N, kind)
    check_distribution(ctx, v.reshape(N, 1) @ v.conj().reshape(1, N), v if shape == "flat" else v.reshape(N, 1), n)


@harness("C23", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4), dict(n=3)], bound="n<=2 (4): every classical mixture", t=60)
def distribution_of_mixture(ctx, n):
    p = ctx.simplex("p", 2 ** n)
    ctx.assume(p @ p < 1)
    check_distribution(ctx, ctx.np.diag(p), p, n)


@harness("C23", quick=[dict(n=1, orders=[2]), dict(n=1, rank=1), dict(n=2, rank=1, orders=[2]), dict(n=2, rank=1, form="wave", orders=[2])],
         bound="n<=2 qubits, orders 2, 3 and infinity; every state", t=60, paths=60)
def entropy_value(ctx, n, rank=None, form="rho", orders=(2, 3)):
    N = 2 ** n
    if form == "wave":
        v = ctx.sphere("v", N, "c")
        rho = v.reshape(N, 1) @ v.conj().reshape(1, N)
        x = v
    else:
        rho = x = density(ctx, "r", N, rank)
    e = expectations(ctx, rho, n)
    for q in e[1:]:
        ctx.assume(q * q > 1e-5)
    pur = ctx.np.trace(rho @ rho).real
    xi = [q * q / (N * pur) for q in e]
    lg = ctx.np.log
    ctx.assume(ctx.np.sum(ctx.np.array([q * q for q in xi])) < 1)
    for a in orders:
        s = ctx.np.sum(ctx.np.array([q ** a for q in xi]))
        want = lg(s) / (1 - a) - lg(N)
        ctx.eq(ctx.ff.SRE(x, a), want, "order %d" % a)
        if a == 2:
            ctx.eq(ctx.ff.SRE(x), want, "order 2 is the default")


@harness("C23", quick=[dict(ax=[3]), dict(ax=[1, 3]), dict(ax=[1, 2, 3]), dict(ax=[2], near=True), dict(ax=[1, 3], near=True), dict(ax=[3], near="very"), dict(ax=[1, 2], near="very")], bound="one qubit: every Bloch vector along the listed axes (components > 1e-3), near the centre too, down to components of 1e-5", t=60, paths=60)
def entropy_of_bloch_vector(ctx, ax, near=False):
    r = ctx.vector("r", len(ax))
    for x in r:
        ctx.assume(x * x > (1e-10 if near == "very" else 1e-6))
        ctx.assume(x * x < (1e-6 if near == "very" else 4e-4 if near else 1))
    rr = sum(x * x for x in r)
    ctx.assume(rr < 0.98)
    rho = 0.5 * np.eye(2)
    for x, k in zip(r, ax):
        rho = rho + 0.5 * x * ref.PAULI[k]
    ctx.ghost_psd(rho)
    xi = [1 / (1 + rr)] + [x * x / (1 + rr) for x in r]
    want = -ctx.np.log(sum(x * x for x in xi)) - ctx.np.log(2)
    ctx.eq(ctx.ff.SRE(rho), want, "order 2, from the Bloch vector")


@harness("C23", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="computational basis states, |+> and Bell products with arbitrary global phase, n<=3 (4); orders 1/2, 1, 2, 3", t=60)
def entropy_of_stabilizer_states(ctx, n):
    th, u = ctx.angle("g")
    N = 2 ** n
    sts = [np.eye(N)[k] for k in (0, N - 1, N // 2)]
    sts.append(np.ones(N) / np.sqrt(N))
    if n > 1:
        g = np.zeros(N)
        g[0] = g[-1] = 1 / np.sqrt(2)
        sts.append(g)
        y = np.array([1, 1j]) / np.sqrt(2)
        w = y
        for _ in range(n - 1):
            w = np.kron(w, y)
        sts.append(w)
    for s in sts:
        for a in (0.5, 1, 2, 3):
            ctx.eq(ctx.ff.SRE(s * u, a), 0, "zero on stabilizer states")


@harness("C23", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4), dict(n=3)], bound="n<=2 (4)", t=60)
def entropy_of_mixed(ctx, n):
    one = ctx.real("one", lo=1, hi=1)
    ctx.assume(one == 1)
    rho = np.eye(2 ** n) / 2 ** n * one
    for a in (1, 2, 3):
        ctx.eq(ctx.ff.SRE(rho, a), 0, "zero on the completely mixed state")


@harness("C23", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=4), dict(n=3)], bound="single-qubit phase states on each of n<=2 (4) qubits, order 2", t=60)
def entropy_additive(ctx, n):
    """products of phase states (|0>+e^{i th}|1>)/sqrt 2: known entropy, adding up over qubits"""
    v, tot = None, 1
    for k in range(n):
        th, u = ctx.angle("t%d" % k)
        ctx.assume(u.real * u.real > 1e-2)
        ctx.assume(u.imag * u.imag > 1e-2)
        w = ctx.np.array([1, u]) / ctx.np.sqrt(2)
        v = w if v is None else ctx.np.kron(v, w)
        tot = tot * (1 + u.real ** 4 + u.imag ** 4) / 2
    ctx.assume(tot / 2 ** n < 1)
    ctx.eq(ctx.ff.SRE(v), -ctx.np.log(tot), "-log((1+cos^4+sin^4)/2), added over qubits")


# ---------------------------------------------------------------- C24


GAP = 1e-3


def covariance(ctx, rho, n):
    """-i <[g_i, g_j]> of the quadratures x_k = (a+a^dag)/sqrt 2, p_k = i(a^dag-a)/sqrt 2"""
    al = ref.ladder(n)
    g = [al[k] + al[n + k] for k in range(n)] + [1j * (al[k] - al[n + k]) for k in range(n)]
    M = [[0] * (2 * n) for _ in range(2 * n)]
    for i in range(2 * n):
        for j in range(i):
            x = (-0.5j * ctx.np.trace(rho @ (g[i] @ g[j] - g[j] @ g[i]))).real
            M[i][j], M[j][i] = x, -x
    return ctx.np.array(M)


def power_traces(ctx, M, kmax):
    MM = M.T @ M
    out, W = [], MM
    for k in range(kmax):
        out.append(ctx.np.trace(W) / 2)
        W = W @ MM
    return out


def check_faf(ctx, x, rho, n, kmax=3, gap=True):
    M = covariance(ctx, rho, n)
    if gap:
        ctx.weights_gap(M, GAP)
    tr = power_traces(ctx, M, kmax)
    pm = ctx.ff.cov_distribution(x)
    for k in range(1, kmax + 1):
        ctx.eq(ctx.np.sum(ctx.np.power(pm, k)), tr[k - 1], "power sum %d of the squared weights" % k)
    for k in range(1, kmax + 1):
        ctx.eq(ctx.ff.FAF(x, k), n - tr[k - 1], "n minus half the trace of the %d-th power" % k)
    if kmax > 1:
        ctx.eq(ctx.ff.FAF(x), n - tr[1], "order 2 is the default")


@harness("C24", quick=[dict(n=1), dict(n=1, rank=1), dict(n=2, rank=1, kmax=2)], thorough=[dict(n=2, rank=2, kmax=2)],
         bound="n<=2 sites: every density matrix of the rank given, orders 1..3", t=60, paths=60)
def weights_of_state(ctx, n, rank=None, kmax=3):
    rho = density(ctx, "r", 2 ** n, rank)
    check_faf(ctx, rho, rho, n, kmax)


@harness("C24", quick=[dict(n=2, kmax=2), dict(n=2, kind="f", shape="col")], thorough=[dict(n=3, kind="f", kmax=2)], bound="n<=2 (3) sites: every wavefunction", t=60, paths=60)
def weights_of_wavefunction(ctx, n, kind="c", shape="flat", kmax=3):
    N = 2 ** n
    v = ctx.sphere("v", N, kind)
    check_faf(ctx, v if shape == "flat" else v.reshape(N, 1), v.reshape(N, 1) @ v.conj().reshape(1, N), n, kmax)


@harness("C24", quick=[dict(n=1), dict(n=2), dict(n=3, kmax=2)], thorough=[dict(n=5, kmax=1), dict(n=4, kmax=2)], bound="n<=3 (5): every classical mixture of occupations", t=60, paths=60)
def weights_of_mixture(ctx, n, kmax=3):
    p = ctx.simplex("p", 2 ** n)
    ctx.assume(p @ p < 1)
    check_faf(ctx, p, ctx.np.diag(p), n, kmax)


@harness("C24", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], bound="n<=2 (3) sites: products of one-site mixtures, orders 4, 5, 8, 1.5, 2.5 and 10", t=60, paths=60)
def higher_orders(ctx, n):
    x = [ctx.real("x%d" % k, 0.01, 0.99) for k in range(n)]
    p = ctx.np.array([1.0])
    for y in x:
        p = ctx.np.kron(p, ctx.np.array([(1 + y) / 2, (1 - y) / 2]))
    ctx.assume(p @ p < 0.999)
    for k in (4, 5, 8, 10) + ((1.5, 2.5) if n == 1 else ()):
        ctx.eq(ctx.ff.FAF(p, k), n - sum((y * y) ** k for y in x), "n minus the sum of the powers")


@harness("C24", quick=[dict(n=1), dict(n=2)], bound="n<=2 sites: nearly half-filled sites, weights between 1e-6 and 1e-2", t=60, paths=60)
def small_weights(ctx, n):
    """the squared weights are compared relative to their size"""
    x = [ctx.real("x%d" % k, 1e-6, 1e-2) for k in range(n)]
    p = ctx.np.array([1.0])
    for y in x:
        p = ctx.np.kron(p, ctx.np.array([(1 + y) / 2, (1 - y) / 2]))
    pm = ctx.ff.cov_distribution(p)
    ctx.same(len(pm), n, "one weight per site")
    if n == 1:
        ctx.eq(pm[0] / (x[0] * x[0]), 1, "the squared weight", tol=1e-4)
    else:
        ctx.eq(pm[0] * pm[1] / (x[0] * x[0] * x[1] * x[1]), 1, "product of the squared weights", tol=1e-4)


@harness("C24", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="occupations of n<=3 (4) sites, one of them exactly half filled", t=60, paths=60)
def vanishing_weight(ctx, n):
    """a half-filled uncorrelated site contributes nothing"""
    for site in range(n):
        p = ctx.np.array([1.0])
        q = []
        for k in range(n):
            x = 0.5
            if k != site:
                y = dist(ctx, "q%d_%d" % (site, k), 2)
                x = y[1]
                ctx.assume(ctx.or_(x > 0.51, x < 0.49))
                q.append(1 - 2 * x)
                p = ctx.np.kron(p, y)
            else:
                p = ctx.np.kron(p, ctx.np.array([0.5, 0.5]))
        pm = ctx.ff.cov_distribution(p)
        for k in (1, 2):
            s = sum(y ** (2 * k) for y in q)
            ctx.eq(ctx.np.sum(ctx.np.power(pm, k)), s, "power sums of the other weights")
            ctx.eq(ctx.ff.FAF(p, k), n - s, "n minus the others' powers")


@harness("C24", quick=[dict(kmax=2)], bound="3 sites: two uncoupled chains of three quadratures, couplings between 0.02 and 0.12", t=60, paths=60)
def weights_of_odd_chains(ctx, kmax):
    """each chain carries one zero mode, so the weights need not sit in adjacent Schur blocks"""
    al = ref.ladder(3)
    g = [al[k] + al[3 + k] for k in range(3)] + [1j * (al[k] - al[3 + k]) for k in range(3)]
    Z = lambda: ctx.np.zeros((6, 6)) * ctx.real("one_", lo=1, hi=1)
    M, Lc, O, es = Z(), Z(), Z(), []
    rho = np.eye(8) / 8 + 0j
    for k in range(2):
        e = ctx.real("e%d" % k, 0.02, 0.12)
        th, u = ctx.angle("th%d" % k)
        c, s = u.real, u.imag
        ctx.assume(c * c > 1e-2)
        ctx.assume(s * s > 1e-2)
        i = 3 * k
        M[i, i + 1], M[i + 1, i] = -e * c, e * c
        M[i + 1, i + 2], M[i + 2, i + 1] = -e * s, e * s
        O[i, i], O[i + 2, i] = c, -s
        O[i + 1, i + 1] = 1
        O[i, i + 2], O[i + 2, i + 2] = s, c
        Lc[i, i + 1], Lc[i + 1, i] = -e, e
        es.append(e)
    for i in range(6):
        for j in range(i):
            rho = rho - (0.125j * M[i, j]) * (g[i] @ g[j])
    ctx.ghost_psd(rho)      # spectrum (1 +- e_0 +- e_1)/8: two commuting involutions
    ctx.ghost_schur(M, Lc, O)
    pm = ctx.ff.cov_distribution(rho)
    for k in range(1, kmax + 1):
        s = sum(e ** (2 * k) for e in es)
        ctx.eq(ctx.np.sum(ctx.np.power(pm, k)), s, "power sums of the weights")
        ctx.eq(ctx.ff.FAF(rho, k), 3 - s, "n minus the power sums")


@harness("C24", quick=[dict(n=2, par=0), dict(n=2, par=1), dict(n=3, par=0, kind="f"), dict(n=3, par=1, kind="f")], thorough=[dict(n=3, par=0), dict(n=3, par=1)],
         bound="every pure state of definite parity on n<=3 sites (all of them are free-fermion states)", t=60, paths=60)
def zero_on_free_fermion_states(ctx, n, par, kind="c"):
    N = 2 ** n
    idx = [i for i in range(N) if bin(i).count("1") % 2 == par]
    w = ctx.sphere("w", len(idx), kind)
    v = ctx.np.zeros(N, dtype=complex if kind == "c" else float) * 1
    for k, i in enumerate(idx):
        v[i] = w[k]
    ctx.weights_gap(covariance(ctx, v.reshape(N, 1) @ v.conj().reshape(1, N), n), GAP)
    for k in (1, 2, 3):
        ctx.eq(ctx.ff.FAF(v, k), 0, "no anti-flatness")
    pm = ctx.ff.cov_distribution(v)
    ctx.eq(ctx.np.sum(pm), n, "weights sum to the number of sites")


@harness("C24", quick=[dict(n=1, rank=1), dict(n=1), dict(n=2, kmax=1)], bound="pure one-site states; every occupation mixture of n<=2 sites", t=60, paths=60)
def nonnegative(ctx, n, rank=None, kmax=3):
    if rank:
        rho = density(ctx, "r", 2 ** n, rank)
    else:
        rho = dist(ctx, "p", 2 ** n)
    for k in range(1, kmax + 1):
        f = ctx.ff.FAF(rho, k)
        ctx.le(0, f, "not negative")
        ctx.le(f, n, "at most the number of sites")
