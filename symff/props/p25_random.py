"""random rotations, states and combinatorial objects; seeds; input validation"""
import numpy as np

from ..registry import harness
from .. import ref


def dag(x):
    return x.conj().T


# ---------------------------------------------------------------- C25


def number_op(n):
    al = ref.ladder(n)
    return sum(al[i] @ al[n + i] for i in range(n))


def parity_op(n):
    return np.diag([(-1.0) ** bin(b).count("1") for b in range(2 ** n)])


def check_density(ctx, rho, N, name="state"):
    ctx.same(tuple(rho.shape), (N, N), name + " shape")
    ctx.eq(rho, dag(rho), name + " Hermitian")
    ctx.eq(ctx.np.trace(rho), 1, name + " has unit trace")


def check_wick(ctx, rho, n):
    """Wick's theorem: even Gaussian states are fixed by their two-point function"""
    al = ref.ladder(n)
    g = [al[k] + al[n + k] for k in range(n)] + [1j * (al[k] - al[n + k]) for k in range(n)]

    def ex(*ix):
        m = np.eye(2 ** n)
        for i in ix:
            m = m @ g[i]
        return ctx.np.trace(rho @ m)
    ctx.eq(rho @ parity_op(n), parity_op(n) @ rho, "even parity")
    if n == 2:
        ctx.eq(ex(0, 1, 2, 3), ex(0, 1) * ex(2, 3) - ex(0, 2) * ex(1, 3) + ex(0, 3) * ex(1, 2), "Wick's theorem")


def check_ket(ctx, psi, n, name="state"):
    ctx.same(tuple(psi.shape), (2 ** n, 1), name + " is a column of 2**n amplitudes")
    ctx.eq((dag(psi) @ psi)[0, 0], 1, name + " is normalised")


def canonical_blocks(ctx, H, n):
    ctx.same(tuple(H.shape), (2 * n, 2 * n), "coefficient matrix")
    ctx.eq(H, dag(H), "Hermitian")
    ctx.eq(H[n:, n:], -H[:n, :n].conj(), "blocks A, -A^*")
    ctx.eq(H[:n, n:], -H[:n, n:].T, "pairing block antisymmetric")


def det_ref(C):
    """cofactor expansion along the first row"""
    m = C.shape[0]
    if m == 1:
        return C[0, 0]
    t = 0
    for j in range(m):
        keep = [k for k in range(m) if k != j]
        t = t + (-1) ** j * C[0, j] * det_ref(C[1:][:, keep])
    return t


@harness("C25", quick=[dict(n=1), dict(n=2)], bound="n<=2: every rotation drawn (outside the branch cut of the logarithm)", t=60)
def rotation(ctx, n):
    ctx.draw_gap(1e-3)
    C = ctx.ff.random_FF_rotation(n, seed=7, returnOrb=True)
    ctx.eq(det_ref(C), 1, "orbital rotation is proper (keeps the parity)")
    G = ctx.ff.random_FF_rotation(n, seed=7, returnH=True)
    W = ctx.ff.random_FF_rotation(n, seed=7)
    N = 2 ** n
    ctx.same(tuple(C.shape), (2 * n, 2 * n), "orbital rotation")
    ctx.eq(C @ dag(C), np.eye(2 * n), "orbital rotation is unitary")
    X = ref.swap_metric(n)
    ctx.eq(C @ X @ C.T, X, "orbital rotation is symplectic")
    ctx.eq(C[n:, n:], C[:n, :n].conj(), "orbital blocks s, s^*")
    ctx.same(tuple(G.shape), (N, N), "generator is a many-body operator")
    ctx.eq(G, dag(G), "generator is Hermitian")
    ctx.eq(W @ dag(W), np.eye(N), "rotation is unitary")
    ctx.eq(ctx.linalg.expm(-1j * G), W, "generator generates the rotation")
    al = ref.ladder(n)
    for i in range(2 * n):
        ctx.eq(dag(W) @ al[i] @ W, ref.lin(C[i], al), "ladder operators rotate by the orbital rotation")


@harness("C25", quick=[dict(n=1), dict(n=2), dict(n=3)], bound="n<=3: every outcome of the draws, seeded or not", t=60)
def pure_state(ctx, n):
    ctx.draw_gap(1e-3)
    for seed in (None, 3):
        psi, H = ctx.ff.random_FF_state(n, pure=True, returnH=True, seed=seed)
        check_ket(ctx, psi, n)
        ctx.eq(H, dag(H), "generator is Hermitian")
        z = np.zeros((2 ** n, 1))
        z[0] = 1
        ctx.eq(ctx.linalg.expm(-1j * H) @ z, psi, "generator generates the returned state from the vacuum")
        ctx.eq(parity_op(n) @ psi, psi, "even parity")
        check_ket(ctx, ctx.ff.random_FF_state(n, pure=True, seed=seed), n)


@harness("C25", quick=[dict(n=1), dict(n=2, fixedN=True), dict(n=1, fixedN=True), dict(n=2)], bound="n<=2: every outcome of the draws", t=60)
def mixed_state(ctx, n, fixedN=False):
    ctx.draw_gap(1e-3)
    for seed in (None, 3):
        rho, H = ctx.ff.random_FF_state(n, fixedN=fixedN, returnH=True, seed=seed)
        check_density(ctx, rho, 2 ** n)
        ctx.eq(H, dag(H), "generator is Hermitian")
        ctx.eq(rho @ H, H @ rho, "generator commutes with the returned state")
        check_wick(ctx, rho, n)
        if fixedN:
            ctx.eq(rho @ number_op(n), number_op(n) @ rho, "state conserves the number of particles")
            ctx.eq(H @ number_op(n), number_op(n) @ H, "generator conserves the number of particles")
        rho2 = ctx.ff.random_FF_state(n, fixedN=fixedN, seed=seed)
        check_density(ctx, rho2, 2 ** n)


@harness("C25", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=6), dict(n=8)], bound="n<=3 (8): every outcome of the draws", t=60)
def generator(ctx, n):
    H = ctx.ff.random_H_generator(n)
    canonical_blocks(ctx, H, n)
    H = ctx.ff.random_H_generator(n, fixedN=True)
    canonical_blocks(ctx, H, n)
    ctx.eq(H[:n, n:], np.zeros((n, n)), "no pairing when the number is conserved")


@harness("C25", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)], bound="n<=2 (4) qubits: every outcome of the draws", t=60)
def qubit_states(ctx, n):
    rho = ctx.ff.ff_random_states.random_qubit_state(n)
    check_density(ctx, rho, 2 ** n)
    psi = ctx.ff.ff_random_states.random_qubit_pure_state(n)
    check_ket(ctx, psi, n)


@harness("C25", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], bound="n<=3 (4) sites: every outcome of the draws", t=60)
def state_randH(ctx, n):
    ctx.draw_gap(1e-3)
    rho = ctx.ff.random_FF_state_randH(n)
    check_density(ctx, rho, 2 ** n)
    check_wick(ctx, rho, n)


@harness("C25", quick=[dict(n=1), dict(n=2)], bound="n<=2 sites: every outcome of the draws", t=60)
def state_rotPDF(ctx, n):
    ctx.draw_gap(1e-3)
    rho, s = ctx.ff.random_FF_state_rotPDF(n, returnS=True)
    check_density(ctx, rho, 2 ** n)
    ctx.same(len(s), 2 ** n, "one probability per basis state")
    ctx.eq(sum(s), 1, "probabilities sum to one")
    M = rho
    for k in range(1, 4):
        ctx.eq(ctx.np.trace(M), sum(x ** k for x in s), "the returned distribution is the spectrum")
        M = M @ rho
    ctx.eq(rho @ parity_op(n), parity_op(n) @ rho, "rotation keeps parity")
    check_density(ctx, ctx.ff.random_FF_state_rotPDF(n), 2 ** n)


@harness("C25", quick=[dict(n=1), dict(n=2)], bound="n<=2 sites: every outcome of the draws, every particle number", t=60)
def pure_state_family(ctx, n):
    ctx.draw_gap(1e-3)
    psi = ctx.ff.random_FF_pure_state_W0(n)
    check_ket(ctx, psi, n, "W0")
    ctx.eq(parity_op(n) @ psi, psi, "W0: parity of the vacuum")
    for N in range(n + 1):
        psi = ctx.ff.random_FF_pure_state_WN(n, N)
        check_ket(ctx, psi, n, "WN")
        ctx.eq(parity_op(n) @ psi, psi * (-1) ** N, "WN: parity of N particles")
    check_ket(ctx, ctx.ff.random_FF_pure_state_WN(n), n, "WN")


@harness("C25", quick=[dict(n=3, N=2), dict(n=3, N=3)], thorough=[dict(n=4, N=4)], bound="3 sites: every outcome of the draws", t=60)
def pure_state_particles(ctx, n, N):
    ctx.draw_gap(1e-3)
    psi = ctx.ff.random_FF_pure_state_WN(n, N)
    ctx.eq(parity_op(n) @ psi, psi * (-1) ** N, "WN: parity of N particles")


@harness("C25", quick=[dict(n=1)], thorough=[dict(n=2)], bound="n=1 (2): every outcome of the draws", t=60)
def pure_state_CN(ctx, n):
    ctx.draw_gap(1e-3)
    psi = ctx.ff.random_FF_pure_state_CN(n)
    check_ket(ctx, psi, n, "CN")


@harness("C25", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=6)], bound="n<=3 (6): every state vector the stabilizer simulator can hand out")
def stabilizer_state(ctx, n):
    v = ctx.sphere("v", 2 ** n, "c")
    ctx.stim_vector(v)
    psi = ctx.ff.ff_random_states.random_CHP_state(n)
    check_ket(ctx, psi, n, "stabilizer state")
    ctx.eq(psi[:, 0], v, "the state of the drawn tableau")
    ctx.same(ctx.stim_asked()[0], n, "a tableau on the requested number of qubits")


# ---------------------------------------------------------------- C26


def gens(ctx):
    ff, rs = ctx.ff, ctx.ff.ff_random_states
    tup = lambda r: list(r) if isinstance(r, tuple) else [r]
    return {
        "rotation": lambda n, s: [ff.random_FF_rotation(n, seed=s), ff.random_FF_rotation(n, seed=s, returnH=True),
                                  ff.random_FF_rotation(n, seed=s, returnOrb=True)],
        "rotation_op": lambda n, s: [ff.random_FF_rotation(n, seed=s)],
        "rotation_H": lambda n, s: [ff.random_FF_rotation(n, seed=s, returnH=True)],
        "rotation_orb": lambda n, s: [ff.random_FF_rotation(n, seed=s, returnOrb=True)],
        "state": lambda n, s: [ff.random_FF_state(n, seed=s)],
        "state_H": lambda n, s: tup(ff.random_FF_state(n, seed=s, returnH=True)),
        "state_fixedN": lambda n, s: [ff.random_FF_state(n, fixedN=True, seed=s)],
        "state_fixedN_H": lambda n, s: tup(ff.random_FF_state(n, fixedN=True, seed=s, returnH=True)),
        "state_pure": lambda n, s: [ff.random_FF_state(n, pure=True, seed=s)],
        "state_pure_H": lambda n, s: tup(ff.random_FF_state(n, pure=True, seed=s, returnH=True)),
        "H_generator": lambda n, s: [ff.random_H_generator(n, seed=s)],
        "H_generator_fixedN": lambda n, s: [ff.random_H_generator(n, fixedN=True, seed=s)],
        "qubit_state": lambda n, s: [rs.random_qubit_state(n, seed=s)],
        "qubit_pure_state": lambda n, s: [rs.random_qubit_pure_state(n, seed=s)],
        "randH": lambda n, s: [rs.random_FF_state_randH(n, seed=s)],
        "rotPDF": lambda n, s: [rs.random_FF_state_rotPDF(n, seed=s)],
        "rotPDF_S": lambda n, s: tup(rs.random_FF_state_rotPDF(n, returnS=True, seed=s)),
        "W0": lambda n, s: [rs.random_FF_pure_state_W0(n, seed=s)],
        "WN": lambda n, s: [rs.random_FF_pure_state_WN(n, seed=s)],
        "WN1": lambda n, s: [rs.random_FF_pure_state_WN(n, 1, seed=s)],
        "CN": lambda n, s: [rs.random_FF_pure_state_CN(n, seed=s)],
        "bitstring": lambda n, s: [ff.generate_random_bitstring(2 * n, n)],
    }


GEN_NAMES = ["rotation", "state", "state_H", "state_fixedN", "state_fixedN_H", "state_pure", "state_pure_H", "H_generator",
             "H_generator_fixedN", "qubit_state", "qubit_pure_state", "randH", "rotPDF", "rotPDF_S", "W0", "WN", "WN1", "CN"]


def eqs(ctx, a, b, name):
    ctx.same(len(a), len(b), name + " (number of results)")
    for x, y in zip(a, b):
        ctx.eq(x, y, name)


@harness("C26", quick=[dict(gen=g, n=n) for g in GEN_NAMES for n in (1, 2) if (g, n) != ("CN", 2)], t=40,
         bound="n<=2: every seed, every outcome of the draws, with and without earlier draws",
         assumes="draws stay 1e-3 away from the coordinate hyperplanes")
def seeded(ctx, gen, n):
    ctx.draw_gap(1e-3)
    f = gens(ctx)[gen]
    s = ctx.int("seed", 0, 2 ** 31)
    a = f(n, s)
    b = f(n, s)
    eqs(ctx, a, b, "same seed, same object")
    ctx.np.random.rand(3)
    f(n, None)
    c = f(n, s)
    eqs(ctx, a, c, "same seed, same object after other draws")
    ctx.np.random.seed(5)
    c = f(n, s)
    eqs(ctx, a, c, "same seed, same object after another seeding")


SMALL = [("rotation_op", 1), ("rotation_H", 1), ("rotation_orb", 1), ("state", 1), ("state_fixedN", 1), ("state_pure", 1),
         ("H_generator", 1), ("H_generator_fixedN", 1), ("qubit_state", 1), ("qubit_pure_state", 1), ("randH", 1), ("rotPDF", 1), ("W0", 1),
         ("WN1", 1)]


@harness("C26", quick=[dict(gen=g, n=n) for g, n in SMALL] + [dict(gen="bitstring", n=1)], t=40, bound="n=1: every seed, every outcome of the draws",
         assumes="draws stay 1e-3 away from the coordinate hyperplanes")
def unseeded(ctx, gen, n):
    """without a seed the draws continue the global stream"""
    ctx.draw_gap(1e-3)
    f = gens(ctx)[gen]
    s = ctx.int("seed", 0, 2 ** 31)
    ctx.np.random.seed(s)
    a = f(n, None)
    b = f(n, None)
    ctx.np.random.seed(s)
    a2 = f(n, None)
    b2 = f(n, None)
    eqs(ctx, a, a2, "a function of the global stream")
    eqs(ctx, b, b2, "a function of the global stream (second call)")
    if gen != "bitstring":
        ctx.differ(a[0], b[0], "consecutive unseeded calls are different draws")


@harness("C26", quick=[dict(gen=g, n=n) for g, n in SMALL], t=40, bound="n=1: every pair of different seeds",
         assumes="draws stay 1e-3 away from the coordinate hyperplanes")
def other_seed(ctx, gen, n):
    ctx.draw_gap(1e-3)
    f = gens(ctx)[gen]
    s = ctx.int("seed", 0, 2 ** 31)
    a = f(n, s)
    b = f(n, s + 7)
    ctx.differ(a[0], b[0], "different seeds give different draws")


@harness("C26", quick=[dict(gen=g, n=n) for g, n in SMALL], t=40, bound="n=1: seeds of the four NumPy and Python integer kinds listed",
         assumes="draws stay 1e-3 away from the coordinate hyperplanes")
def seed_kinds(ctx, gen, n):
    """a NumPy integer is a seed like any other"""
    ctx.draw_gap(1e-3)
    f = gens(ctx)[gen]
    for s in (np.int64(3), np.uint8(200), np.int32(0), 0):
        a = f(n, s)
        ctx.np.random.rand(2)
        eqs(ctx, a, f(n, s), "same seed, same object")
        ctx.np.random.seed(7)
        eqs(ctx, a, f(n, int(s)), "a NumPy integer seeds like the Python integer of the same value")


@harness("C26", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], paths=400, t=60, bound="n<=3 (4) nodes, one graph drawn per call (thorough: n=4); every seed")
def planar_graph(ctx, n):
    ctx.graph_draws(5)
    s = ctx.int("seed", 0, 2 ** 31)
    f = ctx.ff.generate_random_planar_graph
    a = f(n, seed=s)
    ctx.pyrandom.random()
    ctx.np.random.rand(2)
    b = f(n, seed=s)
    ctx.same(sorted(map(sorted, a.edges())), sorted(map(sorted, b.edges())), "same seed, same graph")
    ctx.pyrandom.seed(5)
    b = f(n, seed=s)
    ctx.same(sorted(map(sorted, a.edges())), sorted(map(sorted, b.edges())), "same seed, same graph after another seeding")
    if n <= 2:
        ctx.pyrandom.seed(s)
        f(n)
        x = ctx.pyrandom.random()
        ctx.pyrandom.seed(s + 7)
        f(n)
        y = ctx.pyrandom.random()
        ctx.differ(x, y, "an unseeded call leaves the stream where it was going")


@harness("C26", quick=[dict(n=4), dict(n=6), dict(n=8)], thorough=[dict(n=15)], paths=60, t=60,
         bound="up to 8 (15) nodes, the first graph drawn is accepted; every seed, every outcome of the draws",
         assumes="the drawn graph enters the result as itself (its edges are not enumerated)")
def planar_graph_draw(ctx, n):
    """the graph returned is the same function of the seed alone"""
    ctx.graph_opaque()
    s = ctx.int("seed", 0, 2 ** 31)
    f = ctx.ff.generate_random_planar_graph
    a = f(n, seed=s)
    ctx.pyrandom.random()
    ctx.np.random.rand(2)
    ctx.same_draw(a, f(n, seed=s), "same seed, same draw")
    ctx.pyrandom.seed(5)
    ctx.same_draw(a, f(n, seed=s), "same seed, same draw after another seeding")
    ctx.pyrandom.seed(s)
    a = f(n)
    b = f(n)
    ctx.pyrandom.seed(s)
    ctx.same_draw(a, f(n), "unseeded: a function of the global stream")
    ctx.same_draw(b, f(n), "unseeded: the stream goes on")


# ---------------------------------------------------------------- C27

CHECKED = ["random_qubit_state", "random_qubit_pure_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_FF_pure_state_W0",
           "random_FF_pure_state_WN", "random_FF_pure_state_CN"]


def untouched(ctx, call, exc, name):
    """raises, and the next draws of the global stream are the ones due anyway"""
    ctx.np.random.seed(11)
    want = [ctx.np.random.rand(), ctx.np.random.rand()]
    ctx.np.random.seed(11)
    got = [ctx.np.random.rand()]
    ctx.raises(call, exc, name)
    got.append(ctx.np.random.rand())
    ctx.eq(ctx.np.array(got), ctx.np.array(want), name + ": no randomness consumed, nothing reseeded")


@harness("C27", quick=[dict(gen=g) for g in CHECKED], bound="all integers in [-8, 0], with a symbolic seed or none")
def non_positive(ctx, gen):
    f = getattr(ctx.ff.ff_random_states, gen)
    n = ctx.int("n", -8, 0)
    s = ctx.int("seed", 0, 1000)
    untouched(ctx, lambda: f(n), ValueError, "non-positive size refused")
    untouched(ctx, lambda: f(n, seed=s), ValueError, "non-positive size refused, seeded")


@harness("C27", quick=[dict(gen=g) for g in CHECKED], bound="sizes of other types: symbolic reals, strings, None, lists, arrays", paths=40)
def wrong_type(ctx, gen):
    f = getattr(ctx.ff.ff_random_states, gen)
    x = ctx.real("x", -5, 5)
    s = ctx.int("seed", 0, 1000)
    for bad, what in ((x, "real"), (2.0, "2.0"), (-1.0, "-1.0"), ("2", "string"), (None, "None"), ([2], "list"), ((2,), "tuple"), (2 + 0j, "complex"),
                      (np.array([2]), "array")):
        untouched(ctx, lambda: f(bad), TypeError, "size of type %s refused" % what)
        untouched(ctx, lambda: f(bad, seed=s), TypeError, "size of type %s refused, seeded" % what)


@harness("C27", bound="all integers in [-8, 0]; sizes of other types")
def stabilizer_size(ctx):
    f = ctx.ff.ff_random_states.random_CHP_state
    ctx.stim_vector(ctx.sphere("v", 1, "c"))
    n = ctx.int("n", -8, 0)
    ctx.raises(lambda: f(n), ValueError, "non-positive size refused")
    for bad in (ctx.real("x", -5, 5), 2.0, "2", None, [2], (2,), 2 + 0j, np.array([2])):
        ctx.raises(lambda: f(bad), TypeError, "size of another type refused")


@harness("C27", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=6)], bound="n<=3 (6): every particle number in [-6,-1] and [n+1,n+6]")
def particle_number(ctx, n):
    f = ctx.ff.random_FF_pure_state_WN
    lo = ctx.int("lo", -6, -1)
    hi = ctx.int("hi", n + 1, n + 6)
    s = ctx.int("seed", 0, 1000)
    for N, what in ((lo, "negative"), (hi, "too large"), (0.5, "fractional"), (1.0, "floating-point"), (0.0, "floating-point"), ("1", "string")):
        untouched(ctx, lambda: f(n, N), ValueError, "%s particle number refused" % what)
        untouched(ctx, lambda: f(n, N, seed=s), ValueError, "%s particle number refused, seeded" % what)


@harness("C27", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)], bound="n<=2 (4): every particle number in [0, n]", assumes="draws stay 1e-3 away from the coordinate hyperplanes")
def particle_number_ok(ctx, n):
    ctx.draw_gap(1e-3)
    N = ctx.int("N", 0, n)
    psi = ctx.ff.random_FF_pure_state_WN(n, N)
    ctx.same(tuple(psi.shape), (2 ** n, 1), "accepted")
    P = parity_op(n)
    sg = 1
    for k in range(n):
        sg = -sg if bool(N > k) else sg
    ctx.eq(P @ psi, sg * psi, "parity of the requested particle number")
