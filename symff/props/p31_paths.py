"""paths between states, orthogonal completion, bit strings, planar graph generator"""
import numpy as np

from ..registry import harness


def dag(x):
    return x.conj().T


def nonzero(ctx, name, n, kind, gap=1e-2):
    """any vector of norm 1 (a point of the sphere) times any scale in [1/100, 100]"""
    if kind == "c":
        x = ctx.sphere(name, n, "c")
    else:
        x = ctx.sphere(name, n)
    r = ctx.real(name + "_r", 0.01, 100)
    return x, x * r


# ---------------------------------------------------------------- C31


@harness("C31", quick=[dict(n=2, kind="f"), dict(n=2, kind="c"), dict(n=3, kind="f")], thorough=[dict(n=3, kind="c"), dict(n=4, kind="f")], paths=100, t=60,
         bound="every vector of dimension 2 and 3 (thorough: 4) with norm in [1/100, 100], flat or column")
def completion(ctx, n, kind):
    x, v = nonzero(ctx, "v", n, kind)
    Q = ctx.ff.ff_random_states.get_orthogonal_vectors(v)
    ctx.same(tuple(Q.shape), (n, n), "a full basis")
    ctx.eq(Q[:, 0], x, "first column is the vector normalised")
    ctx.eq(dag(Q) @ Q, np.eye(n), "orthonormal")
    ctx.eq(ctx.ff.ff_random_states.get_orthogonal_vectors(ctx.np.reshape(v, (n, 1))), Q, "column and flat vectors agree")


@harness("C31", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6), dict(n=8)], bound="zero vector and unit vectors of dimension <=4 (8); dimension one")
def completion_special(ctx, n):
    f = ctx.ff.ff_random_states.get_orthogonal_vectors
    Q = f(np.zeros(n))
    ctx.eq(dag(Q) @ Q, np.eye(n), "zero vector: an orthonormal basis")
    s = ctx.real("s", 0.1, 10)
    for k in range(n):
        for sg in (1, -1):
            v = ctx.np.zeros(n)
            v[k] = s * sg
            Q = f(v)
            ctx.eq(Q[:, 0], np.eye(n)[k] * sg, "first column")
            ctx.eq(dag(Q) @ Q, np.eye(n), "orthonormal")
    ctx.same(int(ctx.np.asarray(f(np.array([2.0]))).size), 0, "dimension one has no complement")


def check_path(ctx, path, a, b, n, t, name):
    a, b = ctx.np.reshape(a, (n, 1)), ctx.np.reshape(b, (n, 1))
    ctx.eq(path(0), a, name + " starts at the first vector, normalised")
    ctx.eq(path(0.0), a, name + " starts at the first vector (float)")
    ctx.eq(path(1), b, name + " ends at the second vector, normalised")
    m = path(t)
    ctx.same(tuple(m.shape), (n, 1), name + " gives columns")
    ctx.eq((dag(m) @ m)[0, 0], 1, name + " stays normalised")


@harness("C31", quick=[dict(n=2, kind="f"), dict(n=2, kind="c"), dict(n=3, kind="f"), dict(n=3, kind="c"), dict(n=4, kind="c")], thorough=[dict(n=6, kind='f'), dict(n=8, kind='c'), dict(n=16, kind='f')], paths=60, t=60,
         bound="every pair of vectors of dimension <=4 (16), every parameter in [0,1]", assumes="the two vectors are not antiparallel (the line misses the origin)")
def linear(ctx, n, kind):
    a, w = nonzero(ctx, "w", n, kind)
    b, v = nonzero(ctx, "v", n, kind)
    t = ctx.real("t", 0, 1)
    m = t * b + (1 - t) * a
    ctx.assume(sum((x * x.conjugate()).real for x in m) > 1e-4)
    p = ctx.ff.ff_random_states.build_linear_path(w, v)
    check_path(ctx, p, a, b, n, t, "linear path")
    ctx.eq(p(t) * ctx.np.sqrt(sum((x * x.conjugate()).real for x in m)), ctx.np.reshape(m, (n, 1)), "straight line in between")


@harness("C31", quick=[dict(n=2, kind="f"), dict(n=2, kind="c")], thorough=[dict(n=3, kind="f")], paths=100, t=80,
         bound="every pair of vectors of dimension 2 (thorough: 3), every parameter in [0,1]")
def unitary(ctx, n, kind):
    a, w = nonzero(ctx, "w", n, kind)
    b, v = nonzero(ctx, "v", n, kind)
    t = ctx.real("t", 0, 1)
    p = ctx.ff.ff_random_states.build_unitary_path(w, v)
    check_path(ctx, p, a, b, n, t, "unitary path")
    if kind == "c":
        return
    # one Hamiltonian all along: overlaps depend on the elapsed parameter only, before and after the end points too
    for s in (-1, 1, 2):
        ctx.eq((dag(p(s)) @ p(s + 1))[0, 0], (dag(p(0)) @ p(1))[0, 0], "unitary path is a one-parameter evolution")
    u = ctx.real("u", -5, 5)
    m = p(u)
    ctx.eq((dag(m) @ m)[0, 0], 1, "unitary path stays normalised beyond the end points")


# ---------------------------------------------------------------- C32


@harness("C32", quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=6), dict(n=5)], paths=400, t=40, bound="lengths up to 6: every weight in [-3, n+3], every outcome of the choice")
def bitstring(ctx, n):
    k = ctx.int("k", -3, n + 3)
    b = ctx.ff.generate_random_bitstring(n, k)
    if ctx.tree(ctx.or_(k < 0, k > n)):
        ctx.check(b is None, "impossible weight gives none")
        return
    ctx.same(tuple(b.shape), (n,), "requested length")
    ctx.eq(ctx.np.sum(b), k, "requested weight")
    for x in b:
        ctx.eq(x * x, x, "bits")


@harness("C32", quick=[dict(n=10, dense=0), dict(n=12, dense=1), dict(n=40, dense=0)], thorough=[dict(n=200, dense=0)], paths=260, t=60,
         bound="listed lengths up to 40 (200): weights 0, 1 and full; one site chosen first out of all but one")
def long_bitstring(ctx, n, dense):
    if dense:
        k = n - 1
        ctx.fixed_choice(k - 1)
    else:
        k = ctx.int("k", 0, 1)
    b = ctx.ff.generate_random_bitstring(n, int(k))
    ctx.same(tuple(b.shape), (n,), "requested length")
    ctx.eq(ctx.np.sum(b), k, "requested weight")
    for x in b:
        ctx.eq(x * x, x, "bits")


@harness("C32", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)], paths=600, t=80,
         bound="n<=4 (5) nodes, up to two graphs drawn: every outcome of the source, seeded or not")
def planar_graph(ctx, n):
    import networkx as nx
    ctx.graph_draws(2 if n <= 4 else 1)
    s = ctx.int("seed", 0, 1000)
    G = ctx.ff.generate_random_planar_graph(n, seed=s)
    ctx.same(G.number_of_nodes(), n, "requested number of nodes")
    ctx.check(nx.is_connected(G), "connected")
    ctx.check(nx.check_planarity(G)[0], "planar")
    ctx.same(sum(1 for _ in nx.selfloop_edges(G)), 0, "no loops")


@harness("C32", quick=[dict(n=n) for n in (5, 6, 7, 9, 11)] + [dict(n=6, draws=2)], thorough=[dict(n=12), dict(n=16), dict(n=7, draws=2)], paths=1500, t=80,
         bound="5 to 11 (16) nodes: every edge count; the graph drawn is one of up to six representatives (planar or not, connected or not)")
def planar_graph_larger(ctx, n, draws=1):
    import networkx as nx
    ctx.graph_menu()
    ctx.graph_draws(draws)
    s = ctx.int("seed", 0, 1000)
    G = ctx.ff.generate_random_planar_graph(n, seed=s)
    ctx.same(sorted(G.nodes()), list(range(n)), "requested number of nodes")
    ctx.check(nx.is_connected(G), "connected")
    ctx.check(nx.check_planarity(G)[0], "planar")
    ctx.same(sum(1 for _ in nx.selfloop_edges(G)), 0, "no loops")
