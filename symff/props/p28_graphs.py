"""perfect matchings, Pfaffian orientations, faces, dual graphs, trees, bit strings"""
import itertools

import networkx as nx
import numpy as np

from ..registry import harness


# ---------------------------------------------------------------- graphs


def build(nodes, edges, weights=None):
    G = nx.Graph()
    G.add_nodes_from(nodes)
    for i, (u, v) in enumerate(edges):
        if weights is None:
            G.add_edge(u, v)
        else:
            G.add_edge(u, v, weight=weights[i])
    return G


def host(name):
    """(number of nodes, edges)"""
    c = lambda n: [(i, (i + 1) % n) for i in range(n)]
    d = {
        "edge": (2, [(0, 1)]),
        "path4": (4, [(0, 1), (1, 2), (2, 3)]),
        "star4": (4, [(0, 1), (0, 2), (0, 3)]),
        "C4": (4, c(4)),
        "K4-e": (4, c(4) + [(0, 2)]),
        "K4": (4, list(itertools.combinations(range(4), 2))),
        "C5": (5, c(5)),
        "C6": (6, c(6)),
        "ladder3": (6, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]),
        "bowtie": (6, [(0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (4, 5), (3, 5)]),
        "paw6": (6, [(0, 1), (1, 2), (2, 3), (3, 0), (3, 4), (4, 5)]),
        "fan6": (6, [(0, i) for i in range(1, 6)] + [(i, i + 1) for i in range(1, 5)]),
        "wheel6": (6, [(0, i) for i in range(1, 6)] + [(i, i % 5 + 1) for i in range(1, 6)]),
        "prism": (6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
        "octahedron": (6, [e for e in itertools.combinations(range(6), 2) if sum(e) != 5]),
        "ladder4": (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)]),
        "cube": (8, [(a, b) for a in range(8) for b in range(a) if bin(a ^ b).count("1") == 1]),
        "tree8": (8, [(0, 1), (1, 2), (1, 3), (3, 4), (0, 5), (5, 6), (3, 7)]),
        "2K2": (4, [(0, 1), (2, 3)]),
        "C4+K2": (6, c(4) + [(4, 5)]),
        "K4+C4": (8, list(itertools.combinations(range(4), 2)) + [(4, 5), (5, 6), (6, 7), (7, 4)]),
        "2C3": (6, [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)]),
        "K33": (6, [(i, j) for i in range(3) for j in range(3, 6)]),
        "K33+e": (6, [(i, j) for i in range(3) for j in range(3, 6)] + [(0, 1)]),
        "C8": (8, c(8)),
        "C10": (10, c(10)),
        "C12": (12, c(12)),
        "C13": (13, c(13)),
        "C14": (14, c(14)),
        "path14": (14, c(14)[:-1]),
        "ladder5": (10, c(5)[:-1] + [(u + 5, v + 5) for u, v in c(5)[:-1]] + [(i, i + 5) for i in range(5)]),
        "grid33": (9, [(3 * i + j, 3 * i + j + 1) for i in range(3) for j in range(2)] + [(3 * i + j, 3 * i + j + 3) for i in range(2) for j in range(3)]),
        "grid34": (12, [(4 * i + j, 4 * i + j + 1) for i in range(3) for j in range(3)] + [(4 * i + j, 4 * i + j + 4) for i in range(2) for j in range(4)]),
        "theta8": (8, c(8) + [(0, 4)]),
        "flower": (9, c(3) + [(0, 3), (3, 4), (4, 0), (0, 5), (5, 6), (6, 7), (7, 8), (8, 0)]),
        "lollipop": (9, c(5) + [(4, 5), (5, 6), (6, 7), (6, 8)]),
        "K5": (5, list(itertools.combinations(range(5), 2))),
        "K8": (8, list(itertools.combinations(range(8), 2))),
        "K10": (10, list(itertools.combinations(range(10), 2))),
        "K6": (6, list(itertools.combinations(range(6), 2))),
        "K5+K3": (8, list(itertools.combinations(range(5), 2)) + [(4, 5), (5, 6), (6, 7), (5, 7)]),
    }
    return d[name]


def relabel(n, edges, how):
    """same graph under other node labels and insertion orders"""
    if how == "id":
        return list(range(n)), edges
    if how == "rev":
        m = [n - 1 - i for i in range(n)]
    elif how == "shift":
        m = [(3 * i + 1) % n if n % 3 else (5 * i + 1) % n for i in range(n)]
        if len(set(m)) < n:
            m = [(i + n // 2) % n for i in range(n)]
        # nodes first mentioned by edges, in shuffled order
        e = [(m[u], m[v]) for u, v in edges]
        e = e[1::2] + e[::2]
        return sorted(range(n), key=lambda i: (i * 7 + 3) % (n + 1)), e
    elif how == "str":
        m = ["v%s" % "badcfehgjilknmpo"[i] for i in range(n)]
    elif how == "gap":
        m = [10 * i + 5 for i in range(n)][::-1]
    elif how == "neg":
        m = [-1 - i for i in range(n)]
    elif how == "tup":
        m = [(i // 3, -i) for i in range(n)]
    elif how == "flip":
        return list(range(n)), [(v, u) for u, v in edges][::-1]
    nodes = [m[i] for i in range(n)]
    return nodes, [(m[u], m[v]) for u, v in edges]


def matchings(nodes, edges):
    """reference: perfect matchings as lists of edge indices"""
    nodes = list(nodes)
    if not nodes:
        return [[]]
    if len(nodes) % 2:
        return []
    a = nodes[0]
    r = []
    for i, (u, v) in enumerate(edges):
        if a in (u, v) and u != v:
            b = v if u == a else u
            if b in nodes:
                r += [[i] + m for m in matchings([x for x in nodes if x not in (a, b)], edges)]
    return r


def weight_sum(ms, w):
    t = 0
    for m in ms:
        p = 1
        for i in m:
            p = p * w[i]
        t = t + p
    return t


def pick(ctx, edges, free):
    """the edges whose presence bit is set; edges from index `free` on are always there"""
    bits = [ctx.bool("e%d" % i) for i in range(min(free, len(edges)))]
    return [e for i, e in enumerate(edges) if i >= len(bits) or ctx.tree(bits[i])]


def canon(ms):
    return sorted(sorted(tuple(sorted(e, key=str)) for e in m) for m in ms)


# ---------------------------------------------------------------- C28


@harness("C28", quick=[dict(n=n, labels=l) for n in (1, 2, 3, 4) for l in ("id", "str")] +
         [dict(n=4, labels=l) for l in ("shift", "neg", "tup")], paths=80, t=60, bound="every graph on n<=4 nodes (edge presence symbolic)")
def all_graphs(ctx, n, labels):
    nodes, edges = relabel(n, list(itertools.combinations(range(n), 2)), labels)
    edges = pick(ctx, edges, len(edges))
    G = build(nodes, edges)
    got = ctx.ff.find_perfect_matchings_brute(G)
    want = matchings(nodes, edges)
    ctx.same(canon(got), canon([[edges[i] for i in m] for m in want]), "each perfect matching exactly once")


@harness("C28", quick=[dict(g="K33", free=6), dict(g="prism", free=6), dict(g="C5", free=5), dict(g="octahedron", free=6),
                       dict(g="K6", free=5), dict(g="K8", free=2), dict(g="K10", free=0), dict(g="cube", free=5), dict(g="tree8", free=6), dict(g="2C3", free=6)],
         thorough=[dict(g="K33", free=9), dict(g="prism", free=9), dict(g="wheel6", free=10), dict(g="cube", free=8), dict(g="K10", free=2)],
         paths=1100, t=80, bound="every subgraph of the listed hosts that drops any of the first `free` edges (n<=10)")
def subgraphs(ctx, g, free):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, "gap")
    edges = pick(ctx, edges, free)
    G = build(nodes, edges)
    got = ctx.ff.find_perfect_matchings_brute(G)
    ctx.same(canon(got), canon([[edges[i] for i in m] for m in matchings(nodes, edges)]), "each perfect matching exactly once")


@harness("C28", quick=[dict(g="C8", free=3), dict(g="C10", free=3), dict(g="C12", free=2), dict(g="C14", free=2), dict(g="path14", free=2), dict(g="C13", free=1)],
         thorough=[dict(g='ladder5', free=3), dict(g='C14', free=4), dict(g="C14", free=7), dict(g="ladder5", free=6)], paths=1100, t=80,
         bound="cycles and paths up to 14 nodes, the first `free` edges present or not")
def long_cycles(ctx, g, free):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, "rev")
    edges = pick(ctx, edges, free)
    got = ctx.ff.find_perfect_matchings_brute(build(nodes, edges))
    ctx.same(canon(got), canon([[edges[i] for i in m] for m in matchings(nodes, edges)]), "each perfect matching exactly once")


@harness("C28", quick=[dict(n=2), dict(n=4)], thorough=[dict(n=6), dict(n=3)], paths=300, t=60, bound="n<=4 (6) nodes with self loops: every presence of the loops and of two edges")
def self_loops(ctx, n):
    edges = [(i, i) for i in range(n)] + list(itertools.combinations(range(n), 2))
    edges = pick(ctx, edges, n + 2)
    G = build(range(n), edges)
    got = ctx.ff.find_perfect_matchings_brute(G)
    ctx.same(canon(got), canon([[edges[i] for i in m] for m in matchings(range(n), edges)]), "loops match nothing")


@harness("C28", quick=[dict(g="K4"), dict(g="C6"), dict(g="edge"), dict(g="2K2")], thorough=[dict(g="K33"), dict(g="prism")], paths=300, t=60,
         bound="weighted graphs: the first three weights anywhere in [-1, 1], zero included, the others zero")
def weights_ignored(ctx, g):
    n, edges = host(g)
    w = [ctx.real("w%d" % i, -1, 1) if i < 3 else 0 for i in range(len(edges))]
    got = ctx.ff.find_perfect_matchings_brute(build(range(n), edges, w))
    ctx.same(canon(got), canon([[edges[i] for i in m] for m in matchings(range(n), edges)]), "weights do not decide what an edge is")


# ---------------------------------------------------------------- C29

PLANAR = ["edge", "path4", "star4", "C4", "K4-e", "K4", "C6", "ladder3", "bowtie", "paw6", "fan6", "2K2", "C4+K2", "2C3", "C5", "tree8"]
LABELS = ["id", "rev", "shift", "str", "gap", "flip", "neg", "tup"]


def weighted_graph(ctx, g, labels, sym=99, hi=2):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, labels)
    w = [ctx.real("w%d" % i, 0.5, hi) if i < sym else 1 + (7 * i % 16) / 16 for i in range(len(edges))]
    G = build(nodes, edges, w)
    return G, nodes, edges, w


def check_planar(ctx, G, nodes, edges, w, pfo=True):
    want = weight_sum(matchings(nodes, edges), w)
    for c in nx.connected_components(G):
        if len(c) % 2 == 0:
            ix = [i for i, (u, v) in enumerate(edges) if u in c]
            part = weight_sum(matchings([x for x in nodes if x in c], [edges[i] for i in ix]), [w[i] for i in ix])
            ctx.sqrt_hint(part)
    got = ctx.ff.count_perfect_matchings_planar(G)
    ctx.eq(got, want, "weighted number of perfect matchings")


@harness("C29", quick=[dict(g=g, labels=l) for i, g in enumerate(PLANAR) for l in (LABELS if g in ("C4", "K4-e", "ladder3") else
                                                                                  (LABELS[i % 8], LABELS[(i + 3) % 8]))],
         thorough=[dict(g=g, labels=l) for g in PLANAR for l in LABELS] + [dict(g=g, labels="shift", sym=3) for g in ("wheel6", "prism", "octahedron", "ladder4", "cube")],
         paths=200, t=100, bound="listed planar graphs up to 8 nodes: every positive weight in [1/2, 2], every maximum spanning tree")
def planar_weighted(ctx, g, labels, sym=99):
    G, nodes, edges, w = weighted_graph(ctx, g, labels, sym)
    check_planar(ctx, G, nodes, edges, w)


@harness("C29", quick=[dict(g=g, labels=l, sym=2) for g, l in (("wheel6", "id"), ("prism", "rev"), ("octahedron", "shift"), ("ladder4", "str"), ("cube", "gap"), ("K4+C4", "shift"))],
         paths=200, t=100, bound="larger planar graphs (6-8 nodes, up to 12 edges): two symbolic weights, the others fixed and distinct")
def planar_large(ctx, g, labels, sym):
    G, nodes, edges, w = weighted_graph(ctx, g, labels, sym)
    check_planar(ctx, G, nodes, edges, w)


@harness("C29", quick=[dict(g="edge", labels="str"), dict(g="path4", labels="gap"), dict(g="C4", labels="shift")],
         paths=200, t=100, bound="graphs of 2 to 4 nodes: every positive weight in [1/2, 3000]")
def planar_heavy(ctx, g, labels):
    G, nodes, edges, w = weighted_graph(ctx, g, labels, hi=3000)
    check_planar(ctx, G, nodes, edges, w)


@harness("C29", quick=[dict(g="K4", labels="id"), dict(g="K4", labels="shift"), dict(g="ladder3", labels="rev"), dict(g="C4+K2", labels="str")],
         paths=600, t=80, bound="every subgraph of the listed hosts (edge presence symbolic), common symbolic weight")
def planar_subgraphs(ctx, g, labels):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, labels)
    edges = pick(ctx, edges, len(edges))
    x = ctx.real("x", 0.5, 2)
    w = [x] * len(edges)
    G = build(nodes, edges, w)
    check_planar(ctx, G, nodes, edges, w)


@harness("C29", quick=[dict(g=g, labels=LABELS[i % 8]) for i, g in enumerate(p for p in PLANAR if p not in ("2K2", "C4+K2", "2C3"))] +
         [dict(g=g, labels=l, sym=1) for g, l in (("wheel6", "shift"), ("prism", "id"), ("octahedron", "rev"), ("cube", "id"))] +
         [dict(g=g, labels=l, sym=2, verbose=True) for g, l in (("C4", "str"), ("K4", "id"), ("paw6", "gap"), ("fan6", "rev"), ("ladder3", "flip"), ("prism", "id"))],
         paths=200, t=100, bound="listed connected planar graphs: every maximum spanning tree")
def orientation(ctx, g, labels, sym=99, verbose=False):
    G, nodes, edges, w = weighted_graph(ctx, g, labels, sym)
    if verbose:
        ctx.drawing()
        P = ctx.ff.pfo_algorithm(G, verbose=True)
    else:
        P = ctx.ff.pfo_algorithm(G)
    n = len(nodes)
    ctx.same(tuple(P.shape), (n, n), "one row per node")
    ctx.eq(P, -P.T, "every edge is oriented one way")
    order = list(G)
    E = {frozenset((order.index(u), order.index(v))) for u, v in edges}
    for i in range(n):
        for j in range(i):
            ctx.eq(P[i, j] * P[i, j], 1 if frozenset((i, j)) in E else 0, "exactly the edges are oriented")
    A = ctx.np.zeros((n, n), dtype=float)
    for (u, v), x in zip(edges, w):
        i, j = order.index(u), order.index(v)
        A[i, j] = A[j, i] = x
    if n <= 6:
        pf = ctx.ff.pf(ctx.np.multiply(P, A)) if n % 2 == 0 else 0
        want = weight_sum(matchings(nodes, edges), w)
        ctx.eq(pf * pf, want * want, "Pfaffian counts the matchings up to sign")


@harness("C29", quick=[dict(g=g, labels=l) for g, l in (("K33", "id"), ("K33", "shift"), ("K33+e", "str"), ("K5", "id"), ("K6", "gap"), ("K4", "rev"), ("C4", "str"),
                                                        ("ladder3", "flip"), ("K5+K3", "id"))],
         paths=100, t=80, bound="listed planar and non-planar graphs: every positive weight (planar ones: two symbolic)")
def general(ctx, g, labels):
    n, edges = host(g)
    G, nodes, edges, w = weighted_graph(ctx, g, labels, 99 if not nx.is_planar(nx.Graph(edges)) else 2)
    want = weight_sum(matchings(nodes, edges), w)
    ctx.sqrt_hint(want)
    ctx.eq(ctx.ff.count_perfect_matchings(G), want, "weighted number of perfect matchings")
    U = build(nodes, edges)
    ctx.eq(ctx.ff.count_perfect_matchings(U), len(ctx.ff.find_perfect_matchings_brute(U)), "agrees with the enumeration")


@harness("C29", quick=[dict(g="C4", zero=[0]), dict(g="C4", zero=[1, 3]), dict(g="K4", zero=[0, 5]), dict(g="K4", zero=[1]), dict(g="K4-e", zero=[2]), dict(g="path4", zero=[1]),
                       dict(g="path4", zero=[0]), dict(g="ladder3", zero=[3]), dict(g="2K2", zero=[0]), dict(g="C4", free=2), dict(g="K4", free=1), dict(g="path4", free=3)],
         paths=320, t=100, bound="graphs of up to 6 nodes: listed edges of weight zero, or the first `free` weights anywhere in [0, 2]")
def planar_zero(ctx, g, zero=(), free=0):
    n, edges = host(g)
    w = [0.0 if i in zero else ctx.real("w%d" % i, 0 if i < free else 0.5, 2) for i in range(len(edges))]
    G = build(range(n), edges, w)
    want = weight_sum(matchings(range(n), edges), w)
    for c in nx.connected_components(G):
        ctx.sqrt_hint(weight_sum(matchings(sorted(c), [e for e in edges if e[0] in c]), [x for x, e in zip(w, edges) if e[0] in c]))
    ctx.eq(ctx.ff.count_perfect_matchings_planar(G), want, "weighted number of perfect matchings")
    ctx.eq(ctx.ff.count_perfect_matchings(G), want, "weighted number of perfect matchings")


@harness("C29", quick=[dict(g="edge"), dict(g="path4"), dict(g="C4")], thorough=[dict(g="K4-e"), dict(g="2K2")], paths=200, t=100, bound="graphs of up to 4 nodes: weights of modulus 1/2 to 2 and either sign")
def planar_signed(ctx, g):
    n, edges = host(g)
    w = [ctx.real("w%d" % i, -2, 2) for i in range(len(edges))]
    for x in w:
        ctx.assume(x * x > 0.25)
    want = weight_sum(matchings(range(n), edges), w)
    ctx.assume(want * want > 1e-3)
    neg = ctx.tree(want < 0)
    ctx.sqrt_hint(-want if neg else want)
    got = ctx.ff.count_perfect_matchings_planar(build(range(n), edges, w))
    if neg:
        ctx.eq(got * got, want * want, "magnitude of a negative count")
        ctx.eq(got, want, "negative weighted count")
    else:
        ctx.eq(got, want, "weighted number of perfect matchings")


@harness("C29", quick=[dict(g="K33"), dict(g="K33", zero=[0]), dict(g="K33", zero=[0, 4, 8]), dict(g="K33+e", zero=[2]), dict(g="K6", zero=[0, 7]), dict(g="K5"), dict(g="K5+K3", zero=[1])],
         paths=100, t=80, bound="listed non-planar graphs: weights of either sign, listed edges of weight zero")
def general_signed(ctx, g, zero=()):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, "gap")
    w = [0.0 if i in zero else ctx.real("w%d" % i, -2, 2) for i in range(len(edges))]
    got = ctx.ff.count_perfect_matchings(build(nodes, edges, w))
    ctx.eq(got, weight_sum(matchings(nodes, edges), w), "weighted number of perfect matchings")


@harness("C29", quick=[dict(g=g, labels=l) for g, l in (("edge", "id"), ("C4", "id"), ("C4", "str"), ("K4-e", "shift"), ("2K2", "gap"), ("K33", "id"), ("path4", "rev"))],
         paths=80, t=60, bound="listed graphs with a loop at any of the first four nodes (presence symbolic), the first one of any weight in [-3, 3]; one further symbolic weight")
def loops(ctx, g, labels):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, labels)
    x = ctx.real("x", 3, 4)
    own = pick(ctx, [(u, u) for u in nodes[:4]], 4)
    ws = [x] + [0.5 + i / 8 for i in range(len(edges) - 1)]
    w = ws + [ctx.real("l", -3, 3)] * bool(own) + [0.75] * (len(own) - 1)
    G = build(nodes, list(edges) + own, w)
    want = weight_sum(matchings(nodes, edges), ws)
    for c in nx.connected_components(G):
        ctx.sqrt_hint(weight_sum(matchings(sorted(c, key=str), [e for e in edges if e[0] in c]), [x] * len(edges)))
    ctx.eq(ctx.ff.count_perfect_matchings(G), want, "a loop is in no matching")
    if g != "K33":
        ctx.eq(ctx.ff.count_perfect_matchings_planar(G), want, "a loop is in no matching")
    ctx.same(len(ctx.ff.find_perfect_matchings_brute(G)), len(matchings(nodes, edges)), "a loop is in no matching (enumeration)")
    ctx.same(sorted(G.edges, key=str), sorted(build(nodes, list(edges) + own).edges, key=str), "the graph keeps its loops")


# ---------------------------------------------------------------- C30

CONNECTED = ["edge", "path4", "star4", "C4", "K4-e", "K4", "C5", "C6", "ladder3", "bowtie", "paw6", "fan6", "wheel6", "prism", "octahedron", "ladder4", "cube", "tree8", "C8", "C13", "path14", "ladder5", "grid33", "grid34", "theta8", "flower", "lollipop"]


def check_faces(ctx, G, F, name="faces"):
    darts = [e for f in F for e in f]
    ctx.same(sorted(darts), sorted([(u, v) for u, v in G.edges] + [(v, u) for u, v in G.edges]), name + ": every directed edge exactly once")
    ctx.same(len(F), G.number_of_edges() - G.number_of_nodes() + 2, name + ": Euler's formula")
    ctx.check(all(f[i][1] == f[(i + 1) % len(f)][0] for f in F for i in range(len(f))), name + ": each face is a closed walk")


@harness("C30", quick=[dict(g=g, labels=l) for i, g in enumerate(CONNECTED) for l in ("id", LABELS[1 + i % 7])],
         bound="listed connected planar graphs up to 14 nodes")
def face_tracing(ctx, g, labels):
    n, edges = host(g)
    nodes, edges = relabel(n, edges, labels)
    G = build(nodes, edges)
    check_faces(ctx, G, ctx.ff.ff_graph_theory.faces(G))
    _, emb = nx.check_planarity(G)
    check_faces(ctx, G, ctx.ff.ff_graph_theory.faces(G, emb), "faces of a given embedding")


@harness("C30", quick=[dict(g="K4"), dict(g="ladder3")], thorough=[dict(g='bowtie'), dict(g='fan6'), dict(g='ladder4'), dict(g="wheel6"), dict(g="prism")], paths=1100, t=80,
         bound="every connected spanning subgraph of the listed hosts (edge presence symbolic)")
def face_tracing_subgraphs(ctx, g):
    n, edges = host(g)
    edges = pick(ctx, edges, len(edges))
    G = build(range(n), edges)
    ctx.assume(nx.is_connected(G))
    check_faces(ctx, G, ctx.ff.ff_graph_theory.faces(G))


@harness("C30", quick=[dict(g="C4"), dict(g="K4-e"), dict(g="K4"), dict(g="ladder3"), dict(g="bowtie"), dict(g="paw6")], thorough=[dict(g="fan6"), dict(g="prism"), dict(g="wheel6")],
         paths=1200, t=80, bound="listed planar graphs with every spanning tree (edge membership symbolic)")
def dual(ctx, g):
    n, edges = host(g)
    G = build(range(n), edges)
    bits = [ctx.bool("t%d" % i) for i in range(len(edges))]
    T = build(range(n), [])
    for e, b in zip(edges, bits):
        if ctx.tree(b):
            ctx.assume(not nx.has_path(T, *e))
            T.add_edge(*e)
    ctx.assume(nx.is_connected(T))
    F = ctx.ff.ff_graph_theory.faces(G)
    H = ctx.ff.ff_graph_theory.dual_graph_H(G, F, T)
    ctx.same(sorted(H.nodes()), list(range(len(F))), "one vertex per face")
    want = set()
    for u, v in edges:
        if not T.has_edge(u, v):
            want.add(frozenset(i for i, f in enumerate(F) for e in f if set(e) == {u, v}))
    ctx.same(sorted(sorted(e) for e in H.edges()), sorted(sorted(e) for e in want), "faces joined iff they share a non-tree edge")
    ctx.check(nx.is_tree(H), "the dual of a spanning tree's complement is a tree")


@harness("C30", quick=[dict(k=k, pos=p, rev=r) for k, p, r in ((3, 0, 0), (3, 2, 1), (4, 1, 0), (4, 3, 1), (5, 2, 0), (6, 5, 1), (7, 0, 0), (7, 3, 1), (8, 4, 0), (8, 7, 1))], thorough=[dict(k=k, pos=p, rev=r) for k, p, r in ((9, 4, 0), (10, 1, 1), (11, 10, 0))], paths=2100,
         bound="faces of up to 8 (11) edges, every orientation of the other edges (symbolic signs)")
def completion(ctx, k, pos, rev):
    order = [(2 * i + 1) % (k + 1) if k % 2 == 0 else i for i in range(k)]
    order = [x for i, x in enumerate(order) if x not in order[:i]] + [x for x in range(k + 1) if x not in order]
    order = order[:k]
    if rev:
        order = order[::-1]
    n = max(order) + 1
    face = [(order[i], order[(i + 1) % k]) for i in range(k)]
    P = ctx.np.zeros((n, n), dtype=complex)
    for i, (u, v) in enumerate(face):
        if i == pos:
            P[u, v] = P[v, u] = 99j
        else:
            s = ctx.int("s%d" % i, -1, 1)
            ctx.assume(ctx.not_(s == 0))
            P[u, v] = s
            P[v, u] = -s
    before = P.copy()
    R = ctx.ff.ff_graph_theory.complete_face(P, face)
    prod = 1
    for u, v in face:
        prod = prod * R[u, v]
    ctx.eq(prod, -1, "an odd number of edges runs against the traversal")
    ctx.eq(R, -R.T, "antisymmetric")
    for i in range(n):
        for j in range(n):
            if (i, j) != face[pos] and (j, i) != face[pos]:
                ctx.eq(R[i, j], before[i, j], "only the unassigned edge changes")
    ctx.eq(P, R, "the matrix is updated in place")


@harness("C30", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)], paths=100, t=60, bound="every graph on n<=4 (5) nodes (edge presence symbolic)")
def tree_depth(ctx, n):
    nodes, edges = relabel(n, list(itertools.combinations(range(n), 2)), "gap")
    edges = pick(ctx, edges, len(edges))
    G = build(nodes, edges)
    f = ctx.ff.ff_graph_theory.compute_tree_depth
    if len(edges) != n - 1 or not nx.is_connected(G):
        ctx.raises(lambda: f(G), ValueError, "not a tree")
        return
    d, seen, cur = 0, {nodes[0]}, [nodes[0]]
    while True:
        cur = [b for a in cur for b in G[a] if b not in seen]
        if not cur:
            break
        seen.update(cur)
        d += 1
    ctx.same(f(G), d, "largest distance from the first node")


@harness("C30", quick=[dict(n=5), dict(n=6)], thorough=[dict(n=7)], paths=130, t=60, bound="every rooted increasing tree on n<=6 (7) nodes (parents symbolic)")
def tree_depth_trees(ctx, n):
    par = [0] + [int(ctx.int("p%d" % i, 0, i - 1)) for i in range(1, n)]
    dep = [0] * n
    for i in range(1, n):
        dep[i] = dep[par[i]] + 1
    ctx.same(ctx.ff.ff_graph_theory.compute_tree_depth(build(range(n), [(par[i], i) for i in range(1, n)])), max(dep), "depth")


@harness("C30", quick=[dict(n=12), dict(n=24), dict(n=40)], thorough=[dict(n=100)], paths=130, t=60,
         bound="paths of 12 to 40 (100) nodes, rooted at one end or in the middle, with one more leaf at any (symbolic) node")
def tree_depth_long(ctx, n):
    f = ctx.ff.ff_graph_theory.compute_tree_depth
    at = int(ctx.int("at", 0, n - 2))
    edges = [(i, i + 1) for i in range(n - 2)] + [(at, n - 1)]
    ctx.same(f(build(range(n), edges)), max(n - 2, at + 1), "depth from the end")
    r = (n - 2) // 2
    ctx.same(f(build([r] + [i for i in range(n) if i != r], edges)), max(r, n - 2 - r, abs(at - r) + 1), "depth from the middle")
