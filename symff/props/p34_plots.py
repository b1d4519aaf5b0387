"""what the plotting helpers hand to the drawing libraries (which are replaced by recorders)"""
import numpy as np
import networkx as nx

from ..registry import harness
from .p28_graphs import build


def red(calls):
    """the edges drawn highlighted"""
    out = []
    for name, a, k in calls:
        if name.startswith("nx.draw") and k.get("edge_color") in ("red", "r"):
            es = k["edgelist"] if "edgelist" in k else a[2]
            out += [tuple(e) for e in es]
    return out


def titles(calls):
    return [a[0] for name, a, k in calls if name.endswith("title") and a]


def labels(calls):
    out = {}
    for name, a, k in calls:
        if name == "nx.draw_networkx_edge_labels":
            out.update(k["edge_labels"] if "edge_labels" in k else a[2])
    return out


def weighted(ctx, G, calls, n, want, directed):
    """G is the graph with the weights `want` (a dict over directed or undirected edges)"""
    ctx.same(sorted(G.nodes()), list(range(n)), "one node per row")
    ctx.same(bool(G.is_directed()), directed, "directed exactly when the matrix is not symmetric")
    key = (lambda u, v: (u, v)) if directed else (lambda u, v: (min(u, v), max(u, v)))
    got = {key(u, v): d["weight"] for u, v, d in G.edges(data=True) if directed or u != v}
    ctx.same(sorted(got), sorted(want), "an edge for every non-zero entry")
    lab = {key(*e): x for e, x in labels(calls).items()}
    ctx.same(sorted(e for e in lab if directed or e[0] != e[1]), sorted(want), "every edge is labelled")
    for e in want:
        x = got[e]
        ctx.le(x - want[e], 5.1e-5, "weight rounded to four places")
        ctx.le(want[e] - x, 5.1e-5, "weight rounded to four places")
        ctx.eq(lab[e], x, "labelled with its weight")


def entry(ctx, name):
    """zero, or at least 1e-3 in size"""
    x = ctx.real(name, -50, 50)
    ctx.assume(ctx.or_(x == 0, x >= 1e-3, x <= -1e-3))
    return x


@harness("C34", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], paths=80, t=60,
         bound="n<=3 (4): every real symmetric matrix with zero diagonal (entries zero or at least 1e-3, at most 50 in size)")
def symmetric_matrix(ctx, n):
    A = ctx.np.zeros((n, n))
    want = {}
    for i in range(n):
        for j in range(i + 1, n):
            x = entry(ctx, "a%d%d" % (i, j))
            A[i, j] = x
            A[j, i] = x
            if bool(x != 0):
                want[(i, j)] = x
    B = A.copy()
    calls = ctx.drawing()
    G = ctx.ff.plot_graph_with_edge_weights(A)
    weighted(ctx, G, calls, n, want, False)
    ctx.eq(A, B, "argument unchanged")
    ctx.same(red(calls), [], "nothing highlighted")
    if n > 1:
        calls = ctx.drawing()
        G = ctx.ff.plot_graph_with_edge_weights(A, matching=[(0, n - 1)], title="T")
        ctx.same([tuple(sorted(e)) for e in red(calls)], [(0, n - 1)], "the matching is highlighted")
        ctx.same(titles(calls)[-1:], ["T"], "title")


@harness("C34", quick=[dict(n=2), dict(n=3), dict(n=2, near=1), dict(n=3, near=1)], paths=130, t=60,
         bound="n=2: every real matrix that is not symmetric; n=3: six symbolic entries (entries zero or at least 1e-3 and at most 50 in size, a pair differs by 0.1 or more); near=1: entries up to 1, a pair differs by 1e-4 to 1e-2")
def asymmetric_matrix(ctx, n, near=0):
    where = [(i, j) for i in range(n) for j in range(n)] if n == 2 else [(0, 1), (1, 0), (1, 2), (2, 0), (2, 2), (0, 2)]
    A = ctx.np.zeros((n, n))
    want = {}
    for i, j in where:
        x = entry(ctx, "a%d%d" % (i, j))
        A[i, j] = x
    if near:
        for i, j in where:
            if (i, j) not in ((0, 1), (1, 0)):
                A[i, j] = 0.25 if i != j else 0.0
        A[1, 0] = ctx.real("x", 0.1, 1)
        A[0, 1] = A[1, 0] + ctx.real("d", 1e-4, 1e-2)
        if n == 3:
            A[0, 1], A[1, 0] = -A[1, 0], -A[0, 1]
            A[2, 1] = A[1, 2]
    else:
        ctx.assume(ctx.or_(A[0, 1] - A[1, 0] >= 0.1, A[1, 0] - A[0, 1] >= 0.1))
    where = [(i, j) for i in range(n) for j in range(n)]
    for i, j in where:
        if bool(A[i, j] != 0):
            want[(i, j)] = A[i, j]
    calls = ctx.drawing()
    G = ctx.ff.plot_graph_with_edge_weights(A)
    weighted(ctx, G, calls, n, want, True)


@harness("C34", quick=[dict(n=2, sym=True), dict(n=3, sym=True), dict(n=2, sym=False), dict(n=3, sym=False)], paths=130, t=60,
         bound="n=2, 3: one entry of size 1e-9 to 1e-4, of either sign, the others fixed")
def small_entry(ctx, n, sym):
    """a non-zero entry is an edge, however small"""
    A = ctx.np.ones((n, n)) * 0.5
    for i in range(n):
        A[i, i] = 0
    x = ctx.real("x", -1e-4, 1e-4)
    ctx.assume(ctx.or_(x >= 1e-9, x <= -1e-9))
    A[0, 1] = x
    if sym:
        A[1, 0] = x
    want = {(i, j): A[i, j] for i in range(n) for j in range(n) if (i < j if sym else i != j)}
    calls = ctx.drawing()
    G = ctx.ff.plot_graph_with_edge_weights(A)
    weighted(ctx, G, calls, n, want, not sym)


@harness("C34", quick=[dict(kind="Graph"), dict(kind="DiGraph"), dict(kind="MultiGraph"), dict(kind="MultiDiGraph")], paths=100, t=60,
         bound="graphs on four nodes with four edges, every weight of size 1e-3 to 50")
def graph_input(ctx, kind):
    H = getattr(nx, kind)()
    H.add_nodes_from("abcd")
    want = {}
    for k, (i, j) in enumerate([(0, 1), (1, 2), (0, 3), (2, 3)]):
        x = ctx.real("w%d" % k, 1e-3, 50)
        if k % 2:
            x = -x
        H.add_edge("abcd"[i], "abcd"[j], weight=x)
        want[(i, j)] = x
    if H.is_multigraph():
        x = ctx.real("w4", 1e-3, 50)
        H.add_edge("a", "b", weight=x)
        want[(0, 1)] = want[(0, 1)] + x
    if H.is_directed():
        ctx.assume(want[(0, 1)] >= 0.1)
    calls = ctx.drawing()
    G = ctx.ff.plot_graph_with_edge_weights(H)
    weighted(ctx, G, calls, 4, want, H.is_directed())
    ctx.same(sorted(H.nodes()), list("abcd"), "argument unchanged")


@harness("C34", quick=[dict(name="K4"), dict(name="C4"), dict(name="P4"), dict(name="K4", tag="perm")], paths=130, t=60,
         bound="listed graphs: every sign or absence of the entry for each edge (symbolic reals of size up to 2, zero or at least 1e-6)")
def orientation(ctx, name, tag="id"):
    nodes, edges = {"K4": (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]), "C4": (4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
                    "P4": (4, [(0, 1), (1, 2), (2, 3)])}[name]
    free = edges[:4]
    p = ctx.np.zeros((nodes, nodes))
    want = []
    for i, (u, v) in enumerate(edges):
        if (u, v) in free:
            x = ctx.real("p%d" % i, -2, 2)
            ctx.assume(ctx.or_(x == 0, x >= 1e-6, x <= -1e-6))
        else:
            x = 1.0
        p[u, v] = x
        p[v, u] = -x
        if bool(x < 0):
            want.append((u, v))
        elif bool(x > 0):
            want.append((v, u))
    order = edges if tag == "id" else [(v, u) for u, v in edges[::-1]]
    G = build(range(nodes) if tag == "id" else range(nodes)[::-1], order)
    calls = ctx.drawing()
    ctx.ff.plot_planar_embedding(G, p)
    ctx.same(sorted(red(calls)), sorted(want), "one arrow per oriented edge")
    calls = ctx.drawing()
    ctx.ff.plot_planar_embedding(G, title="T")
    ctx.same(red(calls), [], "no arrows without an orientation")
    ctx.same(titles(calls)[-1:], ["T"], "title")


def curves(ctx, calls):
    out = []
    for name, a, k in calls:
        if name in ("plt.stem", "plt.plot"):
            pos = [x for x in a if not isinstance(x, str)]
            out.append(pos[-1])
    return out


@harness("C34", quick=[dict(kind="matrix", stem=True), dict(kind="spectrum", stem=True), dict(kind="spectrum", stem=False), dict(kind="ket", stem=True), dict(kind="diag", stem=True), dict(kind="order", stem=True), dict(kind="order", stem=False)], thorough=[dict(kind='matrix', stem=False), dict(kind='ket', stem=False), dict(kind='diag', stem=False)], paths=80, t=60,
         bound="one qubit: every pure state and every mixed one (populations of at least 1e-3; eigenvalues of at least 1e-3, apart by 0.002), three levels: every diagonal state with populations of at least 1e-4; nine levels: one order, the k-th smallest population in [0.02 k + 0.001, 0.02 k + 0.02], the largest what remains")
def populations(ctx, kind, stem):
    """the two curves are the populations and the spectrum, largest first"""
    if kind == "matrix":
        a, x, y = ctx.real("a", 1e-3, 0.999), ctx.real("x", -0.5, 0.5), ctx.real("y", -0.5, 0.5)
        ctx.assume(x * x + y * y <= a * (1 - a))
        rho = ctx.np.array([[a, x - 1j * y], [x + 1j * y, 1 - a]])
        ctx.ghost_psd(rho)
        N = 2
        pops = [a, 1 - a]
    elif kind == "spectrum":
        l = ctx.real("l", 0.501, 0.999)
        U = ctx.unitary("u", 2)
        rho = U @ ctx.np.diag(ctx.np.array([1 - l, l])) @ U.conj().T
        ctx.ghost_psd(rho)
        ctx.ghost_eigs(rho, ctx.np.array([1 - l, l]))
        N = 2
        pops = []
    elif kind == "ket":
        v = ctx.sphere("v", 2, "c")
        rho = v
        N = 2
        pops = [abs(v[0]) ** 2, abs(v[1]) ** 2]
    elif kind == "order":
        s = [None] * 9
        for k, i in enumerate((7, 5, 6, 3, 2, 8, 0, 1)):
            s[i] = ctx.real("s%d" % i, 0.02 * k + 0.001, 0.02 * k + 0.02)
        s[4] = 1 - sum(x for x in s if x is not None)
        rho = ctx.np.diag(ctx.np.array(s))
        N = 9
        pops = list(s)
    else:
        s = ctx.simplex("s", 3)
        for x in s:
            ctx.assume(x >= 1e-4)
        rho = ctx.np.diag(s)
        N = 3
        pops = list(s)
    calls = ctx.drawing()
    ctx.ff.ff_utils.analyze_pdf(rho, "x", stem)
    got = curves(ctx, calls)
    ctx.same(len(got), 2, "two curves")
    ctx.same([len(c) for c in got], [N, N], "one point per state")
    for i in range(len(pops)):
        ctx.le(abs(got[0][i] - pops[i]), 2e-6, "populations")
    if kind == "matrix":
        return
    ev = got[1]
    for i in range(N - 1):
        ctx.le(ctx.np.real(ev[i + 1]), ctx.np.real(ev[i]) + 2e-6, "largest eigenvalue first")
    if kind == "ket":
        ctx.le(abs(sum(ev) - 1), 1e-5, "eigenvalues sum to one")
    if kind == "spectrum":
        for d in (ev[0] - l, ev[1] - 1 + l):
            ctx.le(d, 2e-6, "eigenvalues of the state")
            ctx.le(-d, 2e-6, "eigenvalues of the state")
    elif kind == "ket":
        ctx.le(abs(ev[0] - 1), 1e-5, "a pure state has one eigenvalue")
    else:
        w = [s[i] for i in (4, 1, 0, 8, 2, 3, 6, 5, 7)] if kind == "order" else ctx.np.sort(s)[::-1]
        for i in range(N):
            ctx.le(ev[i] - w[i], 2e-6, "eigenvalues of the state")
            ctx.le(w[i] - ev[i], 2e-6, "eigenvalues of the state")


@harness("C34", bound="empty inputs and inputs of other types")
def populations_refused(ctx):
    f = ctx.ff.ff_utils.analyze_pdf
    x = ctx.real("x", 0, 1)
    for bad in (x, 0.5, None, (x, 1 - x), {"a": 1}, 3):
        ctx.raises(lambda: f(bad), TypeError, "refused")
    for bad in ([], np.array([])):
        ctx.raises(lambda: f(bad), ValueError, "refused")
