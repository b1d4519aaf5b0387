"""calls leave their arguments unchanged and keep no state that the caller can disturb"""
import numpy as np
import networkx as nx

from ..registry import harness
from .. import ref
from .p05_operators import sparse
from .p14_gaussian import canonical
from .p13_diag import spectral, canon
from .p17_states import density
from .p20_distances import dist
from .p28_graphs import build, host, relabel


def dag(x):
    return x.conj().T


def is_array(x):
    return hasattr(x, "shape") and hasattr(x, "copy") and not np.isscalar(x)


def snap(x):
    """an independent copy of a value"""
    if isinstance(x, nx.Graph):
        return x.copy(), list(x.nodes()), [(u, v, dict(d)) for u, v, d in x.edges(data=True)]
    if is_array(x):
        return x.copy()
    if isinstance(x, list):
        return [snap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def agree(ctx, a, b, name):
    """a (a value now) is what b (a snapshot) recorded"""
    if isinstance(a, nx.Graph):
        _, nodes, edges = b
        ctx.same(list(a.nodes()), nodes, name)
        ctx.same([(u, v, sorted(d)) for u, v, d in a.edges(data=True)], [(u, v, sorted(d)) for u, v, d in edges], name)
        for (_, _, d), (_, _, e) in zip(a.edges(data=True), edges):
            for k in d:
                agree(ctx, d[k], e[k], name)
    elif is_array(a):
        ctx.same(tuple(a.shape), tuple(b.shape), name)
        ctx.same(np.dtype(a.dtype).kind, np.dtype(b.dtype).kind, name)
        ctx.eq(a, b, name)
    elif isinstance(a, (list, tuple)):
        ctx.same(len(a), len(b), name)
        for x, y in zip(a, b):
            agree(ctx, x, y, name)
    elif isinstance(a, dict):
        ctx.same(sorted(a), sorted(b), name)
        for k in a:
            agree(ctx, a[k], b[k], name)
    elif isinstance(a, (str, set, bytes)) or a is None:
        ctx.same(a, b, name)
    else:
        ctx.eq(a, b, name)


def scribble(x):
    """what a caller may do with a result"""
    if isinstance(x, nx.Graph):
        x.clear()
    elif is_array(x):
        if getattr(x, "ndim", len(x.shape)) and np.dtype(x.dtype).kind in "ifc" and getattr(getattr(x, "flags", None), "writeable", True):
            x[...] = x * 2 + 1
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.append(x[0] if x else 0)
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y)
        x.clear()


def purity(ctx, f, args, kw=None, again=True, edit=True):
    kw = kw or {}
    before, kb = snap(args), snap(kw)
    r = f(*args, **kw)
    agree(ctx, args, before, "arguments unchanged")
    agree(ctx, kw, kb, "arguments unchanged")
    if not again:
        return
    r1 = snap(r)
    fresh = restore(before)
    fk = restore(kb)
    if edit:
        scribble(r)
    r2 = f(*fresh, **fk)
    agree(ctx, r2, r1, "same answer again")
    agree(ctx, fresh, before, "arguments unchanged by the second call")


def restore(s):
    if isinstance(s, tuple) and len(s) == 3 and isinstance(s[0], nx.Graph):
        return s[0].copy()
    if is_array(s):
        return s.copy()
    if isinstance(s, list):
        return [restore(y) for y in s]
    if isinstance(s, tuple):
        return tuple(restore(y) for y in s)
    if isinstance(s, dict):
        return {k: restore(v) for k, v in s.items()}
    return s


# ---------------------------------------------------------------- C33


@harness("C33", quick=[dict(f=f) for f in ("pf", "hf", "pt", "dt", "sgn", "permutation_to_matrix", "kron_plus", "partial_trace_blockTr", "partial_trace_diagblocksum",
                                           "build_V", "build_H", "is_symp", "check_canonical_form", "clean_array", "clean_list", "formatted_output")],
         bound="matrices up to 4x4 with every content", paths=120)
def matrix_functions(ctx, f):
    ff = ctx.ff
    ut = ff.ff_utils
    if f == "pf":
        purity(ctx, ff.pf, (ctx.antisym("a", 4),))
    elif f == "hf":
        purity(ctx, ff.hf, (ctx.symmetric("a", 4),))
    elif f in ("pt", "dt"):
        purity(ctx, getattr(ff, f), (ctx.matrix("a", 3, 3, "c"),))
    elif f in ("sgn", "permutation_to_matrix"):
        for p in ([2, 0, 1, 3], [0, 1], [3, 2, 1, 0]):
            purity(ctx, getattr(ff, f), (list(p),))
            purity(ctx, getattr(ff, f), (np.array(p),))
    elif f == "kron_plus":
        purity(ctx, ut.kron_plus, (ctx.matrix("a", 2), ctx.matrix("b", 2, 2, "c")))
    elif f.startswith("partial_trace"):
        purity(ctx, getattr(ut, f), (ctx.matrix("a", 4, 4, "c"), 2))
    elif f in ("build_V", "build_H"):
        purity(ctx, getattr(ff, f), (2, ctx.matrix("a", 2, 2, "c"), ctx.matrix("b", 2, 2, "c")))
    elif f == "is_symp":
        purity(ctx, ff.is_symp, (ctx.ff.build_Omega(1) @ np.eye(2),))
        purity(ctx, ff.is_symp, (np.array([[1.0, 2.0], [3.0, 4.0]]),))
    elif f == "check_canonical_form":
        A, B = ctx.hermitian("a", 2), ctx.antisym("b", 2, "c")
        purity(ctx, ff.check_canonical_form, (ctx.np.block([[-A.conj(), B], [-B.conj(), A]]),))
    elif f == "clean_array":
        purity(ctx, ff.clean, (ctx.vector("a", 2),))
        z = ctx.vector("z", 2, "c")
        ctx.assume(z[0].imag > 0.01)
        for th in (3, 1e-3):
            purity(ctx, ff.clean, (z, th))
            purity(ctx, ff.clean, (ctx.vector("a", 2), th))
        purity(ctx, ff.clean, (np.array([[1e-9 + 0.3j, 2.0], [0.5, 1e-8]]),))
        purity(ctx, ff.clean, (ctx.np.matrix(ctx.matrix("m", 1, 2)), 3))
        z = [ctx.cplx("z%d" % i) for i in range(2)]
        ctx.assume(abs(z[0].imag) >= 0.001)
        purity(ctx, ff.clean, (ctx.np.matrix([z]), 3))
    elif f == "clean_list":
        purity(ctx, ff.clean, ([ctx.real("x"), 1e-9, 3],))
    elif f == "formatted_output":
        purity(ctx, ff.formatted_output, (np.array([1.0, 2.0]),))


@harness("C33", quick=[dict(f=f) for f in ("rotate_left", "rotate_right", "build_op", "build_op_direct", "compute_cov_matrix", "correlation_matrix", "compute_2corr_matrix", "compute_2corr_conj",
                                           "compute_algebra_S", "is_matchgate", "generate_gaussian_state")],
         bound="two modes (one for Gaussian states): every content of coefficients and states", t=60)
def operator_functions(ctx, f):
    ff = ctx.ff
    n = 2
    al = ff.jordan_wigner_alphas(n)
    if f in ("rotate_left", "rotate_right"):
        purity(ctx, ff.rotate_operators, (sparse(ctx, "c", 4, (1, 0, 1)), al), dict(Left=f == "rotate_left"))
    elif f.startswith("build_op"):
        purity(ctx, ff.build_op, (n, sparse(ctx, "c", 4, (1, 0, 1)), al), dict(direct=f.endswith("direct")))
    elif f in ("compute_cov_matrix", "correlation_matrix"):
        rho = density(ctx, "r", 4, 1)
        purity(ctx, getattr(ff, f), (rho,))
        if f == "compute_cov_matrix":
            purity(ctx, ff.compute_cov_matrix, (rho,), dict(n_sites=2, alphas=al))
    elif f.startswith("compute_2corr"):
        rho = density(ctx, "r", 4, 1)
        purity(ctx, ff.compute_2corr_matrix, (rho, 2, al), dict(conjugation=True) if f.endswith("conj") else {})
    elif f == "compute_algebra_S":
        purity(ctx, ff.compute_algebra_S, (al,))
    elif f == "is_matchgate":
        th, u = ctx.angle("th")
        M = ctx.np.zeros((4, 4), dtype=complex)
        c, s = ctx.np.cos(th), ctx.np.sin(th)
        M[0, 0] = M[3, 3] = c
        M[0, 3], M[3, 0] = -s, s
        M[1, 1] = M[2, 2] = 1
        purity(ctx, ff.is_matchgate, (M,))
    elif f == "generate_gaussian_state":
        purity(ctx, ff.generate_gaussian_state, (1, canonical(ctx, 1)))
        purity(ctx, ff.generate_gaussian_state, (1, canonical(ctx, 1, tag="2"), ff.jordan_wigner_alphas(1)))


@harness("C33", quick=[dict(n=n, how=h, dt=d, left=l) for n in (1, 2) for h in ("id", "swap", "row", "sym") for d in ("c", "f") for l in (0, 1)],
         bound="one and two modes: coefficients of the identity, a permutation, one zeroed row, and one symbolic entry; real and complex")
def rotated_operators_are_new(ctx, n, how, dt, left):
    """the rotated operators belong to the caller: overwriting them changes neither the operators nor another rotation"""
    al = ctx.ff.jordan_wigner_alphas(n)
    N = 2 * n
    C = np.eye(N, dtype={"c": complex, "f": float}[dt])
    if how == "swap":
        C = C[[1, 0] + list(range(2, N))]
    elif how == "row":
        C[0, 0] = 0
    elif how == "sym":
        D = ctx.np.zeros((N, N), dtype=C.dtype)
        D[...] = C
        D[0, 0] = ctx.real("x")
        C = D
    if al[0].dtype != C.dtype and dt == "f":
        al = [ctx.np.real(a) for a in al]
    keep = snap(list(al))
    got = ctx.ff.rotate_operators(C, al, Left=bool(left))
    want = snap(list(got))
    for g in got:
        g[...] = 7
    agree(ctx, list(al), keep, "operators unchanged")
    again = ctx.ff.rotate_operators(C, al, Left=bool(left))
    agree(ctx, list(again), want, "same answer again")


@harness("C33", quick=[dict(f=f, n=1) for f in ("eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can")] + [dict(f=f, n=2, diag=1) for f in ("eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can")],
         thorough=[dict(f=f, n=2) for f in ("eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can")],
         bound="one mode (thorough: two): every quadratic Hamiltonian; two uncoupled modes", t=100, paths=60)
def eigen_functions(ctx, f, n, diag=0):
    if diag:
        e = ctx.vector("e", n)
        for k in range(n):
            ctx.assume(e[k] > 0.01 + k)
            ctx.assume(e[k] < 0.9 + k)
        M = canon(ctx, e)
    else:
        M, e = spectral(ctx, n)
    Om = ctx.ff.build_Omega(n)
    H = -1j * (dag(Om) @ M @ Om)
    I, Z = np.eye(n), np.zeros((n, n))
    if f == "eigh_sp":
        x = H
    elif f == "eigv_sp":
        x = np.block([[Z, I], [I, Z]]) @ H
    else:
        x = -1j * M
    purity(ctx, getattr(ctx.ff, f), (x,), again=False)


@harness("C33", quick=[dict(f=f) for f in ("stabilizer_distribution", "SRE", "cov_distribution", "FAF", "renyi_entropy", "linear_entropy", "total_variation_distance",
                                           "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence", "trace_distance", "cast_rho", "cast_wave", "cast_pdf", "pdf_rho")],
         bound="one and two qubits / distributions of length 3: every content", t=60)
def measures(ctx, f):
    ff = ctx.ff
    ut = ff.ff_utils
    if f in ("stabilizer_distribution", "SRE"):
        purity(ctx, getattr(ff, f), (ctx.sphere("v", 2, "c" if f != "SRE" else "f"),))
        if f != "SRE":
            purity(ctx, getattr(ff, f), (density(ctx, "r", 2),))
    elif f in ("cov_distribution", "FAF"):
        purity(ctx, getattr(ff, f), (density(ctx, "r", 4, 1),))
    elif f == "trace_distance":
        purity(ctx, ff.trace_distance, (density(ctx, "r", 2), density(ctx, "s", 2)))
    elif f == "renyi_entropy":
        purity(ctx, ff.renyi_entropy, (dist(ctx, "p", 3), 2))
        purity(ctx, ff.renyi_entropy, (dist(ctx, "q", 3, zeros=(1,)), 1))
    elif f == "linear_entropy":
        purity(ctx, ff.linear_entropy, (dist(ctx, "p", 4),))
    elif f.startswith("cast"):
        x = {"cast_rho": lambda: density(ctx, "r", 2), "cast_wave": lambda: ctx.sphere("v", 3, "c"), "cast_pdf": lambda: dist(ctx, "p", 3)}[f]()
        purity(ctx, ut.cast_to_density_matrix, (x,), edit=True)
        if f != "cast_rho":
            purity(ctx, ut.cast_to_pdf, (x,))
        # normalised within tolerance only, and already of the type the function works with
        d = ctx.real("d", -4e-6, 4e-6)
        y = {"cast_rho": lambda: density(ctx, "r2", 2), "cast_wave": lambda: ctx.np.array([0.6, 0, 0.8j]), "cast_pdf": lambda: ctx.np.array([0.3, 0.3, 0.4])}[f]() * (1 + d)
        y = y.astype(complex)
        if f == "cast_rho":
            ctx.ghost_psd(y)
        purity(ctx, ut.cast_to_density_matrix, (y.copy(),), edit=True)
        purity(ctx, ut.cast_to_pdf, (y.copy(),), edit=True)
    elif f == "pdf_rho":
        purity(ctx, ut.cast_to_pdf, (density(ctx, "r", 2),))
    else:
        purity(ctx, getattr(ff, f), (dist(ctx, "p", 3), dist(ctx, "q", 3)))


@harness("C33", quick=[dict(f=f, g=g) for f in ("count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute", "pfo_algorithm", "faces", "compute_tree_depth", "dual_graph_H")
                       for g in ("C4", "ladder3", "K4")] + [dict(f="count_perfect_matchings", g="K33"), dict(f="count_perfect_matchings_planar", g="C4+K2")] +
         [dict(f=f, g=g, weighted=False) for f, g in (("count_perfect_matchings", "C4"), ("count_perfect_matchings_planar", "C4"), ("count_perfect_matchings_planar", "2K2"), ("count_perfect_matchings", "K33"),
                                                      ("pfo_algorithm", "ladder3"), ("find_perfect_matchings_brute", "C4"))] +
         [dict(f=f, g=g, loops=True) for f in ("count_perfect_matchings", "find_perfect_matchings_brute") for g in ("C4", "K33")],
         bound="listed graphs, two with loops added, under a relabelling, two weights symbolic or none given", t=60, paths=40)
def graph_functions(ctx, f, g, weighted=True, loops=False):
    ff = ctx.ff.ff_graph_theory
    n, edges = host(g)
    nodes, edges = relabel(n, edges, "rev")
    w = [1 + i / 8 for i in range(len(edges))]
    w[len(w) // 2] = ctx.real("w", 10, 20)
    w[0] = ctx.real("w0", 30, 40)
    if loops:
        edges = list(edges) + [(nodes[1], nodes[1]), (nodes[-1], nodes[-1])]
        w += [2.5, ctx.real("wl", 1, 2)]
    if f == "compute_tree_depth":
        G = build(nodes, list(nx.bfs_edges(build(nodes, edges), nodes[0])))
        purity(ctx, ff.compute_tree_depth, (G,))
        return
    G = build(nodes, edges, w if weighted and f != "faces" else None)
    if f == "dual_graph_H":
        F = ff.faces(G)
        T = build(nodes, list(nx.bfs_edges(G, nodes[0])))
        purity(ctx, ff.dual_graph_H, (G, F, T))
        return
    purity(ctx, getattr(ff, f), (G,))


@harness("C33", quick=[dict(f=f) for f in ("orthogonal", "linear", "unitary")], bound="dimension 2: every vector; the path evaluated repeatedly", t=60, paths=60)
def path_functions(ctx, f):
    rs = ctx.ff.ff_random_states
    v = ctx.sphere("v", 2) * ctx.real("r", 0.1, 10)
    if f == "orthogonal":
        purity(ctx, rs.get_orthogonal_vectors, (v,))
        purity(ctx, rs.get_orthogonal_vectors, (np.array([[1.0], [2.0], [2.0]]),))
        return
    w = np.array([0.6, 0.8]) if f == "linear" else np.array([1.0, 0.0])
    t = ctx.real("t", 0.01, 0.99)
    if f == "linear":
        ctx.assume((v * (1 - t) + w * t) @ (v * (1 - t) + w * t) > 1e-3)
    b, a = v.copy(), w.copy()
    path = (rs.build_linear_path if f == "linear" else rs.build_unitary_path)(w, v)
    m = path(t)
    s = m.copy()
    scribble(m)
    scribble(path(0))
    scribble(path(1))
    ctx.eq(path(t), s, "a path has no state")
    ctx.eq(v, b, "arguments unchanged")
    ctx.eq(w, a, "arguments unchanged")
    scribble(v)
    ctx.eq(path(t), s, "a path does not follow later edits of its end points")


@harness("C33", quick=[dict(f=f) for f in ("jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas", "pauli_matrices", "generate_pauli_group", "build_Omega", "build_K",
                                           "build_reordering_xx_to_xp", "kitaev_chain")],
         bound="one and two modes, every chain parameter: results edited between calls")
def constructors(ctx, f):
    if f == "pauli_matrices":
        purity(ctx, ctx.ff.ff_lib.pauli_matrices, ())
        return
    fn = getattr(ctx.ff, f)
    for n in (1, 2):
        if f == "kitaev_chain":
            purity(ctx, fn, (n + 1, ctx.real("mu%d" % n), ctx.real("t%d" % n), ctx.real("d%d" % n)))
        else:
            purity(ctx, fn, (n,))
            if f == "jordan_wigner_alphas":
                a = ref.ladder(n)
                for x, y in zip(fn(n), a):
                    ctx.eq(x, y, "still the ladder operators")
