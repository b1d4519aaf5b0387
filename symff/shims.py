"""Stand-ins for the other modules the code under test imports, and the loader
that executes the package's current source against them."""
import builtins as _b
import functools
import importlib
import math as _math
import cmath as _cmath
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, T, ZERO, ONE
from . import sym as S
from .sym import SymNum, SymBool, SymArray, SymUnsupported, NonFinite, asarr, num, H, rel, band
from . import shim_linalg as L
from .shim_np import (NP, IntShim, FloatShim, ComplexShim, BoolShim, sym_isinstance, unshim, has_sym,
                      concrete, scal, MatrixShim)
from .shim_random import GroupShim, PyRandomShim, simplex_atoms

REPO = os.environ.get("FF_SRC", "/repo/src")


class Namespace:
    """attribute bag falling back to a real module for data and classes"""

    def __init__(self, name, real=None, **kw):
        self.__dict__.update(kw)
        self.__dict__["__name__"] = name
        self.__dict__["_real"] = real

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        r = self.__dict__["_real"]
        if r is None:
            raise AttributeError(k)
        v = getattr(r, k)
        if callable(v) and not isinstance(v, type):
            name = self.__dict__["__name__"] + "." + k

            @functools.wraps(v)
            def g(*a, **kw):
                if has_sym(list(a)) or has_sym(list(kw.values())):
                    ca = []
                    for x in a:
                        c = concrete(x) if has_sym(x) else x
                        if c is None:
                            raise SymUnsupported(name)
                        ca.append(c[()] if isinstance(c, np.ndarray) and c.ndim == 0 else c)
                    r = v(*ca, **kw)
                else:
                    r = v(*a, **kw)
                return asarr(r) if isinstance(r, np.ndarray) and r.dtype.kind in "ifc" else r
            return g
        return v


# ---- scipy ----------------------------------------------------------------

def _entr(x):
    """-x log x as one unknown per argument; 0 at 0"""
    x = num(x)
    z = x == 0
    if (z.a if isinstance(z, SymBool) and z.op == "const" else bool(z)):
        return num(0.0)
    if bool(x < 0):
        raise NonFinite("entr of negative")
    return -x * x.log()


def entropy(pk, qk=None, base=None, axis=0, **k):
    pk = asarr(pk)
    if pk.lk in "bi":
        pk = asarr(pk, "f")
    if pk.ndim != 1:
        raise SymUnsupported("entropy of a 2-d array")
    pk = pk / NP.sum(pk)
    if qk is None:
        t = num(0.0)
        for x in pk:
            t = t + _entr(x)
    else:
        qk = asarr(qk)
        if qk.lk in "bi":
            qk = asarr(qk, "f")
        if qk.shape != pk.shape:
            pp, qq = np.broadcast_arrays(pk.plain(), qk.plain())
            pk, qk = SymArray(pp, pk.lk), SymArray(qq, qk.lk)
        qk = qk / NP.sum(qk)
        t = num(0.0)
        for x, y in zip(pk, qk):
            x, y = num(x), num(y)
            if bool(x == 0):
                continue
            if bool(y == 0):
                return float("inf")
            t = t + x * (x.log() - y.log())
    if base is not None:
        t = t / num(base).log()
    return t


def _rel_entr(x, y):
    f = lambda a, b: num(0.0) if bool(num(a) == 0) else num(a) * (num(a).log() - num(b).log())
    return scal(S.infer(np.frompyfunc(f, 2, 1)(asarr(x).plain(), asarr(y).plain())))


def _xlogy(x, y):
    f = lambda a, b: num(0.0) if bool(num(a) == 0) else num(a) * num(b).log()
    return scal(S.infer(np.asarray(np.frompyfunc(f, 2, 1)(asarr(x).plain(), asarr(y).plain()), dtype=object)))


def _entr_u(x):
    return scal(S.umap(_entr, asarr(x), "f"))


def make_scipy():
    import scipy
    import scipy.linalg as sl
    import scipy.special as ss
    LA = NP.linalg
    linalg = Namespace("scipy.linalg", sl, expm=L.expm, logm=L.logm, schur=L.schur, sqrtm=L.sqrtm,
                       block_diag=L.block_diag, det=lambda a, **k: LA.det(a), inv=lambda a, **k: LA.inv(a),
                       norm=lambda a, ord=None, **k: LA.norm(a, ord, **{x: y for x, y in k.items() if x in ("axis", "keepdims")}),
                       eigh=lambda a, b=None, eigvals_only=False, **k: LA.eigvalsh(a) if eigvals_only else LA.eigh(a),
                       eigvalsh=lambda a, **k: LA.eigvalsh(a), eigvals=lambda a, **k: LA.eigvals(a),
                       eig=lambda a, **k: LA.eig(a),
                       qr=lambda a, mode="full", **k: LA.qr(a, "complete" if mode == "full" else "reduced"),
                       solve=lambda a, b, **k: LA.solve(a, b), LinAlgError=np.linalg.LinAlgError)
    stats = Namespace("scipy.stats", None, entropy=entropy, special_ortho_group=GroupShim(NP, "so"),
                      ortho_group=GroupShim(NP, "o"), unitary_group=GroupShim(NP, "su"))
    special = Namespace("scipy.special", ss, entr=_entr_u, rel_entr=_rel_entr, xlogy=_xlogy)
    sparse = Namespace("scipy.sparse", None)
    return {"scipy": Namespace("scipy", scipy, linalg=linalg, stats=stats, special=special, sparse=sparse),
            "scipy.linalg": linalg, "scipy.stats": stats, "scipy.special": special}


# ---- matplotlib -----------------------------------------------------------

class Dummy:
    """plotting back end: records calls, draws nothing"""
    calls = []

    def __init__(self, name="plt"):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Dummy(self._n + "." + k)

    def __call__(self, *a, **k):
        Dummy.calls.append((self._n, a, k))
        return Dummy(self._n + "()")

    def __setattr__(self, k, v):
        pass

    def __iter__(self):
        return iter((Dummy(), Dummy()))

    def __getitem__(self, k):
        return Dummy()


# ---- math -----------------------------------------------------------------

def _phase(x):
    return L.phase_poly(num(x).p)


def cos_num(x):
    return SymNum(_phase(x).real_part(), "f")


def sin_num(x):
    return SymNum(_phase(x).imag_part(), "f")


S.UN["cos"] = (lambda x: cos_num(x), "flt")
S.UN["sin"] = (lambda x: sin_num(x), "flt")


def make_math():
    def un(name):
        f = getattr(_math, name)

        def g(x):
            if isinstance(x, (SymNum, SymBool)) or isinstance(x, SymArray):
                if isinstance(x, SymArray):
                    x = x.item()
                return S.UN[{"fabs": "fabs"}.get(name, name)][0](x)
            if name in ("sqrt", "log") and isinstance(x, (int, float)) and x > 0:
                r = f(x)
                if r != round(r):
                    return getattr(num(x), name)()
                return r
            return f(x)
        return g
    m = {n: un(n) for n in ("sqrt", "exp", "log2", "log10", "log1p", "cos", "sin", "fabs", "trunc")}

    def log(x, base=None):
        if base is None:
            return un("log")(x)
        return num(x).log() / num(base).log()
    m["log"] = log
    m["floor"] = lambda x: int(S.SymNum(S.int_floor(x.p), "i")) if isinstance(x, SymNum) else _math.floor(x)
    m["ceil"] = lambda x: int(S.SymNum(-S.int_floor(-x.p), "i")) if isinstance(x, SymNum) else _math.ceil(x)
    m["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: _isclose(a, b, rel_tol, abs_tol)
    for n, v in (("isnan", False), ("isinf", False), ("isfinite", True)):
        m[n] = (lambda n, v: lambda x: v if isinstance(x, SymNum) else getattr(_math, n)(x))(n, v)
    m["factorial"] = lambda n: _math.factorial(int(n))
    m["comb"] = lambda n, k: _math.comb(int(n), int(k))
    m["prod"] = lambda it, start=1: functools.reduce(lambda a, b: a * b, it, start)
    m["fsum"] = lambda it: sum(it)
    m["hypot"] = lambda *a: NP.sqrt(sum(x * x for x in a))
    m["pow"] = lambda a, b: a ** b
    m["gcd"] = _math.gcd
    return Namespace("math", _math, **m)


def _isclose(a, b, rt, at):
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return _math.isclose(a, b, rel_tol=rt, abs_tol=at)
    d = abs(num(a) - num(b))
    return (d <= at) | (d <= rt * abs(num(a))) | (d <= rt * abs(num(b))) if True else None


def make_cmath():
    def sqrt(x):
        if isinstance(x, SymNum):
            return SymNum(x.p, "c").sqrt()
        return _cmath.sqrt(x)

    def exp(x):
        x = num(x)
        return SymNum(L.expr_poly(x.p.real_part()) * (L.phase_poly(x.p.imag_part()) if x.p.imag_part().t else ONE), "c")
    return Namespace("cmath", _cmath, sqrt=sqrt, exp=exp)


def _cexp(x):
    x = num(x)
    if x.k == "c" and not x.p.is_real():
        return SymNum(L.expr_poly(x.p.real_part()) * L.phase_poly(x.p.imag_part()), "c")
    return SymNum(S.exp_poly(x.p), S.kmax("f", x.k))


S.UN["exp"] = (_cexp, "flt")


# ---- stim -----------------------------------------------------------------

STIM = {}


class StimTableau:
    """contract: a random tableau; its state vector is supplied by the harness"""

    def __init__(self, n):
        self.n = n

    @staticmethod
    def random(num_qubits, **k):
        if not _b.isinstance(num_qubits, (int, SymNum)) or _b.isinstance(num_qubits, bool):
            raise TypeError("incompatible function arguments")
        if num_qubits < 0:
            raise TypeError("incompatible function arguments")
        return StimTableau(num_qubits)

    def to_state_vector(self, *, endian="little"):
        if "vec" not in STIM:
            raise SymUnsupported("stim is not modelled here")
        v = STIM["vec"]
        STIM["asked"] = (self.n, endian)
        return v.copy()


def make_stim():
    m = types.ModuleType("stim")
    m.Tableau = StimTableau
    return m


# ---- networkx -------------------------------------------------------------

class DenseHolder:
    """sparse matrix stand-in"""

    def __init__(self, a):
        self.a = a
        self.shape = a.shape

    def toarray(self):
        return self.a.copy()

    todense = toarray

    @property
    def T(self):
        return DenseHolder(self.a.T.copy())

    def __array__(self, *a, **k):
        raise SymUnsupported("sparse to array")

    def __getitem__(self, k):
        return self.a[k]

    def __mul__(self, o):
        return DenseHolder(self.a * o)

    def __neg__(self):
        return DenseHolder(-self.a)


def sym_adjacency(G, nodelist=None, weight="weight", dtype=None, default=1, nonedge=0):
    nodes = list(G) if nodelist is None else list(nodelist)
    ix = {u: i for i, u in enumerate(nodes)}
    n = len(nodes)
    ws = [d.get(weight, default) if weight is not None else default for _, _, d in G.edges(data=True)]
    k = "i"
    for w in ws:
        k = S.kmax(k, S.weak_kind(w))
    A = NP.full((n, n), nonedge, dtype=S.DT[k])
    seen = set()
    for u, v, d in G.edges(data=True):
        if u not in ix or v not in ix:
            continue
        w = d.get(weight, default) if weight is not None else default
        i, j = ix[u], ix[v]
        if G.is_multigraph() and (i, j) in seen:
            A[i, j] = A[i, j] + w
            if not G.is_directed() and i != j:
                A[j, i] = A[j, i] + w
        else:
            A[i, j] = w
            if not G.is_directed():
                A[j, i] = w
        seen.add((i, j))
        seen.add((j, i))
    return A


def _symw(G):
    return any(isinstance(w, SymNum) and not w.is_const() for _, _, d in G.edges(data=True) for w in d.values())


def _cmp(a, b, sign):
    """1 better, 0 equal, -1 worse, None unknown"""
    d = a.p - b.p
    if not d.is_const():
        if S.by_range(SymBool("lt", d)):
            return -sign
        if S.by_range(SymBool("lt", -d)):
            return sign
        return None
    c = d.const_value() * sign
    return (c > 0) - (c < 0)


def spanning_tree(G, sign, weight="weight"):
    """contract: *some* spanning forest of extreme total weight"""
    import networkx as nx
    edges = [(u, v) for u, v in G.edges()]
    w = {(u, v): num(d.get(weight, 1)) for u, v, d in G.edges(data=True)}
    parent = {u: u for u in G}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    # enumerate spanning forests by deciding, edge by edge, membership
    chosen = []
    und = nx.Graph()
    und.add_nodes_from(G)
    ncomp = nx.number_connected_components(G)
    need = len(G) - ncomp
    i = 0
    while len(chosen) < need:
        e = edges[i]
        i += 1
        u, v = e
        if find(u) == find(v):
            continue
        # can the remaining edges still span without e?
        rest = nx.Graph()
        rest.add_nodes_from(G)
        rest.add_edges_from(chosen + edges[i:])
        must = nx.number_connected_components(rest) > ncomp
        if not must:
            # settled by the known weights: a cycle of strictly better edges rules
            # e out, no cycle of possibly-as-good edges makes it compulsory
            better = nx.Graph([f for f in edges if f != e and _cmp(w[f], w[e], sign) == 1])
            if u in better and v in better and nx.has_path(better, u, v):
                continue
            good = nx.Graph([f for f in edges if f != e and _cmp(w[f], w[e], sign) != -1])
            must = not (u in good and v in good and nx.has_path(good, u, v))
        take = True if must else H.engine.choose("mst%s" % (e,))
        if take:
            chosen.append(e)
            parent[find(u)] = find(v)
    T_ = nx.Graph()
    T_.add_nodes_from(G.nodes(data=True))
    for e in chosen:
        T_.add_edge(*e, **G.get_edge_data(*e))
    from . import shim_linalg
    shim_linalg.G.used.add("mst")
    # extremality: every non-tree edge is no better than each tree edge on its cycle
    for e in edges:
        if e in chosen:
            continue
        path = nx.shortest_path(T_, e[0], e[1])
        for a, b in zip(path, path[1:]):
            t = w[(a, b)] if (a, b) in w else w[(b, a)]
            c = (t >= w[e]) if sign > 0 else (t <= w[e])
            H.engine.assume(S.tobool(c))
    return T_


class NXShim:
    __name__ = "networkx"

    def __init__(self, rnd):
        import networkx as nx
        self.nx = nx
        self.rnd = rnd

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        nx = self.__dict__["nx"]
        v = getattr(nx, k)
        if k.startswith("draw"):
            return lambda *a, **kw: Dummy.calls.append(("nx." + k, a, kw))
        if k.endswith("_layout"):
            return lambda G, *a, **kw: {u: (0.0, 0.0) for u in G}
        return v

    def adjacency_matrix(self, G, nodelist=None, dtype=None, weight="weight"):
        if len(G) == 0:
            raise self.nx.NetworkXError("Graph has no nodes or edges")
        return DenseHolder(sym_adjacency(G, nodelist, weight, dtype))

    def to_numpy_array(self, G, nodelist=None, dtype=None, weight="weight", nonedge=0.0, **k):
        A = sym_adjacency(G, nodelist, weight, dtype)
        if not any(isinstance(d.get(weight), complex) for _, _, d in G.edges(data=True)):
            A = asarr(A, "f") if A.lk in "bi" else A
        return A

    to_scipy_sparse_array = adjacency_matrix

    def from_numpy_array(self, A, parallel_edges=False, create_using=None, **k):
        a = asarr(A)
        G = self.nx.Graph() if create_using is None else self.nx.empty_graph(0, create_using)
        n = a.shape[0]
        G.add_nodes_from(range(n))
        for i in range(n):
            for j in range(n):
                x = a[i, j]
                if (j >= i or G.is_directed()) and bool(x != 0):
                    G.add_edge(i, j, weight=x)
        return G

    def maximum_spanning_tree(self, G, weight="weight", algorithm="kruskal", ignore_nan=False):
        if _symw(G):
            return spanning_tree(G, 1, weight)
        return self.nx.maximum_spanning_tree(_conc(G), weight=weight, algorithm=algorithm)

    def minimum_spanning_tree(self, G, weight="weight", algorithm="kruskal", ignore_nan=False):
        if _symw(G):
            return spanning_tree(G, -1, weight)
        return self.nx.minimum_spanning_tree(_conc(G), weight=weight, algorithm=algorithm)

    def gnm_random_graph(self, n, m, seed=None, directed=False, **k):
        """contract: any graph on n nodes with min(m, n(n-1)/2) edges"""
        import itertools
        n, m = int(n), int(m)
        GNM_COUNT[0] += 1
        if GNM_LIMIT is not None and GNM_COUNT[0] > GNM_LIMIT:
            from .engine import Stop
            raise Stop()
        src = self._src(seed)
        G = self.nx.DiGraph() if directed else self.nx.Graph()
        G.add_nodes_from(range(n))
        if GNM_OPAQUE:
            # which graph comes out is not looked at, only what it is a function of
            G.add_edges_from((i, i + 1) for i in range(n - 1))
            G.graph["drawn"] = (m, src._real("g", None))
            return G
        if GNM_MENU and not directed:
            menu = graph_menu(self.nx, n, m)
            k = int(src._real("g", None, kind="int", lk="i", axioms=lambda p: [
                SymBool("le", -p), SymBool("le", p - Poly.const(len(menu) - 1))]))
            return menu[k]
        pairs = list(itertools.permutations(range(n), 2) if directed else itertools.combinations(range(n), 2))
        m = max(0, min(m, len(pairs)))
        left = m
        for q, (u, v) in enumerate(pairs):
            rem = len(pairs) - q
            if left == 0:
                break
            if left == rem or bool(src._real("g", None, kind="int", lk="i", axioms=lambda p: [
                    SymBool("le", -p), SymBool("le", p - ONE)]) == 1):
                G.add_edge(u, v)
                left -= 1
        return G

    def _src(self, seed):
        if seed is None:
            return self.rnd
        if hasattr(seed, "_real"):
            return seed
        r = PyRandomShim(NP)
        r.seed(seed)
        return r


def graph_menu(nx, n, m):
    """graphs with n nodes and m edges of every kind there is: planar or not, connected or not"""
    def planar(nodes, k):
        es = [(nodes[i], nodes[i + d]) for d in (1, 2, 3) for i in range(len(nodes) - d)]
        return es[:k] if len(es) >= k else None

    def crossing(nodes, k):
        """a K33 on the first six nodes, then a path through the rest, then further edges"""
        if len(nodes) < 6:
            return None
        es = [(nodes[i], nodes[j]) for i in (0, 2, 4) for j in (1, 3, 5)] + [(nodes[i], nodes[i + 1]) for i in range(5, len(nodes) - 1)]
        more = [(nodes[i], nodes[i + 2]) for i in range(len(nodes) - 2)]
        return (es + more)[:k] if 9 <= k <= len(es) + len(more) else None
    ns = list(range(n))
    out = []
    for es in (planar(ns, m), planar(ns[:-1], m), planar(ns[1:], m), crossing(ns, m), crossing(ns[:-1], m), crossing(ns[::-1], m)):
        if es is None:
            continue
        G = nx.Graph()
        G.add_nodes_from(ns)
        G.add_edges_from(es)
        if G.number_of_edges() == m:
            out.append(G)
    return out


def _conc(G):
    H_ = G.copy()
    for *e, d in H_.edges(data=True):
        for k, w in d.items():
            if isinstance(w, SymNum):
                d[k] = float(w)
    return H_


# ---- builtins -------------------------------------------------------------

PRINTED = []
GNM_LIMIT = None
GNM_OPAQUE = False
GNM_MENU = False
GNM_COUNT = [0]


def sym_print(*a, **k):
    PRINTED.append(a)


def sym_round(x, nd=None):
    if isinstance(x, (SymNum, SymBool)):
        return num(x).__round__(nd)
    return _b.round(x, nd) if nd is not None else _b.round(x)


def sym_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def sym_max(*a, key=None, default=None):
    return _ext(a, key, default, lambda x, y: y > x, _b.max)


def sym_min(*a, key=None, default=None):
    return _ext(a, key, default, lambda x, y: y < x, _b.min)


def _ext(a, key, default, better, real):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (SymNum, SymBool, SymArray)) for x in xs) and key is None:
        if not xs and default is not None:
            return default
        return real(xs)
    if not xs:
        if default is not None:
            return default
        raise ValueError("max() arg is an empty sequence")
    b = xs[0]
    kb = key(b) if key else b
    for x in xs[1:]:
        kx = key(x) if key else x
        if bool(better(kb, kx)):
            b, kb = x, kx
    return b


def sym_len(x):
    return _b.len(x)


def sym_type(*a):
    if len(a) == 1 and isinstance(a[0], SymNum):
        return {"i": IntShim, "f": FloatShim, "c": ComplexShim, "b": BoolShim}[a[0].k]
    return type(*a)


def sym_issubclass(c, d):
    return issubclass(unshim(c), tuple(unshim(x) for x in d) if isinstance(d, tuple) else unshim(d))


class Loader:
    """executes <REPO>/ff/*.py against the shims; records executed functions"""

    def __init__(self, src=None):
        self.src = os.path.join(src or REPO, "ff")
        self.mods = {}
        self.executed = {}
        self.pyrandom = PyRandomShim(NP)
        sc = make_scipy()
        self.table = {"numpy": NP, "numpy.linalg": NP.linalg, "numpy.random": NP.random,
                      "networkx": NXShim(self.pyrandom), "math": make_math(), "cmath": make_cmath(),
                      "random": self.pyrandom, "matplotlib": Namespace("matplotlib", None, pyplot=Dummy()),
                      "matplotlib.pyplot": Dummy()}
        self.table.update(sc)
        self.bi = dict(vars(_b))
        self.bi.update(__import__=self.imp, isinstance=sym_isinstance, print=sym_print, int=IntShim,
                       float=FloatShim, complex=ComplexShim, round=sym_round, max=sym_max, min=sym_min,
                       sum=sym_sum, issubclass=sym_issubclass)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals["__package__"].split(".")
            pkg = pkg[:len(pkg) - (level - 1)]
            full = ".".join(pkg + ([name] if name else []))
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and os.path.exists(os.path.join(self.src, *full.split(".")[1:], f + ".py")):
                    self.load(full + "." + f)
            return m
        if name == "ff" or name.startswith("ff."):
            m = self.load(name)
            return m if fromlist else self.load("ff")
        if name in self.table:
            if fromlist:
                return self.table[name]
            return self.table[name.split(".")[0]]
        top = name.split(".")[0]
        if top in ("numpy", "scipy", "matplotlib") and name not in self.table:
            m = importlib.import_module(name) if top != "matplotlib" else Dummy()
            if fromlist:
                return Namespace(name, m) if top != "matplotlib" else m
            return self.table[top]
        if top == "stim":
            return make_stim()
        return __import__(name, None, None, fromlist or (), 0)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        parts = full.split(".")
        base = os.path.join(self.src, *parts[1:])
        if os.path.isdir(base):
            path, pkg = os.path.join(base, "__init__.py"), full
        else:
            path, pkg = base + ".py", ".".join(parts[:-1])
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = pkg
        self.mods[full] = m
        m.__dict__["__builtins__"] = self.bi
        with open(path) as f:
            src = f.read()
        exec(compile(src, path, "exec"), m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__globals__ is m.__dict__:
                m.__dict__[k] = self.record(v, full)
        if len(parts) > 1:
            par = self.mods.get(".".join(parts[:-1]))
            if par is not None:
                setattr(par, parts[-1], m)
        return m

    def record(self, f, mod):
        name = mod.split(".", 1)[-1] + "." + f.__name__
        ex = self.executed

        @functools.wraps(f)
        def g(*a, **k):
            ex[name] = ex.get(name, 0) + 1
            return f(*a, **k)
        return g


def import_real(src=None):
    """the real package, on the real libraries (matplotlib and stim
    replaced by stubs)"""
    src = src or REPO
    if "ff" in sys.modules:
        return sys.modules["ff"]
    m = types.ModuleType("matplotlib")
    m.__path__ = []
    m.use = lambda *a, **k: None
    pp = types.ModuleType("matplotlib.pyplot")
    pp.__getattr__ = lambda k: Dummy("plt." + k)
    m.pyplot = pp
    sys.modules["matplotlib"] = m
    sys.modules["matplotlib.pyplot"] = pp
    sys.modules["stim"] = make_stim()
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import ff
    if not os.path.abspath(ff.__file__).startswith(os.path.abspath(src)):
        raise RuntimeError("imported ff from %s" % ff.__file__)
    return ff
