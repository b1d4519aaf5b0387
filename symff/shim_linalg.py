"""Contract stubs for numpy.linalg / scipy.linalg.

Closed forms where they exist (norms, determinants, inverses, everything on
1x1 and 2x2 blocks, matrices that decompose into blocks), facts registered by
the harness ("ghosts": a spectrum, a real Schur form, positivity, unitarity,
a logarithm), and otherwise fresh unknowns constrained only by the documented
contract of the routine.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, T, ZERO, ONE
from . import sym as S
from .sym import (SymNum, SymBool, SymArray, SymUnsupported, NonFinite, H, asarr, num, kmax,
                  band, bnot, bor, rel, ite_poly)


class Ghosts:
    def __init__(self):
        self.reset()

    def reset(self):
        self.eig = {}
        self.psd = {}
        self.scaled = {}
        self.unitary = {}
        self.log = {}
        self.expof = {}
        self.logs = []
        self.schur = {}
        self.prov = {}
        self.square = {}
        self.gap = None
        self.used = set()


G = Ghosts()


def mkey(M):
    return (M.shape, tuple(x.p for x in M.plain().reshape(-1)))


def dag(M):
    return asarr(M).conj().T


def is_hermitian(M):
    n = M.shape[0]
    pl = M.plain()
    for i in range(n):
        for j in range(i, n):
            if pl[i, j].p.conj() != pl[j, i].p:
                return False
    return True


def is_antihermitian(M):
    n = M.shape[0]
    pl = M.plain()
    for i in range(n):
        for j in range(i, n):
            if pl[i, j].p.conj() != -pl[j, i].p:
                return False
    return True


def is_diag(M):
    pl = M.plain()
    return all(not pl[i, j].p.t for i in range(M.shape[0]) for j in range(M.shape[1]) if i != j)


def is_identity(M):
    pl = M.plain()
    return all((pl[i, j].p - (ONE if i == j else ZERO)).is_zero() for i in range(M.shape[0]) for j in range(M.shape[1]))


def is_unitary(M):
    if mkey(M) in G.unitary:
        return True
    if M.size > 64:
        return False
    D = asarr(S.matmul(M, dag(M)))
    eng = H.engine
    ok = is_identity(D)
    D = D.plain()
    if ok or M.size <= 16 and all(eng.proves_zero(D[i, j].p - (ONE if i == j else ZERO)) for i in range(len(D)) for j in range(i, len(D))):
        mark_unitary(M)
        return True
    return False


def mark_unitary(M):
    G.unitary[mkey(M)] = M
    d = dag(M)
    G.unitary[mkey(d)] = d


def mark_psd(M):
    G.psd[mkey(M)] = M


def _is_dag(A, B):
    """B is the conjugate transpose of A"""
    if A.shape != B.shape[::-1]:
        return False
    n, m = A.shape
    for i in range(n):
        for j in range(m):
            x, y = A[i, j].p, B[j, i].p
            if x is not y and x.conj() != y:
                return False
    return True


def on_matmul(A, B, o, k):
    """products whose structure later steps rely on: U U^dag = 1, X X^dag >= 0,
    U D U^dag keeps the spectrum of D"""
    n = A.shape[0]
    if o is None:
        if G.unitary and A.shape == B.shape and n > 1 and _is_dag(A, B) and (A.shape, tuple(x.p for x in A.reshape(-1))) in G.unitary:
            r = np.empty((n, n), dtype=object)
            for ix in np.ndindex(n, n):
                r[ix] = SymNum(ONE if ix[0] == ix[1] else ZERO, k)
            return SymArray(r, k)
        return None
    if n == 1 or n > 16:
        return None
    if _is_dag(A, B):
        R = SymArray(o, k)
        mark_psd(R)
        if A.shape == B.shape:
            G.square[mkey(R)] = A
        return None
    if G.unitary and A.shape == B.shape:
        if G.scaled:
            # (U * s) U^dag and U (s[:, None] * U^dag)
            h = G.scaled.get(("cols", A.shape, tuple(x.p for x in A.reshape(-1))))
            if h is not None and _is_dag(h[0], B):
                _conjugated(h[1], SymArray(o, k))
            h = G.scaled.get(("rows", B.shape, tuple(x.p for x in B.reshape(-1))))
            if h is not None and _is_dag(A, h[0]):
                _conjugated(h[1], SymArray(o, k))
        ka = (A.shape, tuple(x.p for x in A.reshape(-1)))
        kb = (B.shape, tuple(x.p for x in B.reshape(-1)))
        if ka in G.unitary:
            G.prov[(o.shape, tuple(x.p for x in o.reshape(-1)))] = (A, SymArray(B, k))
        if kb in G.unitary and ka in G.prov:
            U, D = G.prov[ka]
            if _is_dag(U, B):
                _conjugated(D, SymArray(o, k))
    return None


def _conjugated(D, R):
    """R = U D U^dag"""
    if is_hermitian(D):
        if known_psd(D):
            mark_psd(R)
        if mkey(D) in G.eig or is_diag(D):
            G.eig.setdefault(mkey(R), [x for x in herm_eigs(D)])


S.MM_HOOK = on_matmul


def on_multiply(A, B, R):
    """a unitary with scaled columns or rows"""
    if not G.unitary:
        return
    n = R.shape[0]
    for U, s in ((A, B), (B, A)):
        if U.shape != (n, n) or s.size != n:
            continue
        if (U.shape, tuple(x.p for x in U.reshape(-1))) not in G.unitary:
            continue
        d = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                d[i, j] = s.reshape(-1)[i] if i == j else SymNum(ZERO, R.lk)
        way = "rows" if s.shape == (n, 1) else "cols"
        pl = R.plain()
        G.scaled[(way, (n, n), tuple(x.p for x in pl.reshape(-1)))] = (U, SymArray(d, R.lk))


S.MUL_HOOK = on_multiply


def on_trace(M, t):
    """Tr(X X^dag) >= 0, and > 0 when Tr X is a non-zero constant"""
    k = mkey(M)
    if k in G.psd:
        X = G.square.get(k)
        if X is not None:
            tr = ZERO
            for i in range(X.shape[0]):
                tr = tr + X[i, i].p
            if tr.is_const() and tr.const_value():
                S.pos_fact(t)
                return
        S.nonneg_fact(t)


def rank_one(M):
    """every 2x2 minor vanishes identically"""
    n = M.shape[0]
    pl = M.plain()
    if n < 2 or n > 8:
        return False
    for i in range(n):
        for j in range(i):
            for k in range(n):
                for l in range(k):
                    if not (pl[i, k].p * pl[j, l].p - pl[i, l].p * pl[j, k].p).renorm().is_zero():
                        return False
    return True


def known_psd(M):
    if mkey(M) in G.psd:
        return True
    n = M.shape[0]
    if is_diag(M):
        return all(S.syn_nonneg(M.plain()[i, i].p) for i in range(n))
    pl = M.plain()
    for E in G.psd.values():
        if E.shape != M.shape:
            continue
        e = E.plain()
        piv = None
        for i in range(n):
            if e[i, i].p.t:
                piv = i
                break
        if piv is None:
            continue
        a, b = e[piv, piv].p, pl[piv, piv].p
        if not (S.syn_pos(a) and (S.syn_nonneg(b))):
            continue
        if all((pl[i, j].p * a - e[i, j].p * b).is_zero() for i in range(n) for j in range(n)):
            G.psd[mkey(M)] = M
            return True
    return False


def blocks(M):
    """index lists of the connected components of the nonzero pattern"""
    n = M.shape[0]
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    pl = M.plain()
    for i in range(n):
        for j in range(n):
            if i != j and pl[i, j].p.t:
                par[find(i)] = find(j)
    comp = {}
    for i in range(n):
        comp.setdefault(find(i), []).append(i)
    return list(comp.values())


def sub(M, idx):
    return SymArray(M.plain()[np.ix_(idx, idx)], M.lk)


def det_poly(M):
    n = M.shape[0]
    pl = M.plain()
    memo = {}

    def rec(r, cols):
        if r == n:
            return ONE
        k = (r, cols)
        if k in memo:
            return memo[k]
        tot = ZERO
        for q, c in enumerate(cols):
            x = pl[r, c].p
            if x.t:
                v = x * rec(r + 1, cols[:q] + cols[q + 1:])
                tot = tot + (v if q % 2 == 0 else -v)
        memo[k] = tot
        return tot
    return rec(0, tuple(range(n)))


def fresh(prefix, n, kind="real", **kw):
    base = len(T.cache)
    out = []
    for i in range(n):
        a, _ = S._aux((prefix, base, i), "%s%d_%d" % (prefix, base, i), kind, **kw)
        out.append(a)
    return out


def eval_matrix(M, env):
    pl = M.plain()
    return np.array([[complex(S.eval_poly(pl[i, j].p, env)) for j in range(M.shape[1])] for i in range(M.shape[0])])


def set_group_eval(atoms, f):
    """atoms evaluated together by f(env) -> list of floats"""
    for i, a in enumerate(atoms):
        def g(env, i=i):
            vals = f(env)
            for q, b in enumerate(atoms):
                env[b.name] = vals[q]
            return vals[i]
        a.evalf = g


def _sqm(M, what="Last 2 dimensions of the array must be square"):
    M = asarr(M)
    if M.lk in "bi":
        M = asarr(M, "f")
    if M.ndim != 2:
        if M.ndim < 2:
            raise np.linalg.LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % M.ndim)
        raise SymUnsupported("stacked matrices in linalg")
    if M.shape[0] != M.shape[1]:
        raise np.linalg.LinAlgError(what)
    return M


def herm_eigs(M):
    """eigenvalues (unordered polynomials) of a Hermitian matrix"""
    k = mkey(M)
    if k in G.eig:
        G.used.add("spectrum")
        return list(G.eig[k])
    n = M.shape[0]
    if n == 1:
        return [M.plain()[0, 0].p.real_part()]
    bl = blocks(M)
    if len(bl) > 1:
        out = []
        for b in bl:
            sm = sub(M, b)
            if known_psd(M):
                mark_psd(sm)
            out += herm_eigs(sm)
        return out
    psd = known_psd(M)
    pl = M.plain()
    if rank_one(M):
        tr = ZERO
        for i in range(n):
            tr = tr + pl[i, i].p.real_part()
        return [ZERO] * (n - 1) + [tr.renorm()]
    if n == 2 and not psd:
        a, d, b = pl[0, 0].p.real_part(), pl[1, 1].p.real_part(), pl[0, 1].p
        disc = (a - d) * (a - d) + (b * b.conj()).scale(4)
        r = S.sqrt_poly(S.nonneg_fact(disc.renorm()))
        return [(a + d - r).scale(Fraction(1, 2)), (a + d + r).scale(Fraction(1, 2))]
    ck = ("eigh", k)
    if ck in T.cache:
        return [Poly.atom(a.id) for a in T.cache[ck]]
    ats = fresh("eig", n, nonneg=psd)
    T.cache[ck] = ats
    ps = [Poly.atom(a.id) for a in ats]
    tr = ZERO
    for i in range(n):
        tr = tr + pl[i, i].p.real_part()
    M2 = S.matmul(M, M)
    tr2 = ZERO
    for i in range(n):
        tr2 = tr2 + M2.plain()[i, i].p.real_part()
    s1 = sum(ps[1:], ps[0]) - tr
    s2 = sum([p * p for p in ps[1:]], ps[0] * ps[0]) - tr2
    ax = []
    for s in (s1, s2):
        re, _ = S.split(s)
        ax.append(SymBool("eq", re) if re.t else S.TRUE)
    for i in range(n - 1):
        ax.append(SymBool("le", ps[i] - ps[i + 1]))
    if psd:
        ax += [SymBool("le", -p) for p in ps]
    for a in ats:
        a.axioms = ax
        a.meta = ("eigh", M)
    if n <= 4:
        d = det_poly(M)
        if len(d.t) < 200:
            T.add_rule(tuple(a.id for a in ats), d.real_part())
    set_group_eval(ats, lambda env: [float(x) for x in np.linalg.eigvalsh(eval_matrix(M, env))])
    return ps


def sort_network(ps):
    """ascending order by a comparator network over min/max terms"""
    ps = list(ps)
    n = len(ps)
    if n > 1 and all((p - ps[0]).is_const() for p in ps):
        return sorted(ps, key=lambda p: (p - ps[0]).const_value())
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = ps[j], ps[j + 1]
            c = rel("le", a - b)
            ps[j], ps[j + 1] = ite_poly(c, a, b), ite_poly(c, b, a)
    return ps


def gen_eigs(M):
    """list of (poly) eigenvalues of a general square matrix, unordered"""
    k = mkey(M)
    if k in G.eig:
        G.used.add("spectrum")
        return list(G.eig[k])
    n = M.shape[0]
    pl = M.plain()
    if n == 1:
        return [pl[0, 0].p]
    if all(not pl[i, j].p.t for i in range(n) for j in range(i)) or all(not pl[i, j].p.t for i in range(n) for j in range(i + 1, n)):
        return [pl[i, i].p for i in range(n)]
    bl = blocks(M)
    if len(bl) > 1:
        return sum((gen_eigs(sub(M, b)) for b in bl), [])
    if is_hermitian(M):
        return herm_eigs(M)
    if is_antihermitian(M):
        iM = SymArray(np.array([[SymNum(x.p * P.IMAG(), "c") for x in r] for r in pl], dtype=object), "c")
        if n == 2:
            return [e * P.NEG_I() for e in herm_eigs(iM)]
    if n == 2:
        tr = pl[0, 0].p + pl[1, 1].p
        d = det_poly(M)
        disc = tr * tr - d.scale(4)
        r = S.csqrt_poly(disc)
        return [(tr - r).scale(Fraction(1, 2)), (tr + r).scale(Fraction(1, 2))]
    ck = ("eigv", k)
    if ck in T.cache:
        return [Poly.atom(a.id) for a in T.cache[ck]]
    ats = fresh("lam", n, "cplx")
    T.cache[ck] = ats
    d = det_poly(M)
    ps = [Poly.atom(a.id) for a in ats]
    tr = ZERO
    for i in range(n):
        tr = tr + pl[i, i].p
    re, im = S.split(sum(ps[1:], ps[0]) - tr)
    T.add_rule(tuple(a.id for a in ats), d)
    T.add_rule(tuple(a.conj for a in ats), d.conj())
    ax = [SymBool("eq", x) for x in (re, im) if x.t]
    res = []
    for a in ats:
        T.atoms[a.re].axioms = ax
        T.atoms[a.im].axioms = ax
        res += [T.atoms[a.re], T.atoms[a.im]]

    def f(env):
        v = sorted(np.linalg.eigvals(eval_matrix(M, env)), key=lambda z: (round(z.real, 9), z.imag))
        return [x for z in v for x in (float(z.real), float(z.imag))]
    set_group_eval(res, f)
    return ps


def real_eigs(M, ps):
    """the eigenvalues of a real matrix on a path where all are real"""
    if len(ps) < 3:
        return [p.real_part() for p in ps]
    ck = ("eigvr", mkey(M))
    ats = T.cache.get(ck)
    if ats is None:
        n = len(ps)
        ats = fresh("lamr", n, "real")
        T.cache[ck] = ats
        pl = M.plain()
        tr = ZERO
        for i in range(n):
            tr = tr + pl[i, i].p
        T.add_rule(tuple(a.id for a in ats), det_poly(M))
        q = [Poly.atom(a.id) for a in ats]
        ax = [SymBool("eq", sum(q[1:], q[0]) - tr)]
        for a in ats:
            a.axioms = ax

        def f(env):
            return sorted(float(np.real(z)) for z in np.linalg.eigvals(eval_matrix(M, env)))
        set_group_eval(ats, f)
    return [Poly.atom(a.id) for a in ats]


def pack(ps, k):
    o = np.empty(len(ps), dtype=object)
    for i, p in enumerate(ps):
        o[i] = SymNum(p, k)
    return SymArray(o, k)


class LinalgShim:
    def __init__(self, NP):
        self.NP = NP
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(np.linalg, name)

        def g(*a, **k):
            from .shim_np import concrete, has_sym, _wrapc
            ca = []
            for x in a:
                if has_sym(x):
                    c = concrete(x)
                    if c is None:
                        raise SymUnsupported("numpy.linalg." + name)
                    ca.append(c)
                else:
                    ca.append(x)
            return _wrapc(f(*ca, **k))
        return g

    def det(self, M):
        M = _sqm(M)
        return SymNum(det_poly(M), M.lk)

    def slogdet(self, M):
        d = self.det(M)
        if d.k == "c":
            raise SymUnsupported("slogdet complex")
        return self.NP.sign(d), self.NP.log(abs(d))

    def inv(self, M):
        M = _sqm(M)
        n = M.shape[0]
        if mkey(M) in G.unitary:
            return dag(M)
        d = det_poly(M)
        if d.is_zero():
            raise np.linalg.LinAlgError("Singular matrix")
        if not (d.is_const()):
            z = SymNum(d, M.lk) == 0
            if bool(z):
                raise np.linalg.LinAlgError("Singular matrix")
        di = S.inv_poly(d)
        o = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                mi = SymArray(np.delete(np.delete(M.plain(), j, 0), i, 1), M.lk)
                c = det_poly(mi) if n > 1 else ONE
                o[i, j] = SymNum((c if (i + j) % 2 == 0 else -c) * di, M.lk)
        return SymArray(o, M.lk)

    def solve(self, A, b):
        return S.matmul(self.inv(A), b)

    def pinv(self, A, *a, **k):
        return self.inv(A)

    def matrix_power(self, M, n):
        M = _sqm(M)
        n = int(n)
        if n < 0:
            M, n = self.inv(M), -n
        R = self.NP.eye(M.shape[0], dtype=S.DT[M.lk])
        for _ in range(n):
            R = S.matmul(R, M)
        return R

    def multi_dot(self, ms):
        r = ms[0]
        for m in ms[1:]:
            r = S.matmul(r, m)
        return r

    def trace(self, M, **k):
        return self.NP.trace(M, **k)

    def matrix_norm(self, x, ord="fro", **k):
        return self.norm(x, ord)

    def vector_norm(self, x, ord=2, axis=None, **k):
        return self.norm(asarr(x).reshape(-1) if axis is None else x, ord, axis)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        NP = self.NP
        x = asarr(x)
        if x.lk in "bi":
            x = asarr(x, "f")
        if axis is not None:
            if isinstance(axis, tuple) and len(axis) == 2 and ord in (None, "fro"):
                return NP.sqrt(NP.sum(NP.abs(x) ** 2, axis=axis, keepdims=keepdims))
            ax = axis[0] if isinstance(axis, tuple) else axis
            mv = np.moveaxis(x.plain(), ax, -1)
            o = np.empty(mv.shape[:-1], dtype=object)
            for ix in np.ndindex(o.shape):
                o[ix] = num(self.norm(SymArray(mv[ix], x.lk), ord))
            r = SymArray(o, "f")
            if keepdims:
                r = r.reshape(tuple(1 if i == ax % x.ndim else s for i, s in enumerate(x.shape)))
            return r if r.ndim else r[()]
        ps = [v.p for v in x.plain().reshape(-1)]

        def fro():
            t = ZERO
            for p in ps:
                if p.t:
                    t = t + (p * p.conj())
            if any(S.syn_pos(p) or S.syn_pos(-p) for p in ps if p.t and p.is_real()):
                S.pos_fact(t)
            else:
                S.nonneg_fact(t)
            return SymNum(S.sqrt_poly(t.real_part()), "f")
        if ord is None or (isinstance(ord, str) and ord == "fro" and x.ndim == 2):
            return fro()
        if isinstance(ord, SymNum):
            if not ord.p.is_const():
                raise SymUnsupported("symbolic norm order")
            ord = ord.p.const_value()
        if x.ndim == 1:
            ab = [SymNum(S.cabs_poly(p), "f") for p in ps]
            if isinstance(ord, str):
                raise ValueError("Invalid norm order for vectors.")
            if ord == math.inf:
                return NP.max(asarr(ab, "f"))
            if ord == -math.inf:
                return NP.min(asarr(ab, "f"))
            if ord == 0:
                return SymNum(num(NP.count_nonzero(x)).p, "f")
            if ord == 2:
                return fro()
            t = num(0.0)
            terms = [v if ord == 1 else S.power(v, num(P.frac(ord) if not isinstance(ord, Fraction) else ord)) for v in ab]
            for v in terms:
                t = t + v
            S.sum_fact([v.p for v in terms], t.p)
            if ord == 1:
                return t
            return SymNum(S.powf_poly(t.p, Fraction(1) / Fraction(P.frac(ord))), "f")
        if x.ndim == 2:
            A = NP.abs(x)
            if ord == 1:
                return NP.max(NP.sum(A, axis=0))
            if ord == -1:
                return NP.min(NP.sum(A, axis=0))
            if ord == math.inf:
                return NP.max(NP.sum(A, axis=1))
            if ord == -math.inf:
                return NP.min(NP.sum(A, axis=1))
            if ord in (2, -2, "nuc"):
                s = self._svals(x)
                if ord == "nuc":
                    return NP.sum(s)
                return NP.max(s) if ord == 2 else NP.min(s)
            raise ValueError("Invalid norm order for matrices.")
        raise ValueError("Improper number of dimensions to norm.")

    def _svals(self, x):
        if 1 in x.shape:
            return asarr([self.norm(x.reshape(-1))], "f")
        if x.shape[0] == x.shape[1] and is_hermitian(x):
            return self.NP.abs(pack(herm_eigs(x), "f"))
        raise SymUnsupported("singular values")

    def eigvalsh(self, M, UPLO="L"):
        M = _sqm(M)
        M = self._herm(M, UPLO)
        return pack(sort_network(herm_eigs(M)), "f")

    def _herm(self, M, UPLO="L"):
        """what LAPACK reads: one triangle and the real part of the diagonal"""
        if is_hermitian(M):
            return M
        n = M.shape[0]
        o = M.plain().copy()
        for i in range(n):
            o[i, i] = SymNum(o[i, i].p.real_part(), M.lk)
            for j in range(i):
                if UPLO.upper() == "L":
                    o[j, i] = o[i, j].conjugate()
                else:
                    o[i, j] = o[j, i].conjugate()
        return SymArray(o, M.lk)

    def eigvals(self, M):
        M = _sqm(M)
        ps = gen_eigs(M)
        k = M.lk
        if k == "f":
            if not all(p.is_real() for p in ps):
                k = "c"
                # numpy returns real eigenvalues when every imaginary part is zero
                im0 = band(*[rel("eq", p.imag_part()) for p in ps])
                if is_antihermitian(M):     # imaginary spectrum: real only if M = 0
                    t = ZERO
                    for x in M.plain().reshape(-1):
                        t = t + x.p * x.p
                    im0 = rel("eq", t.renorm())
                if im0.op == "const":
                    z = im0.a
                else:
                    z = bool(im0)
                if z:
                    k = "f"
                    ps = real_eigs(M, ps)
        return pack(ps, k)

    def eigh(self, M, UPLO="L"):
        M = _sqm(M)
        M = self._herm(M, UPLO)
        n = M.shape[0]
        if is_diag(M):
            ps = [M.plain()[i, i].p.real_part() for i in range(n)]
            xs = [SymNum(p, "f") for p in ps]
            idx = [int(i) for i in self.NP.argsort(asarr(xs, "f")).plain()]
            V = self.NP.zeros((n, n), dtype=S.DT[M.lk])
            for q, i in enumerate(idx):
                V[i, q] = 1
            return EighResult(pack([ps[i] for i in idx], "f"), V)
        w = pack(sort_network(herm_eigs(M)), "f")
        return EighResult(w, self._eigvecs(M, w))

    def _eigvecs(self, M, w):
        n = M.shape[0]
        kind = "cplx" if M.lk == "c" else "real"
        ck = ("eigvec", mkey(M))
        ats = T.cache.get(ck)
        if ats is None:
            ats = fresh("evec", n * n, kind)
            T.cache[ck] = ats
            V = SymArray(np.array([SymNum(Poly.atom(a.id), M.lk) for a in ats], dtype=object).reshape(n, n), M.lk)
            ax = []
            W = self.NP.diag(w)
            for D in (S.matmul(dag(V), V) - self.NP.eye(n), S.matmul(M, V) - S.matmul(V, W)):
                for x in asarr(D).plain().reshape(-1):
                    for y in S.split(x.p):
                        if y.t:
                            ax.append(SymBool("eq", y))
            reals = []
            for a in ats:
                reals += [T.atoms[a.re], T.atoms[a.im]] if kind == "cplx" else [a]
            for a in reals:
                a.axioms = ax

            def f(env):
                v = np.linalg.eigh(eval_matrix(M, env))[1].reshape(-1)
                return [float(y) for x in v for y in ((x.real, x.imag) if kind == "cplx" else (np.real(x),))]
            set_group_eval(reals, f)
            mark_unitary(V)
        return SymArray(np.array([SymNum(Poly.atom(a.id), M.lk) for a in ats], dtype=object).reshape(n, n), M.lk)

    def eig(self, M):
        M = _sqm(M)
        if is_hermitian(M):
            return self.eigh(M)
        if is_diag(M):
            return EighResult(self.eigvals(M), self.NP.eye(M.shape[0]))
        raise SymUnsupported("eig")

    def matrix_rank(self, M, *a, **k):
        from .shim_np import concrete
        c = concrete(M)
        if c is None:
            # some number between 0 and the smaller dimension: nothing else is promised
            M = asarr(M)
            if M.ndim != 2 or a or k:
                raise SymUnsupported("matrix_rank")
            ck = ("rank", mkey(M))
            if ck not in T.cache:
                at, = fresh("rank", 1, nonneg=True)
                p = Poly.atom(at.id)
                at.axioms = [SymBool("le", -p), SymBool("le", p - Poly.const(min(M.shape)))]
                at.evalf = lambda env: float(np.linalg.matrix_rank(eval_matrix(M, env)))
                T.cache[ck] = at
            return SymNum(Poly.atom(T.cache[ck].id), "i")
        return int(np.linalg.matrix_rank(c))

    def svd(self, M, full_matrices=True, compute_uv=True, **k):
        if not compute_uv:
            return self._svals(asarr(M))
        raise SymUnsupported("svd")

    def cond(self, M, p=None):
        raise SymUnsupported("cond")

    def cholesky(self, M, **k):
        M = _sqm(M)
        n = M.shape[0]
        L = self.NP.zeros((n, n), dtype=S.DT[M.lk])
        for j in range(n):
            s = M[j, j]
            for q in range(j):
                s = s - L[j, q] * num(L[j, q]).conjugate()
            L[j, j] = num(s).real.sqrt()
            for i in range(j + 1, n):
                s = M[i, j]
                for q in range(j):
                    s = s - L[i, q] * num(L[j, q]).conjugate()
                L[i, j] = s / L[j, j]
        return L

    def qr(self, M, mode="reduced"):
        """LAPACK's Householder algorithm over exact numbers"""
        NP = self.NP
        A = asarr(M)
        if A.lk in "bi":
            A = asarr(A, "f")
        m, n = A.shape
        k = min(m, n)
        ck = ("qr", mkey(A))
        if ck in T.cache:
            Q, R = T.cache[ck]
            return self._qrout(Q.copy(), R.copy(), k, mode)
        R = A.copy()
        Q = NP.eye(m, dtype=S.DT[A.lk])
        for c in range(k):
            x = [num(R[i, c]) for i in range(c, m)]
            alpha = x[0]
            xn2 = ZERO
            for v in x[1:]:
                xn2 = xn2 + v.p * v.p.conj()
            z = band(*[rel("eq", q) for v in x[1:] for q in S.split(v.p)], rel("eq", alpha.p.imag_part()))
            if z.a if z.op == "const" else bool(z):
                continue
            nrm = S.sqrt_poly((xn2 + alpha.p * alpha.p.conj()).real_part())
            re = alpha.p.real_part()
            neg = rel("lt", re)
            neg = neg.a if neg.op == "const" else bool(neg)
            beta = SymNum(nrm if neg else -nrm, "f")
            tau = (beta - alpha) / beta
            v = [num(1)] + [y / (alpha - beta) for y in x[1:]]
            V = NP.zeros((m, 1), dtype=S.DT[A.lk])
            for q, y in enumerate(v):
                V[c + q, 0] = y
            VV = S.matmul(V, dag(V))
            Hh = NP.eye(m, dtype=S.DT[A.lk]) - SymNum(tau.p, A.lk) * VV
            R = S.matmul(dag(Hh), R)
            Q = S.matmul(Q, Hh)
        if any(len(x.p.t) > 1 for x in Q.plain().reshape(-1)):
            # reflections are unitary, so is their product (also with column 0 negated)
            mark_unitary(Q)
            F = Q.copy()
            F[:, 0] = -F[:, 0]
            mark_unitary(F)
            G.used.add("qr")
        T.cache[ck] = (Q.copy(), R.copy())
        return self._qrout(Q, R, k, mode)

    def _qrout(self, Q, R, k, mode):
        if mode == "r":
            return R[:k, :]
        if mode == "complete":
            return QRResult(Q, R)
        return QRResult(Q[:, :k], R[:k, :])


class EighResult(tuple):
    def __new__(cls, w, v):
        return tuple.__new__(cls, (w, v))

    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


class QRResult(tuple):
    def __new__(cls, q, r):
        return tuple.__new__(cls, (q, r))

    Q = property(lambda s: s[0])
    R = property(lambda s: s[1])


# --------------------------------------------------------------------------
# scipy.linalg


def phase_poly(x):
    """exp(i x) for a real polynomial x, as a product of unit atoms (one per
    monomial, half-integer multiples share an atom)"""
    r = ONE
    for m, c in x.t.items():
        c = Fraction(c)
        if not m:
            r = r * _phase_const(c)
            continue
        if (c * 2).denominator == 1:
            base, e = (m, Fraction(1, 2)), int(c * 2)
        else:
            base, e = (m, abs(c)), 1 if c > 0 else -1
        a, new = S._aux(("phase", base), "ph", "cplx")
        if new:
            S.make_unit(a)
            arg = Poly({m: base[1]})
            T.atoms[a.re].evalf = lambda env, arg=arg: math.cos(S.eval_poly(arg, env).real)
            T.atoms[a.im].evalf = lambda env, arg=arg: math.sin(S.eval_poly(arg, env).real)
        u = Poly.atom(a.id if e > 0 else a.conj)
        r = r * (u ** abs(e))
    return r


def _phase_const(c):
    a, new = S._aux(("phasec", abs(c)), "phc", "cplx")
    if new:
        S.make_unit(a)
        v = float(abs(c))
        T.atoms[a.re].evalf = lambda env: math.cos(v)
        T.atoms[a.im].evalf = lambda env: math.sin(v)
        for q, w in ((a.re, math.cos(v)), (a.im, math.sin(v))):
            lo, hi = Fraction(w) - Fraction(1, 10 ** 12), Fraction(w) + Fraction(1, 10 ** 12)
            p = Poly.atom(q)
            T.atoms[q].axioms = T.atoms[q].axioms + [SymBool("le", Poly.const(lo) - p), SymBool("le", p - Poly.const(hi))]
    return Poly.atom(a.id if c > 0 else a.conj)


def expr_poly(x):
    """exp(x) for real x as a product of positive atoms per monomial"""
    r = ONE
    for m, c in x.t.items():
        c = Fraction(c)
        if m and (c * 2).denominator == 1:
            base, e = Poly({m: Fraction(1, 2)}), int(c * 2)
        else:
            base, e = Poly({m: abs(c)}), 1 if c > 0 else -1
        u = S.exp_poly(base)
        if e < 0:
            u = S.inv_poly(u)
        r = r * (u ** abs(e))
    return r


def expm_block(M):
    n = M.shape[0]
    pl = M.plain()
    if n == 1:
        p = pl[0, 0].p
        r = expr_poly(p.real_part())
        im = p.imag_part()
        if im.t:
            r = r * phase_poly(im)
        return [[r]]
    if n == 2:
        t = (pl[0, 0].p + pl[1, 1].p).scale(Fraction(1, 2))
        et = expr_poly(t.real_part())
        if t.imag_part().t:
            et = et * phase_poly(t.imag_part())
        d = (pl[0, 0].p - pl[1, 1].p).scale(Fraction(1, 2))
        q = d * d + pl[0, 1].p * pl[1, 0].p
        if is_hermitian(M) and q.t:
            S.nonneg_fact(q)                                # a sum of squares
        elif is_antihermitian(M) and q.t:
            S.nonneg_fact(-q)
        c, s = cosh_sinhc(q)
        return [[et * (c + s * d), et * (s * pl[0, 1].p)], [et * (s * pl[1, 0].p), et * (c - s * d)]]
    return None


def cosh_sinhc(q):
    """(cosh sqrt q, sinh(sqrt q)/sqrt q), entire functions of q"""
    if q.is_zero():
        return ONE, ONE
    if not q.is_real():
        qc = q.conj()
        if P.lead(q) < P.lead(qc) or (P.lead(q) == P.lead(qc) and str(q) < str(qc)):
            c, s = cosh_sinhc(qc)
            return c.conj(), s.conj()
        a, new = S._aux(("ch", q), "ch", "cplx")
        b, _ = S._aux(("sh", q), "sh", "cplx")
        if new:
            import cmath

            def f(env):
                w = cmath.sqrt(S.eval_poly(q, env))
                z, y = cmath.cosh(w), (cmath.sinh(w) / w if abs(w) > 1e-12 else 1.0)
                return [z.real, z.imag, complex(y).real, complex(y).imag]
            set_group_eval([T.atoms[i] for i in (a.re, a.im, b.re, b.im)], f)
            _pyth_rule(a.id, b.id, q)
            _pyth_rule(a.conj, b.conj, q.conj())
        return Poly.atom(a.id), Poly.atom(b.id)
    neg = S.syn_nonneg(-q)
    pos = S.syn_nonneg(q)
    a, new = S._aux(("ch", q), "cosn" if neg else "ch", pos=pos)
    b, _ = S._aux(("sh", q), "sinc" if neg else "sh", pos=pos)
    if new:
        import cmath

        def f(env):
            w = cmath.sqrt(S.eval_poly(q, env))
            z, y = cmath.cosh(w), (cmath.sinh(w) / w if abs(w) > 1e-12 else 1.0)
            return [z.real, complex(y).real]
        set_group_eval([a, b], f)
        x, y = Poly.atom(a.id), Poly.atom(b.id)
        ax = [SymBool("eq", x * x - q * y * y - ONE)]
        if pos:
            ax += [SymBool("le", ONE - x), SymBool("le", ONE - y)]
        if neg:
            ax += [SymBool("le", x - ONE), SymBool("le", y - ONE)]
        for z in (a, b):
            z.axioms = ax
        _pyth_rule(a.id, b.id, q)
    return Poly.atom(a.id), Poly.atom(b.id)


def _pyth_rule(c, s, q):
    """lead(q) * s^2 -> (c^2 - 1 - rest*s^2)/lc"""
    l = P.lead(q)
    lc = Fraction(q.t[l])
    rest = q - Poly({l: q.t[l]})
    ss = Poly({(s, s): 1})
    T.add_rule(l + (s, s), (Poly({(c, c): 1}) - ONE - rest * ss).scale(1 / lc))


def opaque_hermitian(prefix, key, n, lk, positive, f):
    ck = (prefix, key)
    if ck not in T.cache:
        E = np.empty((n, n), dtype=object)
        base = len(T.cache)
        reals = []
        for i in range(n):
            a, _ = S._aux((prefix, base, i, i), "%s%d_%d%d" % (prefix, base, i, i), "real", pos=positive)
            if positive:
                a.axioms = [SymBool("lt", -Poly.atom(a.id))]
            E[i, i] = SymNum(Poly.atom(a.id), lk)
            reals.append((a, i, i, 0))
            for j in range(i):
                if lk == "c":
                    b, _ = S._aux((prefix, base, i, j), "%s%d_%d%d" % (prefix, base, i, j), "cplx")
                    reals += [(T.atoms[b.re], i, j, 0), (T.atoms[b.im], i, j, 1)]
                    E[i, j] = SymNum(Poly.atom(b.id), lk)
                    E[j, i] = SymNum(Poly.atom(b.conj), lk)
                else:
                    b, _ = S._aux((prefix, base, i, j), "%s%d_%d%d" % (prefix, base, i, j), "real")
                    reals.append((b, i, j, 0))
                    E[i, j] = E[j, i] = SymNum(Poly.atom(b.id), lk)

        def g(env):
            V = f(env)
            return [float(V[i, j].imag if im else V[i, j].real) for _, i, j, im in reals]
        set_group_eval([r[0] for r in reals], g)
        T.cache[ck] = SymArray(E, lk)
        if positive:
            mark_psd(T.cache[ck])
    return T.cache[ck].copy()


def opaque_unitary(prefix, key, n, lk, f):
    ck = (prefix, key)
    if ck not in T.cache:
        kind = "cplx" if lk == "c" else "real"
        ats = fresh(prefix, n * n, kind)
        U = SymArray(np.array([SymNum(Poly.atom(a.id), lk) for a in ats], dtype=object).reshape(n, n), lk)
        reals = []
        for a in ats:
            reals += [T.atoms[a.re], T.atoms[a.im]] if kind == "cplx" else [a]

        def g(env):
            V = f(env).reshape(-1)
            return [float(y) for x in V for y in ((x.real, x.imag) if kind == "cplx" else (np.real(x),))]
        set_group_eval(reals, g)
        for j in range(n):       # orthonormal columns: |last|^2 -> 1 - rest
            col = [U.plain()[i, j].p for i in range(n)]
            rest = ONE
            for p in col[:-1]:
                rest = rest - p * p.conj()
            z = U.plain()[n - 1, j].p
            (m,) = (z * z.conj()).t
            T.add_rule(m, rest)
        mark_unitary(U)
        T.cache[ck] = U
    return T.cache[ck].copy()


def expm_multiple(M):
    """exp(k L) = exp(L)^k for an integer k and an L whose exponential is known"""
    nz = [ix for ix in np.ndindex(M.shape) if M.plain()[ix].p.t]
    if not nz:
        return None
    for L0, U in G.logs:
        if L0.shape != M.shape:
            continue
        a, b = M.plain()[nz[0]].p, L0.plain()[nz[0]].p
        m = P.lead(a)
        if m not in b.t:
            continue
        k = Fraction(a.t[m]) / Fraction(b.t[m])
        if k.denominator != 1 or not 1 <= abs(k) <= 4:
            continue
        k = int(k)
        if any((x.p - y.p.scale(k)).t for x, y in zip(M.plain().reshape(-1), L0.plain().reshape(-1))):
            continue
        if k < 0:
            if not is_unitary(U):
                continue
            U = U.conj().T
        R = U
        for _ in range(abs(k) - 1):
            R = R @ U
        return R
    return None


def expm(A):
    M = _sqm(A, "expected a square matrix")
    n = M.shape[0]
    key = mkey(M)
    if key in G.expof:
        return G.expof[key].copy()
    R = expm_multiple(M)
    if R is not None:
        G.expof[key] = R
        return R.copy()
    bl = blocks(M)
    o = np.empty((n, n), dtype=object)
    z = SymNum(ZERO, M.lk)
    for ix in np.ndindex(n, n):
        o[ix] = z
    herm, anti = is_hermitian(M), is_antihermitian(M)
    for b in bl:
        sm = sub(M, b)
        kk = mkey(sm)
        if kk in G.expof:
            E = [[x.p for x in r] for r in G.expof[kk].plain()]
        else:
            E = expm_block(sm)
        if E is None:
            import scipy.linalg as sl
            f = lambda env, sm=sm: sl.expm(eval_matrix(sm, env))
            if is_hermitian(sm):
                X = opaque_hermitian("E", kk, len(b), sm.lk, True, f)
            elif is_antihermitian(sm):
                X = opaque_unitary("U", kk, len(b), sm.lk, f)
            else:
                ats = fresh("X", len(b) ** 2, "cplx" if sm.lk == "c" else "real")
                X = SymArray(np.array([SymNum(Poly.atom(a.id), sm.lk) for a in ats], dtype=object).reshape(len(b), -1), sm.lk)
                reals = []
                for a in ats:
                    reals += [T.atoms[a.re], T.atoms[a.im]] if sm.lk == "c" else [a]
                set_group_eval(reals, lambda env, f=f, c=sm.lk == "c": [float(y) for x in f(env).reshape(-1) for y in ((x.real, x.imag) if c else (x.real,))])
            G.expof[kk] = X
            E = [[x.p for x in r] for r in X.plain()]
        for i, bi in enumerate(b):
            for j, bj in enumerate(b):
                o[bi, bj] = SymNum(E[i][j], M.lk)
    R = SymArray(o, M.lk)
    if herm:
        mark_psd(R)
    if anti:
        mark_unitary(R)
    G.expof[key] = R
    return R.copy()


def logm(A, disp=True):
    M = _sqm(A, "expected a square matrix")
    n = M.shape[0]
    key = mkey(M)
    if key in G.log:
        G.used.add("logm")
        return G.log[key].copy()
    o = np.empty((n, n), dtype=object)
    z = SymNum(ZERO, "c")
    for ix in np.ndindex(n, n):
        o[ix] = z
    bl = blocks(M)
    real = M.lk != "c"
    for b in bl:
        sm = sub(M, b)
        if len(b) == 1:
            L = [[_log1(sm.plain()[0, 0].p)]]
        elif mkey(sm) in G.log:
            L = [[x.p for x in r] for r in G.log[mkey(sm)].plain()]
        elif _so_log(sm) is not None:
            L = _so_log(sm)
        elif is_unitary(sm):
            L = _log_unitary(sm)
        else:
            raise SymUnsupported("logm of a general matrix")
        for i, bi in enumerate(b):
            for j, bj in enumerate(b):
                o[bi, bj] = SymNum(L[i][j], "c")
    R = SymArray(o, "c")
    if real and all(x.p.is_real() for x in o.reshape(-1)):
        R = SymArray(np.array([[SymNum(x.p, "f") for x in r] for r in o], dtype=object), "f")
    G.log[key] = R
    G.expof[mkey(R)] = M
    G.logs.append((R, M))
    return R.copy()


def _log1(p):
    if p.is_real():
        if not p.is_const() and H.engine is not None:
            if H.engine.proves_zero(p - ONE):
                return ZERO
            if H.engine.proves_zero(p + ONE):
                p = -ONE
            elif bool(rel("lt", p)):
                return S.log_poly(-p) + P.IMAG() * Poly.atom(S.const_atom("pi", math.pi).id)
        if p.is_const() and p.const_value() < 0:
            return S.log_poly(-p) + P.IMAG() * Poly.atom(S.const_atom("pi", math.pi).id)
        return S.log_poly(p)
    if (p * p.conj()) == ONE or H.engine is not None and H.engine.proves_zero(p * p.conj() - ONE):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            th = T.cache.get(("angle", m))
            if th is not None and c == 1:
                return P.IMAG() * th
            thn = T.cache.get(("angle", tuple(sorted(T.atoms[a].conj if a != T.I else a for a in m))))
            if thn is not None and c == 1:
                return P.IMAG() * (-thn)
        a, new = S._aux(("arg", p), "arg")
        if new:
            import cmath
            a.evalf = lambda env, p=p: cmath.phase(S.eval_poly(p, env))
            # exp(i*arg) = p : the half-angle atom squares to p
            v, _ = S._aux(("phase", ((a.id,), Fraction(1, 2))), "ph", "cplx")
            S.make_unit(v)
            T.atoms[v.re].evalf = lambda env, p=p: math.cos(cmath.phase(S.eval_poly(p, env)) / 2)
            T.atoms[v.im].evalf = lambda env, p=p: math.sin(cmath.phase(S.eval_poly(p, env)) / 2)
            T.add_rule((v.id, v.id), p)
            T.add_rule((v.conj, v.conj), p.conj())
        return P.IMAG() * Poly.atom(a.id)
    raise SymUnsupported("log of a complex number")


def _so_log(M):
    """M is a drawn rotation exp(X), or its image under a fixed change of basis
    B (entrywise verified): the principal logarithm is the image of X"""
    from .shim_random import SO_LOGS
    n = M.shape[0]
    for O, X in SO_LOGS:
        if O.shape[0] != n:
            continue
        for B in _bases(n):
            for cand in ((B,) if B is None else (B, S.asarr(B.conj().T))):
                conj = (lambda Y: Y) if cand is None else (lambda Y: S.matmul(S.matmul(S.asarr(cand.conj().T), Y), cand))
                C = conj(O)
                for sgn, Y in ((1, C), (-1, S.asarr(C.conj().T))):
                    if _meq(Y, M):
                        R = conj(X)
                        return [[x.p.scale(sgn) for x in r] for r in R.plain()]
    return None


def _bases(n):
    yield None
    if n % 2 == 0:
        h = n // 2
        r = S.sqrt_poly(Poly.const(Fraction(1, 2)))
        z, i = ZERO, P.IMAG()
        rows = [[z] * n for _ in range(n)]
        for k in range(h):
            rows[k][k] = rows[k][k + h] = r
            rows[k + h][k] = i * r
            rows[k + h][k + h] = -(i * r)
        yield S.SymArray(np.array([[SymNum(x, "c") for x in q] for q in rows], dtype=object), "c")


def _meq(A, B):
    return all(x.p == y.p for x, y in zip(A.plain().reshape(-1), B.plain().reshape(-1)))


def _log_unitary(M):
    """principal logarithm of a unitary block: anti-Hermitian, with the real /
    particle-hole structure that a primary matrix function preserves"""
    import scipy.linalg as sl
    n = M.shape[0]
    pl = M.plain()
    f = lambda env: sl.logm(eval_matrix(M, env))
    real = False  # an eigenvalue -1 makes the logarithm of a real matrix complex
    if M.lk != "c":
        raise SymUnsupported("logm of a real orthogonal matrix")
    h = n // 2
    ph = n % 2 == 0 and all(pl[(i + h) % n, (j + h) % n].p == pl[i, j].p.conj() for i in range(n) for j in range(n))
    L = [[ZERO] * n for _ in range(n)]
    base = len(T.cache)
    reals = []

    def newreal(i, j, im):
        a, _ = S._aux(("Lg", base, i, j, im), "L%d_%d%d%s" % (base, i, j, "i" if im else ""))
        reals.append((a, i, j, im))
        return Poly.atom(a.id)

    def newc(i, j):
        c, _ = S._aux(("Lgc", base, i, j), "L%d_%d%d" % (base, i, j), "cplx")
        reals.append((T.atoms[c.re], i, j, False))
        reals.append((T.atoms[c.im], i, j, True))
        return Poly.atom(c.id)
    I = P.IMAG()
    if real:
        for i in range(n):
            for j in range(i):
                x = newreal(i, j, False)
                L[i][j], L[j][i] = x, -x
    elif ph:
        for i in range(h):
            x = newreal(i, i, True)
            L[i][i], L[i + h][i + h] = I * x, -(I * x)
            for j in range(i):
                c = newc(i, j)
                L[i][j], L[j][i] = c, -c.conj()
                L[i + h][j + h], L[j + h][i + h] = c.conj(), -c
                d = newc(i, j + h)
                L[i][j + h], L[j][i + h] = d, -d
                L[i + h][j], L[j + h][i] = d.conj(), -d.conj()
    else:
        for i in range(n):
            L[i][i] = I * newreal(i, i, True)
            for j in range(i):
                c = newc(i, j)
                L[i][j], L[j][i] = c, -c.conj()

    def g(env):
        V = f(env)
        return [float(V[i, j].imag if im else V[i, j].real) for _, i, j, im in reals]
    set_group_eval([r[0] for r in reals], g)
    from . import shim_random as R_
    if R_.DRAW_GAP is not None:
        # see Ctx.draw_gap: the generator of a drawn rotation has no accidental zero entry
        g2 = Poly.const(Fraction(1, 10 ** 12))
        done = set()
        for _, i, j, im in reals:
            if (i, j) not in done:
                done.add((i, j))
                p = L[i][j]
                for a, i2, j2, _2 in reals:
                    if (i2, j2) == (i, j):
                        a.axioms = list(a.axioms or []) + [SymBool("lt", g2 - p * p.conj())]
    return L


def schur(a, output="real", lwork=None, overwrite_a=False, sort=None, check_finite=True):
    """real Schur form of a real (anti)symmetric matrix"""
    M = _sqm(a, "expected square matrix")
    n = M.shape[0]
    NP = _np()
    key = mkey(M)
    if M.lk == "c":
        if not all(x.p.is_real() for x in M.plain().reshape(-1)):
            raise SymUnsupported("complex Schur form")
    res = None
    for M0, L0, O0 in G.schur.values():
        c = ratio(M, M0)
        if c is not None:
            G.used.add("schur")
            res = (S.asarr(L0 * SymNum(Poly.const(c), "i")) if c != 1 else L0.copy(), O0.copy())
            break
    if res is None:
        bl = blocks(M)
        if all(len(b) == 1 for b in bl):
            res = (M.copy(), NP.eye(n, dtype=S.DT[M.lk]))
        elif all(len(b) <= 2 for b in bl) and _antisym(M):
            order = sum(bl, [])
            Z = NP.zeros((n, n), dtype=S.DT[M.lk])
            for q, i in enumerate(order):
                Z[i, q] = 1
            res = (S.matmul(S.matmul(Z.T, M), Z), Z)
            G.used.add("schur")
    if res is None:
        if n > 2 and n % 2 == 0 and _antisym(M):
            res = _schur_antisym(M)
            G.used.add("schur")
        else:
            raise SymUnsupported("Schur form of a general matrix")
    res, sdim = _order_schur(res, sort)
    if sort is not None:
        return res[0], res[1], sdim
    return res


def _schur_antisym(M):
    """any real Schur decomposition of a real antisymmetric matrix: M = O Lc O^T with
    Lc the direct sum of [[0,-e],[e,0]]; the e^2 are tied to M by their power sums"""
    import scipy.linalg as sl
    n = M.shape[0]
    h = n // 2
    NP = _np()
    ck = ("schur", mkey(M))
    if ck in T.cache:
        return tuple(x.copy() for x in T.cache[ck])
    es = fresh("sch", h)
    os_ = fresh("scho", n * n)
    e = [Poly.atom(a.id) for a in es]
    # power sums of e^2 = half the traces of (M^T M)^k, then elementary symmetric ones
    MM = S.matmul(M.T, M)
    p, W = [], MM
    for k in range(1, h + 1):
        t = ZERO
        for i in range(n):
            t = t + W.plain()[i, i].p
        p.append(t.scale(Fraction(1, 2)).renorm())
        if k < h:
            W = S.matmul(W, MM)
    el = [ONE]
    for k in range(1, h + 1):
        t = ZERO
        for i in range(1, k + 1):
            t = t + (el[k - i] * p[i - 1]).scale((-1) ** (i - 1))
        el.append(t.scale(Fraction(1, k)).renorm())

    def hsym(d, xs):
        if d == 0:
            return ONE
        if not xs:
            return ZERO
        return hsym(d, xs[:-1]) + xs[-1] * hsym(d - 1, xs)
    sq = [x * x for x in e]
    # triangular system: h_{h-j}(x_0..x_j) - s1 h_{h-j-1} + ... = 0, leading term x_j^(h-j)
    for j in range(h):
        d = h - j
        t = ZERO
        for k in range(d + 1):
            t = t + (hsym(d - k, sq[:j + 1]) * el[k]).scale((-1) ** k)
        T.add_rule((es[j].id,) * (2 * d), Poly({(es[j].id,) * (2 * d): 1}) - t)
    O = [[Poly.atom(os_[i * n + j].id) for j in range(n)] for i in range(n)]
    ax = [SymBool("eq", S.split(sum(sq[1:], sq[0]) - p[0])[0])]
    oax = []
    for i in range(n):
        for j in range(i + 1):
            t = ZERO
            for k in range(n):
                t = t + O[k][i] * O[k][j]
            oax.append(SymBool("eq", t - (ONE if i == j else ZERO)))
    if G.gap is not None:
        # |e| > gap: the harness assumed the weights bounded away from zero
        ax += [SymBool("lt", Poly.const(G.gap * G.gap) - x) for x in sq]
    for a in es:
        a.axioms = ax
    for a in os_:
        a.axioms = oax

    def f(env):
        X = eval_matrix(M, env).real
        L0, O0 = sl.schur((X - X.T) / 2)
        two, one, i = [], [], 0
        while i < n:
            if i + 1 < n and abs(L0[i, i + 1]) > 1e-12:
                two.append((i, i + 1))
                i += 2
            else:
                one.append(i)
                i += 1
        order = [i for b in two for i in b] + one
        vals = [float(L0[b[1], b[0]]) for b in two] + [0.0] * (h - len(two))
        return vals + [float(x) for x in O0[:, order].reshape(-1)]
    set_group_eval(es + os_, f)
    Lc = [[ZERO] * n for _ in range(n)]
    for k in range(h):
        Lc[2 * k][2 * k + 1], Lc[2 * k + 1][2 * k] = -e[k], e[k]
    r = tuple(SymArray(np.array([[SymNum(x, "f") for x in row] for row in X], dtype=object), "f") for X in (Lc, O))
    T.cache[ck] = r
    return tuple(x.copy() for x in r)


def _order_schur(res, sort):
    """the order LAPACK leaves the blocks in: the selected ones first, otherwise
    unspecified (here: one zero mode in front of everything else)"""
    L0, O0 = res
    if not _antisym(L0):
        return res, L0.shape[0]
    n = L0.shape[0]
    bl, i = [], 0
    while i < n:
        if i + 1 < n and L0.plain()[i, i + 1].p.t:
            bl.append([i, i + 1])
            i += 2
        else:
            bl.append([i])
            i += 1
    ones = [b for b in bl if len(b) == 1]
    order = ones[:1] + [b for b in bl if len(b) == 2] + ones[1:]
    sdim = n
    if sort is not None:
        if callable(sort):
            zero = num(0.0)

            def pick(b):
                im = num(L0.plain()[b[0], b[1]]) if len(b) == 2 else zero
                im2 = num(L0.plain()[b[1], b[0]]) if len(b) == 2 else zero
                return bool(sort(zero, im)) or bool(sort(zero, im2))
        elif sort == "iuc":
            raise SymUnsupported("schur sort=iuc")
        else:
            sel = {"lhp": False, "rhp": False, "ouc": False}
            if sort not in sel:
                raise ValueError("sort parameter must be None, a callable, or one of ('lhp','rhp','iuc','ouc')")
            raise SymUnsupported("schur sort=" + sort)
        flags = [pick(b) for b in order]
        sdim = sum(len(b) for b, f in zip(order, flags) if f)
        order = [b for b, f in zip(order, flags) if f] + [b for b, f in zip(order, flags) if not f]
    if order != bl:
        p = sum(order, [])
        L0, O0 = L0[p][:, p], O0[:, p]
    return (L0, O0), sdim


def ratio(M, M0):
    """the constant c with M = c M0, if there is one"""
    if M.shape != M0.shape:
        return None
    c = None
    for x, y in zip(M.plain().reshape(-1), M0.plain().reshape(-1)):
        p, q = x.p, y.p
        if p == q and c in (None, 1):
            if p.t:
                c = 1
            continue
        p, q = p.renorm(), q.renorm()
        if not q.t:
            if p.t:
                return None
            continue
        if c is None:
            m = P.lead(q)
            if m not in p.t:
                return None
            c = Fraction(p.t[m]) / Fraction(q.t[m])
        if not (p - q.scale(c)).is_zero():
            return None
    return 1 if c is None else c


def _antisym(M):
    pl = M.plain()
    return all(pl[i, j].p == -pl[j, i].p for i in range(M.shape[0]) for j in range(M.shape[0]))


def _np():
    from .shim_np import NP
    return NP


def sqrtm(A):
    M = _sqm(A)
    if is_diag(M):
        NP = _np()
        return NP.diag(NP.sqrt(NP.diag(M)))
    raise SymUnsupported("sqrtm")


def block_diag(*ms):
    NP = _np()
    ms = [asarr(m) for m in ms]
    ms = [m if m.ndim == 2 else m.reshape(1, -1) for m in ms]
    k = "b"
    for m in ms:
        k = kmax(k, m.lk)
    R = NP.zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), dtype=S.DT[k])
    r = c = 0
    for m in ms:
        R[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    return R
