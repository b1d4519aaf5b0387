"""Random sources as nondeterministic stubs.

Every draw returns a fresh unknown constrained only by its documented range.
The unknowns are named after (generator state, draw counter), so two runs that
seed the same value and make the same draws see the same unknowns, and nothing
else is shared: reproducibility becomes an ordinary equality.
"""
import itertools
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, T, ZERO, ONE
from . import sym as S
from .sym import SymNum, SymArray, SymBool, SymUnsupported, asarr, num, H


def _shape(size):
    from .shim_np import _idx
    if size is None:
        return None
    size = _idx(size)
    return size if isinstance(size, tuple) else (int(size),)

FIXED_PICKS = 0     # harness setting: so many picks of a choice are fixed


class Stream:
    """one generator state"""

    def __init__(self, NP, key):
        self.NP = NP
        self.key = key
        self.ctr = 0

    # ---- naming
    def _name(self, what):
        k = ("rngkey", self.key)
        sid = T.cache.get(k)
        env = getattr(H.engine, "env", None)
        if sid is None and env is not None:
            # concrete run: the stream a symbolic seed stood for
            v = _evkey(self.key, env)
            for x, i in T.cache.items():
                if isinstance(x, tuple) and x[0] == "rngkey" and _evkey(x[1], env) == v:
                    sid = T.cache[k] = i
                    break
        if sid is None:
            sid = T.cache[k] = len({i for x, i in T.cache.items() if isinstance(x, tuple) and x[0] == "rngkey"})
        self.ctr += 1
        return "rnd%d_%d_%s" % (sid, self.ctr, what)

    def _real(self, what, size, pos=False, nonneg=False, axioms=None, kind="real", lk="f"):
        shp = _shape(size)
        base = self._name(what)
        if shp is None:
            return SymNum(self._atom(base, pos, nonneg, axioms, kind), lk)
        o = np.empty(shp, dtype=object)
        for ix in np.ndindex(shp):
            o[ix] = SymNum(self._atom(base + "".join("_%d" % i for i in ix), pos, nonneg, axioms, kind), lk)
        return SymArray(o, lk)

    def _atom(self, name, pos=False, nonneg=False, axioms=None, kind="real"):
        a = T.real(name, nonneg=nonneg, pos=pos, kind=kind)
        p = Poly.atom(a.id)
        if not a.axioms:
            if pos:
                a.axioms = [SymBool("lt", -p)]
            elif nonneg:
                a.axioms = [SymBool("le", -p)]
            if axioms:
                a.axioms = a.axioms + axioms(p)
        a.meta = a.meta or ("draw",)
        return p

    # ---- draws
    def _normal(self, size):
        r = self._real("n", size)
        if DRAW_GAP is not None:
            ps = [x.p for x in (r.plain().reshape(-1) if isinstance(r, SymArray) else [r])]
            if isinstance(r, SymArray) and len(r.shape) == 2 and r.shape[0] == r.shape[1] > 1:
                n = r.shape[0]
                for i in range(n):
                    for j in range(i):
                        a, b = ps[i * n + j], ps[j * n + i]
                        ps += [a + b, a - b]
            away(ps)
        return r

    def randn(self, *shape):
        return self._normal(shape or None)

    def standard_normal(self, size=None, **k):
        return self._normal(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self._normal(size)
        return loc + scale * r

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape or None)

    def random(self, size=None, **k):
        return self.uniform(0.0, 1.0, size)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._real("u", size, nonneg=True, axioms=lambda p: [SymBool("lt", p - ONE)])
        if not isinstance(low, SymNum) and low == 0 and not isinstance(high, SymNum) and high == 1:
            return u
        return low + (high - low) * u

    def exponential(self, scale=1.0, size=None):
        return scale * self._real("e", size, pos=True)

    standard_exponential = lambda self, size=None: self._real("e", size, pos=True)

    def gamma(self, shape, scale=1.0, size=None):
        return scale * self._real("g", size, pos=True)

    def dirichlet(self, alpha, size=None):
        if size is not None:
            raise SymUnsupported("dirichlet size")
        n = len(alpha)
        base = self._name("d")
        return SymArray(np.array([SymNum(p, "f") for p in simplex_atoms(base, n)], dtype=object), "f")

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._ints(low, high, size)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        return self._ints(low, high + 1 if endpoint else high, size)

    def _ints(self, low, high, size):
        if bool(num(high) <= num(low)):
            raise ValueError("low >= high")
        lo, hi = num(low).p, num(high).p
        return self._real("i", size, kind="int", lk="i",
                          axioms=lambda p: [SymBool("le", lo - p), SymBool("le", p - hi + ONE)])

    def binomial(self, n, p, size=None):
        return self._ints(0, num(n) + 1, size)

    def choice(self, a, size=None, replace=True, p=None, **k):
        if isinstance(a, (int, np.integer, SymNum)):
            n = int(a)
            pool = None
        else:
            pool = a if isinstance(a, np.ndarray) else self.NP.asarray(a)
            n = len(pool)
        if n <= 0 and size != 0:
            raise ValueError("a must be greater than 0 unless no samples are taken")
        shp = _shape(size)
        cnt = 1 if shp is None else int(np.prod(shp))
        if not replace and cnt > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        base = self._name("c")
        out = []
        for q in range(cnt):
            x = SymNum(self._atom("%s_%d" % (base, q), kind="int", axioms=lambda p: [SymBool("le", -p), SymBool("le", p - Poly.const(n - 1))]), "i")
            if not replace:
                for y in out:
                    H.engine.assume(S.bnot(S.rel("eq", x.p - num(y).p)))
            if q < FIXED_PICKS:
                H.engine.assume(S.rel("eq", x.p - Poly.const(q if not replace else n // 2)))
            out.append(int(x))           # concretised: one path per value
        idx = np.array(out, dtype=int).reshape(shp if shp is not None else ())
        if pool is None:
            return int(idx) if shp is None else asarr(idx)
        return pool[idx] if shp is not None else pool[int(idx)]

    def permutation(self, x):
        if isinstance(x, (int, np.integer, SymNum)):
            return self.choice(int(x), size=int(x), replace=False)
        x = self.NP.asarray(x)
        idx = self.choice(len(x), size=len(x), replace=False)
        return x[idx]

    def shuffle(self, x):
        p = self.permutation(len(x))
        idx = [int(i) for i in p]
        if isinstance(x, np.ndarray):
            x[...] = x.copy()[np.array(idx)]
        else:
            x[:] = [x[i] for i in idx]

    def get_state(self, *a, **k):
        return (self.key, self.ctr)

    def set_state(self, st):
        self.key, self.ctr = st

    # Mersenne-twister style seeding
    def seed(self, s=None):
        self._seed(s)

    def _seed(self, s):
        if s is None:
            self.key = ("entropy", _fresh_id())
        else:
            if not isinstance(s, (int, np.integer, SymNum)) or isinstance(s, bool):
                s = self.NP.asarray(s)
                self.key = ("seedarr", tuple(num(v).p for v in s.reshape(-1).plain()))
            else:
                p = num(s)
                if p.k not in "bi":
                    raise TypeError("Cannot cast scalar from dtype('float64') to dtype('int64') according to the rule 'safe'")
                if bool(p < 0):
                    raise ValueError("Seed must be between 0 and 2**32 - 1")
                self.key = ("seed", p.p)
        self.ctr = 0


DRAW_GAP = None


def away(ps):
    """assume |p| > DRAW_GAP for every p"""
    if DRAW_GAP is None:
        return
    for p in ps:
        H.engine.assume(SymBool("lt", Poly.const(DRAW_GAP * DRAW_GAP) - p * p))


def _evkey(k, env):
    if isinstance(k, tuple):
        return tuple(_evkey(x, env) for x in k)
    if isinstance(k, Poly):
        try:
            return round(complex(S.eval_poly(k, env)).real, 6)
        except Exception:
            return None
    return k


def _fresh_id():
    k = "entropy-counter"
    T.cache[k] = T.cache.get(k, 0) + 1
    return T.cache[k]


class GeneratorShim(Stream):
    pass


class RandomShim(Stream):
    """numpy.random: module-level functions share one global state"""

    def __init__(self, NP):
        Stream.__init__(self, NP, ("global", 0))

    def reset(self):
        self.key = ("global", 0)
        self.ctr = 0

    def default_rng(self, seed=None):
        if isinstance(seed, Stream):
            return seed
        g = GeneratorShim(self.NP, None)
        g._seed(seed)
        g.key = ("pcg",) + g.key
        return g

    def RandomState(self, seed=None):
        g = Stream(self.NP, None)
        g._seed(seed)
        return g

    @property
    def mtrand(self):
        return self

    def check(self, rs):
        """scipy's check_random_state"""
        if rs is None:
            return self
        if isinstance(rs, Stream):
            return rs
        return self.RandomState(rs)


def simplex_atoms(base, n):
    """n non-negative reals with sum 1 (the last one is 1 - the others)"""
    ps = [Poly.atom(T.real("%s_%d" % (base, i), nonneg=True).id) for i in range(n - 1)]
    last = ONE
    for p in ps:
        last = last - p
    ax = [SymBool("le", -p) for p in ps] + ([SymBool("le", -last)] if n > 1 else [])
    for p in ps:
        (m,) = p.t
        T.atoms[m[0]].axioms = ax
        T.atoms[m[0]].meta = ("simplex", base, n)
    S.nonneg_fact(last)
    return ps + [last]


# --------------------------------------------------------------------------
# Haar-distributed matrices: arbitrary elements of the group, parametrised


def unit_quaternion(base):
    """(q0,q1,q2,q3) with q0^2+q1^2+q2^2+q3^2 = 1"""
    a = [T.real("%s_q%d" % (base, i)) for i in range(4)]
    ps = [Poly.atom(x.id) for x in a]
    top = max(a, key=lambda x: x.id)
    if not a[0].axioms:
        rest = ONE
        for x in a:
            if x is not top:
                rest = rest - Poly({(x.id, x.id): 1})
        T.add_rule((top.id, top.id), rest)
        ax = [SymBool("eq", Poly({(x.id, x.id): 1 for x in a}) - ONE)]
        for x in a:
            x.axioms = ax
            x.meta = ("quat", base)
    return ps


def left_q(q):
    a, b, c, d = q
    return [[a, -b, -c, -d], [b, a, -d, c], [c, d, a, -b], [d, -c, b, a]]


def right_q(q):
    a, b, c, d = q
    return [[a, -b, -c, -d], [b, a, d, -c], [c, -d, a, b], [d, c, -b, a]]


def mat(rows, k):
    return SymArray(np.array([[SymNum(x, k) for x in r] for r in rows], dtype=object), k)


def half_angle(base):
    """theta and the unit atom v = exp(i theta/2)"""
    th = T.real(base + "_th")
    v = T.cache.get(("phase", ((th.id,), Fraction(1, 2))))
    if v is None:
        import math
        v, _ = S._aux(("phase", ((th.id,), Fraction(1, 2))), "ph", "cplx")
        S.make_unit(v)
        nm = th.name
        T.atoms[v.re].evalf = lambda env: math.cos(S.eval_atom(th.id, env) / 2)
        T.atoms[v.im].evalf = lambda env: math.sin(S.eval_atom(th.id, env) / 2)
        lim = Poly.const(Fraction(314159, 100000))
        p = Poly.atom(th.id)
        th.axioms = [SymBool("le", p - lim), SymBool("le", -p - lim)]
        th.meta = ("angle",)
        T.cache[("angle", tuple(sorted((v.id, v.id))))] = p
    return Poly.atom(th.id), Poly.atom(v.id)


def so_matrix(base, n, improper=False):
    """arbitrary rotation of R^n (n = 1, 2, 4), with its logarithm registered"""
    from . import shim_linalg as L
    if n == 1:
        return mat([[ONE]], "f")
    if n == 2:
        th, v = half_angle(base)
        away([th])
        u = v * v
        c, s = u.real_part(), u.imag_part()
        R = mat([[c, -s], [s, c]], "f")
    elif n == 4:
        R, X = so4_exp(base)
        L.mark_unitary(R)
        return R
    elif n == 3:
        q = unit_quaternion(base)
        w, x, y, z = q
        two = Poly.const(2)
        R = mat([[ONE - two * (y * y + z * z), two * (x * y - z * w), two * (x * z + y * w)],
                 [two * (x * y + z * w), ONE - two * (x * x + z * z), two * (y * z - x * w)],
                 [two * (x * z - y * w), two * (y * z + x * w), ONE - two * (x * x + y * y)]], "f")
    else:
        # composition of plane rotations in adjacent planes (a sub-family)
        R = None
        for i in range(n - 1):
            th, v = half_angle("%s_g%d" % (base, i))
            u = v * v
            c, s = u.real_part(), u.imag_part()
            rows = [[ONE if a == b else ZERO for b in range(n)] for a in range(n)]
            rows[i][i] = rows[i + 1][i + 1] = c
            rows[i][i + 1], rows[i + 1][i] = -s, s
            g = mat(rows, "f")
            R = g if R is None else S.matmul(R, g)
    L.mark_unitary(R)
    return R


def so4_exp(base):
    """O = exp(X), X = left(x) + right(y) in so(4) = su(2)+su(2), |x|+|y| < pi:
    every rotation of R^4 (outside the cut locus of the logarithm).  Returns
    (O, X) and registers X as the principal logarithm of O and of its images
    under fixed unitary changes of basis (see `register_log`)."""
    from . import shim_linalg as L
    xs = [Poly.atom(T.real("%s_x%d" % (base, i)).id) for i in range(3)]
    ys = [Poly.atom(T.real("%s_y%d" % (base, i)).id) for i in range(3)]
    r1 = xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2]
    r2 = ys[0] * ys[0] + ys[1] * ys[1] + ys[2] * ys[2]
    two = Poly.const(Fraction(2))
    for vs, r in ((xs, r1), (ys, r2)):
        for p in vs:
            (m,) = p.t
            a = T.atoms[m[0]]
            a.axioms = [SymBool("le", r - two)]      # |x| <= 1.414.. < pi/2
            a.meta = ("ball", base)
    c1, s1 = L.cosh_sinhc(-r1)
    c2, s2 = L.cosh_sinhc(-r2)
    Lq = mat(left_q([c1] + [s1 * p for p in xs]), "f")
    Rq = mat(right_q([c2] + [s2 * p for p in ys]), "f")
    O = S.matmul(Lq, Rq)
    X = asarr(mat(left_q([ZERO] + xs), "f") + mat(right_q([ZERO] + ys), "f"))
    for a, b in zip(xs, ys):
        away([a + b, a - b, a, b])
    SO_LOGS.append((O, X))
    return O, X


SO_LOGS = []


def u_matrix(base, n):
    """arbitrary element of U(n), n = 1, 2, 4"""
    from . import shim_linalg as L
    if n == 1:
        return mat([[half_angle(base)[1]]], "c")
    if n == 2:
        q = unit_quaternion(base)
        I = P.IMAG()
        a, b = q[0] + I * q[3], q[2] + I * q[1]
        _, ph = half_angle(base)
        R = mat([[ph * a, ph * b], [-(ph * b.conj()), ph * a.conj()]], "c")
    elif n == 4:
        A = [u_matrix("%s_b%d" % (base, i), 2) for i in range(4)]
        from .shim_linalg import block_diag
        cs = []
        for i in range(2):
            th, v = half_angle("%s_cs%d" % (base, i))
            cs.append((v.real_part(), v.imag_part()))
        Z = ZERO
        M = mat([[cs[0][0], Z, -cs[0][1], Z], [Z, cs[1][0], Z, -cs[1][1]],
                 [cs[0][1], Z, cs[0][0], Z], [Z, cs[1][1], Z, cs[1][0]]], "c")
        R = S.matmul(S.matmul(block_diag(A[0], A[1]), M), block_diag(A[2], A[3]))
    else:
        return L.opaque_unitary("Uh", base, n, "c", lambda env: _haar(env, base, n))
    L.mark_unitary(R)
    return R


def _haar(env, base, n):
    import scipy.stats as st
    import zlib
    return st.unitary_group.rvs(n, random_state=zlib.crc32(base.encode()) % (2 ** 31))


class GroupShim:
    def __init__(self, NP, kind):
        self.NP = NP
        self.kind = kind

    def __call__(self, dim=None, seed=None):
        return FrozenGroup(self, dim, seed)

    def rvs(self, dim, size=1, random_state=None):
        dim = int(dim)
        if int(size) != 1:
            raise SymUnsupported("group rvs size")
        st = self.NP.random.check(random_state)
        base = st._name(self.kind)
        if self.kind == "su":
            return u_matrix(base, dim)
        if dim <= 1 and self.kind == "so":
            raise ValueError("Dimension of rotation must be specified, and must be a scalar greater than 1.")
        return group_matrix(self.kind, base, dim)


def group_matrix(kind, base, dim):
    """a draw from SO(dim), or from O(dim): a rotation and possibly a reflection"""
    R = so_matrix(base, dim)
    if kind != "o":
        return R
    s = T.real(base + "_det", kind="int")
    p = Poly.atom(s.id)
    if not s.axioms:
        s.axioms = [SymBool("le", -p), SymBool("le", p - ONE)]
        s.meta = s.meta or ("draw",)
    if bool(SymNum(p, "i") == 1):
        R = R.copy()
        R[0] = R[0] * -1
        from . import shim_linalg as L
        L.mark_unitary(R)
    return R


class FrozenGroup:
    def __init__(self, g, dim, seed):
        self.g, self.dim, self.seed = g, dim, seed

    def rvs(self, size=1, random_state=None):
        return self.g.rvs(self.dim, size, random_state if random_state is not None else self.seed)


# --------------------------------------------------------------------------
# the standard-library random module


class PyRandomShim(Stream):
    def __init__(self, NP):
        Stream.__init__(self, NP, ("py", 0))

    def reset(self):
        self.key = ("py", 0)
        self.ctr = 0

    def seed(self, a=None, version=2):
        if a is None:
            self.key = ("pyentropy", _fresh_id())
        else:
            self.key = ("pyseed", num(a).p if isinstance(a, (int, float, SymNum, np.integer)) else a)
        self.ctr = 0

    def randint(self, a, b):
        if bool(num(b) < num(a)):
            raise ValueError("empty range in randrange(%s, %s)" % (a, b))
        return self._ints(a, num(b) + 1, None)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            raise SymUnsupported("randrange step")
        if bool(num(stop) <= num(start)):
            raise ValueError("empty range for randrange()")
        return self._ints(start, stop, None)

    def random(self):
        return Stream.uniform(self, 0.0, 1.0)

    def choice(self, seq):
        return seq[int(self._ints(0, len(seq), None))]

    def sample(self, pop, k):
        idx = Stream.choice(self, len(pop), size=k, replace=False)
        return [pop[int(i)] for i in idx]

    def gauss(self, mu=0.0, sigma=1.0):
        return self.normal(mu, sigma)

    def Random(self, seed=None):
        g = PyRandomShim(self.NP)
        g.seed(seed)
        return g
