"""Symbolic scalars, booleans and arrays.

`SymArray` is a real ``numpy.ndarray`` subclass (object dtype) whose elements
are exact symbolic numbers and which carries the *logical* dtype the code under
test believes it has, so that dtype-dependent behaviour of numpy (dropping of
imaginary parts, truncation to int, refused in-place casts, result types) is
part of the encoding.
"""
import math
import cmath
import warnings
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, T, ZERO, ONE, NEG_I, IMAG, content, frac


class SymUnsupported(Exception):
    """The encoding does not cover this operation (never a verdict)."""


class NonFinite(Exception):
    """The path produces a non-finite number (division by zero, sqrt(<0), ...)."""


class _Hooks:
    engine = None


H = _Hooks()

KINDS = "bifc"
DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64),
      "c": np.dtype(np.complex128)}
_K = {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}


def kind_of_dtype(dt):
    dt = np.dtype(dt)
    if dt.kind in _K:
        return _K[dt.kind]
    if dt.kind == "O":
        return None
    raise SymUnsupported("dtype %s" % dt)


def kmax(a, b):
    return a if KINDS.index(a) >= KINDS.index(b) else b


# --------------------------------------------------------------------------
# numeric evaluation of polynomials


def eval_atom(a, env):
    at = T.atoms[a]
    v = env.get(at.name)
    if v is None:
        if at.evalf is None:
            raise KeyError(at.name)
        v = at.evalf(env)
        env[at.name] = v
    return v


def eval_poly(p, env):
    tot = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a in m:
            v = v * eval_atom(a, env)
        tot = tot + v
    return tot


# --------------------------------------------------------------------------
# splitting into real atoms


def split(p):
    """(re, im) of p as polynomials in real atoms only."""
    r = T.split_cache.get(p)
    if r is not None:
        return r
    re, im = {}, {}
    at = T.atoms
    I = T.I
    for m, c in p.t.items():
        if not any(at[a].kind in ("cplx", "I") for a in m):
            P._acc(re, m, c)
            continue
        cur = {((), 0): c}       # (mono, power of i) -> coeff
        for a in m:
            k = at[a].kind
            nxt = {}
            if a == I:
                for (mm, e), cc in cur.items():
                    nxt[(mm, (e + 1) & 3)] = nxt.get((mm, (e + 1) & 3), 0) + cc
            elif k == "cplx":
                sgn = 1 if at[a].conj > a else -1
                for (mm, e), cc in cur.items():
                    k1 = (tuple(sorted(mm + (at[a].re,))), e)
                    nxt[k1] = nxt.get(k1, 0) + cc
                    k2 = (tuple(sorted(mm + (at[a].im,))), (e + 1) & 3)
                    nxt[k2] = nxt.get(k2, 0) + sgn * cc
            else:
                for (mm, e), cc in cur.items():
                    k1 = (tuple(sorted(mm + (a,))), e)
                    nxt[k1] = nxt.get(k1, 0) + cc
            cur = nxt
        for (mm, e), cc in cur.items():
            if cc == 0:
                continue
            if e == 0:
                P._acc(re, mm, cc)
            elif e == 2:
                P._acc(re, mm, -cc)
            elif e == 1:
                P._acc(im, mm, cc)
            else:
                P._acc(im, mm, -cc)
    r = (Poly(re), Poly(im))
    T.split_cache[p] = r
    return r


# --------------------------------------------------------------------------
# booleans


class SymBool:
    """Formula: op in const/le/lt/eq/and/or/not; le,lt,eq compare a real Poly
    with 0."""
    __slots__ = ("op", "a", "_h")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._h = None

    def key(self):
        if self.op in ("and", "or"):
            return (self.op, tuple(x.key() for x in self.a))
        if self.op == "not":
            return (self.op, self.a.key())
        return (self.op, self.a)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def same(self, o):
        return self is o or (self.op == o.op and (
            self.a == o.a if self.op in ("le", "lt", "eq", "const") else
            (self.a.same(o.a) if self.op == "not" else
             len(self.a) == len(o.a) and all(x.same(y) for x, y in zip(self.a, o.a)))))

    def __bool__(self):
        if self.op == "const":
            return self.a
        return H.engine.decide(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bnot(beq(self, o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return beq(self, o)
        return SymNum.from_bool(self) == o

    def __ne__(self, o):
        return bnot(self == o)

    def _n(self):
        return SymNum.from_bool(self)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._n()

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    __index__ = __int__

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.op

    def __format__(self, spec):
        return "<symbolic>"

    @property
    def dtype(self):
        return DT["b"]

    shape = ()
    ndim = 0
    size = 1


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0 if isinstance(x != 0, SymBool) else (TRUE if x != 0 else FALSE)
    return TRUE if bool(x) else FALSE


def simp(b):
    """collapse constants to python bool"""
    if isinstance(b, SymBool) and b.op == "const":
        return b.a
    return b


def bnot(a):
    a = tobool(a)
    if a.op == "const":
        return FALSE if a.a else TRUE
    if a.op == "not":
        return a.a
    if a.op == "le":
        return SymBool("lt", -a.a)
    if a.op == "lt":
        return SymBool("le", -a.a)
    return SymBool("not", a)


def _nary(op, xs):
    neutral = op == "and"
    out = []
    seen = set()
    for x in xs:
        x = tobool(x)
        if x.op == "const":
            if x.a != neutral:
                return FALSE if neutral else TRUE
            continue
        parts = x.a if x.op == op else (x,)
        for p in parts:
            h = hash(p)
            if h in seen and any(p.same(q) for q in out):
                continue
            seen.add(h)
            out.append(p)
    if not out:
        return TRUE if neutral else FALSE
    if len(out) == 1:
        return out[0]
    return SymBool(op, tuple(out))


def band(*xs):
    return _nary("and", xs)


def bor(*xs):
    return _nary("or", xs)


def beq(a, b):
    a, b = tobool(a), tobool(b)
    return bor(band(a, b), band(bnot(a), bnot(b)))


def bimp(a, b):
    return bor(bnot(a), b)


def eval_bool(b, env, slack=0.0):
    op = b.op
    if op == "const":
        return b.a
    if op == "le":
        return eval_poly(b.a, env).real <= slack
    if op == "lt":
        return eval_poly(b.a, env).real < slack
    if op == "eq":
        return abs(eval_poly(b.a, env)) <= 1e-9 + slack
    if op == "and":
        return all(eval_bool(x, env, slack) for x in b.a)
    if op == "or":
        return any(eval_bool(x, env, slack) for x in b.a)
    if op == "not":
        return not eval_bool(b.a, env, -slack)
    raise AssertionError(op)


def bool_atoms(b, out):
    if b.op in ("le", "lt", "eq"):
        out |= b.a.atoms()
    elif b.op in ("and", "or"):
        for x in b.a:
            bool_atoms(x, out)
    elif b.op == "not":
        bool_atoms(b.a, out)
    return out


def const_sign(p):
    """sign of a polynomial whose atoms are all numeric constants, else None"""
    if p.is_const():
        c = p.const_value()
        return (c > 0) - (c < 0)
    for a in p.atoms():
        if T.atoms[a].meta is None or T.atoms[a].meta[0] != "const":
            return None
    v = eval_poly(p, {})
    v = v.real
    if abs(v) > 1e-10:
        return 1 if v > 0 else -1
    return None


NONNEG_FACTS = set()      # polynomials known non-negative by construction
POS_FACTS = set()         # ... and known positive
POWERS = {}               # polynomials formed as a power of a non-negative one: (base, exponent)


def _prim(p):
    return p.scale(1 / Fraction(content(p)))


def pos_fact(p):
    q = p.real_part()
    if q.t and not q.is_const():
        POS_FACTS.add(_prim(q))
        NONNEG_FACTS.add(_prim(q))
    return q


def sum_fact(ps, total):
    """record the sign of a sum of terms of known sign"""
    if len(total.t) > 1 and not syn_pos(total) and all(syn_nonneg(p) for p in ps):
        if any(syn_pos(p) for p in ps):
            pos_fact(total)
        else:
            nonneg_fact(total)


def mul_fact(p, q, r):
    """record the sign of a real square, or of a product of terms of known sign"""
    if len(r.t) < 2 or len(r.t) > 2000:
        return r
    if p == q:
        if p.is_real():
            if syn_pos(p):
                pos_fact(r)
            elif not syn_nonneg(r):
                nonneg_fact(r)
    elif NONNEG_FACTS and syn_nonneg(p) and syn_nonneg(q) and not syn_pos(r):
        if syn_pos(p) and syn_pos(q):
            pos_fact(r)
        else:
            nonneg_fact(r)
    return r


def nonneg_fact(p):
    """record that p (a sum of squares by construction) is non-negative"""
    q = p.real_part()
    if q.t and not q.is_const():
        NONNEG_FACTS.add(q.scale(1 / Fraction(content(q))))
    return q


def syn_nonneg(p):
    """syntactic proof of p >= 0 (coefficients >= 0, monomials of squares,
    z*conj(z) pairs and atoms known non-negative)"""
    if NONNEG_FACTS and len(p.t) > 1 and _prim(p) in NONNEG_FACTS:
        return True
    at = T.atoms
    for m, c in p.t.items():
        if c < 0:
            return False
        cnt = {}
        for a in m:
            cnt[a] = cnt.get(a, 0) + 1
        for a, k in cnt.items():
            if at[a].kind in ("cplx",):
                if cnt.get(at[a].conj, 0) != k:
                    return False
            elif a == T.I:
                return False
            elif k % 2 and not at[a].nonneg:
                return False
    return True


def syn_pos(p):
    """syntactic proof of p > 0: non-negative and one strictly positive term"""
    if not syn_nonneg(p):
        return False
    if POS_FACTS and len(p.t) > 1 and _prim(p) in POS_FACTS:
        return True
    at = T.atoms
    for m, c in p.t.items():
        if c > 0 and all(at[a].pos for a in m):
            return True
    return False


def _root_square(m):
    """the square of a monomial of square roots and absolute values"""
    q = ONE
    ok = False
    for a in m:
        at = T.atoms[a]
        if at.meta is None:
            return None
        if at.meta[0] == "sqrt":
            q, ok = q * at.meta[1], True
        elif at.meta[0] == "abs":
            q, ok = q * (at.meta[1] * at.meta[1]), True
        elif at.meta[0] == "const" and at.nonneg and (a, a) in [r[0] for r in T.rules.get(a, ())]:
            q = q * (Poly.atom(a) * Poly.atom(a))
        else:
            return None
    return q if ok else None


def rel(op, d):
    """formula  d op 0  (op le/lt/eq) for a real polynomial d, simplified"""
    if d.is_const():
        c = d.const_value()
        r = (c <= 0) if op == "le" else (c < 0) if op == "lt" else (c == 0)
        return TRUE if r else FALSE
    s = const_sign(d)
    if s is not None:
        r = (s <= 0) if op == "le" else (s < 0) if op == "lt" else False
        return TRUE if r else FALSE
    # c*t + k  with t = sqrt(q)
    if len(d.t) <= 2:
        k = d.t.get((), 0)
        ms = [m for m in d.t if m]
        if len(ms) == 1:
            q = _root_square(ms[0])
            if q is not None:
                c = d.t[ms[0]]
                r = Fraction(-k) / c          # t <> r
                r = P._norm(r)
                if r == 0 and len(ms[0]) == 1:
                    mt = T.atoms[ms[0][0]].meta
                    if mt and mt[0] == "abs":
                        q = mt[1]             # |x| <> 0 is x = 0
                if op == "eq":
                    return FALSE if r < 0 else SymBool("eq", _canon(q - Poly.const(r * r)))
                if c > 0:                      # t op r
                    if r < 0 or (r == 0 and op == "lt"):
                        return FALSE
                    if r == 0:
                        return rel("eq", q)
                    return SymBool(op, q - Poly.const(r * r))
                # t op' r reversed: c<0:  t >= r (le) / t > r (lt)
                if r < 0 or (r == 0 and op == "le"):
                    return TRUE
                if r == 0:
                    return bnot(rel("eq", q))
                return SymBool(op, Poly.const(r * r) - q)
    if op == "lt" and syn_nonneg(d):
        return FALSE
    if op == "le" and syn_pos(d):
        return FALSE
    if op in ("eq",) and (syn_pos(d) or syn_pos(-d)):
        return FALSE
    if op == "le" and syn_nonneg(-d):
        return TRUE
    if op == "lt" and syn_pos(-d):
        return TRUE
    if op == "eq":
        return SymBool("eq", _canon(d))
    c = P.content(d)
    return SymBool(op, d.scale(Fraction(1) / c) if c != 1 else d)


def _canon(d):
    c = Fraction(P.content(d))
    if d.t[P.lead(d)] < 0:
        c = -c
    return d.scale(1 / c) if c != 1 else d


# --------------------------------------------------------------------------
# auxiliary atoms


def _aux(key, prefix, kind="real", **kw):
    a = T.cache.get(key)
    if a is not None:
        return a, False
    name = "%s!%d" % (prefix, len(T.cache))
    a = T.cplx(name) if kind == "cplx" else T.real(name, kind=kind, **kw)
    T.cache[key] = a
    return a, True


def const_atom(key, value, axioms=None):
    a, new = _aux(("const", key), "k_" + str(key).replace(" ", ""))
    if new:
        a.meta = ("const", value)
        a.nonneg = value >= 0
        a.pos = value > 0
        a.evalf = lambda env, v=value: v
        lo, hi = Fraction(repr(value)) - Fraction(1, 10 ** 12), Fraction(repr(value)) + Fraction(1, 10 ** 12)
        p = Poly.atom(a.id)
        a.axioms = [SymBool("le", Poly.const(lo) - p), SymBool("le", p - Poly.const(hi))]
        if axioms:
            a.axioms += axioms(p)
    return a


def sqrt_int(n):
    s, f = P.squarefree(n)
    if f == 1:
        return Poly.const(s)
    a, new = _aux(("sqrtint", f), "sqrt%d" % f, pos=True)
    if new:
        v = math.sqrt(f)
        a.meta = ("const", v)
        a.evalf = lambda env: v
        p = Poly.atom(a.id)
        a.axioms = [SymBool("eq", Poly({(a.id, a.id): 1, (): -f})), SymBool("lt", -p)]
        T.add_rule((a.id, a.id), Poly.const(f))
    return Poly.atom(a.id).scale(s)


def sqrt_poly(p):
    if p.is_zero():
        return ZERO
    if p.is_const():
        c = Fraction(p.const_value())
        if c < 0:
            raise NonFinite("sqrt of negative")
        return sqrt_int(c.numerator * c.denominator).scale(Fraction(1, c.denominator))
    p = p.real_part()
    c = P.content(p)
    if c != 1:
        return sqrt_poly(Poly.const(c)) * sqrt_poly(p.scale(Fraction(1) / c))
    # single monomial of known-sign even powers
    if len(p.t) == 1:
        (m, co), = p.t.items()
        if co > 0:
            cnt = {}
            for a in m:
                cnt[a] = cnt.get(a, 0) + 1
            if all(k % 2 == 0 and T.atoms[a].nonneg for a, k in cnt.items()):
                return Poly({tuple(sorted(sum(((a,) * (k // 2) for a, k in cnt.items()), ()))): 1})
    for h in H.engine.sqrt_hints if H.engine else ():
        if h * h == p:
            return h if syn_nonneg(h) else abs_poly(h)
    key = ("sqrt", p)
    a = T.cache.get(key)
    if a is None:
        r = _sqrt_product(p)
        if r is not None:
            return r
        if len(p.t) == 1:
            (m, co), = p.t.items()
            cnt = {}
            for x in m:
                cnt[x] = cnt.get(x, 0) + 1
            if co == 1 and all(k % 2 == 0 and T.atoms[x].kind in ("real", "int") for x, k in cnt.items()):
                return abs_poly(Poly({tuple(sorted(sum(((x,) * (k // 2) for x, k in cnt.items()), ()))): 1}))
        if not syn_nonneg(p):
            if SymBool("lt", p).__bool__():
                raise NonFinite("sqrt of negative")
        a, _ = _aux(key, "sqrt", nonneg=True)
        if syn_pos(p):
            a.pos = True
        a.meta = ("sqrt", p)
        t = Poly.atom(a.id)
        a.axioms = [SymBool("le", -t), SymBool("eq", Poly({(a.id, a.id): 1}) - p)]
        a.evalf = lambda env, p=p: math.sqrt(max(0.0, eval_poly(p, env).real))
        T.add_rule((a.id, a.id), p)
        if len(p.t) <= 6:
            _SQRTS.append((p, a.id))
    elif not syn_nonneg(p):
        if SymBool("lt", p).__bool__():
            raise NonFinite("sqrt of negative")
    return Poly.atom(a.id)


_SQRTS = []


def _sqrt_product(p):
    """sqrt(q r) as sqrt(q) sqrt(r) when both factors have been taken roots of"""
    if len(_SQRTS) < 2 or len(_SQRTS) > 40 or len(p.t) > 36:
        return None
    dp = max(len(m) for m in p.t)
    for i, (q, a) in enumerate(_SQRTS):
        dq = max(len(m) for m in q.t)
        if dq >= dp:
            continue
        for r, b in _SQRTS[:i]:
            if dq + max(len(m) for m in r.t) == dp and (q * r - p).is_zero():
                return Poly.atom(a) * Poly.atom(b)
    return None


def abs_poly(p):
    """|p| for real p"""
    if p.is_const():
        return Poly.const(abs(p.const_value()))
    s = const_sign(p)
    if s is not None:
        return p if s > 0 else -p
    if syn_nonneg(p):
        return p
    if syn_nonneg(-p):
        return -p
    c = Fraction(P.content(p))
    q = p.scale(1 / c)
    if q.t[P.lead(q)] < 0:
        q = -q
    a, new = _aux(("abs", q), "abs", nonneg=True)
    if new:
        t = Poly.atom(a.id)
        a.meta = ("abs", q)
        a.axioms = [SymBool("le", -t), bimp(SymBool("le", -q), SymBool("eq", t - q)),
                    bimp(SymBool("lt", q), SymBool("eq", t + q))]
        a.evalf = lambda env, q=q: abs(eval_poly(q, env).real)
        T.add_rule((a.id, a.id), q * q)
    return Poly.atom(a.id).scale(c)


def cabs_poly(p):
    if p.is_real():
        return abs_poly(p)
    if (p * Poly({(T.I,): 1})).is_real():
        return abs_poly(p.imag_part())
    r = sqrt_poly(nonneg_fact(p * p.conj()))
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if len(m) == 1 and T.atoms[m[0]].meta and T.atoms[m[0]].meta[0] == "sqrt":
            a = T.atoms[m[0]]
            if ("modulus", m[0]) not in T.cache:
                # |re|, |im| <= modulus <= |re| + |im|
                T.cache[("modulus", m[0])] = True
                c = Fraction(c)
                re, im = (x.scale(1 / c) for x in split(p))
                t = Poly.atom(m[0])
                a.axioms = list(a.axioms) + [SymBool("le", s * x - t) for x in (re, im) for s in (Poly.const(1), Poly.const(-1))]
                a.axioms.append(bor(*[SymBool("le", t - re.scale(i) - im.scale(j)) for i in (1, -1) for j in (1, -1)]))
    return r


def inv_atom(a):
    at = T.atoms[a]
    if a == T.I:
        return P.NEG_I()
    if at.meta is not None and at.meta[0] == "unit":
        return Poly.atom(at.conj)
    if at.meta is not None and at.meta[0] == "inv1":
        return Poly.atom(at.meta[1])
    if at.meta is not None and at.meta[0] == "const" and (a, a) in [r[0] for r in T.rules.get(a, ())]:
        sq = Poly.atom(a) * Poly.atom(a)
        if sq.is_const():
            return Poly.atom(a).scale(Fraction(1) / sq.const_value())
    if at.kind == "cplx":
        base = min(a, at.conj)
        q, new = _aux(("inv1", base), "inv", kind="cplx")
        qa = q if base == a else T.atoms[q.conj]
        if new:
            qb = T.atoms[q.conj]
            b = T.atoms[base]
            q.meta = ("inv1", base)
            qb.meta = ("inv1", b.conj)
            T.add_rule((base, q.id), ONE)
            T.add_rule((b.conj, qb.id), ONE)
            x, y, u, v = b.re, b.im, q.re, q.im
            ax = [SymBool("eq", Poly({tuple(sorted((x, u))): 1, tuple(sorted((y, v))): -1, (): -1})),
                  SymBool("eq", Poly({tuple(sorted((x, v))): 1, tuple(sorted((y, u))): 1}))]
            T.atoms[u].axioms = ax
            T.atoms[v].axioms = ax
            T.atoms[u].evalf = lambda env, b=base: (1 / eval_atom(b, env)).real
            T.atoms[v].evalf = lambda env, b=base: (1 / eval_atom(b, env)).imag
        return Poly.atom(qa.id)
    q, new = _aux(("inv1", a), "inv", nonneg=at.nonneg)
    if new:
        q.meta = ("inv1", a)
        q.pos = at.nonneg
        q.axioms = [SymBool("eq", Poly({tuple(sorted((a, q.id))): 1, (): -1}))]
        if at.meta is not None and at.meta[0] in ("sqrt", "abs"):
            sq = at.meta[1] if at.meta[0] == "sqrt" else at.meta[1] * at.meta[1]
            qq = Poly({(q.id, q.id): 1})
            q.axioms.append(SymBool("eq", qq * sq - ONE))
            q.axioms.append(SymBool("lt", -Poly.atom(q.id)))
        T.add_rule((a, q.id), ONE)
        if at.meta is not None and at.meta[0] in ("sqrt", "abs"):
            # q*q*lead(sq) -> (1 - q*q*rest)/lc  keeps |v/|v||^2 = 1 in normal form
            l = P.lead(sq)
            lc = Fraction(sq.t[l])
            rest = sq - Poly({l: sq.t[l]})
            T.add_rule(l + (q.id, q.id), (ONE - Poly({(q.id, q.id): 1}) * rest).scale(1 / lc))
        q.evalf = lambda env, a=a: 1.0 / eval_atom(a, env)
    return Poly.atom(q.id)


def inv_poly(p):
    if p.is_zero():
        raise NonFinite("division by zero")
    if p.is_const():
        return Poly.const(Fraction(1) / p.const_value())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.const(Fraction(1) / c)
        for a in m:
            at = T.atoms[a]
            if not (at.pos or a == T.I or (at.meta and at.meta[0] in ("unit", "const", "inv1"))):
                _guard_nonzero(Poly.atom(a))
            r = r * inv_atom(a)
        return r
    if not p.is_real():
        pc = p.conj()
        n = p * pc
        return pc * inv_poly(n)
    s = const_sign(p)
    if s is not None:
        # algebraic constant: try a + b*sqrt(n)
        ats = p.atoms()
        if len(ats) == 1:
            (a,) = ats
            x = Poly.atom(a)
            k = p.t.get((), 0)
            b = p.t.get((a,), 0)
            if Poly({(): k, (a,): b}).t == p.t or set(p.t) <= {(), (a,)}:
                cj = Poly.const(k) - x.scale(b)
                d = p * cj
                if d.is_const():
                    return cj.scale(Fraction(1) / d.const_value())
    _guard_nonzero(p)
    c = Fraction(P.content(p))
    l = P.lead(p)
    if p.t[l] < 0:
        c = -c
    pp = p.scale(1 / c)
    nn = syn_nonneg(pp)
    q, new = _aux(("inv", pp), "inv", nonneg=nn)
    if new:
        q.meta = ("inv", pp)
        q.pos = nn
        t = Poly.atom(q.id)
        q.axioms = [SymBool("eq", t * pp - ONE)]
        lc = Fraction(pp.t[l])
        rest = pp - Poly({l: pp.t[l]})
        T.add_rule(l + (q.id,), (ONE - t * rest).scale(1 / lc))
        q.evalf = lambda env, pp=pp: 1.0 / eval_poly(pp, env).real
    return Poly.atom(q.id).scale(1 / c)


def _guard_nonzero(p):
    if syn_pos(p) or syn_pos(-p):
        return
    re, im = p.real_part(), p.imag_part()
    z = band(rel("eq", re), rel("eq", im))
    if z.op == "const":
        if z.a:
            raise NonFinite("division by zero")
        return
    if bool(z):
        raise NonFinite("division by zero")


def factorint(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def note_power(r, p, n):
    """remember that r was formed as p**n (p >= 0), for its logarithm"""
    if n > 1 and len(p.t) > 1 and syn_nonneg(p):
        POWERS[r] = (p, n)
    return r


def log_poly(p):
    """log of a positive real polynomial, normalised over products/powers"""
    if p.is_const():
        c = Fraction(p.const_value())
        if c <= 0:
            raise NonFinite("log of non-positive")
        r = ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for q, e in factorint(n).items():
                r = r + Poly.atom(const_atom("log%d" % q, math.log(q)).id).scale(s * e)
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(T.atoms[a].nonneg or (T.atoms[a].meta and T.atoms[a].meta[0] == "inv") for a in m):
            r = log_poly(Poly.const(c))
            for a in m:
                r = r + _log_atom(a)
            return r
    if p in POWERS:
        q, n = POWERS[p]
        return log_poly(q).scale(n)
    c = Fraction(P.content(p))
    if c != 1:
        return log_poly(Poly.const(c)) + log_poly(p.scale(1 / c))
    if not syn_pos(p):
        if bool(SymBool("le", p)):
            raise NonFinite("log of non-positive")
    return _log_gen(p)


def _log_gen(p):
    a, new = _aux(("log", p), "log")
    if new:
        a.meta = ("log", p)
        a.evalf = lambda env, p=p: math.log(max(eval_poly(p, env).real, 1e-300))
        t = Poly.atom(a.id)
        # sound facts: sign of log, log x <= x - 1
        a.axioms = [beq(SymBool("lt", ONE - p), SymBool("lt", -t)),
                    beq(SymBool("eq", ONE - p), SymBool("eq", t)),
                    SymBool("le", t - p + ONE)]
    return Poly.atom(a.id)


def _log_atom(a):
    at = T.atoms[a]
    m = at.meta
    if m is not None:
        if m[0] == "sqrt":
            return log_poly(m[1]).scale(Fraction(1, 2))
        if m[0] == "root":
            return log_poly(m[1]).scale(Fraction(1, m[2]))
        if m[0] == "powf":
            return log_poly(m[1]).scale(m[2])
        if m[0] == "inv":
            return -log_poly(m[1])
        if m[0] == "inv1":
            return -_log_atom(m[1])
        if m[0] == "const" and (a, a) in [r[0] for r in T.rules.get(a, ())]:
            sq = Poly.atom(a) * Poly.atom(a)
            return log_poly(sq).scale(Fraction(1, 2))
    p = Poly.atom(a)
    if not at.pos:
        if bool(SymBool("le", p)):
            raise NonFinite("log of non-positive")
    return _log_gen(p)


def exp_poly(p):
    if p.is_zero():
        return ONE
    if not p.is_real():
        raise SymUnsupported("exp of complex")
    a, new = _aux(("exp", p), "exp", pos=True)
    if new:
        a.meta = ("exp", p)
        a.evalf = lambda env, p=p: math.exp(eval_poly(p, env).real)
        t = Poly.atom(a.id)
        a.axioms = [SymBool("lt", -t), SymBool("le", p + ONE - t)]
    return Poly.atom(a.id)


def root_poly(p, n):
    """p**(1/n) for p >= 0"""
    if n == 1:
        return p
    if n == 2:
        return sqrt_poly(p)
    if p.is_zero():
        return ZERO
    if p.is_const() and p.const_value() == 1:
        return ONE
    if not syn_nonneg(p):
        if bool(SymBool("lt", p)):
            raise NonFinite("root of negative")
    a, new = _aux(("root", p, n), "root", nonneg=True)
    if new:
        a.meta = ("root", p, n)
        a.pos = syn_pos(p)
        t = Poly.atom(a.id)
        a.axioms = [SymBool("le", -t), SymBool("eq", Poly({(a.id,) * n: 1}) - p)]
        a.evalf = lambda env, p=p: max(eval_poly(p, env).real, 0.0) ** (1.0 / n)
        T.add_rule((a.id,) * n, p)
    return Poly.atom(a.id)


def powf_poly(p, e):
    """p**e, p >= 0 real, e an arbitrary rational"""
    e = Fraction(e)
    if e.denominator == 1 and not (abs(e) > 16 and len(p.t) > 1):
        if e >= 0:
            return note_power(p ** int(e), p, int(e))
        return inv_poly(p) ** int(-e)
    if 1 < e.denominator <= 4 and abs(e.numerator) <= 12:
        r = root_poly(p, e.denominator)
        return r ** e.numerator if e > 0 else inv_poly(r) ** (-e.numerator)
    if p.is_zero():
        return ZERO
    if p.is_const() and p.const_value() == 1:
        return ONE
    a, new = _aux(("powf", p, e), "powf", nonneg=True)
    if new:
        a.meta = ("powf", p, e)
        t = Poly.atom(a.id)
        a.axioms = [SymBool("le", -t), bimp(SymBool("lt", -p), SymBool("lt", -t)), beq(SymBool("lt", p - ONE), SymBool("lt", (t - ONE).scale(1 if e > 0 else -1)))]
        a.pos = syn_pos(p)
        fe = float(e)
        a.evalf = lambda env, p=p: max(eval_poly(p, env).real, 0.0) ** fe
    return Poly.atom(a.id)


def int_round(p):
    """nearest integer, ties to even"""
    if p.is_const():
        return Poly.const(round(Fraction(p.const_value())))
    if all(c == int(c) for c in p.t.values()) and all(T.atoms[a].kind == "int" for a in p.atoms()):
        return p
    a, new = _aux(("rint", p), "rint", kind="int")
    if new:
        h, _ = _aux(("rinth", p), "rinth", kind="int")
        t = Poly.atom(a.id)
        d = p - t
        half = Poly.const(Fraction(1, 2))
        a.meta = ("rint", p)
        a.axioms = [SymBool("le", d - half), SymBool("le", -d - half),
                    bimp(bor(SymBool("eq", d - half), SymBool("eq", d + half)),
                         SymBool("eq", t - Poly.atom(h.id).scale(2)))]
        a.evalf = lambda env, p=p: float(round(eval_poly(p, env).real))
        h.evalf = lambda env, p=p: float(round(eval_poly(p, env).real) // 2)
    return Poly.atom(a.id)


def int_floor(p):
    if p.is_const():
        return Poly.const(math.floor(Fraction(p.const_value())))
    if all(c == int(c) for c in p.t.values()) and all(T.atoms[a].kind == "int" for a in p.atoms()):
        return p
    s = const_sign(p)
    if s is not None:
        return Poly.const(math.floor(eval_poly(p, {}).real + 0.0))
    a, new = _aux(("floor", p), "floor", kind="int")
    if new:
        t = Poly.atom(a.id)
        a.meta = ("floor", p)
        a.axioms = [SymBool("le", t - p), SymBool("lt", p - t - ONE)]
        a.evalf = lambda env, p=p: float(math.floor(eval_poly(p, env).real))
    return Poly.atom(a.id)


def _range(a):
    """bounds on an atom stated by its own axioms"""
    lo = hi = None
    for b in T.atoms[a].axioms:
        if b.op in ("le", "lt") and len(b.a.t) <= 2 and (a,) in b.a.t and all(m in ((), (a,)) for m in b.a.t):
            k, c = b.a.t[(a,)], b.a.t.get((), 0)
            if isinstance(k, complex) or not isinstance(k, (int, Fraction)) or not isinstance(c, (int, Fraction)):
                continue
            v = Fraction(-c) / Fraction(k)
            if k > 0:
                hi = v if hi is None else min(hi, v)
            else:
                lo = v if lo is None else max(lo, v)
    return lo, hi


def by_range(c):
    """decide an affine comparison from the ranges of its atoms alone"""
    if c.op not in ("le", "lt") or len(c.a.t) > 4 or any(len(m) > 1 for m in c.a.t):
        return None
    lo = hi = Fraction(0)
    for m, k in c.a.t.items():
        if not isinstance(k, (int, Fraction)):
            return None
        l, h = _range(m[0]) if m else (Fraction(1), Fraction(1))
        if k < 0:
            l, h = h, l
        lo = None if l is None or lo is None else lo + k * l
        hi = None if h is None or hi is None else hi + k * h
    if hi is not None and (hi < 0 or hi == 0 and c.op == "le"):
        return True
    if lo is not None and (lo > 0 or lo == 0 and c.op == "lt"):
        return False
    return None


def ite_poly(c, x, y):
    """real polynomials x, y"""
    c = tobool(c)
    if c.op != "const":
        r = by_range(c)
        if r is not None:
            return x if r else y
    if c.op == "const":
        return x if c.a else y
    if x == y:
        return x
    a, new = _aux(("ite", c.key(), x, y), "ite")
    if new:
        t = Poly.atom(a.id)
        a.meta = ("ite",)
        a.axioms = [bimp(c, SymBool("eq", t - x)), bimp(bnot(c), SymBool("eq", t - y))]
        a.evalf = lambda env, c=c, x=x, y=y: (eval_poly(x, env) if eval_bool(c, env) else eval_poly(y, env)).real
        if syn_nonneg(x) and syn_nonneg(y):
            a.nonneg = True
    return Poly.atom(a.id)


def _settle(c):
    c = tobool(c)
    f = getattr(H.engine, "settled", None)
    v = f(c) if f else None
    return c if v is None else v


def ite(c, x, y):
    c = tobool(c)
    x, y = num(x), num(y)
    if c.op == "const":
        return x if c.a else y
    k = kmax(x.k, y.k)
    if x.p == y.p:
        return SymNum(x.p, k)
    if x.p.is_real() and y.p.is_real():
        return SymNum(ite_poly(c, x.p, y.p), k)
    re = ite_poly(c, x.p.real_part(), y.p.real_part())
    im = ite_poly(c, x.p.imag_part(), y.p.imag_part())
    return SymNum(re + im * P.IMAG(), k)


def csqrt_poly(p):
    """principal complex square root of a complex-typed polynomial"""
    if p.is_real():
        if p.is_zero():
            return ZERO
        if syn_nonneg(p):
            return sqrt_poly(p)
        for h in H.engine.sqrt_hints if H.engine else ():
            if h * h == p:
                return h if syn_nonneg(h) else abs_poly(h)
        if bool(rel("lt", p)):
            return sqrt_poly(-p) * P.IMAG()
        return sqrt_poly(p)
    a, new = _aux(("csqrt", p), "csqrt", kind="cplx")
    if new:
        z = Poly.atom(a.id)
        re, im = split(z * z - p)
        ax = [SymBool("eq", re), SymBool("eq", im), SymBool("le", -Poly.atom(a.re))]
        T.atoms[a.re].axioms = ax
        T.atoms[a.im].axioms = ax
        T.atoms[a.re].evalf = lambda env, p=p: cmath.sqrt(eval_poly(p, env)).real
        T.atoms[a.im].evalf = lambda env, p=p: cmath.sqrt(eval_poly(p, env)).imag
    return Poly.atom(a.id)


def unit_phase(p):
    """p/|p| as an atom u with u*conj(u) = 1 (p != 0 on this path).  p, -p, conj(p), i*p
    and positive multiples of them share one atom."""
    g = Fraction(content(p))
    p = p.scale(1 / g)
    q, f = p, ONE
    for _ in range(4):
        if ("unit", q) in T.cache:
            return Poly.atom(T.cache[("unit", q)].id) * f
        if ("unit", q.conj()) in T.cache:
            return Poly.atom(T.cache[("unit", q.conj())].id).conj() * f
        q, f = q * NEG_I(), f * IMAG()
    a, new = _aux(("unit", p), "unit", kind="cplx")
    if new:
        make_unit(a)
        t = cabs_poly(p)
        re, im = split(Poly.atom(a.id) * t - p)
        ax = T.atoms[a.re].axioms + [SymBool("eq", re), SymBool("eq", im)]
        T.atoms[a.re].axioms = ax
        T.atoms[a.im].axioms = ax

        def f(env, p=p):
            v = eval_poly(p, env)
            return v / abs(v)
        T.atoms[a.re].evalf = lambda env: f(env).real
        T.atoms[a.im].evalf = lambda env: f(env).imag
    return Poly.atom(a.id)


def make_unit(a):
    b = T.atoms[a.conj]
    a.meta = ("unit",)
    b.meta = ("unit",)
    T.add_rule((a.id, b.id), ONE)
    ax = [SymBool("eq", Poly({(a.re, a.re): 1, (a.im, a.im): 1, (): -1}))]
    T.atoms[a.re].axioms = ax
    T.atoms[a.im].axioms = ax


# --------------------------------------------------------------------------
# numbers


def num(x, kind=None):
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymNum.from_bool(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return num(x[()])
        if x.size == 1:
            return num(x.reshape(-1)[0])
        raise SymUnsupported("array where a scalar is expected")
    if isinstance(x, (bool, np.bool_)):
        return SymNum(Poly.const(int(x)), "b")
    if isinstance(x, (int, np.integer)):
        return SymNum(Poly.const(int(x)), "i")
    if isinstance(x, Fraction):
        return SymNum(Poly.const(x), "f")
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise NonFinite("non-finite constant")
        return SymNum(Poly.const(frac(x)), "f")
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return SymNum(Poly.const(frac(x.real)) + P.IMAG().scale(frac(x.imag)), "c")
    raise SymUnsupported("cannot interpret %r as a number" % (type(x),))


def _isnum(x):
    return isinstance(x, (SymNum, SymBool, int, float, complex, np.number, np.bool_, Fraction))


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SymNum:
    __slots__ = ("p", "k")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, p, k):
        self.p = p
        self.k = k

    @staticmethod
    def from_bool(b):
        b = tobool(b)
        if b.op == "const":
            return SymNum(Poly.const(int(b.a)), "b")
        return SymNum(ite_poly(b, ONE, ZERO), "i")

    # -- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return DT[self.k]

    @property
    def real(self):
        return SymNum(self.p.real_part(), "f" if self.k == "c" else self.k)

    @property
    def imag(self):
        return SymNum(self.p.imag_part(), "f" if self.k == "c" else self.k)

    @property
    def T(self):
        return self

    def conjugate(self):
        return SymNum(self.p.conj(), self.k)

    conj = conjugate

    def item(self, *a):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, dt):
        return cast(self, kind_of_dtype(dt) or self.k, scalar=False)

    def reshape(self, *a):
        return box(self).reshape(*a)

    def flatten(self):
        return box(self).reshape(-1)

    ravel = flatten

    def sum(self, *a, **k):
        return self

    def round(self, nd=0):
        return round_num(self, nd)

    def is_integer(self):
        return self == SymNum(int_floor(self.p), self.k)

    def all(self):
        return tobool(self)

    any = all

    # -- arithmetic
    def _bin(self, o, f, k=None):
        if isinstance(o, SymNum):
            pass
        elif isinstance(o, np.ndarray):
            return NotImplemented
        elif _nonfinite(o):
            raise NonFinite("arithmetic with inf/nan")
        elif _isnum(o):
            o = num(o)
        else:
            return NotImplemented
        kk = kmax(self.k, o.k)
        if kk == "b":
            kk = "i"
        return SymNum(f(self.p, o.p), k or kk)

    def _arr(self, o, fn, swap=False):
        a = box(self)
        o = o if isinstance(o, SymArray) else asarr(o)
        return fn(o, a) if swap else fn(a, o)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.add)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.add, True)
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.subtract)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.subtract, True)
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.multiply)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: mul_fact(a, b, a * b))

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.multiply, True)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a)

    def _divk(self, o):
        k = kmax(self.k, num(o).k)
        return "f" if k in "bi" else k

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.true_divide)
        if _nonfinite(o):
            return SymNum(ZERO, "f") if o == o else self._bin(o, None)
        if not _isnum(o):
            return NotImplemented
        return div(self, num(o))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.true_divide, True)
        if not _isnum(o):
            return NotImplemented
        return div(num(o), self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.floor_divide)
        o = num(o)
        q = div(self, o)
        return SymNum(int_floor(q.p), kmax(self.k, o.k))

    def __rfloordiv__(self, o):
        return num(o) // self

    def __mod__(self, o):
        o = num(o)
        if self.p.is_const() and o.p.is_const():
            return SymNum(Poly.const(Fraction(self.p.const_value()) % Fraction(o.p.const_value())), kmax(self.k, o.k))
        return self - (self // o) * o

    def __rmod__(self, o):
        return num(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymNum(-self.p, "i" if self.k == "b" else self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(cabs_poly(self.p), "f" if self.k == "c" else self.k)

    def __pow__(self, e, mod=None):
        if isinstance(e, np.ndarray):
            return self._arr(e, np.power)
        return power(self, e)

    def __rpow__(self, b):
        if isinstance(b, np.ndarray):
            return self._arr(b, np.power, True)
        return power(num(b), self)

    # -- methods numpy's object loops call
    def sqrt(self):
        if self.k == "c":
            return SymNum(csqrt_poly(self.p), "c")
        return SymNum(sqrt_poly(self.p), "f")

    def log(self):
        if self.k == "c" and not self.p.is_real():
            raise SymUnsupported("complex log")
        return SymNum(log_poly(self.p), kmax("f", self.k))

    def log2(self):
        return self.log() / num(2).log()

    def log10(self):
        return self.log() / num(10).log()

    def exp(self):
        return SymNum(exp_poly(self.p), kmax("f", self.k))

    def rint(self):
        return round_num(self, 0)

    def square(self):
        return self * self

    def absolute(self):
        return abs(self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if _nonfinite(o):
            o = float(o)
            if o != o:
                return op == "ne"
            if op == "eq":
                return False
            if op == "ne":
                return True
            return (o > 0) == (op in ("lt", "le"))
        if not _isnum(o):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        o = num(o)
        d = self.p - o.p
        if op in ("eq", "ne"):
            if d.is_zero():
                r = TRUE
            elif d.is_real():
                r = rel("eq", d)
            else:
                r = band(rel("eq", d.real_part()), rel("eq", d.imag_part()))
            return simp(r if op == "eq" else bnot(r))
        if not d.is_real():
            if self.k == "c" or o.k == "c":
                im = d.imag_part()
                if bool(rel("eq", im)):
                    d = d.real_part()
                else:
                    d = d.real_part()   # numpy orders complex numbers by real part first
            else:
                d = d.real_part()
        if op == "lt":
            return simp(rel("lt", d))
        if op == "le":
            return simp(rel("le", d))
        if op == "gt":
            return simp(rel("lt", -d))
        return simp(rel("le", -d))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.equal)
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.not_equal)
        return self._cmp(o, "ne")

    def __lt__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.less)
        return self._cmp(o, "lt")

    def __le__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.less_equal)
        return self._cmp(o, "le")

    def __gt__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.greater)
        return self._cmp(o, "gt")

    def __ge__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.greater_equal)
        return self._cmp(o, "ge")

    # -- conversions
    def is_const(self):
        return self.p.is_const() or const_sign(self.p) is not None

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.p.is_const():
            return hash(self.p.const_value())
        if self.k in "bi":
            return hash(self.__index__())
        raise SymUnsupported("hash of a symbolic real")

    def __index__(self):
        if self.p.is_const():
            c = self.p.const_value()
            if isinstance(c, int) and self.k in "bi":
                return c
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.k not in "bi":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return H.engine.concretise(self)

    def __int__(self):
        if self.p.is_const():
            return int(self.p.const_value())
        if self.is_const():
            return int(eval_poly(self.p, {}).real)
        if self.k in "bi":
            return H.engine.concretise(self)
        return H.engine.concretise(trunc(self))

    def __trunc__(self):
        return self.__int__()

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const_value())
        if self.k == "c" and not self.p.is_real():
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if self.is_const():
            return float(eval_poly(self.p, {}).real)
        raise SymUnsupported("float() of a symbolic value")

    def __complex__(self):
        try:
            return complex(eval_poly(self.p, {}))
        except KeyError:
            raise SymUnsupported("complex() of a symbolic value")

    def __round__(self, nd=None):
        r = round_num(self, nd or 0)
        return SymNum(r.p, "i") if nd is None else r

    def __floor__(self):
        return SymNum(int_floor(self.p), "i")

    def __ceil__(self):
        return SymNum(-int_floor(-self.p), "i")

    def __repr__(self):
        return "SymNum<%s>(%r)" % (self.k, self.p)

    def __str__(self):
        return "<symbolic>"

    def __format__(self, spec):
        return fmt_token(self, spec)


def fmt_token(x, spec):
    """stand-in text, equal exactly for equal values formatted alike"""
    k = T.cache.setdefault("fmt", {})
    i = k.setdefault((x.p.renorm(), spec), len(k))
    return "\u27e6%d\u27e7" % i


def trunc(x):
    p = x.p
    if p.is_const():
        return SymNum(Poly.const(int(p.const_value())), "i")
    if syn_nonneg(p):
        return SymNum(int_floor(p), "i")
    return SymNum(ite_poly(rel("le", -p), int_floor(p), -int_floor(-p)), "i")


def div(a, b):
    k = kmax(a.k, b.k)
    k = "f" if k in "bi" else k
    if a.p.is_zero():
        if b.p.is_zero():
            raise NonFinite("0/0")
    # z/|z|
    if len(b.p.t) == 1 and not a.p.is_const():
        (m, c), = b.p.t.items()
        if len(m) == 1 and not a.p.is_real():
            at = T.atoms[m[0]]
            if at.meta and at.meta[0] == "sqrt" and at.meta[1].scale(Fraction(c) ** 2) == a.p * a.p.conj():
                _guard_nonzero(Poly.atom(m[0]))
                return SymNum(unit_phase(a.p), k)
    i = inv_poly(b.p)
    return SymNum(mul_fact(a.p, i, a.p * i), k)


def _base_exponent(p):
    """(q, e, kind) when p is literally q**e for a non-negative q"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c != 1 or not m or any(a != m[0] for a in m):
        return None
    at = T.atoms[m[0]].meta
    if not at:
        return None
    if at[0] == "powf":
        return at[1], at[2] * len(m), "powf"
    if at[0] == "root":
        return at[1], Fraction(len(m), at[2]), "root"
    if at[0] == "sqrt":
        return at[1], Fraction(len(m), 2), "sqrt"
    return None


def power(b, e):
    b = num(b)
    if _nonfinite(e):
        raise SymUnsupported("power with inf")
    e = num(e)
    k = kmax(b.k, e.k)
    if k == "b":
        k = "i"
    if e.p.is_const():
        c = Fraction(e.p.const_value())
        be = _base_exponent(b.p)
        if be is not None and c > 0 and (be[2] == "powf" or c.denominator > 2):
            return SymNum(powf_poly(be[0], be[1] * c), kmax(k, "f"))
        if c.denominator == 1:
            n = int(c)
            if n > 16 and len(b.p.t) > 1 and b.p.is_real() and syn_nonneg(b.p):
                return SymNum(powf_poly(b.p, n), k)
            if n >= 0:
                r = b.p ** n
                if n > 1 and 1 < len(r.t) < 2000 and b.p.is_real():
                    if syn_pos(b.p):
                        pos_fact(r)
                    elif n % 2 == 0 or syn_nonneg(b.p):
                        nonneg_fact(r)
                return SymNum(r, k)
            if k == "i":
                k = "f"
            return SymNum(inv_poly(b.p) ** (-n), k)
        if k == "c" and not b.p.is_real():
            raise SymUnsupported("complex fractional power")
        if c == Fraction(1, 2):
            return SymNum(csqrt_poly(b.p) if k == "c" else sqrt_poly(b.p), kmax(k, "f"))
        if not syn_nonneg(b.p) and bool(rel("lt", b.p)):
            raise NonFinite("fractional power of negative")
        return SymNum(powf_poly(b.p, c), kmax(k, "f"))
    if e.k in "bi":
        return power(b, e.__index__())
    raise SymUnsupported("symbolic exponent")


def round_num(x, nd):
    nd = int(nd)
    if x.k in "bi" and nd >= 0:
        return x
    s = Fraction(10) ** nd

    def r1(p):
        return int_round(p.scale(s)).scale(1 / s)
    if x.p.is_real():
        return SymNum(r1(x.p), x.k)
    return SymNum(r1(x.p.real_part()) + r1(x.p.imag_part()) * P.IMAG(), x.k)


def cast(x, k, scalar=True):
    """value cast to kind k with numpy's assignment semantics"""
    if isinstance(x, SymBool):
        if k == "b":
            return x
        x = SymNum.from_bool(x)
    x = num(x)
    if x.k == k:
        return x
    if k == "b":
        r = x != 0
        return r if isinstance(r, SymBool) else bool(r)
    if KINDS.index(x.k) <= KINDS.index(k):
        return SymNum(x.p, k)
    if x.k == "c":
        if scalar:
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        x = SymNum(x.p.real_part(), "f")
        if k == "f":
            return x
    if k == "i" and x.k == "f":
        return trunc(x)
    return SymNum(x.p, k)


# --------------------------------------------------------------------------
# machine integers narrower than int64: arithmetic wraps around


class NarrowNum(SymNum):
    """integer scalar of a numpy type `w` whose arithmetic stays in that type"""
    __slots__ = ("w",)

    def __init__(self, p, w):
        SymNum.__init__(self, p, "i")
        self.w = np.dtype(w)

    @staticmethod
    def wrap(p, w):
        ii = np.iinfo(w)
        lo, hi = int(ii.min), int(ii.max)
        if p.is_const():
            v = (int(p.const_value()) - lo) % (hi - lo + 1) + lo
            return NarrowNum(Poly.const(v), w)
        if bool(SymBool("le", Poly.const(lo) - p)) and bool(SymBool("le", p - Poly.const(hi))):
            return NarrowNum(p, w)
        span = Fraction(1, hi - lo + 1)
        q = int_floor((p - Poly.const(lo)).scale(span))
        return NarrowNum(p - q.scale(hi - lo + 1), w)

    def _join(self, o, r):
        """give the int64-like result r of an operation with o its machine type"""
        if not isinstance(r, SymNum) or r.k != "i":
            return r
        if isinstance(o, NarrowNum):
            w = np.result_type(self.w, o.w)
        elif isinstance(o, (bool, np.bool_, SymBool)) or isinstance(o, SymNum) and o.k == "b":
            w = self.w
        elif isinstance(o, np.integer):
            w = np.result_type(self.w, o.dtype)
        elif isinstance(o, int):
            ii = np.iinfo(self.w)
            if not ii.min <= o <= ii.max:
                raise OverflowError("Python integer %d out of bounds for %s" % (o, self.w))
            w = self.w
        else:
            return SymNum(r.p, "i")
        if w.kind not in "iu" or (w.itemsize >= 8 and w.kind == "i"):
            return SymNum(r.p, "i" if w.kind in "iu" else "f")
        return NarrowNum.wrap(r.p, w)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    def item(self, *a):
        return SymNum(self.p, "i")

    def tolist(self):
        return SymNum(self.p, "i")

    def astype(self, dt):
        return wide(cast(self, kind_of_dtype(dt) or "i", scalar=False))

    def __neg__(self):
        return NarrowNum.wrap(-self.p, self.w)

    def __abs__(self):
        return NarrowNum.wrap(cabs_poly(self.p), self.w)


def _narrow_ops():
    def mk(name):
        base = getattr(SymNum, name)

        def op(self, o):
            r = base(self, o)
            return r if r is NotImplemented or isinstance(r, np.ndarray) else self._join(o, r)
        op.__name__ = name
        return op
    for n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__mod__", "__pow__"):
        setattr(NarrowNum, n, mk(n))


_narrow_ops()


def wide(x):
    return SymNum(x.p, x.k) if isinstance(x, NarrowNum) else x


def accumulator(a):
    """sums and products of small integers are accumulated in 64 bits, unsigned ones staying unsigned"""
    if a.lk != "i":
        return a

    def f(x):
        if not isinstance(x, NarrowNum):
            return x
        return NarrowNum(x.p, "uint64") if x.w.kind == "u" else SymNum(x.p, "i")
    return umap(f, a, "i")


def narrow_array(a, w):
    """an int SymArray as one of machine type w (its values must fit)"""
    return umap(lambda x: NarrowNum(x.p, w), a, "i")


# --------------------------------------------------------------------------
# arrays


class SymArray(np.ndarray):
    """object ndarray of SymNum/SymBool with logical kind `lk`"""

    def __new__(cls, a, lk):
        o = np.asarray(a, dtype=object).view(cls)
        o.lk = lk
        return o

    def __array_finalize__(self, obj):
        self.lk = getattr(obj, "lk", "f")

    def __array_wrap__(self, a, *args, **k):
        return a

    @property
    def dtype(self):
        return DT[self.lk]

    def plain(self):
        return self.view(np.ndarray)

    @property
    def real(self):
        return umap(lambda x: num(x).real, self, "f" if self.lk == "c" else self.lk)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(asarr(v).plain(), self.shape)
        for i in np.ndindex(self.shape):
            x = self.plain()[i]
            self.plain()[i] = SymNum(num(v[i]).p.real_part() + x.p.imag_part() * P.IMAG(), self.lk)

    @property
    def imag(self):
        return umap(lambda x: num(x).imag, self, "f" if self.lk == "c" else self.lk)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(asarr(v).plain(), self.shape)
        for i in np.ndindex(self.shape):
            x = self.plain()[i]
            self.plain()[i] = SymNum(x.p.real_part() + num(v[i]).p.real_part() * P.IMAG(), self.lk)

    @property
    def H(self):
        return self.conj().T

    def conj(self):
        if self.lk != "c":
            return self.copy()
        return umap(lambda x: x.conjugate(), self, "c")

    conjugate = conj

    def astype(self, dt, *a, **k):
        if getattr(dt, "_sym_scalar_kind", None):
            kk = dt._sym_scalar_kind
        else:
            kk = kind_of_dtype(dt) or self.lk
        return umap(lambda x: wide(cast(x, kk, False)), self, kk)

    def copy(self, *a, **k):
        return SymArray(np.array(self.plain(), dtype=object, copy=True), self.lk)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        if self.lk == "i":
            return umap(wide, self, "i").plain().tolist()
        return self.plain().tolist()

    def item(self, *a):
        return wide(self.plain().item(*a))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.plain().reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.plain().reshape(-1)[0])

    def __int__(self):
        return int(self.plain().reshape(-1)[0])

    def __complex__(self):
        return complex(self.plain().reshape(-1)[0])

    def __index__(self):
        if self.ndim == 0:
            return self.plain()[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def _key(self, key):
        if isinstance(key, tuple):
            return tuple(self._key1(k) for k in key)
        return self._key1(key)

    @staticmethod
    def _key1(k):
        if isinstance(k, SymArray):
            if k.lk == "b":
                return np.array([bool(x) for x in k.plain().reshape(-1)], dtype=bool).reshape(k.shape)
            return np.array([num(x).__index__() for x in k.plain().reshape(-1)], dtype=np.intp).reshape(k.shape)
        if isinstance(k, SymNum):
            return k.__index__()
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, list) and any(isinstance(x, (SymNum, SymBool)) for x in k):
            return [SymArray._key1(x) for x in k]
        return k

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, self._key(key))
        return r

    def __setitem__(self, key, val):
        if isinstance(key, SymArray) and key.lk == "b" and key.shape == self.shape and np.ndim(val) == 0:
            v = cast(val, self.lk)
            fl, kf = self.plain().reshape(-1), key.plain().reshape(-1)
            if H.engine is not None and len(kf) <= 9:
                kf = [c if isinstance(c, (bool, np.bool_)) else _settle(c) for c in kf]
            out = [ite(c, v, x) if not isinstance(c, (bool, np.bool_)) else (v if c else x)
                   for c, x in zip(kf, fl)]
            pl = self.plain()
            for i, ix in enumerate(np.ndindex(self.shape)):
                pl[ix] = out[i]
            return
        key = self._key(key)
        if isinstance(val, (SymNum, SymBool)) or _isnum(val):
            if _nonfinite(val):
                raise NonFinite("assignment of inf/nan")
            v = wide(cast(val, self.lk, True))
            # a full index into the array with a scalar, or a slice filled by a scalar
            _put(self.plain(), key, v)
            return
        v = asarr(val)
        if v.ndim == 0:
            v = cast(v.plain()[()], self.lk, False)
            _put(self.plain(), key, v)
            return
        if v.lk != self.lk:
            v = umap(lambda x: cast(x, self.lk, False), v, self.lk)
        tgt = np.ndarray.__getitem__(self.plain(), key)
        if not isinstance(tgt, np.ndarray):
            if v.size != 1:
                raise ValueError("setting an array element with a sequence.")
            _put(self.plain(), key, v.plain().reshape(-1)[0])
            return
        np.ndarray.__setitem__(self.plain(), key, v.plain())

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    # reductions and methods: routed through the shim implementations
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return NPI().sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return NPI().prod(self, axis=axis)

    def mean(self, axis=None, **k):
        return NPI().mean(self, axis=axis)

    def trace(self, *a, **k):
        return NPI().trace(self, *a, **k)

    def dot(self, o):
        return NPI().dot(self, o)

    def round(self, decimals=0, out=None):
        return NPI().round(self, decimals)

    def max(self, axis=None, **k):
        return NPI().max(self, axis=axis)

    def min(self, axis=None, **k):
        return NPI().min(self, axis=axis)

    def argmax(self, axis=None):
        return NPI().argmax(self, axis=axis)

    def argmin(self, axis=None):
        return NPI().argmin(self, axis=axis)

    def argsort(self, axis=-1, kind=None, **k):
        return NPI().argsort(self)

    def sort(self, axis=-1, **k):
        r = NPI().sort(self)
        self.plain()[...] = r.plain()

    def all(self, axis=None, **k):
        return NPI().all(self, axis=axis)

    def any(self, axis=None, **k):
        return NPI().any(self, axis=axis)

    def nonzero(self):
        return NPI().nonzero(self)

    def cumsum(self, axis=None):
        return NPI().cumsum(self, axis)

    def clip(self, lo=None, hi=None):
        return NPI().clip(self, lo, hi)

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        return "SymArray<%s>%r" % (self.lk, self.shape)

    __str__ = __repr__

    def __format__(self, s):
        return "<symbolic array>"

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return NPI().dispatch(func, args, kwargs)

    def __pow__(self, e):
        return ufunc(np.power, "__call__", (self, e), {})

    def __reduce__(self):
        raise SymUnsupported("pickle")

    __hash__ = None


def NPI():
    from . import shim_np
    return shim_np.NP


def _put(pl, key, v):
    tgt = np.ndarray.__getitem__(pl, key)
    b = _scalar_box(v)
    if isinstance(tgt, np.ndarray):
        np.ndarray.__setitem__(pl, key, b)
        return
    # a full index: take a slice of length one so that the object itself is stored
    key = key if isinstance(key, tuple) else (key,)
    ix = [int(k) % n for k, n in zip(key, pl.shape)]
    np.ndarray.__setitem__(pl, tuple(slice(i, i + 1) for i in ix), b)


def _scalar_box(v):
    b = np.empty((), dtype=object)
    b[()] = v
    return b


def box(x):
    x = x if isinstance(x, (SymNum, SymBool)) else num(x)
    return SymArray(_scalar_box(x), "b" if isinstance(x, SymBool) else x.k)


_NORM = (SymNum, SymBool)


def infer(a, default=None):
    """plain object array -> SymArray (normalising elements, inferring kind)"""
    fl = a.reshape(-1)
    k = None
    out = np.empty(fl.shape, dtype=object)
    for i in range(fl.shape[0]):
        x = fl[i]
        if isinstance(x, SymBool):
            kk = "b"
        else:
            if not isinstance(x, SymNum):
                x = num(x)
            kk = x.k
            if kk == "b":
                x = bool(x.p.const_value()) if x.p.is_const() else x
        out[i] = x
        k = kk if k is None else kmax(k, kk)
    if k is None:
        k = default or "f"
    if k != "b":
        for i in range(out.shape[0]):
            x = out[i]
            if not isinstance(x, SymNum) or x.k != k:
                out[i] = cast(x, k, False) if not isinstance(x, bool) else num(int(x)) if k == "i" else SymNum(num(int(x)).p, k)
    return SymArray(out.reshape(a.shape), k)


def asarr(x, k=None):
    """anything -> SymArray (no copy if already one of the right kind)"""
    if isinstance(x, SymArray):
        if k is None or k == x.lk:
            return x
        return umap(lambda v: cast(v, k, False), x, k)
    if isinstance(x, (SymNum, SymBool)):
        b = box(x)
        return b if k is None or b.lk == k else asarr(b, k)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = infer(np.asarray(x))
        else:
            lk = kind_of_dtype(x.dtype)
            o = np.empty(x.shape, dtype=object)
            fo = o.reshape(-1)
            for i, v in enumerate(x.reshape(-1).tolist()):
                fo[i] = v if lk == "b" else SymNum(num(v).p, lk)
            r = SymArray(fo.reshape(x.shape), lk)
        return r if k is None or k == r.lk else asarr(r, k)
    if isinstance(x, (list, tuple)):
        shp, flat = _flatten(x)
        o = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            o[i] = v
        r = infer(o.reshape(shp))
        return r if k is None or k == r.lk else asarr(r, k)
    if isinstance(x, range) or hasattr(x, "__array__"):
        return asarr(np.asarray(x), k)
    if _isnum(x):
        b = box(num(x))
        return b if k is None or b.lk == k else asarr(b, k)
    raise SymUnsupported("cannot make an array of %r" % (type(x),))


def _flatten(x):
    if isinstance(x, SymArray):
        return x.shape, list(x.plain().reshape(-1))
    if isinstance(x, np.ndarray):
        a = asarr(x)
        return a.shape, list(a.plain().reshape(-1))
    if isinstance(x, (list, tuple, range)):
        subs = [_flatten(v) for v in x]
        if not subs:
            return (0,), []
        s0 = subs[0][0]
        for s, _ in subs:
            if s != s0:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        fl = []
        for _, f in subs:
            fl += f
        return (len(subs),) + tuple(s0), fl
    return (), [x]


def umap(f, a, k):
    pl = a.plain() if isinstance(a, SymArray) else a
    out = np.empty(pl.shape, dtype=object)
    fo, fi = out.reshape(-1), pl.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    return SymArray(out, k)


def finish_bool(a):
    """bool-kind SymArray -> real bool ndarray when fully concrete"""
    fl = a.plain().reshape(-1)
    if all(isinstance(x, (bool, np.bool_)) for x in fl):
        return np.array(fl.tolist(), dtype=bool).reshape(a.shape)
    return a


# ---- ufuncs ---------------------------------------------------------------

def _cmpf(op):
    def f(x, y):
        if isinstance(x, (SymBool, bool, np.bool_)) and isinstance(y, (SymBool, bool, np.bool_)) and op in ("eq", "ne"):
            r = beq(x, y)
            return simp(r if op == "eq" else bnot(r))
        return num(x)._cmp(y if _nonfinite(y) else num(y), op)
    return f


def _maximum(x, y):
    x, y = num(x), num(y)
    c = x._cmp(y, "ge")
    if isinstance(c, bool):
        return x if c else y
    return ite(c, x, y)


def _minimum(x, y):
    x, y = num(x), num(y)
    c = x._cmp(y, "le")
    if isinstance(c, bool):
        return x if c else y
    return ite(c, x, y)


def _sign(x):
    x = num(x)
    if x.is_const():
        s = const_sign(x.p)
        return SymNum(Poly.const(s), x.k)
    if not x.p.is_real():
        raise SymUnsupported("sign of complex")
    pos, neg = rel("lt", -x.p), rel("lt", x.p)
    r = ite_poly(pos, ONE, ite_poly(neg, Poly.const(-1), ZERO))
    return SymNum(r, x.k)


def _raw(x):
    """a Python integer keeps its weak type"""
    return x if type(x) is int else num(x)


BIN = {
    "add": (lambda x, y: _raw(x) + num(y) if type(x) is int else num(x) + _raw(y), "std"),
    "subtract": (lambda x, y: _raw(x) - num(y) if type(x) is int else num(x) - _raw(y), "std"),
    "multiply": (lambda x, y: _raw(x) * num(y) if type(x) is int else num(x) * _raw(y), "std"),
    "true_divide": (lambda x, y: div(num(x), num(y)), "div"),
    "divide": (lambda x, y: div(num(x), num(y)), "div"),
    "floor_divide": (lambda x, y: num(x) // num(y), "std"),
    "remainder": (lambda x, y: num(x) % num(y), "std"),
    "power": (lambda x, y: power(x, y), "std"),
    "float_power": (lambda x, y: power(x, y), "div"),
    "maximum": (_maximum, "std"),
    "minimum": (_minimum, "std"),
    "fmax": (_maximum, "std"),
    "fmin": (_minimum, "std"),
    "equal": (_cmpf("eq"), "b"),
    "not_equal": (_cmpf("ne"), "b"),
    "less": (_cmpf("lt"), "b"),
    "less_equal": (_cmpf("le"), "b"),
    "greater": (_cmpf("gt"), "b"),
    "greater_equal": (_cmpf("ge"), "b"),
    "logical_and": (lambda x, y: simp(band(x, y)), "b"),
    "logical_or": (lambda x, y: simp(bor(x, y)), "b"),
    "logical_xor": (lambda x, y: simp(bnot(beq(x, y))), "b"),
    "bitwise_and": (lambda x, y: simp(band(x, y)), "b"),
    "bitwise_or": (lambda x, y: simp(bor(x, y)), "b"),
    "bitwise_xor": (lambda x, y: simp(bnot(beq(x, y))), "b"),
    "hypot": (lambda x, y: (num(x) * num(x) + num(y) * num(y)).sqrt(), "div"),
    "copysign": (lambda x, y: ite(num(y) >= 0, abs(num(x)), -abs(num(x))), "div"),
}
UN = {
    "negative": (lambda x: -num(x), "same"),
    "positive": (lambda x: num(x), "same"),
    "conjugate": (lambda x: num(x).conjugate(), "same"),
    "absolute": (lambda x: abs(num(x)), "real"),
    "fabs": (lambda x: abs(num(x)), "realf"),
    "sqrt": (lambda x: num(x).sqrt(), "flt"),
    "cbrt": (lambda x: SymNum(root_poly(num(x).p, 3), "f"), "flt"),
    "square": (lambda x: num(x) * num(x), "same"),
    "exp": (lambda x: num(x).exp(), "flt"),
    "log": (lambda x: num(x).log(), "flt"),
    "log2": (lambda x: num(x).log2(), "flt"),
    "log10": (lambda x: num(x).log10(), "flt"),
    "log1p": (lambda x: (num(x) + 1).log(), "flt"),
    "sign": (_sign, "same"),
    "rint": (lambda x: round_num(num(x), 0), "same"),
    "floor": (lambda x: SymNum(int_floor(num(x).p), num(x).k), "same"),
    "ceil": (lambda x: SymNum(-int_floor(-num(x).p), num(x).k), "same"),
    "trunc": (lambda x: SymNum(trunc(num(x)).p, num(x).k), "same"),
    "reciprocal": (lambda x: div(num(1), num(x)), "flt"),
    "isnan": (lambda x: False, "b"),
    "isinf": (lambda x: False, "b"),
    "isfinite": (lambda x: True, "b"),
    "logical_not": (lambda x: simp(bnot(x)), "b"),
    "invert": (lambda x: simp(bnot(x)), "b"),
    "signbit": (lambda x: num(x) < 0, "b"),
}


def weak_kind(x):
    """logical kind of an operand (python scalars are weak)"""
    if isinstance(x, SymArray):
        return x.lk
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, SymBool):
        return "b"
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return asarr(x).lk
        return kind_of_dtype(x.dtype)
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    if isinstance(x, (list, tuple)):
        return asarr(x).lk
    raise SymUnsupported("operand %r" % (type(x),))


def bin_kind(rule, ka, kb):
    k = kmax(ka, kb)
    if rule == "b":
        return "b"
    if rule == "div":
        return "f" if k in "bi" else k
    return k


def un_kind(rule, k):
    if rule == "b":
        return "b"
    if rule == "real":
        return "f" if k == "c" else k
    if rule == "realf":
        return "f"
    if rule == "flt":
        return "f" if k in "bi" else k
    return k


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("order", None)
    dtype = kw.pop("dtype", None)
    kw.pop("subok", None)
    if where is not True:
        raise SymUnsupported("ufunc where=")
    if name in ("matmul", "vecdot", "matvec", "vecmat") and method == "__call__":
        if name != "matmul":
            raise SymUnsupported(name)
        r = matmul(inputs[0], inputs[1])
    elif method == "__call__":
        if name in BIN and len(inputs) == 2:
            f, rule = BIN[name]
            a, b = inputs
            k = bin_kind(rule, weak_kind(a), weak_kind(b))
            if k == "b" and rule in ("std",):
                if name == "add":
                    r = ufunc(np.logical_or, "__call__", inputs, {})
                    return r
                k = "i"
            if isinstance(a, (float, np.floating)) and _nonfinite(a) or isinstance(b, (float, np.floating)) and _nonfinite(b):
                if rule != "b":
                    raise NonFinite("arithmetic with inf/nan")
                aa = a if not isinstance(a, np.ndarray) else a
                if _nonfinite(b):
                    A = asarr(a).plain()
                    r = np.empty(A.shape, dtype=object)
                    for i in np.ndindex(A.shape):
                        r[i] = f(A[i], b)
                    r = finish_bool(SymArray(r, "b"))
                    return r[()] if r.ndim == 0 else r
                raise SymUnsupported("inf on the left")
            A = np.array(a, dtype=object) if type(a) is int and rule == "std" else asarr(a).plain()
            B = np.array(b, dtype=object) if type(b) is int and rule == "std" and not (A.ndim == 0 and type(a) is int) else asarr(b).plain()
            shp = np.broadcast_shapes(A.shape, B.shape)
            A = np.broadcast_to(A, shp)
            B = np.broadcast_to(B, shp)
            o = np.empty(shp, dtype=object)
            fa, fb = A.reshape(-1), B.reshape(-1)
            fo = o.reshape(-1)
            for i in range(fo.shape[0]):
                v = f(fa[i], fb[i])
                if k != "b" and v.k != k:
                    v = SymNum(v.p, k)
                fo[i] = v
            r = SymArray(fo.reshape(shp), k)
            if name == "multiply" and MUL_HOOK is not None and len(shp) == 2 and shp[0] == shp[1] and shp[0] > 1:
                MUL_HOOK(asarr(a).plain(), asarr(b).plain(), r)
        elif name in UN and len(inputs) == 1:
            f, rule = UN[name]
            a = asarr(inputs[0])
            k = un_kind(rule, a.lk)

            def g(x):
                v = f(x)
                if k != "b" and v.k != k:
                    v = SymNum(v.p, k)
                return v
            r = umap(g, a, k)
        elif name == "modf" or name == "divmod":
            raise SymUnsupported(name)
        else:
            raise SymUnsupported("ufunc " + name)
        if r.lk == "b":
            r = finish_bool(r)
    elif method == "reduce":
        r = reduce_ufunc(name, inputs[0], **{k: v for k, v in kw.items() if k in ("axis", "keepdims", "initial")})
    elif method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        A = a.reshape(a.shape + (1,) * b.ndim)
        r = ufunc(uf, "__call__", (A, b), {})
    elif method == "accumulate":
        a = asarr(inputs[0])
        if a.ndim != 1:
            raise SymUnsupported("accumulate nd")
        acc, outl = None, []
        f = BIN[name][0]
        for x in a.plain():
            acc = x if acc is None else f(acc, x)
            outl.append(acc)
        r = asarr(outl, a.lk)
    elif method == "at":
        a, idx, v = inputs[0], inputs[1], inputs[2] if len(inputs) > 2 else None
        f = BIN[name][0]
        idx = SymArray._key1(idx)
        if isinstance(idx, tuple):
            pos = list(zip(*[np.broadcast_to(np.asarray(i), np.broadcast_shapes(*[np.shape(j) for j in idx])).reshape(-1).tolist() for i in idx]))
        else:
            pos = [(i,) for i in np.asarray(idx).reshape(-1).tolist()]
        V = np.broadcast_to(asarr(v).plain(), (len(pos),)) if np.ndim(v) <= 1 else asarr(v).plain()
        for q, ix in enumerate(pos):
            a[ix] = f(a[ix], V[q])
        return None
    else:
        raise SymUnsupported("ufunc method " + method)
    if dtype is not None:
        kk = kind_of_dtype(dtype)
        if kk and isinstance(r, SymArray) and kk != r.lk:
            r = asarr(r, kk)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        rk = r.lk if isinstance(r, SymArray) else kind_of_dtype(r.dtype)
        if not isinstance(o, SymArray):
            raise SymUnsupported("symbolic result into a concrete array")
        if KINDS.index(rk) > KINDS.index(o.lk):
            raise np._core._exceptions.UFuncTypeError(uf) if False else TypeError(
                "Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                % (name, DT[rk], DT[o.lk]))
        r = asarr(r, o.lk)
        o.plain()[...] = r.plain()
        return o
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


def reduce_ufunc(name, a, axis=0, keepdims=False, initial=None):
    a = asarr(a)
    f, rule = BIN[name]
    pl = a.plain()
    k = a.lk
    if name in ("logical_and", "logical_or"):
        k = "b"
    elif k == "b" and name in ("add", "multiply"):
        k = "i"
    ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
    if axis is None:
        axes = tuple(range(pl.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % pl.ndim for x in axis)
    else:
        axes = (axis % pl.ndim,) if pl.ndim else ()
    keep = [i for i in range(pl.ndim) if i not in axes]
    mv = np.transpose(pl, keep + list(axes)).reshape([pl.shape[i] for i in keep] + [-1])
    shp = mv.shape[:-1]
    o = np.empty(shp, dtype=object)

    def red(xs):
        acc = None
        if name == "add":
            s = None
            for x in xs:
                x = num(x)
                s = x.p if s is None else s + x.p
            return SymNum(s if s is not None else ZERO, k)
        for x in xs:
            if acc is None:
                acc = x
            else:
                acc = f(acc, x)
        if acc is None:
            if ident is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            acc = ident if k == "b" else num(ident)
        if k != "b":
            acc = num(acc)
            acc = SymNum(acc.p, k)
        elif not isinstance(acc, (SymBool, bool)):
            acc = simp(tobool(acc))
        return acc
    for ix in np.ndindex(shp):
        o[ix] = red(list(mv[ix]))
    if initial is not None:
        o = np.frompyfunc(lambda x: f(num(x), num(initial)), 1, 1)(o)
    r = SymArray(o, k)
    if keepdims:
        r = r.reshape([1 if i in axes else pl.shape[i] for i in range(pl.ndim)])
    if k == "b":
        r = finish_bool(r)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


_MM = {}
MM_HOOK = None
MUL_HOOK = None


def _akey(a):
    return (a.shape, a.lk, tuple(id(x.p) for x in a.plain().reshape(-1)))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.lk == "b":
        a = asarr(a, "i")
    if b.lk == "b":
        b = asarr(b, "i")
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        shp = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A = np.broadcast_to(a.plain(), shp + a.shape[-2:])
        B = np.broadcast_to(b.plain(), shp + b.shape[-2:])
        k = kmax(a.lk, b.lk)
        o = np.empty(shp + (a.shape[-2], b.shape[-1]), dtype=object)
        for ix in np.ndindex(shp):
            o[ix] = matmul(SymArray(A[ix], a.lk), SymArray(B[ix], b.lk)).plain()
        return SymArray(o, k)
    va, vb = a.ndim == 1, b.ndim == 1
    A = a.plain().reshape(1, -1) if va else a.plain()
    B = b.plain().reshape(-1, 1) if vb else b.plain()
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (B.shape[0], A.shape[1]))
    k = kmax(a.lk, b.lk)
    key = None
    if A.size * B.shape[1] >= 8:
        key = (a.shape, b.shape, k, tuple([id(x.p) for x in A.flat]), tuple([id(x.p) for x in B.flat]))
        hit = _MM.get(key)
        if hit is not None:
            return SymArray(hit[0].copy(), k)
    square = not va and not vb and A.shape[0] == B.shape[1]
    if square and MM_HOOK is not None:
        r = MM_HOOK(A, B, None, k)
        if r is not None:
            return r
    rowsB = [[(j, B[i, j].p) for j in range(B.shape[1]) if B[i, j].p.t] for i in range(B.shape[0])]
    o = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        acc = [None] * B.shape[1]
        for l in range(A.shape[1]):
            x = A[i, l].p
            if not x.t:
                continue
            for j, y in rowsB[l]:
                v = x * y
                acc[j] = v if acc[j] is None else acc[j] + v
        for j in range(B.shape[1]):
            o[i, j] = SymNum(acc[j] if acc[j] is not None else ZERO, k)
    if va and vb:
        o = o.reshape(())
    elif va:
        o = o.reshape(-1)
    elif vb:
        o = o.reshape(-1)
    if key is not None:
        # keep operands alive so that ids stay valid
        _MM[key] = (o, A, B)
        if len(_MM) > 4000:
            _MM.clear()
        o = o.copy()
    if square and MM_HOOK is not None:
        MM_HOOK(A, B, o, k)
    return SymArray(o, k)


def clear_caches():
    _MM.clear()
    del _SQRTS[:]
    _MM_KEEP.clear()


_MM_KEEP = {}
