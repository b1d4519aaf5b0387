"""Exact polynomial normal form over Q used as the term language of the
symbolic executor.

A scalar is a polynomial with rational coefficients in *atoms*.  Atoms are
real, integer or complex unknowns (a complex unknown comes with its conjugate
atom), the imaginary unit, and auxiliary atoms introduced for non-polynomial
operations (square roots, inverses, rounding, logarithms, results of external
numerical routines).  Rewrite rules (I*I -> -1, t*t -> p for t = sqrt(p),
q*p -> 1 for q = 1/p, ...) are a terminating system for the lexicographic
order in which newer atoms are larger.  Everything a rule cannot decide is left
to the SMT solver: each auxiliary atom carries its defining axioms.
"""
from fractions import Fraction
from math import gcd, isqrt

ZERO_M = ()


class Atom:
    __slots__ = ("id", "name", "kind", "conj", "re", "im", "axioms", "evalf",
                 "nonneg", "pos", "meta", "deps")

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind          # real | int | cplx | I
        self.conj = id
        self.re = self.im = None  # real atoms of a complex atom
        self.axioms = []          # SymBool formulas
        self.evalf = None         # numeric evaluator env -> complex
        self.nonneg = False
        self.pos = False
        self.meta = None
        self.deps = ()


class Table:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.byname = {}
        self.rules = {}        # atom id -> list of (pattern sorted tuple, repl dict)
        self.ruled = set()
        self.memo = {}
        self.cache = {}        # keyed auxiliary atoms
        self.split_cache = {}
        self.I = self.new("I", "I").id
        self.r2 = None
        self.add_rule((self.I, self.I), Poly({(): -1}))
        self.atoms[self.I].evalf = lambda env: 1j

    def new(self, name, kind):
        if name in self.byname:
            raise KeyError("atom exists: " + name)
        a = Atom(len(self.atoms), name, kind)
        self.atoms.append(a)
        self.byname[name] = a
        return a

    def real(self, name, nonneg=False, pos=False, kind="real"):
        a = self.byname.get(name)
        if a is None:
            a = self.new(name, kind)
            a.nonneg = nonneg or pos
            a.pos = pos
        return a

    def cplx(self, name, unit=False):
        a = self.byname.get(name)
        if a is None:
            re = self.real(name + ".re")
            im = self.real(name + ".im")
            a = self.new(name, "cplx")
            b = self.new(name + "~", "cplx")
            a.conj, b.conj = b.id, a.id
            a.re, a.im, b.re, b.im = re.id, im.id, re.id, im.id
            ri, ii = re.name, im.name
            a.evalf = lambda env: complex(env[ri], env[ii])
            b.evalf = lambda env: complex(env[ri], -env[ii])
            a.deps = b.deps = (re.id, im.id)
        return a

    def add_rule(self, pattern, repl):
        pattern = tuple(sorted(pattern))
        key = pattern[-1]
        self.rules.setdefault(key, []).append((pattern, repl.t))
        self.ruled.update(pattern)
        self.memo.clear()


def _sub_multiset(pat, m):
    """m - pat if pat is a sub-multiset of the sorted tuple m, else None."""
    rest = []
    i = 0
    n = len(pat)
    for x in m:
        if i < n and pat[i] == x:
            i += 1
        else:
            if i < n and pat[i] < x:
                return None
            rest.append(x)
    return tuple(rest) if i == n else None


def _reduce(m):
    """None if m is irreducible, else the dict of its normal form."""
    memo = T.memo
    r = memo.get(m, 0)
    if r != 0:
        return r
    rules = T.rules
    last = -1
    for a in reversed(m):
        if a == last:
            continue
        last = a
        rl = rules.get(a)
        if rl is None:
            continue
        for pat, repl in rl:
            rest = _sub_multiset(pat, m)
            if rest is not None:
                out = {}
                for rm, rc in repl.items():
                    mm = tuple(sorted(rest + rm)) if rest else rm
                    d = _reduce(mm)
                    if d is None:
                        _acc(out, mm, rc)
                    else:
                        for k, c in d.items():
                            _acc(out, k, c * rc)
                memo[m] = out
                return out
    memo[m] = None
    return None


def _acc(out, m, c):
    o = out.get(m)
    if o is None:
        out[m] = c
    else:
        o = o + c
        if o == 0:
            del out[m]
        else:
            out[m] = o


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_r")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._r = None

    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    @property
    def ruled(self):
        r = self._r
        if r is None or r[0] != len(T.ruled):
            ru = T.ruled
            v = False
            for m in self.t:
                for a in m:
                    if a in ru:
                        v = True
                        break
                if v:
                    break
            self._r = r = (len(ru), v)
        return r[1]

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __add__(self, o):
        a, b = self.t, o.t
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        out = dict(a)
        for m, c in b.items():
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
        return Poly(out)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not o.t:
            return self
        return self + (-o)

    def scale(self, c):
        c = _norm(c)
        if c == 0 or not self.t:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _norm(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) > len(b):
            a, b = b, a
        out = {}
        slow = self.ruled and o.ruled
        if not slow:
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                    v = out.get(m)
                    if v is None:
                        out[m] = c1 * c2
                    else:
                        v = v + c1 * c2
                        if v == 0:
                            del out[m]
                        else:
                            out[m] = v
            return Poly(out)
        memo = T.memo
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                d = memo.get(m, 0)
                if d == 0:
                    d = _reduce(m)
                c = c1 * c2
                if d is None:
                    v = out.get(m)
                    if v is None:
                        out[m] = c
                    else:
                        v = v + c
                        if v == 0:
                            del out[m]
                        else:
                            out[m] = v
                else:
                    for k, kc in d.items():
                        v = out.get(k)
                        if v is None:
                            out[k] = c * kc
                        else:
                            v = v + c * kc
                            if v == 0:
                                del out[k]
                            else:
                                out[k] = v
        return Poly(out)

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def renorm(self):
        """Re-apply rules (needed only for polynomials older than a rule)."""
        out = {}
        for m, c in self.t.items():
            d = _reduce(m)
            if d is None:
                _acc(out, m, c)
            else:
                for k, kc in d.items():
                    _acc(out, k, c * kc)
        return Poly(out)

    def conj(self):
        at = T.atoms
        need = False
        for m in self.t:
            for a in m:
                if at[a].conj != a or a == T.I:
                    need = True
                    break
            if need:
                break
        if not need:
            return self
        out = {}
        I = T.I
        for m, c in self.t.items():
            k = []
            for a in m:
                if a == I:
                    c = -c
                    k.append(a)
                else:
                    k.append(at[a].conj)
            k.sort()
            _acc(out, tuple(k), c)
        return Poly(out)

    def is_real(self):
        return self.conj().t == self.t

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def real_part(self):
        c = self.conj()
        if c is self:
            return self
        return (self + c).scale(Fraction(1, 2))

    def imag_part(self):
        c = self.conj()
        if c is self:
            return ZERO
        return ((self - c) * NEG_I()).scale(Fraction(1, 2))

    def __repr__(self):
        if not self.t:
            return "0"
        s = []
        for m, c in list(self.t.items())[:12]:
            s.append(str(c) + ("*" if m else "") + "*".join(T.atoms[a].name for a in m))
        return " + ".join(s) + (" + ..." if len(self.t) > 12 else "")


ZERO = Poly({})
ONE = Poly({(): 1})
T = Table.__new__(Table)
T.__init__()


def IMAG():
    return Poly({(T.I,): 1})


def NEG_I():
    return Poly({(T.I,): -1})


def lexkey(m):
    return tuple(sorted(m, reverse=True))


def lead(p):
    return max(p.t, key=lexkey)


def frac(x):
    """Exact rational of a Python/numpy real number, decimal literals read as
    the decimals they are written as."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _norm(x)
    import numpy as _np
    if isinstance(x, _np.integer) or isinstance(x, _np.bool_):
        return int(x)
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise OverflowError("non-finite")
    if f == int(f) and abs(f) < 2 ** 53:
        return int(f)
    d = Fraction(repr(f))
    if d.denominator > 10 ** 12:
        # a float that is the nearest one to a small ratio (1/3, 4/3) reads as that ratio
        c = d.limit_denominator(720)
        if float(c) == f:
            return _norm(c)
    return _norm(d)


def isqrt_frac(c):
    """sqrt of a non-negative rational if rational, else None."""
    c = Fraction(c)
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return _norm(Fraction(n, d))
    return None


def squarefree(n):
    """n = s*s*f, f squarefree (small n)."""
    s, f, p = 1, 1, 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k & 1:
            f *= p
        p += 1
        if p > 100000:
            break
    return s, f * n


def content(p):
    """positive rational content of p (gcd of numerators / lcm of denominators)."""
    g, l = 0, 1
    for c in p.t.values():
        c = Fraction(c)
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    return _norm(Fraction(g, l)) if g else 1
