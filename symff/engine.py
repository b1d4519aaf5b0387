"""Path-exploring symbolic executor: decisions, feasibility, obligations.

Paths are explored by re-execution with a prefix of recorded decisions.  Every
branch on a symbolic condition is a decision; infeasible sides are pruned by the
SMT solver (or kept when it answers unknown).  Obligations are discharged by
exact normal form plus solver, or yield concrete values that are replayed on the
real package.
"""
import hashlib
import json
import math
import random
import signal
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from .poly import Poly, T, ZERO, ONE
from . import sym as S
from .sym import SymNum, SymBool, SymArray, SymUnsupported, NonFinite, H, asarr, num
from . import shim_linalg as L
from . import shim_random as R
from . import shims
from .shim_np import NP


DEFTOL = 1e-7          # absolute tolerance of an equality, see DESIGN.md


class PathInfeasible(BaseException):
    pass


class PathTimeout(BaseException):
    pass


class Stop(BaseException):
    """harness ends here (nothing further to check on this path)"""


BOX = 10       # set per harness (registry)


def box(at):
    """largest modulus queries give an input (as text for the solvers: the finite part of the domain they search)"""
    m = at.meta
    if isinstance(m, tuple) and m and m[0] == "range":
        return max(abs(m[1]), abs(m[2]), 1)
    return BOX

_Random = random.Random


# --------------------------------------------------------------------------
# sample environments


class Env(dict):
    """base atom values; lazily drawn, deterministic in (seed, atom name)"""

    def __init__(self, seed, base=None):
        dict.__init__(self)
        self.seed = seed
        self.base = dict(base or {})
        self.update(self.base)

    def rng(self, name):
        h = hashlib.blake2b(("%s|%s" % (self.seed, name)).encode(), digest_size=8).digest()
        return _Random(int.from_bytes(h, "big"))

    def get(self, name, d=None):
        v = dict.get(self, name)
        if v is None:
            at = T.byname.get(name)
            if at is None or at.evalf is None:
                draw(self, name, at)
                v = dict.get(self, name)
        return v

    def __missing__(self, name):
        at = T.byname.get(name)
        if at is not None and at.evalf is not None:
            v = at.evalf(self)
            self[name] = v
            return v
        draw(self, name, at)
        return dict.__getitem__(self, name)

    def put(self, name, v):
        if name not in self.base:
            self[name] = v
            self.base[name] = v


def _r(x, nd=4):
    return round(x, nd)


def draw(env, name, at):
    meta = at.meta if at is not None else None
    rg = env.rng(name)
    if meta is not None:
        if meta[0] == "simplex":
            base, n = meta[1], meta[2]
            g = env.rng(base)
            w = [g.expovariate(1.0) + 0.02 for _ in range(n)]
            t = sum(w)
            vals = [_r(x / t) for x in w]
            for i in range(n - 1):
                env.put("%s_%d" % (base, i), vals[i])
            return
        if meta[0] == "quat":
            base = meta[1]
            g = env.rng(base)
            v = [g.gauss(0, 1) for _ in range(4)]
            s = math.sqrt(sum(x * x for x in v))
            for i in range(4):
                env.put("%s_q%d" % (base, i), v[i] / s)
            return
        if meta[0] == "sphere":
            names = meta[1]
            g = env.rng(names[0])
            v = [g.gauss(0, 1) for _ in names]
            s = math.sqrt(sum(x * x for x in v))
            for q, x in zip(names, v):
                env.put(q, x / s)
            return
        if meta[0] == "ball":
            base = meta[1]
            for c in "xy":
                g = env.rng(base + c)
                v = [g.gauss(0, 1) for _ in range(3)]
                s = math.sqrt(sum(x * x for x in v))
                rad = 0.2 + 1.1 * g.random()
                for i in range(3):
                    env.put("%s_%s%d" % (base, c, i), _r(v[i] / s * rad))
            return
        if meta[0] == "angle":
            env.put(name, _r(rg.uniform(-3.0, 3.0)))
            return
        if meta[0] == "range":
            lo, hi = float(meta[1]), float(meta[2])
            if at.kind == "int":
                env.put(name, float(rg.randint(int(lo), int(hi))))
            else:
                env.put(name, min(hi, max(lo, _r(lo + (hi - lo) * (0.02 + 0.96 * rg.random())))))
            return
        if meta[0] == "around":
            env.put(name, _r(float(meta[1]) + float(meta[2]) * rg.uniform(-1, 1)))
            return
    is_int = at is not None and at.kind == "int"
    nn = at is not None and at.nonneg
    lo, hi = S._range(at.id) if at is not None and at.axioms else (None, None)
    for t in range(60):
        if t >= 20 and lo is not None and hi is not None and lo <= hi:
            v = float(rg.randint(math.ceil(lo), math.floor(hi))) if is_int else _r(float(lo) + float(hi - lo) * (0.01 + 0.98 * rg.random()))
        elif is_int:
            v = float(rg.randint(0 if nn or t < 20 else -4, 3 + t // 4))
        else:
            v = rg.gauss(0, 1)
            v = math.copysign(abs(v) + 0.05, v)
            if nn:
                v = abs(v)
                if t > 2:
                    v = rg.random() * 0.98 + 0.01
            v = _r(v)
        if at is None or not at.axioms:
            break
        own = Env(env.seed, {**env.base, name: v})
        try:
            if all(S.eval_bool(b, own, 1e-9) for b in at.axioms):
                break
        except (KeyError, RecursionError, ZeroDivisionError):
            break
    env.put(name, v)


# --------------------------------------------------------------------------
# SMT translation


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.cross = 0
        self.cross_agree = 0
        self.cross_disagree = 0


class SMT:
    def __init__(self, stats):
        self.stats = stats
        self.vars = {}
        self.cache = {}
        self.bcache = {}
        self.cross_budget = 0

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            at = T.atoms[a]
            v = self.vars[a] = (z3.ToReal(z3.Int(at.name)) if at.kind == "int" else z3.Real(at.name))
        return v

    def rpoly(self, p, lin=None):
        """z3 term of a polynomial in real atoms"""
        key = (p, lin is not None)
        e = self.cache.get(key)
        if e is not None:
            return e
        terms = []
        for m, c in p.t.items():
            c = Fraction(c)
            cv = z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
            if not m:
                terms.append(cv)
                continue
            if lin is not None and len(m) > 1:
                mono = lin.get(m)
                if mono is None:
                    mono = lin[m] = z3.Real("m_" + "_".join(str(a) for a in m))
            else:
                mono = self.var(m[0])
                for a in m[1:]:
                    mono = mono * self.var(a)
            terms.append(mono if c == 1 else cv * mono)
        e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        if lin is None:
            self.cache[key] = e
        return e

    def real(self, p):
        return S.split(p)[0]

    def form(self, b, lin=None):
        key = None
        if lin is None:
            e = self.bcache.get(b.key())
            if e is not None:
                return e
        op = b.op
        if op == "const":
            e = z3.BoolVal(b.a)
        elif op in ("le", "lt", "eq"):
            re, im = S.split(b.a)
            t = self.rpoly(re, lin)
            if op == "le":
                e = t <= 0
            elif op == "lt":
                e = t < 0
            else:
                e = t == 0
                if im.t:
                    e = z3.And(e, self.rpoly(im, lin) == 0)
        elif op == "and":
            e = z3.And(*[self.form(x, lin) for x in b.a])
        elif op == "or":
            e = z3.Or(*[self.form(x, lin) for x in b.a])
        else:
            e = z3.Not(self.form(b.a, lin))
        if lin is None:
            self.bcache[b.key()] = e
        return e

    def closure(self, target, path, deep=False):
        """constraints relevant to the formulas in `target`: those that share atoms with
        them directly, or (deep) through the definitions of their atoms"""
        seen = set()
        work = set()
        for b in target:
            work |= real_atoms(b)
        used = set()
        axs = []
        axseen = set()
        path = list(path)
        while work or True:
            while work:
                a = work.pop()
                if a in seen:
                    continue
                seen.add(a)
                at = T.atoms[a]
                for b in at.axioms:
                    if b.op == "const":
                        continue
                    h = id(b)
                    if h in axseen:
                        continue
                    axseen.add(h)
                    axs.append(b)
                    work |= real_atoms(b) - seen
                if at.evalf is None and at.kind != "int":
                    p = Poly.atom(a)
                    if not (isinstance(at.meta, tuple) and at.meta and at.meta[0] == "range"):
                        axs.append(SymBool("le", p - Poly.const(BOX)))
                        axs.append(SymBool("le", -p - Poly.const(BOX)))
            grew = False
            for i, b in enumerate(path):
                if i in used:
                    continue
                ra = real_atoms(b)
                if ra & seen or not ra or (deep and any(support(a) & seen for a in ra)):
                    used.add(i)
                    work |= ra - seen
                    grew = True
            if not grew and not work:
                break
        return [path[i] for i in sorted(used)] + axs, seen

    def check(self, target, path, timeout=2000, want_model=False, abstract=True, deep=False):
        """satisfiability of path & target; returns (verdict, model values)"""
        if not target:
            target = list(path)
        cons, atoms = self.closure(target, path, deep)
        allb = list(target) + cons
        t0 = time.time()
        self.stats.queries += 1
        nonlin = any(_nonlin(b) for b in allb)
        res = "unknown"
        vals = None
        smt2 = None
        try:
            if nonlin and abstract:
                lin = {}
                s = z3.Solver()
                s.set("timeout", max(200, timeout // 3))
                for b in allb:
                    s.add(self.form(b, lin))
                for m, v in lin.items():      # even powers are non-negative
                    if all(m.count(a) % 2 == 0 for a in m):
                        s.add(v >= 0)
                    if all(T.atoms[a].evalf is None and T.atoms[a].kind != "int" for a in m):
                        w = P.frac(1)
                        for a in m:
                            w *= P.frac(box(T.atoms[a]))
                        w = z3.RealVal(str(w))
                        s.add(v <= w, v >= -w)
                if s.check() == z3.unsat:
                    res = "unsat"
                    if self.cross_budget > 0:
                        smt2 = s.to_smt2()
            if res == "unknown":
                ints = any(T.atoms[a].kind == "int" for a in atoms)
                solvers = [z3.Solver()]
                if nonlin and not ints:
                    solvers.insert(0, z3.Tactic("qfnra-nlsat").solver())
                for s in solvers:
                    s.set("timeout", max(200, timeout // len(solvers)))
                    for b in allb:
                        s.add(self.form(b))
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    if r == z3.unsat:
                        res = "unsat"
                        if self.cross_budget > 0:
                            smt2 = s.to_smt2()
                        break
                    if r == z3.sat:
                        res = "sat"
                        if want_model:
                            m = s.model()
                            vals = {}
                            for a in atoms:
                                at = T.atoms[a]
                                if at.evalf is None:
                                    vals[at.name] = _val(m, z3.Int(at.name) if at.kind == "int" else z3.Real(at.name))
                        break
        except z3.Z3Exception as e:
            res = "unknown"
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        if smt2 is not None:
            self.cross_budget -= 1
            self._cross(smt2)
        return res, vals

    def _cross(self, smt2):
        """ask cvc5 the same question (thorough tier)"""
        import subprocess
        t0 = time.time()
        try:
            q = smt2 if "(check-sat)" in smt2 else smt2 + "\n(check-sat)\n"
            if "set-logic" not in q:
                q = "(set-logic ALL)\n" + q
            o = subprocess.run(["cvc5", "--tlimit=4000", "-"], input=q, text=True, capture_output=True, timeout=8).stdout
        except Exception:
            return
        self.stats.cross += 1
        first = o.strip().splitlines()[0] if o.strip() else ""
        if first == "unsat":
            self.stats.cross_agree += 1
        elif first == "sat":
            self.stats.cross_disagree += 1


_SUP = {}


def support(a):
    """the atoms a is defined from"""
    r = _SUP.get(a)
    if r is None:
        r, work = set(), [a]
        while work:
            x = work.pop()
            if x in r:
                continue
            r.add(x)
            if T.atoms[x].evalf is not None:
                for b in T.atoms[x].axioms:
                    work += real_atoms(b) - r
        _SUP[a] = r
    return r


_RA = {}


def real_atoms(b):
    """ids of the real atoms in a formula"""
    k = b.key()
    r = _RA.get(k)
    if r is None:
        r = set()
        for a in S.bool_atoms(b, set()):
            at = T.atoms[a]
            if at.kind == "cplx":
                r.add(at.re)
                r.add(at.im)
            elif at.kind != "I":
                r.add(a)
        _RA[k] = r
    return r


def _nonlin(b):
    if b.op in ("le", "lt", "eq"):
        return any(len(m) > 1 for m in b.a.t)
    if b.op in ("and", "or"):
        return any(_nonlin(x) for x in b.a)
    if b.op == "not":
        return _nonlin(b.a)
    return False


def _val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return float(x.as_long())
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(14)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


def relax(b, tol, pol=True):
    """weaken b by tol (pol) or strengthen it"""
    if b.op in ("le", "lt"):
        return SymBool("le", b.a - Poly.const(tol) if pol else b.a + Poly.const(tol))
    if b.op == "eq":
        if pol:
            return S.band(SymBool("le", b.a - Poly.const(tol)), SymBool("le", -b.a - Poly.const(tol)))
        return b
    if b.op == "and":
        return S.band(*[relax(x, tol, pol) for x in b.a])
    if b.op == "or":
        return S.bor(*[relax(x, tol, pol) for x in b.a])
    if b.op == "not":
        return S.bnot(relax(b.a, tol, not pol))
    return b


# --------------------------------------------------------------------------


class Engine:
    """one path"""

    def __init__(self, run, prefix, envs):
        self.run = run
        self.prefix = prefix
        self.trace = []
        self.path = []
        self.pkeys = set()
        self.sqrt_hints = []
        self.smt = SMT(run.stats)
        self.smt.cross_budget = run.cross_left
        self.samples = [Env(run.seed * 1000 + i) for i in range(4)] if not envs else []
        for i, e in enumerate(envs or ()):
            self.samples.append(Env(run.seed * 1000 + 100 + i, e))
        self.choices = {}
        self.unwitnessed = False
        self.forks = 0
        self.decisions = 0
        self.pending = []
        self.asked = 0

    # ---- facts
    def _add(self, b):
        if b.op == "and":
            for x in b.a:
                self._add(x)
            return
        k = b.key()
        if k in self.pkeys or b.op == "const":
            return
        self.pkeys.add(k)
        self.path.append(b)
        if b.op == "eq":
            self._rule(b.a)

    def _rule(self, p):
        """orient a linear equation x = ... as a rewrite rule"""
        p = p.renorm()
        if not p.t or p.is_const():
            return
        if any(T.atoms[a].kind == "cplx" for a in p.atoms()):
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 2 and T.atoms[m[0]].conj == m[1]:     # |z|^2 = 0
                    T.add_rule((m[0],), ZERO)
                    T.add_rule((m[1],), ZERO)
            return
        l = P.lead(p)
        if len(l) == 1 and T.atoms[l[0]].kind in ("real", "int"):
            if any(l[0] in m for m in p.t if m != l):
                return
            c = Fraction(p.t[l])
            rest = (p - Poly({l: p.t[l]})).scale(-1 / c)
            self._subst(l[0], rest.renorm())
        elif len(p.t) == 1 and len(set(l)) == 1:
            self._subst(l[0], ZERO)

    def _subst(self, x, rest):
        """x -> rest, and what an existing rule x*x -> q then says about the others"""
        old = [r for pat, r in T.rules.get(x, []) if set(pat) == {x}]
        T.add_rule((x,), rest)
        for r in old[:1]:
            q = (rest * rest - Poly(r)).renorm()
            if not q.t or q.is_const() or not q.is_real() or any(T.atoms[a].kind not in ("real", "int") for a in q.atoms()):
                continue
            l = P.lead(q)
            if len(l) == 2 and l[0] == l[1] and not any(set(pat) == {l[0]} for pat, _ in T.rules.get(l[0], [])):
                c = Fraction(q.t[l])
                rest = (q - Poly({l: q.t[l]})).scale(-1 / c).renorm()
                T.add_rule(l, rest)
                if rest == ONE:
                    self.pending.append(l[0])

    def _filter(self, b):
        out = []
        for e in self.samples:
            try:
                if S.eval_bool(b, e):
                    out.append(e)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        self.samples = out

    def _ok(self, e, bs):
        try:
            return all(S.eval_bool(b, e, 1e-7) for b in bs)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return False

    def refill(self, extra=(), tries=40):
        """look for samples of the path (and extra) by drawing"""
        bs = list(extra) + self.path[::-1]
        for i in range(tries):
            e = Env(self.run.seed * 1000 + 200 + i)
            try:
                if all(S.eval_bool(b, e) for b in bs):
                    return e
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                continue
        return None

    def model_env(self, vals):
        base = {}
        if self.samples:
            base.update(self.samples[0].base)
        base.update(vals)
        return Env(self.run.seed * 1000 + 99, base)

    def feasible(self, b):
        """('sat'|'unsat'|'unknown', env or None)"""
        e = self.refill([b], 12)
        if e is not None:
            return "sat", e
        r, vals = self.smt.check([b], self.path, self.run.q_ms, want_model=True)
        if r == "sat":
            env = self.model_env(vals or {})
            if self._ok(env, [b] + self.path):
                return "sat", env
            r, vals = self.smt.check([b], self.path, self.run.q_ms, want_model=True, deep=True)
            if r == "unsat":
                return r, None
            if r == "sat":
                env = self.model_env(vals or {})
                if self._ok(env, [b] + self.path):
                    return "sat", env
            e = self.refill([b], 150)
            return "sat", e
        if r == "unknown":
            e = self.refill([b], 150)
            if e is not None:
                return "sat", e
        return r, None

    # ---- hooks called by the symbolic values
    def implied(self, b):
        if b.key() in self.pkeys:
            return True
        n = S.bnot(b)
        if n.key() in self.pkeys:
            return False
        if b.op == "and":
            r = [self.implied(x) for x in b.a]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
        if b.op == "or":
            r = [self.implied(x) for x in b.a]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
        return None

    def renorm(self, b):
        if b.op in ("le", "lt", "eq"):
            p = b.a.renorm()
            return S.rel(b.op, p) if p.t != b.a.t else b
        if b.op in ("and", "or"):
            return (S.band if b.op == "and" else S.bor)(*[self.renorm(x) for x in b.a])
        if b.op == "not":
            return S.bnot(self.renorm(b.a))
        return b

    def settled(self, b):
        """True or False if every input on this path gives b that value and the solver shows it quickly"""
        b = self.renorm(b)
        if b.op == "const":
            return b.a
        self.asked += 1
        key = (tuple(self.trace), self.asked)
        memo = self.run.memo
        if key in memo:
            return memo[key]
        seen = set()
        for e in self.samples:
            try:
                seen.add(bool(S.eval_bool(b, e)))
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        r = None
        if len(seen) == 1:
            v = seen.pop()
            res, _ = self.smt.check([S.bnot(b) if v else b], self.path, 300)
            if res == "unsat":
                r = v
        memo[key] = r
        return r

    def decide(self, b, tag=None):
        b = self.renorm(b)
        if b.op == "const":
            return b.a
        r = self.implied(b)
        if r is not None:
            return r
        self.run.tick()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v[0] != "b":
                raise SymUnsupported("replay diverged")
            v = v[1]
            self.trace.append(("b", v))
            c = b if v else S.bnot(b)
            self._filter(c)
            self._add(c)
            self._factors(c)
            return v
        self.decisions += 1
        yes, no = [], []
        for e in self.samples:
            try:
                (yes if S.eval_bool(b, e) else no).append(e)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        nb = S.bnot(b)
        ry = rn = "sat"
        if not yes:
            ry, e = self.feasible(b)
            if e is not None:
                yes.append(e)
        if not no and ry != "unsat":
            rn, e = self.feasible(nb)
            if e is not None:
                no.append(e)
        elif not no:
            rn = "sat"
        if ry == "unsat":
            v = False
        elif rn == "unsat":
            v = True
        else:
            v = len(yes) >= len(no)
            self.forks += 1
            other = no if v else yes
            self.run.enqueue(self.trace + [("b", not v)], [e.base for e in other], bool(other))
        self.trace.append(("b", v))
        c = b if v else nb
        self.samples = yes if v else no
        if not self.samples:
            self.unwitnessed = True
        self._add(c)
        self._factors(c)
        return v

    def _factors(self, c):
        """a product that is zero: follow each factor separately"""
        while self.pending:     # x*x = 1
            x = Poly.atom(self.pending.pop())
            self._add(SymBool("eq", (x + ONE if self.decide(SymBool("lt", x)) else x - ONE).renorm()))
        if c.op != "eq" or len(c.a.t) != 1:
            return
        (m, _), = c.a.t.items()
        at = [a for a in dict.fromkeys(m) if not T.atoms[a].pos]
        if len(at) < 2 or any(T.atoms[a].kind not in ("real", "int") for a in at):
            return
        for a in at[:-1]:
            if self.decide(SymBool("eq", Poly({(a,): 1}))):
                return

    def concretise(self, x):
        p = x.p.renorm()
        if p.is_const():
            return int(p.const_value())
        for _ in range(200):
            i = len(self.trace)
            if i < len(self.prefix):
                tagv = self.prefix[i]
                if tagv[0] != "v":
                    raise SymUnsupported("replay diverged")
                v = tagv[1]
            else:
                v = None
                for e in self.samples:
                    try:
                        v = int(round(S.eval_poly(p, e).real))
                        break
                    except (KeyError, ZeroDivisionError):
                        continue
                if v is None:
                    probe = T.real("probe!%d" % len(T.cache), kind="int")
                    T.cache["probe%d" % len(T.cache)] = probe
                    r, vals = self.smt.check([SymBool("eq", p - Poly.atom(probe.id))], self.path, self.run.q_ms, want_model=True)
                    if r == "unsat":
                        raise PathInfeasible()
                    if r != "sat":
                        raise SymUnsupported("cannot concretise")
                    v = int(vals[probe.name])
            self.trace.append(("v", v))
            if self.decide(S.rel("eq", p - Poly.const(v))):
                return v
        raise SymUnsupported("too many integer values")

    def assume(self, b):
        b = S.tobool(b)
        b = self.renorm(b)
        if b.op == "const":
            if not b.a:
                raise PathInfeasible()
            return
        if self.implied(b) is True:
            return
        replay = len(self.trace) < len(self.prefix)
        if not self.trace and b.op in ("lt", "le"):
            # unconditional lower bound on a polynomial: k - p < 0 with k >= 0
            k = b.a.t.get((), 0)
            if k > 0 or (k == 0 and b.op == "lt"):
                S.pos_fact(Poly.const(k) - b.a)
        self._filter(b)
        if not self.samples and not replay:
            e = self.refill([b], 200)
            if e is not None:
                self.samples = [e]
            else:
                r, vals = self.smt.check([b], self.path, self.run.q_ms * 2, want_model=True)
                if r == "unsat":
                    raise PathInfeasible()
                if r == "sat" and vals is not None:
                    env = self.model_env(vals)
                    if self._ok(env, [b] + self.path):
                        self.samples = [env]
                if not self.samples:
                    self.unwitnessed = True
        self._add(b)

    def choose(self, name):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            v = True
            self.forks += 1
            self.run.enqueue(self.trace + [("c", False)], [e.base for e in self.samples], True)
        self.trace.append(("c", v))
        return v

    def proves_zero(self, p):
        p = p.renorm()
        if p.is_zero():
            return True
        for e in self.samples:
            try:
                if abs(S.eval_poly(p, e)) > 1e-7:
                    return False
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        re, im = S.split(p)
        tgt = [SymBool("lt", -q * q) for q in (re, im) if q.t]
        if len(p.t) > 60:
            return False
        return self.smt.check([S.bor(*[S.bor(SymBool("lt", q), SymBool("lt", -q)) for q in (re, im) if q.t])],
                              self.path, min(800, self.run.q_ms))[0] == "unsat"


# --------------------------------------------------------------------------
# contexts


class Fail:
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class Ctx:
    """shared input constructors (inputs are polynomials in named atoms)"""

    def _poly(self, x):
        raise NotImplementedError

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        a = T.real(name, pos=pos, nonneg=nonneg)
        p = Poly.atom(a.id)
        if not a.axioms:
            ax = []
            if pos:
                ax.append(SymBool("lt", -p))
            elif nonneg:
                ax.append(SymBool("le", -p))
            if lo is not None:
                ax.append(SymBool("le", Poly.const(P.frac(lo)) - p))
            if hi is not None:
                ax.append(SymBool("le", p - Poly.const(P.frac(hi))))
            a.axioms = ax
            if lo is not None and hi is not None:
                a.meta = ("range", lo, hi)
            if lo is not None and lo > 0:
                a.pos = a.nonneg = True
            if lo is not None and lo >= 0:
                a.nonneg = True
        return self.low(SymNum(p, "f"))

    def int(self, name, lo, hi):
        a = T.real(name, kind="int", nonneg=lo >= 0, pos=lo > 0)
        p = Poly.atom(a.id)
        if not a.axioms:
            a.axioms = [SymBool("le", Poly.const(lo) - p), SymBool("le", p - Poly.const(hi))]
            a.meta = ("range", lo, hi)
        return self.low(SymNum(p, "i"))

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def cplx(self, name):
        return self.low(SymNum(Poly.atom(T.cplx(name).id), "c"))

    def _arr(self, f, shape, k):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = SymNum(f(ix), k)
        return self.low(SymArray(o, k))

    def _entry(self, name, k, **kw):
        if k == "c":
            return Poly.atom(T.cplx(name).id)
        if k == "i":
            raise SymUnsupported
        a = T.real(name, **kw)
        if kw and not a.axioms:
            a.axioms = [SymBool("lt" if kw.get("pos") else "le", -Poly.atom(a.id))]
        return Poly.atom(a.id)

    def vector(self, name, n, kind="f", **kw):
        return self._arr(lambda ix: self._entry("%s%d" % (name, ix[0]), kind, **kw), (n,), kind)

    def matrix(self, name, n, m=None, kind="f", **kw):
        m = n if m is None else m
        return self._arr(lambda ix: self._entry("%s%d_%d" % (name, ix[0], ix[1]), kind, **kw), (n, m), kind)

    def narrow_ints(self, name, shape, dtype, lo=None, hi=None):
        """integers stored in the machine type dtype, over its whole range unless told otherwise"""
        ii = np.iinfo(dtype)
        a = self.ints(name, shape, int(ii.min) if lo is None else lo, int(ii.max) if hi is None else hi)
        return S.narrow_array(a, dtype) if self.sym else a.astype(dtype)

    def ints(self, name, shape, lo, hi):
        def f(ix):
            nm = name + "_".join(str(i) for i in ix)
            a = T.real(nm, kind="int", nonneg=lo >= 0, pos=lo > 0)
            p = Poly.atom(a.id)
            if not a.axioms:
                a.axioms = [SymBool("le", Poly.const(lo) - p), SymBool("le", p - Poly.const(hi))]
                a.meta = ("range", lo, hi)
            return p
        return self._arr(f, shape, "i")

    def hermitian(self, name, n, kind="c"):
        def f(ix):
            i, j = ix
            if i == j:
                return Poly.atom(T.real("%s%d_%d" % (name, i, i)).id)
            a, b = max(i, j), min(i, j)
            e = self._entry("%s%d_%d" % (name, a, b), kind)
            return e if i > j else e.conj()
        return self._arr(f, (n, n), kind)

    def antisym(self, name, n, kind="f"):
        def f(ix):
            i, j = ix
            if i == j:
                return ZERO
            e = self._entry("%s%d_%d" % (name, min(i, j), max(i, j)), kind)
            return e if i < j else -e
        return self._arr(f, (n, n), kind)

    def symmetric(self, name, n, kind="f", zero_diag=False):
        def f(ix):
            i, j = ix
            if i == j and zero_diag:
                return ZERO
            return self._entry("%s%d_%d" % (name, min(i, j), max(i, j)), kind)
        return self._arr(f, (n, n), kind)

    def mixed(self, name, base, where, kind="f", mirror=None, lo=-5, hi=5):
        """the fixed matrix (or vector) `base` with free entries at the positions `where`; mirror = 1 (symmetric),
        -1 (antisymmetric) or "h" (Hermitian) fills the transposed position too"""
        base = np.asarray(base)

        def const(z):
            z = complex(z)
            p = Poly.const(P.frac(z.real))
            return p + Poly.const(P.frac(z.imag)) * P.IMAG() if z.imag else p
        o = np.empty(base.shape, dtype=object)
        for ix in np.ndindex(*base.shape):
            o[ix] = const(base[ix])
        for ix in where:
            ix = ix if isinstance(ix, tuple) else (ix,)
            nm = name + "_".join(str(i) for i in ix)
            if kind == "i":
                e = self.int(nm, lo, hi)
                a = T.real(nm, kind="int", nonneg=lo >= 0, pos=lo > 0)
                e = Poly.atom(a.id)
            elif mirror == "h" and ix[0] == ix[1]:
                e = self._entry(nm, "f")
            else:
                e = self._entry(nm, kind)
            o[ix] = e
            if mirror is not None and ix[0] != ix[1]:
                o[ix[::-1]] = e.conj() if mirror == "h" else e if mirror == 1 else -e
        for ix in np.ndindex(*base.shape):
            o[ix] = SymNum(o[ix], kind)
        return self.low(SymArray(o, kind))

    def simplex(self, name, n):
        ps = R.simplex_atoms(name, n)
        return self._arr(lambda ix: ps[ix[0]], (n,), "f")

    def sphere(self, name, n, kind="f"):
        """unit vector"""
        ats = [T.real("%s_s%d" % (name, i)) for i in range(n if kind == "f" else 2 * n)]
        top = ats[-1]
        if not top.axioms:
            rest = ONE
            for x in ats[:-1]:
                rest = rest - Poly({(x.id, x.id): 1})
            T.add_rule((top.id, top.id), rest)
            ax = [SymBool("eq", Poly({(x.id, x.id): 1 for x in ats}) - ONE)]
            for x in ats:
                x.axioms = ax
                x.meta = ("sphere", [y.name for y in ats])
        if kind == "f":
            return self._arr(lambda ix: Poly.atom(ats[ix[0]].id), (n,), "f")
        return self._arr(lambda ix: Poly.atom(ats[2 * ix[0]].id) + Poly.atom(ats[2 * ix[0] + 1].id) * P.IMAG(), (n,), "c")

    def angle(self, name):
        """(theta, exp(i theta))"""
        th, v = R.half_angle(name)
        return self.low(SymNum(th, "f")), self.low(SymNum(v * v, "c"))

    def orthogonal(self, name, n):
        return self.low(R.so_matrix(name, n))

    def rotation(self, name, n):
        """any rotation (n = 1, 2, 3, 4), algebraically parametrised"""
        if n == 4:
            M = S.matmul(R.mat(R.left_q(R.unit_quaternion(name + "l")), "f"), R.mat(R.right_q(R.unit_quaternion(name + "r")), "f"))
            L.mark_unitary(M)
            return self.low(M)
        return self.low(R.so_matrix(name, n))

    def unitary(self, name, n):
        return self.low(R.u_matrix(name, n))

    def fixed_choice(self, k):
        """random choices without replacement: all but the last of the first k picks are the smallest admissible ones"""
        R.FIXED_PICKS = k

    def stim_vector(self, v):
        """what the state vector of the next random tableau will be"""
        shims.STIM.clear()
        shims.STIM["vec"] = v

    def stim_asked(self):
        return shims.STIM.get("asked")

    def drawing(self):
        """a list of the calls (name, args, keywords) made to the drawing libraries from now on"""
        shims.Dummy.calls.clear()
        if not self.sym:
            for k in ("draw", "draw_networkx", "draw_networkx_nodes", "draw_networkx_edges", "draw_networkx_labels", "draw_networkx_edge_labels"):
                setattr(nx_module(), k, _recorder("nx." + k))
        return shims.Dummy.calls

    def lows(self, *xs):
        return [self.low(x) for x in xs]


def nx_module():
    import networkx
    return networkx


def _recorder(name):
    return lambda *a, **k: shims.Dummy.calls.append((name, a, k))


class SymCtx(Ctx):
    sym = True

    def __init__(self, run, eng, ff):
        self.run = run
        self.eng = eng
        self.ff = ff
        self.np = NP
        self.linalg = L
        self.pyrandom = H.pyrandom
        self.seenchecks = []
        self.obs = []
        self.values = []
        self.viol = []
        self.incon = []

    def low(self, x):
        return x

    def assume(self, b):
        self.eng.assume(b)

    def tree(self, b):
        """decide now"""
        return bool(b)

    def check(self, cond, name, tol=1e-7):
        run, eng = self.run, self.eng
        run.tick()
        run.obligations += 1
        if isinstance(cond, SymArray):
            cond = S.band(*[S.tobool(x) for x in cond.plain().reshape(-1)])
        elif isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        b = S.tobool(cond)
        b = eng.renorm(b)
        if b.op == "const":
            if b.a:
                run.discharged += 1
                run.by_form += 1
            else:
                self._violate(name, None, "condition is false on this path")
            return
        if eng.implied(b):
            run.discharged += 1
            run.by_form += 1
            return
        neg = S.bnot(relax(b, Fraction(tol).limit_denominator(10 ** 9)))
        self._query(neg, name)

    def differ(self, a, b, name):
        """the two results are not forced to coincide: some outcome of the free
        inputs tells them apart (and the rest of the path keeps to such outcomes)"""
        run, eng = self.run, self.eng
        run.tick()
        run.obligations += 1
        A, B = asarr(a), asarr(b)
        if A.shape != B.shape:
            run.discharged += 1
            return
        verdict = "unsat"
        for x, y in zip(A.plain().reshape(-1), B.plain().reshape(-1)):
            d = num(x).p - num(y).p
            if d.is_zero():
                continue
            c = S.rel("lt", Poly.const(Fraction(1, 10 ** 6)) - (d * d.conj()).real_part())
            if c.op == "const":
                r = "sat" if c.a else "unsat"
            else:
                r, _ = eng.feasible(c)
            if r == "sat":
                run.discharged += 1
                run.by_solver += 1
                eng.assume(c)
                return
            if r != "unsat":
                verdict = r
        if verdict == "unsat":
            self._violate(name, None, "identical for every outcome")
        else:
            run.unknown_ob += 1
            self.incon.append("%s: solver unknown" % name)

    def _query(self, neg, name):
        run, eng = self.run, self.eng
        for e in eng.samples:
            try:
                if S.eval_bool(neg, e):
                    self._violate(name, e, "solver-free sample")
                    return
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        r, vals = eng.smt.check([neg], eng.path, run.ob_ms, want_model=True)
        if r == "unsat":
            run.discharged += 1
            run.by_solver += 1
            return
        if r == "sat":
            env = eng.model_env(vals or {})
            if not eng._ok(env, [neg] + eng.path):
                e2 = eng.refill([neg], 100)
                if e2 is None:
                    r, vals = eng.smt.check([neg], eng.path, run.ob_ms, want_model=True, deep=True)
                    if r == "unsat":
                        run.discharged += 1
                        run.by_solver += 1
                        return
                    if r == "sat":
                        e2 = eng.model_env(vals or {})
                env = e2 or env
            self._violate(name, env, "solver model")
            return
        e = eng.refill([neg], 150)
        if e is not None:
            self._violate(name, e, "sample")
            return
        run.unknown_ob += 1
        self.incon.append("%s: solver unknown" % name)

    def _violate(self, name, env, how):
        """the solver confirms the assignment; the runner replays it"""
        eng = self.eng
        envs = [env] if env is not None else []
        if not envs:
            envs = eng.samples[:2]
            if not envs:
                e = eng.refill([], 100)
                if e is not None:
                    envs = [e]
                else:
                    r, vals = eng.smt.check([], eng.path, self.run.ob_ms, want_model=True)
                    if r == "unsat":
                        raise PathInfeasible()
                    if r == "sat":
                        envs = [eng.model_env(vals or {})]
        self.viol.append((name, envs, how))

    def eq(self, a, b, name, tol=DEFTOL):
        run, eng = self.run, self.eng
        run.tick()
        try:
            A, B = asarr(a), asarr(b)
        except ValueError as ex:
            self._violate(name, None, "not comparable: %s" % ex)
            run.obligations += 1
            return
        if A.shape != B.shape and A.ndim and B.ndim:
            run.obligations += 1
            self._violate(name, None, "shape %s != %s" % (A.shape, B.shape))
            return
        Ap, Bp = np.broadcast_arrays(A.plain(), B.plain())
        self.obs.append((name, A.copy()))
        seen = set()
        left = []
        pairs = []
        for x, y in zip(Ap.reshape(-1), Bp.reshape(-1)):
            run.obligations += 1
            px, py = num(x).p, num(y).p
            d = px - py
            if d.t and T.rules:
                d = d.renorm()
                px, py = px.renorm(), py.renorm()
            if d.is_zero():
                pairs.append((px, py))
                continue
            if d in seen or (-d) in seen:
                run.discharged += 1
                run.by_form += 1
                continue
            seen.add(d)
            left.append(d)
        if pairs:
            self._confirm(pairs)
        for d in left:
            re, im = S.split(d)
            t = Poly.const(Fraction(tol).limit_denominator(10 ** 9))
            ors = []
            for q in (re, im):
                if q.t:
                    if S.const_sign(q) is not None and abs(S.eval_poly(q, {})) < 1e-9:
                        continue
                    ors += [SymBool("lt", t - q), SymBool("lt", t + q)]
            if not ors:
                run.discharged += 1
                run.by_form += 1
                continue
            cs = [simp2(x) for x in ors]
            neg = S.bor(*cs)
            if neg.op == "const":
                if neg.a:
                    self._violate(name, None, "differs on this path")
                    return
                run.discharged += 1
                run.by_form += 1
                continue
            n0 = len(self.viol)
            self._query(neg, name)
            if len(self.viol) > n0:
                return

    def _confirm(self, pairs):
        """one solver query: can any of these normal-form pairs differ?"""
        run, smt = self.run, self.eng.smt
        uniq = set()
        lin = {}
        ors = []
        size = 0
        for px, py in pairs:
            if (px, py) in uniq:
                continue
            uniq.add((px, py))
            size += len(px.t) + len(py.t)
            if size > 3000:
                break
            (a, b), (c, d) = S.split(px), S.split(py)
            for u, v in ((a, c), (b, d)):
                if u.t or v.t:
                    ors.append(smt.rpoly(u, lin) != smt.rpoly(v, lin))
        n = len(pairs)
        run.discharged += n
        run.by_form += n
        if not ors or run.confirm_s > 0.15 * run.time_limit:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Or(*ors))
        r = s.check()
        dt = time.time() - t0
        run.confirm_s += dt
        run.stats.queries += 1
        run.stats.solver_s += dt
        setattr(run.stats, str(r), getattr(run.stats, str(r)) + 1)
        if r == z3.sat:
            self.incon.append("solver disagrees with the normal form")

    def le(self, a, b, name, tol=1e-7):
        A, B = asarr(a), asarr(b)
        Ap, Bp = np.broadcast_arrays(A.plain(), B.plain())
        self.obs.append((name, A.copy()))
        for x, y in zip(Ap.reshape(-1), Bp.reshape(-1)):
            d = num(x).p - num(y).p
            if not d.is_real():
                self.run.obligations += 1
                self._violate(name, None, "not real")
                return
            self.check(S.rel("le", d.real_part()), name, tol)

    def observe(self, name, a):
        try:
            self.obs.append((name, asarr(a).copy()))
        except Exception:
            pass

    def raises(self, fn, exc, name):
        self.run.obligations += 1
        try:
            fn()
        except exc:
            self.run.discharged += 1
            self.run.by_form += 1
            return True
        except (SymUnsupported, NonFinite):
            raise
        except Exception as e:
            self._violate(name, None, "raised %r instead" % (e,))
            return False
        self._violate(name, None, "did not raise %s" % (exc,))
        return False

    def fail(self, name, detail=""):
        self.run.obligations += 1
        self._violate(name, None, detail)

    def ok(self, name):
        self.run.obligations += 1
        self.run.discharged += 1
        self.run.by_form += 1

    def same(self, a, b, name):
        """plain (non-numeric) equality"""
        if a == b:
            self.ok(name)
        else:
            self.fail(name, "%r != %r" % (a, b))

    def sqrt_hint(self, x):
        self.eng.sqrt_hints.append(num(x).p)

    def iff(self, a, b, name):
        self.check(S.beq(a, b), name)

    def not_(self, a):
        return S.simp(S.bnot(a))

    def and_(self, *a):
        return S.simp(S.band(*a))

    def or_(self, *a):
        return S.simp(S.bor(*a))

    def printed(self):
        """what the package printed so far, as text"""
        return "".join(" ".join(str(x) for x in a) + "\n" for a in shims.PRINTED)

    def fmt(self, x, spec):
        return format(num(x), spec)

    def ghost_eigs(self, M, evs):
        L.G.eig[L.mkey(asarr(M))] = [num(e).p for e in asarr(evs).plain()]

    def ghost_schur(self, M, Lc, O):
        """declare a real Schur decomposition  M = O Lc O^T  (others exist; the
        assertions must not depend on the choice)"""
        M = asarr(M)
        L.G.schur[L.mkey(M)] = (M, asarr(Lc), asarr(O))

    def weights_gap(self, M, gap):
        """assume the canonical weights of the real antisymmetric matrix M exceed gap"""
        L.G.gap = Fraction(repr(gap))
        M = asarr(M)
        for i in range(M.shape[0]):
            nz = [j for j in range(M.shape[0]) if M.plain()[i, j].p.t]
            if len(nz) == 1 and nz[0] > i:
                p = M.plain()[i, nz[0]].p
                self.assume(SymBool("lt", Poly.const(L.G.gap * L.G.gap) - p * p))

    def draw_gap(self, gap):
        """assume (probability one up to O(gap)) that the random draws made from here on stay
        `gap` away from the coordinate hyperplanes: no draw is zero, no two mirrored entries
        of a square normal draw cancel, no rotation is axis-aligned, the generator of a drawn
        rotation has no entry below 1e-6"""
        R.DRAW_GAP = Fraction(repr(gap))

    def graph_draws(self, k):
        """explore only histories with at most k random graphs drawn"""
        shims.GNM_LIMIT = k

    def graph_menu(self):
        """random graphs are any of a few with the size asked for: planar or not, connected or not"""
        shims.GNM_MENU = True

    def graph_opaque(self):
        """random graphs are one fixed graph labelled by the draw behind it"""
        shims.GNM_OPAQUE = True

    def same_draw(self, G, H, name):
        a, b = G.graph.get("drawn", (0, 0)), H.graph.get("drawn", (0, 0))
        self.same(a[0], b[0], name)
        self.eq(a[1], b[1], name)

    def ghost_psd(self, M):
        L.mark_psd(asarr(M))

    def ghost_unitary(self, M):
        L.mark_unitary(asarr(M))


def simp2(b):
    if b.op in ("lt", "le") :
        return S.rel(b.op, b.a)
    return b


class ConcreteEngine:
    sqrt_hints = ()

    def __init__(self, env):
        self.env = env

    def decide(self, b):
        return S.eval_bool(b, self.env)

    def concretise(self, x):
        return int(round(S.eval_poly(x.p, self.env).real))

    def assume(self, b):
        return

    def choose(self, name):
        return True

    def proves_zero(self, p):
        return abs(S.eval_poly(p, self.env)) < 1e-10


def lower(x, env):
    if isinstance(x, SymNum):
        v = complex(S.eval_poly(x.p, env))
        if x.k == "c":
            return v
        return int(round(v.real)) if x.k in "bi" else v.real
    if isinstance(x, SymBool):
        return S.eval_bool(x, env)
    if isinstance(x, SymArray):
        vals = [lower(v, env) for v in x.plain().reshape(-1)]
        dt = {"b": bool, "i": int, "f": float, "c": complex}[x.lk]
        return np.array(vals, dtype=dt).reshape(x.shape)
    if isinstance(x, tuple):
        return tuple(lower(v, env) for v in x)
    if isinstance(x, list):
        return [lower(v, env) for v in x]
    return x


class AssumptionFailed(BaseException):
    pass


class ConCtx(Ctx):
    sym = False

    def __init__(self, env, ff):
        self.env = env
        self.ff = ff
        self.np = np
        import random
        self.pyrandom = random
        import scipy.linalg
        self.linalg = scipy.linalg
        self.fails = []
        self.obs = []
        self.nchecks = 0
        self.out = None

    def low(self, x):
        return lower(x, self.env)

    def sphere(self, name, n, kind="f"):
        """a solver model may miss the unit sphere by its rounding: put the point back on it"""
        names = ["%s_s%d" % (name, i) for i in range(n if kind == "f" else 2 * n)]
        r = Ctx.sphere(self, name, n, kind)
        v = [float(self.env[q]) for q in names]
        s = math.sqrt(sum(x * x for x in v))
        if s > 0 and abs(s - 1) > 1e-12:
            for q, x in zip(names, v):
                self.env[q] = self.env.base[q] = x / s
            r = Ctx.sphere(self, name, n, kind)
        return r

    def assume(self, b):
        if not bool(np.all(b)):
            raise AssumptionFailed()

    def tree(self, b):
        return bool(b)

    def check(self, cond, name, tol=1e-7):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.fails.append((name, "condition false"))

    def differ(self, a, b, name):
        self.nchecks += 1
        A, B = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if A.shape == B.shape and np.allclose(A, B, rtol=0, atol=1e-8):
            self.fails.append((name, "identical"))

    def eq(self, a, b, name, tol=DEFTOL):
        self.nchecks += 1
        try:
            A, B = np.asarray(a), np.asarray(b)
            if A.dtype == object or B.dtype == object:
                A, B = A.astype(complex), B.astype(complex)
            A = np.asarray(A, dtype=complex)
            B = np.asarray(B, dtype=complex)
        except Exception as e:
            self.fails.append((name, "not comparable: %s" % (e,)))
            return
        self.obs.append((name, A.copy()))
        if A.shape != B.shape and A.ndim and B.ndim:
            self.fails.append((name, "shape %s != %s" % (A.shape, B.shape)))
            return
        if A.size == 0:
            return
        d = np.abs(A - B)
        # rounding of the real run grows with the values
        sc = 1.0 + 0.1 * max(float(np.max(np.abs(B))), 0.0)
        if not np.all(np.isfinite(d)) or float(np.max(d)) > tol * sc * 0.5:
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.ndim else ()
            Ab, Bb = np.broadcast_arrays(A, B)
            self.fails.append((name, "got %s, expected %s at %s" % (Ab[i], Bb[i], tuple(int(q) for q in i))))

    def le(self, a, b, name, tol=1e-7):
        self.nchecks += 1
        a, b = np.asarray(a), np.asarray(b)
        self.obs.append((name, a.copy()))
        if np.any(np.abs(np.imag(a)) > 1e-9) or not np.all(np.real(a) <= np.real(b) + tol * 0.9):
            self.fails.append((name, "%s <= %s fails" % (np.real(a).max(), np.real(b).min())))

    def observe(self, name, a):
        try:
            self.obs.append((name, np.array(a, dtype=complex)))
        except Exception:
            pass

    def raises(self, fn, exc, name):
        self.nchecks += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fails.append((name, "raised %s: %s" % (type(e).__name__, e)))
            return False
        self.fails.append((name, "did not raise"))
        return False

    def fail(self, name, detail=""):
        self.nchecks += 1
        self.fails.append((name, detail))

    def ok(self, name):
        self.nchecks += 1

    def same(self, a, b, name):
        self.nchecks += 1
        if not a == b:
            self.fails.append((name, "%r != %r" % (a, b)))

    def sqrt_hint(self, x):
        pass

    def iff(self, a, b, name):
        self.check(bool(a) == bool(b), name)

    def not_(self, a):
        return not bool(a)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def printed(self):
        return self.out.getvalue() if self.out is not None else ""

    def fmt(self, x, spec):
        return format(x, spec)

    def ghost_eigs(self, M, evs):
        pass

    def ghost_schur(self, M, Lc, O):
        pass

    def ghost_psd(self, M):
        pass

    def weights_gap(self, M, gap):
        self.assume(bool(np.linalg.svd(np.asarray(M, dtype=float), compute_uv=False).min() > gap))

    def ghost_unitary(self, M):
        pass

    def draw_gap(self, gap):
        pass

    def graph_draws(self, k):
        shims.GNM_LIMIT = k

    def graph_menu(self):
        shims.GNM_MENU = True

    def graph_opaque(self):
        shims.GNM_OPAQUE = True

    def same_draw(self, G, H, name):
        a, b = G.graph.get("drawn", (0, 0)), H.graph.get("drawn", (0, 0))
        self.same(a[0], b[0], name)
        self.eq(lower(a[1], self.env), lower(b[1], self.env), name)


# --------------------------------------------------------------------------
# random sources during concrete runs


class LoweredStream:
    """draws answered from the environment, lowered to numbers"""

    def __init__(self, stream, env):
        self._s = stream
        self._e = env

    def __getattr__(self, k):
        f = getattr(self._s, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            a = [asarr(x) if isinstance(x, np.ndarray) and x.dtype != object else x for x in a]
            r = f(*a, **kw)
            if isinstance(r, R.Stream):
                return LoweredStream(r, self._e)
            return lower(r, self._e)
        return g


PATCHED = ["seed", "randn", "rand", "random", "random_sample", "normal", "standard_normal", "uniform", "randint",
           "choice", "permutation", "shuffle", "exponential", "standard_exponential", "dirichlet", "gamma",
           "default_rng", "RandomState", "binomial", "get_state", "set_state"]
PYPATCHED = ["seed", "randint", "randrange", "random", "choice", "shuffle", "sample", "uniform", "gauss", "Random"]


class PatchRandom:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        import random as pr
        import scipy.stats as st
        import networkx as nx
        self.saved = []
        rs = R.RandomShim(NP)
        rs.reset()
        NP_random = NP.random
        self.rs = rs
        ls = LoweredStream(rs, self.env)
        for k in PATCHED:
            self._set(np.random, k, getattr(ls, k))
        ps = R.PyRandomShim(NP)
        ps.reset()
        lp = LoweredStream(ps, self.env)
        for k in PYPATCHED:
            self._set(pr, k, getattr(lp, k))
        env = self.env

        def rvs(kind):
            def f(dim, size=1, random_state=None):
                src = rs if random_state is None else (random_state._s if isinstance(random_state, LoweredStream) else rs.RandomState(random_state))
                g = R.GroupShim(NP, kind)
                base = src._name(kind)
                if kind == "su":
                    return lower(R.u_matrix(base, int(dim)), env)
                return lower(R.group_matrix(kind, base, int(dim)), env)
            return f
        for nm, kind in (("special_ortho_group", "so"), ("ortho_group", "o"), ("unitary_group", "su")):
            self._set(getattr(st, nm), "rvs", rvs(kind))
        nxs = shims.NXShim(ps)
        self._set(shims, "GNM_COUNT", [0])

        def source(seed):
            if seed is np.random:
                return rs
            if seed is pr:
                return ps
            return seed._s if isinstance(seed, LoweredStream) else seed
        self._set(nx, "gnm_random_graph", lambda n, m, seed=None, directed=False, **k:
                  lowgraph(nxs.gnm_random_graph(n, m, source(seed), directed), env))
        return self

    def _set(self, o, k, v):
        had = k in vars(o)
        old = getattr(o, k, None)
        self.saved.append((o, k, vars(o).get(k), had))
        if o is np.random and callable(old):
            # numerical libraries that use the global stream internally (scipy's
            # norm estimators inside logm/expm) keep their own numbers: the
            # contract stubs of those routines draw nothing
            v = self._inner(v, old)
        setattr(o, k, v)

    @staticmethod
    def _inner(v, old):
        import sys

        def f(*a, **kw):
            if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] in ("scipy", "numpy"):
                return old(*a, **kw)
            return v(*a, **kw)
        return f

    def __exit__(self, *a):
        for o, k, v, had in reversed(self.saved):
            if had:
                setattr(o, k, v)
            else:
                delattr(o, k)


def lowgraph(g, env):
    return g


# --------------------------------------------------------------------------


class Run:
    """explores one harness instance"""

    def __init__(self, fn, params, seed=1, max_paths=64, time_limit=20.0, q_ms=800, ob_ms=3000, cross=0,
                 concrete_witness=True, fallback=3, witness_limit=24):
        self.fn, self.params, self.seed = fn, params, seed
        self.max_paths, self.time_limit = max_paths, time_limit
        self.q_ms, self.ob_ms = q_ms, ob_ms
        self.cross_left = cross
        self.stats = Stats()
        self.obligations = self.discharged = self.by_form = self.by_solver = self.unknown_ob = 0
        self.queue = []
        self.memo = {}
        self.paths = 0
        self.infeasible = 0
        self.witness_runs = 0
        self.witness_checks = 0
        self.truncated = None
        self.inconclusive = []
        self.unwitnessed = 0
        self.violations = []      # reproduced
        self.unreproduced = []
        self.mismatch = []
        self.executed = {}
        self.samples = []
        self.decisions = 0
        self.fallback = fallback
        self.decided_paths = 0
        self.fallback_runs = 0
        self.concrete_witness = concrete_witness
        self.witness_limit = witness_limit
        self.qn = 0
        self.confirm_s = 0.0
        self.ghosts = set()

    def tick(self):
        if time.time() > self.deadline:
            raise PathTimeout()

    def enqueue(self, prefix, envs, witnessed):
        dev = sum(1 for p in prefix if p[0] == "c" and not p[1]) + len(prefix) * 0.01
        self.qn += 1
        self.queue.append((0 if witnessed else 1, dev, self.qn, prefix, envs))

    def go(self):
        self.deadline = time.time() + self.time_limit
        old = signal.signal(signal.SIGALRM, self._alarm)
        try:
            signal.setitimer(signal.ITIMER_REAL, self.time_limit + 3.0, 2.0)
            self.queue = [(0, 0, 0, [], None)]
            while self.queue:
                if self.paths + self.infeasible >= self.max_paths:
                    self.truncated = "path limit %d (%d prefixes left)" % (self.max_paths, len(self.queue))
                    break
                if time.time() > self.deadline:
                    self.truncated = "time limit (%d prefixes left)" % len(self.queue)
                    break
                if len(self.violations) >= 3:
                    break
                self.queue.sort(key=lambda x: x[:3])
                _, _, _, prefix, envs = self.queue.pop(0)
                try:
                    self.one(prefix, envs)
                except PathTimeout:
                    self.truncated = "time limit in a path"
                    break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if (self.truncated or self.inconclusive or not self.paths) and not self.violations and self.fallback:
            self.run_fallback()
        return self

    def _alarm(self, *a):
        raise PathTimeout()

    def one(self, prefix, envs):
        reset_all()
        eng = Engine(self, prefix, envs)
        H.engine = eng
        ld = shims.Loader()
        ff = ld.load("ff")
        H.pyrandom = ld.pyrandom
        ctx = SymCtx(self, eng, ff)
        status = "ok"
        try:
            try:
                self.fn(ctx, **self.params)
            except Stop:
                pass
        except PathInfeasible:
            self.infeasible += 1
            return
        except SymUnsupported as e:
            status = "unsupported: %s" % e
            self.inconclusive.append(status + " @ " + where())
        except NonFinite as e:
            status = "nonfinite: %s" % e
        except RecursionError as e:
            status = "unsupported: recursion"
            self.inconclusive.append(status + " @ " + "; ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-8:]))
        except Exception as e:
            status = "exception: %s: %s" % (type(e).__name__, e)
            if isinstance(e, (NotImplementedError, KeyError, AttributeError, TypeError, IndexError, ValueError,
                              AssertionError, ZeroDivisionError, np.linalg.LinAlgError, Exception)):
                try:
                    ctx._violate("unexpected exception", None, status + " @ " + where())
                except PathInfeasible:
                    self.infeasible += 1
                    return
        finally:
            for k, v in ld.executed.items():
                self.executed[k] = self.executed.get(k, 0) + v
            self.cross_left = eng.smt.cross_budget
            self.decisions += eng.decisions
        self.paths += 1
        self.ghosts |= L.G.used
        if status == "ok" and not ctx.incon:
            self.decided_paths += 1
        self.inconclusive += ctx.incon
        # candidate violations: replay on the real package
        done = set()
        for name, bases, how in ctx.viol:
            if name in done:
                continue
            rep = False
            for b in bases:
                env = Env(b.seed, b.base)
                r = run_concrete(self.fn, self.params, env)
                if r is None:
                    continue
                fails, _ = r
                if fails:
                    rep = True
                    done.add(name)
                    self.violations.append({"check": name, "how": how, "env": dict(env.base), "seed": env.seed,
                                            "fails": fails[:4], "path": fmt_trace(eng.trace)})
                    break
            if not rep:
                self.unreproduced.append("%s (%s)" % (name, how))
                self.inconclusive.append("not reproduced: %s (%s)" % (name, how))
        # witness: one model of this path on the real package
        if not self.concrete_witness or ctx.viol:
            return
        if not eng.samples:
            e = eng.refill([], 60)
            if e is not None:
                eng.samples = [e]
        if not eng.samples:
            self.unwitnessed += 1
            if status.startswith("nonfinite"):
                self.inconclusive.append(status + " (no witness)")
            return
        if self.witness_runs >= self.witness_limit and status == "ok":
            return
        env = Env(eng.samples[0].seed, eng.samples[0].base)
        r = run_concrete(self.fn, self.params, env)
        if r is None:
            return
        self.witness_runs += 1
        fails, obs = r
        if fails:
            self.violations.append({"check": fails[0][0], "how": "path witness (%s)" % status, "env": dict(env.base), "seed": env.seed,
                                    "fails": fails[:4], "path": fmt_trace(eng.trace)})
        elif status.startswith("nonfinite"):
            self.inconclusive.append(status + " (real run is fine)")
        else:
            self.compare(ctx.obs, obs, Env(env.seed, env.base))
        if len(self.samples) < 3:
            self.samples.append({"path": fmt_trace(eng.trace)[:200], "witness": {k: round(v, 6) for k, v in list(env.base.items())[:8]}})

    def compare(self, so, co, env):
        """translator validation: symbolic results evaluated at the witness
        against what the real package computed"""
        if "schur" in L.G.used or "mst" in L.G.used:
            return          # the factorisation (tree) is not unique: values may differ
        for (n1, A), (n2, B) in zip(so, co):
            if n1 != n2 or A.shape != B.shape:
                continue
            try:
                V = np.array([complex(S.eval_poly(num(x).p, env)) for x in A.plain().reshape(-1)]).reshape(A.shape)
            except Exception:
                continue
            self.witness_checks += 1
            if A.size and not np.allclose(V, B, rtol=1e-5, atol=1e-6):
                self.mismatch.append("%s: encoded %s real %s" % (n1, V.reshape(-1)[:3], B.reshape(-1)[:3]))

    def run_fallback(self):
        """not a verdict: a few concrete runs where the encoding gave none"""
        for i in range(self.fallback):
            reset_all()
            env = Env(self.seed * 7919 + i)
            try:
                signal.signal(signal.SIGALRM, self._alarm)
                signal.setitimer(signal.ITIMER_REAL, 20)
                r = run_concrete(self.fn, self.params, env)
            except PathTimeout:
                return
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if r is None:
                continue
            self.fallback_runs += 1
            if r[0]:
                self.violations.append({"check": r[0][0][0], "how": "concretised fallback", "env": dict(env.base), "seed": env.seed,
                                        "fails": r[0][:4], "path": ""})
                return


def run_concrete(fn, params, env):
    import contextlib
    import io
    import warnings
    ffr = shims.import_real()
    old = H.engine
    H.engine = ConcreteEngine(env)
    ctx = ConCtx(env, ffr)
    po = np.get_printoptions()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.out = io.StringIO()
            with PatchRandom(env), contextlib.redirect_stdout(ctx.out):
                try:
                    fn(ctx, **params)
                except Stop:
                    pass
    except AssumptionFailed:
        return None
    except (SymUnsupported, KeyboardInterrupt):
        return None
    except PathInfeasible:
        return None
    except Exception as e:
        if machinery_failure(e):
            return None
        ctx.fails.append(("unexpected exception", "%s: %s @ %s" % (type(e).__name__, e, where())))
    finally:
        H.engine = old
        np.set_printoptions(**{k: v for k, v in po.items() if k != "override_repr"})
    return ctx.fails, ctx.obs


def machinery_failure(e):
    """the evaluation of symbolic values gave up, not the code under test"""
    if not isinstance(e, (RecursionError, MemoryError, KeyError)):
        return False
    fs = [f.filename for f in traceback.extract_tb(e.__traceback__)][-200:]
    mine = [("/symff/" in f and "/props/" not in f) for f in fs]
    return sum(mine) * 2 > len(fs) if isinstance(e, RecursionError) else bool(mine and mine[-1])


def where():
    import sys
    tb = traceback.extract_tb(sys.exc_info()[2])
    for f in reversed(tb):
        if "/ff/" in f.filename or "/props/" in f.filename:
            return "%s:%d %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name)
    return "%s:%d" % (tb[-1].filename.rsplit("/", 1)[-1], tb[-1].lineno) if tb else "?"


def fmt_trace(tr):
    return "".join(("T" if v[1] else "F") if v[0] in "bc" else "[%s]" % v[1] for v in tr)


def reset_all():
    T.reset()
    S.NONNEG_FACTS.clear()
    S.POS_FACTS.clear()
    S.POWERS.clear()
    S.clear_caches()
    L.G.reset()
    R.SO_LOGS.clear()
    R.DRAW_GAP = None
    R.FIXED_PICKS = 0
    shims.GNM_LIMIT = None
    shims.GNM_OPAQUE = False
    shims.GNM_MENU = False
    shims.GNM_COUNT[0] = 0
    NP.random.reset()
    shims.PRINTED.clear()
    shims.Dummy.calls.clear()
    shims.STIM.clear()
    _RA.clear()
    _SUP.clear()
