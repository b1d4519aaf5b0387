"""The numpy module the code under test sees.

Unknown attributes fall through to real numpy: shape-only functions run on the
underlying object arrays, and the logical dtype is recomputed.  Functions with
numerical content are defined here over exact symbolic numbers.
"""
import math
import itertools
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, T, ZERO, ONE
from . import sym as S
from .sym import (SymNum, SymBool, SymArray, SymUnsupported, NonFinite, H, asarr, num, infer,
                  umap, finish_bool, ufunc, kmax, kind_of_dtype, band, bor, bnot, simp,
                  tobool, rel, ite, TRUE, FALSE, KINDS, cast)


class ScalarShim(type):
    """builtin/numpy scalar types that also accept symbolic numbers"""
    def __call__(cls, *a, **k):
        if cls._sym_abstract:
            return type.__call__(cls, *a, **k)
        x = a[0] if a else 0
        if isinstance(x, SymArray):
            if x.size == 1 and (x.ndim == 0 or cls._real in (int, float, complex)):
                x = x.plain().reshape(-1)[0]
            else:
                return x.astype(cls)
        kk = cls._sym_scalar_kind
        if isinstance(x, (SymNum, SymBool)):
            if kk == "i":
                if isinstance(x, SymBool):
                    return SymNum.from_bool(x) if x.op != "const" else int(x.a)
                if x.k == "c":
                    raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
                r = S.trunc(x) if x.k == "f" else x
                return int(r.p.const_value()) if r.p.is_const() else SymNum(r.p, "i")
            if kk == "b":
                return bool(x)
            if len(a) > 1 and kk == "c":
                return num(x) + num(a[1]) * 1j
            if kk == "f" and isinstance(x, SymNum) and x.k == "c":
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return cast(x, kk, True)
        if len(a) > 1 and kk == "c" and isinstance(a[1], (SymNum, SymBool)):
            return num(x) + num(a[1]) * 1j
        if kk == "c" and not isinstance(x, str):
            v = cls._real(*a, **k)
            return v
        return cls._real(*a, **k)

    def __instancecheck__(cls, o):
        return sym_isinstance(o, cls)

    def __subclasscheck__(cls, c):
        return issubclass(unshim(c), cls._real)

    def __eq__(cls, o):
        return unshim(o) is cls._real if isinstance(o, type) else NotImplemented

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, "_real"), name)


def _mk(real, kind):
    return ScalarShim(real.__name__, (), {"_real": real, "_sym_scalar_kind": kind,
                                          "_sym_abstract": False})


IntShim = _mk(int, "i")
FloatShim = _mk(float, "f")
ComplexShim = _mk(complex, "c")
BoolShim = _mk(bool, "b")
NPSCALARS = {n: _mk(getattr(np, n), k) for n, k in (
    ("float64", "f"), ("double", "f"), ("complex128", "c"), ("cdouble", "c"), ("int64", "i"),
    ("intp", "i"), ("int32", "i"), ("longdouble", "f"), ("clongdouble", "c"), ("int_", "i"),
    ("int8", "i"), ("int16", "i"), ("uint8", "i"), ("uint64", "i"), ("uint32", "i"), ("bool_", "b"), ("bool", "b")) if hasattr(np, n)}


def unshim(c):
    if isinstance(c, ScalarShim):
        return type.__getattribute__(c, "_real")
    if c is MatrixShim:
        return np.matrix
    return c


def _flat_classes(cls, out):
    if isinstance(cls, tuple):
        for c in cls:
            _flat_classes(c, out)
    elif type(cls).__name__ == "UnionType":
        for c in cls.__args__:
            _flat_classes(c, out)
    else:
        out.append(unshim(cls))
    return out


_KCLS = None


def sym_isinstance(o, cls):
    import numbers
    classes = _flat_classes(cls, [])
    if isinstance(o, SymNum):
        if o.k == "c":
            ok = (complex, np.complexfloating, np.complex128, np.number, np.generic, np.inexact, numbers.Number, numbers.Complex)
        elif o.k == "f":
            ok = (float, np.floating, np.float64, np.number, np.generic, np.inexact, numbers.Number, numbers.Real, numbers.Complex)
        else:
            ok = (int, np.integer, np.int64, np.number, np.generic, numbers.Number, numbers.Integral, numbers.Real, numbers.Complex, numbers.Rational)
        return any(c in ok or c is object or c is SymNum for c in classes)
    if isinstance(o, SymBool):
        return any(c in (bool, int, np.bool_, object, SymBool) for c in classes)
    if isinstance(o, SymMatrix):
        return any(c in (np.ndarray, np.matrix, object) or isinstance(o, c) for c in classes)
    return isinstance(o, tuple(classes))


class SymMatrix(SymArray):
    """np.matrix: 2-D, `*` is the matrix product"""
    def __mul__(self, o):
        if np.ndim(o) == 0:
            return SymArray.__mul__(self, o).view(SymMatrix)
        return mview(S.matmul(self, o), self)

    def __rmul__(self, o):
        if np.ndim(o) == 0:
            return SymArray.__rmul__(self, o).view(SymMatrix)
        return mview(S.matmul(o, self), self)


def mview(r, like):
    v = r.view(SymMatrix)
    v.lk = r.lk
    return v


class _MatrixMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SymMatrix, np.matrix))


class MatrixShim(metaclass=_MatrixMeta):
    def __new__(cls, data, dtype=None, copy=True):
        a = NP.array(data, dtype=dtype)
        if a.ndim < 2:
            a = a.reshape(1, -1)
        r = a.view(SymMatrix)
        r.lk = a.lk
        return r


def has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def kdt(dt):
    """logical kind from any dtype spec"""
    if dt is None:
        return None
    kk = getattr(dt, "_sym_scalar_kind", None)
    if kk:
        return kk
    return kind_of_dtype(dt)


def _plainify(x):
    if isinstance(x, SymArray):
        return x.plain()
    if isinstance(x, (SymNum, SymBool)):
        return x
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (SymNum, SymBool)) for v in x):
            return asarr(list(x)).plain()
        return type(x)(_plainify(v) for v in x)
    if isinstance(x, ScalarShim):
        return unshim(x)
    return x


def _kinds(x, out):
    if isinstance(x, SymArray):
        out.append(x.lk)
    elif isinstance(x, (SymNum,)):
        out.append(x.k)
    elif isinstance(x, np.ndarray) and x.dtype != object:
        if x.dtype.kind in "biufc":
            out.append(kind_of_dtype(x.dtype))
    elif isinstance(x, (list, tuple)):
        for v in x:
            _kinds(v, out)
    elif isinstance(x, complex):
        out.append("c")
    elif isinstance(x, float):
        out.append("f")
    return out


def _wrap(r, k):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            o = infer(r, k)
            if k is not None and KINDS.index(k) > KINDS.index(o.lk):
                o = asarr(o, k)
            return o
        return r
    if isinstance(r, (list, tuple)) and any(isinstance(v, np.ndarray) for v in r):
        t = [_wrap(v, k) for v in r]
        return t if isinstance(r, list) else tuple(t)
    return r


def demote(a):
    """SymArray whose entries are all rational constants stays a SymArray (uniform)"""
    return a


def scal(r):
    """unwrap 0-d"""
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


def concrete(x):
    """real numpy array of a SymArray with constant entries, else None"""
    a = asarr(x)
    out = []
    for v in a.plain().reshape(-1):
        if isinstance(v, (bool, np.bool_)):
            out.append(bool(v))
            continue
        if isinstance(v, SymBool):
            return None
        if not v.is_const():
            if v.p.is_real():
                return None
            for at in v.p.atoms():
                m = T.atoms[at].meta
                if at != T.I and (m is None or m[0] != "const"):
                    return None
        z = complex(S.eval_poly(v.p, {}))
        out.append(z if a.lk == "c" else int(z.real) if a.lk in "i" else z.real)
    return np.array(out, dtype=S.DT[a.lk]).reshape(a.shape)


class UF:
    """numpy ufunc wrapper"""
    def __init__(self, name):
        self.uf = getattr(np, name)
        self.__name__ = getattr(self.uf, "__name__", name)

    def _prep(self, a):
        return tuple(x if isinstance(x, (SymArray,)) else
                     asarr(x) if isinstance(x, (list, tuple, SymNum, SymBool)) or isinstance(x, np.ndarray) and x.dtype != object
                     else x for x in a)

    def __call__(self, *a, **k):
        if "dtype" in k:
            k["dtype"] = unshim(k["dtype"])
        if len(a) > self.uf.nin:
            k["out"] = a[self.uf.nin]
            a = a[:self.uf.nin]
        if self.__name__ in S.BIN or self.__name__ in S.UN or self.__name__ == "matmul":
            if self.__name__ in ("log2", "log10", "floor", "ceil", "rint", "sign", "exp", "log", "sqrt") and not has_sym(a):
                r0 = self.uf(*a, **k)
                if np.ndim(a[0]) == 0 and (self.__name__ not in ("sqrt", "log", "exp") or float(r0) == round(float(r0))):
                    return r0
            if not has_sym(a) and not any(isinstance(x, (list, tuple, np.ndarray)) for x in a) and \
                    self.__name__ not in ("sqrt", "log", "exp"):
                return self.uf(*a, **k)
            a = tuple(float(x) if isinstance(x, np.floating) else x for x in a)
            return scal(ufunc(self.uf, "__call__", self._prep(a), k))
        if not has_sym(a):
            return self.uf(*a, **k)
        cs = [concrete(x) for x in a]
        if all(c is not None for c in cs):
            r = self.uf(*cs, **k)
            return asarr(r) if isinstance(r, np.ndarray) else r
        raise SymUnsupported("ufunc " + self.__name__)

    def reduce(self, a, axis=0, **k):
        return scal(S.reduce_ufunc(self.__name__, a, axis=axis, **{x: y for x, y in k.items() if x in ("keepdims", "initial")}))

    def outer(self, a, b):
        return ufunc(self.uf, "outer", (a, b), {})

    def accumulate(self, a, **k):
        return ufunc(self.uf, "accumulate", (a,), {})

    def at(self, *a):
        return ufunc(self.uf, "at", a, {})


# functions that only move elements around
SHAPE = set("""reshape ravel transpose concatenate stack hstack vstack block flip roll tile repeat
squeeze expand_dims swapaxes moveaxis split array_split hsplit vsplit append delete insert take rot90
diagonal broadcast_to fliplr flipud column_stack dstack row_stack atleast_1d atleast_2d atleast_3d
resize broadcast_arrays permute_dims matrix_transpose rollaxis concat trim_zeros take_along_axis
""".split())


class NPShim:
    _name = "numpy"
    __name__ = "numpy"

    def __init__(self):
        self._cache = {}
        self.matrix = MatrixShim
        for n, c in NPSCALARS.items():
            setattr(self, n, c)
        self.asmatrix = MatrixShim
        self.mat = MatrixShim
        self._printopts = dict(np.get_printoptions())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        c = self._cache.get(name)
        if c is not None:
            return c
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = UF(name)
        elif callable(v) and not isinstance(v, type):
            v = self._generic(v)
        self._cache[name] = v
        return v

    # ---- fallback
    def _generic(self, f):
        def g(*a, **k):
            return self._fallback(f, a, k)
        g.__name__ = getattr(f, "__name__", "np_function")
        return g

    def _fallback(self, f, a, k):
        if "dtype" in k:
            k = dict(k, dtype=unshim(k["dtype"]))
        name = getattr(f, "__name__", "?")
        if not has_sym(list(a)) and not has_sym(list(k.values())):
            a = [unshim(x) if isinstance(x, type) else x for x in a]
            r = f(*a, **k)
            if isinstance(r, np.ndarray) and r.dtype.kind in "iufc" and name not in ("triu_indices", "tril_indices"):
                return asarr(r)
            return r
        if name in SHAPE:
            ks = _kinds(list(a), [])
            kk = None
            for x in ks:
                kk = x if kk is None else kmax(kk, x)
            pa = [self._objs(x) for x in a]
            pk = {n: self._objs(v) if n not in ("axis", "shape") else _idx(v) for n, v in k.items()}
            return scal(_wrap(f(*pa, **pk), kk))
        # all-constant arguments: use the real function
        ca = []
        for x in a:
            if has_sym(x):
                c = concrete(x)
                if c is None:
                    ca = None
                    break
                ca.append(c if np.ndim(c) else c[()])
            else:
                ca.append(x)
        if ca is not None and not has_sym(list(k.values())):
            r = f(*ca, **k)
            return _wrapc(r)
        try:
            r = f(*[_plainify(x) for x in a], **{n: _plainify(v) for n, v in k.items()})
        except (SymUnsupported, NonFinite):
            raise
        except (TypeError, AttributeError) as e:
            raise SymUnsupported("numpy.%s on symbolic data (%s)" % (name, e))
        ks = _kinds(list(a), [])
        kk = None
        for x in ks:
            kk = x if kk is None else kmax(kk, x)
        return scal(_wrap(r, None))

    def _objs(self, x):
        if isinstance(x, SymArray):
            return x.plain()
        if isinstance(x, (SymNum, SymBool)):
            if isinstance(x, SymNum) and x.k == "i" and x.p.is_const():
                return int(x)
            return S.box(x).plain()
        if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "biufc":
            return asarr(x).plain()
        if isinstance(x, (list, tuple)):
            if x and all(isinstance(v, (int, np.integer)) for v in x):
                return x
            return type(x)(self._objs(v) if not isinstance(v, (int, float, complex)) else v for v in x)
        return x

    def dispatch(self, func, args, kwargs):
        name = func.__name__
        mod = getattr(func, "__module__", "numpy") or "numpy"
        if mod.startswith("numpy.linalg"):
            return getattr(self.linalg, name)(*args, **kwargs)
        return getattr(self, name)(*args, **kwargs)

    # ---- creation
    def zeros(self, shape, dtype=float, order="C", **k):
        return self._const(shape, 0, kdt(dtype) or "f")

    def ones(self, shape, dtype=None, order="C", **k):
        return self._const(shape, 1, kdt(dtype) or "f")

    def empty(self, shape, dtype=float, order="C", **k):
        return self._const(shape, 0, kdt(dtype) or "f")

    def full(self, shape, fill_value, dtype=None, order="C", **k):
        kk = kdt(dtype) if dtype is not None else S.weak_kind(fill_value)
        a = self._const(shape, 0, kk)
        a[...] = fill_value
        return a

    def _const(self, shape, v, k):
        shape = _idx(shape)
        o = np.empty(shape, dtype=object)
        x = bool(v) if k == "b" else SymNum(Poly.const(v), k)
        for i in np.ndindex(o.shape):
            o[i] = x
        if k == "b":
            return np.full(o.shape, bool(v))
        return SymArray(o, k)

    def zeros_like(self, a, dtype=None, shape=None, **k):
        if _odd(a):
            return np.zeros_like(a)
        return self._like(a, 0, dtype, shape)

    def ones_like(self, a, dtype=None, shape=None, **k):
        return self._like(a, 1, dtype, shape)

    def empty_like(self, a, dtype=None, shape=None, **k):
        return self._like(a, 0, dtype, shape)

    def full_like(self, a, fill_value, dtype=None, shape=None, **k):
        r = self._like(a, 0, dtype, shape)
        r[...] = fill_value
        return r

    def _like(self, a, v, dtype, shape):
        aa = a if isinstance(a, np.ndarray) else asarr(a)
        kk = kdt(dtype) if dtype is not None else S.weak_kind(aa)
        r = self._const(aa.shape if shape is None else shape, v, kk)
        return r

    def eye(self, N, M=None, k=0, dtype=float, **kw):
        return asarr(np.eye(_idx(N), None if M is None else _idx(M), _idx(k)), kdt(dtype) or "f")

    def identity(self, n, dtype=float, **kw):
        return self.eye(n, dtype=dtype or float)

    def array(self, x, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
        if isinstance(x, str) or (isinstance(x, np.ndarray) and x.dtype.kind in "SU"):
            return np.array(x)
        if isinstance(x, (list, tuple)) and x and any(isinstance(v, str) for v in x):
            return np.array(x)
        kk = kdt(dtype)
        if isinstance(x, (list, tuple)) and len(x) == 0 and kk is None:
            kk = "f"
        if not has_sym(x) and isinstance(x, np.ndarray) and x.dtype == bool and kk in (None, "b"):
            return np.array(x)
        if isinstance(x, (set, dict)) or not (isinstance(x, (list, tuple, range, np.ndarray, SymNum, SymBool)) or S._isnum(x) or hasattr(x, "__array__")):
            if hasattr(x, "__iter__"):
                x = list(x) if not isinstance(x, (set, dict)) else x
            if isinstance(x, (set, dict)) or not isinstance(x, list):
                return np.array(x)
        a = asarr(x) if not (isinstance(x, (list, tuple)) and len(x) == 0) else SymArray(np.empty((0,), dtype=object), "f")
        if kk is not None and kk != a.lk:
            if a.lk == "c" and kk in "fi" and not isinstance(x, np.ndarray):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            a = asarr(a, kk)
        a = a.copy() if copy is not False else a
        if isinstance(a, SymMatrix):
            a = SymArray(a.plain(), a.lk)
        while a.ndim < ndmin:
            a = a.reshape((1,) + a.shape)
        return _unb(a)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or kdt(dtype) == x.lk):
            return x
        if isinstance(x, np.ndarray) and not has_sym(x) and x.dtype.kind not in "biufc":
            return x
        return self.array(x, dtype=dtype, copy=True)

    asanyarray = ascontiguousarray = asfortranarray = asarray

    def copy(self, a, **k):
        return self.array(a)

    def arange(self, *a, dtype=None, **k):
        a = [_tonum(x) for x in a]
        return asarr(np.arange(*a, dtype=unshim(dtype) if dtype is not None else None))

    def linspace(self, a, b, n=50, endpoint=True, **k):
        a, b = num(a), num(b)
        n = int(n)
        d = n - 1 if endpoint else n
        return asarr([a + (b - a) * Fraction(i, d) if d else a for i in range(n)], kmax("f", kmax(a.k, b.k)))

    def fromiter(self, it, dtype=None, count=-1):
        return self.array(list(it), dtype=dtype)

    def diag(self, v, k=0):
        a = asarr(v)
        if a.ndim == 1:
            n = a.shape[0] + abs(k)
            r = self._const((n, n), 0, a.lk) if a.lk != "b" else self._const((n, n), 0, "i")
            for i in range(a.shape[0]):
                r.plain()[i + max(0, -k), i + max(0, k)] = a.plain()[i]
            return r
        return SymArray(np.diagonal(a.plain(), k).copy(), a.lk)

    def diagonal(self, a, offset=0, axis1=0, axis2=1):
        return SymArray(np.diagonal(asarr(a).plain(), offset, axis1, axis2).copy(), asarr(a).lk)

    def diagflat(self, v, k=0):
        return self.diag(asarr(v).reshape(-1), k)

    def triu(self, m, k=0):
        a = asarr(m).copy()
        for i in range(a.shape[-2]):
            for j in range(a.shape[-1]):
                if j - i < k:
                    a[..., i, j] = 0
        return a

    def tril(self, m, k=0):
        a = asarr(m).copy()
        for i in range(a.shape[-2]):
            for j in range(a.shape[-1]):
                if j - i > k:
                    a[..., i, j] = 0
        return a

    def fill_diagonal(self, a, v, wrap=False):
        vv = asarr(v)
        for i in range(min(a.shape)):
            a[i, i] = vv.plain().reshape(-1)[i % vv.size]

    def fromfunction(self, f, shape, **k):
        idx = np.indices(shape)
        return f(*[asarr(i) for i in idx])

    # ---- reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if not isinstance(a, (np.ndarray, list, tuple, SymNum, SymBool)) and hasattr(a, "__iter__"):
            a = list(a)
        a = asarr(a)
        if where is not True:
            a = self.where(where, a, 0)
        if axis is None and initial is None and not keepdims and a.lk == "b" and 0 < a.size <= 16:
            return self._dt(scal(num(sum(1 if bool(tobool(x)) else 0 for x in a.plain().reshape(-1)))), dtype)
        a = S.accumulator(a)
        r = S.reduce_ufunc("add", a, axis=_axis(axis), keepdims=keepdims, initial=initial)
        if axis is None and initial is None and not keepdims and a.lk == "f" and a.size > 1:
            S.sum_fact([x.p for x in a.plain().reshape(-1)], num(scal(r)).p)
        return self._dt(scal(r), dtype)

    def _dt(self, r, dtype):
        if dtype is None:
            return r
        return r.astype(dtype) if hasattr(r, "astype") else r

    def prod(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._dt(scal(S.reduce_ufunc("multiply", S.accumulator(asarr(a)), axis=_axis(axis), keepdims=keepdims)), dtype)

    product = prod

    def mean(self, a, axis=None, keepdims=False, **k):
        a = asarr(a)
        s = self.sum(a, axis=axis, keepdims=keepdims)
        n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
        return s / n

    average = lambda self, a, axis=None, weights=None: self.mean(a, axis) if weights is None else \
        self.sum(asarr(a) * asarr(weights), axis=axis) / self.sum(weights)

    def var(self, a, axis=None, ddof=0, **k):
        a = asarr(a)
        if axis is not None:
            raise SymUnsupported("var axis")
        d = a - self.mean(a)
        return self.sum(self.abs(d) ** 2) / (a.size - ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return self.sqrt(self.var(a, axis, ddof))

    def trace(self, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        a = asarr(a)
        if a.ndim < 2:
            raise ValueError("diag requires an array of at least two dimensions")
        if a.ndim > 2:
            return self.sum(self.diagonal(a, offset, axis1, axis2), axis=-1)
        r = self.sum(self.diagonal(a, offset))
        if offset == 0 and a.shape[0] == a.shape[1]:
            from . import shim_linalg as L
            L.on_trace(a, num(r).p)
        return self._dt(r, dtype)

    def dot(self, a, b, out=None):
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return ufunc(np.multiply, "__call__", (a, b), {})
        if a.ndim <= 2 and b.ndim <= 2:
            return scal(S.matmul(a, b))
        return self.tensordot(a, b, axes=([a.ndim - 1], [max(b.ndim - 2, 0)]))

    def matmul(self, a, b, **k):
        return scal(S.matmul(a, b))

    def vdot(self, a, b):
        return scal(S.matmul(asarr(a).reshape(-1).conj(), asarr(b).reshape(-1)))

    def inner(self, a, b):
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        return scal(S.matmul(a, np.moveaxis(b.plain(), -1, 0) if b.ndim > 1 else b)) if b.ndim <= 2 else self._uns("inner")

    def outer(self, a, b, out=None):
        a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
        return ufunc(np.multiply, "__call__", (a.reshape(-1, 1), b.reshape(1, -1)), {})

    def kron(self, a, b):
        a, b = asarr(a), asarr(b)
        if a.lk == "b":
            a = asarr(a, "i")
        if b.lk == "b":
            b = asarr(b, "i")
        nd = max(a.ndim, b.ndim)
        if nd == 0:
            return a * b
        A = a.plain().reshape((1,) * (nd - a.ndim) + a.shape)
        B = b.plain().reshape((1,) * (nd - b.ndim) + b.shape)
        k = kmax(a.lk, b.lk)
        if k == "b":
            k = "i"
        shp = tuple(x * y for x, y in zip(A.shape, B.shape))
        o = np.empty(shp, dtype=object)
        z = SymNum(ZERO, k)
        for ia in np.ndindex(A.shape):
            pa = A[ia].p
            for ib in np.ndindex(B.shape):
                ix = tuple(x * s + y for x, s, y in zip(ia, B.shape, ib))
                if not pa.t:
                    o[ix] = z
                else:
                    pb = B[ib].p
                    o[ix] = SymNum(S.mul_fact(pa, pb, pa * pb), k) if pb.t else z
        return SymArray(o, k)

    def tensordot(self, a, b, axes=2):
        a, b = asarr(a), asarr(b)
        if isinstance(axes, int):
            ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            ax, bx = axes
            ax = [ax] if isinstance(ax, int) else list(ax)
            bx = [bx] if isinstance(bx, int) else list(bx)
        ax = [x % a.ndim for x in ax]
        bx = [x % b.ndim for x in bx]
        ka = [i for i in range(a.ndim) if i not in ax]
        kb = [i for i in range(b.ndim) if i not in bx]
        A = np.transpose(a.plain(), ka + ax).reshape(-1, int(np.prod([a.shape[i] for i in ax])))
        B = np.transpose(b.plain(), bx + kb).reshape(int(np.prod([b.shape[i] for i in bx])), -1)
        r = S.matmul(SymArray(A, a.lk), SymArray(B, b.lk))
        return scal(r.reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb]))

    def einsum(self, spec, *ops, **k):
        ops = [asarr(o) for o in ops]
        spec = spec.replace(" ", "")
        if "." in spec:
            raise SymUnsupported("einsum ellipsis")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            out = "".join(sorted(c for c in set(ins.replace(",", "")) if ins.count(c) == 1))
        ins = ins.split(",")
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                raise ValueError("einsum: operand has wrong number of dimensions")
            for c, d in zip(s, o.shape):
                if dims.setdefault(c, d) != d:
                    raise ValueError("einsum: operands could not be broadcast together")
        kk = "b"
        for o in ops:
            kk = kmax(kk, o.lk)
        letters = list(dims)
        res = np.empty([dims[c] for c in out], dtype=object)
        acc = {}
        pls = [o.plain() for o in ops]
        summed = [c for c in letters if c not in out]

        # iterate skipping zeros: nested by operand
        def rec(i, env, p):
            if i == len(ops):
                free = [c for c in letters if c not in env]
                for vals in itertools.product(*[range(dims[c]) for c in free]):
                    e2 = dict(env)
                    e2.update(zip(free, vals))
                    key = tuple(e2[c] for c in out)
                    acc[key] = acc[key] + p if key in acc else p
                return
            s = ins[i]
            free = [c for c in dict.fromkeys(s) if c not in env]
            for vals in itertools.product(*[range(dims[c]) for c in free]):
                e2 = dict(env)
                e2.update(zip(free, vals))
                x = pls[i][tuple(e2[c] for c in s)].p
                if x.t:
                    rec(i + 1, e2, p * x)
        rec(0, {}, ONE)
        for ix in np.ndindex(res.shape):
            res[ix] = SymNum(acc.get(ix, ZERO), kk)
        return scal(SymArray(res, kk))

    def _uns(self, n):
        raise SymUnsupported("numpy." + n)

    def cumsum(self, a, axis=None, **k):
        a = S.accumulator(asarr(a))
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        o = a.plain().copy()
        mv = np.moveaxis(o, axis, 0)
        for i in range(1, mv.shape[0]):
            mv[i] = mv[i - 1] + mv[i]
        return SymArray(o, a.lk)

    def cumprod(self, a, axis=None, **k):
        a = S.accumulator(asarr(a))
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        o = a.plain().copy()
        mv = np.moveaxis(o, axis, 0)
        for i in range(1, mv.shape[0]):
            mv[i] = mv[i - 1] * mv[i]
        return SymArray(o, a.lk)

    def diff(self, a, n=1, axis=-1):
        a = asarr(a)
        for _ in range(n):
            a = np.moveaxis(a.plain(), axis, 0)
            a = infer(np.moveaxis(a[1:] - a[:-1], 0, axis))
        return a

    def max(self, a, axis=None, out=None, keepdims=False, **k):
        return scal(S.reduce_ufunc("maximum", asarr(a), axis=_axis(axis), keepdims=keepdims))

    amax = max

    def min(self, a, axis=None, out=None, keepdims=False, **k):
        return scal(S.reduce_ufunc("minimum", asarr(a), axis=_axis(axis), keepdims=keepdims))

    amin = min

    def ptp(self, a, axis=None):
        return self.max(a, axis) - self.min(a, axis)

    def argmax(self, a, axis=None, **k):
        a = asarr(a)
        if axis is not None and a.ndim > 1:
            mv = np.moveaxis(a.plain(), axis, -1)
            o = np.empty(mv.shape[:-1], dtype=int)
            for ix in np.ndindex(o.shape):
                o[ix] = self.argmax(infer(mv[ix]))
            return asarr(o)
        f = list(a.plain().reshape(-1))
        b = 0
        for i in range(1, len(f)):
            if num(f[i]) > num(f[b]):
                b = i
        return b

    def argmin(self, a, axis=None, **k):
        return self.argmax(-asarr(a), axis)

    def argsort(self, a, axis=-1, kind=None, **k):
        a = asarr(a)
        if a.ndim != 1:
            if a.ndim == 2 and axis in (-1, 1):
                return asarr(np.array([concrete(self.argsort(SymArray(r, a.lk))) for r in a.plain()], dtype=int))
            raise SymUnsupported("argsort nd")
        xs = [num(x) for x in a.plain()]
        idx = []
        for i in range(len(xs)):           # stable insertion sort
            j = len(idx)
            while j > 0 and _lt(xs[i], xs[idx[j - 1]]):
                j -= 1
            idx.insert(j, i)
        return asarr(np.array(idx, dtype=int))

    def sort(self, a, axis=-1, **k):
        a = asarr(a)
        if a.ndim == 1:
            return self._sort1(a)
        mv = np.moveaxis(a.plain(), axis, -1).copy()
        for ix in np.ndindex(mv.shape[:-1]):
            mv[ix] = self._sort1(SymArray(mv[ix], a.lk)).plain()
        return SymArray(np.moveaxis(mv, -1, axis), a.lk)

    def _sort1(self, a):
        idx = concrete(self.argsort(a))
        return SymArray(a.plain()[idx], a.lk)

    def unique(self, a, **k):
        if k:
            raise SymUnsupported("unique options")
        a = self._sort1(asarr(a).reshape(-1))
        out = []
        for x in a.plain():
            if not out or bool(x != out[-1]):
                out.append(x)
        return asarr(out, a.lk)

    def clip(self, a, a_min=None, a_max=None, out=None, **k):
        a_min = k.get("min", a_min)
        a_max = k.get("max", a_max)
        r = asarr(a)
        if a_min is not None:
            r = ufunc(np.maximum, "__call__", (r, a_min), {})
        if a_max is not None:
            r = ufunc(np.minimum, "__call__", (r, a_max), {})
        if out is not None:
            out[...] = r
            return out
        return scal(r) if isinstance(r, np.ndarray) else r

    def where(self, c, x=None, y=None):
        if x is None:
            return self.nonzero(c)
        cc = c.plain() if isinstance(c, SymArray) else np.asarray(c, dtype=object) if isinstance(c, SymBool) else np.asarray(c)
        X, Y = asarr(x), asarr(y)
        k = kmax(X.lk, Y.lk)
        cb, xb, yb = np.broadcast_arrays(cc, X.plain(), Y.plain())
        o = np.empty(cb.shape, dtype=object)
        for ix in np.ndindex(cb.shape):
            t = tobool(cb[ix])
            if k == "b":
                o[ix] = simp(bor(band(t, xb[ix]), band(bnot(t), yb[ix])))
            else:
                v = ite(t, xb[ix], yb[ix])
                o[ix] = SymNum(v.p, k)
        return scal(_unb(SymArray(o, k)))

    def select(self, conds, choices, default=0):
        r = asarr(default)
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def nonzero(self, a):
        a = asarr(a)
        m = np.array([bool(tobool(x)) for x in a.plain().reshape(-1)], dtype=bool).reshape(a.shape)
        return tuple(np.nonzero(m))

    def flatnonzero(self, a):
        return self.nonzero(asarr(a).reshape(-1))[0]

    def argwhere(self, a):
        return np.transpose(self.nonzero(a))

    def count_nonzero(self, a, axis=None, keepdims=False):
        a = asarr(a)
        m = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            m[ix] = tobool(a.plain()[ix])
        if axis is None:
            if all(x.op == "const" for x in m.reshape(-1)):
                return int(np.sum([x.a for x in m.reshape(-1)]))
            tot = ZERO
            for x in m.reshape(-1):
                tot = tot + (SymNum.from_bool(bool(x)).p)    # forks: keeps the count an integer
            return int(tot.const_value())
        raise SymUnsupported("count_nonzero axis")

    def all(self, a, axis=None, out=None, keepdims=False, **k):
        return _boolred(a, axis, band)

    def any(self, a, axis=None, out=None, keepdims=False, **k):
        return _boolred(a, axis, bor)

    alltrue = all

    # ---- elementwise with special handling
    def real(self, x):
        return x.real if isinstance(x, (SymArray, SymNum)) else scal(asarr(x).real) if isinstance(x, (list, tuple)) else np.real(x)

    def imag(self, x):
        return x.imag if isinstance(x, (SymArray, SymNum)) else scal(asarr(x).imag) if isinstance(x, (list, tuple)) else np.imag(x)

    def iscomplexobj(self, x):
        return S.weak_kind(x) == "c"

    def isrealobj(self, x):
        return S.weak_kind(x) != "c"

    def isreal(self, x):
        a = asarr(x)
        return scal(finish_bool(umap(lambda v: num(v).imag == 0, a, "b")))

    def iscomplex(self, x):
        a = asarr(x)
        return scal(finish_bool(umap(lambda v: num(v).imag != 0, a, "b")))

    def real_if_close(self, a, tol=100):
        a = asarr(a)
        if a.lk == "c":
            t = tol * 2.220446049250313e-16 if tol > 1 else tol
            if bool(tobool(self.all(self.abs(a.imag) < t))):
                return a.real
        return a

    def round(self, a, decimals=0, out=None):
        if not has_sym(a) and not isinstance(a, (list, tuple, np.ndarray)):
            return np.round(a, decimals)
        a = asarr(a)
        d = int(decimals)
        r = scal(umap(lambda v: S.round_num(num(v), d), a, a.lk))
        if out is not None:
            out[...] = r
            return out
        return r

    around = round_ = round

    def fix(self, a):
        return scal(umap(lambda v: SymNum(S.trunc(num(v)).p, num(v).k), asarr(a), asarr(a).lk))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _odd(a) or _odd(b):
            return np.isclose(a, b, rtol, atol, equal_nan)
        A, B = asarr(a), asarr(b)
        x, y = np.broadcast_arrays(A.plain(), B.plain())
        o = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(x.shape):
            o[ix] = close(num(x[ix]).p, num(y[ix]).p, rtol, atol)
        r = SymArray(o, "b")
        return scal(finish_bool(r)) if r.ndim else simp(o[()]) if isinstance(o[()], SymBool) else o[()]

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _odd(a) or _odd(b):
            return np.allclose(a, b, rtol, atol, equal_nan)
        if S._nonfinite(a) or S._nonfinite(b):
            raise SymUnsupported("allclose with inf")
        A, B = asarr(a), asarr(b)
        x, y = np.broadcast_arrays(A.plain(), B.plain())
        r = TRUE
        parts = []
        seen = set()
        for ix in np.ndindex(x.shape):
            p, q = num(x[ix]).p, num(y[ix]).p
            if (id(p), id(q)) in seen:
                continue
            seen.add((id(p), id(q)))
            c = tobool(close(p, q, rtol, atol))
            if c.op == "const":
                if not c.a:
                    return False
                continue
            parts.append(c)
        if not parts:
            return True
        return simp(band(*parts))

    def array_equal(self, a, b, equal_nan=False):
        A, B = asarr(a), asarr(b)
        if A.shape != B.shape:
            return False
        return simp(band(*[tobool(num(p) == num(q)) if A.lk != "b" or B.lk != "b" else S.beq(p, q)
                           for p, q in zip(A.plain().reshape(-1), B.plain().reshape(-1))])) if A.size else True

    def array_equiv(self, a, b):
        A, B = np.broadcast_arrays(asarr(a).plain(), asarr(b).plain())
        return self.array_equal(infer(A), infer(B))

    def isscalar(self, x):
        return isinstance(x, (SymNum, SymBool)) or np.isscalar(x)

    def angle(self, z, deg=False):
        raise SymUnsupported("angle")

    def nan_to_num(self, a, **k):
        return a

    def vectorize(self, f, otypes=None, **k):
        def g(*a):
            arrs = [asarr(x) for x in a]
            bs = np.broadcast_arrays(*[x.plain() for x in arrs])
            o = np.empty(bs[0].shape, dtype=object)
            for ix in np.ndindex(o.shape):
                o[ix] = f(*[b[ix] for b in bs])
            return scal(_unb(infer(o)))
        return g

    def apply_along_axis(self, f, axis, a, *args, **k):
        raise SymUnsupported("apply_along_axis")

    def ndim(self, a):
        return asarr(a).ndim if not isinstance(a, np.ndarray) else a.ndim

    def shape(self, a):
        return a.shape if isinstance(a, np.ndarray) else asarr(a).shape

    def size(self, a, axis=None):
        return a.size if isinstance(a, np.ndarray) else asarr(a).size

    def issubdtype(self, a, b):
        return np.issubdtype(unshim(a), unshim(b))

    def dtype(self, x):
        return np.dtype(unshim(x))

    def result_type(self, *a):
        k = "b"
        for x in a:
            k = kmax(k, S.weak_kind(x) if not isinstance(x, (np.dtype, type)) else kdt(x))
        return S.DT[k]

    def cross(self, a, b):
        a, b = asarr(a).plain(), asarr(b).plain()
        return infer(np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object))

    # ---- print options: a stateful stand-in, so that leaks are observable
    def get_printoptions(self):
        return dict(self._printopts)

    def set_printoptions(self, **k):
        self._printopts.update({a: (int(v) if isinstance(v, SymNum) else v) for a, v in k.items() if v is not None})

    def printoptions(self, **k):
        shim = self

        class C:
            def __enter__(s):
                s.o = dict(shim._printopts)
                shim.set_printoptions(**k)

            def __exit__(s, *a):
                shim._printopts = s.o
        return C()

    def array2string(self, *a, **k):
        return "<array>"

    array_repr = array_str = array2string

    def seterr(self, **k):
        return {}

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()


def _lt(x, y):
    """order used by numpy's sort (lexicographic for complex numbers)"""
    if x.p.is_real() and y.p.is_real():
        return bool(x < y)
    a, b = x.real, y.real
    if bool(a < b):
        return True
    if bool(a > b):
        return False
    return bool(x.imag < y.imag)


def _boolred(a, axis, f):
    if not isinstance(a, (np.ndarray, list, tuple, SymNum, SymBool, bool, np.bool_, int, float)) and hasattr(a, "__iter__"):
        a = list(a)
    aa = asarr(a)
    if axis is None:
        return simp(f(*[tobool(x) for x in aa.plain().reshape(-1)])) if aa.size else f is band
    mv = np.moveaxis(aa.plain(), axis, -1)
    o = np.empty(mv.shape[:-1], dtype=object)
    for ix in np.ndindex(o.shape):
        o[ix] = simp(f(*[tobool(x) for x in mv[ix]]))
    return finish_bool(SymArray(o, "b"))


def close(p, q, rtol, atol):
    """|p-q| <= atol + rtol*|q| with numpy's (real) semantics"""
    d = p - q
    if d.is_zero():
        return True
    rt, at = P.frac(rtol) if not isinstance(rtol, SymNum) else rtol.p, P.frac(atol) if not isinstance(atol, SymNum) else atol.p
    rt = rt if isinstance(rt, Poly) else Poly.const(rt)
    at = at if isinstance(at, Poly) else Poly.const(at)
    if d.is_const() and q.is_const():
        dv, qv = Fraction(d.const_value()), Fraction(q.const_value())
        if abs(dv) > Fraction(1, 2) and rt.is_const() and at.is_const():
            return abs(dv) <= at.const_value() + rt.const_value() * abs(qv)
    eng = H.engine
    if eng is not None and not d.is_const() and eng.proves_zero(d):
        return True
    m2 = d * d.conj() if not d.is_real() else d * d
    if q.is_zero() or rt.is_zero():
        b = at
    else:
        b = at + rt * S.cabs_poly(q)
    if b.is_const() and d.is_real():
        return simp(band(rel("le", d - b), rel("le", -d - b)))
    if d.is_real() and b.is_real():
        return simp(band(rel("le", d - b), rel("le", -d - b)))
    re, im = S.split(d)
    # the component bounds are implied; they keep the linear abstraction precise
    return simp(band(rel("le", m2.real_part() - b * b), rel("le", re - b), rel("le", -re - b),
                     rel("le", im - b), rel("le", -im - b)))


def _unb(a):
    return finish_bool(a) if isinstance(a, SymArray) and a.lk == "b" else a


def _wrapc(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "iufc":
        return asarr(r)
    if isinstance(r, tuple):
        t = [_wrapc(x) for x in r]
        try:
            return type(r)(*t) if hasattr(r, "_fields") else tuple(t)
        except TypeError:
            return tuple(t)
    if isinstance(r, list):
        return [_wrapc(x) for x in r]
    return r


def _idx(s):
    if isinstance(s, (list, tuple)):
        return tuple(_idx(x) for x in s)
    if isinstance(s, SymArray):
        return tuple(_idx(x) for x in s.plain().reshape(-1)) if s.ndim else _idx(s.plain()[()])
    if isinstance(s, SymNum):
        return s.__index__()
    return s


def _axis(a):
    return a


def _tonum(x):
    if isinstance(x, SymNum):
        if x.p.is_const():
            c = x.p.const_value()
            return c if isinstance(c, int) and x.k in "bi" else float(c)
        return x.__index__()
    return x


from .shim_linalg import LinalgShim  # noqa: E402
from .shim_random import RandomShim  # noqa: E402

NP = NPShim()
NP.linalg = LinalgShim(NP)
NP.random = RandomShim(NP)


def _odd(a):
    """text or object arrays: left to numpy itself"""
    return isinstance(a, np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind in "SUVO" and not has_sym(a)
