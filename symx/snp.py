"""Symbolic stand-in for the parts of numpy the code under test uses.

A `SymArray` is an ndarray of objects with a numpy-like `kind`: 'f' (elements: real `Sym`), 'i' (integer
`Sym`), 'b' (numpy.bool_ / `SymBool`), 'O' (anything).  Array layout (shape, slicing, broadcasting,
views) is numpy's own; element values are symbolic.
"""
import builtins
import itertools
import math
from fractions import Fraction

import numpy as rnp
import z3

from symx import core
from symx.core import (Sym, SymBool, Unsupported, to_sym, as_real, sadd, ssub, smul, sdiv, spow, ssqrt,
                       sexp, slog, slog10, slog2, sfloor, sceil, sround, strunc, smin, smax, sabs, sclip,
                       site, seq, slt, sle, sand, sor, snot, sfloordiv, smod, bexpr)

ORDER = {'b': 0, 'i': 1, 'f': 2, 'O': 3}
NBOOL = rnp.bool_
_NAN = Sym.const(float('nan'))
_INF = Sym.const(float('inf'))


def nb(b):
    return NBOOL(b) if isinstance(b, bool) else b


# ------------------------------------------------------------------ kinds and casts

def kind_of_dtype(t):
    if t is None:
        return None
    if isinstance(t, SymDType):
        return t.k
    if isinstance(t, type) and getattr(t, '_symx_float', False):
        return 'f'
    try:
        dt = rnp.dtype(t)
    except TypeError:
        raise
    k = dt.kind
    if k in 'iu':
        return 'i'
    if k == 'b':
        return 'b'
    if k == 'f':
        return 'f'
    if k in 'OUSV':
        return 'O'
    raise Unsupported("dtype %r" % (t,))


class SymDType:
    def __init__(self, k):
        self.k = k


_DT = {'f': rnp.dtype(float), 'i': rnp.dtype(int), 'b': rnp.dtype(bool), 'O': rnp.dtype(object)}


def kind_of(x):
    """kind of a scalar leaf"""
    if isinstance(x, Sym):
        return 'i' if x.isint else 'f'
    if isinstance(x, (bool, NBOOL, SymBool)):
        return 'b'
    if isinstance(x, (int, rnp.integer)):
        return 'i'
    if isinstance(x, (float, rnp.floating, Fraction)):
        return 'f'
    return 'O'


def cast_scalar(x, kind):
    if kind == 'O' or kind is None:
        return x
    if isinstance(x, SymArray):
        if x.size == 1:
            return cast_scalar(x.ravel_()[0], kind)
        raise ValueError("setting an array element with a sequence.")
    if kind == 'f':
        if x is None:
            return _NAN
        if isinstance(x, str):
            return Sym.const(float(x))
        try:
            return as_real(x)
        except TypeError:
            if rnp.ndim(x) and rnp.size(x) != 1:
                raise ValueError("setting an array element with a sequence.")
            raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
    if kind == 'i':
        if x is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number")
        s = to_sym(x)
        if s.isint:
            return s
        if s.is_special:
            if s.is_nan:
                raise ValueError("cannot convert float NaN to integer")
            raise OverflowError("cannot convert float infinity to integer")
        r = strunc(s)
        return Sym(c=r.c, n=r.n, d=r.d, sh=r.sh, isint=True)
    if kind == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (bool, NBOOL)):
            return NBOOL(x)
        if x is None:
            return NBOOL(False)
        if isinstance(x, str):
            return NBOOL(bool(x))
        s = to_sym(x)
        if s.is_special:
            return NBOOL(True)
        return nb(snot(seq(s, Sym.const(0, isint=True))))
    raise Unsupported(kind)


def join(*ks):
    k = 'b'
    for x in ks:
        if x is not None and ORDER[x] > ORDER[k]:
            k = x
    return k


# ------------------------------------------------------------------ the array

class SymArray(rnp.ndarray):
    kind = 'O'

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', 'O')

    @property
    def dtype(self):
        return _DT[self.kind]

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    @property
    def flat(self):
        return self.reshape(-1)

    @flat.setter
    def flat(self, v):
        self.reshape(-1)[...] = v

    def obj(self):
        """plain object-array view"""
        return rnp.ndarray.view(self, rnp.ndarray)

    def ravel_(self):
        return self.obj().ravel()

    # ---- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return call_ufunc(ufunc.__name__, method, inputs, kw, ufunc)

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(NP, func.__name__, None)
        mod = getattr(func, '__module__', '') or ''
        if mod.startswith('numpy.linalg'):
            f = getattr(NP.linalg, func.__name__, None)
        if f is not None:
            return f(*args, **kwargs)
        return generic_call(func, args, kwargs)

    def __array_wrap__(self, arr, context=None, *a):
        return wrap(arr, self.kind)

    # ---- indexing
    def __getitem__(self, key):
        key, mask = norm_key(key, self)
        r = rnp.ndarray.__getitem__(self, key)
        if isinstance(r, rnp.ndarray) and not isinstance(r, SymArray) and self.kind != 'O':
            r = wrap(r, self.kind)
        return r

    def __setitem__(self, key, val):
        # masked assignment with undecided mask: merge instead of forking
        if isinstance(key, SymArray) and key.kind == 'b' and has_symbool(key):
            v = val
            if not isinstance(v, (SymArray, list, tuple, rnp.ndarray)) or rnp.ndim(v) == 0:
                c = cast_scalar(v if not isinstance(v, SymArray) else v.ravel_()[0], self.kind)
                if key.ndim <= self.ndim and self.kind in 'fib':
                    o = self.obj()
                    for idx in rnp.ndindex(*key.shape):
                        m = key.obj()[idx]
                        if not isinstance(m, SymBool):
                            if m:
                                o[idx] = c
                            continue
                        if key.ndim == self.ndim:
                            o[idx] = norm_elem(site(m, c, o[idx]), self.kind)
                        else:
                            sub = o[idx]
                            for j in rnp.ndindex(*sub.shape):
                                sub[j] = norm_elem(site(m, c, sub[j]), self.kind)
                    return
        key, _ = norm_key(key, self)
        tgt = rnp.ndarray.__getitem__(self, key) if not _single(key, self) else None
        if isinstance(val, (SymArray, list, tuple, rnp.ndarray)) or (
                self.kind != 'O' and hasattr(val, '__iter__') and not isinstance(val, (str, Sym, SymBool))):
            v = asarray(val) if self.kind != 'O' else asarray(val, dtype=object)
            if self.kind != 'O':
                if v.kind == 'O' and self.kind == 'f':
                    v = cast(v, 'f')
                v = cast(v, self.kind)
            if tgt is None or not isinstance(tgt, rnp.ndarray):
                if self.kind == 'O':
                    rnp.ndarray.__setitem__(self, key, val)
                    return
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                rnp.ndarray.__setitem__(self, key, v.ravel_()[0])
                return
            rnp.ndarray.__setitem__(self, key, v.obj())
            return
        v = cast_scalar(val, self.kind)
        if tgt is None or not isinstance(tgt, rnp.ndarray):
            rnp.ndarray.__setitem__(self, key, v)
            return
        box = rnp.empty((), dtype=object)
        box[()] = v
        rnp.ndarray.__setitem__(self, key, box)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield rnp.ndarray.__getitem__(self, i)

    def __contains__(self, v):
        return bool(NP.any(self == v))

    def __bool__(self):
        if self.size == 1:
            return bool(cast_scalar(self.ravel_()[0], 'b')) if self.kind != 'O' else bool(self.ravel_()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel_()[0])
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.ravel_()[0])
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __index__(self):
        if self.ndim == 0 and self.kind == 'i':
            return int(self.ravel_()[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __repr__(self):
        return "SymArray(%s, kind=%s)" % (self.shape, self.kind)
    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.ravel_()[0], spec)
        if spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling")

    # ---- methods
    def copy(self, order='C'):
        return wrap(self.obj().copy(order), self.kind)

    def astype(self, t, *a, **k):
        return cast(self, kind_of_dtype(t)).copy('K')

    def view(self, *a, **k):
        if not a and not k:
            return rnp.ndarray.view(self, SymArray)
        if a and a[0] in (rnp.ndarray, SymArray):
            return rnp.ndarray.view(self, SymArray)
        raise Unsupported("view")

    def item(self, *a):
        if a:
            return self.obj().item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.ravel_()[0]

    def tolist(self):
        return self.obj().tolist()

    def fill(self, v):
        self[...] = v

    def flatten(self, order='C'):
        return wrap(self.obj().flatten(order), self.kind)

    def take(self, indices, axis=None, **k):
        return NP.take(self, indices, axis=axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return NP.sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, initial=initial, where=where)
    def prod(self, axis=None, **k): return NP.prod(self, axis=axis, **k)
    def min(self, axis=None, out=None, **k): return NP.min(self, axis=axis, out=out, **k)
    def max(self, axis=None, out=None, **k): return NP.max(self, axis=axis, out=out, **k)
    def ptp(self, axis=None, **k): return NP.max(self, axis=axis) - NP.min(self, axis=axis)
    def mean(self, axis=None, **k): return NP.mean(self, axis=axis, **k)
    def std(self, axis=None, **k): return NP.std(self, axis=axis, **k)
    def var(self, axis=None, **k): return NP.var(self, axis=axis, **k)
    def any(self, axis=None, **k): return NP.any(self, axis=axis, **k)
    def all(self, axis=None, **k): return NP.all(self, axis=axis, **k)
    def cumsum(self, axis=None, dtype=None, out=None): return NP.cumsum(self, axis=axis, out=out)
    def cumprod(self, axis=None, dtype=None, out=None): return NP.cumprod(self, axis=axis)
    def argsort(self, axis=-1, kind=None, order=None): return NP.argsort(self, axis=axis)
    def sort(self, axis=-1, kind=None, order=None): self[...] = NP.sort(self, axis=axis)
    def argmin(self, axis=None, **k): return NP.argmin(self, axis=axis)
    def argmax(self, axis=None, **k): return NP.argmax(self, axis=axis)
    def searchsorted(self, v, side='left', sorter=None): return NP.searchsorted(self, v, side=side, sorter=sorter)
    def nonzero(self): return NP.nonzero(self)
    def clip(self, min=None, max=None, out=None, **k): return NP.clip(self, min, max)
    def round(self, decimals=0, out=None): return NP.around(self, decimals)
    def dot(self, b, out=None): return NP.dot(self, b)
    def conj(self): return self
    def conjugate(self): return self
    def trace(self, *a, **k): return NP.sum(self.diagonal())
    def repeat(self, n, axis=None): return NP.repeat(self, n, axis=axis)
    def __matmul__(self, o): return NP.matmul(self, o)
    def __rmatmul__(self, o): return NP.matmul(o, self)
    @property
    def real(self): return self
    @property
    def nbytes(self): return self.size * 8
    @property
    def itemsize(self): return 8


def _single(key, arr):
    """does key address one element?"""
    k = key if isinstance(key, tuple) else (key,)
    if any(x is None or x is Ellipsis for x in k):
        return False
    return all(isinstance(x, (int, rnp.integer)) and not isinstance(x, bool) for x in k) and len(k) == arr.ndim


def norm_elem(x, kind):
    if kind == 'f':
        return as_real(x)
    if kind == 'b':
        return nb(x)
    return x


def has_symbool(a):
    return any(isinstance(x, SymBool) for x in a.ravel_())


def _key1(k):
    if isinstance(k, SymArray):
        if k.kind == 'b':
            out = rnp.empty(k.shape, dtype=bool)
            o = k.obj()
            for i in rnp.ndindex(*k.shape):
                out[i] = bool(o[i])
            if k.ndim == 0:
                return bool(out)
            return out
        if k.kind == 'i':
            if k.ndim == 0:
                return int(k.ravel_()[0])
            out = rnp.empty(k.shape, dtype=int)
            o = k.obj()
            for i in rnp.ndindex(*k.shape):
                out[i] = int(o[i])
            return out
        if k.size == 0:
            return rnp.zeros(k.shape, dtype=int)
        if k.kind == 'O':
            return _key1(asarray(k.tolist()))
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, Sym):
        if k.isint:
            return int(k)
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                         "integer or boolean arrays are valid indices")
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: v if v is None else _slice_i(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        return _key1(asarray(k)) if len(k) else rnp.zeros(0, dtype=int)
    if isinstance(k, range):
        return rnp.array(list(k), dtype=int)
    return k


def _slice_i(v):
    if isinstance(v, (int, rnp.integer)):
        return int(v)
    if isinstance(v, Sym):
        if not v.isint:
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return int(v)
    return v.__index__()


def norm_key(key, arr):
    if isinstance(key, tuple):
        return tuple(_key1(k) for k in key), None
    return _key1(key), None


def wrap(a, kind):
    if not isinstance(a, rnp.ndarray):
        return a
    r = rnp.ndarray.view(a, SymArray) if not isinstance(a, SymArray) else a
    r.kind = kind
    return r


def scalarize(a):
    """0-d array -> element"""
    if isinstance(a, rnp.ndarray) and a.ndim == 0:
        return rnp.ndarray.__getitem__(a, ())
    return a


def cast(a, kind):
    if kind is None or a.kind == kind:
        return a
    out = rnp.empty(a.shape, dtype=object)
    src = a.obj()
    for i in rnp.ndindex(*a.shape):
        out[i] = cast_scalar(src[i], kind)
    return wrap(out, kind)


def const_elem(x, kind):
    if kind == 'f':
        return as_real(x) if x is not None else _NAN
    if kind == 'i':
        return to_sym(x)
    if kind == 'b':
        return nb(x) if not isinstance(x, Sym) else cast_scalar(x, 'b')
    return x


def _from_real(a):
    """a real numpy array -> SymArray"""
    k = a.dtype.kind
    kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'O')
    out = rnp.empty(a.shape, dtype=object)
    if kind == 'O':
        out[...] = a
        return wrap(out, 'O')
    for i in rnp.ndindex(*a.shape):
        v = a[i]
        out[i] = v if kind == 'b' else (Sym.const(int(v), isint=True) if kind == 'i' else Sym.const(float(v)))
    return wrap(out, kind)


def _infer(o):
    """kind of a plain object array from its elements"""
    k = 'b' if o.size else 'f'
    for x in o.ravel():
        k = join(k, kind_of(x))
        if k == 'O':
            break
    return k


def from_objects(o, kind=None):
    """plain object ndarray whose elements are scalars -> SymArray"""
    kind = kind or _infer(o)
    out = rnp.empty(o.shape, dtype=object)
    for i in rnp.ndindex(*o.shape):
        out[i] = const_elem(o[i], kind) if kind != 'O' else o[i]
    return wrap(out, kind)


class _Ragged(Exception):
    pass


def _is_seq(x):
    return isinstance(x, (list, tuple, range, SymArray, rnp.ndarray)) or \
        (hasattr(x, '__len__') and hasattr(x, '__getitem__') and not isinstance(x, (str, bytes, dict, Sym, SymBool)))


def _shape_of(x):
    if isinstance(x, rnp.ndarray):
        return x.shape
    if _is_seq(x):
        n = len(x)
        if n == 0:
            return (0,)
        shp = [_shape_of(y) for y in x]
        if any(s != shp[0] for s in shp[1:]):
            raise _Ragged()
        return (n,) + shp[0]
    return ()


def asarray(x, dtype=None, copy=False):
    kind = kind_of_dtype(dtype) if dtype is not None else None
    if isinstance(x, SymArray):
        r = x if kind is None else cast(x, kind)
        return r.copy('K') if copy and r is x else r
    if isinstance(x, rnp.ndarray):
        r = _from_real(x) if x.dtype != object else from_objects(x)
        return cast(r, kind) if kind else r
    if isinstance(x, FakeArrayLike):
        x = x.to_list()
    if isinstance(x, MaskedSym):
        return asarray(x.data, dtype=dtype, copy=copy)
    if not _is_seq(x):
        k = kind_of(x)
        out = rnp.empty((), dtype=object)
        out[()] = const_elem(x, k) if k != 'O' else x
        r = wrap(out, k)
        return cast(r, kind) if kind else r
    try:
        shp = _shape_of(x)
    except _Ragged:
        if kind == 'O':
            # numpy's own rules: the outermost consistent dimensions, ValueError for some mixtures of arrays
            return wrap(rnp.asarray(x, dtype=object), 'O')
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                         "shape after 1 dimensions.")
    out = rnp.empty(shp, dtype=object)
    ks = []

    def fill(y, pre):
        if isinstance(y, SymArray):
            o = y.obj()
            for i in rnp.ndindex(*y.shape):
                out[pre + i] = o[i]
            ks.append(y.kind if y.size or True else None)
        elif isinstance(y, rnp.ndarray):
            fill(asarray(y), pre)
        elif _is_seq(y):
            if len(y) == 0:
                ks.append('f')
            for i in range(len(y)):
                fill(y[i], pre + (i,))
        else:
            out[pre] = y
            ks.append(kind_of(y))
    fill(x, ())
    k = join(*ks) if ks else 'f'
    if kind is not None:
        k2 = kind
        if k2 == 'O':
            return wrap(out, 'O')
    else:
        k2 = k
    if k2 != 'O':
        if k == 'O' and kind is not None and kind != 'f':
            pass
        for i in rnp.ndindex(*shp):
            v = out[i]
            out[i] = cast_scalar(v, k2)
    return wrap(out, k2)


class FakeArrayLike:
    pass


# ------------------------------------------------------------------ ufuncs

def _num(f):
    return f


def _both(a):
    return to_sym(a)


def _s_sign(x):
    x = to_sym(x)
    if x.is_nan:
        return x
    g = core.ctx().sign(x) if not x.is_special else (1 if x.c > 0 else -1)
    return Sym.const(g, isint=x.isint)


def _isnan(x):
    return NBOOL(isinstance(x, Sym) and x.is_nan)


def _isinf(x):
    return NBOOL(isinstance(x, Sym) and x.is_special and not x.is_nan)


def _isfinite(x):
    return NBOOL(not (isinstance(x, Sym) and x.is_special))


def _tobool(x):
    return cast_scalar(x, 'b')


def _opq1(name, fn, mono=None, rng=None):
    def f(x):
        x = as_real(x)
        if x.c is not None:
            try:
                return Sym.const(fn(float(x.c)))
            except ValueError:
                return _NAN
        return core.ctx().opaque(name, x, fn=fn, mono=mono, rng=rng)
    return f


def _smaximum(a, b):
    return smax(to_sym(a), to_sym(b))


def _sminimum(a, b):
    return smin(to_sym(a), to_sym(b))


def _fmax(a, b):
    a, b = to_sym(a), to_sym(b)
    return b if a.is_nan else (a if b.is_nan else smax(a, b))


def _fmin(a, b):
    a, b = to_sym(a), to_sym(b)
    return b if a.is_nan else (a if b.is_nan else smin(a, b))


def _hypot(a, b):
    return ssqrt(sadd(smul(a, a), smul(b, b)))


def _bitand(a, b):
    return nb(sand(a, b))


def _bitor(a, b):
    return nb(sor(a, b))


def _xor(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return nb(core.mkbool(z3.Xor(bexpr(a), bexpr(b))))
    return NBOOL(bool(a) != bool(b))


def _int_bit(op):
    def f(a, b):
        a, b = to_sym(a), to_sym(b)
        return Sym.const(op(int(a), int(b)), isint=True)
    return f


# name -> (function, rule)   rule: 'num' keep joined kind (b->i), 'flt' -> f, 'cmp' -> b
BIN = {
    'subtract': (ssub, 'num'), 'divide': (sdiv, 'flt'), 'true_divide': (sdiv, 'flt'),
    'floor_divide': (sfloordiv, 'num'), 'remainder': (smod, 'num'), 'mod': (smod, 'num'),
    'power': (spow, 'num'), 'float_power': (spow, 'flt'),
    'maximum': (_smaximum, 'num'), 'minimum': (_sminimum, 'num'), 'fmax': (_fmax, 'num'), 'fmin': (_fmin, 'num'),
    'hypot': (_hypot, 'flt'),
    'less': (slt, 'cmp'), 'less_equal': (sle, 'cmp'),
    'greater': (lambda a, b: slt(b, a), 'cmp'), 'greater_equal': (lambda a, b: sle(b, a), 'cmp'),
    'equal': (seq, 'cmp'), 'not_equal': (lambda a, b: snot(seq(a, b)), 'cmp'),
}
UN = {
    'negative': (lambda a: smul(Sym.const(-1, isint=True), a), 'num'), 'positive': (lambda a: a, 'num'),
    'absolute': (sabs, 'num'), 'fabs': (sabs, 'flt'), 'sqrt': (ssqrt, 'flt'),
    'square': (lambda a: smul(a, a), 'num'), 'reciprocal': (lambda a: sdiv(Sym.const(1), a), 'flt'),
    'exp': (sexp, 'flt'), 'log': (slog, 'flt'), 'log10': (slog10, 'flt'), 'log2': (slog2, 'flt'),
    'expm1': (lambda a: ssub(sexp(a), Sym.const(1)), 'flt'),
    'log1p': (lambda a: slog(sadd(Sym.const(1), a)), 'flt'),
    'exp2': (lambda a: spow(Sym.const(2), as_real(a)), 'flt'),
    'floor': (sfloor, 'flt'), 'ceil': (sceil, 'flt'), 'rint': (sround, 'flt'), 'trunc': (strunc, 'flt'),
    'sign': (_s_sign, 'num'), 'cbrt': (lambda a: spow(a, Sym.const(Fraction(1, 3))), 'flt'),
    'sin': (_opq1('sin', math.sin, rng=lambda v: z3.And(v >= -1, v <= 1)), 'flt'),
    'cos': (_opq1('cos', math.cos, rng=lambda v: z3.And(v >= -1, v <= 1)), 'flt'),
    'arctan': (_opq1('arctan', math.atan, mono=1), 'flt'),
    'tanh': (_opq1('tanh', math.tanh, mono=1), 'flt'),
    'isnan': (_isnan, 'cmp'), 'isinf': (_isinf, 'cmp'), 'isfinite': (_isfinite, 'cmp'),
    'deg2rad': (lambda a: smul(a, Sym.const(math.pi / 180)), 'flt'),
}


def _elem_bin(name, a, b, ka, kb):
    """(function on raw elements, output kind)"""
    k = join(ka, kb)
    if k == 'O':
        import operator
        pyop = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
                'divide': _pydiv, 'true_divide': _pydiv, 'power': operator.pow,
                'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt,
                'greater_equal': operator.ge, 'equal': _py_eq, 'not_equal': lambda x, y: snot(_py_eq(x, y)),
                'logical_and': lambda x, y: x and y, 'logical_or': lambda x, y: x or y,
                'bitwise_and': operator.and_, 'bitwise_or': operator.or_,
                'maximum': lambda x, y: x if bool(x >= y) else y,
                'minimum': lambda x, y: x if bool(x <= y) else y}.get(name)
        if pyop is None:
            raise TypeError("unsupported ufunc %s for object arrays" % name)
        out = 'b' if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal') else 'O'
        if out == 'b':
            return (lambda x, y: nb(pyop(x, y))), 'b'
        return pyop, out
    if name in ('add', 'multiply'):
        if k == 'b':
            return (_bitor if name == 'add' else _bitand), 'b'
        f = sadd if name == 'add' else smul
        if name == 'multiply' and 'b' in (ka, kb):
            def g(x, y):
                if isinstance(x, SymBool):
                    return site(x, to_sym(y), Sym.const(0, isint=(k == 'i')))
                if isinstance(y, SymBool):
                    return site(y, to_sym(x), Sym.const(0, isint=(k == 'i')))
                return smul(to_sym(x), to_sym(y))
            return g, k
        return (lambda x, y: f(to_sym(x), to_sym(y))), k
    if name in ('logical_and', 'logical_or', 'logical_xor'):
        f = {'logical_and': _bitand, 'logical_or': _bitor, 'logical_xor': _xor}[name]
        return (lambda x, y: f(_tobool(x), _tobool(y))), 'b'
    if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor'):
        if k == 'b':
            return {'bitwise_and': _bitand, 'bitwise_or': _bitor, 'bitwise_xor': _xor}[name], 'b'
        if k == 'i':
            import operator
            op = {'bitwise_and': operator.and_, 'bitwise_or': operator.or_, 'bitwise_xor': operator.xor}[name]

            def g(x, y):
                if isinstance(x, SymBool) or isinstance(y, SymBool):
                    return to_sym(op(x, int(to_sym(y))) if isinstance(x, SymBool) else op(y, int(to_sym(x))))
                return Sym.const(op(int(to_sym(x)), int(to_sym(y))), isint=True)
            return g, 'i'
        raise TypeError("ufunc '%s' not supported for the input types" % name)
    if name in BIN:
        f, rule = BIN[name]
        if rule == 'cmp':
            if ka == 'b' and kb == 'b' and name in ('equal', 'not_equal'):
                def g(x, y):
                    e = snot(_xor(x, y))
                    return nb(e if name == 'equal' else snot(e))
                return g, 'b'
            return (lambda x, y: nb(f(to_sym(x), to_sym(y)))), 'b'
        if rule == 'flt':
            return (lambda x, y: as_real(f(as_real(to_sym(x)), as_real(to_sym(y))))), 'f'
        if name == 'subtract' and k == 'b':
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        if name in ('maximum', 'minimum') and k == 'b':
            return (_bitor if name == 'maximum' else _bitand), 'b'
        if k == 'b':
            k = 'i'
        if name == 'power' and k == 'i':
            def g(x, y):
                y = to_sym(y)
                if y.c is not None and y.c < 0:
                    raise ValueError("Integers to negative integer powers are not allowed.")
                return spow(to_sym(x), y)
            return g, 'i'
        if k == 'f':
            return (lambda x, y: as_real(f(as_real(to_sym(x)), to_sym(y) if name == 'power' else as_real(to_sym(y))))), 'f'
        return (lambda x, y: f(to_sym(x), to_sym(y))), k
    raise Unsupported("ufunc %s" % name)


def _pydiv(a, b):
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        return a / b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return sdiv(to_sym(a), to_sym(b))
    return a / b


def _py_eq(x, y):
    if x is None or y is None:
        return x is y
    r = (x == y)
    return r


def _elem_un(name, ka):
    if ka == 'O':
        if name in ('isnan', 'isfinite', 'isinf', 'fabs', 'sqrt', 'exp', 'log', 'log10', 'log2', 'floor', 'ceil', 'rint'):
            raise TypeError("ufunc '%s' not supported for the input types, and the inputs could not be safely "
                            "coerced to any supported types according to the casting rule ''safe''" % name)
        if name == 'logical_not':
            return (lambda x: nb(not x)), 'b'
        if name == 'negative':
            return (lambda x: -x), 'O'
        if name == 'absolute':
            return abs, 'O'
        if name == 'square':
            return (lambda x: x * x), 'O'
        raise Unsupported("ufunc %s on objects" % name)
    if name == 'logical_not':
        return (lambda x: nb(snot(_tobool(x)))), 'b'
    if name in ('invert', 'bitwise_not'):
        if ka == 'b':
            return (lambda x: nb(snot(x))), 'b'
        if ka == 'i':
            return (lambda x: Sym.const(~int(x), isint=True)), 'i'
        raise TypeError("ufunc 'invert' not supported for the input types")
    if name not in UN:
        raise Unsupported("ufunc %s" % name)
    f, rule = UN[name]
    if rule == 'cmp':
        return (lambda x: nb(f(x))), 'b'
    if rule == 'flt':
        return (lambda x: as_real(f(as_real(to_sym(x))))), 'f'
    if ka == 'b':
        if name == 'negative':
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return (lambda x: x), 'b'
    return (lambda x: f(to_sym(x))), ka


_UNARY_NAMES = set(UN) | {'logical_not', 'invert', 'bitwise_not', 'conjugate'}
_IDENT = {'add': (Sym.const(0, isint=True)), 'multiply': Sym.const(1, isint=True)}


def _keep_order(out, os_):
    """numpy's order 'K': results of operations on Fortran ordered arrays are so, too"""
    if out.ndim > 1 and any(o.ndim == out.ndim and o.flags.f_contiguous and not o.flags.c_contiguous for o in os_) and \
            not any(o.ndim == out.ndim and o.flags.c_contiguous and not o.flags.f_contiguous for o in os_):
        return rnp.asfortranarray(out)
    return out


def elementwise(f, kind, *arrs):
    os_ = [a.obj() for a in arrs]
    if len(os_) == 1:
        o = os_[0]
        out = rnp.empty(o.shape, dtype=object)
        of = out.reshape(-1)
        for i, x in enumerate(o.ravel()):
            of[i] = f(x)
        return wrap(_keep_order(out, os_), kind)
    try:
        bs = rnp.broadcast(*os_)
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes " +
                         " ".join(str(o.shape) for o in os_))
    out = rnp.empty(bs.shape, dtype=object)
    of = out.reshape(-1)
    if bs.ndim == 0:
        of[0] = f(*[o[()] for o in os_])
        return wrap(out, kind)
    for i, t in enumerate(bs):
        of[i] = f(*t)
    return wrap(_keep_order(out, os_), kind)


def call_ufunc(name, method, inputs, kw, ufunc=None):
    kw = dict(kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None), kw.pop('order', None), kw.pop('subok', None)
    if method == '__call__':
        if name == 'matmul':
            return _store(NP.matmul(*inputs), out)
        if name in ('divmod', 'modf', 'frexp'):
            raise Unsupported("ufunc %s" % name)
        arrs = [asarray(x) for x in inputs]
        if name == 'conjugate':
            return _store(arrs[0], out)
        if name in _UNARY_NAMES and len(arrs) == 1:
            f, k = _elem_un(name, arrs[0].kind)
        elif len(arrs) == 2:
            f, k = _elem_bin(name, inputs[0], inputs[1], arrs[0].kind, arrs[1].kind)
        else:
            if all_const(inputs):
                return generic_const(getattr(rnp, name), inputs, {})
            raise Unsupported("ufunc %s" % name)
        if where is not True:
            w = asarray(where)
            fillv = asarray(out) if out is not None else asarray(_NAN)
            g = f

            def merged(*t):
                c = _tobool(t[-2])
                if not isinstance(c, SymBool):
                    return g(*t[:-2]) if c else const_elem(t[-1], k)
                return site(c, g(*t[:-2]), const_elem(t[-1], k)) if k != 'O' else (g(*t[:-2]) if bool(c) else t[-1])
            r = elementwise(merged, k, *(arrs + [w, fillv]))
        else:
            r = elementwise(f, k, *arrs)
        if dtype is not None:
            r = cast(r, kind_of_dtype(dtype))
        r = _store(r, out)
        if isinstance(r, rnp.ndarray) and r.ndim == 0 and out is None:
            return scalarize(r)
        return r
    if method == 'reduce':
        a = asarray(inputs[0])
        axis = kw.get('axis', 0 if len(inputs) < 2 else inputs[1])
        r = ureduce(name, a, axis, kw.get('keepdims', False), kw.get('initial', None), where, dtype)
        return _store(r, out)
    if method == 'accumulate':
        a = asarray(inputs[0])
        axis = kw.get('axis', 0 if len(inputs) < 2 else inputs[1])
        return _store(uaccumulate(name, a, axis), out)
    if method == 'outer':
        a, b = asarray(inputs[0]), asarray(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return call_ufunc(name, '__call__', (a2, b), {})
    if method == 'at':
        a, idx, *rest = inputs
        ii = asarray(idx)
        vals = [asarray(r) for r in rest]
        f, k = _elem_bin(name, None, None, a.kind, vals[0].kind) if vals else _elem_un(name, a.kind)
        for n, i in enumerate(ii.ravel_()):
            v = [x.ravel_()[n] if x.size > 1 else x.ravel_()[0] for x in vals]
            a[int(i)] = f(a[int(i)], *v)
        return None
    raise Unsupported("ufunc method %s" % method)


def _store(r, out):
    if out is None:
        return r
    a = asarray(r)
    if isinstance(out, SymArray):
        if ORDER[a.kind] > ORDER[out.kind]:
            raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                            % (_DT[a.kind], _DT[out.kind]))
        out[...] = rnp.broadcast_to(a.obj(), out.shape).view(SymArray) if a.shape != out.shape else a
        return out
    raise Unsupported("out=")


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)) or (isinstance(axis, rnp.ndarray) and axis.ndim):
        ax = [int(x) for x in axis]
    else:
        ax = [int(axis)]
    res = []
    for x in ax:
        if x < -nd or x >= nd:
            raise rnp.AxisError(x, nd)
        res.append(x % nd)
    if len(set(res)) != len(res):
        raise ValueError("duplicate value in 'axis'")
    return tuple(res)


def _reduce_groups(a, axis):
    """iterate (index, list of elements in C order) over reduced groups"""
    nd = a.ndim
    ax = _axes(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    o = a.obj()
    shp = tuple(a.shape[i] for i in rest)
    t = rnp.transpose(o, rest + list(sorted(ax))) if nd else o
    red = 1
    for i in ax:
        red *= a.shape[i]
    t = t.reshape(shp + (red,))
    return shp, t, ax


def reduce_with(f, a, axis, keepdims, kind):
    """f: list of elements -> element"""
    shp, t, ax = _reduce_groups(a, axis)
    out = rnp.empty(shp, dtype=object)
    for i in rnp.ndindex(*shp):
        out[i] = f(list(t[i]))
    if keepdims and keepdims is not rnp._NoValue:
        out = out.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
    r = wrap(out, kind)
    return scalarize(r)


def ureduce(name, a, axis, keepdims=False, initial=None, where=True, dtype=None):
    if dtype is not None:
        a = cast(a, kind_of_dtype(dtype))
    if initial is rnp._NoValue:
        initial = None
    if where is not True:
        w = NP.broadcast_to(asarray(where), a.shape)
        if name == 'add':
            a = elementwise(lambda x, c: site(_tobool(c), to_sym(x), Sym.const(0, isint=to_sym(x).isint)),
                            'i' if a.kind == 'b' else a.kind, a, w)
        else:
            raise Unsupported("where in reduce")
    k = a.kind
    if name in ('add', 'multiply'):
        k2 = 'i' if k == 'b' else k
        if k == 'O':
            def f(xs):
                r = initial if initial is not None else None
                for x in xs:
                    r = x if r is None else (r + x if name == 'add' else r * x)
                return 0 if r is None else r
            return reduce_with(f, a, axis, keepdims, 'O')
        op = sadd if name == 'add' else smul

        def f(xs):
            r = to_sym(initial) if initial is not None else None
            for x in xs:
                x = to_sym(x)
                r = x if r is None else op(r, x)
            if r is None:
                r = Sym.const(0 if name == 'add' else 1, isint=(k2 == 'i'))
            return const_elem(r, k2)
        return reduce_with(f, a, axis, keepdims, k2)
    if name in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
        op = sand if name.endswith('and') else sor
        return reduce_with(lambda xs: nb(op(*[_tobool(x) if k != 'O' else _obool(x) for x in xs])), a, axis, keepdims, 'b')
    if name in ('minimum', 'maximum', 'fmin', 'fmax'):
        def f(xs):
            if initial is not None:
                xs = xs + [to_sym(initial)]
            if not xs:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            if k == 'b':
                return nb((sand if name.endswith('in') else sor)(*xs)) if name in ('minimum', 'maximum') else xs[0]
            if k == 'O':
                return builtins.min(xs) if 'min' in name else builtins.max(xs)
            xs = [to_sym(x) for x in xs]
            if name.startswith('f'):
                ys = [x for x in xs if not x.is_nan]
                xs = ys or xs[:1]
            return pick_extreme(xs, 'min' in name)[1]
        return reduce_with(f, a, axis, keepdims, k)
    if name in BIN:
        def f(xs):
            r = xs[0]
            fn, _ = _elem_bin(name, None, None, k, k)
            for x in xs[1:]:
                r = fn(r, x)
            return r
        return reduce_with(f, a, axis, keepdims, k)
    raise Unsupported("reduce %s" % name)


def _obool(x):
    if isinstance(x, (SymBool, Sym)):
        return _tobool(x)
    return NBOOL(bool(x))


def pick_extreme(xs, is_min):
    """(index, value) of the first min/max; forks on the choice (or merges, per option)"""
    for i, x in enumerate(xs):
        if x.is_nan:
            return i, x
    if all(x.c is not None for x in xs):
        best = 0
        for i in range(1, len(xs)):
            if (xs[i].c < xs[best].c) if is_min else (xs[i].c > xs[best].c):
                best = i
        return best, xs[best]
    if core.ctx().opts.get('merge_minmax'):
        r = xs[0]
        for x in xs[1:]:
            r = smin(r, x) if is_min else smax(r, x)
        return None, r
    best = 0
    for i in range(1, len(xs)):
        a, b = xs[i], xs[best]
        if a is b:
            continue
        better = slt(a, b) if is_min else slt(b, a)
        if bool(better):
            best = i
    return best, xs[best]


def uaccumulate(name, a, axis):
    ax = _axes(axis, a.ndim)[0]
    if name in ('add', 'multiply'):
        k = 'i' if a.kind == 'b' else a.kind
        op = sadd if name == 'add' else smul
        f = (lambda x, y: op(to_sym(x), to_sym(y))) if k != 'O' else (lambda x, y: x + y if name == 'add' else x * y)
    elif name in ('maximum', 'minimum'):
        k = a.kind
        f = _smaximum if name == 'maximum' else _sminimum
    elif name in ('logical_and', 'logical_or'):
        k = 'b'
        op2 = sand if name == 'logical_and' else sor
        f = lambda x, y: nb(op2(_tobool(x), _tobool(y)))
    else:
        raise Unsupported("accumulate %s" % name)
    o = rnp.moveaxis(a.obj(), ax, -1)
    out = rnp.empty(o.shape, dtype=object)
    for i in rnp.ndindex(*o.shape[:-1]):
        r = None
        for j in range(o.shape[-1]):
            r = const_elem(o[i + (j,)], k) if r is None else f(r, o[i + (j,)])
            out[i + (j,)] = const_elem(r, k)
    return wrap(rnp.moveaxis(out, -1, ax).copy(), k)


# ------------------------------------------------------------------ generic fallback

def all_const(xs):
    for x in xs:
        if isinstance(x, Sym):
            if x.c is None:
                return False
        elif isinstance(x, SymBool):
            return False
        elif isinstance(x, SymArray):
            if not all_const(list(x.ravel_())):
                return False
        elif isinstance(x, (list, tuple)):
            if not all_const(x):
                return False
        elif isinstance(x, dict):
            if not all_const(list(x.values())):
                return False
    return True


def to_real(x):
    """constant symbolic value -> real numpy/python value"""
    if isinstance(x, Sym):
        if x.c is None:
            raise Unsupported("symbolic value where a constant is needed")
        return int(x.c) if x.isint else float(x.c)
    if isinstance(x, SymBool):
        raise Unsupported("symbolic boolean where a constant is needed")
    if isinstance(x, SymArray):
        o = x.obj()
        if x.kind == 'O':
            out = rnp.empty(x.shape, dtype=object)
        else:
            out = rnp.empty(x.shape, dtype={'f': float, 'i': int, 'b': bool}[x.kind])
        for i in rnp.ndindex(*x.shape):
            out[i] = to_real(o[i])
        return out
    if isinstance(x, list):
        return [to_real(y) for y in x]
    if isinstance(x, tuple):
        return tuple(to_real(y) for y in x)
    if isinstance(x, dict):
        return {k: to_real(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(to_real(x.start), to_real(x.stop), to_real(x.step))
    if isinstance(x, type) and getattr(x, '_symx_float', False):
        return float
    return x


def from_real(x):
    if isinstance(x, rnp.ndarray):
        return _from_real(x) if x.dtype != object else from_objects(x)
    if isinstance(x, (NBOOL, bool)):
        return NBOOL(x)
    if isinstance(x, rnp.integer):
        return Sym.const(int(x), isint=True)
    if isinstance(x, (float, rnp.floating)):
        return Sym.const(float(x))
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_real(y) for y in x)
    if isinstance(x, list):
        return [from_real(y) for y in x]
    return x


def generic_const(fn, args, kw):
    return from_real(fn(*[to_real(a) for a in args], **{k: to_real(v) for k, v in kw.items()}))


_SAFE_VIEW = {'transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'reshape', 'ravel', 'squeeze', 'expand_dims',
              'broadcast_to', 'flip', 'fliplr', 'flipud', 'roll', 'tile', 'repeat', 'rot90', 'resize',
              'diagonal', 'diag', 'diagflat', 'triu', 'tril', 'delete', 'take', 'array_split', 'split',
              'hsplit', 'vsplit', 'copy', 'broadcast_arrays', 'atleast_3d', 'trim_zeros', 'kron', 'require',
              'ascontiguousarray'}


def view_call(fn, args, kw):
    """layout-only function: run numpy's own on object views"""
    ks = []

    def conv(x, top=True):
        if isinstance(x, SymArray):
            ks.append(x.kind)
            return x.obj()
        if isinstance(x, Sym) and x.isint:
            return int(x)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (Sym, SymArray, list, tuple)) for y in x):
            if any(isinstance(y, SymArray) for y in x):
                return type(x)(conv(y) for y in x) if type(x) in (list, tuple) else x
            try:
                a = asarray(x)
            except ValueError:
                return x
            if a.kind == 'i' and all_const([a]):
                return to_real(x)
            ks.append(a.kind)
            return a.obj()
        return x
    a2 = [conv(a) for a in args]
    k2 = {k: conv(v) for k, v in kw.items()}
    r = fn(*a2, **k2)
    kind = join(*ks) if ks else None

    def back(y):
        if isinstance(y, rnp.ndarray):
            if y.dtype != object:
                return from_real(y)
            if kind == 'O' or kind is None:
                return wrap(y, 'O') if kind == 'O' else from_objects(y)
            return wrap(y, kind)
        if isinstance(y, (list, tuple)) and type(y) in (list, tuple):
            return type(y)(back(z) for z in y)
        return y
    return back(r)


def generic_call(fn, args, kw):
    name = getattr(fn, '__name__', str(fn))
    if name in _SAFE_VIEW:
        a0 = args[0] if args else None
        if isinstance(a0, (list, tuple, Sym, int, float, SymBool)) and name not in ('array_split', 'broadcast_arrays'):
            args = (asarray(a0),) + tuple(args[1:])
        return view_call(fn, args, kw)
    if all_const(args) and all_const(list(kw.values())):
        return generic_const(fn, args, kw)
    # last resort: numpy's own python implementation over object views
    try:
        r = view_call(fn, args, kw)
    except Unsupported:
        raise
    except (ValueError, IndexError, rnp.linalg.LinAlgError, AttributeError, TypeError) as e:
        raise Unsupported("numpy.%s on symbolic values (%s)" % (name, e))
    core.ctx().events['generic:' + name] = core.ctx().events.get('generic:' + name, 0) + 1
    if isinstance(r, SymArray) and r.kind != 'O':
        r = from_objects(r.obj())
    return r


def _ints(x):
    """shape-like argument -> python ints"""
    if isinstance(x, (list, tuple)) or (isinstance(x, rnp.ndarray) and x.ndim):
        return tuple(_int1(y) for y in x)
    return _int1(x)


def _int1(y):
    if isinstance(y, bool):
        return int(y)
    if isinstance(y, (int, rnp.integer)):
        return int(y)
    if isinstance(y, Sym):
        if not y.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(y)
    if isinstance(y, SymArray) and y.ndim == 0 and y.kind == 'i':
        return int(y)
    if isinstance(y, (float, rnp.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return y.__index__()


def _filled(shape, v, kind):
    shp = _ints(shape)
    if isinstance(shp, int):
        shp = (shp,)
    if any(s < 0 for s in shp):
        raise ValueError("negative dimensions are not allowed")
    out = rnp.empty(shp, dtype=object)
    e = cast_scalar(v, kind)
    for i in rnp.ndindex(*shp):
        out[i] = e
    return wrap(out, kind)


# ------------------------------------------------------------------ random

class RandomStub:
    """Random draws are arbitrary values within the contract of the generator that makes them.

    Every draw is a fresh symbolic value, recorded (by class of base draw) so that a counterexample can be
    replayed with the same base draws: 'u' in [0, 1), 'z' (standard normal: any real), 'i' an index chosen
    with nonzero probability, 'p' a poisson count, 'b' a beta variate, 'e' exponential, 'm' a permutation.
    """
    LinAlgError = rnp.linalg.LinAlgError

    def __init__(self, parent=None):
        pass

    def _rec(self, kind, val):
        core.ctx().rng.append((kind, val))

    def _size(self, size):
        if size is None:
            return None
        s = _ints(size)
        return (s,) if isinstance(s, int) else s

    def _draw(self, kind, mk, size, out_kind='f'):
        shp = self._size(size)
        if shp is None:
            v = mk()
            self._rec(kind, v)
            return v
        out = rnp.empty(shp, dtype=object)
        for i in rnp.ndindex(*shp):
            v = mk()
            self._rec(kind, v)
            out[i] = v
        return wrap(out, out_kind)

    def _u(self):
        c = core.ctx()
        n = c.counter.get('rng_u', 0)
        c.counter['rng_u'] = n + 1
        f = c.opts.get('rng_u')
        if f is not None:
            v = f(n)
            if v is not None:
                return as_real(v)
        lo_strict = bool(c.opts.get('rng_u_open', True))
        return c.new_real("rng_u!%d" % n, 0, 1, lo_strict=lo_strict, hi_strict=True)

    def _z(self):
        c = core.ctx()
        n = c.counter.get('rng_z', 0)
        c.counter['rng_z'] = n + 1
        f = c.opts.get('rng_z')
        if f is not None:
            v = f(n)
            if v is not None:
                return as_real(v)
        v = c.new_real("rng_z!%d" % n)
        if c.opts.get('rng_z_nonzero', True):
            # the event z == 0 has probability zero
            c.pc.append(v.n != 0)
        return v

    def seed(self, *a, **k):
        return None

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw('u', self._u, size)
        if _is_c(low, 0) and _is_c(high, 1):
            return u
        return call_ufunc('add', '__call__', (low, call_ufunc('multiply', '__call__',
                          (u, call_ufunc('subtract', '__call__', (high, low), {})), {})), {})

    def random(self, size=None):
        return self._draw('u', self._u, size)
    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._draw('u', self._u, shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._draw('z', self._z, size)
        if _is_c(loc, 0) and _is_c(scale, 1):
            return z
        return call_ufunc('add', '__call__', (loc, call_ufunc('multiply', '__call__', (z, scale), {})), {})

    def standard_normal(self, size=None, **k):
        return self._draw('z', self._z, size)

    def randn(self, *shape):
        return self._draw('z', self._z, shape if shape else None)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean, cov = asarray(mean), asarray(cov)
        n = mean.shape[0]
        if mean.ndim != 1 or cov.ndim != 2 or cov.shape != (n, n):
            raise ValueError("mean and cov must have same length")
        shp = self._size(size) or ()
        z = self._draw('z', self._z, shp + (n,))
        ident = all(_is_c(cov.obj()[i, j], 1 if i == j else 0) for i in range(n) for j in range(n))
        if not ident:
            L = NP.linalg.cholesky(cov)
            z = NP.matmul(z, L.T)
        return z + mean

    def _index(self, n, p):
        c = core.ctx()
        k = c.counter.get('rng_i', 0)
        c.counter['rng_i'] = k + 1
        f = c.opts.get('rng_i')
        i = f(k) if f is not None else None
        if i is not None:
            i = int(i) % n
        elif p is None:
            i = c.choose(n)
        else:
            ps = [to_sym(x) for x in p]
            i = c.choose(n, [slt(Sym.const(0), x) for x in ps])
        self._rec('i', Sym.const(i, isint=True))
        return i

    def choice(self, a, size=None, replace=True, p=None, **k):
        arr = asarray(a)
        if arr.ndim == 0:
            n = _int1(arr.ravel_()[0])
            if n <= 0:
                raise ValueError("a must be greater than 0 unless no samples are taken")
            pool = None
        else:
            n = arr.shape[0]
            pool = arr
        if p is not None:
            p = asarray(p, dtype=float)
            if p.ndim != 1:
                raise ValueError("'p' must be 1-dimensional")
            if p.size != n:
                raise ValueError("'a' and 'p' must have same size")
            tot = Sym.const(0)
            for x in p.ravel_():
                if x.is_nan:
                    raise ValueError("probabilities contain NaN")
                if bool(slt(x, Sym.const(0))):
                    raise ValueError("probabilities are not non-negative")
                tot = sadd(tot, x)
            if bool(slt(Sym.const(1e-8), sabs(ssub(tot, Sym.const(1))))):
                raise ValueError("probabilities do not sum to 1")
            core.ctx().events.setdefault('choice_p', [])
            core.ctx().events['choice_p'].append(p)
            p = p.ravel_()
        shp = self._size(size)
        cnt = 1
        for s in (shp or ()):
            cnt *= s
        core.ctx().events.setdefault('choice_replace', []).append(bool(replace))
        if not replace:
            if cnt > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            left = list(range(n))
            res = []
            for _ in range(cnt):
                q = None if p is None else [p[j] for j in left]
                j = left[self._index_raw(len(left), q)]
                left.remove(j)
                res.append(j)
                self._rec('i', Sym.const(j, isint=True))
        else:
            res = [self._index(n, p) for _ in range(cnt)]
        if shp is None:
            return Sym.const(res[0], isint=True) if pool is None else pool[res[0]]
        idx = asarray([Sym.const(r, isint=True) for r in res]) if res else wrap(rnp.empty(0, dtype=object), 'i')
        idx = idx.reshape(shp)
        return idx if pool is None else pool[idx]

    def _index_raw(self, n, p):
        c = core.ctx()
        if p is None:
            return c.choose(n)
        return c.choose(n, [slt(Sym.const(0), to_sym(x)) for x in p])

    def _poisson1(self):
        c = core.ctx()
        n = c.counter.get('rng_p', 0)
        c.counter['rng_p'] = n + 1
        f = c.opts.get('rng_p')
        if f is not None:
            v = f(n)
            if v is not None:
                return Sym.const(int(v), isint=True)
        return c.new_int("rng_p!%d" % n, 0, c.opts.get('poisson_max', 3))

    def poisson(self, lam=1.0, size=None):
        a = asarray(lam)
        for x in a.ravel_():
            x = to_sym(x)
            if x.is_nan or bool(slt(x, Sym.const(0))):
                raise ValueError("lam < 0 or lam is NaN")
        core.ctx().events.setdefault('poisson_lam', [])
        core.ctx().events['poisson_lam'].append(a)
        shp = self._size(size) if size is not None else (a.shape if a.ndim else None)
        lams = [to_sym(x) for x in (NP.broadcast_to(a, shp) if shp is not None else a).ravel_()]
        it = iter(lams)

        def mk():
            v, l = self._poisson1(), next(it)
            if l.c is not None:
                if l.c == 0:
                    v = Sym.const(0, isint=True)
            elif v.c is None or v.c != 0:
                # no counts without a rate
                core.ctx().pc.append(bexpr(sor(slt(Sym.const(0), l), seq(v, Sym.const(0)))))
            return v
        return self._draw('p', mk, shp, 'i')

    def beta(self, a, b, size=None):
        c = core.ctx()

        def mk():
            n = c.counter.get('rng_b', 0)
            c.counter['rng_b'] = n + 1
            f = c.opts.get('rng_b')
            v = f(n) if f is not None else None
            if v is not None:
                return as_real(v)
            return c.new_real("rng_b!%d" % n, 0, 1, lo_strict=True, hi_strict=True)
        core.ctx().events.setdefault('beta_ab', [])
        core.ctx().events['beta_ab'].append((to_sym(a), to_sym(b)))
        return self._draw('b', mk, size)

    def exponential(self, scale=1.0, size=None):
        c = core.ctx()

        def mk():
            n = c.counter.get('rng_e', 0)
            c.counter['rng_e'] = n + 1
            return c.new_real("rng_e!%d" % n, 0, None, lo_strict=True)
        return self._draw('e', mk, size) * scale

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        low, high = _int1(asarray(low).ravel_()[0]), _int1(asarray(high).ravel_()[0])

        def mk():
            return Sym.const(low + core.ctx().choose(high - low), isint=True)
        return self._draw('i', mk, size, 'i')
    integers = randint

    def permutation(self, x):
        a = asarray(x)
        n = int(a.ravel_()[0]) if a.ndim == 0 else a.shape[0]
        left = list(range(n))
        res = []
        for _ in range(n):
            j = left[core.ctx().choose(len(left))]
            left.remove(j)
            res.append(j)
            self._rec('i', Sym.const(j, isint=True))
        idx = asarray(res) if res else wrap(rnp.empty(0, dtype=object), 'i')
        return idx if a.ndim == 0 else a[idx]

    def shuffle(self, x, axis=0):
        x[...] = self.permutation(x)

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng
    Generator = default_rng

    def __getattr__(self, name):
        raise Unsupported("numpy.random.%s" % name) if hasattr(rnp.random, name) else \
            AttributeError("module 'numpy.random' has no attribute %r" % name)


def _is_c(x, v):
    try:
        s = to_sym(x, strict=False)
    except Exception:
        return False
    return s is not None and s.c is not None and not s.is_special and s.c == v


# ------------------------------------------------------------------ linalg

class LinalgShim:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def _sq(a):
        a = asarray(a)
        if a.ndim < 2:
            raise rnp.linalg.LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
        if a.ndim > 2:
            raise Unsupported("stacked linalg")
        if a.shape[0] != a.shape[1]:
            raise rnp.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return cast(a, 'f')

    @staticmethod
    def _det(m):
        n = len(m)
        if n == 0:
            return Sym.const(1)
        if n == 1:
            return m[0][0]
        if n == 2:
            return ssub(smul(m[0][0], m[1][1]), smul(m[0][1], m[1][0]))
        r = Sym.const(0)
        for j in range(n):
            minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
            t = smul(m[0][j], LinalgShim._det(minor))
            r = sadd(r, t) if j % 2 == 0 else ssub(r, t)
        return r

    def det(self, a):
        a = self._sq(a)
        m = a.obj().tolist()
        if any(x.is_special for r in m for x in r):
            return _NAN
        return self._det(m)

    def slogdet(self, a):
        d = self.det(a)
        s = core.ctx().sign(d)
        return Sym.const(float(s)), (slog(sabs(d)) if s else Sym.const(float('-inf')))

    def inv(self, a):
        a = self._sq(a)
        m = a.obj().tolist()
        n = len(m)
        if any(x.is_special for r in m for x in r):
            return _filled((n, n), _NAN, 'f')
        d = self._det(m)
        if bool(seq(d, Sym.const(0))):
            raise rnp.linalg.LinAlgError("Singular matrix")
        out = rnp.empty((n, n), dtype=object)
        diag = all(_is_c(m[i][j], 0) for i in range(n) for j in range(n) if i != j)
        for i in range(n):
            for j in range(n):
                if diag:
                    out[i, j] = sdiv(Sym.const(1), m[i][i]) if i == j else Sym.const(0)
                    continue
                minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                cf = self._det(minor)
                if (i + j) % 2:
                    cf = smul(Sym.const(-1), cf)
                out[i, j] = sdiv(cf, d)
        return wrap(out, 'f')

    def pinv(self, a, rcond=None, hermitian=False, *, rtol=None):
        a = self._sq(a)
        m = a.obj().tolist()
        n = len(m)
        if all_const([a]):
            return generic_const(rnp.linalg.pinv, (a,), {'rcond': rcond if rcond is not None else (1e-15 if rtol is None else rtol), 'hermitian': hermitian})
        cut = to_sym(float(rcond if rcond is not None else (1e-15 if rtol is None else rtol)))
        if n == 1:
            x = m[0][0]
            if bool(seq(x, Sym.const(0))):
                return _filled((1, 1), 0, 'f')
            return self.inv(a)
        if all(_is_c(m[i][j], 0) for i in range(n) for j in range(n) if i != j):
            # singular values are the magnitudes of the diagonal
            big = sabs(m[0][0])
            for i in range(1, n):
                x = sabs(m[i][i])
                if bool(slt(big, x)):
                    big = x
            lim = smul(cut, big)
            out = rnp.empty((n, n), dtype=object)
            out[...] = Sym.const(0)
            for i in range(n):
                if bool(slt(lim, sabs(m[i][i]))):
                    out[i, i] = sdiv(Sym.const(1), m[i][i])
            return wrap(out, 'f')
        d = self._det(m)
        if n == 2:
            # s1 * s2 = |d|, s1^2 + s2^2 = |m|^2:  s2 > c s1  <=>  |d| > |m|^2 c / (1 + c^2)
            fro = Sym.const(0)
            for r in m:
                for x in r:
                    fro = sadd(fro, smul(x, x))
            if bool(slt(smul(fro, sdiv(cut, sadd(Sym.const(1), smul(cut, cut)))), sabs(d))):
                return self.inv(a)
            if bool(snot(seq(d, Sym.const(0)))):
                raise Unsupported("pinv of a truncated symbolic matrix")
            if bool(seq(fro, Sym.const(0))):
                return _filled((2, 2), 0, 'f')
            return elementwise(lambda x: sdiv(x, fro), 'f', a.T.copy())
        if cut.sh <= 1e-12 and bool(snot(seq(d, Sym.const(0)))):
            return self.inv(a)
        raise Unsupported("pinv of a singular symbolic matrix")

    def cholesky(self, a, upper=False):
        L = _cholesky(self._sq(a))
        return wrap(rnp.ascontiguousarray(L.obj().T), 'f') if upper else L

    def solve(self, a, b):
        return NP.dot(self.inv(a), asarray(b))

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = asarray(x)
        if ord not in (None, 2, 1, rnp.inf, 'fro'):
            if isinstance(ord, Sym) and ord.c in (1, 2):
                ord = int(ord.c)
            else:
                raise Unsupported("norm ord")
        if ord == 2 and axis is None and x.ndim == 2:
            raise Unsupported("spectral norm")
        x = cast(x, 'f')
        if ord == 1 and (axis is not None or x.ndim == 1):
            return ureduce('add', elementwise(sabs, 'f', x), axis, keepdims)
        if ord == rnp.inf:
            return ureduce('maximum', elementwise(sabs, 'f', x), axis, keepdims)
        if axis is None and ord is None:
            ax = None
        else:
            ax = axis
        s = ureduce('add', elementwise(lambda v: smul(v, v), 'f', x), ax, keepdims)
        return NP.sqrt(s)

    def matrix_power(self, a, n):
        r = a
        for _ in range(int(n) - 1):
            r = NP.dot(r, a)
        return r

    def __getattr__(self, name):
        f = getattr(rnp.linalg, name)
        if isinstance(f, type):
            return f

        def g(*a, **k):
            if all_const(a) and all_const(list(k.values())):
                return generic_const(f, a, k)
            raise Unsupported("numpy.linalg.%s" % name)
        return g


def _cholesky(a, name="Matrix is not positive definite"):
    """lower Cholesky factor"""
    m = a.obj()
    n = m.shape[0]
    L = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            L[i, j] = Sym.const(0)
    for j in range(n):
        s = as_real(m[j, j])
        for k in range(j):
            s = ssub(s, smul(L[j, k], L[j, k]))
        if s.is_special or not bool(slt(Sym.const(0), s)):
            raise rnp.linalg.LinAlgError(name)
        L[j, j] = ssqrt(s)
        for i in range(j + 1, n):
            t = as_real(m[i, j])
            for k in range(j):
                t = ssub(t, smul(L[i, k], L[j, k]))
            L[i, j] = sdiv(t, L[j, j])
    return wrap(L, 'f')


# ------------------------------------------------------------------ masked arrays (only what plotting uses)

class MaskedSym:
    def __init__(self, data, mask):
        self.data = asarray(data)
        self.mask = asarray(mask)
        self.shape = self.data.shape

    @property
    def T(self):
        return MaskedSym(self.data.T, self.mask.T)

    def _bin(self, f, o):
        m = self.mask
        if isinstance(o, MaskedSym):
            m, o = NP.logical_or(m, o.mask), o.data
        return MaskedSym(f(self.data, o), m)

    def __lt__(self, o): return self._bin(lambda a, b: a < b, o)
    def __le__(self, o): return self._bin(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._bin(lambda a, b: a > b, o)
    def __ge__(self, o): return self._bin(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._bin(lambda a, b: a == b, o)
    def __ne__(self, o): return self._bin(lambda a, b: a != b, o)
    def __add__(self, o): return self._bin(lambda a, b: a + b, o)
    def __sub__(self, o): return self._bin(lambda a, b: a - b, o)
    def __mul__(self, o): return self._bin(lambda a, b: a * b, o)
    def __truediv__(self, o): return self._bin(lambda a, b: a / b, o)
    __hash__ = None

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, MaskedSym):
            i = i.data
        d = self.data[i]
        m = self.mask[i]
        if not isinstance(d, SymArray):
            raise Unsupported("element of a masked array")
        return MaskedSym(d, m)

    def max(self, *a, **k):
        if a or k:
            raise Unsupported("masked max with arguments")
        return self.data[NP.logical_not(self.mask)].max()

    def min(self, *a, **k):
        if a or k:
            raise Unsupported("masked min with arguments")
        return self.data[NP.logical_not(self.mask)].min()

    def compressed(self):
        return self.data[NP.logical_not(self.mask)]

    def filled(self, v=None):
        if v is None:
            raise Unsupported("default fill value")
        return NP.where(self.mask, v, self.data)


class MaShim:
    def masked_where(self, cond, a, copy=True):
        if isinstance(cond, MaskedSym):
            cond = NP.logical_or(cond.data, cond.mask)
        m = NP.broadcast_to(cast(asarray(cond), 'b'), asarray(a if not isinstance(a, MaskedSym) else a.data).shape)
        if isinstance(a, MaskedSym):
            return MaskedSym(a.data, NP.logical_or(a.mask, m))
        return MaskedSym(asarray(a).copy(), m)

    def masked_less_equal(self, a, v, copy=True):
        return self.masked_where((a.data if isinstance(a, MaskedSym) else asarray(a)) <= v, a)

    def masked_less(self, a, v, copy=True):
        return self.masked_where((a.data if isinstance(a, MaskedSym) else asarray(a)) < v, a)

    def __getattr__(self, name):
        raise Unsupported("numpy.ma.%s" % name)


# ------------------------------------------------------------------ the module stand-in

class _NP:
    """stands in for the module `numpy` inside the code under test"""

    def __init__(self):
        self.random = RandomStub()
        self.linalg = LinalgShim()
        self.ma = MaShim()
        self.ndarray = SymArray
        self.pi = Sym.const(math.pi)
        self.e = Sym.const(math.e)
        self.inf = self.Inf = self.Infinity = _INF
        self.nan = self.NaN = self.NAN = _NAN
        self.newaxis = None
        self.float64 = rnp.float64
        self.__version__ = rnp.__version__

    def __getattr__(self, name):
        f = getattr(rnp, name)          # AttributeError for names numpy lacks
        if isinstance(f, rnp.ufunc):
            u = _UfuncShim(name, f)
            setattr(self, name, u)
            return u
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            return generic_call(f, a, k)
        g.__name__ = name
        setattr(self, name, g)
        return g

    # ---- construction
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        r = asarray(x, dtype=dtype, copy=True)
        while r.ndim < int(ndmin):
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        return asarray(x, dtype=dtype)

    def asanyarray(self, x, dtype=None, **k):
        return asarray(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None):
        return self.atleast_1d(asarray(x, dtype=dtype))

    def asfarray(self, x, dtype=None):
        return cast(asarray(x), 'f')

    def fromiter(self, it, dtype=None, **k):
        return asarray(list(it), dtype=dtype)

    def copy(self, x, **k):
        return asarray(x, copy=True)

    def zeros(self, shape, dtype=float, **k):
        return _filled(shape, 0, kind_of_dtype(dtype) or 'f')

    def ones(self, shape, dtype=float, **k):
        return _filled(shape, 1, kind_of_dtype(dtype) or 'f')

    def empty(self, shape, dtype=float, **k):
        kd = kind_of_dtype(dtype) or 'f'
        return _filled(shape, None if kd == 'O' else 0, kd)

    def full(self, shape, v, dtype=None, **k):
        a = asarray(v)
        kd = kind_of_dtype(dtype) or a.kind
        r = _filled(shape, 0 if kd != 'O' else None, kd)
        r[...] = v
        return r

    def zeros_like(self, a, dtype=None, shape=None, **k):
        a = asarray(a)
        kd = kind_of_dtype(dtype) or a.kind
        return _filled(a.shape if shape is None else shape, 0, kd)

    def ones_like(self, a, dtype=None, shape=None, **k):
        a = asarray(a)
        return _filled(a.shape if shape is None else shape, 1, kind_of_dtype(dtype) or a.kind)

    def empty_like(self, a, dtype=None, shape=None, **k):
        return self.zeros_like(a, dtype=dtype, shape=shape)

    def full_like(self, a, v, dtype=None, shape=None, **k):
        a = asarray(a)
        r = _filled(a.shape if shape is None else shape, 0, kind_of_dtype(dtype) or a.kind)
        r[...] = v
        return r

    def eye(self, n, m=None, k=0, dtype=float, **kw):
        n = _int1(n)
        m = n if m is None else _int1(m)
        r = _filled((n, m), 0, kind_of_dtype(dtype) or 'f')
        for i in range(n):
            if 0 <= i + k < m:
                r[i, i + k] = 1
        return r

    def identity(self, n, dtype=float):
        return self.eye(n, dtype=dtype)

    def arange(self, *args, dtype=None, **k):
        a = [to_sym(x) if not isinstance(x, SymArray) else to_sym(x.ravel_()[0]) for x in args]
        if len(a) == 1:
            a = [Sym.const(0, isint=True), a[0], Sym.const(1, isint=True)]
        elif len(a) == 2:
            a = a + [Sym.const(1, isint=True)]
        isint = all(x.isint for x in a)
        n = int(sceil(sdiv(ssub(a[1], a[0]), a[2])))
        n = builtins.max(n, 0)
        out = rnp.empty(n, dtype=object)
        for i in range(n):
            v = sadd(a[0], smul(Sym.const(i, isint=True), a[2]))
            out[i] = const_elem(v, 'i' if isint else 'f')
        r = wrap(out, 'i' if isint else 'f')
        return cast(r, kind_of_dtype(dtype)) if dtype is not None else r

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        num = _int1(num)
        if num < 0:
            raise ValueError("Number of samples, %s, must be non-negative." % num)
        a, b = asarray(start), asarray(stop)
        if a.kind == 'O' or b.kind == 'O':
            raise TypeError("unsupported operand for linspace")
        a, b = cast(a, 'f'), cast(b, 'f')
        div = num - 1 if endpoint else num
        delta = call_ufunc('subtract', '__call__', (b, a), {})
        delta = asarray(delta)
        a = self.broadcast_to(a, delta.shape)
        out = rnp.empty((num,) + delta.shape, dtype=object)
        for i in range(num):
            for j in rnp.ndindex(*delta.shape):
                x0, dx = a.obj()[j], delta.obj()[j]
                if i == 0:
                    v = x0
                elif endpoint and i == num - 1:
                    v = sadd(x0, dx)
                else:
                    v = sadd(x0, smul(dx, Sym.const(Fraction(i, div))))
                out[(i,) + j] = v
        r = wrap(out, 'f')
        if axis:
            r = self.moveaxis(r, 0, axis)
        if dtype is not None:
            r = cast(r, kind_of_dtype(dtype))
        if retstep:
            return r, (scalarize(delta) / Sym.const(div) if div else _NAN)
        return r

    def logspace(self, start, stop, num=50, endpoint=True, base=10.0, **k):
        e = self.linspace(start, stop, num=num, endpoint=endpoint)
        return call_ufunc('power', '__call__', (base, e), {})

    def geomspace(self, start, stop, num=50, endpoint=True, **k):
        r = self.logspace(slog10(to_sym(start)), slog10(to_sym(stop)), num=num, endpoint=endpoint)
        if r.size:
            r[0] = start
            if endpoint and r.size > 1:
                r[-1] = stop
        return r

    # ---- shape queries
    def shape(self, x):
        if isinstance(x, rnp.ndarray):
            return x.shape
        if hasattr(x, 'shape') and not isinstance(x, (list, tuple)):
            return x.shape
        return asarray(x).shape

    def ndim(self, x):
        return len(self.shape(x))

    def size(self, x, axis=None):
        shp = self.shape(x)
        if axis is not None:
            return shp[int(axis)]
        n = 1
        for s in shp:
            n *= s
        return n

    def isscalar(self, x):
        if isinstance(x, (Sym, SymBool)):
            return True
        if isinstance(x, SymArray):
            return False
        return rnp.isscalar(x)

    def iterable(self, x):
        if isinstance(x, (Sym, SymBool)):
            return False
        if isinstance(x, SymArray):
            return x.ndim > 0
        return rnp.iterable(x)

    def issubdtype(self, a, b):
        return rnp.issubdtype(a, b)

    def dtype(self, t):
        return rnp.dtype(float if isinstance(t, type) and getattr(t, '_symx_float', False) else t)

    def atleast_1d(self, *xs):
        r = [(lambda a: a.reshape(1) if a.ndim == 0 else a)(asarray(x)) for x in xs]
        return r[0] if len(r) == 1 else r

    def atleast_2d(self, *xs):
        r = []
        for x in xs:
            a = asarray(x)
            r.append(a.reshape(1, 1) if a.ndim == 0 else (a[None, :] if a.ndim == 1 else a))
        return r[0] if len(r) == 1 else r

    # ---- reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if not isinstance(a, (list, tuple, rnp.ndarray, Sym, SymBool)) and hasattr(a, '__next__'):
            return builtins.sum(a)
        return _store(ureduce('add', asarray(a), axis, keepdims, initial, where, dtype), out)

    def prod(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return ureduce('multiply', asarray(a), axis, keepdims, initial, where, dtype)
    product = prod

    def nansum(self, a, axis=None, **k):
        a = asarray(a)
        return ureduce('add', elementwise(lambda x: Sym.const(0) if x.is_nan else x, a.kind, a), axis)

    def min(self, a, axis=None, out=None, keepdims=False, initial=None, where=True):
        return ureduce('minimum', asarray(a), axis, keepdims, initial, where)
    amin = min

    def max(self, a, axis=None, out=None, keepdims=False, initial=None, where=True):
        return ureduce('maximum', asarray(a), axis, keepdims, initial, where)
    amax = max

    def nanmin(self, a, axis=None, **k):
        return ureduce('fmin', asarray(a), axis)

    def nanmax(self, a, axis=None, **k):
        return ureduce('fmax', asarray(a), axis)

    def ptp(self, a, axis=None, **k):
        return self.max(a, axis=axis) - self.min(a, axis=axis)

    def any(self, a, axis=None, out=None, keepdims=False, **k):
        return ureduce('logical_or', asarray(list(a) if hasattr(a, '__next__') else a), axis, keepdims)

    def all(self, a, axis=None, out=None, keepdims=False, **k):
        if hasattr(a, '__next__'):
            return NBOOL(True)
        return ureduce('logical_and', asarray(a), axis, keepdims)
    alltrue, sometrue = all, any

    def count_nonzero(self, a, axis=None, keepdims=False):
        a = asarray(a)
        f = (lambda x: _num_of(_tobool(x))) if a.kind != 'O' else (lambda x: _num_of(_obool(x)))
        r = ureduce('add', elementwise(f, 'i', a), axis, keepdims)
        if isinstance(r, Sym) and r.c is not None:
            return int(r)
        return r

    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = asarray(a)
        n = 1
        for i in _axes(axis, a.ndim):
            n *= a.shape[i]
        if a.kind == 'O':
            return self.sum(a, axis=axis, keepdims=keepdims) / n
        s = ureduce('add', cast(a, 'f'), axis, keepdims)
        return call_ufunc('divide', '__call__', (s, Sym.const(n)), {})

    def average(self, a, axis=None, weights=None, returned=False, keepdims=False):
        a = asarray(a)
        if weights is None:
            r = self.mean(a, axis=axis)
            n = a.size if axis is None else a.shape[_axes(axis, a.ndim)[0]]
            return (r, Sym.const(float(n))) if returned else r
        w = asarray(weights)
        if a.shape != w.shape:
            if axis is None:
                raise TypeError("Axis must be specified when shapes of a and weights differ.")
            if w.ndim != 1:
                raise TypeError("1D weights expected when shapes of a and weights differ.")
            if w.shape[0] != a.shape[axis]:
                raise ValueError("Length of weights not compatible with specified axis.")
            shp = [1] * a.ndim
            shp[axis] = w.shape[0]
            w = self.broadcast_to(w.reshape(shp), a.shape)
        scl = self.sum(cast(w, 'f'), axis=axis)
        if bool(self.any(asarray(scl) == 0)):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        r = self.sum(cast(a, 'f') * w, axis=axis) / scl
        return (r, scl) if returned else r

    def var(self, a, axis=None, ddof=0, keepdims=False, **k):
        a = cast(asarray(a), 'f')
        m = self.mean(a, axis=axis, keepdims=True)
        d = a - m
        n = 1
        for i in _axes(axis, a.ndim):
            n *= a.shape[i]
        return call_ufunc('divide', '__call__', (self.sum(d * d, axis=axis, keepdims=keepdims), Sym.const(n - int(ddof))), {})

    def std(self, a, axis=None, ddof=0, keepdims=False, **k):
        return self.sqrt(self.var(a, axis=axis, ddof=ddof, keepdims=keepdims))

    def cov(self, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
        if ddof is not None and ddof != int(ddof):
            raise ValueError("ddof must be integer")
        if fweights is not None:
            raise Unsupported("fweights")
        m = asarray(m)
        if m.ndim > 2:
            raise ValueError("m has more than 2 dimensions")
        X = cast(m, 'f')
        X = X[None, :] if X.ndim == 1 else X
        if not rowvar and X.shape[0] != 1:
            X = X.T
        if X.shape[0] == 0:
            return self.zeros((0, 0))
        if y is not None:
            y = cast(asarray(y), 'f')
            if y.ndim > 2:
                raise ValueError("y has more than 2 dimensions")
            y = y[None, :] if y.ndim == 1 else y
            if not rowvar and y.shape[0] != 1:
                y = y.T
            X = self.concatenate((X, y), axis=0)
        ddof = (0 if bias else 1) if ddof is None else int(ddof)
        w = None
        if aweights is not None:
            w = cast(asarray(aweights), 'f')
            if w.ndim > 1:
                raise RuntimeError("cannot handle multidimensional aweights")
            if w.shape[0] != X.shape[1]:
                raise RuntimeError("incompatible numbers of samples and aweights")
            if bool(self.any(w < 0)):
                raise ValueError("aweights cannot be negative")
        N = X.shape[1]
        if w is None:
            avg = self.mean(X, axis=1)
            fact = Sym.const(N - ddof)
        else:
            wsum = self.sum(w)
            if bool(seq(wsum, Sym.const(0))):
                raise ZeroDivisionError("Weights sum to zero, can't be normalized")
            avg = self.sum(X * w, axis=1) / wsum
            if ddof == 0:
                fact = wsum
            else:
                fact = wsum - Sym.const(ddof) * self.sum(w * w) / wsum
        if bool(sle(fact, Sym.const(0))):
            fact = Sym.const(0)
        X = X - asarray(avg)[:, None]
        XT = X.T if w is None else (X * w).T
        c = self.dot(X, XT)
        c = asarray(c)
        # numpy: c *= np.true_divide(1, fact)
        inv = sdiv(Sym.const(1), fact)
        c = elementwise(lambda v: smul(v, inv) if inv.is_special else sdiv(v, fact), 'f', c)
        return self.squeeze(c)

    def corrcoef(self, *a, **k):
        raise Unsupported("corrcoef")

    def cumsum(self, a, axis=None, dtype=None, out=None):
        a = asarray(a)
        if axis is None:
            r = uaccumulate('add', a.reshape(-1), 0)
        else:
            r = uaccumulate('add', a, axis)
        return _store(r, out)

    def cumprod(self, a, axis=None, **k):
        a = asarray(a)
        return uaccumulate('multiply', a.reshape(-1) if axis is None else a, 0 if axis is None else axis)

    def diff(self, a, n=1, axis=-1, prepend=None, append=None):
        a = asarray(a)
        if a.ndim == 0:
            raise ValueError("diff requires input that is at least one dimensional")
        ax = _axes(axis, a.ndim)[0]
        parts = []
        for extra, first in ((prepend, True), (append, False)):
            if extra is None or extra is rnp._NoValue:
                continue
            e = asarray(extra)
            if e.ndim == 0:
                shp = list(a.shape)
                shp[ax] = 1
                e = self.broadcast_to(e, tuple(shp))
            a = self.concatenate([e, a] if first else [a, e], axis=ax)
        for _ in range(int(n)):
            hi = [slice(None)] * a.ndim
            lo = [slice(None)] * a.ndim
            hi[ax], lo[ax] = slice(1, None), slice(None, -1)
            if a.kind == 'b':
                a = call_ufunc('not_equal', '__call__', (a[tuple(hi)], a[tuple(lo)]), {})
            else:
                a = asarray(call_ufunc('subtract', '__call__', (a[tuple(hi)], a[tuple(lo)]), {}))
        return a

    def ediff1d(self, a, **k):
        return self.diff(asarray(a).reshape(-1))

    def gradient(self, f, *v, **k):
        raise Unsupported("gradient")

    def trapz(self, y, x=None, dx=1.0, axis=-1):
        y = asarray(y)
        ax = _axes(axis, y.ndim)[0]
        if x is None:
            d = dx
        else:
            x = asarray(x)
            if x.ndim == 1:
                d = self.diff(x)
                shp = [1] * y.ndim
                shp[ax] = d.shape[0]
                d = d.reshape(shp)
            else:
                d = self.diff(x, axis=axis)
        hi = [slice(None)] * y.ndim
        lo = [slice(None)] * y.ndim
        hi[ax], lo[ax] = slice(1, None), slice(None, -1)
        t = d * (y[tuple(hi)] + y[tuple(lo)]) / Sym.const(2)
        return self.sum(t, axis=ax)
    trapezoid = trapz

    # ---- products
    def dot(self, a, b, out=None):
        a, b = asarray(a), asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b if a.ndim or b.ndim else scalarize(a) * scalarize(b)
        k = join(a.kind, b.kind)
        k = 'i' if k == 'b' else k
        x, y = a.obj(), b.obj()
        n = a.shape[-1]
        m = b.shape[0] if b.ndim == 1 else b.shape[-2]
        if n != m:
            raise ValueError("shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)" %
                             (a.shape, b.shape, n, a.ndim - 1, m, builtins.max(b.ndim - 2, 0)))
        if b.ndim == 1:
            out_s = a.shape[:-1]
            get = lambda j, t: y[t]
            jshape = ()
        else:
            jshape = b.shape[:-2] + b.shape[-1:]
            get = lambda j, t: y[j[:-1] + (t,) + j[-1:]]
            out_s = a.shape[:-1] + jshape
        res = rnp.empty(out_s, dtype=object)
        for i in rnp.ndindex(*a.shape[:-1]):
            for j in rnp.ndindex(*jshape):
                s = None
                for t in range(n):
                    v = smul(to_sym(x[i + (t,)]), to_sym(get(j, t)))
                    s = v if s is None else sadd(s, v)
                res[i + j] = const_elem(s if s is not None else Sym.const(0), k)
        return scalarize(wrap(res, k))

    def matmul(self, a, b, out=None):
        a, b = asarray(a), asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        if a.ndim <= 2 and b.ndim <= 2:
            return self.dot(a, b)
        if b.ndim <= 2:
            return self.dot(a, b)
        raise Unsupported("stacked matmul")

    def inner(self, a, b):
        a, b = asarray(a), asarray(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.dot(a, b)
        raise Unsupported("inner")

    def vdot(self, a, b):
        return self.dot(asarray(a).reshape(-1), asarray(b).reshape(-1))

    def outer(self, a, b, out=None):
        a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
        return a[:, None] * b[None, :]

    def einsum(self, spec, *ops, **k):
        if not isinstance(spec, str) or '.' in spec:
            raise Unsupported("einsum")
        spec = spec.replace(' ', '')
        ins, arrow, outp = spec.partition('->')
        ins = ins.split(',')
        arrs = [asarray(o) for o in ops]
        if not arrow:
            cnt = {}
            for s in ins:
                for ch in s:
                    cnt[ch] = cnt.get(ch, 0) + 1
            outp = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise ValueError("einsum operand has the wrong number of dimensions")
            for ch, n in zip(s, a.shape):
                if dims.get(ch, n) != n:
                    raise ValueError("operands could not be broadcast together")
                dims[ch] = n
        summed = [ch for ch in dims if ch not in outp]
        kk = join(*[a.kind for a in arrs])
        kk = 'i' if kk == 'b' else kk
        res = rnp.empty(tuple(dims[ch] for ch in outp), dtype=object)
        for oi in rnp.ndindex(*res.shape):
            env = dict(zip(outp, oi))
            tot = Sym.const(0, isint=True)
            for si in rnp.ndindex(*[dims[ch] for ch in summed]):
                env.update(zip(summed, si))
                t = None
                for s, a in zip(ins, arrs):
                    v = to_sym(a.obj()[tuple(env[ch] for ch in s)])
                    t = v if t is None else smul(t, v)
                tot = sadd(tot, t)
            res[oi] = const_elem(tot, kk)
        return scalarize(wrap(res, kk))

    def tensordot(self, a, b, axes=2):
        raise Unsupported("tensordot")

    def cross(self, *a, **k):
        raise Unsupported("cross")

    # ---- sorting / searching
    def _order(self, xs):
        """stable ascending order of a list of elements (forks on comparisons)"""
        xs = [to_sym(x) for x in xs]
        order = []
        for i, x in enumerate(xs):
            pos = len(order)
            while pos > 0:
                y = xs[order[pos - 1]]
                if y.is_nan and not x.is_nan:
                    less = True
                else:
                    less = bool(slt(x, y))
                if less:
                    pos -= 1
                else:
                    break
            order.insert(pos, i)
        return order

    def argsort(self, a, axis=-1, kind=None, order=None):
        a = asarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        if a.ndim == 0:
            return asarray([0])
        ax = _axes(axis, a.ndim)[0]
        if a.kind == 'O':
            raise Unsupported("argsort of objects")
        o = rnp.moveaxis(a.obj(), ax, -1)
        out = rnp.empty(o.shape, dtype=object)
        for i in rnp.ndindex(*o.shape[:-1]):
            for j, v in enumerate(self._order(list(o[i]))):
                out[i + (j,)] = Sym.const(v, isint=True)
        return wrap(rnp.moveaxis(out, -1, ax).copy(), 'i')

    def sort(self, a, axis=-1, kind=None, order=None):
        a = asarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        if a.ndim == 0:
            raise rnp.AxisError(axis, 0)
        ax = _axes(axis, a.ndim)[0]
        o = rnp.moveaxis(a.obj(), ax, -1)
        out = rnp.empty(o.shape, dtype=object)
        for i in rnp.ndindex(*o.shape[:-1]):
            xs = list(o[i])
            for j, v in enumerate(self._order(xs)):
                out[i + (j,)] = xs[v]
        return wrap(rnp.moveaxis(out, -1, ax).copy(), a.kind)

    def lexsort(self, *a, **k):
        raise Unsupported("lexsort")

    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
        if return_index or return_inverse or return_counts or axis is not None:
            if all_const([a]):
                return generic_const(rnp.unique, (a,), dict(return_index=return_index, return_inverse=return_inverse,
                                                            return_counts=return_counts, axis=axis))
            raise Unsupported("unique with indices")
        a = asarray(a)
        s = self.sort(a.reshape(-1))
        out = []
        for x in s.ravel_():
            if out and bool(seq(to_sym(out[-1]), to_sym(x))):
                continue
            out.append(x)
        o = rnp.empty(len(out), dtype=object)
        for i, x in enumerate(out):
            o[i] = x
        return wrap(o, a.kind)

    def searchsorted(self, a, v, side='left', sorter=None):
        a = asarray(a)
        if sorter is not None:
            a = a[asarray(sorter)]
        v = asarray(v)
        xs = [to_sym(x) for x in a.ravel_()]

        def f(y):
            y = to_sym(y)
            if y.is_nan:
                return Sym.const(len(xs), isint=True)
            lo, hi = 0, len(xs)
            # binary search as numpy does (same answer for sorted input)
            while lo < hi:
                mid = (lo + hi) // 2
                c = slt(xs[mid], y) if side == 'left' else sle(xs[mid], y)
                if bool(c):
                    lo = mid + 1
                else:
                    hi = mid
            return Sym.const(lo, isint=True)
        return scalarize(elementwise(f, 'i', v))

    def digitize(self, x, bins, right=False):
        b = asarray(bins)
        r = self.searchsorted(b, x, side='left' if right else 'right')
        return r

    def argmin(self, a, axis=None, **k):
        a = asarray(a)
        return self._arg(a, axis, True)

    def argmax(self, a, axis=None, **k):
        a = asarray(a)
        return self._arg(a, axis, False)

    def _arg(self, a, axis, is_min):
        if a.size == 0:
            raise ValueError("attempt to get argm%s of an empty sequence" % ('in' if is_min else 'ax'))

        def f(xs):
            if a.kind == 'b':
                xs = [to_sym(bool(x)) for x in xs]
            return Sym.const(_arg_extreme([to_sym(x) for x in xs], is_min), isint=True)
        return reduce_with(f, a, axis, False, 'i')

    def nonzero(self, a):
        a = asarray(a)
        m = _key1(cast(a, 'b')) if a.kind != 'O' else rnp.array([bool(x) for x in a.ravel_()]).reshape(a.shape)
        m = rnp.atleast_1d(m)
        return tuple(_from_real(x) for x in rnp.nonzero(m))

    def flatnonzero(self, a):
        return self.nonzero(asarray(a).reshape(-1))[0]

    def argwhere(self, a):
        return self.array(self.nonzero(a)).T

    def where(self, c, *xy):
        if not xy:
            return self.nonzero(c)
        x, y = asarray(xy[0]), asarray(xy[1])
        c = asarray(c)
        k = join(x.kind, y.kind)
        if k == 'O':
            return elementwise(lambda m, p, q: p if bool(m) else q, 'O', c, x, y)
        r = elementwise(lambda m, p, q: const_elem(site(_tobool(m), const_elem(p, k), const_elem(q, k)), k), k, c, x, y)
        return r

    def select(self, conds, choices, default=0):
        r = default
        for c, v in list(zip(conds, choices))[::-1]:
            r = self.where(c, v, r)
        return r

    def extract(self, c, a):
        return asarray(a).reshape(-1)[asarray(c).reshape(-1)]

    def compress(self, c, a, axis=None):
        if axis is None:
            return self.extract(c, a)
        raise Unsupported("compress")

    def isin(self, a, b, **k):
        a, b = asarray(a), asarray(b)
        bs = [to_sym(x) for x in b.ravel_()]
        inv = k.get('invert', False)
        return elementwise(lambda x: nb(snot(sor(*[seq(to_sym(x), y) for y in bs])) if inv else sor(*[seq(to_sym(x), y) for y in bs])), 'b', a)
    in1d = isin

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        rt, at = to_sym(rtol), to_sym(atol)

        def f(x, y):
            x, y = to_sym(x), to_sym(y)
            if x.is_special or y.is_special:
                if x.is_nan or y.is_nan:
                    return NBOOL(bool(equal_nan) and x.is_nan and y.is_nan)
                return nb(seq(x, y))
            d = ssub(x, y)
            if d.c is not None and y.c is not None:
                return NBOOL(abs(d.c) <= at.c + rt.c * abs(y.c))
            tol = sadd(at, smul(rt, sabs(y))) if rt.c != 0 else at
            # |d| <= tol without naming |d|
            return nb(sand(sle(d, tol), sle(smul(Sym.const(-1), d), tol)))
        return scalarize(elementwise(f, 'b', asarray(a), asarray(b)))

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        r = self.all(asarray(self.isclose(a, b, rtol, atol, equal_nan)))
        return bool(r)

    def array_equal(self, a, b, **k):
        a, b = asarray(a), asarray(b)
        if a.shape != b.shape:
            return False
        return bool(self.all(asarray(a == b)))

    def array_equiv(self, a, b):
        return self.array_equal(a, b)

    def around(self, a, decimals=0, out=None):
        a = asarray(a)
        if a.kind in 'ib':
            return scalarize(a.copy())
        return scalarize(elementwise(lambda x: sround(x, int(decimals)), 'f', a))
    round = round_ = around

    def fix(self, a):
        return scalarize(elementwise(lambda x: as_real(strunc(x)), 'f', asarray(a)))

    def clip(self, a, a_min=None, a_max=None, out=None, **k):
        a_min = k.get('min', a_min)
        a_max = k.get('max', a_max)
        r = a
        if a_min is None and a_max is None:
            raise ValueError("One of max or min must be given")
        if a_min is not None:
            r = call_ufunc('maximum', '__call__', (r, a_min), {})
        if a_max is not None:
            r = call_ufunc('minimum', '__call__', (r, a_max), {})
        return _store(r, out)

    def nan_to_num(self, a, copy=True, nan=0.0, posinf=None, neginf=None):
        def f(x):
            if x.is_nan:
                return to_sym(nan)
            if x.is_special:
                return to_sym((posinf if posinf is not None else 1.7976931348623157e308) if x.c > 0 else
                              (neginf if neginf is not None else -1.7976931348623157e308))
            return x
        a = asarray(a)
        r = elementwise(f, a.kind, a)
        if not copy and isinstance(a, SymArray):
            a[...] = r
            return a
        return scalarize(r)

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        if period is not None:
            raise Unsupported("interp period")
        xp, fp = asarray(xp), asarray(fp)
        if xp.ndim != 1 or fp.ndim != 1:
            raise ValueError("object too deep for desired array")
        if xp.shape != fp.shape:
            raise ValueError("fp and xp are not of the same length.")
        if xp.size == 0:
            raise ValueError("array of sample points is empty")
        X = [as_real(v) for v in xp.ravel_()]
        F = [as_real(v) for v in fp.ravel_()]
        n = len(X)
        lv = as_real(left) if left is not None else F[0]
        rv = as_real(right) if right is not None else F[-1]

        def f(t):
            t = as_real(t)
            if t.is_nan:
                return t
            if n == 1:
                if bool(slt(t, X[0])):
                    return lv
                return rv if bool(slt(X[0], t)) else F[0]
            if bool(slt(t, X[0])):
                return lv
            if bool(slt(X[-1], t)):
                return rv
            # j with X[j] <= t < X[j+1]
            j = 0
            while j < n - 1 and bool(sle(X[j + 1], t)):
                j += 1
            if j == n - 1:
                return F[-1]
            d = ssub(X[j + 1], X[j])
            return sadd(F[j], smul(sdiv(ssub(F[j + 1], F[j]), d), ssub(t, X[j])))
        return scalarize(elementwise(f, 'f', asarray(x)))

    def percentile(self, a, q, axis=None, **k):
        return self.quantile(a, call_ufunc('divide', '__call__', (q, 100), {}), axis=axis, **k)

    def quantile(self, a, q, axis=None, keepdims=False, **k):
        if k.get('method', k.get('interpolation', 'linear')) != 'linear':
            raise Unsupported("quantile method")
        a = asarray(a)
        qa = asarray(q)
        outs = []
        for qq in qa.ravel_():
            qq = as_real(qq)
            if qq.c is None:
                raise Unsupported("symbolic quantile fraction")

            def f(xs, qq=qq):
                o = self._order(xs)
                pos = qq.c * (len(xs) - 1)
                i = int(math.floor(pos))
                fr = pos - i
                lo = as_real(xs[o[i]])
                if fr == 0:
                    return lo
                hi = as_real(xs[o[i + 1]])
                return sadd(lo, smul(ssub(hi, lo), Sym.const(fr)))
            outs.append(reduce_with(f, a, axis, keepdims, 'f'))
        if qa.ndim == 0:
            return outs[0]
        return self.array(outs).reshape(qa.shape + asarray(outs[0]).shape)

    def median(self, a, axis=None, out=None, keepdims=False, **k):
        a = asarray(a)

        def f(xs):
            xs = [as_real(x) for x in xs]
            if len(xs) == 3 and core.ctx().opts.get('merge_median', True):
                x, y, z = xs
                return smax(smin(x, y), smin(smax(x, y), z))
            o = self._order(xs)
            n = len(xs)
            if n % 2:
                return xs[o[n // 2]]
            return smul(sadd(xs[o[n // 2 - 1]], xs[o[n // 2]]), Sym.const(Fraction(1, 2)))
        return reduce_with(f, a, axis, keepdims, 'f')

    def histogram(self, a, bins=10, range=None, density=None, weights=None):
        a = asarray(a).reshape(-1)
        if weights is not None:
            w = asarray(weights)
            if w.size != a.size:
                raise ValueError("weights should have the same shape as a.")
            w = w.reshape(-1)
        else:
            w = None
        e = self._bin_edges(a, bins, range)
        E = [as_real(x) for x in e.ravel_()]
        xs = [as_real(x) for x in a.ravel_()]
        nb_ = len(E) - 1
        kind = 'i' if w is None else ('f' if w.kind == 'f' else 'i')
        out = rnp.empty(nb_, dtype=object)
        for j in builtins.range(nb_):
            t = Sym.const(0, isint=(kind == 'i'))
            for i, x in enumerate(xs):
                c = sand(sle(E[j], x), (sle if j == nb_ - 1 else slt)(x, E[j + 1]))
                wi = Sym.const(1, isint=True) if w is None else to_sym(w.ravel_()[i])
                t = sadd(t, site(c, wi, Sym.const(0, isint=wi.isint)))
            out[j] = const_elem(t, kind)
        h = wrap(out, kind)
        if density:
            db = self.diff(e)
            return h / db / self.sum(h), e
        return h, e

    def _bin_edges(self, a, bins, rng=None):
        if isinstance(bins, str):
            if all_const([a]):
                return from_real(rnp.histogram_bin_edges(to_real(a), bins=bins, range=to_real(rng)))
            if bins in ('auto', 'fd', 'sturges') and rng is None and a.size > 0:
                lo, hi = as_real(self.min(a)), as_real(self.max(a))
                if bool(seq(lo, hi)):
                    return self.linspace(ssub(lo, Sym.const(0.5)), sadd(hi, Sym.const(0.5)), 2)
                n = a.size
                span = ssub(hi, lo)
                st = sdiv(span, Sym.const(math.log2(n) + 1.0))
                w = st
                if bins != 'sturges':
                    p = self.percentile(a, [75, 25]).ravel_()
                    fd = sdiv(smul(Sym.const(2.0), ssub(p[0], p[1])), Sym.const(n ** (1.0 / 3.0)))
                    pos = not bool(seq(fd, Sym.const(0)))
                    w = fd if bins == 'fd' else (smin(fd, st) if pos else st)
                    if bins == 'fd' and not pos:
                        return self.linspace(lo, hi, 2)
                return self.linspace(lo, hi, int(sceil(sdiv(span, w))) + 1)
            raise Unsupported("histogram bins=%r" % bins)
        b = asarray(bins)
        if b.ndim == 0:
            n = _int1(b.ravel_()[0])
            if n < 1:
                raise ValueError("`bins` must be positive, when an integer")
            if rng is None:
                if a.size == 0:
                    lo, hi = Sym.const(0.0), Sym.const(1.0)
                else:
                    lo, hi = as_real(self.min(a)), as_real(self.max(a))
            else:
                lo, hi = as_real(rng[0]), as_real(rng[1])
                if bool(slt(hi, lo)):
                    raise ValueError("max must be larger than min in range parameter.")
            if bool(seq(lo, hi)):
                lo, hi = ssub(lo, Sym.const(0.5)), sadd(hi, Sym.const(0.5))
            return self.linspace(lo, hi, n + 1)
        if b.ndim != 1:
            raise ValueError("`bins` must be 1d, when an array")
        o = b.ravel_()
        for i in range(len(o) - 1):
            if bool(slt(to_sym(o[i + 1]), to_sym(o[i]))):
                raise ValueError("`bins` must increase monotonically, when an array")
        return b

    def histogram_bin_edges(self, a, bins=10, range=None, weights=None):
        return self._bin_edges(asarray(a).reshape(-1), bins, range)

    def histogramdd(self, sample, bins=10, range=None, density=None, weights=None):
        if isinstance(sample, SymArray):
            s = sample if sample.ndim == 2 else sample[:, None]
            cols = [s[:, d] for d in builtins.range(s.shape[1])]
        else:
            cols = [asarray(c) for c in sample]
        D = len(cols)
        if not _is_seq(bins):
            bins = [bins] * D
        if len(bins) != D:
            raise ValueError("The dimension of bins must be equal to the dimension of the sample x.")
        E = [self._bin_edges(asarray(c), b, None if range is None else range[i]) for i, (c, b) in enumerate(zip(cols, bins))]
        N = cols[0].shape[0]
        w = None if weights is None else asarray(weights).ravel_()
        shp = tuple(e.shape[0] - 1 for e in E)
        member = []
        for d in builtins.range(D):
            ed = [as_real(v) for v in E[d].ravel_()]
            mm = []
            for j in builtins.range(shp[d]):
                mm.append([sand(sle(ed[j], as_real(x)), (sle if j == shp[d] - 1 else slt)(as_real(x), ed[j + 1]))
                           for x in asarray(cols[d]).ravel_()])
            member.append(mm)
        out = rnp.empty(shp, dtype=object)
        for idx in rnp.ndindex(*shp):
            t = Sym.const(0)
            for n in builtins.range(N):
                c = sand(*[member[d][idx[d]][n] for d in builtins.range(D)])
                wi = Sym.const(1) if w is None else as_real(w[n])
                t = sadd(t, site(c, wi, Sym.const(0)))
            out[idx] = as_real(t)
        h = wrap(out, 'f')
        if density:
            tot = self.sum(h)
            for d in builtins.range(D):
                sh = [1] * D
                sh[d] = shp[d]
                h = h / self.diff(E[d]).reshape(sh)
            h = h / tot
        return h, E

    def histogram2d(self, x, y, bins=10, range=None, density=None, weights=None):
        x, y = asarray(x), asarray(y)
        if x.shape != y.shape:
            raise ValueError('x and y must have the same length.')
        if _is_seq(bins) and len(bins) not in (1, 2):
            e = asarray(bins)
            bins = [e, e]
        h, e = self.histogramdd([x, y], bins, range, density, weights)
        return h, e[0], e[1]

    def bincount(self, *a, **k):
        return generic_call(rnp.bincount, a, k)

    # ---- layout
    def concatenate(self, seq_, axis=0, out=None, **k):
        xs = [asarray(x) for x in seq_]
        if not xs:
            raise ValueError("need at least one array to concatenate")
        kd = join(*[x.kind for x in xs])
        xs = [cast(x, kd) for x in xs]
        for x in xs:
            if x.ndim == 0:
                raise ValueError("zero-dimensional arrays cannot be concatenated")
        if axis is None:
            xs = [x.reshape(-1) for x in xs]
            axis = 0
        return _store(wrap(rnp.concatenate([x.obj() for x in xs], axis=int(axis)), kd), out)

    def stack(self, seq_, axis=0, **k):
        xs = [asarray(x) for x in seq_]
        kd = join(*[x.kind for x in xs])
        return wrap(rnp.stack([cast(x, kd).obj() for x in xs], axis=int(axis)), kd)

    def _stk(self, fn, seq_):
        xs = [asarray(x) for x in seq_]
        kd = join(*[x.kind for x in xs])
        return wrap(fn([cast(x, kd).obj() for x in xs]), kd)

    def vstack(self, s, **k): return self._stk(rnp.vstack, s)
    row_stack = vstack
    def hstack(self, s, **k): return self._stk(rnp.hstack, s)
    def dstack(self, s, **k): return self._stk(rnp.dstack, s)
    def column_stack(self, s): return self._stk(rnp.column_stack, s)

    def append(self, a, v, axis=None):
        a, v = asarray(a), asarray(v)
        if axis is None:
            a, v, axis = a.reshape(-1), v.reshape(-1), 0
        return self.concatenate([a, v], axis=axis)

    def insert(self, a, i, v, axis=None):
        a = asarray(a)
        if a.ndim == 1 and isinstance(i, int):
            return self.concatenate([a[:i], self.atleast_1d(v), a[i:]])
        raise Unsupported("insert")

    def reshape(self, a, shape, order='C', **k):
        return wrap(asarray(a).obj().reshape(_ints(shape), order=order), asarray(a).kind)

    def ravel(self, a, order='C'):
        return wrap(asarray(a).obj().ravel(order), asarray(a).kind)

    def squeeze(self, a, axis=None):
        if isinstance(a, (list, tuple)):
            a = asarray(a)
        a = asarray(a)
        return rnp.ndarray.squeeze(a) if axis is None else rnp.ndarray.squeeze(a, axis=_ints(axis))

    def transpose(self, a, axes=None):
        a = asarray(a)
        return a.transpose() if axes is None else a.transpose(_ints(axes))

    def broadcast_to(self, a, shape, subok=False):
        a = asarray(a)
        shp = _ints(shape)
        return wrap(rnp.broadcast_to(a.obj(), shp), a.kind)

    def broadcast_arrays(self, *xs, **k):
        xs = [asarray(x) for x in xs]
        r = rnp.broadcast_arrays(*[x.obj() for x in xs])
        return [wrap(o, x.kind) for o, x in zip(r, xs)]

    def meshgrid(self, *xs, indexing='xy', sparse=False, copy=True):
        xs = [asarray(x) for x in xs]
        r = rnp.meshgrid(*[x.obj() for x in xs], indexing=indexing, sparse=sparse, copy=copy)
        return [wrap(o, x.kind) for o, x in zip(r, xs)]

    def take(self, a, indices, axis=None, **k):
        a = asarray(a)
        idx = _key1(asarray(indices))
        return scalarize(wrap(rnp.take(a.obj(), idx, axis=axis), a.kind)) if not isinstance(idx, int) or axis is not None \
            else a.reshape(-1)[idx]

    def take_along_axis(self, a, idx, axis):
        a = asarray(a)
        ii = asarray(idx)
        if ii.kind != 'i':
            raise IndexError("`indices` must be an integer array")
        ii = rnp.atleast_1d(_key1(ii)) if ii.ndim else ii
        return wrap(rnp.take_along_axis(a.obj(), ii, axis), a.kind)

    def put_along_axis(self, *a, **k):
        raise Unsupported("put_along_axis")

    def unravel_index(self, idx, shape, order='C'):
        a = asarray(idx)
        ii = _key1(a)
        r = rnp.unravel_index(ii, _ints(shape), order)
        return tuple(from_real(rnp.asarray(x)) if rnp.ndim(x) else Sym.const(int(x), isint=True) for x in r)

    def ravel_multi_index(self, mi, dims, **k):
        r = rnp.ravel_multi_index(tuple(_key1(asarray(m)) for m in mi), _ints(dims), **k)
        return from_real(r) if isinstance(r, rnp.ndarray) else Sym.const(int(r), isint=True)

    def ix_(self, *xs):
        ys = []
        for x in xs:
            k = _key1(asarray(x))
            ys.append(rnp.atleast_1d(k))
        return rnp.ix_(*ys)

    def ndindex(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, rnp.ndarray)):
            shape = tuple(shape[0])
        return rnp.ndindex(*_ints(shape))

    def ndenumerate(self, a):
        a = asarray(a)
        o = a.obj()
        for i in rnp.ndindex(*a.shape):
            yield i, o[i]

    def nditer(self, *a, **k):
        raise Unsupported("nditer")

    def triu_indices(self, n, k=0, m=None):
        return tuple(_from_real(x) for x in rnp.triu_indices(_int1(n), int(k), m))

    def tril_indices(self, n, k=0, m=None):
        return tuple(_from_real(x) for x in rnp.tril_indices(_int1(n), int(k), m))

    def diag_indices(self, n, ndim=2):
        return tuple(_from_real(x) for x in rnp.diag_indices(_int1(n), ndim))

    def diag_indices_from(self, a):
        return self.diag_indices(asarray(a).shape[0], asarray(a).ndim)

    def fill_diagonal(self, a, val, wrap=False):
        v = asarray(val)
        for i in range(builtins.min(a.shape)):
            a[(i,) * a.ndim] = v.ravel_()[i % v.size] if v.size > 1 else v.ravel_()[0]

    def trace(self, a, *r, **k):
        return self.sum(asarray(a).diagonal())

    def pad(self, a, pad_width, mode='constant', **kw):
        a = asarray(a)
        pw = rnp.broadcast_to(to_real(asarray(pad_width)), (a.ndim, 2)).astype(int) if a.ndim else rnp.zeros((0, 2), int)
        if mode == 'constant':
            cv = asarray(kw.get('constant_values', 0))
            cvb = self.broadcast_to(cv, (a.ndim, 2))
            cur = a
            for d in range(a.ndim):
                for s in (0, 1):
                    n = int(pw[d, s])
                    if n < 0:
                        raise ValueError("index can't contain negative values")
                    if not n:
                        continue
                    shp = list(cur.shape)
                    shp[d] = n
                    blk = _filled(tuple(shp), cast_scalar(cvb.obj()[d, s], a.kind), a.kind)
                    cur = self.concatenate([blk, cur] if s == 0 else [cur, blk], axis=d)
            return cur if cur is not a else a.copy()
        return wrap(rnp.pad(a.obj(), pw, mode=mode, **kw), a.kind)

    def delete(self, a, obj, axis=None):
        a = asarray(a)
        o = obj if isinstance(obj, (int, slice)) else _key1(asarray(obj))
        return wrap(rnp.delete(a.obj(), o, axis=axis), a.kind)

    def copyto(self, dst, src, where=True, **k):
        if where is True:
            dst[...] = src
        else:
            w = self.broadcast_to(asarray(where), dst.shape)
            s = self.broadcast_to(asarray(src), dst.shape)
            dst[...] = self.where(w, s, dst)

    def putmask(self, a, mask, values):
        self.copyto(a, values, where=mask)

    def place(self, a, mask, vals):
        raise Unsupported("place")

    def apply_along_axis(self, *a, **k):
        raise Unsupported("apply_along_axis")

    def vectorize(self, f, *a, **k):
        def g(*xs):
            arrs = [asarray(x) for x in xs]
            r = elementwise(f, 'O', *arrs)
            return scalarize(from_objects(r.obj()))
        return g

    def set_printoptions(self, *a, **k):
        return None

    def isreal(self, a):
        return self.ones(self.shape(a), dtype=bool)

    def iscomplexobj(self, a):
        return False

    def isneginf(self, a):
        return asarray(a) == Sym.const(float('-inf'))

    def isposinf(self, a):
        return asarray(a) == Sym.const(float('inf'))

    def can_cast(self, *a, **k):
        return True

    def result_type(self, *a):
        return _DT[join(*[asarray(x).kind for x in a])]

    def ogrid(self):
        raise Unsupported("ogrid")


def _num_of(b):
    if isinstance(b, SymBool):
        return b.num()
    return Sym.const(int(bool(b)), isint=True)


def _arg_extreme(xs, is_min):
    for i, x in enumerate(xs):
        if x.is_nan:
            return i
    best = 0
    for i in range(1, len(xs)):
        a, b = xs[i], xs[best]
        if a is b:
            continue
        if bool(slt(a, b) if is_min else slt(b, a)):
            best = i
    return best


class _UfuncShim:
    def __init__(self, name, u):
        self.name = u.__name__
        self.__name__ = u.__name__
        self.u = u
        self.identity = u.identity
        self.nin, self.nout = u.nin, u.nout

    def __call__(self, *a, **k):
        n = self.u.nin
        if len(a) > n:
            k = dict(k, out=a[n])
            a = a[:n]
        return call_ufunc(self.name, '__call__', a, k, self.u)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return call_ufunc(self.name, 'reduce', (a,), dict(axis=axis, keepdims=keepdims, initial=initial, where=where,
                                                          dtype=dtype, out=out))

    def accumulate(self, a, axis=0, dtype=None, out=None):
        return call_ufunc(self.name, 'accumulate', (a,), dict(axis=axis, out=out))

    def outer(self, a, b, **k):
        return call_ufunc(self.name, 'outer', (a, b), {})

    def at(self, a, idx, *b):
        return call_ufunc(self.name, 'at', (a, idx) + b, {})


NP = _NP()
