"""Loads the code under test (all modules of the package `kalepy` in /repo) for symbolic execution.

The modules are read from their current source, a small number of syntactic rewrites are applied (float
literals become exact decimals, `/` and `**` go through helpers that keep integer operands exact, every
function announces itself), and they are executed with `numpy`, `scipy`, `numba`, `math`, `logging` and
`random` bound to the symbolic stand-ins.  Nothing else of the code is changed or modelled.
"""
import ast
import builtins
import importlib
import math
import os
import sys
import types
from fractions import Fraction

import numpy as rnp

from symx import core, snp
from symx.core import Sym, SymBool, Unsupported, to_sym, sdiv
from symx.snp import NP, SymArray, asarray, call_ufunc, generic_const, wrap

ROOT = os.environ.get('KALEPY_ROOT', '/repo')
PKG = 'kalepy'


# ------------------------------------------------------------------ helpers seen by the rewritten code

_FC = {}


def _sx_f(s):
    v = _FC.get(s)
    if v is None:
        f = float(s)
        v = Sym.const(f) if (math.isinf(f) or math.isnan(f)) else Sym.const(Fraction(s.replace('_', '')))
        _FC[s] = v
    return v


def _pynum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool) or isinstance(x, bool)


def _sx_div(a, b):
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return sdiv(to_sym(a), to_sym(b))
    return a / b


def _sx_idiv(a, b):
    if isinstance(a, SymArray):
        a /= b
        return a
    return _sx_div(a, b)


def _sx_pow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        if a == 0 and b < 0:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return core.spow(to_sym(a), to_sym(b))
    return a ** b


class _Safe:
    def __init__(self, x):
        self.x = x

    def __float__(self):
        try:
            return float(self.x)
        except Unsupported:
            return 0.0

    def __int__(self):
        return int(float(self))
    __index__ = __int__

    def __str__(self):
        return str(self.x)
    __repr__ = __str__


def _sx_mod(a, b):
    if isinstance(a, str):
        def s(x):
            return _Safe(x) if isinstance(x, (Sym, SymBool, SymArray)) else x
        if isinstance(b, tuple):
            b = tuple(s(x) for x in b)
        elif not isinstance(b, dict):
            b = s(b)
        try:
            return a % b
        except (TypeError, ValueError):
            return a
    return a % b


def _sx_enter(name):
    c = core.ctx()
    if c is not None:
        c.funcs.add(name)


class _FloatMeta(type):
    _symx_float = True

    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return not x.isint
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or c is cls


class _Float(metaclass=_FloatMeta):
    """the builtin `float` as seen by the code"""
    def __new__(cls, x=0):
        if isinstance(x, Sym):
            return core.as_real(x)
        if isinstance(x, SymBool):
            return core.as_real(x.num())
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return core.as_real(to_sym(x.ravel_()[0]))
        return Sym.const(builtins.float(x))


def _sx_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


# ------------------------------------------------------------------ library stand-ins

class _Mod(types.ModuleType):
    pass


class LoggingStub:
    DEBUG, INFO, WARNING, WARN, ERROR, CRITICAL, FATAL, NOTSET = 10, 20, 30, 30, 40, 50, 50, 0

    class Logger:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return lambda *a, **k: None

    Handler = StreamHandler = Formatter = NullHandler = Logger

    def getLogger(self, *a, **k):
        return self.Logger()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class NumbaStub:
    @staticmethod
    def _dec(*a, **k):
        if len(a) == 1 and not k and (callable(a[0]) or isinstance(a[0], (staticmethod, classmethod))):
            return a[0]
        return lambda f: f
    jit = njit = vectorize = guvectorize = generated_jit = stencil = cfunc = _dec
    prange = staticmethod(lambda *a: range(*[int(x) for x in a]))

    class _T:
        def __getattr__(self, n):
            return NumbaStub._T()

        def __call__(self, *a, **k):
            return NumbaStub._T()

        def __getitem__(self, k):
            return NumbaStub._T()

    types = core_types = typed = _T()
    float64 = int64 = float32 = int32 = boolean = b1 = f8 = i8 = void = _T()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("numba.%s" % n)


class MathShim:
    pi = Sym.const(math.pi)
    e = Sym.const(math.e)
    tau = Sym.const(math.tau)
    inf = Sym.const(float('inf'))
    nan = Sym.const(float('nan'))

    @staticmethod
    def _s(x):
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return to_sym(x.ravel_()[0])
        return to_sym(x)

    def _f(name, dom=None):
        def f(self, x):
            s = self._s(x)
            if dom is not None and bool(dom(s)):
                raise ValueError("math domain error")
            r = call_ufunc(name, '__call__', (core.as_real(s),), {})
            return r
        return f

    sqrt = _f('sqrt', lambda s: core.slt(s, Sym.const(0)))
    exp = _f('exp')
    log10 = _f('log10', lambda s: core.sle(s, Sym.const(0)))
    log2 = _f('log2', lambda s: core.sle(s, Sym.const(0)))
    sin, cos, tan, atan, tanh = _f('sin'), _f('cos'), _f('tan'), _f('arctan'), _f('tanh')
    fabs = _f('fabs')

    def log(self, x, base=None):
        s = core.as_real(self._s(x))
        if bool(core.sle(s, Sym.const(0))):
            raise ValueError("math domain error")
        r = core.slog(s)
        return r if base is None else r / core.slog(core.as_real(self._s(base)))

    def pow(self, x, y):
        return core.spow(core.as_real(self._s(x)), core.as_real(self._s(y)))

    def floor(self, x): return int(core.sfloor(self._s(x)))
    def ceil(self, x): return int(core.sceil(self._s(x)))
    def trunc(self, x): return int(self._s(x))

    def isnan(self, x): return self._s(x).is_nan
    def isinf(self, x):
        s = self._s(x)
        return s.is_special and not s.is_nan
    def isfinite(self, x): return not self._s(x).is_special
    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = self._s(a), self._s(b)
        d = core.sabs(a - b)
        return d <= core.smax(core.smax(core.sabs(a), core.sabs(b)) * to_sym(rel_tol), to_sym(abs_tol))
    def hypot(self, *xs): return core.ssqrt(sum((core.as_real(self._s(x)) * self._s(x) for x in xs), Sym.const(0)))
    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r
    def fsum(self, xs):
        r = Sym.const(0)
        for x in xs:
            r = r + x
        return r
    def copysign(self, x, y):
        x, y = self._s(x), self._s(y)
        return core.site(core.sle(Sym.const(0), y), core.sabs(x), -core.sabs(x))

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return Sym.const(f)

        def g(*a):
            a2 = []
            for x in a:
                s = self._s(x)
                if s.c is None:
                    raise Unsupported("math.%s of a symbolic value" % n)
                a2.append(int(s.c) if s.isint else float(s.c))
            r = f(*a2)
            return Sym.const(r) if isinstance(r, float) else r
        return g


def _all_const(a):
    return snp.all_const(asarray(a).ravel_())


class SPLinalg:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def _finite(a, check):
        if check:
            for x in a.ravel_():
                if to_sym(x).is_special:
                    raise ValueError("array must not contain infs or NaNs")

    def cholesky(self, a, lower=False, overwrite_a=False, check_finite=True):
        a = asarray(a)
        self._finite(a, check_finite)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise ValueError("Input array is expected to be square but has the shape: %r." % (a.shape,))
        if lower:
            return snp._cholesky(a)
        return snp._cholesky(a.T).T        # reads the upper triangle

    def inv(self, a, overwrite_a=False, check_finite=True):
        a = asarray(a)
        self._finite(a, check_finite)
        return NP.linalg.inv(a)

    def det(self, a, **k): return NP.linalg.det(a)
    def pinv(self, a, *, atol=None, rtol=None, check_finite=True):
        a = asarray(a)
        self._finite(a, check_finite)
        if atol:
            raise Unsupported("pinv with an absolute cutoff")
        return NP.linalg.pinv(a, rcond=max(a.shape) * 2.220446049250313e-16 if rtol is None else rtol)

    def solve(self, a, b, **k): return NP.linalg.solve(asarray(a), asarray(b))
    def norm(self, a, ord=None, axis=None, keepdims=False, check_finite=True):
        return NP.linalg.norm(a, ord=ord, axis=axis, keepdims=keepdims)

    def solve_triangular(self, a, b, trans=0, lower=False, **k):
        a, b = asarray(a), asarray(b)
        a = NP.tril(a) if lower else NP.triu(a)
        if trans in (1, 'T'):
            a = a.T
        return NP.linalg.solve(a, b)

    def cho_factor(self, a, lower=False, **k):
        return self.cholesky(a, lower=lower), lower

    def cho_solve(self, c_low, b, **k):
        c, low = c_low
        c = asarray(c)
        L = c if low else c.T
        return NP.linalg.solve(NP.matmul(L, L.T), asarray(b))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import scipy.linalg as m
        getattr(m, n)
        raise Unsupported("scipy.linalg.%s" % n)


def _opaque_elem(name, fn, mono, rng):
    """elementwise application of an opaque (monotone) function to the first argument"""
    def one(x):
        s = core.as_real(x)
        if s.c is not None:
            return Sym.const(float(fn(float(s.c))))
        return core.ctx().opaque(name, s, param=name, fn=fn, mono=mono, rng=rng)
    return one


def _map1(f, x):
    x = asarray(x)
    r = snp.elementwise(f, 'f', x)
    return snp.scalarize(r) if isinstance(r, SymArray) and r.ndim == 0 else r


class _Dist:
    def __init__(self, name, dist, args=()):
        self._n, self._d, self._a = name, dist, args

    def _c(self, a):
        out = []
        for x in a:
            s = to_sym(x if not isinstance(x, SymArray) else x.ravel_()[0])
            if s.c is None:
                raise Unsupported("scipy.stats.%s with symbolic parameters" % self._n)
            out.append(float(s.c))
        return tuple(out)

    def __call__(self, *a, **k):
        return _Dist(self._n, self._d, self._c(a) + tuple(self._c(k.values())))

    def _do(self, meth, x, a, k):
        loc = k.pop('loc', None)
        scale = k.pop('scale', None)
        a = list(a)
        if k:
            raise Unsupported("scipy.stats arguments")
        na = {'beta': 2, 'gamma': 1, 't': 1, 'chi2': 1}.get(self._n, 0)
        a = list(self._a) + a
        if len(a) > na:
            loc = a[na]
            if len(a) > na + 1:
                scale = a[na + 1]
            a = a[:na]
        ca = self._c(a)
        if loc is not None or scale is not None:
            loc = 0 if loc is None else loc
            scale = 1 if scale is None else scale
            if meth in ('cdf', 'pdf', 'sf', 'logpdf'):
                x = (asarray(x) - loc) / scale
        fn = lambda v: float(getattr(self._d, meth)(v, *ca))
        mono = {'cdf': 1, 'ppf': 1, 'sf': -1, 'isf': -1}.get(meth)
        rng = {'cdf': lambda v: snp.z3.And(v >= 0, v <= 1), 'sf': lambda v: snp.z3.And(v >= 0, v <= 1),
               'pdf': lambda v: v >= 0}.get(meth)
        r = _map1(_opaque_elem("stats.%s.%s%r" % (self._n, meth, ca), fn, mono, rng), x)
        if loc is not None or scale is not None:
            if meth in ('ppf', 'isf'):
                r = r * scale + loc
            elif meth == 'pdf':
                r = r / scale
        return r

    def __getattr__(self, meth):
        if meth in ('cdf', 'ppf', 'sf', 'isf', 'pdf'):
            return lambda x, *a, **k: self._do(meth, x, a, dict(k))
        if meth == 'rvs':
            return self._rvs
        raise Unsupported("scipy.stats.%s.%s" % (self._n, meth))

    def _rvs(self, *a, size=None, random_state=None, **k):
        a = list(self._a) + list(a)
        if self._n == 'norm':
            loc = a[0] if a else k.get('loc', 0)
            sc = a[1] if len(a) > 1 else k.get('scale', 1)
            return NP.random.normal(loc, sc, size)
        if self._n == 'uniform':
            loc = a[0] if a else k.get('loc', 0)
            sc = a[1] if len(a) > 1 else k.get('scale', 1)
            return NP.random.uniform(0, 1, size) * sc + loc
        if self._n == 'beta':
            return NP.random.beta(a[0], a[1], size)
        raise Unsupported("scipy.stats.%s.rvs" % self._n)


class SPStats:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import scipy.stats as m
        d = getattr(m, n)
        if hasattr(d, 'ppf'):
            return _Dist(n, d)

        def f(*a, **k):
            if all(_all_const(x) for x in a if not isinstance(x, (str, type(None)))):
                return generic_const(d, a, k)
            raise Unsupported("scipy.stats.%s" % n)
        return f


class SPSpecial:
    _MONO = {'ndtr': (1, lambda v: snp.z3.And(v > 0, v < 1)), 'ndtri': (1, None),
             'erf': (1, lambda v: snp.z3.And(v > -1, v < 1)), 'erfinv': (1, None), 'erfc': (-1, None)}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import scipy.special as m
        fn = getattr(m, n)

        def f(*a, **k):
            if all(_all_const(x) for x in a):
                return generic_const(fn, a, k)
            if n in self._MONO and len(a) == 1:
                mono, rng = self._MONO[n]
                return _map1(_opaque_elem('special.' + n, lambda v: float(fn(v)), mono, rng), a[0])
            if n in ('betaincinv', 'betainc', 'gammaincinv', 'gammainc') and all(_all_const(x) for x in a[:-1]):
                ca = [float(to_sym(x if not isinstance(x, SymArray) else x.ravel_()[0]).c) for x in a[:-1]]
                rng = None
                if n != 'gammaincinv':
                    rng = lambda v: snp.z3.And(v >= 0, v <= 1)
                return _map1(_opaque_elem('special.%s%r' % (n, ca), lambda v: float(fn(*ca, v)), 1, rng), a[-1])
            raise Unsupported("scipy.special.%s of symbolic values" % n)
        return f


def _cell(grid, x, side='right'):
    """index i with grid[i] <= x < grid[i+1], clipped to valid cells (forks)"""
    n = len(grid)
    lo, hi = 0, n - 2
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if bool(core.sle(to_sym(grid[mid]), x)):
            lo = mid
        else:
            hi = mid - 1
    return lo


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        if kind != 'linear':
            raise Unsupported("interp1d kind=%r" % (kind,))
        x, y = asarray(x), asarray(y)
        if y.ndim != 1 or x.ndim != 1:
            raise Unsupported("interp1d of an array with more than one dimension")
        if x.shape != y.shape:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            o = NP.argsort(x)
            x, y = x[o], y[o]
        self.x, self.y = x, y
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if self.extrap:
            be = False
        elif bounds_error is None:
            be = isinstance(fill_value, float) and math.isnan(fill_value) or \
                (isinstance(fill_value, Sym) and fill_value.is_nan)
        else:
            be = bool(bounds_error)
        self.be = be
        self.fill = fill_value
        self.const = snp.all_const(x.ravel_()) and snp.all_const(y.ravel_())
        self.key = None
        if self.const and len(x) > 24:
            fx = [float(to_sym(v).c) for v in x.ravel_()]
            fy = [float(to_sym(v).c) for v in y.ravel_()]
            up = all(b > a for a, b in zip(fy, fy[1:]))
            dn = all(b < a for a, b in zip(fy, fy[1:]))
            if up or dn:
                self.key = "interp1d:%d" % hash((tuple(fx), tuple(fy)))
                self.mono = 1 if up else -1
                self.fx, self.fy = fx, fy

    def _one(self, v):
        v = core.as_real(v)
        if v.is_nan:
            return Sym.const(float('nan'))
        xs, ys = self.x.ravel_(), self.y.ravel_()
        below, above = core.slt(v, to_sym(xs[0])), core.slt(to_sym(xs[-1]), v)
        if self.be:
            if bool(below):
                raise ValueError("A value in x_new is below the interpolation range.")
            if bool(above):
                raise ValueError("A value in x_new is above the interpolation range.")
        elif not self.extrap:
            fl = self.fill
            fl = fl if isinstance(fl, (tuple, list)) else (fl, fl)
            if bool(below):
                return core.as_real(fl[0])
            if bool(above):
                return core.as_real(fl[1])
        if self.key is not None and v.c is None and not core.ctx().opts.get('exact_interp'):
            fx, fy = self.fx, self.fy
            lo, hi = min(fy[0], fy[-1]), max(fy[0], fy[-1])
            rng = lambda t: snp.z3.And(t >= core.zr(Fraction(lo)), t <= core.zr(Fraction(hi)))
            return core.ctx().opaque(self.key, v, param=self.key, fn=lambda t: float(rnp.interp(t, fx, fy)),
                                     mono=self.mono, rng=rng)
        i = _cell(xs, v)
        x0, x1, y0, y1 = (to_sym(t) for t in (xs[i], xs[i + 1], ys[i], ys[i + 1]))
        return y0 + (y1 - y0) / (x1 - x0) * (v - x0)

    def __call__(self, v):
        a = asarray(v)
        r = snp.elementwise(self._one, 'f', a)
        return r


class RegularGrid:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=float('nan'), **k):
        if method != 'linear' or k:
            raise Unsupported("RegularGridInterpolator method=%r" % (method,))
        self.points = [asarray(p) for p in points]
        self.values = asarray(values)
        if len(self.points) > self.values.ndim:
            raise ValueError("There are %d point arrays, but values has %d dimensions" %
                             (len(self.points), self.values.ndim))
        for i, p in enumerate(self.points):
            if p.ndim != 1:
                raise ValueError("The points in dimension %d must be 1-dimensional" % i)
            if p.shape[0] != self.values.shape[i]:
                raise ValueError("There are %d points and %d values in dimension %d" %
                                 (len(p), self.values.shape[i], i))
            xs = p.ravel_()
            for a, b in zip(xs, xs[1:]):
                if not bool(core.slt(to_sym(a), to_sym(b))):
                    raise ValueError("The points in dimension %d must be strictly ascending or descending" % i)
        self.be, self.fill = bounds_error, fill_value
        self.grid = tuple(self.points)

    def __call__(self, xi, method=None):
        nd = len(self.points)
        if isinstance(xi, (tuple, list)) and len(xi) and not snp._is_seq(xi[0]) is True and nd == 1:
            xi = asarray(xi)
        if isinstance(xi, tuple):
            xs = NP.broadcast_arrays(*[asarray(x) for x in xi])
            xi = NP.stack(xs, axis=-1)
        xi = asarray(xi)
        if xi.ndim == 0:
            xi = xi.reshape(1, 1)
        elif xi.ndim == 1:
            xi = xi.reshape(-1, 1) if nd == 1 else xi.reshape(1, -1)
        if xi.shape[-1] != nd:
            raise ValueError("The requested sample points xi have dimension %d, but this "
                             "RegularGridInterpolator has dimension %d" % (xi.shape[-1], nd))
        shp = xi.shape[:-1]
        flat = xi.reshape(-1, nd)
        out = rnp.empty(flat.shape[0], dtype=object)
        for r in range(flat.shape[0]):
            out[r] = self._one([core.as_real(flat.obj()[r, d]) for d in range(nd)])
        return wrap(out, 'f').reshape(shp)

    def _one(self, q):
        if any(x.is_nan for x in q):
            return Sym.const(float('nan'))
        idx, ws = [], []
        for p, x in zip(self.points, q):
            g = p.ravel_()
            if self.be or self.fill is not None:
                out = core.sor(core.slt(x, to_sym(g[0])), core.slt(to_sym(g[-1]), x))
                if bool(out):
                    if self.be:
                        raise ValueError("One of the requested xi is out of bounds")
                    return core.as_real(self.fill)
            i = _cell(g, x)
            a, b = to_sym(g[i]), to_sym(g[i + 1])
            idx.append(i)
            ws.append((x - a) / (b - a))
        tot = Sym.const(0)
        vals = self.values.obj()
        for c in rnp.ndindex(*([2] * len(q))):
            w = Sym.const(1)
            for k, t in zip(c, ws):
                w = w * (t if k else 1 - t)
            tot = tot + w * to_sym(vals[tuple(i + k for i, k in zip(idx, c))])
        return tot


class SPInterp:
    interp1d = Interp1d
    RegularGridInterpolator = RegularGrid

    @staticmethod
    def interpn(points, values, xi, method='linear', bounds_error=True, fill_value=float('nan')):
        return RegularGrid(points, values, method, bounds_error, fill_value)(xi)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("scipy.interpolate.%s" % n)


class SPNdimage:
    """linear filters: the operator is read off from its action on unit arrays"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import scipy.ndimage as m
        fn = getattr(m, n)

        def f(a, *r, **k):
            a = asarray(a)
            if snp.all_const(a.ravel_()):
                return generic_const(fn, (a,) + r, k)
            if n not in ('zoom', 'gaussian_filter', 'uniform_filter', 'convolve', 'correlate'):
                raise Unsupported("scipy.ndimage.%s" % n)
            if n == 'zoom' and k.get('prefilter', True) is False and k.get('order', 3) > 1:
                raise Unsupported("zoom prefilter")
            r2 = [float(x) if isinstance(x, Sym) else x for x in r]
            k2 = {q: (float(x) if isinstance(x, Sym) else x) for q, x in k.items()}
            # cells which hold the same value are filtered together
            groups = {}
            for i in rnp.ndindex(*a.shape):
                v = a.obj()[i]
                try:
                    q = (v.n.get_id(), v.d) if isinstance(v, Sym) and v.c is None and hasattr(v.n, 'get_id') else ('', i)
                    groups.setdefault(q, (v, []))[1].append(i)
                except TypeError:
                    groups.setdefault(('', i), (v, []))[1].append(i)
            tot = None
            for v, cells in groups.values():
                e = rnp.zeros(a.shape)
                for i in cells:
                    e[i] = 1.0
                t = asarray(fn(e, *r2, **k2)) * v
                tot = t if tot is None else tot + t
            return tot
        return f


class SPIntegrate:
    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        return NP.trapz(y, x, dx, axis)
    trapz = trapezoid

    def cumulative_trapezoid(self, y, x=None, dx=1.0, axis=-1, initial=None):
        y = asarray(y)
        d = dx if x is None else NP.diff(asarray(x), axis=(axis if asarray(x).ndim > 1 else -1))
        if x is not None and asarray(x).ndim == 1:
            shp = [1] * y.ndim
            shp[axis] = -1
            d = d.reshape(shp)
        a = NP.moveaxis(y, axis, -1)
        mid = (a[..., 1:] + a[..., :-1]) / 2
        mid = NP.moveaxis(mid, -1, axis) * d
        r = NP.cumsum(mid, axis=axis)
        if initial is not None:
            shp = list(r.shape)
            shp[axis] = 1
            r = NP.concatenate([NP.full(shp, initial, dtype=float), r], axis=axis)
        return r
    cumtrapz = cumulative_trapezoid

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("scipy.integrate.%s" % n)


class SP:
    linalg = SPLinalg()
    stats = SPStats()
    special = SPSpecial()
    interpolate = SPInterp()
    ndimage = SPNdimage()
    integrate = SPIntegrate()
    __version__ = '1.0'
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("scipy.%s" % n)


class RandomShim:
    """the standard library's `random`"""
    def random(self): return NP.random.uniform()
    def uniform(self, a, b): return NP.random.uniform(a, b)
    def gauss(self, mu=0, sigma=1): return NP.random.normal(mu, sigma)
    normalvariate = gauss
    def seed(self, *a, **k): return None
    def randrange(self, *a): return int(NP.random.randint(*a))
    def randint(self, a, b): return int(NP.random.randint(a, b + 1))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("random.%s" % n)


class LazyMod:
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        m = importlib.import_module(self._name)
        try:
            v = getattr(m, n)
        except AttributeError:
            if n.startswith('__'):
                raise
            v = importlib.import_module(self._name + '.' + n)
        if isinstance(v, types.ModuleType):
            return LazyMod(v.__name__)
        return LazyFn(v) if callable(v) else v


def _concrete(x):
    """floats for what is not part of the encoding (colours and styles of matplotlib, which are not observed)"""
    if isinstance(x, SymArray):
        if x.dtype.kind == 'O' if hasattr(x.dtype, 'kind') else False:
            return x
        return rnp.array([_concrete(v) for v in x.ravel().tolist()]).reshape(x.shape)
    if isinstance(x, Sym):
        return float(x.sh)
    if isinstance(x, LazyFn):
        return x._f
    if isinstance(x, (list, tuple)):
        return type(x)(_concrete(v) for v in x)
    return x


class LazyFn:
    def __init__(self, f):
        self.__dict__['_f'] = f

    def __call__(self, *a, **k):
        r = self._f(*[_concrete(v) for v in a], **{i: _concrete(v) for i, v in k.items()})
        return LazyFn(r) if callable(r) else r

    def __getattr__(self, n):
        v = getattr(self._f, n)
        return LazyFn(v) if callable(v) else v



_SHIMS = {
    'numpy': NP, 'scipy': SP(), 'numba': NumbaStub(), 'math': MathShim(), 'logging': LoggingStub(),
    'random': RandomShim(), 'matplotlib': LazyMod('matplotlib'),
}


def _resolve(name):
    """stand-in for a dotted module name, or None"""
    head, *rest = name.split('.')
    if head not in _SHIMS:
        return None
    m = _SHIMS[head]
    if head == 'matplotlib':
        return LazyMod(name) if rest else m
    for r in rest:
        m = getattr(m, r)
    return m


# ------------------------------------------------------------------ rewriting

class _Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _call(self, fn, args, at):
        n = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(n, at)), at)

    def visit_Constant(self, node):
        if type(node.value) is float:
            return self._call('_sx_f', [ast.copy_location(ast.Constant(value=repr(node.value)), node)], node)
        return node

    def visit_JoinedStr(self, node):
        # leave literal parts and format specs alone
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        fn = {ast.Div: '_sx_div', ast.Pow: '_sx_pow', ast.Mod: '_sx_mod'}.get(type(node.op))
        if fn is None:
            return node
        return self._call(fn, [node.left, node.right], node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        fn = {ast.Div: '_sx_idiv'}.get(type(node.op))
        if fn is None:
            return node
        if isinstance(node.target, ast.Name):
            src = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(targets=[node.target], value=self._call(fn, [src, node.value], node)), node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = '.'.join([self.mod] + self.stack)
        self.stack.pop()
        e = ast.Expr(value=self._call('_sx_enter', [ast.copy_location(ast.Constant(value=q), node)], node))
        e = ast.copy_location(e, node)
        i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                  and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(i, e)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_MatchValue(self, node):
        return node


_CODE = {}


def _code(modname, path):
    c = _CODE.get(path)
    if c is None:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = _Rewrite(modname).visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec')
        _CODE[path] = c
    return c


class Package:
    """one fresh symbolic instance of the package"""

    def __init__(self, root=None):
        self.root = root or ROOT
        self.mods = {}
        bd = dict(builtins.__dict__)
        bd.update(__import__=self._import, float=_Float, round=_sx_round,
                  _sx_f=_sx_f, _sx_div=_sx_div, _sx_idiv=_sx_idiv, _sx_pow=_sx_pow, _sx_mod=_sx_mod,
                  _sx_enter=_sx_enter)
        self.builtins = bd

    def _find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name=PKG):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = _Mod(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(_code(name, path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        par, _, leaf = name.rpartition('.')
        if par:
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        head = name.split('.')[0]
        if head == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(head)
        if head in _SHIMS:
            m = _resolve(name)
            return m if fromlist else _SHIMS[head]
        return builtins.__import__(name, globals, locals, fromlist, 0)


def load(root=None):
    p = Package(root)
    p.load(PKG)
    return p
