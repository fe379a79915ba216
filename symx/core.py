"""Symbolic values and the path-forking executor.

`Sym`      an extended real (or integer) value: an exact rational constant, one of the IEEE special
           values (inf, -inf, nan), or a symbolic rational function num/den (z3 terms, den > 0).
`SymBool`  a symbolic truth value; `bool()` of it forks the execution (both sides are explored when
           both are satisfiable under the path condition).
`Ctx`      one harness execution: path condition, decisions, obligations.

Execution is by re-execution: a path is a list of decisions; a run follows a prefix of decisions,
then takes any feasible side of each new decision and queues the other one.
"""
import math
import os
import threading
import time
from fractions import Fraction

import numpy as _rnp
import z3

from symx import poly
from symx.pool import Pool


def _nb(b):
    """python bool -> numpy bool (so that `~` means logical not, as for the real scalars)"""
    return _rnp.bool_(b) if isinstance(b, bool) else b


SPECIAL = float
TRACE = bool(os.environ.get('SYMX_TRACE'))
_ctx = None


class Unsupported(Exception):
    """The code did something the encoding cannot express (never a verdict about the code)."""
    def __init__(self, msg=''):
        super().__init__(msg)
        if _ctx is not None and msg not in _ctx.unsupported:
            _ctx.unsupported.append(str(msg))


class PathAbort(BaseException):
    """The current path is over (assumption infeasible, budget exhausted)."""
    ended = 'infeasible'

    def __init__(self, *a):
        super().__init__(*a)
        if _ctx is not None and _ctx.ended is None:
            # remembered, in case the code under analysis swallows it
            _ctx.ended = self.ended


class PathLimit(PathAbort):
    ended = 'limit'


def ctx():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


_ZERO = Fraction(0)
_ONE = Fraction(1)
_RNG_STATE = [12345]


def _shadow_rand():
    # small deterministic LCG, used only for filters (never for verdicts)
    _RNG_STATE[0] = (_RNG_STATE[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
    return ((_RNG_STATE[0] >> 20) % (1 << 32)) / float(1 << 32)


def zr(v):
    """Fraction -> z3 real numeral."""
    v = Fraction(v)
    if v.denominator == 1:
        return z3.RealVal(v.numerator)
    return z3.RealVal("%d/%d" % (v.numerator, v.denominator))


def _isconst(t):
    return isinstance(t, Fraction)


def _term(t):
    return zr(t) if isinstance(t, Fraction) else t


def _norm_term(t):
    """z3 numerals back to Fraction."""
    if isinstance(t, Fraction):
        return t
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return t


def _tadd(a, b):
    if _isconst(a) and _isconst(b):
        return a + b
    if _isconst(a) and a == 0:
        return b
    if _isconst(b) and b == 0:
        return a
    return _term(a) + _term(b)


def _tsub(a, b):
    if _isconst(a) and _isconst(b):
        return a - b
    if _isconst(b) and b == 0:
        return a
    if not _isconst(a) and not _isconst(b) and a.eq(b):
        return _ZERO
    if _isconst(a) and a == 0:
        return -_term(b)
    return _term(a) - _term(b)


def _tmul(a, b):
    if _isconst(a) and _isconst(b):
        return a * b
    if _isconst(a):
        a, b = b, a
    if _isconst(b):
        if b == 0:
            return _ZERO
        if b == 1:
            return a
    return _term(a) * _term(b)


def _fterm(f):
    """product of a factor tuple as a term"""
    r = _ONE
    for e, p in f:
        for _ in range(p):
            r = _tmul(r, e)
    return r


def _fmul(f, g):
    if not f:
        return g
    if not g:
        return f
    d = {}
    for e, p in f + g:
        k = e.get_id()
        if k in d:
            d[k] = (e, d[k][1] + p)
        else:
            d[k] = (e, p)
    return tuple(d[k] for k in sorted(d))


def _flcm(f, g):
    """(lcm, lcm/f, lcm/g)"""
    if not f and not g:
        return (), (), ()
    df = {e.get_id(): (e, p) for e, p in f}
    dg = {e.get_id(): (e, p) for e, p in g}
    l, rf, rg = [], [], []
    for k in sorted(set(df) | set(dg)):
        e = (df.get(k) or dg.get(k))[0]
        pf = df[k][1] if k in df else 0
        pg = dg[k][1] if k in dg else 0
        p = max(pf, pg)
        l.append((e, p))
        if p > pf:
            rf.append((e, p - pf))
        if p > pg:
            rg.append((e, p - pg))
    return tuple(l), tuple(rf), tuple(rg)


def _fl(x):
    try:
        return float(x)
    except (OverflowError, ValueError):
        return float('nan')


# symbolic values that were formatted as text
FORMATTED = []


def numbers(text):
    """the numbers in a text, in order; symbolic ones as formatted by `Sym.__format__`"""
    import re
    out = []
    for m in re.finditer(r"<sym(\d+)>|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|\bnan\b|[-+]?\binf\b", text):
        out.append(FORMATTED[int(m.group(1))] if m.group(1) else float(m.group(0)))
    return out


class Sym:
    __slots__ = ('c', 'n', 'd', 'sh', 'isint', '_sqrt_of')

    def __init__(self, c=None, n=None, d=(), sh=None, isint=False):
        self.c = c
        self.n = n
        self.d = d
        self.sh = sh
        self.isint = isint
        self._sqrt_of = None

    # ---- construction
    @staticmethod
    def const(v, isint=False):
        if isinstance(v, Fraction):
            return Sym(c=v, sh=_fl(v), isint=isint)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return Sym(c=v, sh=v)
            return Sym(c=Fraction(v), sh=v)
        return Sym(c=Fraction(v), sh=_fl(v), isint=isint)

    @staticmethod
    def make(n, d, sh, isint=False):
        n = _norm_term(n) if not isinstance(n, Fraction) else n
        if isinstance(n, Fraction):
            if not d or n == 0:
                return Sym(c=n, sh=_fl(n), isint=isint)
        return Sym(c=None, n=n, d=d, sh=sh, isint=isint)

    @property
    def is_const(self):
        return self.c is not None

    @property
    def is_special(self):
        return isinstance(self.c, float)

    @property
    def is_nan(self):
        return isinstance(self.c, float) and math.isnan(self.c)

    def parts(self):
        if self.c is not None:
            return self.c, ()
        return self.n, self.d

    def term(self):
        """z3 term of the value (with division)."""
        n, d = self.parts()
        t = _term(n)
        if d:
            t = t / _term(_fterm(d))
        return t

    # ---- numpy-scalar protocol
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8
    itemsize = 8

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(int) if self.isint else numpy.dtype(float)

    def item(self, *a):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    @property
    def flat(self):
        from symx import snp
        return snp.asarray(self).flat

    def _arr(self):
        from symx import snp
        return snp.asarray(self)

    def squeeze(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def copy(self, *a, **k): return self
    def tolist(self): return self
    def ravel(self, *a, **k): return self._arr().reshape(1)
    def flatten(self, *a, **k): return self._arr().reshape(1)
    def reshape(self, *a, **k): return self._arr().reshape(*a)
    def astype(self, t, *a, **k):
        from symx import snp
        return snp.cast_scalar(self, snp.kind_of_dtype(t))
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def conjugate(self): return self
    def conj(self): return self
    def clip(self, lo=None, hi=None): return sclip(self, lo, hi)
    def round(self, *a): return sround(self, *a)
    def cumsum(self, *a, **k): return self.ravel()

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise Unsupported("pickling a symbolic value")

    def __getitem__(self, key):
        return self._arr()[key]

    # ---- arithmetic
    def _co(self, o):
        return to_sym(o, strict=False)

    def __add__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else sadd(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else ssub(self, o)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else ssub(o, self)

    def __mul__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else smul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else sdiv(self, o)

    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else sdiv(o, self)

    def __pow__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else spow(self, o)

    def __rpow__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else spow(o, self)

    def __floordiv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else sfloordiv(self, o)

    def __rfloordiv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else sfloordiv(o, self)

    def __mod__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else smod(self, o)

    def __rmod__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else smod(o, self)

    def __neg__(self):
        return smul(Sym.const(Fraction(-1), isint=True), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    fabs = __abs__

    # ---- comparison
    def __lt__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(slt(self, o))

    def __gt__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(slt(o, self))

    def __le__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(sle(self, o))

    def __ge__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(sle(o, self))

    def __eq__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(seq(self, o))

    def __ne__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else _nb(snot(seq(self, o)))

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        return hash((self.n.get_id() if not isinstance(self.n, Fraction) else self.n,
                     tuple((e.get_id(), p) for e, p in self.d)))

    # ---- conversion
    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return bool(snot(seq(self, Sym.const(0))))

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        _note_unsupported("float() of a symbolic value")
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.c is not None:
            if isinstance(self.c, float):
                return int(self.c)
            return int(math.trunc(self.c))
        return _ctx.concretize_int(strunc(self))

    def __trunc__(self):
        return int(self)

    def __index__(self):
        if self.isint or (self.c is not None and not self.is_special and self.isint):
            return int(self)
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __round__(self, nd=None):
        r = sround(self, nd or 0)
        return int(r) if nd is None else r

    def __floor__(self):
        return int(sfloor(self))

    def __ceil__(self):
        return int(sceil(self))

    def is_integer(self):
        return seq(sfloor(self), self)

    def __str__(self):
        if self.c is not None:
            return str(float(self.c)) if not self.isint else str(int(self.c))
        return "<sym>"
    __repr__ = __str__

    def __format__(self, spec):
        if self.c is not None:
            try:
                return format(int(self.c) if (self.isint and not self.is_special) else float(self.c), spec)
            except ValueError:
                return str(self)
        # `numbers` finds the value again
        FORMATTED.append(self)
        return "<sym%d>" % (len(FORMATTED) - 1)

    # object-dtype ufunc methods
    def sqrt(self): return ssqrt(self)
    def exp(self): return sexp(self)
    def log(self): return slog(self)
    def log10(self): return slog10(self)
    def floor(self): return sfloor(self)
    def ceil(self): return sceil(self)
    def rint(self): return sround(self)


class SymBool:
    """A symbolic boolean (never constant: `mkbool` folds constants to Python bools)."""
    __slots__ = ('e',)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e):
        self.e = e

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(bool)

    def __bool__(self):
        return _ctx.branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return _nb(mkbool(z3.And(self.e, o.e)))
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
            return self if o else _rnp.bool_(False)
        if isinstance(o, int):
            return sint_ite(self, 1 & o, 0 & o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return _nb(mkbool(z3.Or(self.e, o.e)))
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
            return _rnp.bool_(True) if o else self
        if isinstance(o, int):
            return sint_ite(self, 1 | o, 0 | o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        if isinstance(o, (bool,)) or type(o).__name__ in ('bool_', 'bool'):
            return mkbool(z3.Not(self.e)) if o else self
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return _nb(mkbool(z3.Not(self.e)))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
            return self if o else ~self
        if o is None:
            return False
        return self.num() == o

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(self.e.get_id())

    def num(self):
        return sint_ite(self, 1, 0)

    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o.num()
        return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o):
        if isinstance(o, SymBool):
            return self & o
        s = to_sym(o, strict=False)
        if s is None:
            return NotImplemented
        return site(self, s, Sym.const(0, isint=s.isint))
    def __rmul__(self, o): return self.__mul__(o)
    def __truediv__(self, o): return self.num() / o
    def __rtruediv__(self, o): return o / self.num()
    def __neg__(self): return -self.num()
    def __lt__(self, o): return self.num() < (o.num() if isinstance(o, SymBool) else o)
    def __gt__(self, o): return self.num() > (o.num() if isinstance(o, SymBool) else o)
    def __le__(self, o): return self.num() <= (o.num() if isinstance(o, SymBool) else o)
    def __ge__(self, o): return self.num() >= (o.num() if isinstance(o, SymBool) else o)

    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def squeeze(self, *a, **k): return self
    def sum(self, *a, **k): return self.num()
    def copy(self): return self
    def astype(self, t, *a, **k):
        from symx import snp
        return snp.cast_scalar(self, snp.kind_of_dtype(t))
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __str__(self): return "<symbool>"
    __repr__ = __str__
    def __format__(self, spec): return "<symbool>"


def _note_unsupported(msg):
    if _ctx is not None:
        _ctx.unsupported.append(msg)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if _ctx is not None:
        q = _ctx.quick_truth(e)
        if q is not None:
            return q
    return SymBool(e)


def bexpr(b):
    """bool / SymBool -> z3 Bool"""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, Sym):
        return bexpr(b != 0)
    return z3.BoolVal(bool(b))


def snot(b):
    if isinstance(b, SymBool):
        return ~b
    if b is NotImplemented:
        return b
    return not b


def sand(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(es)) if len(es) > 1 else mkbool(es[0])


def sor(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(es)) if len(es) > 1 else mkbool(es[0])


def to_sym(o, strict=True):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return o.num()
    if isinstance(o, bool):
        return Sym.const(int(o), isint=True)
    if isinstance(o, int):
        return Sym.const(o, isint=True)
    if isinstance(o, float):
        return Sym.const(o)
    if isinstance(o, Fraction):
        return Sym.const(o)
    tn = type(o)
    if tn.__module__ == 'numpy':
        import numpy
        if isinstance(o, numpy.bool_):
            return Sym.const(int(o), isint=True)
        if isinstance(o, numpy.integer):
            return Sym.const(int(o), isint=True)
        if isinstance(o, numpy.floating):
            return Sym.const(float(o))
        if isinstance(o, numpy.ndarray) and o.ndim == 0:
            return None if not strict else to_sym(o[()])
    if strict:
        raise TypeError("not a number: %r" % (type(o),))
    return None


def as_real(s):
    s = to_sym(s)
    if s.isint:
        n = s.n
        if s.c is None and not isinstance(n, Fraction) and n.sort() == z3.IntSort():
            n = z3.ToReal(n)
        return Sym(c=s.c, n=n, d=s.d, sh=s.sh, isint=False)
    return s


def _pint(a, b):
    return a.isint and b.isint


# -------- arithmetic on Sym

def sadd(a, b):
    if a.is_special or b.is_special:
        if a.is_nan or b.is_nan:
            return Sym.const(float('nan'))
        if a.is_special and b.is_special:
            return Sym.const(a.c + b.c)
        return a if a.is_special else b
    if a.c is not None and b.c is not None:
        return Sym.const(a.c + b.c, isint=_pint(a, b))
    if a.c is not None and a.c == 0:
        return b if (not b.isint or a.isint) else as_real(b)
    if b.c is not None and b.c == 0:
        return a if (not a.isint or b.isint) else as_real(a)
    na, da = a.parts()
    nb, db = b.parts()
    l, ra, rb = _flcm(da, db)
    n = _tadd(_tmul(na, _fterm(ra)), _tmul(nb, _fterm(rb)))
    return Sym.make(n, l, a.sh + b.sh, isint=_pint(a, b))


def ssub(a, b):
    if a.is_special or b.is_special:
        return sadd(a, smul(Sym.const(-1), b))
    if a.c is not None and b.c is not None:
        return Sym.const(a.c - b.c, isint=_pint(a, b))
    if b.c is not None and b.c == 0:
        return a if (not a.isint or b.isint) else as_real(a)
    na, da = a.parts()
    nb, db = b.parts()
    l, ra, rb = _flcm(da, db)
    n = _tsub(_tmul(na, _fterm(ra)), _tmul(nb, _fterm(rb)))
    return Sym.make(n, l, a.sh - b.sh, isint=_pint(a, b))


def smul(a, b):
    if a.is_special or b.is_special:
        if a.is_nan or b.is_nan:
            return Sym.const(float('nan'))
        if a.c is not None and b.c is not None:
            return Sym.const(float(a.c) * float(b.c))
        inf, x = (a, b) if a.is_special else (b, a)
        sg = _ctx.sign(x)
        if sg == 0:
            return Sym.const(float('nan'))
        return Sym.const(inf.c * sg)
    if a.c is not None and b.c is not None:
        return Sym.const(a.c * b.c, isint=_pint(a, b))
    if a.c is not None and a.c == 1 and (a.isint or not b.isint):
        return b
    if b.c is not None and b.c == 1 and (b.isint or not a.isint):
        return a
    # sqrt(x) * sqrt(x) == x
    if a._sqrt_of is not None and b._sqrt_of is not None and a.n.eq(b.n) and _dsame(a.d, b.d):
        return a._sqrt_of
    na, da = a.parts()
    nb, db = b.parts()
    if da and not isinstance(nb, Fraction):
        da, nb = _cancel(da, nb)
    if db and not isinstance(na, Fraction):
        db, na = _cancel(db, na)
    return Sym.make(_tmul(na, nb), _fmul(da, db), a.sh * b.sh, isint=_pint(a, b))


def _dsame(f, g):
    return len(f) == len(g) and all(e.eq(h) and p == q for (e, p), (h, q) in zip(f, g))


def _cancel(f, n):
    """cancel term n against the factors f when it is structurally one of them"""
    nid = None
    for i, (e, p) in enumerate(f):
        if e.eq(n):
            nid = i
            break
    if nid is None:
        return f, n
    e, p = f[nid]
    f = f[:nid] + (((e, p - 1),) if p > 1 else ()) + f[nid + 1:]
    return f, _ONE


_CANON = {}


def _canon(t):
    """canonical form of a denominator term: sum-of-monomials when small; returns (const, term)"""
    k = t.get_id()
    if k in _CANON:
        return _CANON[k][1]
    r = t
    try:
        r = z3.simplify(t, som=True, flat=True)
        if _size(r, 400) >= 400:
            r = t
    except z3.Z3Exception:
        r = t
    out = (_ONE, r)
    r2 = _norm_term(r)
    if isinstance(r2, Fraction):
        out = (r2, None)
    elif z3.is_mul(r) and z3.is_rational_value(r.arg(0)) and r.num_args() == 2:
        out = (_norm_term(r.arg(0)), r.arg(1))
    elif z3.is_mul(r) and z3.is_rational_value(r.arg(0)):
        rest = r.arg(1)
        for i in range(2, r.num_args()):
            rest = rest * r.arg(i)
        out = (_norm_term(r.arg(0)), rest)
    _CANON[k] = (t, out)
    return out


def _size(t, lim):
    n = 0
    st = [t]
    while st and n < lim:
        x = st.pop()
        n += 1
        st.extend(x.children())
    return n


def sdiv(a, b):
    if a.is_nan or b.is_nan:
        return Sym.const(float('nan'))
    if b.is_special:
        if a.is_special:
            return Sym.const(float('nan'))
        return Sym.const(0)
    if b.c is not None:
        if b.c == 0:
            sg = _ctx.sign(a) if not (a.c is not None) else ((a.c > 0) - (a.c < 0))
            _ctx.events['div0'] = _ctx.events.get('div0', 0) + 1
            return Sym.const(float('nan') if sg == 0 else float('inf') * sg)
        if a.is_special:
            return Sym.const(a.c if b.c > 0 else -a.c)
        if a.c is not None:
            return Sym.const(a.c / b.c)
        a = as_real(a)
        return Sym.make(_tmul(a.n, 1 / b.c), a.d, a.sh / _fl(b.c))
    b = as_real(b)
    sg = _ctx.sign(b)
    if sg == 0:
        return sdiv(a, Sym.const(0))
    if a.is_special:
        return Sym.const(a.c * sg)
    a = as_real(a)
    if sg < 0:
        a = smul(Sym.const(-1), a)
        b = smul(Sym.const(-1), b)
    na, da = a.parts()
    nb, db = b.parts()
    if isinstance(nb, Fraction):     # const / den
        n = _tmul(_tmul(na, 1 / nb), _fterm(db))
        return Sym.make(n, da, a.sh / b.sh if b.sh else float('nan'))
    k, f = _canon(nb)
    if f is None:
        return sdiv(a, smul(Sym.const(k), sdiv(Sym.const(1), Sym.make(_fterm(db), (), 1.0))))
    if k < 0:
        k, f = -k, z3.simplify(-f, som=True)
    # cancel common denominator factors
    da, db = _common(da, db)
    db_t = _fterm(db)
    n = _tmul(na, db_t)
    if not isinstance(n, Fraction) and n.eq(f):
        return Sym.make(1 / k, da, a.sh / b.sh if b.sh else float('nan'))
    if not isinstance(na, Fraction):
        k2, f2 = _canon(na)
        if f2 is not None and f2.eq(f):
            return Sym.make(_tmul(k2 / k, db_t), da, a.sh / b.sh if b.sh else float('nan'))
    n = _tmul(n, 1 / k)
    return Sym.make(n, _fmul(da, ((f, 1),)), a.sh / b.sh if b.sh else float('nan'))


def _common(f, g):
    if not f or not g:
        return f, g
    df = {e.get_id(): (e, p) for e, p in f}
    dg = {e.get_id(): (e, p) for e, p in g}
    for k in list(df):
        if k in dg:
            m = min(df[k][1], dg[k][1])
            for d in (df, dg):
                e, p = d[k]
                if p == m:
                    del d[k]
                else:
                    d[k] = (e, p - m)
    return tuple(df[k] for k in sorted(df)), tuple(dg[k] for k in sorted(dg))


def slt(a, b):
    """a < b"""
    if a.is_nan or b.is_nan:
        return False
    if a.c is not None and b.c is not None:
        return a.c < b.c
    if a.is_special:
        return a.c < 0
    if b.is_special:
        return b.c > 0
    d = ssub(a, b)
    if d.c is not None:
        return d.c < 0
    return mkbool(_term(d.n) < 0)


def sle(a, b):
    if a.is_nan or b.is_nan:
        return False
    if a.c is not None and b.c is not None:
        return a.c <= b.c
    if a.is_special:
        return a.c < 0
    if b.is_special:
        return b.c > 0
    d = ssub(a, b)
    if d.c is not None:
        return d.c <= 0
    return mkbool(_term(d.n) <= 0)


def seq(a, b):
    if a.is_nan or b.is_nan:
        return False
    if a.c is not None and b.c is not None:
        return a.c == b.c
    if a.is_special or b.is_special:
        return False
    d = ssub(a, b)
    if d.c is not None:
        return d.c == 0
    return mkbool(_term(d.n) == 0)


def site(c, a, b):
    """if c then a else b, merged (no fork) when possible"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, _rnp.bool_, SymBool)) and isinstance(b, (bool, _rnp.bool_, SymBool)):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    a, b = to_sym(a), to_sym(b)
    if a.is_special or b.is_special:
        return a if bool(c) else b
    if a is b:
        return a
    isint = _pint(a, b)
    na, da = a.parts()
    nb, db = b.parts()
    if not isinstance(na, Fraction) and not isinstance(nb, Fraction) and na.eq(nb) and da == db:
        return a
    if a.c is not None and b.c is not None and a.c == b.c:
        return Sym.const(a.c, isint=isint)
    l, ra, rb = _flcm(da, db)
    ta, tb = _term(_tmul(na, _fterm(ra))), _term(_tmul(nb, _fterm(rb)))
    if ta.sort() != tb.sort():
        ta = z3.ToReal(ta) if ta.sort() == z3.IntSort() else ta
        tb = z3.ToReal(tb) if tb.sort() == z3.IntSort() else tb
    # name the value: keeps arithmetic over it polynomial in an atom
    key = (c.e.get_id(), ta.get_id(), tb.get_id())
    known = _ctx.ite_memo.get(key)
    if known is not None:
        return Sym.make(known[0], l, a.sh, isint=isint)
    v = _ctx.fresh('ite', z3.RealSort() if ta.sort() == z3.RealSort() else z3.IntSort())
    _ctx.ite_memo[key] = (v, c.e, ta, tb)
    _ctx.define(v, z3.And(z3.Implies(c.e, v == ta), z3.Implies(z3.Not(c.e), v == tb)))
    _ctx.ite_defs[v.decl().name()] = (c.e, ta, tb)
    sa = _ctx.term_sign(ta)
    if sa in ('pos', 'nonneg', 'zero'):
        sb = _ctx.term_sign(tb)
        if sb in ('pos', 'nonneg', 'zero'):
            _ctx.pos_vars[v.decl().name()] = 'pos' if sa == sb == 'pos' else 'nonneg'
    return Sym.make(v, l, a.sh, isint=isint)


def sint_ite(c, x, y):
    return site(c, Sym.const(x, isint=True), Sym.const(y, isint=True))


def smax(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.is_nan or b.is_nan:
        return Sym.const(float('nan'))
    r = site(sle(b, a), a, b)
    return _with_sh(r, max(a.sh, b.sh))


def smin(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.is_nan or b.is_nan:
        return Sym.const(float('nan'))
    r = site(sle(a, b), a, b)
    return _with_sh(r, min(a.sh, b.sh))


def sabs(a):
    a = to_sym(a)
    if a.c is not None:
        return Sym.const(abs(a.c), isint=a.isint)
    r = site(slt(a, Sym.const(0, isint=True)), smul(Sym.const(-1, isint=True), a), a)
    return _with_sh(r, abs(a.sh))


def _with_sh(r, sh):
    if r.c is not None:
        return r
    return Sym(n=r.n, d=r.d, sh=sh, isint=r.isint)


def sclip(a, lo, hi):
    a = to_sym(a)
    if lo is not None:
        a = smax(a, lo)
    if hi is not None:
        a = smin(a, hi)
    return a


def sfloor(a):
    a = to_sym(a)
    if a.isint or a.is_special:
        return a
    if a.c is not None:
        return Sym.const(Fraction(math.floor(a.c)))
    v = _ctx.fresh('floor', z3.IntSort())
    r = z3.ToReal(v)
    n, d = a.parts()
    dt = _term(_fterm(d))
    _ctx.define(v, z3.And(r * dt <= _term(n), _term(n) < (r + 1) * dt))
    _ctx.evalf[v.decl().name()] = lambda pool: _rnp.floor(pool.symval(a))
    return Sym.make(r, (), math.floor(a.sh) if math.isfinite(a.sh) else a.sh)


def sceil(a):
    return smul(Sym.const(-1), sfloor(smul(Sym.const(-1), to_sym(a))))


def strunc(a):
    a = to_sym(a)
    if a.isint:
        return a
    r = site(sle(Sym.const(0), a), sfloor(a), sceil(a))
    return r


def sround(a, nd=0):
    a = to_sym(a)
    if a.isint or a.is_special:
        return a
    if nd:
        k = Sym.const(Fraction(10) ** int(nd))
        return sdiv(sround(smul(a, k)), k)
    if a.c is not None:
        return Sym.const(Fraction(round(a.c)))
    # round half to even
    f = sfloor(sadd(a, Sym.const(Fraction(1, 2))))
    tie = seq(sadd(a, Sym.const(Fraction(1, 2))), f)
    h = smul(Sym.const(2), sfloor(smul(f, Sym.const(Fraction(1, 2)))))
    odd = snot(seq(h, f))
    return site(sand(tie, odd), ssub(f, Sym.const(1)), f)


def sfloordiv(a, b):
    q = sdiv(a, b)
    r = sfloor(q)
    if a.isint and b.isint:
        r = Sym(c=r.c, n=r.n, d=r.d, sh=r.sh, isint=True)
    return r


def smod(a, b):
    r = ssub(a, smul(b, sfloordiv(a, b)))
    return r


def _fsqrt(c):
    if c < 0:
        return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if p * p == c.numerator and q * q == c.denominator:
        return Fraction(p, q)
    return None


def ssqrt(a):
    a = as_real(a)
    if a.is_special:
        return a if a.is_nan or a.c > 0 else Sym.const(float('nan'))
    if a.c is not None:
        if a.c < 0:
            return Sym.const(float('nan'))
        r = _fsqrt(a.c)
        if r is not None:
            return Sym.const(r)
        if a.c.denominator > 10**7 or a.c.numerator > 10**9 or _ctx.opts.get('fold_sqrt'):
            return Sym.const(math.sqrt(a.c))      # the constant itself is already a rounded one
    else:
        neg = slt(a, Sym.const(0))
        if neg is True:
            return Sym.const(float('nan'))
        if isinstance(neg, SymBool):
            if bool(neg):
                _ctx.events['sqrt<0'] = _ctx.events.get('sqrt<0', 0) + 1
                return Sym.const(float('nan'))
    if a.d:
        # sqrt(n/d) = sqrt(n*f)/g with g*g = d*f: the argument of the root stays polynomial
        f, g = [], []
        for e, p in a.d:
            if p % 2:
                f.append((e, 1))
            g.append((e, (p + 1) // 2))
        n, g = _tmul(a.n, _fterm(tuple(f))), tuple(g)
        b = Sym.make(n, (), a.sh * (_ctx.term_shadow(tuple(f)) if f else 1.0))
        r = _ctx.opaque('sqrt', b)
        r = Sym.make(r.n, g, math.sqrt(a.sh) if a.sh >= 0 else float('nan'))
        r._sqrt_of = a
        return r
    return _ctx.opaque('sqrt', a)


def _mon_sqrt(v, a):
    n, d = a.parts()
    return z3.And(v >= 0, v * v * _term(_fterm(d)) == _term(n))


def sexp(a):
    a = as_real(a)
    if a.c is not None:
        if a.c == 0:
            return Sym.const(1)
        try:
            return Sym.const(math.exp(a.c))
        except OverflowError:
            return Sym.const(float('inf'))
    return _ctx.opaque('exp', a)


def slog(a, base='log'):
    a = as_real(a)
    if a.is_special:
        return a if (a.is_nan or a.c > 0) else Sym.const(float('nan'))
    if a.c is not None:
        if a.c == 0:
            return Sym.const(float('-inf'))
        if a.c < 0:
            return Sym.const(float('nan'))
        f = {'log': math.log, 'log10': math.log10, 'log2': math.log2}[base]
        if base == 'log10':
            for k in range(-12, 13):
                if a.c == Fraction(10) ** k:
                    return Sym.const(k)
        if a.c == 1:
            return Sym.const(0)
        return Sym.const(f(a.c))
    sg = _ctx.sign(a)
    if sg == 0:
        return Sym.const(float('-inf'))
    if sg < 0:
        return Sym.const(float('nan'))
    inv = _ctx.inverse_of(a, {'log': 'exp', 'log10': 'pow10', 'log2': 'pow2'}[base])
    if inv is not None:
        return inv
    return _ctx.opaque(base, a)


def slog10(a):
    return slog(a, 'log10')


def slog2(a):
    return slog(a, 'log2')


def spow(a, b):
    if b.c is not None and not b.is_special:
        p = b.c
        if p.denominator == 1:
            p = int(p)
            if p == 0:
                return Sym.const(1, isint=_pint(a, b))
            if p == 1:
                return a if b.isint else as_real(a)
            if a._sqrt_of is not None and p == 2:
                return a._sqrt_of
            if a.c is not None and not a.is_special and abs(p) < 512:
                if a.c == 0 and p < 0:
                    return Sym.const(float('inf'))
                return Sym.const(a.c ** p, isint=_pint(a, b) and p > 0)
            if a.is_special:
                return Sym.const(float(a.c) ** p)
            r = a
            for _ in range(abs(p) - 1):
                r = smul(r, a)
            if p < 0:
                r = sdiv(Sym.const(1), r)
            elif not b.isint:
                r = as_real(r)
            return r
        if p == Fraction(1, 2):
            return ssqrt(a)
        if p == Fraction(-1, 2):
            return sdiv(Sym.const(1), ssqrt(a))
        a = as_real(a)
        q = p.limit_denominator(1000)
        if q != p and abs(q - p) < Fraction(1, 10**15):
            p = q           # a rounded -1/6 is -1/6
        if a.c is not None:
            try:
                r = float(a.c) ** float(p)
            except ZeroDivisionError:
                r = float('inf')
            if isinstance(r, complex):
                r = float('nan')
            return Sym.const(r)
        sg = _ctx.sign(a)
        if sg == 0:
            return Sym.const(0) if p > 0 else Sym.const(float('inf'))
        if sg < 0:
            return Sym.const(float('nan'))
        if p.denominator == 2:       # x**(k/2)
            return spow(ssqrt(a), Sym.const(p.numerator))
        return _ctx.opaque('pow', a, p)
    if a.c is not None and b.c is not None:
        try:
            return Sym.const(float(a.c) ** float(b.c))
        except (OverflowError, ZeroDivisionError):
            return Sym.const(float('inf'))
    if a.c is not None and a.c in (10, 2) and not b.is_special:
        base = {10: 'log10', 2: 'log2'}[int(a.c)]
        inv = _ctx.inverse_of(b, base)
        if inv is not None:
            return inv
        return _ctx.opaque('pow%d' % int(a.c), as_real(b))
    if a.c is not None and b.is_special:
        return Sym.const(float(a.c) ** float(b.c))
    raise Unsupported("symbolic exponent")


# -------- opaque (uninterpreted / axiomatised) functions
# name -> (python function for shadows, monotone direction, range axiom)
_OPQ = {
    'sqrt': (lambda x: math.sqrt(x), +1, None),
    'exp': (lambda x: math.exp(x), +1, lambda v: v > 0),
    'pow10': (lambda x: 10.0 ** x, +1, lambda v: v > 0),
    'pow2': (lambda x: 2.0 ** x, +1, lambda v: v > 0),
    'log': (lambda x: math.log(x), +1, None),
    'log10': (lambda x: math.log10(x), +1, None),
    'log2': (lambda x: math.log2(x), +1, None),
}


def _vecf(f):
    def one(t):
        try:
            return float(f(float(t)))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return float('nan')
    return lambda arr: _rnp.array([one(t) for t in arr])


def _pkey(p):
    """(sign, key) of a polynomial up to a nonzero factor"""
    m0 = min(p)
    s = p[m0]
    return (1 if s > 0 else -1), tuple(sorted((m, c / s) for m, c in p.items()))


class PC(list):
    """path condition: appending a condition also records its cheap consequences"""
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def append(self, e):
        super().append(e)
        self.ctx.note(e)


class Obligation:
    __slots__ = ('label', 'status', 'model', 'detail', 'kind', 'secs')

    def __init__(self, label, status, kind='', model=None, detail='', secs=0.0):
        self.label, self.status, self.kind, self.model, self.detail, self.secs = \
            label, status, kind, model, detail, secs


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.feas = 0
        self.sampled = 0
        self.poly = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), sat=self.sat,
                    unsat=self.unsat, unknown=self.unknown, sampled=self.sampled, poly=self.poly)


def _vars_of(e, cache):
    k = e.get_id()
    hit = cache.get(k)
    if hit is not None:
        return hit[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = cache.get(i)
        if h is not None:
            out |= h[1]
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    out = frozenset(out)
    cache[k] = (e, out)
    return out


class Ctx:
    """One path execution."""

    def __init__(self, prefix, stats, opts):
        self.ended = None
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []          # alternative prefixes discovered on this path
        self.pc = PC(self)         # list of z3 Bool
        self.known = {}            # condition id -> truth on this path
        self.facts = {}            # polynomial (up to scale) -> known sign on this path
        self.pos_vars = {}         # variable -> known sign
        self._qt = {}
        self._qv = 0
        self.defs = {}             # definitional constraints: name -> expr
        self.stats = stats
        self.opts = opts
        self.counter = {}
        self.inputs = []           # (name, z3 var, meta)
        self.script = []           # concrete decisions visible to the replay: (name, value)
        self.rng = []              # rng draws: ('real', z3 term Sym) or ('int', value)
        self.obligations = []
        self.unsupported = []
        self.events = {}
        self._opq = {}
        self._inv = {}
        self._signs = {}
        self._vcache = {}
        self._model = None
        self._eqcache = {}
        self.t0 = time.time()
        self.deadline = opts.get('deadline')
        self.nchecks = 0
        self.funcs = set()
        self.ite_defs = {}
        self.ite_memo = {}         # if-then-else variable -> (condition, then, else)
        self.const_sqrt = {}       # root of a constant -> its double
        self.sqrt_args = {}        # square-root variable -> (numerator, denominator or None)
        self.evalf = {}            # variable -> numeric evaluation on the sample pool
        self.pool = Pool(self)
        self.shadows = {}
        self.ckeys = {}
        self._conv = None

    def term_shadow(self, factors):
        r = 1.0
        try:
            for e, p in factors:
                m = z3.simplify(z3.substitute(e, *self._shsub(e)))
                m = _norm_term(m)
                r *= _fl(m) ** p if isinstance(m, Fraction) else float('nan')
        except z3.Z3Exception:
            return float('nan')
        return r

    def _shsub(self, e):
        out = []
        for nm in _vars_of(e, self._vcache):
            sv = self.shadows.get(nm)
            if sv is not None and math.isfinite(sv[1]):
                out.append((sv[0], zr(Fraction(sv[1])) if sv[0].sort() == z3.RealSort() else z3.IntVal(int(sv[1]))))
        return out

    # ---- names
    def fresh(self, base, sort=None):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return z3.Const("%s!%d" % (base, k), z3.RealSort() if sort is None else sort)

    def define(self, v, e):
        self.defs[v.decl().name()] = e

    def new_real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = z3.Real(name)
        sh = _shadow_rand() * 2 - 0.7
        if lo is not None:
            flo = float(lo.c if isinstance(lo, Sym) and lo.c is not None else (lo if not isinstance(lo, Sym) else lo.sh))
            sh = flo + abs(sh) + 0.01
        if hi is not None:
            fhi = float(hi.c if isinstance(hi, Sym) and hi.c is not None else (hi if not isinstance(hi, Sym) else hi.sh))
            if lo is not None:
                sh = flo + (fhi - flo) * (0.05 + 0.9 * _shadow_rand())
            else:
                sh = fhi - abs(sh) - 0.01
        s = Sym(n=v, d=(), sh=sh)
        self.shadows[name] = (v, sh)
        self.pool.add_real(name, None if lo is None else flo, None if hi is None else fhi)
        if lo is not None:
            self.assume((s > lo) if lo_strict else (s >= lo), check=False)
        if hi is not None:
            self.assume((s < hi) if hi_strict else (s <= hi), check=False)
        return s

    def new_int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        s = Sym(n=v, d=(), sh=float((lo or 0) + 1), isint=True)
        self.shadows[name] = (v, s.sh)
        self.pool.add_int(name, lo, hi)
        if lo is not None:
            self.pc.append(v >= int(lo))
        if hi is not None:
            self.pc.append(v <= int(hi))
        self._model = None
        return s

    # ---- solver
    def _closure(self, exprs):
        """path condition and definitions in the cone of influence of exprs"""
        vars_ = set()
        for e in exprs:
            vars_ |= _vars_of(e, self._vcache)
        pend = [(c, _vars_of(c, self._vcache)) for c in self.pc]
        chosen = []
        defs_used = set()
        changed = True
        while changed:
            changed = False
            for nm in list(vars_):
                if nm in self.defs and nm not in defs_used:
                    defs_used.add(nm)
                    vars_ |= _vars_of(self.defs[nm], self._vcache)
                    changed = True
            rest = []
            for c, vs in pend:
                if vs & vars_ or not vs:
                    chosen.append(c)
                    if not vs <= vars_:
                        vars_ |= vs
                        changed = True
                else:
                    rest.append((c, vs))
            pend = rest
        return [self.defs[nm] for nm in sorted(defs_used)] + chosen

    def solve(self, extra, timeout=None, want_model=False, full=False):
        """check pc /\\ extra; returns ('sat'|'unsat'|'unknown', model)"""
        cons = self._closure(extra)
        if full:
            cons = list(self.defs.values()) + self.pc
        t = time.time()
        r, m = decide(cons + list(extra), timeout or self.opts.get('timeout', 5.0), want_model)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, m

    def refute(self, extra, timeout=None):
        """like solve, but a 'sat' of the relevant part of the constraints is checked against all of them"""
        r, m = self.solve(extra, timeout)
        if r == 'sat':
            r2, _ = self.solve(extra, timeout, full=True)
            if r2 == 'unsat':
                return 'unsat', None
        return r, m

    def feasible(self, e):
        q = self.quick_truth(e)
        if q is not None:
            return q
        m = self.pool.possible(e)
        if m is not None and m.any():
            self.stats.sampled += 1
            return True
        r, m = self.solve([e], timeout=self.opts.get('feas_timeout', 1.5))
        self.stats.feas += 1
        return r != 'unsat'

    # ---- forking
    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time")

    def branch(self, e):
        """decide a symbolic condition"""
        self._tick()
        if TRACE and self.pos >= len(self.prefix):
            import traceback
            fr = [f for f in traceback.extract_stack() if '/symx/' not in f.filename][-1]
            print("   branch %d %s:%s %s" % (self.pos, fr.filename[-20:], fr.lineno, str(e).replace("\n", " ")[:150]))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d[1]:                      # forced (no constraint needed: other side infeasible)
                self._add(e if d[0] else z3.Not(e), forced=True)
            else:
                self._add(e if d[0] else z3.Not(e))
            return d[0]
        ft = self.feasible(e)
        ff = self.feasible(z3.Not(e)) if ft else True
        self.pos += 1
        if ft and ff:
            self.pending.append(self.decisions + [(False, False)])
            self.decisions.append((True, False))
            self._add(e)
            return True
        val = bool(ft)
        self.decisions.append((val, True))
        self._add(e if val else z3.Not(e), forced=True)
        return val

    def _add(self, e, forced=False):
        # a forced condition is implied by the path condition; keep it anyway when cheap (helps later)
        if not forced or self.opts.get('keep_forced', True):
            self.pc.append(e)

    def choose(self, k, conds=None):
        """fork over k alternatives (optionally guarded by conditions); returns the index"""
        self._tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if conds is not None and isinstance(conds[d[0]], SymBool):
                self._add(conds[d[0]].e)
            return d[0]
        ok = []
        for i in range(k):
            if conds is None:
                ok.append(i)
            else:
                c = conds[i]
                if isinstance(c, SymBool):
                    if self.feasible(c.e):
                        ok.append(i)
                elif c:
                    ok.append(i)
        self.pos += 1
        if not ok:
            raise PathAbort("no alternative")
        for i in ok[1:]:
            self.pending.append(self.decisions + [(i, False)])
        i = ok[0]
        self.decisions.append((i, False))
        if conds is not None and isinstance(conds[i], SymBool):
            self._add(conds[i].e)
        return i

    def concretize_int(self, s, limit=None):
        """fork over the integer values of s"""
        limit = limit or self.opts.get('int_limit', 12)
        s = to_sym(s)
        if s.c is not None:
            return int(s.c)
        for _ in range(limit):
            # propose a value from a model of the current path
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                val, taken = d[0]
                e = bexpr(seq(s, Sym.const(val, isint=True)))
                self.pc.append(e if taken else z3.Not(e))
                if taken:
                    return val
                continue
            t = _term(s.n)
            if s.d:
                t = s.term()
            r, m = self.solve([t == t], want_model=True)
            if r != 'sat':
                # no further value
                if r == 'unsat':
                    raise PathAbort("no further integer value")
                raise Unsupported("integer value undecided")
            mv = m.eval(t, model_completion=True)
            try:
                val = int(math.floor(model_frac(mv)))
            except Exception:
                raise Unsupported("integer value")
            e = bexpr(seq(s, Sym.const(val, isint=True)))
            self.pos += 1
            if self.feasible(z3.Not(e)):
                self.pending.append(self.decisions + [((val, False), False)])
            self.decisions.append(((val, True), False))
            self.pc.append(e)
            return val
        self.unsupported.append("more than %d integer values" % limit)
        raise PathLimit("int")

    def assume(self, c, check=True):
        if isinstance(c, SymBool):
            self.pc.append(c.e)
            if check and not self.feasible(z3.BoolVal(True) if not self.pc else c.e):
                raise PathAbort("assumption infeasible")
        elif not c:
            raise PathAbort("assumption false")

    # ---- sign of a symbolic value (forks when it is not determined)
    def sign(self, s):
        if s.c is not None:
            return (s.c > 0) - (s.c < 0)
        n, _ = s.parts()      # den > 0
        if isinstance(n, Fraction):
            return (n > 0) - (n < 0)
        q = {'pos': 1, 'neg': -1, 'zero': 0}.get(self.term_sign(n))
        if q is not None:
            return q
        k = n.get_id()
        h = self._signs.get(k)
        if h is not None:
            return h[1]
        pos = z3.simplify(n > 0)
        zero = z3.simplify(n == 0)
        neg = z3.simplify(n < 0)
        i = self.choose3((pos, neg, zero))
        sg = (1, -1, 0)[i]
        self._signs[k] = (n, sg)
        return sg

    def choose3(self, alts):
        self._tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if not z3.is_true(alts[d[0]]):
                self.pc.append(alts[d[0]])
            return d[0]
        ok = []
        for i, e in enumerate(alts):
            if z3.is_false(e):
                continue
            if z3.is_true(e):
                ok = [i]
                break
            if i == 2 and not ok:
                ok.append(i)
                continue
            if self.feasible(e):
                ok.append(i)
        self.pos += 1
        for i in ok[1:]:
            self.pending.append(self.decisions + [(i, False)])
        i = ok[0]
        self.decisions.append((i, False))
        if not z3.is_true(alts[i]):
            self.pc.append(alts[i])
        return i

    # ---- cheap syntactic facts (polynomials with terms of one sign; conditions already decided on this path)
    def conv(self):
        if self._conv is None:
            self._conv = poly.Conv(self)
        return self._conv

    def poly_sign(self, p):
        """(lo, hi): known bounds of the sign of a polynomial: 1 means > 0, 0 means >= 0 (for lo), None unknown"""
        if not p:
            return 'zero'
        strict = False
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            st = True
            for nm, e in m:
                k = self.pos_vars.get(nm)
                if k == 'pos' or (k == 'nonzero' and e % 2 == 0):
                    continue
                if k == 'neg':
                    if e % 2:
                        s = -s
                    continue
                if k == 'nonneg' or e % 2 == 0:
                    st = False
                    continue
                return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
            strict = strict or st
        return {(1, True): 'pos', (1, False): 'nonneg', (-1, True): 'neg', (-1, False): 'nonpos'}[(sg, strict)]

    def term_sign(self, t):
        try:
            if _size(t, 250) >= 250:
                return None
            return self.poly_sign(self.conv().conv(t))
        except (poly.TooBig, poly.NotPoly, z3.Z3Exception):
            return None

    def quick_truth(self, e, depth=0):
        k = e.get_id()
        h = self.known.get(k)
        if h is not None:
            return h[1]
        kd = e.decl().kind()
        if kd == z3.Z3_OP_NOT:
            r = self.quick_truth(e.arg(0), depth)
            return None if r is None else not r
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR) and depth < 4 and e.num_args() <= 40:
            dom = kd == z3.Z3_OP_OR
            allk = True
            for c in e.children():
                r = self.quick_truth(c, depth + 1)
                if r is None:
                    allk = False
                elif r == dom:
                    return dom
            return (not dom) if allk else None
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(e.arg(0)):
            h = self._qt.get(k)
            if h is None or h[1] != self._qv:
                h = (e, self._qv, self._quick_atom(e, kd))
                self._qt[k] = h
            return h[2]
        return None

    def _quick_atom(self, e, kd):
        try:
            if _size(e, 250) >= 250:
                return None
            p = poly.padd(self.conv().conv(e.arg(0)), self.conv().conv(e.arg(1)), -1)
        except (poly.TooBig, poly.NotPoly, z3.Z3Exception):
            return None
        if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            p = {m: -c for m, c in p.items()}
            kd = z3.Z3_OP_LE if kd == z3.Z3_OP_GE else z3.Z3_OP_LT
        s = self.poly_sign(p)
        if kd == z3.Z3_OP_EQ:
            return True if s == 'zero' else (False if s in ('pos', 'neg') else None)
        if kd == z3.Z3_OP_LE:
            r = True if s in ('zero', 'neg', 'nonpos') else (False if s == 'pos' else None)
        else:
            r = True if s == 'neg' else (False if s in ('zero', 'pos', 'nonneg') else None)
        if r is not None:
            return r
        # the same comparison (up to a positive factor) decided before
        sg, key = _pkey(p)
        f = self.facts.get(key)
        if f is not None:
            lo = f if sg > 0 else {'neg': 'pos', 'pos': 'neg', 'nonpos': 'nonneg', 'nonneg': 'nonpos'}[f]
            if kd == z3.Z3_OP_LE:
                return True if lo in ('neg', 'nonpos') else (False if lo == 'pos' else None)
            return True if lo == 'neg' else (False if lo in ('pos', 'nonneg') else None)
        return None

    def note(self, e):
        """record the consequences of a condition that holds on this path"""
        self._qv += 1
        if z3.is_and(e):
            for c in e.children():
                self.note(c)
            return
        neg = False
        x = e
        while z3.is_not(x):
            x, neg = x.arg(0), not neg
        self.known[x.get_id()] = (x, not neg)
        if neg and z3.is_or(x):
            for c in x.children():
                self.note(z3.Not(c))
            return
        kd = x.decl().kind()
        if kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or _size(x, 250) >= 250:
            return
        try:
            p = poly.padd(self.conv().conv(x.arg(0)), self.conv().conv(x.arg(1)), -1)
        except (poly.TooBig, poly.NotPoly, z3.Z3Exception):
            return
        if not p:
            return
        rel = {z3.Z3_OP_LE: 'nonpos', z3.Z3_OP_LT: 'neg', z3.Z3_OP_GE: 'nonneg', z3.Z3_OP_GT: 'pos'}[kd]
        if neg:
            rel = {'nonpos': 'pos', 'neg': 'nonneg', 'nonneg': 'neg', 'pos': 'nonpos'}[rel]
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                r2 = rel if c > 0 else {'neg': 'pos', 'pos': 'neg', 'nonpos': 'nonneg', 'nonneg': 'nonpos'}[rel]
                old = self.pos_vars.get(m[0][0])
                if r2 in ('pos', 'neg') or (r2 == 'nonneg' and old is None):
                    self.pos_vars[m[0][0]] = r2
        sg, key = _pkey(p)
        if sg < 0:
            rel = {'neg': 'pos', 'pos': 'neg', 'nonpos': 'nonneg', 'nonneg': 'nonpos'}[rel]
        old = self.facts.get(key)
        if old is None or rel in ('pos', 'neg'):
            self.facts[key] = rel

    def cross(self, a, b):
        """numerators of a and b over their common denominator (z3 terms)"""
        na, da = a.parts()
        nb, db = b.parts()
        l, ra, rb = _flcm(da, db)
        return _term(_tmul(na, _fterm(ra))), _term(_tmul(nb, _fterm(rb)))

    def poly_identical(self, a, b, rtol=0):
        try:
            cv = self.conv()
            ta, tb = self.cross(a, b)
            p, q = cv.conv(ta), cv.conv(tb)
            return poly.close(p, q, rtol, self) is not None
        except (poly.TooBig, poly.NotPoly, z3.Z3Exception, ZeroDivisionError):
            return False

    # ---- opaque functions with semantic hash-consing
    def provably_equal(self, a, b, timeout=1.0):
        if a is b:
            return True
        if a.c is not None and b.c is not None:
            return a.c == b.c
        if a.is_special or b.is_special:
            return False
        if math.isfinite(a.sh) and math.isfinite(b.sh):
            if abs(a.sh - b.sh) > 1e-6 * (1 + abs(a.sh) + abs(b.sh)):
                # different at the shadow point: not identical as functions; they could still be
                # equal under the path condition (an equation fixed by a branch), so ask cheaply
                if not self.opts.get('eq_deep', False):
                    return False
        e = seq(a, b)
        if isinstance(e, bool):
            return e
        k = e.e.get_id()
        h = self._eqcache.get(k)
        if h is not None:
            return h[1]
        if self.poly_identical(a, b):
            r = True
        else:
            r = self.solve([z3.Not(e.e)], timeout=timeout)[0] == 'unsat'
        self._eqcache[k] = (e.e, r)
        return r

    def opaque(self, fname, a, param=None, fn=None, mono=None, rng=None, args=None):
        """value of an opaque unary function; equal arguments give the same variable"""
        key = (fname, param)
        lst = self._opq.setdefault(key, [])
        for (b, v) in lst:
            if self.provably_equal(a, b):
                return v
        zv = self.fresh(fname)
        if fname == 'pow':
            p = float(param)
            f = lambda x: x ** p
            mono = +1 if p > 0 else -1
            rng = lambda v: v > 0
        elif fname in _OPQ:
            f, mono, rng = _OPQ[fname]
        else:
            f = fn
        try:
            sh = f(a.sh) if f is not None else float('nan')
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            sh = float('nan')
        v = Sym(n=zv, d=(), sh=sh)
        nm = zv.decl().name()
        self.shadows[nm] = (zv, sh)
        if f is not None:
            self.evalf[nm] = lambda pool: _vecf(f)(pool.symval(a))
        cons = []
        if fname == 'sqrt':
            if a.c is not None:
                self.const_sqrt[nm] = sh
            self.sqrt_args[nm] = (_term(a.parts()[0]), _fterm(a.d) if a.d else None)
            cons.append(_mon_sqrt(zv, a))
            v._sqrt_of = a
        else:
            if rng is not None:
                cons.append(rng(zv))
            if fname == 'pow' and param.denominator <= 4 and abs(param.numerator) <= 4:
                q, p = param.denominator, param.numerator
                n, d = a.parts()
                n, d = _term(n), _term(_fterm(d))
                lhs = zv
                for _ in range(q - 1):
                    lhs = lhs * zv
                if p > 0:
                    rhs_n, rhs_d = n ** 1, d
                    for _ in range(p - 1):
                        rhs_n, rhs_d = rhs_n * n, rhs_d * d
                    cons.append(lhs * rhs_d == rhs_n)
                else:
                    rn, rd = d, n
                    for _ in range(-p - 1):
                        rn, rd = rn * d, rd * n
                    cons.append(lhs * rd == rn)
            if mono and len(lst) < 6:
                for (b, w) in lst:
                    lt = slt(a, b)
                    eq = seq(a, b)
                    wv = w.n
                    cons.append(z3.And(bexpr(lt) == ((zv < wv) if mono > 0 else (zv > wv)),
                                       bexpr(eq) == (zv == wv)))
                # anchor points
                if fname in ('log', 'log10', 'log2'):
                    cons.append(bexpr(slt(Sym.const(1), a)) == (zv > 0))
                    cons.append(bexpr(seq(Sym.const(1), a)) == (zv == 0))
                elif fname in ('exp', 'pow10', 'pow2'):
                    cons.append(bexpr(slt(Sym.const(0), a)) == (zv > 1))
                    cons.append(bexpr(seq(Sym.const(0), a)) == (zv == 1))
                elif fname == 'pow':
                    up = (zv > 1) if mono > 0 else (zv < 1)
                    cons.append(bexpr(slt(Sym.const(1), a)) == up)
                    cons.append(bexpr(seq(Sym.const(1), a)) == (zv == 1))
        if cons:
            self.define(zv, z3.And(cons) if len(cons) > 1 else cons[0])
        if fname == 'sqrt':
            sg = 'pos' if a.c is not None else self.term_sign(_term(a.parts()[0]))
            self.pos_vars[nm] = 'pos' if sg == 'pos' else 'nonneg'
        elif fname in ('exp', 'pow10', 'pow2', 'pow'):
            self.pos_vars[nm] = 'pos'
        lst.append((a, v))
        self._inv[zv.decl().name()] = (fname, a)
        if fname not in ('sqrt',):
            self.events['opaque:' + fname] = self.events.get('opaque:' + fname, 0) + 1
        return v

    def inverse_of(self, s, fname):
        """if s is exactly fname(x) return x"""
        if s.c is not None or s.d or isinstance(s.n, Fraction):
            return None
        if z3.is_const(s.n):
            h = self._inv.get(s.n.decl().name())
            if h is not None and h[0] == fname:
                return h[1]
        return None


def model_frac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %r" % (v,))


_solver_cfg = {}


def _quick_linear(cons):
    return False


def decide(cons, timeout, want_model=False):
    """sat/unsat/unknown of a conjunction: z3 (default), then nlsat, within the timeout (seconds)"""
    cons = [c for c in cons if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cons):
        return 'unsat', None
    t0 = time.time()
    budget = [(('smt', min(timeout, max(0.4, timeout * 0.35)))), ('nlsat', timeout * 0.5), ('smt2', timeout * 0.5)]
    for how, tm in budget:
        tm_ms = max(50, int(tm * 1000))
        try:
            if how == 'nlsat':
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite',
                            'solve-eqs', 'simplify', 'tseitin-cnf', 'qfnra-nlsat').solver()
            elif how == 'smt2':
                s = z3.Tactic('qfnra').solver()
            else:
                s = z3.Solver()
            s.set('timeout', tm_ms)
            s.add(cons)
            guard = threading.Timer(tm + 1.0, z3.main_ctx().interrupt)
            guard.daemon = True
            guard.start()
            try:
                r = s.check()
            finally:
                guard.cancel()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', (s.model() if want_model else None)
    return 'unknown', None
