"""Dual-mode harness environment.

The same harness function runs (1) symbolically, on the symbolic instance of the package, with inputs that
are solver variables, and (2) concretely, on the real package with real numpy, to replay a solver model.
"""
import importlib
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp
import z3

from symx import core, snp, loader, poly
from symx.core import (Sym, SymBool, Unsupported, PathAbort, PathLimit, Ctx, Stats, to_sym, slt, sle, seq,
                       sand, sor, snot, bexpr, model_frac, mkbool)

RTOL_SYM = 1e-9
RTOL_CONC = 1e-6
STRONG = 1e-3


class Invalid(BaseException):
    """replay: the concrete inputs do not satisfy an assumption (rounding)"""


class Candidate:
    def __init__(self, label, detail, vals, script, rng, note=''):
        self.label, self.detail, self.vals, self.script, self.rng, self.note = label, detail, vals, script, rng, note


class NS:
    pass


MODS = ['utils', 'kernels', 'kde', 'sample', 'plot']


class EnvBase:
    def pairs(self, a, b, label):
        pass


# ================================================================================ symbolic

class SymEnv(EnvBase):
    sym = True

    def __init__(self, ctx, pkg):
        self.ctx = ctx
        self.np = snp.NP
        self.kale = pkg.mods['kalepy']
        for m in MODS:
            setattr(self, m, pkg.mods.get('kalepy.' + m))
        self.candidates = []
        self.results = []        # (label, status)
        self.script = {}
        self.reached = []
        self.pi = Sym.const(math.pi)

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, nonzero=False):
        s = self.ctx.new_real(name, lo, hi, lo_strict, hi_strict)
        self.ctx.inputs.append((name, s))
        if nonzero:
            self.ctx.pc.append(s.n != 0)
        return s

    def pos(self, name, hi=None):
        return self.real(name, 0, hi, lo_strict=True)

    def unit(self, name):
        return self.real(name, 0, 1, True, True)

    def int(self, name, lo, hi):
        s = self.ctx.new_int(name, lo, hi)
        self.ctx.inputs.append((name, s))
        return s

    def vec(self, name, n, lo=None, hi=None, **k):
        return snp.asarray([self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]) if n else \
            snp.wrap(rnp.empty(0, dtype=object), 'f')

    def ivec(self, name, n, lo, hi):
        return snp.asarray([self.int("%s%d" % (name, i), lo, hi) for i in range(n)])

    def mat(self, name, r, c, lo=None, hi=None, **k):
        return snp.asarray([[self.real("%s%d_%d" % (name, i, j), lo, hi, **k) for j in range(c)] for i in range(r)])

    def arr(self, x, dtype=None):
        """array of concrete/exact values"""
        return snp.asarray(_exact(x), dtype=dtype)

    def num(self, x):
        return to_sym(_exact(x))

    def sorted_vec(self, name, n, gap=None, lo=None):
        """strictly increasing vector"""
        v = self.vec(name, n)
        for i in range(n - 1):
            self.assume(v[i] < v[i + 1])
        return v

    def choice(self, label, options):
        i = self.ctx.choose(len(options))
        self.script[label] = i
        return options[i]

    def assume(self, *conds):
        for c in conds:
            for x in _leaves(c):
                if isinstance(x, Sym):
                    x = x != 0
                if isinstance(x, SymBool):
                    self.ctx.pc.append(x.e)
                elif not x:
                    raise PathAbort("assumption false")

    def feasible(self):
        if self.ctx.solve([z3.BoolVal(True)] + [], full=True)[0] == 'unsat':
            raise PathAbort("infeasible")

    def tolist(self, a):
        return [x for x in a]

    def concrete_int(self, x):
        return int(x)

    # ---- helper arithmetic usable by harnesses in both modes
    def exp(self, x): return core.sexp(to_sym(x))
    def sqrt(self, x): return core.ssqrt(to_sym(x))
    def pow(self, a, b): return core.spow(core.as_real(to_sym(a)), to_sym(_exact(b)))
    def log10(self, x): return core.slog10(core.as_real(to_sym(x)))
    def log2(self, x): return core.slog2(core.as_real(to_sym(x)))
    def ite(self, c, a, b): return core.site(c if isinstance(c, SymBool) else bool(c), to_sym(a), to_sym(b))
    def max(self, *xs):
        r = to_sym(xs[0])
        for x in xs[1:]:
            r = core.smax(r, x)
        return r
    def min(self, *xs):
        r = to_sym(xs[0])
        for x in xs[1:]:
            r = core.smin(r, x)
        return r
    def abs(self, x): return core.sabs(x)
    def And(self, *c): return sand(*[self._b(x) for x in c])
    def Or(self, *c): return sor(*[self._b(x) for x in c])
    def Not(self, c): return snot(self._b(c))
    def implies(self, a, b): return sor(snot(self._b(a)), self._b(b))

    @staticmethod
    def _b(x):
        if isinstance(x, rnp.bool_):
            return bool(x)
        return x

    def isnan(self, x):
        return to_sym(x).is_nan

    def isfinite(self, x):
        return not to_sym(x).is_special

    # ---- obligations
    def reach(self, label):
        self.reached.append(label)

    def _prove(self, label, cond, detail='', strong=None):
        """cond: SymBool/bool that must hold on every completion of this path"""
        t0 = time.time()
        if isinstance(cond, rnp.bool_):
            cond = bool(cond)
        if cond is True:
            self.results.append((label, 'proved', 0.0))
            return True
        if cond is False:
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(bexpr(cond)))
        r = 'sat'
        if cond is False:
            r = 'unsat' if self.dead_path() else 'sat'
        else:
            r, _ = self.ctx.refute([neg], timeout=self.ctx.opts.get('ob_timeout', 6.0))
        if r == 'unsat':
            self.results.append((label, 'proved', time.time() - t0))
            return True
        self._candidate(label, neg, detail, strong)
        self.results.append((label, 'refuted?' if r == 'sat' else 'unknown', time.time() - t0))
        return False

    def dead_path(self):
        """no input follows this path after all (undecided feasibility queries let it live so far)"""
        return self.ctx.solve([z3.BoolVal(True)], timeout=self.ctx.opts.get('ob_timeout', 6.0), full=True)[0] == 'unsat'

    def _candidate(self, label, neg, detail, strong=None):
        for note, vals, rng in self.models([neg] + ([] if strong is None else []), strong):
            self.candidates.append(Candidate(label, detail, vals, dict(self.script), rng, note))

    def models(self, extra, strong=None, n=3):
        """candidate concrete inputs: models of the path condition and `extra`"""
        c = self.ctx
        if c.opts.get('cand_left', [10])[0] <= 0:
            return []
        c.opts.setdefault('cand_left', [10])[0] -= 1
        out = []
        seen = set()
        tries = []
        if strong is not None:
            tries.append(('strong', [strong]))
        tries.append(('model', list(extra)))
        bounds = []
        for _, s in c.inputs:
            if not s.isint:
                bounds += [s.n <= 6, s.n >= -6]
        for k, v in c.rng:
            if k == 'z' and v.c is None:
                bounds += [v.n <= 3, v.n >= -3]
        for note, ex in tries:
            got = None
            for b in (bounds, []):
                r, m = c.solve(ex + b, timeout=c.opts.get('model_timeout', 3.0), want_model=True, full=True)
                if r == 'sat' and m is not None:
                    got = (m, b)
                    break
                if r == 'unsat' and not b:
                    break
            if got is None:
                continue
            m, b = got
            for note2, vals in self._nice(m, ex, b):
                out.append((note + note2,) + vals)
        # the shadow point of the path (a generic point; may violate the path condition)
        if c.opts.get('use_shadow', True):
            out.append(('shadow', {nm: (int(s.sh) if s.isint else s.sh) for nm, s in c.inputs},
                        [(k, (int(v.sh) if v.isint else v.sh)) for k, v in c.rng]))
        return out

    def _vals(self, m):
        vals, rng = {}, []

        def ev(s):
            if s.c is not None:
                return s.c
            v = m.eval(s.term(), model_completion=True)
            try:
                return model_frac(v)
            except Unsupported:
                return Fraction(s.sh)
        for nm, s in self.ctx.inputs:
            v = ev(s)
            vals[nm] = int(v) if s.isint else v
        for k, s in self.ctx.rng:
            v = ev(s)
            rng.append((k, int(v) if s.isint else v))
        return vals, rng

    def _nice(self, m, ex, b):
        """the model itself and a version with inputs moved to short dyadic numbers"""
        vals, rng = self._vals(m)
        raw = ('', ({k: _num(v) for k, v in vals.items()}, [(k, _num(v)) for k, v in rng]))
        res = []
        budget = time.time() + self.ctx.opts.get('nice_time', 4.0)
        fixed = []
        todo = [(s, Fraction(vals[nm])) for nm, s in self.ctx.inputs if not s.isint]
        todo += [(s, Fraction(v)) for (k, s), (_, v) in zip(self.ctx.rng, rng) if s.c is None and not s.isint]
        ok = True
        mm = m
        for s, v in todo:
            cur = mm.eval(s.n, model_completion=True)
            try:
                v = model_frac(cur)
            except Unsupported:
                pass
            if v.denominator <= 64 and (v.denominator & (v.denominator - 1)) == 0 and abs(v) <= 64:
                fixed.append(s.n == core.zr(v))
                continue
            done = False
            for q in (1, 4, 16, 256, 1 << 16):
                if time.time() > budget:
                    break
                w = Fraction(round(v * q), q)
                r, m2 = self.ctx.solve(ex + b + fixed + [s.n == core.zr(w)], timeout=0.6, want_model=True, full=True)
                if r == 'sat' and m2 is not None:
                    fixed.append(s.n == core.zr(w))
                    mm = m2
                    done = True
                    break
            if not done:
                ok = False
        v2, r2 = self._vals(mm)
        v2 = {k: _num(v) for k, v in v2.items()}
        r2 = [(k, _num(v)) for k, v in r2]
        res.append(('+nice' if ok else '+partly', (v2, r2)))
        if v2 != raw[1][0]:
            res.append(raw)
        return res

    def check(self, label, cond, detail=''):
        xs = list(_leaves(cond))
        conds = []
        for x in xs:
            if isinstance(x, Sym):
                x = x != 0
            conds.append(self._b(x))
        if not conds:
            self.results.append((label, 'proved', 0.0))
            return True
        return self._prove(label, sand(*conds), detail)

    def fail(self, label, detail=''):
        self._prove(label, False, detail)

    def eq(self, label, a, b, rtol=None, atol=0.0, detail=''):
        """a == b elementwise (equal shapes), within the relative tolerance"""
        sa, la = _flat(a)
        sb, lb = _flat(b)
        if sa != sb:
            self._prove(label + ':shape', False, "shape %r != %r" % (sa, sb))
            return False
        rtol = rtol or RTOL_SYM
        ok = True
        ex = []
        for x, y in zip(la, lb):
            x, y = _tonum(x), _tonum(y)
            if x is None or y is None:
                self._prove(label + ':type', False, "not a number: %r / %r" % (x, y))
                return False
            if x.is_special or y.is_special:
                same = (x.is_nan and y.is_nan) or (x.is_special and y.is_special and x.c == y.c)
                if not same:
                    self._prove(label, False, "%s vs %s" % (x, y))
                    return False
                continue
            if x.c is not None and y.c is not None:
                if abs(x.c - y.c) > Fraction(rtol) * abs(y.c) + Fraction(atol) + Fraction(1, 10**15):
                    self._prove(label, False, "%s vs %s" % (x, y))
                    return False
                continue
            ex.append((x, y))
        t0 = time.time()
        for x, y in ex:
            d = core.ssub(x, y)
            if d.c is not None and d.c == 0:
                continue
            if self.ctx.poly_identical(x, y, rtol):
                self.ctx.stats.poly += 1
                continue
            e = seq(x, y)
            if e is True:
                continue
            ok2, leaf = self._split_eq(x, y, rtol, max(atol, 1e-13))
            if ok2:
                continue
            if leaf is not None:
                neg = z3.And([_apart(x, y, rtol, max(atol, 1e-13))] + leaf)
                if self.ctx.refute([neg], timeout=2.0)[0] != 'unsat':
                    strong = z3.And([_apart(x, y, 1e-2, max(atol, 1e-2))] + leaf)
                    self._candidate(label, neg, detail, strong)
                    self.results.append((label, 'refuted?', time.time() - t0))
                    return False
                # that case is impossible on this path: decide the whole instead
            r = 'sat'
            approx = math.isfinite(x.sh) and math.isfinite(y.sh) and x.sh != y.sh and \
                abs(x.sh - y.sh) > 1e-13 * (abs(x.sh) + abs(y.sh))
            if not approx and e is not False:
                r, _ = self.ctx.refute([z3.Not(bexpr(e))], timeout=self.ctx.opts.get('ob_timeout', 6.0))
                if r == 'unsat':
                    continue
            neg = _apart(x, y, rtol, max(atol, 1e-13))
            r, _ = self.ctx.refute([neg], timeout=self.ctx.opts.get('ob_timeout', 6.0))
            if r == 'unsat':
                continue
            strong = _apart(x, y, 1e-2, max(atol, 1e-2))
            self._candidate(label, neg, detail, strong)
            self.results.append((label, 'refuted?' if r == 'sat' else 'unknown', time.time() - t0))
            return False
        self.results.append((label, 'proved', time.time() - t0))
        return ok

    def one_of(self, label, alternatives):
        """at least one of the alternatives (functions making checks) holds for every completion of this path"""
        keep = (self.candidates, self.results)
        first = None
        for fn in alternatives:
            self.candidates, self.results = [], []
            r = fn()
            if r is not None:
                self.check(label, r)
            if not self.results:
                raise AssertionError('an alternative of %s checks nothing' % label)
            got = (self.candidates, self.results)
            if all(r[1] == 'proved' for r in got[1]):
                self.candidates = keep[0]
                self.results = keep[1]
                self.results.append((label, 'proved', sum(r[2] for r in got[1])))
                return True
            if first is None:
                first = got
        self.candidates, self.results = keep
        if first is None:
            self.fail(label)
            return False
        for c in first[0]:
            c.label = label
            self.candidates.append(c)
        self.results.append((label, 'refuted?', sum(r[2] for r in first[1])))
        return False

    def _split_eq(self, x, y, rtol, atol):
        """prove x == y by splitting on the conditions of the if-then-else values in x and y and comparing
        polynomial normal forms (or asking the solver) in every feasible case.
        (True, None) proved; (False, leaf) a case where the solver finds them apart; (False, None) undecided"""
        ctx = self.ctx
        ta, tb = ctx.cross(x, y)
        end = time.time() + ctx.opts.get('split_time', 12.0)
        todo = [({}, {}, [])]     # ite assignment, condition truth by expr id, constraints
        undecided = False
        keep = []
        n = 0
        while todo:
            ites, conds, cons = todo.pop()
            n += 1
            if time.time() > end or n > 600:
                return False, None

            class Need(Exception):
                pass

            def choose(nm, e):
                e = z3.simplify(e)
                if z3.is_true(e):
                    return True
                if z3.is_false(e):
                    return False
                k, neg = _ckey(ctx, e)
                h = conds.get(k)
                if h is None:
                    keep.append(e)
                    raise Need(e, k, neg)
                return h != neg
            cv = poly.Conv(ctx, dict(ites), choose)
            try:
                p, q = cv.conv(ta), cv.conv(tb)
            except Need as nd:
                e, k, ng = nd.args
                for val, lit in ((False, z3.Not(e)), (True, e)):
                    r, _ = ctx.solve(cons + [lit], timeout=1.5)
                    if r == 'unsat':
                        continue
                    c2 = dict(conds)
                    c2[k] = val != ng
                    todo.append((ites, c2, cons + [lit]))
                continue
            except (poly.TooBig, poly.NotPoly, z3.Z3Exception):
                return False, None
            if poly.close(p, q, rtol, ctx) is not None:
                ctx.stats.poly += 1
                continue
            neg = _apart(x, y, rtol, atol)
            r, _ = ctx.solve(cons + [neg], timeout=ctx.opts.get('ob_timeout', 6.0))
            if r == 'unsat':
                continue
            if r == 'sat':
                return False, cons
            # infeasible case not recognised before?
            r, _ = ctx.solve(cons, timeout=ctx.opts.get('ob_timeout', 6.0))
            if r == 'unsat':
                continue
            return False, cons
        return True, None

    def le(self, label, a, b, tol=1e-9, detail=''):
        """a <= b elementwise (broadcast), up to tol*(1+|b|)"""
        la, lb = _bcast(a, b)
        cs = []
        for x, y in zip(la, lb):
            x, y = _tonum(x), _tonum(y)
            if x.is_nan or y.is_nan:
                self._prove(label, False, "nan")
                return False
            c = sle(x, y)
            cs.append((c, x, y))
        if all(c is True for c, _, _ in cs):
            self.results.append((label, 'proved', 0.0))
            return True
        t0 = time.time()
        for c, x, y in cs:
            if c is True:
                continue
            if isinstance(c, SymBool):
                r, _ = self.ctx.refute([z3.Not(c.e)], timeout=self.ctx.opts.get('ob_timeout', 6.0))
                if r == 'unsat':
                    continue
                if not x.is_special and not y.is_special:
                    neg = bexpr(slt(y + core.sabs(y) * tol + tol, x))
                    r, _ = self.ctx.refute([neg], timeout=self.ctx.opts.get('ob_timeout', 6.0))
                    if r == 'unsat':
                        continue
                    strong = bexpr(slt(y + Sym.const(0.01), x))
                else:
                    neg, strong = z3.Not(c.e), None
            else:
                if x.c is not None and y.c is not None and float(x.c) <= float(y.c) + tol * (1 + abs(float(y.c))):
                    continue
                if self.dead_path():
                    continue
                r, neg, strong = 'sat', z3.BoolVal(True), None
            self._candidate(label, neg, detail, strong)
            self.results.append((label, 'refuted?' if r == 'sat' else 'unknown', time.time() - t0))
            return False
        self.results.append((label, 'proved', time.time() - t0))
        return True

    def lt_strict(self, label, a, b):
        la, lb = _bcast(a, b)
        return self._prove(label, sand(*[slt(_tonum(x), _tonum(y)) for x, y in zip(la, lb)]))

    def unsup(self, e):
        pass

    def raises(self, label, fn, excs=(Exception,), detail=''):
        """fn() must raise one of excs"""
        n0 = len(self.ctx.unsupported)
        try:
            fn()
        except Unsupported:
            raise
        except excs:
            if len(self.ctx.unsupported) > n0:
                raise Unsupported("exception while unsupported: %s" % self.ctx.unsupported[-1])
            self.results.append((label, 'proved', 0.0))
            return True
        except Exception as e:
            self._prove(label, False, "raised %s instead of %s" % (type(e).__name__, excs))
            return False
        self._prove(label, False, "did not raise " + detail)
        return False

    def attempt(self, fn, excs=(Exception,)):
        """(result, None) or (None, exception); unsupported constructs propagate"""
        n0 = len(self.ctx.unsupported)
        try:
            return fn(), None
        except Unsupported:
            raise
        except excs as e:
            if len(self.ctx.unsupported) > n0:
                raise Unsupported("exception while unsupported: %s" % self.ctx.unsupported[-1])
            return None, e

    # ---- randomness
    def draws(self, kind):
        return [v for k, v in self.ctx.rng if k == kind]

    def merge(self, on=True):
        """minima and maxima become if-then-else values instead of path splits"""
        self.ctx.opts['merge_minmax'] = on

    @property
    def events(self):
        return self.ctx.events

    def set_rng(self, **opts):
        self.ctx.opts.update({('rng_' + k if not k.startswith('poisson') else k): v for k, v in opts.items()})

    layout = staticmethod(lambda a, how: _layout(a, how))

    def numbers(self, text):
        """the numbers in a text, in order"""
        return core.numbers(text)

    def snapshot(self, a):
        return [x for x in snp.asarray(a).ravel_()]


def _layout(a, how):
    """the same values, stored in another way"""
    if how == 'C':
        return a.copy()
    if how == 'F':
        return a.T.copy().T
    if how == 'reversed':
        k = (slice(None, None, -1),) * a.ndim
        return a[k].copy()[k]
    if how == 'strided':
        b = a.repeat(2, -1) if not isinstance(a, snp.SymArray) else snp.wrap(a.obj().repeat(2, -1), a.kind)
        b[..., 1::2] = -1
        return b[..., ::2]
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'list':
        return a.tolist()
    if how == 'tuple':
        f = lambda x: tuple(f(y) for y in x) if isinstance(x, list) else x
        return f(a.tolist())
    raise ValueError(how)


def _ckey(ctx, e):
    """(key, negated): comparisons of polynomials that differ by a positive factor, or by rounding of their
    constants, get the same key"""
    neg = False
    while z3.is_not(e):
        e, neg = e.arg(0), not neg
    h = ctx.ckeys.get(e.get_id())
    if h is not None:
        return h[1][0], h[1][1] != neg
    out = (('id', e.get_id()), False)
    kd = e.decl().kind()
    ops = {z3.Z3_OP_LE: (1, False), z3.Z3_OP_LT: (-1, True), z3.Z3_OP_GE: (-1, False), z3.Z3_OP_GT: (1, True)}
    if kd in ops:
        try:
            cv = ctx.conv()
            p = poly.fold(poly.padd(cv.conv(e.arg(0)), cv.conv(e.arg(1)), -1), ctx)
            sg, ng = ops[kd]                   # sg * p <= 0, negated for strict comparisons
            big = max(abs(c) for c in p.values())
            p = {m: c for m, c in p.items() if abs(c) > big * Fraction(1, 10**13)}
            m0 = min(p)
            s = abs(p[m0])
            out = (('le', tuple(sorted((m, '%.9e' % (sg * c / s)) for m, c in p.items()))), ng)
        except (poly.TooBig, poly.NotPoly, z3.Z3Exception, ValueError, OverflowError):
            pass
    ctx.ckeys[e.get_id()] = (e, out)
    return out[0], out[1] != neg


def _apart(x, y, rtol, atol):
    d = core.ssub(x, y)
    r, at = Sym.const(Fraction(rtol)), Sym.const(Fraction(atol))
    pos = bexpr(sle(Sym.const(0), y))
    hi, lo = r * y + at, at - r * y
    return z3.Or(z3.And(pos, z3.Or(bexpr(slt(hi, d)), bexpr(slt(hi, -d)))),
                 z3.And(z3.Not(pos), z3.Or(bexpr(slt(lo, d)), bexpr(slt(lo, -d)))))


def _num(v):
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, Fraction):
        try:
            return float(v)
        except OverflowError:
            return 1e300
    return float(v)


def _exact(x):
    if isinstance(x, rnp.ndarray) and not isinstance(x, snp.SymArray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [_exact(y) for y in x]
    if isinstance(x, float):
        return Sym.const(x if (math.isinf(x) or math.isnan(x)) else Fraction(repr(x)))
    return x


def _leaves(c):
    if isinstance(c, snp.SymArray):
        for x in c.ravel_():
            yield x
    elif isinstance(c, (list, tuple)):
        for x in c:
            for y in _leaves(x):
                yield y
    elif isinstance(c, rnp.ndarray):
        for x in c.ravel():
            yield x
    else:
        yield c


def _tonum(x):
    if isinstance(x, snp.SymArray):
        x = x.ravel_()[0]
    try:
        return core.as_real(to_sym(x))
    except TypeError:
        return None


def _flat(a):
    """(shape, leaves)"""
    if isinstance(a, (Sym, SymBool, int, float, Fraction, rnp.generic)):
        return (), [a]
    if a is None or isinstance(a, str):
        return ('?', repr(a)), [a]
    a = snp.asarray(a)
    return a.shape, list(a.ravel_())


def _bcast(a, b):
    sa, la = _flat(a)
    sb, lb = _flat(b)
    if sa == sb:
        return la, lb
    if sb == ():
        return la, lb * len(la)
    if sa == ():
        return la * len(lb), lb
    raise Unsupported("broadcast in comparison: %r %r" % (sa, sb))


# ================================================================================ concrete

class FakeRandom:
    """numpy.random stand-in replaying recorded base draws (one queue per class of draw)"""

    def __init__(self, rng):
        self.q = {}
        self.events = {}
        for k, v in rng:
            self.q.setdefault(k, []).append(v)
        self.real = rnp.random.RandomState(12345)
        self.drawn = []

    def _next(self, kind, fallback):
        l = self.q.get(kind)
        v = l.pop(0) if l else fallback()
        if kind == 'u':
            v = min(max(float(v), 0.0), 1.0 - 2.0**-53)
        self.drawn.append((kind, v))
        return v

    def _fill(self, kind, size, fallback, dtype=float):
        if size is None:
            return dtype(self._next(kind, fallback))
        shp = (int(size),) if rnp.ndim(size) == 0 else tuple(int(s) for s in size)
        out = rnp.empty(shp, dtype=dtype)
        for i in rnp.ndindex(*shp):
            out[i] = self._next(kind, fallback)
        return out

    def seed(self, *a, **k):
        return None

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + self._fill('u', size, self.real.uniform) * (rnp.asarray(high) - low)

    def random(self, size=None):
        return self._fill('u', size, self.real.uniform)
    random_sample = ranf = sample = random

    def rand(self, *s):
        return self._fill('u', s or None, self.real.uniform)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + self._fill('z', size, self.real.normal) * scale

    def standard_normal(self, size=None, **k):
        return self._fill('z', size, self.real.normal)

    def randn(self, *s):
        return self._fill('z', s or None, self.real.normal)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean, cov = rnp.asarray(mean, dtype=float), rnp.asarray(cov, dtype=float)
        shp = () if size is None else ((int(size),) if rnp.ndim(size) == 0 else tuple(size))
        z = self._fill('z', shp + (len(mean),), self.real.normal)
        if not rnp.array_equal(cov, rnp.eye(len(mean))):
            z = z @ rnp.linalg.cholesky(cov).T
        return z + mean

    def choice(self, a, size=None, replace=True, p=None, **k):
        arr = rnp.asarray(a)
        n = int(arr) if arr.ndim == 0 else arr.shape[0]
        # the real generator validates its arguments
        self.real.choice(n, size=size, replace=replace, p=p)
        if p is not None:
            self.events.setdefault('choice_p', []).append(rnp.asarray(p, dtype=float))

        self.events.setdefault('choice_replace', []).append(bool(replace))

        def fb():
            return int(self.real.choice(n, p=p))
        idx = self._fill('i', size, fb, dtype=int)
        idx = rnp.minimum(idx, n - 1) if size is not None else min(idx, n - 1)
        return idx if arr.ndim == 0 else arr[idx]

    def poisson(self, lam=1.0, size=None):
        self.real.poisson(lam)
        self.events.setdefault('poisson_lam', []).append(rnp.asarray(lam, dtype=float))
        if size is None and rnp.ndim(lam):
            size = rnp.shape(lam)
        return self._fill('p', size, lambda: int(self.real.poisson(rnp.mean(lam))), dtype=int)

    def beta(self, a, b, size=None):
        self.events.setdefault('beta_ab', []).append((float(a), float(b)))
        return self._fill('b', size, lambda: self.real.beta(a, b))

    def exponential(self, scale=1.0, size=None):
        return self._fill('e', size, self.real.exponential) * scale

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return self._fill('i', size, lambda: int(self.real.randint(low, high)), dtype=int)
    integers = randint

    def permutation(self, x):
        n = int(x) if rnp.ndim(x) == 0 else len(x)
        left, res = list(range(n)), []
        for _ in range(n):
            j = self._next('i', lambda: left[0])
            j = j if j in left else left[0]
            left.remove(j)
            res.append(j)
        res = rnp.array(res, dtype=int)
        return res if rnp.ndim(x) == 0 else rnp.asarray(x)[res]

    def shuffle(self, x, axis=0):
        x[...] = self.permutation(x)

    def default_rng(self, *a, **k):
        return self
    RandomState = Generator = default_rng


class ConcEnv(EnvBase):
    sym = False

    def __init__(self, vals, script, rng, mods):
        self.vals, self.script = vals, script
        self.np = rnp
        self.kale = mods['kalepy']
        for m in MODS:
            setattr(self, m, mods.get('kalepy.' + m))
        self.fails = []          # (label, detail, strong)
        self.fr = FakeRandom(rng)
        self.pi = math.pi
        self.reached = []
        self.nchecks = 0

    @property
    def events(self):
        return self.fr.events

    def _val(self, name, dflt):
        v = self.vals.get(name, dflt)
        return v

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, nonzero=False):
        v = float(self._val(name, 0.5))
        if lo is not None and (v < lo or (lo_strict and v <= lo)):
            raise Invalid("%s=%r below %r" % (name, v, lo))
        if hi is not None and (v > hi or (hi_strict and v >= hi)):
            raise Invalid("%s=%r above %r" % (name, v, hi))
        if nonzero and v == 0:
            raise Invalid(name)
        return rnp.float64(v)

    def pos(self, name, hi=None):
        return self.real(name, 0, hi, lo_strict=True)

    def unit(self, name):
        return self.real(name, 0, 1, True, True)

    def int(self, name, lo, hi):
        return int(self._val(name, lo))

    def vec(self, name, n, lo=None, hi=None, **k):
        return rnp.array([self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)], dtype=float)

    def ivec(self, name, n, lo, hi):
        return rnp.array([self.int("%s%d" % (name, i), lo, hi) for i in range(n)], dtype=int)

    def mat(self, name, r, c, lo=None, hi=None, **k):
        return rnp.array([[self.real("%s%d_%d" % (name, i, j), lo, hi, **k) for j in range(c)] for i in range(r)], dtype=float)

    def arr(self, x, dtype=None):
        return rnp.array(x) if dtype is None else rnp.array(x, dtype=dtype)

    def num(self, x):
        return rnp.float64(x) if isinstance(x, float) else x

    def sorted_vec(self, name, n, gap=None, lo=None):
        v = self.vec(name, n)
        for i in range(n - 1):
            self.assume(v[i] < v[i + 1])
        return v

    def choice(self, label, options):
        return options[self.script.get(label, 0)]

    def assume(self, *conds):
        for c in conds:
            if not rnp.all(c):
                raise Invalid("assumption")

    def feasible(self):
        pass

    def tolist(self, a):
        return [x for x in a]

    def concrete_int(self, x):
        return int(x)

    def exp(self, x): return math.exp(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def pow(self, a, b): return float(a) ** float(b)
    def log10(self, x): return math.log10(x)
    def log2(self, x): return math.log2(x)
    def ite(self, c, a, b): return a if c else b
    def max(self, *xs): return max(xs)
    def min(self, *xs): return min(xs)
    def abs(self, x): return abs(x)
    def And(self, *c): return all(bool(x) for x in c)
    def Or(self, *c): return any(bool(x) for x in c)
    def Not(self, c): return not bool(c)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def isnan(self, x): return bool(rnp.isnan(x))
    def isfinite(self, x): return bool(rnp.isfinite(x))

    def reach(self, label):
        self.reached.append(label)

    def _fail(self, label, detail, strong):
        self.fails.append((label, str(detail)[:400], bool(strong)))
        return False

    def check(self, label, cond, detail=''):
        self.nchecks += 1
        if not rnp.all([bool(rnp.all(x)) for x in _leaves(cond)]):
            return self._fail(label, detail or 'condition is false', False)
        return True

    def fail(self, label, detail=''):
        self._fail(label, detail, True)

    def eq(self, label, a, b, rtol=None, atol=0.0, detail=''):
        self.nchecks += 1
        try:
            a, b = rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            return self._fail(label, 'not numbers: %r %r (%s)' % (a, b, e), True)
        if a.shape != b.shape:
            return self._fail(label + ':shape', "shape %r != %r" % (a.shape, b.shape), True)
        rt = max(RTOL_CONC, (rtol or 0) * 10)
        scale = rnp.max(rnp.abs(b[rnp.isfinite(b)])) if rnp.any(rnp.isfinite(b)) else 0.0
        with rnp.errstate(all='ignore'):
            good = (a == b) | (rnp.isnan(a) & rnp.isnan(b)) | \
                (rnp.abs(a - b) <= rt * rnp.maximum(rnp.abs(b), 1e-3 * scale) + max(atol, 1e-9 * min(1.0, scale), 1e-13))
            strong = rnp.any(~good & ~(rnp.abs(a - b) <= STRONG * (scale + rnp.abs(b)) + 10 * max(atol, 1e-9)))
        if not rnp.all(good):
            return self._fail(label, "%s vs %s %s" % (a.tolist(), b.tolist(), detail), strong)
        return True

    def le(self, label, a, b, tol=1e-9, detail=''):
        self.nchecks += 1
        a, b = rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float)
        with rnp.errstate(all='ignore'):
            good = (a <= b) | (a <= b + max(tol, 1e-9) * (1 + rnp.abs(b)))
        if not rnp.all(good):
            strong = not rnp.all(a <= b + STRONG * (1 + rnp.abs(b)))
            return self._fail(label, "%s > %s %s" % (a.tolist(), b.tolist(), detail), strong)
        return True

    def one_of(self, label, alternatives):
        keep = self.fails
        first = None
        for fn in alternatives:
            self.fails = []
            r = fn()
            if r is not None:
                self.check(label, r)
            got, self.fails = self.fails, keep
            if not got:
                return True
            if first is None:
                first = got
        self._fail(label, first[0][1] if first else '', any(f[2] for f in first or []))
        return False

    def lt_strict(self, label, a, b):
        self.nchecks += 1
        if not rnp.all(rnp.asarray(a) < rnp.asarray(b)):
            return self._fail(label, "%r !< %r" % (a, b), False)
        return True

    def raises(self, label, fn, excs=(Exception,), detail=''):
        self.nchecks += 1
        try:
            fn()
        except excs:
            return True
        except Exception as e:
            return self._fail(label, "raised %s instead of %s" % (type(e).__name__, excs), True)
        return self._fail(label, "did not raise " + detail, True)

    def attempt(self, fn, excs=(Exception,)):
        try:
            return fn(), None
        except excs as e:
            return None, e

    def draws(self, kind):
        return [v for k, v in self.fr.drawn if k == kind]

    def merge(self, on=True):
        pass

    def set_rng(self, **k):
        pass

    layout = staticmethod(lambda a, how: _layout(a, how))

    def numbers(self, text):
        """the numbers in a text, in order"""
        return core.numbers(text)

    def snapshot(self, a):
        return rnp.array(a, copy=True).ravel()


_REAL = None


def real_modules():
    """the real package, imported normally from the repository"""
    global _REAL
    if _REAL is None:
        root = loader.ROOT
        if root not in sys.path:
            sys.path.insert(0, root)
        import kalepy
        mods = {'kalepy': kalepy}
        for m in MODS:
            try:
                mods['kalepy.' + m] = importlib.import_module('kalepy.' + m)
            except ModuleNotFoundError:
                pass
        p = os.path.realpath(kalepy.__file__)
        assert p.startswith(os.path.realpath(root) + os.sep), p
        _REAL = mods
    return _REAL


_RNAMES = ['uniform', 'random', 'random_sample', 'ranf', 'sample', 'rand', 'normal', 'standard_normal', 'randn',
           'multivariate_normal', 'choice', 'poisson', 'beta', 'exponential', 'randint', 'permutation', 'shuffle',
           'default_rng', 'RandomState', 'seed']


class ConcResult:
    def __init__(self):
        self.valid = True
        self.fails = []
        self.reached = []
        self.nchecks = 0
        self.exc = None


def run_concrete(fn, params, vals, script, rng):
    import logging
    import warnings
    res = ConcResult()
    mods = real_modules()
    env = ConcEnv(vals, script, rng, mods)
    saved = {n: getattr(rnp.random, n) for n in _RNAMES if hasattr(rnp.random, n)}
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        for n in saved:
            if hasattr(env.fr, n):
                setattr(rnp.random, n, getattr(env.fr, n))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rnp.errstate(all='ignore'):
                fn(env, **params)
    except Invalid as e:
        res.valid = False
        res.exc = str(e)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        res.exc = ' | '.join(tb[-4:])
        env.fails.append(('exception', "%s: %s" % (type(e).__name__, str(e)[:300]) + ' @ ' + _where(e), True))
    finally:
        for n, f in saved.items():
            setattr(rnp.random, n, f)
        logging.disable(lvl)
    res.fails = env.fails if res.valid else []
    res.reached = env.reached
    res.nchecks = env.nchecks
    return res


def _where(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return '?'
    return "%s:%d" % (os.path.basename(last.tb_frame.f_code.co_filename), last.tb_lineno)
