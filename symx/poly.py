"""Polynomial normal form of z3 real terms: dict {monomial: Fraction}, monomial = sorted ((var name, exp), ...).

Square roots (variables defined by v*v == arg with a polynomial argument) are reduced; used to prove identities
exactly, and to recognise equality up to relative rounding of float constants."""
from fractions import Fraction

import z3

LIMIT = 20000


class TooBig(Exception):
    pass


class NotPoly(Exception):
    pass


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 60 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


class Conv:
    """converter bound to a context (definitions) and an assignment of if-then-else variables"""

    def __init__(self, ctx, ites=None, choose=None):
        self.ctx = ctx
        self.ites = ites or {}
        self.choose = choose        # callback(name, cond expr) -> bool for an undecided if-then-else
        self.memo = {}
        self.sq = {}

    def var(self, x):
        nm = x.decl().name()
        d = self.ctx.ite_defs.get(nm)
        if d is not None and self.choose is not None:
            b = self.ites.get(nm)
            if b is None:
                b = self.choose(nm, d[0])
                self.ites[nm] = b
            return self.conv(d[1] if b else d[2])
        return {((nm, 1),): Fraction(1)}

    def conv(self, x):
        k = x.get_id()
        h = self.memo.get(k)
        if h is not None:
            return h[1]
        r = self._conv(x)
        r = self.reduce(r)
        self.memo[k] = (x, r)
        return r

    def _conv(self, x):
        if z3.is_rational_value(x):
            v = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(x):
            v = Fraction(x.as_long())
            return {(): v} if v else {}
        kd = x.decl().kind()
        ch = x.children()
        if kd == z3.Z3_OP_UNINTERPRETED and not ch:
            return self.var(x)
        if kd == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, self.conv(c))
            if len(r) > LIMIT:
                raise TooBig()
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = padd(r, self.conv(c), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.conv(ch[0]).items()}
        if kd == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.reduce(pmul(r, self.conv(c)))
            return r
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = ch[1]
            if e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() <= 12:
                r = {(): Fraction(1)}
                b = self.conv(ch[0])
                for _ in range(e.numerator_as_long()):
                    r = self.reduce(pmul(r, b))
                return r
        if kd == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if kd == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            v = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            return {m: c / v for m, c in self.conv(ch[0]).items()}
        if kd == z3.Z3_OP_ITE and self.choose is not None:
            b = self.choose(None, ch[0])
            return self.conv(ch[1] if b else ch[2])
        raise NotPoly(str(x)[:80])

    def sqarg(self, nm):
        """polynomial of v*v for a square-root variable, or None"""
        if nm in self.sq:
            return self.sq[nm]
        a = self.ctx.sqrt_args.get(nm)
        r = None
        if a is not None:
            n, d = a
            if d is None:
                self.sq[nm] = None
                r = self.conv(n)
        self.sq[nm] = r
        return r

    def reduce(self, p):
        for _ in range(40):
            hit = None
            for m in p:
                for nm, e in m:
                    if e >= 2 and nm.startswith('sqrt!') and self.sqarg(nm) is not None:
                        hit = nm
                        break
                if hit:
                    break
            if hit is None:
                return p
            q = self.sqarg(hit)
            pw = [{(): Fraction(1)}]
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(hit, 0)
                if e >= 2:
                    h = e // 2
                    while len(pw) <= h:
                        pw.append(pmul(pw[-1], q))
                    if e % 2:
                        d[hit] = 1
                    else:
                        del d[hit]
                    mm = tuple(sorted(d.items()))
                    r = padd(r, pmul({mm: c}, pw[h]))
                else:
                    r = padd(r, {m: c})
                if len(r) > LIMIT:
                    raise TooBig()
            p = r
        return p


def fold(p, ctx):
    """square roots of constants -> their double value"""
    if ctx is None:
        return p
    r = {}
    for m, c in p.items():
        mm = []
        for nm, e in m:
            v = ctx.const_sqrt.get(nm)
            if v is None:
                mm.append((nm, e))
            else:
                c = c * Fraction(v) ** e
        mm = tuple(mm)
        r[mm] = r.get(mm, 0) + c
    return r


def close(p, q, rtol, ctx=None):
    """'exact' when p == q; 'scaled' when p == k*q with |k-1| <= rtol; 'approx' when every coefficient agrees
    within rtol; else None"""
    if p == q:
        return 'exact'
    if not rtol:
        return None
    if ctx is not None and ctx.const_sqrt:
        p, q = fold(p, ctx), fold(q, ctx)
    big = max([abs(c) for c in q.values()] + [0])
    ks = set()
    for m in set(p) | set(q):
        a, b = p.get(m, 0), q.get(m, 0)
        if b == 0:
            if abs(a) > big * Fraction(1, 10**13):
                return None
            ks |= {None, 0}
            continue
        k = a / b
        if abs(k - 1) > rtol:
            if abs(a - b) > big * Fraction(1, 10**13):
                return None
        if len(ks) < 2:
            ks.add(k)
    return 'scaled' if len(ks) == 1 else 'approx'
