"""Numeric sample pool: float evaluations of z3 terms at sample points that satisfy the path condition.

Used only to show that a branch is reachable without asking the solver (the sample is the witness) and to seed
counterexample candidates; never to accept an obligation."""
import zlib

import numpy as np
import z3

K = 192
_rs = np.random.RandomState(7)
EPS = 1e-9


class NoEval(Exception):
    pass


class Pool:
    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = {}            # base variable -> array
        self.memo = {}
        self.alive = np.ones(K, dtype=bool)
        self.done = 0             # number of path conditions already applied
        self.dead = False

    def add_real(self, name, lo, hi):
        r = np.random.RandomState(zlib.crc32(name.encode()) & 0x7fffffff)
        v = r.normal(0, 1.2, K)
        if lo is not None and hi is not None:
            v = lo + (hi - lo) * (0.02 + 0.96 * r.uniform(size=K))
        elif lo is not None:
            v = lo + 0.02 + np.abs(v)
        elif hi is not None:
            v = hi - 0.02 - np.abs(v)
        self.vals[name] = v

    def add_int(self, name, lo, hi):
        r = np.random.RandomState(zlib.crc32(name.encode()) & 0x7fffffff)
        lo = -3 if lo is None else int(lo)
        hi = lo + 6 if hi is None else int(hi)
        self.vals[name] = r.randint(lo, hi + 1, K).astype(float)

    # ---- evaluation
    def ev(self, x):
        k = x.get_id()
        h = self.memo.get(k)
        if h is not None:
            return h[1]
        r = self._ev(x)
        self.memo[k] = (x, r)
        return r

    def symval(self, s):
        """Sym -> array"""
        if s.c is not None:
            return np.full(K, float(s.c))
        from symx.core import _term, _fterm
        r = self.ev(_term(s.n))
        if s.d:
            r = r / self.ev(_term(_fterm(s.d)))
        return r

    def _ev(self, x):
        if z3.is_rational_value(x):
            return np.full(K, float(x.numerator_as_long()) / float(x.denominator_as_long())
                           if max(abs(x.numerator_as_long()), x.denominator_as_long()) < 1 << 900 else float(x.as_fraction()))
        if z3.is_int_value(x):
            return np.full(K, float(x.as_long()))
        if z3.is_true(x):
            return np.ones(K, dtype=bool), np.ones(K, dtype=bool)
        if z3.is_false(x):
            return np.zeros(K, dtype=bool), np.ones(K, dtype=bool)
        d = x.decl()
        kd = d.kind()
        ch = x.children()
        if kd == z3.Z3_OP_UNINTERPRETED and not ch:
            nm = d.name()
            if nm in self.vals:
                return self.vals[nm]
            it = self.ctx.ite_defs.get(nm)
            if it is not None:
                b, _ = self.ev(it[0])
                r = np.where(b, self.ev(it[1]), self.ev(it[2]))
                return r
            f = self.ctx.evalf.get(nm)
            if f is not None:
                with np.errstate(all='ignore'):
                    return f(self)
            raise NoEval(nm)
        with np.errstate(all='ignore'):
            if kd == z3.Z3_OP_ADD:
                r = self.ev(ch[0])
                for c in ch[1:]:
                    r = r + self.ev(c)
                return r
            if kd == z3.Z3_OP_MUL:
                r = self.ev(ch[0])
                for c in ch[1:]:
                    r = r * self.ev(c)
                return r
            if kd == z3.Z3_OP_SUB:
                r = self.ev(ch[0])
                for c in ch[1:]:
                    r = r - self.ev(c)
                return r
            if kd == z3.Z3_OP_UMINUS:
                return -self.ev(ch[0])
            if kd == z3.Z3_OP_DIV:
                return self.ev(ch[0]) / self.ev(ch[1])
            if kd == z3.Z3_OP_POWER:
                return self.ev(ch[0]) ** self.ev(ch[1])
            if kd in (z3.Z3_OP_TO_REAL,):
                return self.ev(ch[0])
            if kd == z3.Z3_OP_ITE:
                b, _ = self.ev(ch[0])
                p, q = self.ev(ch[1]), self.ev(ch[2])
                if isinstance(p, tuple):
                    return np.where(b, p[0], q[0]), _ & np.where(b, p[1], q[1])
                return np.where(b, p, q)
            # ---- booleans: (value, robust)
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                a, b = self.ev(ch[0]), self.ev(ch[1])
                df = b - a if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT) else a - b
                rob = np.abs(df) > EPS * (1 + np.abs(a) + np.abs(b))
                if ch[0].is_int() and ch[1].is_int():
                    rob = np.isfinite(df)
                    return ((df >= 0) if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE) else (df > 0)), rob
                return df > 0, rob & np.isfinite(df)
            if kd == z3.Z3_OP_EQ or kd == z3.Z3_OP_IFF:
                if z3.is_bool(ch[0]):
                    (a, ra), (b, rb) = self.ev(ch[0]), self.ev(ch[1])
                    return a == b, ra & rb
                a, b = self.ev(ch[0]), self.ev(ch[1])
                df = a - b
                if ch[0].is_int() and ch[1].is_int():
                    return df == 0, np.isfinite(df)
                return np.zeros(K, dtype=bool), (np.abs(df) > EPS * (1 + np.abs(a) + np.abs(b))) & np.isfinite(df)
            if kd == z3.Z3_OP_DISTINCT and len(ch) == 2:
                v, r = self._ev(ch[0] == ch[1])
                return ~v, r
            if kd == z3.Z3_OP_NOT:
                v, r = self.ev(ch[0])
                return ~v, r
            if kd == z3.Z3_OP_AND:
                v, r = np.ones(K, dtype=bool), np.ones(K, dtype=bool)
                fl = np.zeros(K, dtype=bool)
                for c in ch:
                    a, b = self.ev(c)
                    v = v & a
                    r = r & b
                    fl = fl | (~a & b)
                return v, r | fl
            if kd == z3.Z3_OP_OR:
                v, r = np.zeros(K, dtype=bool), np.ones(K, dtype=bool)
                tr = np.zeros(K, dtype=bool)
                for c in ch:
                    a, b = self.ev(c)
                    v = v | a
                    r = r & b
                    tr = tr | (a & b)
                return v, r | tr
            if kd == z3.Z3_OP_IMPLIES:
                (a, ra), (b, rb) = self.ev(ch[0]), self.ev(ch[1])
                return ~a | b, (ra & rb) | (~a & ra) | (b & rb)
            if kd == z3.Z3_OP_XOR:
                (a, ra), (b, rb) = self.ev(ch[0]), self.ev(ch[1])
                return a != b, ra & rb
        raise NoEval(str(d))

    # ---- queries
    def sync(self):
        pc = self.ctx.pc
        while self.done < len(pc) and not self.dead:
            try:
                v, r = self.ev(pc[self.done])
                self.alive &= v & r
            except NoEval:
                self.dead = True
            self.done += 1
            if not self.alive.any():
                self.dead = True
        return not self.dead

    def possible(self, e, n=1):
        """mask of live samples at which e certainly holds"""
        if not self.sync():
            return None
        try:
            v, r = self.ev(e)
        except NoEval:
            return None
        return self.alive & v & r
