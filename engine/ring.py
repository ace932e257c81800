"""Decision procedure for equalities of real terms built from + * / sqrt exp and
uninterpreted functions: normal forms in a ring of Laurent (Puiseux) polynomials over
atoms, with uninterpreted applications keyed on the normal forms of their arguments.

Sound for real values where denominators are non-zero and arguments of sqrt positive.
Raises NeedSplit(cond) when it meets an ite."""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import terms as T

HALF = Fraction(1, 2)


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class TooBig(Exception):
    pass


def quant(c):
    f = abs(float(c))
    if f < 1e-11:
        return None
    e = 0
    while f > 1.0000000001:
        f /= 10
        e += 1
    n = round(f * 1e12 + 0.1234)
    return (c > 0, e, n)


def negligible(p, tol=1e-11):
    return all(abs(c) < tol for c in p.values())


class Ring:
    """one normalisation session (cache of atoms)"""

    LIMIT = 200000

    def __init__(self, decide=None):
        self.atoms = {}      # key -> id
        self.akey = {}       # id -> key
        self.cache = {}
        self.terms = {}      # id -> a term (uninterpreted applications)
        self.polys = {}      # id -> poly (for 'poly' and 'inv' atoms)
        self.decide = decide  # optional oracle cond -> True/False/None

    # ---- atoms
    def atom(self, key, poly=None):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms[key] = i
            self.akey[i] = key
            if poly is not None:
                self.polys[i] = poly
        return i

    # ---- polys: dict monomial->coef ; monomial: tuple of (atom, exp) sorted
    @staticmethod
    def const(c):
        c = Fraction(c)
        return {(): c} if c else {}

    def padd(self, *ps):
        out = {}
        for p in ps:
            for m, c in p.items():
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
        return out

    def pscale(self, p, k):
        if not k:
            return {}
        return {m: c * k for m, c in p.items()}

    def mono_mul(self, a, b):
        """product of monomials -> (monomial, coef, list of polys to expand)"""
        d = dict(a)
        coef = Fraction(1)
        extra = []
        for at, e in b:
            d[at] = d.get(at, 0) + e
        out = []
        for at, e in d.items():
            if e == 0:
                continue
            key = self.akey[at]
            if key[0] == "prime":
                fl = e.numerator // e.denominator
                if fl:
                    coef *= Fraction(key[1]) ** fl
                    e = e - fl
                if e:
                    out.append((at, e))
            elif key[0] == "poly":
                fl = e.numerator // e.denominator
                if fl >= 1:
                    extra.append((self.polys[at], int(fl)))
                    e = e - fl
                if e:
                    out.append((at, e))
            else:
                out.append((at, e))
        return tuple(sorted(out)), coef, extra

    def pmul(self, p, q):
        if len(p) * len(q) > self.LIMIT:
            raise TooBig
        out = {}
        exp = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, k, extra = self.mono_mul(m1, m2)
                c = c1 * c2 * k
                if extra:
                    t = {m: c}
                    for pp, n in extra:
                        for _ in range(n):
                            t = self.pmul(t, pp)
                    exp.append(t)
                    continue
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
        if exp:
            out = self.padd(out, *exp)
        return out

    def ppow(self, p, n):
        r = self.const(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def key(self, p):
        """canonical key; coefficients up to rounding (1e-12), so that coefficients that
        differ only by the rounding of a double are the same coefficient"""
        out = []
        for m, c in p.items():
            q = quant(c)
            if q is not None:
                out.append((m, q))
        out.sort(key=lambda mc: repr(mc[0]))
        return tuple(out)

    def lead(self, p):
        return p[min(p, key=repr)]

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError("division by a term that is identically zero")
        if len(p) == 1:
            (m, c), = p.items()
            im, k, extra = self.mono_mul((), tuple((a, -e) for a, e in m))
            assert not extra
            return {im: k / c}
        # normalise: divide by common monomial content and leading coefficient
        lead = self.lead(p)
        q = self.pscale(p, 1 / lead)
        a = self.atom(("inv", self.key(q)), q)
        return {((a, Fraction(1)),): 1 / lead}

    def sqrt_int(self, n):
        """sqrt of positive int -> (coef, {prime: 1})"""
        coef, primes = 1, []
        d = 2
        while d * d <= n:
            e = 0
            while n % d == 0:
                n //= d
                e += 1
            coef *= d ** (e // 2)
            if e % 2:
                primes.append(d)
            d += 1
            if d > 5000:
                break
        if n > 1:
            import math
            r = math.isqrt(n)
            if r * r == n:
                coef *= r
            else:
                primes.append(n)
        return coef, primes

    def psqrt(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0:
                coef, primes = self.sqrt_int(c.numerator * c.denominator)
                coef = Fraction(coef, c.denominator)
                mm = tuple((a, e / 2) for a, e in m)
                r = {(): Fraction(coef)}
                base = {}
                m2, k, extra = self.mono_mul((), mm)
                assert not extra
                r = {m2: coef * k}
                for q in primes:
                    a = self.atom(("prime", q))
                    r = self.pmul(r, {((a, HALF),): Fraction(1)})
                return r
        # pull out rational content so that sqrt(4x+4y) = 2 sqrt(x+y)
        lead = abs(self.lead(p))
        q = self.pscale(p, 1 / lead)
        a = self.atom(("poly", self.key(q)), q)
        return self.pmul(self.psqrt(self.const(lead)), {((a, HALF),): Fraction(1)})

    def pexp(self, p):
        r = self.const(1)
        for m, c in p.items():
            a = self.atom(("exp", m))
            r = self.pmul(r, {((a, c),): Fraction(1)})
        return r

    # ---- terms
    def norm(self, t):
        if T.is_c(t):
            if isinstance(t, bool):
                raise TypeError("bool in ring")
            return self.const(t)
        r = self.cache.get(t.id)
        if r is None:
            r = self._norm(t)
            if any(self.akey[a][0] == "inv" for m in r for a, _ in m):
                r = self.reduce_inv(r)
            self.cache[t.id] = r
        return r

    def reduce_inv(self, p):
        """if p is (poly)*inv(q) with q | numerator, cancel"""
        try:
            num, den = self.clear(p)
        except TooBig:
            return p
        if not num:
            return {}
        return p

    def _norm(self, t):
        op = t.op
        if op == "sym":
            return {((self.atom(("sym", t.name)), Fraction(1)),): Fraction(1)}
        if op == "add":
            return self.padd(*[self.norm(a) for a in t.args])
        if op == "mul":
            r = self.norm(t.args[0])
            for a in t.args[1:]:
                r = self.pmul(r, self.norm(a))
            return r
        if op == "div":
            return self.pmul(self.norm(t.args[0]), self.pinv(self.norm(t.args[1])))
        if op == "toreal":
            return self.norm(t.args[0])
        if op == "fn":
            if t.name == "sqrt":
                return self.psqrt(self.norm(t.args[0]))
            if t.name == "exp":
                return self.pexp(self.norm(t.args[0]))
            k = ("fn", t.name, self.ckey(t.args[0]))
            return {((self.atom(k), Fraction(1)),): Fraction(1)}
        if op == "app":
            k = ("app", t.name, tuple(self.ckey(a) for a in t.args))
            at = self.atom(k)
            self.terms.setdefault(at, t)
            return {((at, Fraction(1)),): Fraction(1)}
        if op in ("inf", "nan"):
            return {((self.atom((op, t.name)), Fraction(1)),): Fraction(1)}
        if op == "ite":
            raise NeedSplit(t.args[0])
        if op in ("floor", "idiv"):
            k = (op, tuple(self.ckey(a) for a in t.args))
            return {((self.atom(k), Fraction(1)),): Fraction(1)}
        raise NotImplementedError(op)

    def clear(self, p):
        """p -> (num, den) without inv atoms and negative powers of square roots; den is a poly"""
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 and self.akey[a][0] == "poly":
                    neg[a] = max(neg.get(a, 0), -((e.numerator) // e.denominator))
        if neg:
            den = self.const(1)
            for a, k in neg.items():
                p = self.pmul(p, {((a, Fraction(k)),): Fraction(1)})
                den = self.pmul(den, self.ppow(self.polys[a], k))
            num, d2 = self.clear(p)
            return num, self.pmul(den, d2)
        invs = {}
        for m in p:
            for a, e in m:
                if self.akey[a][0] == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p, self.const(1)
        num = {}
        parts = []
        for m, c in p.items():
            rest = tuple((a, e) for a, e in m if a not in invs)
            t = {rest: c}
            d = dict(m)
            for a, e in invs.items():
                k = e - d.get(a, 0)
                assert k.denominator == 1
                t = self.pmul(t, self.ppow(self.polys[a], int(k)))
            parts.append(t)
        num = self.padd(*parts)
        den = self.const(1)
        for a, e in invs.items():
            den = self.pmul(den, self.ppow(self.polys[a], int(e)))
        # nested invs may reappear from polys
        n2, d2 = self.clear(num) if any(self.akey[a][0] == "inv" for m in num for a, _ in m) else (num, self.const(1))
        return n2, self.pmul(den, d2)

    def ckey(self, t):
        """canonical key of an argument"""
        if isinstance(t, bool):
            return ("b", t)
        if isinstance(t, T.Term) and t.sort == "B":
            return ("bt", self.bkey(t))
        p = self.norm(t)
        if any(self.akey[a][0] == "inv" for m in p for a, _ in m):
            num, den = self.clear(p)
            num, den = self.cancel(num, den)
            return ("q", self.key(num), self.key(den))
        return self.key(p)

    def bkey(self, t):
        if isinstance(t, bool):
            return t
        if t.op in ("lt", "eq"):
            return (t.op, self.ckey(T.sub(t.args[0], t.args[1])))
        if t.op in ("and", "or", "not"):
            return (t.op, tuple(self.bkey(a) for a in t.args))
        if t.op == "sym":
            return ("s", t.name)
        if t.op == "app":
            return ("app", t.name, tuple(self.ckey(a) for a in t.args))
        raise NotImplementedError(t.op)

    def cancel(self, num, den):
        import sympy
        ids = sorted({a for p in (num, den) for m in p for a, _ in m})
        exps = [e for p in (num, den) for m in p for _, e in m]
        if any(e.denominator != 1 for e in exps):
            return num, den
        xs = {a: sympy.Symbol(f"x{a}") for a in ids}

        def tosym(p):
            return sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[xs[a] ** int(e) for a, e in m]) for m, c in p.items()])

        q = sympy.cancel(tosym(num) / tosym(den))
        n, d = sympy.fraction(sympy.together(q))
        inv = {v: k for k, v in xs.items()}
        gens = [xs[a] for a in ids]

        def back(e):
            P = sympy.Poly(e, *gens)
            out = {}
            for mon, c in P.terms():
                m = tuple((ids[i], Fraction(int(k))) for i, k in enumerate(mon) if k)
                out[m] = Fraction(int(c.p), int(c.q))
            return out

        n, d = back(n), back(d)
        lead = self.lead(d)
        return self.pscale(n, 1 / lead), self.pscale(d, 1 / lead)

    def is_zero(self, t):
        p = self.norm(t)
        if negligible(p):
            return True
        num, _ = self.clear(p)
        return negligible(num)

    def show(self, p, n=8):
        def mm(m):
            return "*".join(f"{self.aname(a)}^{e}" if e != 1 else self.aname(a) for a, e in m) or "1"
        items = list(p.items())
        s = " + ".join(f"({float(c):.6g})*{mm(m)}" for m, c in items[:n])
        return s + (f" + … ({len(items)} terms)" if len(items) > n else "")

    def aname(self, a):
        k = self.akey[a]
        if k[0] == "sym":
            return k[1]
        if k[0] == "app":
            return f"{k[1]}<{a}>"
        return f"{k[0]}<{a}>"
