"""Formal differentiation of terms: what the derivative of an extracted function has to be.

Conditions are locally constant (the derivative on each branch), uninterpreted functions have uninterpreted partial derivatives, named as
uf.py's derivative rule names them."""
import re
from fractions import Fraction

import numpy as np

from . import terms as T

ZERO = Fraction(0)
_name = re.compile(r"^([^.\[]+)(.*)$", re.S)


class NoDerivative(Exception):
    pass


def default_tangent(x):
    return ZERO if x.name == "largest_float" else T.sym("d." + x.name)


class Diff:
    """tangent: symbol -> its tangent; special: term -> tangent (for values defined by a contract, e.g. implicitly)"""

    def __init__(self, tangent=default_tangent, special=None):
        self.tangent, self.special, self.memo = tangent, dict(special or {}), {}

    def __call__(self, t):
        if isinstance(t, np.ndarray):
            out = np.empty(t.shape, dtype=object)
            for i in np.ndindex(t.shape):
                out[i] = self(t[i])
            return out
        if not isinstance(t, T.Term) or T.sort_of(t) != "R":
            return ZERO
        if t in self.special:
            return self.special[t]
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._go(t)
        return r

    def _go(self, t):
        a, op = t.args, t.op
        if op == "sym":
            return self.tangent(t)
        if op in ("inf", "nan"):
            return ZERO
        if op == "ite":
            return T.ite(a[0], self(a[1]), self(a[2]))
        if op == "add":
            return T.add(*[self(x) for x in a])
        if op == "mul":
            parts = []
            for i, x in enumerate(a):
                d = self(x)
                if not (T.is_c(d) and d == 0):
                    parts.append(T.mul(d, *(a[:i] + a[i + 1:])) if len(a) > 1 else d)
            return T.add(*parts) if parts else ZERO
        if op == "div":
            d0, d1 = self(a[0]), self(a[1])
            r = ZERO if T.is_c(d0) and d0 == 0 else T.div(d0, a[1])
            if not (T.is_c(d1) and d1 == 0):
                r = T.sub(r, T.div(T.mul(a[0], d1), T.mul(a[1], a[1])))
            return r
        if op == "fn":
            d = self(a[0])
            if T.is_c(d) and d == 0:
                return ZERO
            if t.name == "sqrt":
                return T.div(d, T.mul(2, t))
            if t.name == "exp":
                return T.mul(t, d)
            if t.name == "log":
                return T.div(d, a[0])
            if t.name == "sin":
                return T.mul(T.unary("cos", a[0]), d)
            if t.name == "cos":
                return T.neg(T.mul(T.unary("sin", a[0]), d))
            raise NoDerivative(t.name)
        if op in ("toreal", "floor"):
            return ZERO
        if op == "app":
            if t.name in ("next", "prev"):        # the neighbouring float moves along
                return self(a[0])
            base, suffix = _name.match(t.name).groups()
            parts = []
            for j, x in enumerate(a):
                d = self(x)
                if not (T.is_c(d) and d == 0):
                    parts.append(T.mul(T.app(f"{base}'{j}{suffix}", a, "R"), d))
            return T.add(*parts) if parts else ZERO
        raise NoDerivative(op)
