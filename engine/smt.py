"""SMT back ends: z3 (in process) and cvc5 (cross-check through SMT-LIB)."""
from __future__ import annotations

import itertools
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

_site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _site not in sys.path:
    sys.path.append(_site)
import z3  # noqa: E402

from . import terms as T  # noqa: E402


class Conv:
    def __init__(self):
        self.cache = {}
        self.fns = {}
        self.inst = {}  # name -> list of (term, z3 args, z3 value)

    def sort(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]

    def val(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, Fraction):
            return z3.RealVal(f"{x.numerator}/{x.denominator}")
        return self.term(x)

    def term(self, t):
        r = self.cache.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.id in self.cache:
                continue
            if not done:
                stack.append((x, True))
                stack.extend((a, False) for a in x.args if isinstance(a, T.Term) and a.id not in self.cache)
                continue
            self.cache[x.id] = self._one(x, [self.cache[a.id] if isinstance(a, T.Term) else self.val(a) for a in x.args])
        return self.cache[t.id]

    def _one(self, t, a):
        op = t.op
        if op == "sym":
            return z3.Const(t.name, self.sort(t.sort))
        if op == "inf":
            return z3.Const("-INF" if t.name else "+INF", z3.RealSort())
        if op == "nan":
            return z3.Const("NAN", z3.RealSort())
        if op == "add":
            return z3.Sum(*a)
        if op == "mul":
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if op == "div":
            return a[0] / a[1]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "lt":
            return a[0] < a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "toreal":
            return z3.ToReal(a[0])
        if op == "idiv":
            return a[0] / a[1]
        if op == "floor":
            return z3.ToInt(a[0])
        if op in ("fn", "app"):
            key = (t.name, t.sort, tuple(str(x.sort()) for x in a))
            f = self.fns.get(key)
            if f is None:
                if a:
                    f = z3.Function(t.name + ("" if len(self.fns) == 0 else f"#{len(self.fns)}"),
                                    *[x.sort() for x in a], self.sort(t.sort))
                else:
                    f = z3.Const(t.name, self.sort(t.sort))
                self.fns[key] = f
            v = f(*a) if a else f
            self.inst.setdefault(t.name, []).append((t, a, v))
            return v
        raise NotImplementedError(op)

    def axioms(self):
        """ground instances of the facts assumed about the interpreted functions"""
        out = []
        for (t, a, v) in self.inst.get("sqrt", []):
            out.append(z3.Implies(a[0] >= 0, z3.And(v >= 0, v * v == a[0])))
        for (t, a, v) in self.inst.get("exp", []):
            out.append(v > 0)
        for (t, a, v) in self.inst.get("next", []):
            out.append(v > a[0])
        for (t, a, v) in self.inst.get("prev", []):
            out.append(v < a[0])
        # next/prev: no float strictly between
        pts = []
        for (t, a, v) in self.inst.get("next", []):
            for (t2, a2, v2) in self.inst.get("next", []):
                if t is not t2:
                    out.append(z3.Implies(a[0] < a2[0], z3.And(v <= a2[0], v < v2)))
            for (t2, a2, v2) in self.inst.get("prev", []):
                out.append(z3.Implies(a[0] < a2[0], z3.And(v <= a2[0], a[0] <= v2)))
                out.append(z3.Implies(a[0] == v2, v == a2[0]))
                out.append(z3.Implies(a2[0] == v, v2 == a[0]))
        for (t, a, v) in self.inst.get("prev", []):
            for (t2, a2, v2) in self.inst.get("prev", []):
                if t is not t2:
                    out.append(z3.Implies(a[0] < a2[0], z3.And(v < v2, a[0] <= v2)))
        pw = self.inst.get("pow", [])
        for (t, a, v) in pw:
            out.append(z3.Implies(a[0] > 0, v > 0))
            out.append(z3.Implies(z3.And(a[0] >= 1, a[1] >= 0), v >= 1))
            out.append(z3.Implies(z3.And(a[0] >= 1, a[1] <= 0), v <= 1))
            out.append(z3.Implies(z3.And(a[0] > 0, a[0] <= 1, a[1] >= 0), v <= 1))
            out.append(z3.Implies(z3.And(a[0] > 0, a[0] <= 1, a[1] <= 0), v >= 1))
            out.append(z3.Implies(z3.And(a[0] > 1, a[1] > 0), v > 1))
            out.append(z3.Implies(z3.And(a[0] > 1, a[1] < 0), v < 1))
            out.append(z3.Implies(z3.And(a[0] == 0, a[1] > 0), v == 0))
            out.append(z3.Implies(z3.And(a[0] == 1), v == 1))
            out.append(z3.Implies(a[1] == 0, v == 1))
        if any(k in self.cache for k in (T.INF.id, T.NINF.id)):
            pass
        return out


def check_valid(premises, goal, timeout_ms=20000, want_smt2=False):
    """returns (status, model_or_None, seconds, smt2); status in proved/refuted/unknown"""
    t0 = time.time()
    if goal is True:
        return "proved", None, 0.0, ""
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for p in premises:
        if p is True:
            continue
        s.add(cv.val(p))
    s.add(z3.Not(cv.val(goal)))
    for a in cv.axioms():
        s.add(a)
    r = s.check()
    smt2 = s.to_smt2() if want_smt2 else ""
    dt = time.time() - t0
    if r == z3.unsat:
        return "proved", None, dt, smt2
    if r == z3.sat:
        m = s.model()
        model = {}
        for x in cv.cache.values():
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = m.eval(x, model_completion=True)
                model[str(x)] = str(v)
        return "refuted", model, dt, smt2
    return "unknown", None, dt, smt2


def feasible(premises, timeout_ms=3000):
    """False only if premises are certainly contradictory"""
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for p in premises:
        if p is False:
            return False
        if p is True:
            continue
        s.add(cv.val(p))
    for a in cv.axioms():
        s.add(a)
    return s.check() != z3.unsat


def satisfiable(premises, timeout_ms=10000):
    """True only if a model was found (non-vacuity)"""
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for p in premises:
        if p is False:
            return False
        if p is not True:
            s.add(cv.val(p))
    for a in cv.axioms():
        s.add(a)
    return s.check() == z3.sat


def cvc5_check(smt2, timeout_s=20):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        p = f.name
    try:
        r = subprocess.run(["cvc5", f"--tlimit={timeout_s * 1000}", p], capture_output=True, text=True, timeout=timeout_s + 10)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error:" + r.stderr[:200]
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        import os
        os.unlink(p)
