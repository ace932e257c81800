"""Obligations, their discharge, evidence and verdicts."""
from __future__ import annotations

import contextlib
import ctypes
import json
import os
import sys
import threading
import time
import traceback
from fractions import Fraction

import numpy as np

from . import ring as RG
from . import smt
from . import terms as T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")


class Check:
    def __init__(self, pid, tier=TIER):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obls = []            # dicts
        self.functions = {}       # function under contract -> number of obligations
        self.assumptions = []
        self.trusted = []
        self.violations = []
        self.known = []
        self.bounded = []
        self.notes = []
        self.solver_time = 0.0
        self.crosschecked = 0
        self.validations = 0
        self.replayer = None      # callable(obl_name) -> dict or None
        self.samples = []
        self.concrete_failure = None
        self.out_of_reach = []

    # ------------------------------------------------------------------
    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *txt):
        for t in txt:
            if t not in self.trusted:
                self.trusted.append(t)

    def _record(self, name, fn, status, backend, secs, goal, detail="", replay=None):
        self.functions[fn] = self.functions.get(fn, 0) + 1
        self.solver_time += secs
        o = dict(name=name, function=fn, status=status, backend=backend, seconds=round(secs, 4))
        self.obls.append(o)
        if status != "proved":
            o["detail"] = detail
            o["goal"] = T.show(goal, maxdepth=6) if not isinstance(goal, str) else goal
            self.violations.append(dict(obligation=name, function=fn, status=status, backend=backend,
                                        detail=detail, goal=o["goal"], replay=replay))
            print(f"  FAILED obligation {name} [{fn}] ({backend}: {status}) {detail[:400]}", flush=True)
        el = time.time() - self.t0
        if self.new_violations() and (el > 150 or self.new_violations() >= 40):
            raise Enough("enough obligations have failed")
        if self.tier == "quick" and el > 650:
            raise Enough("out of time")
        return status == "proved"

    def new_violations(self):
        """failed obligations that are not listed as known findings"""
        if self._known is None:
            self._known = [k["match"] for k in load_known(self.pid) if k["kind"] == "finding"]
        return sum(not any(m in v["obligation"] for m in self._known) for v in self.violations)

    _known = None

    # ---- discharge by SMT
    def valid(self, name, fn, premises, goal, timeout_ms=30000, replay=None):
        goal_t = goal
        if goal is True:
            return self._record(name, fn, "proved", "simplifier", 0.0, goal)
        want = self.tier == "thorough"
        st, model, dt, s2 = smt.check_valid(premises, goal_t, timeout_ms, want_smt2=want)
        detail = ""
        if st == "refuted":
            detail = "counterexample: " + json.dumps(dict(sorted(model.items())[:60]))
        elif st == "unknown":
            # second back end
            _, _, _, s2 = smt.check_valid(premises, goal_t, 1, want_smt2=True)
            r = smt.cvc5_check(s2, 30)
            if r == "unsat":
                return self._record(name, fn, "proved", "cvc5", dt, goal)
            st = "unknown" if r != "sat" else "refuted"
            detail = f"z3: unknown, cvc5: {r}"
        elif want and s2:
            r = smt.cvc5_check(s2, 20)
            if r == "unsat":
                self.crosschecked += 1
            elif r == "sat":
                return self._record(name, fn, "disagreement", "z3/cvc5", dt, goal, "cvc5 says sat", replay)
        return self._record(name, fn, st, "z3", dt, goal, detail, replay)

    # ---- equalities by ring normal form with case splitting
    def equal(self, name, fn, a, b, premises=(), replay=None, maxcases=4096):
        t0 = time.time()
        if is_bool(a) or is_bool(b):
            return self.valid(name, fn, premises, T.iff(a, b), replay=replay)
        try:
            ok, detail, ncases = equal_cases(a, b, list(premises), maxcases)
        except RG.TooBig:
            return self.valid(name, fn, premises, T.same(a, b), replay=replay)
        except ZeroDivisionError as e:
            ok, detail = False, f"{e}"
        dt = time.time() - t0
        return self._record(name, fn, "proved" if ok else "refuted", "ring", dt,
                            f"{T.show(a, maxdepth=5)} == {T.show(b, maxdepth=5)}" if not ok else "", detail, replay)

    def equal_arr(self, name, fn, a, b, premises=(), replay=None):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return self._record(name, fn, "refuted", "shape", 0.0, "shapes", f"shape {a.shape} != {b.shape}", replay)
        ok = True
        for i in np.ndindex(a.shape):
            ok &= self.equal(name + (str(list(i)) if a.shape else ""), fn, a[i], b[i], premises, replay)
        return ok

    # ---- a ground fact computed exactly
    def fact(self, name, fn, holds, detail="", backend="exact-arithmetic", replay=None, secs=0.0):
        return self._record(name, fn, "proved" if holds else "refuted", backend, secs, "ground fact", detail, replay)

    def sat(self, name, premises):
        """non-vacuity: the preconditions are satisfiable"""
        ok = smt.satisfiable(premises)
        if not ok:
            self.violations.append(dict(obligation=name, function="(vacuity)", status="vacuous", backend="z3",
                                        detail="preconditions are not satisfiable", goal="sat", replay=None))
        self.notes.append(f"vacuity {name}: {'satisfiable' if ok else 'NOT satisfiable'}")
        return ok

    def bounded_check(self, name, bound, n, failures):
        self.bounded.append(dict(name=name, bound=bound, cases=n, failures=len(failures)))
        if failures:
            self.violations.append(dict(obligation=name, function="(bounded)", status="refuted", backend="concrete execution",
                                        detail=f"{len(failures)} of {n} concrete cases violate the contract", goal=name,
                                        replay=failures[0]))
            print(f"  FAILED bounded {name}: {failures[0]}", flush=True)

    # ------------------------------------------------------------------
    def finish(self, rebuild=None):
        wall = time.time() - self.t0
        n = len(self.obls)
        disch = sum(o["status"] == "proved" for o in self.obls)
        if n == 0 and not self.bounded:
            self.violations.append(dict(obligation="(none)", function="-", status="no-obligations", backend="-",
                                        detail="no obligation was generated", goal="-", replay=None))
        known = load_known(self.pid)
        new, kf = [], []
        for v in self.violations:
            k = next((k for k in known if k["kind"] == "finding" and k["match"] in v["obligation"]), None)
            if k is not None:
                kf.append((k, v))
            else:
                new.append(v)
        for k in {id(k): k for k, _ in kf}.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        replay_path = None
        if new:
            rc = 1
            outdir = os.path.join(VERIF, "out")
            os.makedirs(outdir, exist_ok=True)
            replay_path = os.path.join(outdir, f"{self.pid}.replay.json")
            concrete = None
            for v in new:
                r = v.get("replay")
                if callable(r):
                    try:
                        r = r()
                    except Exception:
                        r = dict(error=traceback.format_exc()[-1500:], found=False)
                    v["replay"] = r
                if isinstance(r, dict) and r.get("found"):
                    concrete = r
                    break
            if concrete is None and self.concrete_failure is not None:
                concrete = self.concrete_failure
            if concrete is None and self.replayer is not None:
                try:
                    concrete = self.replayer([v["obligation"] for v in new])
                except Exception:
                    concrete = None
                    self.notes.append("replayer error: " + traceback.format_exc()[-800:])
            with open(replay_path, "w") as f:
                json.dump(dict(property=self.pid, failed=[{k: (v if not callable(v) else None) for k, v in x.items()} for x in new[:50]],
                               failing_input=concrete), f, indent=1, default=str)
            tail = "" if concrete else " no-failing-input-found"
            print(f"VIOLATION property={self.pid} replay={replay_path}{tail}")
        self._evidence(wall, n, disch, new, kf)
        print(f"{self.pid}: {disch}/{n} obligations discharged, {len(self.functions)} functions under contract, "
              f"{len(self.bounded)} bounded, {wall:.1f}s")
        return rc

    def _evidence(self, wall, n, disch, new, kf):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        by = {}
        for o in self.obls:
            by[o["backend"]] = by.get(o["backend"], 0) + 1
        level = level_of(self.pid)
        ev = dict(
            property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
            seed=int(os.environ.get("VERIF_SEED", "1")), level=level, wall_s=round(wall, 2),
            coverage=dict(
                obligations=n, discharged=disch,
                checker_cmd=f"./check {self.pid} {self.tier}",
                trusted_base=self.trusted,
                functions_under_contract=self.functions,
                backends=by, solver_seconds=round(self.solver_time, 2), cvc5_crosschecked=self.crosschecked,
                extraction_validations=self.validations,
                bounded_standins=self.bounded, vacuity=[x for x in self.notes if x.startswith("vacuity")],
                samples=[o for o in self.obls[:: max(1, len(self.obls) // 12)]][:12] + self.samples[:10],
                known_findings=[k["what"] for k, _ in kf][:10],
                notes=[x for x in self.notes if not x.startswith("vacuity")][:20],
            ),
            assumptions=self.assumptions,
            violations=len(new),
        )
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def level_of(pid):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == pid]


def is_bool(x):
    return isinstance(x, (bool, np.bool_)) or (isinstance(x, T.Term) and x.sort == "B")


# ---------------------------------------------------------------- equality with cases
def equal_cases(a, b, premises, maxcases=4096):
    n = [0]
    det = [""]

    def go(a, b, prem, depth):
        n[0] += 1
        if n[0] > maxcases:
            raise RG.TooBig
        if a is b:
            return True
        if T.is_c(a) and T.is_c(b) and a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T.Term) and x.op in ("inf", "nan") and not (isinstance(y, T.Term) and y.op == "ite"):
                if y is x:
                    return True
                det[0] = f"{T.show(x)} vs {T.show(y, maxdepth=3)} under {[T.show(p, maxdepth=4) for p in prem[-6:]]}"
                return False
        r = RG.Ring()
        try:
            z = r.is_zero(T.sub(a, b))
            if z:
                return True
            p = r.norm(T.sub(a, b))
            # maybe premises are contradictory
            if prem and not smt.feasible(prem):
                return True
            # maybe equalities among the premises are needed: ask z3
            st, model, dt, _ = smt.check_valid(prem, T.eq(a, b), 10000)
            if st == "proved":
                return True
            det[0] = f"difference = {r.show(p)} under {[T.show(q, maxdepth=4) for q in prem[-6:]]}"
            return False
        except RG.NeedSplit as e:
            c = e.cond
            # split on an atomic condition
            c = pick_atom(c)
            ok = True
            for val in (True, False):
                lit = c if val else T.not_(c)
                pr = [T.subst(p, {c: val}) for p in prem if isinstance(p, T.Term)]
                if any(p is False for p in pr):
                    continue
                pr = [p for p in pr if p is not True] + [lit]
                if not smt.feasible(pr):
                    continue
                sm = {c: val}
                na, nb = T.subst(a, sm), T.subst(b, sm)
                if not go(na, nb, pr, depth + 1):
                    return False
            return True

    ok = go(a, b, [p for p in premises if p is not True], 0)
    return ok, det[0], n[0]


def pick_atom(c):
    while c.op in ("and", "or", "not"):
        c = next(x for x in c.args if isinstance(x, T.Term))
    return c


def run_big_stack(fn):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def tgt():
        try:
            res["r"] = fn()
        except SystemExit as e:
            res["r"] = e.code
        except BaseException:
            traceback.print_exc()
            res["r"] = 3

    th = threading.Thread(target=tgt)
    th.start()
    th.join()
    return res["r"]


class Enough(Exception):
    pass


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """raises OutOfTime in this thread after so many seconds (changed code can send the normaliser astray)"""
    me, lock, over = threading.get_ident(), threading.Lock(), []

    def fire():
        with lock:
            if not over:
                over.append(1)
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(OutOfTime))

    th = threading.Timer(max(seconds, 1), fire)
    th.daemon = True
    old = threading.stack_size(0)
    th.start()
    threading.stack_size(old)
    try:
        yield
    finally:
        with lock:
            late = bool(over)
            over.append(1)
        th.cancel()
        if late:        # let a pending one arrive here rather than later
            try:
                for _ in range(1000):
                    pass
            except OutOfTime:
                pass


# ---------------------------------------------------------------- driver
def drive(ck, mod):
    """sections: obligations; concrete: executable contracts on the real code (replay of
    failed obligations, and the bounded stand-in for a section out of the verifier's reach)"""
    from .symeval import Unsupported
    out_of_reach = []
    for name, fn in mod.SECTIONS:
        t = time.time()
        n0, v0 = len(ck.obls), len(ck.violations)
        if time.time() - ck.t0 > (120 if ck.new_violations() else 650 if ck.tier == "quick" else 1e9):
            ck.notes.append(f"section {name}: not run (already failed, or out of time)")
            if not ck.new_violations():
                out_of_reach.append(name)
            continue
        try:
            with limit(1e6 if ck.tier != "quick" else max(60, 640 - (time.time() - ck.t0))):
                fn(ck)
        except (Enough, OutOfTime) as e:
            ck.notes.append(f"section {name}: stopped ({str(e) or type(e).__name__})")
            if not ck.new_violations():
                out_of_reach.append(name)
            print(f"  section {name}: {len(ck.obls) - n0} obligations, {len(ck.violations) - v0} failed, stopped ({str(e) or type(e).__name__}), {time.time() - t:.1f}s", flush=True)
        except Exception as e:
            # a section that cannot be extracted says nothing: drop what it recorded as failed
            del ck.violations[v0:]
            ck.obls = ck.obls[:n0] + [o for o in ck.obls[n0:] if o["status"] == "proved"]
            kind = "Unsupported" if isinstance(e, Unsupported) else type(e).__name__
            out_of_reach.append(name)
            ck.notes.append(f"section {name} out of reach ({kind}: {str(e)[:300]}); bounded stand-in decides")
            print(f"  section {name}: OUT OF REACH ({kind}: {str(e)[:300]})", flush=True)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        else:
            bad = len(ck.violations) - v0
            print(f"  section {name}: {len(ck.obls) - n0} obligations, {bad} failed, {time.time() - t:.1f}s", flush=True)
    ck.out_of_reach = out_of_reach
    listed = [k["match"] for k in load_known(ck.pid) if k["kind"] == "finding"]
    need = bool(out_of_reach) or any(not any(m in v["obligation"] for m in listed) for v in ck.violations)
    try:            # the real code below must not meet traces cached while a stub was in place
        import jax
        jax.clear_caches()
    except Exception:
        pass
    for name, fn in getattr(mod, "CONCRETE", []):
        t = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        effort = 3 if (ck.tier == "thorough" or need) else 1
        rng = np.random.default_rng([seed, sum(map(ord, name))])
        fails, n = [], 0
        try:
            with limit(1e6 if ck.tier != "quick" else max(30, 840 - (time.time() - ck.t0))):
                for r in fn(rng, effort):
                    n += 1
                    if r is not None:
                        r = dict(r)
                        r["found"] = True
                        fails.append(r)
                        if len(fails) >= 5:
                            break
        except OutOfTime:
            ck.notes.append(f"executable contract {name}: stopped after {n} executions, out of time")
        except Exception as e:
            fails.append(dict(found=True, case=f"{name}: the real code raised", error=f"{type(e).__name__}: {str(e)[:1500]}",
                              trace=traceback.format_exc()[-3000:]))
        known = [k for k in load_known(ck.pid) if k["kind"] == "finding"]
        for k in known:
            hit = [f for f in fails if k["match"] in str(f.get("case", ""))]
            if hit:
                fails = [f for f in fails if f not in hit]
                ck.violations.append(dict(obligation=str(hit[0].get("case")), function="(bounded)", status="refuted",
                                          backend="concrete execution", detail="known", goal="", replay=hit[0]))
        ck.bounded_check(f"executable contract: {name}", f"{n} concrete executions of the real code (seed {seed})", n, fails)
        ck.validations += n
        print(f"  concrete {name}: {n} executions, {len(fails)} failures, {time.time() - t:.1f}s", flush=True)
        if fails:
            ck.concrete_failure = fails[0]
    return ck.finish()


# ---------------------------------------------------------------- simplification under premises
def under(x, premises, timeout_ms=2000):
    """resolve the conditions of x that the premises decide (z3); x: term or object array"""
    memo = {}

    def decide(c):
        if c in memo:
            return memo[c]
        r = None
        if smt.check_valid(premises, c, timeout_ms)[0] == "proved":
            r = True
        elif smt.check_valid(premises, T.not_(c), timeout_ms)[0] == "proved":
            r = False
        memo[c] = r
        return r

    def one(t):
        if not isinstance(t, T.Term):
            return t
        while True:
            conds = []
            for s in T.subterms([t]):
                if s.op == "ite":
                    for a in atoms_of(s.args[0]):
                        if a not in memo:
                            conds.append(a)
            sm = {}
            for c in dict.fromkeys(conds):
                r = decide(c)
                if r is not None:
                    sm[c] = r
            sm.update({c: r for c, r in memo.items() if r is not None})
            t2 = T.subst(t, sm) if sm else t
            if t2 is t or not isinstance(t2, T.Term):
                return t2
            t = t2

    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = one(x[i])
        return out
    return one(x)


def atoms_of(c):
    if not isinstance(c, T.Term):
        return []
    if c.op in ("and", "or", "not"):
        return [a for x in c.args for a in atoms_of(x)]
    return [c]
