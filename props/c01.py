"""C01: stepping. The real loop of `diffeqsolve` for an arbitrary solver and controller."""
from .mainloop import *

FN = "loop.body_fun"
ORD = Fr(5, 2)


def inv(vc, s):
    """loop invariant over a state s"""
    tp, tn = val(s.tprev), val(s.tnext)
    t0, t1 = T.mul(vc.sgn, vc.t0), T.mul(vc.sgn, vc.t1)
    return [T.le(t0, tp), T.le(tp, t1), T.implies(T.lt(tp, t1), T.and_(T.lt(tp, tn), T.le(tn, t1))),
            T.eq(val(s.num_steps), T.add(val(s.num_accepted_steps), val(s.num_rejected_steps))),
            T.le(0, val(s.num_accepted_steps)), T.le(0, val(s.num_rejected_steps))]


def result_of(s):
    return val(s.result._value)


def begin_loop(ck):
    begin(ck)
    ck.assume("the while loops an adjoint supplies iterate body while cond, at most max_steps times (equinox)",
              "equinox.error_if raises exactly when its predicate holds; nextafter/prevbefore are the neighbouring floats",
              "the solver, controller, events and functions are pure functions of their arguments")


def spec_of(vc, mj=None):
    p = vc.pre
    mj = S.scalar(val(p.made_jump)) if mj is None else S.scalar(mj)
    st = step_(p.tprev, p.tnext, p.y, vc.args, p.solver_state, mj, vc.sgn)
    c = ctrl_(p.tprev, p.tnext, p.y, st["y"], vc.args, st, ORD, p.controller_state)
    return st, c


def eq_tree(ck, name, fn, a, b, prem=()):
    for i, (x, y) in enumerate(zip(a, b)):
        ck.equal_arr(f"{name}.{i}", fn, x, y, prem)


def one(tag, **kw):
    def go(ck):
        begin_loop(ck)
        vc = LoopVC(**kw)
        p, q, x, i0 = vc.pre, vc.post, vc.exit, vc.init
        t0, t1 = T.mul(vc.sgn, vc.t0), T.mul(vc.sgn, vc.t1)
        jumps, has_result = kw.get("jumps", True), kw.get("has_result", True)
        st, c = spec_of(vc, None if jumps else False)
        if not jumps:
            c["jump"] = False
        if not has_result:
            st["result"] = c["result"] = 0
        keep = c["keep"]
        n = lambda s: f"{tag}.{s}"
        req = [vc.order] + vc.requires
        # -- initial state
        fi = "diffeqsolve (initialisation)"
        f0 = vf_(S.scalar(T.mul(vc.sgn, t0)), vc.y0, vc.args)
        ci = (S.scalar(vc.sgn), S.scalar(t0), S.scalar(t1), *vc.y0) + ((S.scalar(T.mul(vc.sgn, vc.dt0)),) if kw.get("dt0", True) else ()) + \
            (S.scalar(vc.args), *f0, S.scalar(ORD))
        tn0 = ufT("ctrl_init_tnext", (), *ci)[()]
        ck.equal(n("init.tprev"), fi, val(i0.tprev), t0)
        eq_tree(ck, n("init.y"), fi, i0.y, vc.y0)
        pass_state = kw.get("pass_state", ())
        if "controller" not in pass_state:
            far = [T.lt(tn0, vc.lo), T.lt(tn0, t1)]
            ck.valid(n("init.tnext: the controller's unless within rounding of t1"), fi, req + vc.floor_facts + far, T.eq(val(i0.tnext), tn0))
            ck.valid(n("init.tnext: reaching t1 lands exactly on t1"), fi, req + vc.floor_facts + [T.le(t1, tn0)], T.eq(val(i0.tnext), t1))
            near = [T.lt(f, tn0) for f in vc.floors]
            if near:
                ck.valid(n("init.tnext: within rounding of t1 lands exactly on t1"), fi, req + vc.floor_facts + near, T.eq(val(i0.tnext), t1))
            ck.equal_arr(n("init.controller_state"), fi, i0.controller_state, ufT("ctrl_init_state", (2,), *ci))
            ctr0 = [T.lt(t0, tn0)]
        else:
            ctr0 = []
        if "solver" not in pass_state:
            ck.equal_arr(n("init.solver_state"), fi, i0.solver_state,
                         ufT("solver_init", (2,), S.scalar(t0), S.scalar(tn0), *vc.y0, S.scalar(vc.args)), req + vc.floor_facts + far)
        for k in ("num_steps", "num_accepted_steps", "num_rejected_steps"):
            ck.equal(n(f"init.{k}"), fi, val(getattr(i0, k)), 0)
        ck.equal(n("init.result"), fi, result_of(i0), 0)
        if "made_jump" not in pass_state:
            ck.fact(n("init.made_jump"), fi, val(i0.made_jump) is False, f"made_jump starts as {val(i0.made_jump)}", "simplifier")
        prem0 = req + vc.floor_facts + ctr0 + ([T.lt(0, T.mul(vc.sgn, vc.dt0))] if kw.get("dt0", True) else [])
        for k, g in enumerate(inv(vc, i0)):
            ck.valid(n(f"invariant.init[{k}]"), fi, prem0, g)
        ck.sat(n("init premises"), prem0)
        # -- one iteration
        prem = req + vc.floor_facts + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
        ck.sat(n("body premises"), prem + [keep])
        ck.sat(n("body premises (rejected)"), prem + [T.not_(keep)])
        for k, g in enumerate(inv(vc, q)):
            ck.valid(n(f"invariant.preserved[{k}]"), FN, prem, g)
        kp = lambda a, b: S.emap(lambda u, v: T.ite(keep, u, v), a, b)
        eq_tree(ck, n("y: the step's result if kept, unchanged otherwise"), FN, q.y, [kp(a, b) for a, b in zip(st["y"], p.y)])
        ck.equal_arr(n("solver_state"), FN, q.solver_state, kp(st["ss"], p.solver_state))
        ck.equal_arr(n("controller_state"), FN, q.controller_state, c["cs"])
        ck.valid(n("tprev"), FN, prem, T.eq(val(q.tprev), T.minimum(c["t0"], t1)))
        ck.valid(n("kept: the next step starts where this one ended, or after the controller's jump"), FN, prem + [keep, T.eq(c["t0"], val(p.tnext))],
                 T.eq(val(q.tprev), val(p.tnext)))
        ck.valid(n("kept: time strictly increases"), FN, prem + [keep], T.lt(val(p.tprev), val(q.tprev)))
        ck.valid(n("rejected: retried from the same time"), FN, prem + [T.not_(keep)], T.eq(val(q.tprev), val(p.tprev)))
        ck.valid(n("tnext: the controller's unless within rounding of t1"), FN, prem + [T.lt(c["t1"], vc.lo)], T.eq(val(q.tnext), c["t1"]))
        ck.valid(n("tnext: kept and reaching t1 lands exactly on t1"), FN, prem + [keep, T.le(t1, c["t1"])], T.eq(val(q.tnext), t1))
        if vc.floors:
            ck.valid(n("tnext: kept and within rounding of t1 lands exactly on t1"), FN, prem + [keep] + [T.lt(f, c["t1"]) for f in vc.floors],
                     T.eq(val(q.tnext), t1))
        ck.valid(n("tnext: a retry is strictly before t1"), FN, prem + [T.not_(keep), T.le(t1, c["t1"])], T.lt(val(q.tnext), t1))
        if jumps:
            ck.valid(n("made_jump"), FN, prem, T.iff(val(q.made_jump), T.ite(keep, c["jump"], val(p.made_jump))))
        ck.equal(n("num_steps"), FN, val(q.num_steps), T.add(val(p.num_steps), 1))
        ck.equal(n("num_accepted_steps"), FN, val(q.num_accepted_steps), T.add(val(p.num_accepted_steps), T.ite(keep, 1, 0)))
        ck.equal(n("num_rejected_steps"), FN, val(q.num_rejected_steps), T.add(val(p.num_rejected_steps), T.ite(keep, 0, 1)))
        # -- result: the failure of a kept step stops the solve
        sr = T.ite(keep, st["result"], 0)
        want = T.ite(T.eq(sr, 0), c["result"], sr)
        if has_result:
            ck.valid(n("result"), FN, prem, T.eq(result_of(q), want))
        else:
            ck.valid(n("result stays successful"), FN, prem + [T.eq(result_of(p), 0)], T.eq(result_of(q), 0))
        # -- loop condition: run on exactly while t1 is not reached and nothing failed
        if has_result:
            ck.valid(n("loop condition"), "loop.cond_fun", [vc.order], T.iff(vc.cond_pre, T.and_(T.lt(val(p.tprev), t1), T.eq(result_of(p), 0))))
        else:
            ck.valid(n("loop condition"), "loop.cond_fun", [vc.order], T.iff(vc.cond_pre, T.lt(val(p.tprev), t1)))
        ck.fact(n("max_steps is the bound of the loop"), "loop", vc.loops[0]["max_steps"] == vc.max_steps, f"{vc.loops[0]['max_steps']}", "extraction")
        # -- exit
        fo = "loop/diffeqsolve (finalisation)"
        o = vc.out
        pe = req + inv(vc, x) + ([] if has_result else [T.eq(result_of(x), 0)])
        R = val(o["result"])
        ck.valid(n("exit: not at t1 and nothing failed => max_steps_reached"), fo, pe + [vc.cond_exit], T.eq(R, RESV["max_steps_reached"]))
        ck.valid(n("exit: otherwise the recorded result"), fo, pe + [T.not_(vc.cond_exit)], T.eq(R, result_of(x) if has_result else 0))
        ck.valid(n("exit: success => exactly at t1"), fo, pe + [T.eq(R, 0)], T.eq(val(x.tprev), t1))
        for k in ("num_steps", "num_accepted_steps", "num_rejected_steps"):
            ck.equal(n(f"stats.{k}"), fo, val(o["stats"][k]), val(getattr(x, k)))
        if kw.get("saveat") is None:
            ck.equal(n("ts: final time"), fo, val(o["ts"][0]), T.mul(vc.sgn, val(x.tprev)), pe)
            eq_tree(ck, n("ys: final state"), fo, [o["ys"][0][0], o["ys"][1][0]], [val(x.y[0]), x.y[1]], pe)
        ck.equal(n("t0"), fo, val(o["t0"]), vc.t0)
        ck.equal(n("t1"), fo, val(o["t1"]), vc.t1)
    return go


SECTIONS = [
    ("forward", one("fwd", backward=False)),
    ("backward", one("bwd", backward=True)),
    ("forward, controller without jumps", one("nojump", backward=False, jumps=False)),
    ("forward, nothing can fail", one("nofail", backward=False, jumps=False, has_result=False)),
    ("forward, dt0 chosen by the controller", one("autodt", backward=False, dt0=False)),
    ("forward, max_steps=None", one("unbounded", backward=False, max_steps=None)),
]


# ---------------------------------------------------------------- executable contract
class LogSolver(dfx.AbstractSolver):
    """a solver whose y is a log of the steps it was asked to make: y = [n, t_start..., t_end...]"""
    term_structure = dfx.AbstractTerm
    interpolation_cls = dfx.LocalLinearInterpolation
    fail_at: float = 1e9
    size: int = eqx.field(static=True, default=24)

    def order(self, terms):
        return 1

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)

    def init(self, terms, t0, t1, y0, args):
        return jnp.asarray(0)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        n = y0[0].astype(int)
        y1 = y0.at[1 + n].set(t0).at[1 + self.size + n].set(t1).at[0].add(1)
        res = RES.where((t0 < self.fail_at) & (self.fail_at <= t1), RES.internal_error, RES.successful)
        return y1, None, dict(y0=y0, y1=y1), solver_state + 1, res


class RandomController(dfx.AbstractStepSizeController):
    """keeps/rejects and resizes by a fixed pseudo-random script, indexed by the number of calls"""
    keeps: jax.Array
    dts: jax.Array

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + self.dts[0], jnp.asarray(0)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, k):
        keep = self.keeps[k]
        nt0 = jnp.where(keep, t1, t0)
        nt1 = nt0 + self.dts[k + 1]
        return keep, nt0, nt1, False, k + 1, RES.successful


def sim(t0, t1, keeps, dts, fail_at, max_steps):
    """reference: the contract, executed"""
    log, t, tn, k, acc = [], t0, min(t0 + dts[0], t1), 0, 0
    res = 0
    while t < t1 and res == 0 and k < max_steps:
        keep = keeps[k]
        if keep:
            log.append((t, tn))
            acc += 1
            if t < fail_at <= tn:
                res = RESV["internal_error"]
        nt0 = tn if keep else t
        nt1 = nt0 + dts[k + 1]
        nt0 = min(nt0, t1)
        near = nt1 > t1 - 200 * np.spacing(abs(t1))
        nt1 = (t1 if keep else nt0 + 0.5 * (t1 - nt0)) if near else nt1
        t, tn, k = nt0, nt1, k + 1
    if res == 0 and t < t1:
        res = RESV["max_steps_reached"]
    return log, t, k, acc, res


def concrete(rng, effort):
    N = 24

    @eqx.filter_jit
    def solve(t0, t1, keeps, dts, fail_at, max_steps):
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), LogSolver(fail_at, N), t0, t1, dts[0], jnp.zeros(1 + 2 * N),
                              stepsize_controller=RandomController(keeps, dts), max_steps=max_steps, throw=False)
        return sol.ts, sol.ys, sol.stats, sol.result._value
    for trial in range(25 * effort):
        t0 = float(rng.choice([0.0, -1.5, 2.0, rng.normal()]))
        span = float(rng.uniform(0.5, 3))
        t1 = t0 + span
        ms = int(rng.choice([4, 12, N]))
        keeps = rng.uniform(size=N + 2) < rng.choice([0.5, 0.8, 1.0])
        dts = rng.uniform(0.05, 0.6, size=N + 3)
        fail_at = float(rng.choice([1e9, t0 + span * rng.uniform()]))
        ts, ys, stats, res = solve(t0, t1, jnp.asarray(keeps), jnp.asarray(dts), fail_at, ms)
        log, t, k, acc, wres = sim(t0, t1, keeps, dts, fail_at, ms)
        y = np.asarray(ys[0])
        n = int(y[0])
        got = list(zip(y[1:1 + n], y[1 + N:1 + N + n]))
        ok = (int(res) == wres and n == acc and close(np.array(got).reshape(-1), np.array(log).reshape(-1), 1e-12)
              and (wres != 0 or float(ts[0]) == t1) and close(float(ts[0]), t, 1e-12)
              and (int(stats["num_steps"]), int(stats["num_accepted_steps"]), int(stats["num_rejected_steps"])) == (k, acc, k - acc))
        ok = ok and all(a < b for a, b in got) and all(got[i][1] == got[i + 1][0] for i in range(n - 1))
        yield None if ok else dict(case=f"t0={t0} t1={t1} keeps={keeps.tolist()} dts={dts.tolist()} fail_at={fail_at} max_steps={ms}",
                                   got=dict(steps=got, result=int(res), stats={k: int(v) for k, v in stats.items() if v is not None}, t=float(ts[0])),
                                   expected=dict(steps=log, result=wres, num_steps=k, accepted=acc, t=t))


CONCRETE = [("stepping log against the reference stepper", concrete)]
