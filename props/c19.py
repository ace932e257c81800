"""C19: implicit solves succeed only when converged; failures are never masked."""
import lineax as lx
import lineax.internal as lxi

from .rk import *
from .mainloop import LoopVC, RESV, okay, val, anyresult, contract_ctrl, ctrl_, step_, RES
from . import c02 as _c02
from .c17 import mk_event, GD, leaves

FS, FT, FI = "VeryChord.step", "VeryChord.terminate", "VeryChord.init"
OK = RESV["successful"]
OPTX = {n: int(np.asarray(getattr(optx.RESULTS, n)._value)) for n in ("successful", "nonlinear_divergence", "nonlinear_max_steps_reached")}


# ---------------------------------------------------------------- the chord iteration
class StubLin(lx.AbstractLinearSolver):
    """a linear solver about which nothing is known but what it is given"""

    def init(self, operator, options):
        return uf("lininit", sds((3, 3)), operator.as_matrix())

    def compute(self, state, vector, options):
        raise AssertionError

    def transpose(self, *a):
        raise AssertionError

    def conj(self, *a):
        raise AssertionError

    def assume_full_rank(self):
        return True


class _LinSol:
    pass


class lin_stub:
    """lineax.linear_solve by contract: some vector, determined by the operator, the prepared state and the right hand side, and a success flag"""

    def __enter__(self):
        self.old = lx.linear_solve
        self.calls = []

        def linear_solve(op, vector, solver=None, *, state=None, options=None, throw=True, **kw):
            self.calls.append(dict(throw=throw, solver=solver))
            m = op.as_matrix()
            leaves_, td = jtu.tree_flatten(vector)
            st = jtu.tree_leaves(eqx.filter(state, eqx.is_array))
            v = uf("linsolve", [sds(x.shape) for x in leaves_], m, *st, *leaves_)
            ok = uf("linok", sds((), "bool"), m, *st, *leaves_)
            s = _LinSol()
            s.value = jtu.tree_unflatten(td, v)
            s.result = lx.RESULTS.where(ok, lx.RESULTS.successful, lx.RESULTS.singular)
            return s
        lx.linear_solve = linear_solve
        return self

    def __exit__(self, *a):
        lx.linear_solve = self.old


def g(y, args):
    v = uf("g", sds((3,)), y["a"], y["b"], args)
    return {"a": v[0], "b": v[1:]}, None


YEX = {"a": jnp.asarray(1.0), "b": jnp.ones(2)}
norm = lambda z: uf("norm", sds(), *jtu.tree_leaves(z))


def chord(ck):
    begin(ck)
    ck.assume("optimistix.root_find iterates init/step until terminate reports to stop, and reports nonlinear_max_steps_reached beyond max_steps")
    vc = dfx.VeryChord(rtol=1e-3, atol=1e-5, norm=norm, linear_solver=StubLin())

    def f(ylin, y, args, d, dp, diff, step, lok):
        st0 = vc.init(g, ylin, args, {}, YEX, None, frozenset())
        res = optx.RESULTS.where(lok, optx.RESULTS.successful, optx.RESULTS.nonlinear_divergence)
        st = eqx.tree_at(lambda s: (s.diffsize, s.diffsize_prev, s.diff, s.step, s.result), st0, (d, dp, diff, step, res))
        again = vc.init(g, y, args, dict(init_state=st), YEX, None, frozenset())
        y1, st1, aux = vc.step(g, y, args, {}, st, frozenset())
        pp = vc.postprocess(g, y1, aux, args, {}, st1, frozenset(), st1.result)[0]
        arrs = lambda s: dict(d=s.diffsize, dp=s.diffsize_prev, diff=s.diff, step=s.step, result=s.result._value, lin=jtu.tree_leaves(eqx.filter(s.linear_state, eqx.is_array)))
        return dict(init=arrs(st0), st=arrs(st), again=arrs(again), y1=y1, new=arrs(st1), pp=pp)
    s = T.sym
    yl = {"a": S.scalar(s("la")), "b": symarr("lb", (2,))}
    y = {"a": S.scalar(s("ya")), "b": symarr("yb", (2,))}
    df = {"a": S.scalar(s("da")), "b": symarr("db", (2,))}
    vals = (yl, y, S.scalar(s("args")), S.scalar(s("d")), S.scalar(s("dp")), df, S.scalar(s("k", "I")), S.scalar(s("lok", "B")))
    with lin_stub() as ls:
        o, ev = run(f, (YEX, YEX, 1.0, jnp.asarray(1.0), jnp.asarray(1.0), YEX, jnp.asarray(1), jnp.asarray(True)), vals)
    flat = lambda t_: np.concatenate([np.reshape(t_["a"], (1,)), np.reshape(t_["b"], (2,))])
    lin_at = [yl["a"], yl["b"], S.scalar(s("args"))]
    J = np.empty((3, 3), dtype=object)
    for j in range(3):
        J[:, j] = ufT(f"g'{j}", (3,), *lin_at)
    # init
    i0 = o["init"]
    ck.equal(f"init.diffsize", FI, val(i0["d"]), T.INF)
    ck.fact("init.step", FI, val(i0["step"]) == 0, f"{val(i0['step'])}")
    ck.fact("init.result", FI, val(i0["result"]) == OPTX["successful"], "")
    for a, b in zip(jtu.tree_leaves(o["again"], is_leaf=lambda z: isinstance(z, np.ndarray)), jtu.tree_leaves(o["st"], is_leaf=lambda z: isinstance(z, np.ndarray))):
        ck.equal_arr("init.a given state is used as it is", FI, a, b)
    # the prepared state is that of the Jacobian at the linearisation point
    st = ufT("lininit", (3, 3), J)
    # step
    gx = ufT("g", (3,), y["a"], y["b"], S.scalar(s("args")))
    ga, gb = gx[0], gx[1:]
    lin = [ufT("linsolve", (), J, st, S.scalar(ga), gb, nout=2, o=0), ufT("linsolve", (2,), J, st, S.scalar(ga), gb, nout=2, o=1)]
    diff = np.concatenate([lin[0].reshape(1), lin[1]])
    y1 = S.emap(T.sub, flat(y), diff)
    ck.equal_arr("step.new iterate = y - J^{-1} f(y)", FS, flat(o["y1"]), y1)
    ck.equal_arr("postprocess.returns the iterate", "VeryChord.postprocess", flat(o["pp"]), y1)
    n = o["new"]
    ck.equal_arr("step.diff", FS, flat(n["diff"]), diff)
    sc = S.emap(lambda v: T.add(T.flt(1e-5), T.mul(T.flt(1e-3), T.abs_(v))), y1)
    q = S.emap(T.div, diff, sc)
    ck.equal("step.diffsize is the tolerance-scaled displacement", FS, val(n["d"]), ufT("norm", (), S.scalar(q[0]), q[1:])[()])
    ck.equal("step.previous diffsize kept", FS, val(n["dp"]), s("d"))
    ck.equal("step.count", FS, val(n["step"]), T.add(s("k", "I"), 1))
    for a, b in zip(n["lin"], i0["lin"]):
        ck.equal_arr("step.the linearisation is frozen", FS, a, b)
    lok = ufT("linok", (), J, st, S.scalar(ga), gb, sort="B")[()]
    ck.valid("step.a failed linear solve is reported", FS, [], T.iff(T.eq(val(n["result"]), OPTX["successful"]), lok))
    ck.fact("step.linear failures do not raise", FS, all(c["throw"] is False for c in ls.calls) and all(isinstance(c["solver"], StubLin) for c in ls.calls), str(ls.calls))


def terminate(ck):
    begin(ck)
    kappa = 1e-2
    vc = dfx.VeryChord(rtol=1e-3, atol=1e-5, norm=norm, linear_solver=StubLin())
    ck.fact("default kappa", "VeryChord", vc.kappa == kappa, f"{vc.kappa}")
    for kap in (1e-2, 0.5):
        vc = dfx.VeryChord(rtol=1e-3, atol=1e-5, norm=norm, kappa=kap, linear_solver=StubLin())

        def f(d, dp, step, lok):
            st0 = vc.init(g, YEX, jnp.asarray(1.0), {}, YEX, None, frozenset())
            res = optx.RESULTS.where(lok, optx.RESULTS.successful, optx.RESULTS.nonlinear_divergence)
            st = eqx.tree_at(lambda s: (s.diffsize, s.diffsize_prev, s.step, s.result), st0, (d, dp, step, res))
            t_, r = vc.terminate(g, YEX, jnp.asarray(1.0), {}, st, frozenset())
            return t_, r._value
        e = Extract(f, (jnp.asarray(1.0), jnp.asarray(1.0), jnp.asarray(1), jnp.asarray(True)))
        d, dp, k, lok = T.sym("d"), T.sym("dp"), T.sym("k", "I"), T.sym("lok", "B")
        (tm, rs), _ = e((S.scalar(d), S.scalar(dp), S.scalar(k), S.scalar(lok)))
        tm, rs = val(tm), val(rs)
        rate = T.div(d, dp)
        fac = T.div(T.mul(d, rate), T.sub(1, rate))
        prem = [T.lt(0, dp), T.le(0, d), T.not_(T.eq(d, dp)), T.le(0, k)]
        small = T.lt(d, T.flt(1e-13))
        conv = T.and_(T.lt(0, fac), T.lt(fac, T.flt(kap)))
        div_ = T.lt(2, rate)
        two = T.le(2, k)
        n = lambda q: f"kappa={kap}.{q}"
        ck.sat(n("premises"), prem)
        good = T.eq(rs, OPTX["successful"])
        ck.valid(n("success only when converged"), FT, prem + [tm, good], T.and_(lok, two, T.or_(small, T.and_(conv, T.not_(div_)))))
        ck.valid(n("converged means contracting, with estimated remaining error below kappa"), FT, prem + [tm, good, T.not_(small), T.lt(0, d)],
                 T.and_(T.lt(d, dp), T.lt(T.mul(d, d), T.mul(T.flt(kap), T.sub(dp, d)))))
        ck.valid(n("a failed linear solve stops the iteration"), FT, prem + [T.not_(lok)], T.and_(tm, T.not_(good)))
        ck.valid(n("divergence stops the iteration and is a failure"), FT, prem + [two, div_, T.not_(small)], T.and_(tm, T.not_(good)))
        ck.valid(n("never before two iterations"), FT, prem + [lok, T.not_(two)], T.not_(tm))
        ck.valid(n("convergence stops the iteration"), FT, prem + [lok, two, conv], T.and_(tm, good))
        ck.valid(n("no movement stops the iteration"), FT, prem + [lok, two, small], T.and_(tm, good))
        ck.valid(n("not yet converged: goes on, or fails"), FT, prem + [lok, two, T.not_(conv), T.not_(small)], T.not_(good))
        # non-finite and boundary displacements (ground)
        for nm, dv, pv in [("d=inf", T.INF, Fr(1)), ("d=nan", T.NAN, Fr(1)), ("both inf", T.INF, T.INF), ("previous nan", Fr(1), T.NAN),
                           ("d=dp", Fr(1), Fr(1)), ("dp=0", Fr(1), Fr(0)), ("d=inf, dp=0", T.INF, Fr(0))]:
            (t2, r2), _ = e((S.scalar(dv), S.scalar(pv), S.scalar(Fr(5).numerator), S.scalar(True)))
            ck.fact(n(f"{nm} is not a success"), FT, val(r2) != OPTX["successful"] if T.is_c(val(r2)) else False, f"terminate={val(t2)} result={val(r2)}")


# ---------------------------------------------------------------- steps
def rkstep(name):
    def go(ck):
        begin(ck)
        for kind in ("ode", "tree", "expensive"):
            prob = Problem(kind, 2 if name in IMEX else 1)
            r = one_step(name, prob, None, False, False, f0=f0_values(prob))
            y1, err, dense, state, res = r["out"]
            roots = roots_of(r["ev"], prob)
            oks = [ok for *_, ok in roots]
            allok = T.and_(*oks) if len(oks) > 1 else oks[0]
            fn = f"{name}.step"
            n = lambda s: f"{name}.{kind}.{s}"
            ck.sat(n("premises"), [T.not_(allok)])
            ck.valid(n("okay exactly when every implicit stage was solved"), fn, [], T.iff(okay(val(res)), allok))
            for i, v in enumerate(prob.flat(err).reshape(-1)):
                ck.equal(n(f"infinite error estimate on failure[{i}]"), fn, v, T.INF, [T.not_(allok)])
            for ok in oks:
                ck.valid(n(f"a failing stage fails the step [{oks.index(ok)}]"), fn, [T.not_(ok)], T.not_(okay(val(res))))
            ck.fact(n("root finder called without raising, with the solver's iteration limit"), fn,
                    all(c.get("throw") is False and c.get("max_steps") == r["solver"].root_find_max_steps for c in r["calls"]) and len(r["calls"]) > 0, str([(c.get("throw"), c.get("max_steps")) for c in r["calls"]]))
    return go


def ieuler(ck):
    begin(ck)
    for kind in ("ode", "tree", "cde"):
        prob = Problem(kind)
        solver = dfx.ImplicitEuler(root_finder=StubRF(), root_find_max_steps=7)

        def step(t0, hh, y0):
            y1, err, dense, st, res = solver.step(prob.term, t0, t0 + hh, y0, None, None, False)
            return y1, err, jnp.asarray(res._value)
        with root_stub() as rs:
            e = Extract(step, (0.0, 1.0, prob.yex))
        (y1, err, res), ev = e((t, h, prob.tree(prob.y)))
        fn = "ImplicitEuler.step"
        n = lambda s: f"ImplicitEuler.{kind}.{s}"
        roots = roots_of(ev, prob)
        ck.fact(n("one implicit solve"), fn, len(roots) == 1, str(len(roots)))
        vals, resid, guess, ok = roots[0]
        t1 = T.add(t, h)
        inc = vals.reshape(prob.y.shape)
        Y1 = aadd(prob.y, inc)
        want = S.emap(T.sub, prob.K("f", S.scalar(t1), Y1, h, t, t1), inc)
        r1 = same_ring(resid.reshape(want.shape), want)
        want = want if r1 else S.emap(T.neg, want)
        ck.equal_arr(n("the relation solved is z = f(t1, y0 + z) h"), fn, resid.reshape(want.shape), want)
        ck.equal_arr(n("y1"), fn, prob.flat(y1).reshape(prob.y.shape), Y1)
        ck.valid(n("okay exactly when the implicit stage was solved"), fn, [], T.iff(okay(val(res)), ok))
        k0 = prob.K("f", S.scalar(t), prob.y, h, t, t1)
        for i, (v, w) in enumerate(zip(prob.flat(err).reshape(-1), S.emap(lambda a, b: T.mul(Fr(1, 2), T.sub(a, b)), inc, k0).reshape(-1))):
            ck.equal(n(f"infinite error estimate on failure[{i}]"), fn, v, T.INF, [T.not_(ok)])
            ck.equal(n(f"error estimate (trapezoidal rule)[{i}]"), fn, v, w, [ok])
        ck.fact(n("root finder called without raising, with the solver's iteration limit"), fn,
                all(c.get("throw") is False and c.get("max_steps") == 7 for c in rs.calls), str([(c.get("throw"), c.get("max_steps")) for c in rs.calls]))


class _Any(dfx.AbstractSolver):
    """an arbitrary solver that can fail"""
    term_structure = dfx.AbstractTerm
    interpolation_cls = dfx.LocalLinearInterpolation

    def order(self, terms):
        return 1

    def init(self, *a):
        return None

    def func(self, *a):
        raise AssertionError

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        y1 = uf("one", sds(), t0, t1, y0)
        return y1, None, dict(y0=y0, y1=y1), None, anyresult("res", t0, t1, y0)


def half(ck):
    begin(ck)

    def step(t0, hh, y0):
        y1, err, dense, st, res = dfx.HalfSolver(_Any()).step(dfx.ODETerm(lambda *a: None), t0, t0 + hh, y0, None, None, False)
        return y1, err, jnp.asarray(res._value)
    (y1, err, res), ev = run(step, (0.0, 1.0, jnp.asarray(1.0)), (t, h, S.scalar(T.sym("y"))))
    fn = "HalfSolver.step"
    y, t1 = S.scalar(T.sym("y")), T.add(t, h)
    th = T.add(t, T.mul(Fr(1, 2), h))
    yh = ufT("one", (), S.scalar(t), S.scalar(th), y)
    oks = [ufT("res_ok", (), S.scalar(t), S.scalar(th), y, sort="B")[()], ufT("res_ok", (), S.scalar(th), S.scalar(t1), yh, sort="B")[()],
           ufT("res_ok", (), S.scalar(t), S.scalar(t1), y, sort="B")[()]]
    present = [o for o in T.subterms([val(res)]) if o.op == "app" and o.name.startswith("res_ok")]
    rg = lambda o: next((p for p in present if all(RG.Ring().is_zero(T.sub(a, b)) for a, b in zip(o.args, p.args))), o)
    oks = [rg(o) for o in oks]
    allok = T.and_(*oks)
    ck.valid("HalfSolver.okay exactly when all three steps are", fn, [], T.iff(okay(val(res)), allok))
    ck.equal("HalfSolver.infinite error estimate on failure", fn, val(err), T.INF, [T.not_(allok)])


# ---------------------------------------------------------------- the solve
def result_of(s):
    return val(s.result._value)


def mainloop(tag, ev, rf, backward):
    def go(ck):
        _c02.begin_loop(ck)
        spec = [(nm, d, False) for nm, d in GD[:2]]
        vc = LoopVC(event=mk_event(spec, rf) if ev else None, backward=backward, throw=True)
        n = lambda s: f"{tag}.{s}"
        req = [vc.order] + vc.requires
        p, q = vc.pre, vc.post
        st, c = _c02.spec_of(vc)
        prem = req + vc.floor_facts + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
        FB = "loop.body_fun"
        ck.sat(n("premises"), prem + [c["keep"], T.not_(okay(st["result"]))])
        ck.valid(n("a kept step that failed ends the solve with that failure"), FB, prem + [c["keep"], T.not_(okay(st["result"]))],
                 T.eq(result_of(q), st["result"]))
        ck.valid(n("a failing step size controller ends the solve"), FB, prem + [T.not_(okay(c["result"]))], T.not_(okay(result_of(q))))
        ck.valid(n("a rejected failed step is only retried"), FB, prem + [T.not_(c["keep"]), okay(c["result"])], okay(result_of(q)))
        ck.valid(n("the solve stops after a failure"), "loop.cond_fun", req + [T.not_(okay(result_of(p)))], T.not_(vc.cond_pre))
        x, o = vc.exit, vc.out
        pe = req + [T.not_(okay(result_of(x)))]
        ck.valid(n("a failure is returned"), "loop", pe, T.not_(okay(val(o["result"]))))
        rok = [val(vals[1]) for tg, vals, path in vc.late if tg == "rootfind"]
        ck.valid(n("and is the one that happened"), "loop", pe + rok, T.eq(val(o["result"]), result_of(x)))
        ck.valid(n("running out of steps is a failure"), "loop", req + [vc.cond_exit], T.eq(val(o["result"]), RESV["max_steps_reached"]))
        if rf is not None:
            rn = [vals for tg, vals, path in vc.late if tg == "rootfind"]
            ck.fact(n("one root find"), "loop", len(rn) == 1, str(len(rn)))
            okr = val(rn[0][1])
            masks = leaves(x.event_mask)
            had = T.or_(*masks)
            ck.valid(n("a failed search for the event is a failure"), "loop", req + [T.eq(result_of(x), RESV["event_occurred"]), had, T.lt(0, val(x.num_steps)), T.not_(okr)],
                     T.not_(okay(val(o["result"]))))
        th = [vals for tg, vals, path in vc.late if tg == "throw"]
        ck.fact(n("one error check"), "diffeqsolve", len(th) == 1, str(len(th)))
        ck.valid(n("throws exactly when the solve failed"), "diffeqsolve", req, T.iff(val(th[0][0]), T.not_(okay(val(o["result"])))))
        ck.equal(n("throws the message of the failure"), "diffeqsolve", val(th[0][1]), val(o["result"]), req)
    return go


def table(ck):
    begin(ck)
    names = [nm for nm in ("successful", "event_occurred", "max_steps_reached", "dt_min_reached", "internal_error", "nonlinear_divergence")]
    k = lambda nm: "S" if nm == "successful" else ("E" if nm == "event_occurred" else "F")
    from diffrax._solution import update_result, is_okay, is_successful, is_event
    R = lambda i: RES.where(i == 0, RES.successful, RES.where(i == 1, RES.event_occurred, RES.where(i == 2, RES.max_steps_reached, RES.where(i == 3, RES.dt_min_reached, RES.where(i == 4, RES.internal_error, RES.nonlinear_divergence)))))
    i, j = T.sym("i", "I"), T.sym("j", "I")

    def f(i, j):
        a, b = R(i), R(j)
        return update_result(a, b)._value, a._value, b._value, is_okay(a), is_successful(a), is_event(a)
    (o, a, b, ok, su, evn), _ = run(f, (jnp.asarray(0), jnp.asarray(0)), (S.scalar(i), S.scalar(j)))
    o, a, b, ok, su, evn = map(val, (o, a, b, ok, su, evn))
    for p in range(6):
        ck.valid(f"is_okay.{names[p]}", "is_okay", [T.eq(i, p)], T.iff(ok, p <= 1))
        ck.valid(f"is_successful.{names[p]}", "is_successful", [T.eq(i, p)], T.iff(su, p == 0))
        ck.valid(f"is_event.{names[p]}", "is_event", [T.eq(i, p)], T.iff(evn, p == 1))
        for q in range(6):
            old, new = k(names[p]), k(names[q])
            want = {("S", "S"): b, ("S", "E"): b, ("S", "F"): b, ("E", "S"): a, ("E", "E"): a, ("E", "F"): b, ("F", "S"): a, ("F", "E"): a, ("F", "F"): a}[old, new]
            ck.valid(f"update_result.{names[p]}+{names[q]}", "update_result", [T.eq(i, p), T.eq(j, q)], T.eq(o, want))


# ---------------------------------------------------------------- tolerances
def tols(ck):
    begin(ck)
    nrm = lambda z: jnp.sum(z)
    seen = {}

    class Spy(dfx.Kvaerno3):
        def init(self, terms, t0, t1, y0, args):
            rf = self.root_finder
            seen["rf"] = rf
            return super().init(terms, t0, t1, y0, args)

    class SpyE(dfx.ImplicitEuler):
        def init(self, terms, t0, t1, y0, args):
            seen["rf"] = self.root_finder
            return super().init(terms, t0, t1, y0, args)
    pid = lambda: dfx.PIDController(rtol=1.5e-3, atol=2.5e-6, norm=nrm)

    def go(solver, ctrl):
        seen.clear()
        jax.eval_shape(lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t_, y, a: -y), solver, 0.0, 1.0, 0.1, jnp.ones(2), stepsize_controller=ctrl, max_steps=16).ys)
        return seen["rf"]
    FN = "diffeqsolve (root finder tolerances)"
    num = lambda x: float(x) if not isinstance(x, jax.core.Tracer) else None
    for cn, ctrl in (("PID", pid()), ("Clip(PID)", dfx.ClipStepSizeController(pid(), step_ts=[0.5]))):
        for sn, mk in (("Kvaerno3", Spy), ("ImplicitEuler", SpyE), ("HalfSolver(ImplicitEuler)", lambda **kw: dfx.HalfSolver(SpyE(**kw)))):
            rf = go(mk(), ctrl)
            try:
                got = (num(rf.rtol), num(rf.atol))
            except Exception:
                got = None
            ck.fact(f"{sn}+{cn}.the tolerances of the controller are used", FN, got == (1.5e-3, 2.5e-6) and rf.norm is nrm, f"{rf}")
            own = dfx.VeryChord(rtol=7e-2, atol=8e-2, norm=optx.rms_norm)
            rf = go(mk(root_finder=own), ctrl)
            ck.fact(f"{sn}+{cn}.explicit tolerances are kept", FN, (num(rf.rtol), num(rf.atol)) == (7e-2, 8e-2) and rf.norm is optx.rms_norm, f"{rf}")
    for sn, mk in (("Kvaerno3", Spy), ("ImplicitEuler", SpyE), ("HalfSolver(ImplicitEuler)", lambda **kw: dfx.HalfSolver(SpyE(**kw)))):
        try:
            go(mk(), dfx.ConstantStepSize())
            bad = True
        except ValueError:
            bad = False
        ck.fact(f"{sn}+ConstantStepSize.missing tolerances are an error", FN, not bad, "no error raised")


SECTIONS = [("VeryChord.step", chord), ("VeryChord.terminate", terminate), ("ImplicitEuler", ieuler), ("HalfSolver", half)]
SECTIONS += [(nm, rkstep(nm)) for nm in IMPLICIT + IMEX]
SECTIONS += [("solve", mainloop("solve", False, None, False)), ("solve with events", mainloop("solve with events", True, None, False)),
             ("solve with located events", mainloop("solve with located events", True, optx.Newton(1e-6, 1e-6), False)),
             ("backward solve with located events", mainloop("backward solve with located events", True, optx.Newton(1e-6, 1e-6), True)),
             ("update_result", table), ("tolerances", tols)]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    f = lambda t_, y, a: -50 * (y ** 3 - jnp.cos(t_)) - 3 * y
    impl = [dfx.ImplicitEuler, dfx.Kvaerno3] + ([dfx.Kvaerno5, dfx.KenCarp4] if effort > 1 else [])
    for cls in impl:
        imex = cls is dfx.KenCarp4
        terms = dfx.ODETerm(f) if not imex else dfx.MultiTerm(dfx.ODETerm(lambda t_, y, a: -0.1 * y), dfx.ODETerm(f))
        for ms in (2, 3, 10):
            for y0 in (float(rng.uniform(0.5, 3)), 30.0):
                hh = float(rng.choice([0.01, 0.3, 2.0]))
                s = cls(root_finder=dfx.VeryChord(rtol=1e-6, atol=1e-8), root_find_max_steps=ms)
                y0a = jnp.array([y0])
                st = s.init(terms, jnp.asarray(0.0), jnp.asarray(hh), y0a, None)
                y1, err, dense, _, res = eqx.filter_jit(s.step)(terms, jnp.asarray(0.0), jnp.asarray(hh), y0a, None, st, jnp.asarray(False))
                good = res == dfx.RESULTS.successful
                case = f"{cls.__name__}: one step h={hh} from y={y0}, {ms} iterations"
                bad = None
                if not bool(good) and not bool(jnp.all(jnp.isinf(err))):
                    bad = f"failed solve with error estimate {err}"
                if bool(good) and cls is dfx.ImplicitEuler:
                    r = float(abs(y0 + hh * f(hh, y1, None)[0] - y1[0])) / (1 + abs(float(y1[0])) + hh * 150 * float(y1[0]) ** 2)
                    if not r < 1e-3:
                        bad = f"reported success with residual {r}"
                yield None if bad is None else dict(case=case, why=bad)
        # adaptive solve: the failing steps are rejected and retried
        sol = dfx.diffeqsolve(terms, cls(root_find_max_steps=3), 0.0, 0.5, 0.2, jnp.array([2.0]), stepsize_controller=dfx.PIDController(rtol=1e-2, atol=1.0), throw=False, max_steps=4096)
        yield None if sol.result == dfx.RESULTS.successful else dict(case=f"{cls.__name__}: adaptive solve with 3 root finder iterations", result=str(sol.result))
        # fixed steps: the solve fails, and no event hides it
        for evn in (False, True):
            ev = dfx.Event(lambda t_, y, a, **kw: jnp.asarray(t_ > 0.01)) if evn else None
            nan = dfx.ODETerm(lambda t_, y, a: y * jnp.nan) if not imex else dfx.MultiTerm(dfx.ODETerm(lambda t_, y, a: -y), dfx.ODETerm(lambda t_, y, a: y * jnp.nan))
            s = cls(root_finder=dfx.VeryChord(rtol=1e-6, atol=1e-8), root_find_max_steps=4)
            kw = dict(event=ev) if evn else {}
            sol = dfx.diffeqsolve(nan, s, 0.0, 1.0, 0.2, jnp.array([2.0]), throw=False, **kw)
            okr = bool(sol.result == dfx.RESULTS.successful) or bool(sol.result == dfx.RESULTS.event_occurred)
            yield None if not okr else dict(case=f"{cls.__name__}: NaN vector field with fixed steps, event={evn}", result=str(sol.result))
            try:
                dfx.diffeqsolve(nan, s, 0.0, 1.0, 0.2, jnp.array([2.0]), throw=True, **kw).ys.block_until_ready()
                raised = False
            except Exception:
                raised = True
            yield None if raised else dict(case=f"{cls.__name__}: NaN vector field with fixed steps, throw=True, event={evn}", why="nothing raised")
    # VeryChord alone: success implies a small residual
    def solve(fn, y0, ms, args):
        return optx.root_find(fn, dfx.VeryChord(rtol=1e-6, atol=1e-6), y0, args, max_steps=ms, throw=False)
    js = eqx.filter_jit(lambda y0, a: (lambda s: (s.value, s.result == optx.RESULTS.successful))(solve(lambda y, a: a[0] * y + a[1] * jnp.sin(3 * y) + a[2] * y ** 3 - a[3], y0, 12, a)))
    for _ in range(40 * effort):
        a = rng.normal(size=4) * np.array([1, 1, 0.3, 2])
        y0 = float(rng.normal() * 3)
        v, good = js(jnp.asarray(y0), jnp.asarray(a))
        if bool(good):
            v = float(v)
            r = abs(a[0] * v + a[1] * np.sin(3 * v) + a[2] * v ** 3 - a[3])
            slope = abs(a[0]) + 3 * abs(a[1]) + 3 * abs(a[2]) * v * v + 1
            j0 = abs(a[0] + 3 * a[1] * np.cos(3 * y0) + 3 * a[2] * y0 * y0)
            bad = not r <= 1e-4 * (1 + abs(v)) * max(slope, j0)
            yield None if not bad else dict(case=f"VeryChord on {a.tolist()} from {y0}", value=v, residual=r)
        else:
            yield None


CONCRETE = [("implicit solves", concrete)]
