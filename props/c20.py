"""C20: stopping and resuming; what a solve does is a function of its inputs alone."""
from .c17 import *

FI2, FO2 = "diffeqsolve (initialisation)", "diffeqsolve (states handed back)"
STEP_FIELDS = ("y", "tprev", "tnext", "made_jump", "solver_state", "controller_state", "result", "num_steps", "num_accepted_steps", "num_rejected_steps")


def fleaves(st, f):
    v = getattr(st, f)
    return [np.asarray(x, dtype=object) for x in jtu.tree_leaves(v, is_leaf=lambda x: isinstance(x, np.ndarray))]


def passed(tag, ps, dt0=True, backward=False):
    def go(ck):
        begin_loop(ck)
        vc = LoopVC(pass_state=ps, dt0=dt0, backward=backward,
                    saveat=lambda ts: dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True))
        n = lambda s: f"{tag}.{s}"
        sgn = vc.sgn
        t0, t1 = T.mul(sgn, vc.t0), T.mul(sgn, vc.t1)
        req = [vc.order] + vc.requires + vc.floor_facts
        i0 = vc.init
        if "solver" in ps:
            ck.equal_arr(n("given solver state is used"), FI2, i0.solver_state, vc.st["solver"], req)
        if "controller" in ps:
            ck.equal_arr(n("given controller state is used"), FI2, i0.controller_state, vc.st["controller"], req)
        if "made_jump" in ps:
            ck.equal(n("given jump flag is used"), FI2, val(i0.made_jump), val(vc.st["made_jump"]), req)
        else:
            ck.fact(n("no jump at the start"), FI2, val(i0.made_jump) is False, str(val(i0.made_jump)), "simplifier")
        f0 = vf_(S.scalar(vc.t0), vc.y0, vc.args)
        ci = (S.scalar(sgn), S.scalar(t0), S.scalar(t1), *vc.y0) + ((S.scalar(T.mul(sgn, vc.dt0)),) if dt0 else ()) + (S.scalar(vc.args), *f0, S.scalar(ORD))
        first = ufT("ctrl_init_tnext", (), *ci)[()]  # also of a resumed solve: the controller may cut it short
        ck.equal(n("first step"), FI2, val(i0.tnext), first, req + [T.lt(first, vc.lo), T.lt(first, t1)])
        ck.valid(n("first step is cut at t1"), FI2, req + [T.le(t1, first)], T.eq(val(i0.tnext), t1))
        if "solver" not in ps:
            ck.equal_arr(n("otherwise initialised by the solver"), FI2, i0.solver_state,
                         ufT("solver_init", (2,), S.scalar(t0), S.scalar(T.minimum(first, t1)), *vc.y0, S.scalar(vc.args)), req)
        if "controller" not in ps:
            ck.equal_arr(n("otherwise initialised by the controller"), FI2, i0.controller_state, ufT("ctrl_init_state", (2,), *ci), req)
        ck.equal(n("starts at t0"), FI2, val(i0.tprev), t0, req)
        eq_tree(ck, n("starts at y0"), FI2, i0.y, vc.y0, req)
        # -- what is handed back
        x, o = vc.exit, vc.out
        ck.equal_arr(n("solver state handed back"), FO2, o["solver_state"], x.solver_state, req)
        ck.equal_arr(n("controller state handed back"), FO2, o["controller_state"], x.controller_state, req)
        ck.equal(n("jump flag handed back"), FO2, val(o["made_jump"]), val(x.made_jump), req)
        # -- each iteration: states advance with accepted steps only
        p, q = vc.pre, vc.post
        st, c = spec_of(vc)
        prem = req + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
        kp = lambda a, b: S.emap(lambda u, v: T.ite(c["keep"], u, v), a, b)
        ck.equal_arr(n("solver state after a step"), FN, q.solver_state, kp(st["ss"], p.solver_state))
        ck.equal_arr(n("controller state after a step"), FN, q.controller_state, c["cs"])
        ck.valid(n("jump flag after a step"), FN, prem, T.iff(val(q.made_jump), T.ite(c["keep"], c["jump"], val(p.made_jump))))
        # -- a step does not depend on where the solve started
        sm = {vc.t0: T.sym("another_t0"), vc.dt0: T.sym("another_dt0")}
        sm.update({s[()]: T.sym(f"other_{k}") for k, s in enumerate(vc.y0[:1])})
        sm.update({v: T.sym(f"other_y{k}") for k, v in enumerate(vc.y0[1])})
        for k in vc.st:
            sm.update({v: T.sym(f"other_{k}{j}", v.sort) for j, v in enumerate(np.asarray(vc.st[k], dtype=object).reshape(-1))})
        for f in STEP_FIELDS:
            for j, a in enumerate(fleaves(q, f)):
                ck.equal_arr(n(f"a step depends on the state only.{f}.{j}"), FN, a, S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, a), prem)
    return go


def saves(ck):
    """save requests never change the steps"""
    begin_loop(ck)
    f = ufn("fn")
    variants = dict(
        ts=(lambda ts: dfx.SaveAt(ts=ts), dict(nts=M)), t0=(lambda ts: dfx.SaveAt(t0=True), {}), steps=(lambda ts: dfx.SaveAt(steps=True), {}),
        steps3=(lambda ts: dfx.SaveAt(steps=3, t1=True, fn=f), {}), dense=(lambda ts: dfx.SaveAt(dense=True), {}),
        nested=(lambda ts: dfx.SaveAt(subs=[dfx.SubSaveAt(ts=ts, fn=f), dict(a=dfx.SubSaveAt(steps=2, t0=True), b=dfx.SubSaveAt(t1=True))], dense=True, solver_state=True, controller_state=True), dict(nts=M)),
    )
    for backward in (False, True):
        ref = LoopVC(backward=backward)
        for tag, (sa, kw) in variants.items():
            def fix(st, init):
                if not jtu.tree_leaves(st.save_state, is_leaf=issave):
                    return st
                ss = [type(z)(saveat_ts_index=S.scalar(1), ts=z.ts, ys=z.ys, save_index=S.scalar(1)) for z in jtu.tree_leaves(st.save_state, is_leaf=issave)]
                return eqx.tree_at(lambda z: z.save_state, st, jtu.tree_unflatten(jtu.tree_structure(st.save_state, is_leaf=issave), ss))
            vc = LoopVC(saveat=sa, backward=backward, fix_pre=fix, fix_exit=fix, **kw)
            sm = {u: w for u, w in zip(vc.floors, ref.floors)}
            su = lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v
            nm = f"SaveAt({tag}){'(bwd)' if backward else ''}"
            for part, a, b in (("init", vc.init, ref.init), ("body", vc.post, ref.post)):
                for fl in STEP_FIELDS:
                    la, lb = fleaves(a, fl), fleaves(b, fl)
                    ck.fact(f"{nm}.{part}.{fl}.structure", FN, len(la) == len(lb), f"{len(la)} vs {len(lb)}", "extraction")
                    for j, (x, y) in enumerate(zip(la, lb)):
                        ck.equal_arr(f"{nm}.{part}.{fl}.{j}", FN, S.emap(su, x), y, [vc.order])
            ck.valid(f"{nm}.loop condition", "loop.cond_fun", [vc.order], T.iff(su(vc.cond_pre), ref.cond_pre))
            pe = [vc.order] + vc.requires + ref.requires
            ck.valid(f"{nm}.result", "loop", pe, T.eq(val(vc.out["result"]), val(ref.out["result"])))


SECTIONS = [
    ("nothing passed", passed("fresh", ())),
    ("solver state", passed("solver", ("solver",))),
    ("controller state", passed("controller", ("controller",))),
    ("all", passed("all", ("solver", "controller", "made_jump"))),
    ("all, backward", passed("all(bwd)", ("solver", "controller", "made_jump"), backward=True)),
    ("all, no dt0", passed("all(dt0=None)", ("solver", "controller", "made_jump"), dt0=False)),
    ("jump flag only", passed("made_jump", ("made_jump",))),
    ("save requests", saves),
]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """split solves against the uninterrupted one"""
    w = np.array([1.3, -0.7])
    vf = lambda t, y, a: jnp.sin(w * t + y) * 0.9 - 0.2 * y
    solvers = [dfx.Tsit5(), dfx.Bosh3(), dfx.ReversibleHeun(), dfx.LeapfrogMidpoint(), dfx.Kvaerno3(), dfx.Dopri5()]
    for trial in range(3 * effort):
        solver = solvers[trial % len(solvers)]
        adaptive = not isinstance(solver, dfx.LeapfrogMidpoint)
        jump = adaptive and trial % 2 == 1
        pid = dfx.PIDController(rtol=1e-4, atol=1e-5, pcoeff=0.2, icoeff=0.4, dcoeff=0.1)

        @eqx.filter_jit
        def solve(t0, t1, dt0, y0, jt, ss, cs, mj):
            ctrl = (dfx.ClipStepSizeController(pid, jump_ts=jt, store_rejected_steps=8) if jump else pid) if adaptive else dfx.ConstantStepSize()
            g = (lambda t, y, a: vf(t, y, a) + jnp.where((t > jt[0]) == (t1 > t0), 1.0, 0.0)) if jump else vf
            return dfx.diffeqsolve(dfx.ODETerm(g), solver, t0, t1, dt0, y0, stepsize_controller=ctrl, max_steps=2048, solver_state=ss, controller_state=cs, made_jump=mj,
                                   saveat=dfx.SaveAt(steps=True, solver_state=True, controller_state=True, made_jump=True))
        for sg in (1, -1):
            t0 = float(rng.uniform(-1, 1))
            t1 = t0 + sg * 2.0
            jt = jnp.asarray(np.sort([t0 + sg * 0.7, t0 + sg * 1.4]))
            y0 = jnp.asarray(rng.normal(size=2))
            dt0 = sg * 0.125
            full = solve(t0, t1, dt0, y0, jt, None, None, None)
            n = int(full.stats["num_accepted_steps"])
            st = np.asarray(full.ts[:n])
            for k in sorted({int(v) for v in rng.integers(1, n - 1, size=1 + effort)} | {1}):
                tm = float(st[k - 1])
                if jump and np.min(np.abs(np.asarray(jt) - tm)) < 1e-9:
                    continue  # a solve ending within rounding of a jump
                a = solve(t0, tm, dt0, y0, jt, None, None, None)
                na = int(a.stats["num_accepted_steps"])
                # the next step of the uninterrupted solve
                dtk = float(st[k] - tm)
                if jump and np.min(np.abs(np.asarray(jt) - st[k])) < 1e-9:
                    dtk *= 1 + 1e-9  # up to rounding it may end just short of the jump; asked to go past it, it is clipped to it again
                b = solve(tm, t1, dtk, a.ys[na - 1], jt, a.solver_state, a.controller_state, a.made_jump)
                nb = int(b.stats["num_accepted_steps"])
                good = na == k and nb == n - k and close(b.ts[:nb], st[k:], 1e-5) and close(b.ys[:nb], full.ys[k:n], 1e-6) and \
                    close(a.ys[:na], full.ys[:k], 1e-9) and bool(b.result == dfx.RESULTS.successful)
                if int(full.stats["num_rejected_steps"]) and not good:
                    # a retry of a rejected first step is the only thing that may differ
                    good = close(b.ys[nb - 1], full.ys[n - 1], 1e-3) and nb <= n + n // 4
                yield None if good else dict(case=f"{type(solver).__name__} jump={jump} split at accepted step {k} of {n}: t0={t0} t1={t1} y0={y0.tolist()}",
                                             got=dict(ts=np.asarray(b.ts[:nb]).tolist(), y=np.asarray(b.ys[nb - 1]).tolist(), na=na, nb=nb),
                                             expected=dict(ts=st[k:].tolist(), y=np.asarray(full.ys[n - 1]).tolist()))


CONCRETE = [("split solves", concrete)]
