"""C17: events. The real loop of `diffeqsolve` with arbitrary condition functions (uninterpreted), directions and root finder."""
from .c02 import *

FE, FEI, FR = "loop.body_fun (events)", "diffeqsolve (events)", "loop (event location)"
SUCC, EVT = RESV["successful"], RESV["event_occurred"]
GD = [("g", None), ("h", True), ("k", False)]


def cond(name, boolean=False):
    return lambda t, y, args, **kw: uf(name, sds((), "bool" if boolean else "float64"), t, y, args)


def cond_(name, t, y, args, boolean=False):
    return ufT(name, (), S.scalar(t), *y, S.scalar(args), sort="B" if boolean else "R")[()]


def crossed(old, new, d):
    """a change of sign in the requested direction"""
    up = lambda: T.and_(T.le(old, 0), T.lt(0, new))
    down = lambda: T.and_(T.lt(0, old), T.le(new, 0))
    if d is None:
        sg = lambda v: T.ite(T.lt(v, 0), -1, T.ite(T.lt(0, v), 1, 0))
        return T.not_(T.eq(sg(old), sg(new)))
    return up() if d else down()


def firsts(ms):
    out, had = [], False
    for m in ms:
        out.append(T.and_(m, T.not_(had)))
        had = T.or_(had, m)
    return out, had


def leaves(x):
    return [val(v) for v in jtu.tree_leaves(x, is_leaf=lambda z: isinstance(z, np.ndarray))]


def ev_inv(vc, s, spec):
    """the stored condition values are those at the current time and state, and while the solve runs no boolean condition holds"""
    out = []
    for (nm, d, b), v in zip(spec, leaves(s.event_values)):
        w = cond_(nm, T.mul(vc.sgn, val(s.tprev)), s.y, vc.args, b)
        out.append(T.iff(v, w) if b else T.eq(v, w))
        if b:
            out.append(T.implies(T.eq(result_of(s), SUCC), T.not_(v)))
    return out


def mk_event(spec, rf=None):
    return lambda: dfx.Event([cond(n, b) for n, d, b in spec], rf, direction=[d for n, d, b in spec])


def detect(tag, spec, backward=False, rf=None):
    def go(ck):
        begin_loop(ck)
        vc = LoopVC(event=mk_event(spec, rf), backward=backward)
        ref = LoopVC(backward=backward)
        n = lambda s: f"{tag}.{s}"
        req = [vc.order] + vc.requires
        t0 = T.mul(vc.sgn, vc.t0)
        # -- before the first step
        i0 = vc.init
        v0 = [cond_(nm, vc.t0, vc.y0, vc.args, b) for nm, d, b in spec]
        for (nm, d, b), got, want in zip(spec, leaves(i0.event_values), v0):
            ck.equal(n(f"init.value.{nm}"), FEI, got, want, req)
        m0, had0 = firsts([v if b else False for (nm, d, b), v in zip(spec, v0)])
        for (nm, d, b), got, want in zip(spec, leaves(i0.event_mask), m0):
            ck.valid(n(f"init.mask.{nm}: only a boolean condition can hold at the start"), FEI, req, T.iff(got, want))
        ck.valid(n("init.result"), FEI, req, T.eq(result_of(i0), T.ite(had0, EVT, SUCC)))
        ck.equal(n("init.interval start"), FEI, val(i0.event_tprev), t0, req)
        ck.equal(n("init.interval end"), FEI, val(i0.event_tnext), t0, req)
        for k, g in enumerate(ev_inv(vc, i0, spec)):
            ck.valid(n(f"invariant.init[{k}]"), FEI, req, g)
        # -- one iteration
        p, q = vc.pre, vc.post
        st, c = spec_of(vc)
        prem = req + vc.floor_facts + inv(vc, p) + ev_inv(vc, p, spec) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
        ck.sat(n("body premises"), prem + [c["keep"]])
        ck.sat(n("body premises (rejected)"), prem + [T.not_(c["keep"])])
        old = leaves(p.event_values)
        new = [cond_(nm, T.mul(vc.sgn, val(q.tprev)), q.y, vc.args, b) for nm, d, b in spec]
        for (nm, d, b), got, want in zip(spec, leaves(q.event_values), new):
            ck.equal(n(f"value.{nm}: at the end of the step, in user time"), FE, got, want, prem)
        trig = [v if b else crossed(o, v, d) for (nm, d, b), o, v in zip(spec, old, new)]
        ms, had = firsts(trig)
        for (nm, d, b), got, want in zip(spec, leaves(q.event_mask), ms):
            ck.valid(n(f"mask.{nm}: the first condition that triggers"), FE, prem, T.iff(got, want))
        s0 = T.ite(c["keep"], st["result"], SUCC)
        r0 = T.ite(okay(result_of(p)), s0, result_of(p))
        r0 = T.ite(okay(r0), c["result"], r0)
        ck.valid(n("result: event_occurred exactly when a condition triggered and nothing failed"), FE, prem,
                 T.eq(result_of(q), T.ite(T.and_(had, okay(r0)), EVT, r0)))
        ck.valid(n("a rejected step triggers nothing"), FE, prem + [T.not_(c["keep"])], T.not_(had))
        for g_, got in zip([nm for nm, _, _ in spec], leaves(q.event_mask)):
            ck.valid(n(f"a rejected step has no event ({g_})"), FE, prem + [T.not_(c["keep"])], T.not_(got))
        ck.valid(n("the solve goes on exactly while nothing triggered"), FE, prem + [T.not_(had), T.eq(r0, SUCC)], T.eq(result_of(q), SUCC))
        for k, g in enumerate(ev_inv(vc, q, spec)):
            ck.valid(n(f"invariant.preserved[{k}]"), FE, prem, g)
        ck.equal(n("last step start"), FE, val(q.event_tprev), val(p.tprev), prem + [c["keep"]])
        ck.equal(n("last step end"), FE, val(q.event_tnext), val(p.tnext), prem + [c["keep"]])
        ck.equal(n("last step dense info"), FE, leaves(q.event_dense_info)[0], st["info"][()], prem + [c["keep"]])
        # -- otherwise as without events
        same = ("y", "tprev", "tnext", "made_jump", "solver_state", "controller_state", "num_steps", "num_accepted_steps", "num_rejected_steps", "save_state")
        for part, a, b in (("init", vc.init, ref.init), ("body", vc.post, ref.post)):
            for f in same:
                la, lb = [jtu.tree_leaves(getattr(z, f), is_leaf=lambda x: isinstance(x, np.ndarray)) for z in (a, b)]
                for j, (x, y) in enumerate(zip(la, lb)):
                    sm = {u: w for u, w in zip(vc.floors, ref.floors)}
                    ck.equal_arr(n(f"as without events.{part}.{f}.{j}"), FE, np.asarray(x, dtype=object),
                                 S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, np.asarray(y, dtype=object)), req)
        ck.valid(n("as without events.condition"), "loop.cond_fun", req, T.iff(vc.cond_pre, ref.cond_pre))
        # -- the end
        x, o = vc.exit, vc.out
        for nm, got, want in zip([s[0] for s in spec], leaves(o["event_mask"]), leaves(x.event_mask)):
            ck.valid(n(f"reported mask.{nm}"), "diffeqsolve", req, T.iff(got, want))
        if rf is None:
            t1n = T.mul(vc.sgn, vc.t1)
            pe = req + inv(vc, x) + [T.or_(T.not_(T.lt(val(x.tprev), t1n)), T.not_(T.eq(result_of(x), SUCC)), T.eq(val(x.num_steps), 6))]
            ck.valid(n("reported result"), "diffeqsolve", pe,
                     T.eq(val(o["result"]), T.ite(vc.cond_exit, RESV["max_steps_reached"], result_of(x))))
            ck.valid(n("an event is reported as such"), "diffeqsolve", pe + [T.eq(result_of(x), EVT)], T.eq(val(o["result"]), EVT))
            ck.equal(n("final time: the end of the step"), "loop", leaves(o["ts"])[0] if False else o["ts"].reshape(-1)[0], T.mul(vc.sgn, val(x.tprev)), pe)
            for j, y in enumerate(leaves_ys(o["ys"])):
                ck.equal_arr(n(f"final value: the state there.{j}"), "loop", y[0], x.y[j], pe)
    return go


def locate(tag, spec, sub, backward, accs, idx, ms, tup=None):
    """with a root finder: time, value and saved record"""
    def go(ck):
        begin_loop(ck)
        ck.assume("the root finder returns a time inside the bracket it is given (options lower/upper), successful or not; that it is a root to its tolerance when it "
                  "reports success is the root finder's own contract")
        rf = optx.Newton(1e-6, 1e-6)
        base = None
        for i in idx:
            for acc in accs:
                fx = fixer([sub], i, acc, ms, -1 if backward else 1)

                def fixe(st, init, i=i, acc=acc):
                    st = fx(st, init)
                    sgn = -1 if backward else 1
                    s = st.save_state
                    ts = s.ts.copy()
                    k = 0
                    if sub.t0:
                        ts[0] = T.mul(sgn, T.sym("t0"))
                        k = 1
                    if sub.ts:
                        for j in range(i):
                            ts[k + j] = T.mul(sgn, T.sym(f"ts[{j}]"))
                    ns = []
                    if sub.steps:
                        assert not sub.ts
                        for j in range(acc // sub.steps):
                            ts[k + j] = val(st.tprev) if (j + 1) * sub.steps == acc else ts[k + j]
                    return eqx.tree_at(lambda z: z.save_state.ts, st, ts)
                vc = LoopVC(saveat=lambda ts: dfx.SaveAt(subs=sub.real(ts)), nts=M, event=mk_event(spec, rf), backward=backward, max_steps=ms,
                            reuse=base, fix_pre=fixe, fix_exit=fixe, jumps=False)
                base = base or vc
                x, o, sgn = vc.exit, vc.out, vc.sgn
                n = lambda s: f"{tag}[i={i},acc={acc}].{s}"
                t0 = T.mul(sgn, vc.t0)
                e0, e1 = val(x.event_tprev), val(x.event_tnext)
                info = leaves(x.event_dense_info)[0]
                masks = leaves(x.event_mask)
                had = T.or_(*masks) if len(masks) > 1 else masks[0]
                one = [T.not_(T.and_(masks[a], masks[b])) for a in range(len(masks)) for b in range(a)]
                ev = [T.iff(T.eq(result_of(x), EVT), had)]
                rn = [(vals, path) for tg, vals, path in vc.late if tg == "rootfind"]
                ck.fact(n("one root find"), FR, len(rn) == 1, f"{len(rn)} root finds", "extraction")
                if len(rn) != 1:
                    return
                vals = rn[0][0]
                v, ok, y0, lo, hi = [val(z) for z in vals[:5]]
                res = [val(z) for z in vals[5:]]
                u = [T.mul(sgn, w) for w in vc.ts]
                pe = [vc.order] + vc.requires + inv(vc, x) + one + ev + sorted_ts(vc)
                stepped = T.lt(0, val(x.num_steps))
                # what the body's contract says about the last step of a solve that ended in an event
                pe += [T.le(t0, e0), T.le(e0, e1), T.le(e1, val(x.tprev)), T.implies(stepped, T.lt(e0, e1)),
                       T.implies(T.not_(stepped), T.and_(T.eq(e1, t0), T.eq(val(x.tprev), t0), T.eq(val(x.num_accepted_steps), 0)))]
                pe += [T.implies(stepped, T.and_(T.le(e0, v), T.le(v, e1)))]
                if acc > 0:
                    pe += [stepped]
                H = pe + [had]
                ck.sat(n("premises"), H)
                ck.equal(n("bracket lower"), FR, lo, e0, H + [stepped])
                ck.equal(n("bracket upper"), FR, hi, e1, H + [stepped])
                y_at = tuple(ufT("interp", sh, S.scalar(e0), S.scalar(e1), S.scalar(info), S.scalar(v), nout=2, o=j) for j, sh in enumerate([(), (2,)]))
                for j, (nm, d, b) in enumerate(spec):
                    if b:
                        # a boolean has its root at the end of the step
                        ck.valid(n(f"residual.{nm}: the end of the step"), FR, H + [stepped, masks[j]], T.or_(T.eq(res[j], T.sub(e1, v)), T.eq(res[j], T.sub(v, e1))))
                    else:
                        want = cond_(nm, T.mul(sgn, v), y_at, vc.args)
                        ck.equal(n(f"residual.{nm}: the triggered condition, at the interpolated state and in user time"), FR, res[j], want, H + [stepped, masks[j]])
                    ck.equal(n(f"residual.{nm}: nothing if not triggered"), FR, res[j], 0, H + [stepped, T.not_(masks[j])])
                # final time and value: an event at the start (a boolean) needs no locating
                v_found, v = v, T.ite(stepped, v, t0)
                yf = tuple(S.emap(lambda a, b_: T.ite(stepped, a, b_), a, b_) for a, b_ in zip(y_at, x.y))
                # record
                s = x.save_state
                N = s.ts.shape[0]
                k0 = sub.index(i, acc)
                ys = leaves_ys(s.ys)
                oys = leaves_ys(o["ys"])
                rec = [s.ts[k] for k in range(k0)]
                # recorded times are ordered and not after the end of the last step
                pe_rec = [T.le(t0, r) for r in rec] + [T.le(rec[k], rec[k + 1]) for k in range(k0 - 1)] + [T.le(r, val(x.tprev)) for r in rec]
                if sub.steps and acc > 0:
                    nlast = k0 - (1 if acc % sub.steps == 0 else 0)
                    pe_rec += [T.le(rec[k], e0) for k in range(nlast)]
                INFS = lambda y: S.emap(lambda _: T.INF, np.asarray(y, dtype=object))
                for kept in range(int(sub.t0), k0 + 1):
                    pr = H + pe_rec + ([T.le(rec[kept - 1], v)] if kept > 0 else []) + ([T.lt(v, rec[kept])] if kept < k0 else [])
                    if not smt.feasible(pr):
                        continue
                    wts = [T.mul(sgn, rec[k]) if k < kept else T.INF for k in range(N)]
                    wys = [[np.asarray(y[k], dtype=object) if k < kept else INFS(y[k]) for y in ys] for k in range(N)]
                    have_final = sub.steps and acc > 0 and acc % sub.steps == 0 and kept == k0
                    want_final = (sub.t1 or (sub.steps and acc > 0 and acc % sub.steps == 0)) and not have_final
                    if want_final and kept < N:
                        wts[kept] = T.mul(sgn, v)
                        wys[kept] = fn_(sub.name, T.mul(sgn, v), yf, vc.args)
                    for k in range(N):
                        ck.equal(n(f"event record[{kept} before].ts[{k}]"), FR, o["ts"][k], wts[k], pr)
                        for l, y in enumerate(oys):
                            ck.equal_arr(n(f"event record[{kept} before].ys.{l}[{k}]"), FR, np.asarray(y[k], dtype=object), np.asarray(wys[k][l], dtype=object), pr)
                ck.valid(n("result: the event if it was located"), FR, H + [ok], T.eq(val(o["result"]), EVT))
                ck.valid(n("result: a failed root find is an error"), FR, H + [stepped, T.not_(ok)], T.not_(okay(val(o["result"]))))
                # no event: as without a root finder
                t1n = T.mul(sgn, vc.t1)
                NO = pe + pe_rec + [T.not_(had)]
                wts = [T.mul(sgn, rec[k]) if k < k0 else T.INF for k in range(N)]
                wys = [[np.asarray(y[k], dtype=object) for y in ys] for k in range(N)]
                if sub.t1 and not (sub.steps and acc > 0 and acc % sub.steps == 0) and k0 < N:
                    wts[k0] = T.mul(sgn, val(x.tprev))
                    wys[k0] = fn_(sub.name, T.mul(sgn, val(x.tprev)), x.y, vc.args)
                for k in range(N):
                    ck.equal(n(f"no event.ts[{k}]"), FR, o["ts"][k], wts[k], NO)
                    for l, y in enumerate(oys):
                        ck.equal_arr(n(f"no event.ys.{l}[{k}]"), FR, np.asarray(y[k], dtype=object), np.asarray(wys[k][l], dtype=object), NO)
                ck.valid(n("no event.result"), FR, NO, T.eq(val(o["result"]), T.ite(vc.cond_exit, RESV["max_steps_reached"], result_of(x))))
    return go


def s_steady(ck):
    begin(ck)
    norm = lambda t: uf("norm", sds(), t)

    class C(dfx.AbstractAdaptiveStepSizeController):
        rtol: jax.Array
        atol: jax.Array
        norm: object = eqx.field(static=True, default=None)
        wrap = init = adapt_step_size = None
    C.__abstractmethods__ = frozenset()

    def f(t, y, args, rt, at, crt, cat):
        term = dfx.ODETerm(lambda t, y, args: uf("vf", YS, t, y, args))
        ctrl = C(crt, cat, lambda t: uf("cnorm", sds(), t))
        out = {}
        for nm, kw in (("own", dict(rtol=rt, atol=at, norm=norm)), ("default", {}), ("rtol", dict(rtol=rt)), ("atol", dict(atol=at)), ("norm", dict(norm=norm))):
            out[nm] = dfx.steady_state_event(**kw)(t, y, args, terms=term, solver=dfx.Tsit5(), stepsize_controller=ctrl, t0=0., t1=1.)
        return out
    g = jnp.asarray(1.0)
    y = (S.scalar(T.sym("ya")), symarr("yb", (2,)))
    sy = {k: T.sym(k) for k in ("t", "args", "rt", "at", "crt", "cat")}
    got, _ = run(f, (g, (g, jnp.ones(2)), g, g, g, g, g), (S.scalar(sy["t"]), y, S.scalar(sy["args"]), *[S.scalar(sy[k]) for k in ("rt", "at", "crt", "cat")]))
    fv = vf_(S.scalar(sy["t"]), y, S.scalar(sy["args"]))
    for nm, (r, a, nn) in dict(own=("rt", "at", "norm"), default=("crt", "cat", "cnorm"), rtol=("rt", "cat", "cnorm"), atol=("crt", "at", "cnorm"), norm=("crt", "cat", "norm")).items():
        N = lambda z: ufT(nn, (), *z)[()]
        ck.equal(f"steady state.{nm}", "steady_state_event", val(got[nm]), T.lt(N(fv), T.add(sy[a], T.mul(sy[r], N(y)))))
    raised = False
    try:
        dfx.steady_state_event()(0.0, 1.0, None, terms=dfx.ODETerm(lambda t, y, a: y), solver=dfx.Tsit5(), stepsize_controller=dfx.ConstantStepSize())
    except ValueError:
        raised = True
    ck.fact("steady state.no tolerances are refused", "steady_state_event", raised, "", "concrete evaluation")


def s_event_init(ck):
    begin(ck)
    f, g = (lambda *a, **k: 1.0), (lambda *a, **k: 2.0)
    for d in (True, False, None):
        e = dfx.Event([f, dict(a=g)], direction=d)
        ck.fact(f"Event.direction={d} is broadcast", "Event.__init__", e.direction == [d, dict(a=d)], f"{e.direction}", "concrete evaluation")
        e = dfx.Event(f, direction=d)
        ck.fact(f"Event.direction={d} of a single condition", "Event.__init__", e.direction is d, f"{e.direction}", "concrete evaluation")
    e = dfx.Event([f, dict(a=g)])
    ck.fact("Event.direction default", "Event.__init__", e.direction == [None, dict(a=None)], f"{e.direction}", "concrete evaluation")
    for bad in (dict(direction=[True]), dict(direction=dict(a=True)), dict(direction=[True, dict(a=2)])):
        r = False
        try:
            dfx.Event([f, dict(a=g)], **bad)
        except ValueError:
            r = True
        ck.fact(f"Event rejects {bad}", "Event.__init__", r, "", "concrete evaluation")


F3 = [("g", None, False), ("h", True, False), ("k", False, False), ("b", None, True)]
B2 = [("b", None, True), ("g", None, False), ("b2", None, True)]
RF = optx.Newton(1e-6, 1e-6)
E1 = [("g", None, False), ("b", None, True)]
SECTIONS = [
    ("detection: real and boolean", detect("mixed", F3)),
    ("detection: backward", detect("mixed(bwd)", F3, backward=True)),
    ("detection: booleans first", detect("bool", B2)),
    ("detection: with a root finder", detect("rooted", B2, rf=RF)),
    ("location: t0, ts, t1", locate("ts", E1, Sub("fn", t0=True, ts=True, t1=True), False, (0, 2), range(M + 1), 6)),
    ("location: backward", locate("ts(bwd)", E1, Sub("fn", ts=True, t1=True), True, (2,), (0, 2, 3), 6)),
    ("location: steps=1", locate("steps1", E1, Sub("fn", t0=True, steps=1, t1=True), False, (0, 1, 2), (0,), 3)),
    ("location: steps=2", locate("steps2", E1, Sub(None, steps=2, t1=True), False, (0, 1, 2, 3, 4), (0,), 5)),
    ("location: steps=1 without t1, backward", locate("steps1(bwd)", E1, Sub("fn", steps=1), True, (1, 2), (0,), 3)),
    ("location: boolean only", locate("bool", [("b", None, True)], Sub("fn", t1=True), False, (0, 1), (0,), 3)),
    ("steady state", s_steady),
    ("Event", s_event_init),
]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """events against a scan of the steps an event-free solve takes"""
    w = np.array([1.3, -0.7])
    term = dfx.ODETerm(lambda t, y, a: jnp.cos(w * t + 0.3 * y))
    kinds = ["none", "up", "down", "bool", "two", "boolfirst"]

    @eqx.filter_jit
    def free(t0, t1, y0):
        return dfx.diffeqsolve(term, dfx.Tsit5(), t0, t1, jnp.where(t1 > t0, 0.13, -0.13), y0, saveat=dfx.SaveAt(steps=True, t0=True, dense=True), max_steps=128,
                               stepsize_controller=dfx.PIDController(rtol=1e-5, atol=1e-5), throw=False)
    # a boolean event at the start: what is requested at t0 is saved
    o = dfx.diffeqsolve(term, dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.zeros(2), saveat=dfx.SaveAt(ts=jnp.asarray([0.0, 0.5])), event=dfx.Event(lambda t, y, args, **k: y[0] > -1))
    yield None if close(o.ts[0], 0.0) and close(o.ys[0], np.zeros(2)) else dict(case="event at the start: a time of SaveAt(ts) equal to t0 is not saved", ts=np.asarray(o.ts).tolist())
    # brackets: a boolean event and one that is true at the start, whichever root finder
    for rf in (optx.Newton(1e-6, 1e-6), optx.Bisection(1e-6, 1e-6), optx.Bisection(1e-6, 1e-6, flip=False), optx.Bisection(1e-6, 1e-6, flip=True)):
        for y00, tf in ((1.0, 0.75), (3.0, 0.0)):
            o = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), dfx.Tsit5(), 0.0, 1.0, 0.25, y00, event=dfx.Event(lambda t, y, args, **k: y > 2, rf), throw=False)
            yield None if o.result == dfx.RESULTS.event_occurred and close(o.ts[0], tf, 1e-5) and close(o.ys[0], y00 * np.exp(tf), 1e-4) else dict(
                case=f"boolean event with {rf}, y0 = {y00}", ts=np.asarray(o.ts).tolist(), result=str(o.result), expected=tf)
    for trial in range(6 * effort):
        kind = kinds[trial % 6]
        rooted = (trial % 2 == 0) if trial % 12 < 6 else (trial % 2 == 1)
        lev = rng.uniform(-0.5, 0.5, size=2)
        c1 = lambda t, y, args, **k: y[0] - lev[0] * (1 + 0.2 * jnp.sin(t))
        c2 = lambda t, y, args, **k: y[1] * jnp.cos(t) - lev[1]
        bb = lambda t, y, args, **k: jnp.sum(y) > lev[0] + 0.7
        spec = dict(none=([c1], [None]), up=([c1], [True]), down=([c1], [False]), bool=([bb], [None]), two=([c1, c2], [None, True]), boolfirst=([bb, c1], [None, None]))[kind]
        steps = int(rng.choice([0, 1, 2]))

        @eqx.filter_jit
        def solve(t0, t1, y0, ts):
            ev = dfx.Event(spec[0], optx.Newton(1e-9, 1e-9) if rooted else None, direction=spec[1])
            return dfx.diffeqsolve(term, dfx.Tsit5(), t0, t1, jnp.where(t1 > t0, 0.13, -0.13), y0,
                                   saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(ts=ts, t1=True), dfx.SubSaveAt(t1=True, t0=True, steps=steps)]), max_steps=128,
                                   stepsize_controller=dfx.PIDController(rtol=1e-5, atol=1e-5), event=ev, throw=False)
        for _ in range(4):
            t0 = float(rng.normal())
            sg = -1 if rng.uniform() < 0.4 else 1
            t1 = t0 + sg * 4.0
            y0 = jnp.asarray(rng.uniform(-0.6, 0.6, size=2))
            ts = jnp.asarray(np.linspace(t0, t1, 9))
            fr = free(t0, t1, y0)
            n = int(fr.stats["num_accepted_steps"])
            st = np.asarray(fr.ts[:n + 1])
            ys = np.asarray(fr.ys[:n + 1])
            vals = [[np.asarray(f(a, jnp.asarray(b), None)).item() for f in spec[0]] for a, b in zip(st, ys)]
            sgn = lambda v: (v > 0) - (v < 0)
            hit = None
            for q in range(n + 1):
                tr = []
                for f, d, o, v in zip(spec[0], spec[1], vals[q - 1] if q else vals[0], vals[q]):
                    if isinstance(v, bool):
                        tr.append(v)
                    elif q == 0:
                        tr.append(False)
                    else:
                        tr.append(sgn(o) != sgn(v) if d is None else (o <= 0 < v) if d else (v <= 0 < o))
                if any(tr):
                    hit = (q, tr.index(True))
                    break
            sol = solve(t0, t1, y0, ts)
            mask = [bool(m) for m in sol.event_mask]
            good = True
            why = ""
            if hit is None:
                good = not any(mask) and int(sol.result._value) == 0 and close(sol.ys[0][9], fr.ys[n], 1e-9)
                tf = t1
                why = "no event"
                last = n
            else:
                q, j = hit
                last = q
                why = f"event {j} on step {q}"
                good = mask == [k == j for k in range(len(mask))]
                if good and rooted and bool((sol.result == dfx.RESULTS.nonlinear_max_steps_reached) | (sol.result == dfx.RESULTS.nonlinear_divergence)):
                    yield None      # the root finder itself gave up, and said so
                    continue
                good = good and sol.result == dfx.RESULTS.event_occurred
                fin = np.asarray(sol.ts[1])[np.isfinite(np.asarray(sol.ts[1]))]
                tf = fin[-1]
                if rooted and q > 0 and not isinstance(vals[q][j], bool):
                    good = good and sg * st[q - 1] - 1e-9 <= sg * tf <= sg * st[q] + 1e-9 and abs(float(spec[0][j](tf, fr.evaluate(tf), None))) < 1e-6
                else:
                    good = good and abs(tf - st[q]) < 1e-12
            got = np.asarray(sol.ts[0])
            m = [x for x in np.asarray(ts) if sg * x <= sg * tf and not (hit and hit[0] == 0)]      # at the start: see the known finding
            exp = m + [tf]
            good = good and close(got[:len(exp)], exp, 1e-9) and np.all(got[len(exp):] == np.inf)
            yy = np.asarray(sol.ys[0])
            good = good and all(close(yy[k], np.asarray(fr.evaluate(x)) if not (hit and hit[0] == 0) else y0, 1e-7) for k, x in enumerate(exp))
            good = good and np.all(np.isinf(yy[len(exp):]))
            e2 = [t0] + [x for k, x in enumerate(st[1:last + 1]) if steps and (k + 1) % steps == 0 and sg * x <= sg * tf + 1e-14]
            if not (len(e2) > 1 and abs(e2[-1] - tf) < 1e-14):
                e2.append(tf)
            g2 = np.asarray(sol.ts[1])
            good = good and close(g2[:len(e2)], e2, 1e-9) and np.all(g2[len(e2):] == np.inf)
            yield None if good else dict(case=f"{kind} rooted={rooted} steps={steps} levels={lev.tolist()} t0={t0} t1={t1} y0={y0.tolist()}: expected {why}",
                                         got=dict(ts=got.tolist(), ts2=g2.tolist(), mask=mask, result=str(sol.result)), expected=dict(ts=[float(e) for e in exp], ts2=[float(e) for e in e2]))


CONCRETE = [("events against the steps of an event-free solve", concrete)]
