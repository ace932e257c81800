"""C21: batching. One element of an arbitrary batch computes what it computes alone.

JAX batches a traced program element by element, except for the reductions over the batch that the code asks for (equinox's unvmap_any, unvmap_all and
unvmap_max). So: the program is evaluated with every such reduction also receiving an arbitrary contribution of the rest of the batch, and what it computes
is proved equal to what it computes alone, under the invariants of the states it can be in."""
import itertools
import warnings

from .c17 import *
from . import rk, c11
from diffrax._global_interpolation import DenseInterpolation

f0 = jnp.asarray(1.0)
FL = "loop"


@contextlib.contextmanager
def batch(force=None):
    """the program is one element of a batch; `force`: for every reduction, whether the other elements decide it (empty: they always do)"""
    made = []

    def others(kind, sort):
        if force is None:
            v = T.sym(f"others{len(made)}.{kind}", sort)
        elif len(made) >= len(force) and force != ():
            raise S.Unsupported("more reductions over the batch than expected")
        else:
            # does the rest of the batch decide it?
            v = {"any": True, "all": False}[kind] if force == () or force[len(made)] else {"any": False, "all": True}[kind]
        made.append(v)
        return v
    S.Evaluator.others = staticmethod(others)
    try:
        yield made
    finally:
        S.Evaluator.others = None


def assumptions(ck):
    ck.assume("JAX's batching rules act element by element on every primitive except equinox's unvmap_any/unvmap_all/unvmap_max, which reduce over the batch",
              "equinox's while loops and scans, batched, give every element the iterations it makes alone",
              "an exception is raised for the batch as a whole if one element raises it (throw=False gives results per element)")


def flat(x):
    return [v for l in jtu.tree_leaves(x, is_leaf=lambda z: isinstance(z, np.ndarray)) for v in np.reshape(l, (-1,))]


def compare(ck, nm, fn, lone, batched, prem=()):
    a, b = flat(lone), flat(batched)
    if len(a) != len(b):
        ck.fact(nm, fn, False, "different structure")
        return
    for k, (x, y) in enumerate(zip(a, b)):
        if x is y:
            continue
        ck.equal(f"{nm}[{k}]", fn, y, x, list(prem))
    ck.fact(f"{nm}: {len(a)} values", fn, True, "")


# ---------------------------------------------------------------- the loop
def loop(tag, sub=None, saveat=None, spec=None, rf=None, states=((0, 0),), backward=False, ms=6, **kw):
    """the state before the first step, a step from an arbitrary state, and what is returned from an arbitrary state"""
    def go(ck):
        begin_loop(ck)
        assumptions(ck)
        base = None
        total = 0
        for i, acc in states:
            fx = None if sub is None else fixer([sub], i, acc, ms, -1 if backward else 1)
            arg = dict(saveat=saveat if sub is None else (lambda ts: dfx.SaveAt(subs=sub.real(ts))), nts=M, backward=backward, max_steps=ms, fix_pre=fx, fix_exit=fx,
                       event=None if spec is None else mk_event(spec, rf), **kw)
            a = LoopVC(**arg, reuse=base)
            base = base or a
            with batch() as made:
                b = LoopVC(**arg, reuse=base)
            total += len(made)
            n = lambda s: f"{tag}[i={i},acc={acc}].{s}" if sub is not None else f"{tag}.{s}"
            # the order of times, in a branch that is not taken alone too
            pr = [a.order] if backward is not None else []
            compare(ck, n("state before the first step"), FL, a.init, b.init, pr)
            compare(ck, n("state after a step"), FL, a.post, b.post, pr)
            compare(ck, n("whether to go on"), FL, [S.scalar(a.cond_pre), S.scalar(a.cond_exit)], [S.scalar(b.cond_pre), S.scalar(b.cond_exit)], pr)
            compare(ck, n("solution"), FL, a.out, b.out, pr)
            # errors: none that the element alone would not raise
            bad = lambda vc: [(vals, path) for tg, vals, path in vc.early + vc.notes + vc.late if tg in ("error_if", "throw")]
            ea, eb = bad(a), bad(b)
            ck.fact(n("the same errors are looked for"), FL, len(ea) == len(eb), f"{len(ea)} alone, {len(eb)} batched")
            for k, ((va, pa), (vb, pb)) in enumerate(zip(ea, eb)):
                ck.valid(n(f"error {k} is raised only if it is raised alone"), FL, pr + [p for p in pb if p is not True] + [val(vb[0])], T.and_(val(va[0]), *pa))
        if backward is not None:
            ck.fact(f"{tag}.evaluated", FL, True, f"{total} reductions over the batch met")
    return go


def times(ck):
    """an element that has finished is stepped along with the others: the times it asks for stay inside the interval of the solve"""
    begin_loop(ck)
    assumptions(ck)
    for backward in (False, True):
        vc = LoopVC(backward=backward)
        t1 = T.mul(vc.sgn, vc.t1)
        req = [vc.order] + vc.requires + vc.floor_facts
        for nm, st in (("before the first step", vc.init), ("after a step", vc.post)):
            n = f"{'backward' if backward else 'forward'}.{nm}"
            if nm == "before the first step":
                ck.valid(f"{n}.tprev", FL, req, T.le(val(st.tprev), t1))
            else:
                ck.valid(f"{n}.tprev", FL, req, T.le(val(st.tprev), t1))
            ck.valid(f"{n}.tnext", FL, req, T.le(val(st.tnext), t1))


# ---------------------------------------------------------------- solvers
def runge_kutta(name):
    """FSAL: if another element is at its first step or a jump, the first stage is evaluated although it is known"""
    def go(ck):
        begin(ck)
        assumptions(ck)
        ck.assume("implicit stages are solved exactly (otherwise: up to the tolerance of the root finder)")
        fn = f"AbstractRungeKutta.step<{name}>"
        for kind in ("ode", "cde", "tree") if name not in ("Dopri8", "KenCarp5", "KenCarp4") else ("ode", "cde"):
            prob = rk.Problem(kind, 2 if name in rk.IMEX else 1)
            with batch(force=()) as m0:
                rk.one_step(name, prob, None, True, False)
            if len(m0) > 3:
                raise S.Unsupported(f"{len(m0)} reductions over the batch")
            ck.fact(f"{name}.{kind}.reductions over the batch", fn, True, f"{len(m0)}")
            if not m0:
                continue
            for fs, mj in ((True, False), (False, True), (True, True), (False, False)):
                f0v = rk.f0_values(prob) if not (fs or mj) else None
                a = rk.one_step(name, prob, None, fs, mj, f0v)
                for force in itertools.product((True, False), repeat=len(m0)):
                    if not any(force):
                        continue
                    with batch(force=force):
                        b = rk.one_step(name, prob, None, fs, mj, f0v)
                    sm = {}
                    if not (fs or mj) and len(rk.roots_of(b["ev"], prob)) == len(rk.roots_of(a["ev"], prob)) + 1:
                        # an implicit solve of the first stage, which is explicit (its coefficient is zero): its value is the evaluation
                        v, res, _, ok = rk.roots_of(b["ev"], prob)[0]
                        imp = prob.names[-1]
                        want = prob.F(imp, S.scalar(rk.t), prob.y).reshape(v.shape)
                        if v.size == want.size:
                            ck.equal_arr(f"{name}.{kind}.first stage: its implicit solve is for the known evaluation", fn, res, S.emap(T.sub, v, want))
                            sm = {x: y for x, y in zip(v.reshape(-1), want.reshape(-1)) if isinstance(x, T.Term)}
                            if isinstance(ok, T.Term):
                                sm[ok] = True
                    sub = lambda x: leafmap(lambda l: S.emap(lambda w: T.subst(w, sm) if isinstance(w, T.Term) else w, l), x) if sm else x
                    tag = f"{name}.{kind}.{'first step' if fs else 'jump' if mj else 'later step'}"
                    ya, yb = a["out"], sub(b["out"])
                    for what, k in (("y1", 0), ("error", 1), ("dense info", 2), ("state", 3), ("result", 4)):
                        compare(ck, f"{tag}.{what}", fn, ya[k], yb[k])
    return go


def langevin(name):
    """cached coefficients and gradient: recomputed if any other element needs to"""
    def go(ck):
        begin(ck)
        assumptions(ck)
        ck.assume("a step size within a relative 1e-9 of the cached one may use the cached coefficients")
        nk = "H" if name == "ALIGN" else "K"
        fn = f"{name}.step"
        for kind in ("vector",):
            solver = getattr(dfx, name)()
            p = c11.LProb(kind, "full")

            def f(tt, hh, h_prev, x, v, g, u, a, mj, a0):
                tm = p.terms(g, u, nk)
                st = solver.init(tm, tt - h_prev, tt, (x, v), a0)
                y1, err, dense, st1, res = solver.step(tm, tt, tt + hh, (x, v), a, st, mj)
                return dict(y1=y1, err=err, dense=dense, st=jtu.tree_leaves(st), st1=jtu.tree_leaves(st1))
            ex = (0.0, 1.0, 1.0, p.xex, p.xex, p.gex, p.gex, 0.0, jnp.asarray(False), 0.0)
            vals = (c11.t, c11.h, c11.hp, p.tree(p.x), p.tree(p.v), p.tree(p.g, True), p.tree(p.u, True), c11.A1, S.scalar(c11.MJ), S.scalar(T.ite(c11.MJ, T.sym("args before the jump"), val(c11.A1))))
            with error_if_stub():
                e = Extract(f, ex)
            a, _ = e(vals)
            with batch() as made:
                b, _ = e(vals)
            ck.fact(f"{name}.{kind}: reductions", fn, True, f"{len(made)}")
            pos = [T.lt(0, g) for g in dict.fromkeys(p.g)] + [T.lt(0, u) for u in dict.fromkeys(p.u)] + [T.ne(c11.h, 0), T.ne(c11.hp, 0)]
            far = T.lt(T.mul(Fr(1, 10 ** 9), T.abs_(c11.h)), T.abs_(T.sub(c11.hp, c11.h)))
            for small in ((True,) * p.n, (False,) * p.n, (True,) + (False,) * (p.n - 1)):
                for same in (True, False):
                    pr = pos + c11.region(solver, p, c11.h, small) + ([] if same else [far] + [T.ne(c11.hp, c11.h)])
                    sm = {c11.hp: c11.h} if same else {}
                    if same:
                        pr = [q for q in pr if q is not T.ne(c11.hp, 0)]
                    g = lambda x: [core.under(T.subst(w, sm) if sm else w, pr) if isinstance(w, T.Term) else w for w in flat(x)]
                    for what in ("y1", "err", "dense", "st1"):
                        x, y = g(a[what]), g(b[what])
                        nm = f"{name}.{kind}.{''.join('s' if s else 'l' for s in small)}.{'same step size' if same else 'another step size'}.{what}"
                        for k, (q, r) in enumerate(zip(x, y)):
                            if q is not r:
                                ck.equal(f"{nm}[{k}]", fn, r, q, pr)
                        ck.fact(f"{nm}: {len(x)} values", fn, len(x) == len(y), "")
    return go


def dense(ck):
    begin(ck)
    assumptions(ck)
    N = 2
    from .c12 import AnyLocal
    for direction in (1, -1):
        for m in range(N + 1):
            ts = arr(*[T.sym(f"ts{i}") for i in range(m + 1)], *[T.INF] * (N - m))
            infos = symarr("info", (N, 2))
            ytr = {"a": S.scalar(T.sym("ya")), "b": symarr("yb", (2,))}

            def f(tsv, inf, q, r, y, tt0):
                I = DenseInterpolation(ts=tsv, ts_size=jnp.asarray(m + 1), infos=dict(info=inf), interpolation_cls=AnyLocal, direction=jnp.asarray(direction), t0_if_trivial=tt0, y0_if_trivial=y)
                return dict(q=I.evaluate(q), qr=I.evaluate(q, left=False), d=I.derivative(q), inc=I.evaluate(q, r))
            e = Extract(f, (jnp.arange(N + 1.), jnp.ones((N, 2)), f0, f0, {"a": f0, "b": jnp.ones(2)}, f0))
            vals = (ts, infos, S.scalar(T.sym("tq")), S.scalar(T.sym("tr")), ytr, S.scalar(T.sym("t0triv")))
            a, _ = e(vals)
            with batch():
                b, _ = e(vals)
            for what, fn in (("q", "evaluate"), ("qr", "evaluate"), ("d", "derivative"), ("inc", "evaluate")):
                compare(ck, f"dense.{'forward' if direction > 0 else 'backward'}.{m} steps.{what}", f"DenseInterpolation.{fn}", a[what], b[what])


# ---------------------------------------------------------------- everything else does not look at the batch at all
def prims(jaxpr, out):
    for eqn in jaxpr.eqns:
        if not (eqn.primitive.name in CROSS and S.loop_internal(eqn)):
            out.add(eqn.primitive.name)
        for v in jax.tree_util.tree_leaves(list(eqn.params.values()), is_leaf=lambda x: hasattr(x, "eqns") or hasattr(x, "jaxpr")):
            j = getattr(v, "jaxpr", v)
            if hasattr(j, "eqns"):
                prims(j, out)
    return out


CROSS = ("unvmap_any", "unvmap_all", "unvmap_max")


def quiet(ck):
    """the parts that a solve is made of, other than those above, contain no reduction over the batch"""
    begin(ck)
    assumptions(ck)
    warnings.simplefilter("ignore")
    y = jnp.ones(2)
    key = jax.random.PRNGKey(0)
    vf = lambda t, y, a: jnp.sin(y) * t
    dif = lambda t, y, a: jnp.ones((2, 2)) * y

    def see(nm, f, *args):
        with error_if_stub(), rk.root_stub():
            p = prims(jax.make_jaxpr(f)(*args).jaxpr, set())
        ck.fact(f"{nm}: no reduction over the batch", nm, not p.intersection(CROSS), f"uses {sorted(p.intersection(CROSS))}", "traversal of the traced program")

    vbt = lambda la: dfx.VirtualBrownianTree(0.0, 1.0, 1e-2, (2,), key, la)
    ode = dfx.ODETerm(vf)
    sde = lambda la: dfx.MultiTerm(ode, dfx.ControlTerm(dif, vbt(la)))
    add = lambda la: dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: jnp.ones((2, 2)) * t, vbt(la)))
    B, W, SST = dfx.BrownianIncrement, dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea
    ito = [(dfx.Euler(), sde(B)), (dfx.EulerHeun(), sde(B)), (dfx.ItoMilstein(), dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: y, dfx.VirtualBrownianTree(0., 1., 1e-2, (), key)))),
           (dfx.StratonovichMilstein(), dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: y, dfx.VirtualBrownianTree(0., 1., 1e-2, (), key)))),
           (dfx.SEA(), add(W)), (dfx.SRA1(), add(W)), (dfx.ShARK(), add(W)), (dfx.GeneralShARK(), sde(W)), (dfx.SlowRK(), sde(W)), (dfx.SPaRK(), sde(W)),
           (dfx.ReversibleHeun(), sde(B)), (dfx.Euler(), ode), (dfx.ImplicitEuler(), ode), (dfx.ReversibleHeun(), ode), (dfx.LeapfrogMidpoint(), ode)]
    for s, tm in ito:
        def step(t0, t1, y, mj, s=s, tm=tm):
            st = s.init(tm, t0, t1, y, None)
            return s.step(tm, t0, t1, y, None, st, mj)[:4]
        see(f"{type(s).__name__}.step{'' if tm is ode else ' (SDE)'}", step, 0.1, 0.2, y, jnp.asarray(False))
    semi = (dfx.ODETerm(lambda t, y, a: y), dfx.ODETerm(lambda t, y, a: -y))
    see("SemiImplicitEuler.step", lambda t0, t1, a, b: dfx.SemiImplicitEuler().step(semi, t0, t1, (a, b), None, None, False)[:4], 0.1, 0.2, y, y)
    for c in (dfx.ConstantStepSize(), dfx.StepTo(jnp.asarray([0., .5, 1.])), dfx.PIDController(1e-3, 1e-6, pcoeff=.1, icoeff=.2, dcoeff=.1), dfx.PIDController(1e-3, 1e-6, dtmin=1e-3, dtmax=.5, force_dtmin=False),
              dfx.ClipStepSizeController(dfx.PIDController(1e-3, 1e-6), step_ts=jnp.asarray([.3]), jump_ts=jnp.asarray([.6])), dfx.ClipStepSizeController(dfx.PIDController(1e-3, 1e-6), step_ts=jnp.asarray([.3]), store_rejected_steps=4)):
        def ctl(t0, t1, y0, y1, e, c=c):
            c = c.wrap(jnp.asarray(1))
            tn, st = c.init(ode, t0, t1, y0, None if isinstance(c, dfx.StepTo) else .1, None, lambda tm, t, y, a: tm.vf(t, y, a), 3)
            return c.adapt_step_size(t0, tn, y0, y1, None, e, 3, st)[:5]
        see(f"{type(c).__name__}", ctl, 0.0, 1.0, y, y, y)
    for la in (B, W, SST):
        see(f"VirtualBrownianTree.evaluate<{la.__name__}>", lambda s, t, la=la: jtu.tree_leaves(vbt(la).evaluate(s, t, use_levy=True)), 0.1, 0.4)
        see(f"UnsafeBrownianPath.evaluate<{la.__name__}>", lambda s, t, la=la: jtu.tree_leaves(dfx.UnsafeBrownianPath((2,), key, la).evaluate(s, t, use_levy=True)), 0.1, 0.4)
    tt, yy = jnp.asarray([0., .3, 1.]), jnp.ones((3, 2))
    see("LinearInterpolation", lambda t: (dfx.LinearInterpolation(tt, yy).evaluate(t), dfx.LinearInterpolation(tt, yy).derivative(t)), .2)
    see("CubicInterpolation", lambda t: (dfx.CubicInterpolation(tt, dfx.backward_hermite_coefficients(tt, yy)).evaluate(t), dfx.CubicInterpolation(tt, dfx.backward_hermite_coefficients(tt, yy)).derivative(t)), .2)
    for fill in (dfx.linear_interpolation, dfx.rectilinear_interpolation, dfx.backward_hermite_coefficients):
        see(fill.__name__, lambda a, b: fill(a, b), tt, yy)


S2 = Sub(None, steps=2, t1=True)
ST = Sub("save", t0=True, ts=True, t1=True)
F1 = [("g", None, False)]
SECTIONS = [
    ("loop: t1", loop("t1")),
    ("loop: t1, backward", loop("t1 backward", backward=True)),
    ("loop: arbitrary order of times", loop("any direction", backward=None)),
    ("loop: ts", loop("ts", ST, states=((0, 0), (1, 1), (3, 4)))),
    ("loop: every second step", loop("steps2", S2, states=((0, 0), (0, 1), (0, 3), (0, 6)))),
    ("loop: every third step with fn, backward", loop("steps3", Sub("save", t0=True, steps=3, t1=True), states=((0, 0), (0, 2), (0, 5)), backward=True)),
    ("loop: dense", loop("dense", saveat=lambda ts: dfx.SaveAt(dense=True))),
    ("loop: no time", loop("t0 = t1", Sub(None, t0=True, ts=True, t1=True), trivial=True, backward=None)),
    ("loop: own states", loop("states", saveat=lambda ts: dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True), pass_state=("solver", "controller", "made_jump"))),
    ("loop: event", loop("event", spec=B2)),
    ("loop: event with a root finder", loop("rooted event", spec=B2, rf=RF)),
    ("loop: event with a root finder, saving", loop("rooted event, ts", Sub(None, t0=True, ts=True, t1=True), spec=B2, rf=RF, states=((0, 0), (2, 1)))),
    ("loop: event with a root finder, saving steps", loop("rooted event, steps", Sub(None, steps=2, t1=True), spec=F1, rf=RF, states=((0, 0), (0, 1), (0, 2)))),
    ("loop: boolean event with a root finder, backward", loop("rooted boolean", spec=[("b", None, True)], rf=RF, backward=True)),
    ("loop: times asked for", times),
    ("dense output", dense),
    ("no other reductions over the batch", quiet),
] + [(f"{n}: step", runge_kutta(n)) for n in rk.ALL] + [(f"{n}: step", langevin(n)) for n in c11.NAMES]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """batches of problems of different length, stiffness, events and jumps against the elements alone"""
    warnings.simplefilter("ignore")
    key = jax.random.PRNGKey(int(rng.integers(1000)))
    ode = dfx.ODETerm(lambda t, y, a: -a * y + jnp.sin(3 * a * t))
    jumpy = dfx.ODETerm(lambda t, y, a: -a * y + jnp.where(t > .5, 2., -1.))
    vbt = dfx.VirtualBrownianTree(0., 2., 1e-3, (2,), key, dfx.SpaceTimeTimeLevyArea)
    ulang = lambda a: dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1 + 0 * a, jnp.asarray(1.), lambda x, _: a * jnp.sin(x)), dfx.UnderdampedLangevinDiffusionTerm(1 + 0 * a, jnp.asarray(1.), vbt))
    sde = dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: lax_diag(y), vbt))
    pid = dfx.PIDController(1e-4, 1e-4)
    lvl = lambda t, y, a, **k: jnp.sum(y) - .9 + 0.3 * a
    NT, BI, BF, BT = optx.Newton(1e-8, 1e-8), optx.Bisection(1e-7, 1e-7), optx.Bisection(1e-7, 1e-7, flip=True), optx.Bisection(1e-7, 1e-7, flip="detect")
    sv = dfx.SaveAt(t0=True, ts=jnp.linspace(0., 1., 4), t1=True)
    runs = {
        "Tsit5": (ode, dfx.Tsit5(), pid, sv, None), "Dopri8, steps": (ode, dfx.Dopri8(), pid, dfx.SaveAt(steps=3, t1=True), None),
        "Dopri5, jumps": (jumpy, dfx.Dopri5(), dfx.ClipStepSizeController(pid, jump_ts=jnp.asarray([.5])), dfx.SaveAt(steps=2, t0=True, fn=lambda t, y, a: y * t), None),
        "Kvaerno3": (ode, dfx.Kvaerno3(), dfx.PIDController(1e-6, 1e-6), sv, None), "Bosh3, dense": (ode, dfx.Bosh3(), pid, dfx.SaveAt(dense=True), None),
        "Tsit5, event": (ode, dfx.Tsit5(), pid, sv, dfx.Event(lvl)), "Tsit5, rooted event": (ode, dfx.Tsit5(), pid, sv, dfx.Event(lvl, NT)),
        "Tsit5, bisected event": (ode, dfx.Tsit5(), pid, dfx.SaveAt(ts=jnp.linspace(0., 1., 4), t1=True), dfx.Event(lvl, BI)),
        "HalfSolver, rooted event": (ode, dfx.HalfSolver(dfx.Heun()), pid, dfx.SaveAt(steps=2, t1=True), dfx.Event(lvl, BF, direction=False)),
        "Tsit5, boolean event": (ode, dfx.Tsit5(), pid, sv, dfx.Event(lambda *z, **k: lvl(*z, **k) < 0, BT)),
        "Heun, SDE": (sde, dfx.Heun(), dfx.PIDController(1e-2, 1e-2, dtmin=1e-3), sv, None),
        "ALIGN": (ulang, dfx.ALIGN(), dfx.PIDController(1e-2, 1e-2, dtmin=1e-3), sv, None), "QUICSORT": (ulang, dfx.QUICSORT(), dfx.ConstantStepSize(), sv, None),
        "Tsit5, few steps": (ode, dfx.Tsit5(), dfx.PIDController(1e-9, 1e-9), dfx.SaveAt(steps=2, t1=True), dfx.Event(lvl, NT)),
    }
    for name, (tm, s, c, sa, ev) in runs.items():
        lang = tm is ulang

        def solve(t1, a, y0):
            sol = dfx.diffeqsolve(tm(a) if lang else tm, s, 0., t1, .11, (y0, y0 * 0 + 1) if lang else y0, a, saveat=dfx.SaveAt(**{**{k: getattr(sa, k) for k in ("dense",)}}) if sa.dense else
                                  dfx.SaveAt(subs=eqx.tree_at(lambda q: q.ts, sa.subs, sa.subs.ts * t1) if sa.subs.ts is not None else sa.subs), stepsize_controller=c, event=ev, throw=False,
                                  max_steps=12 if name.endswith("few steps") else 200)
            d = sol.evaluate(t1 * .37) if sa.dense else ()
            return dict(ts=sol.ts, ys=sol.ys, res=sol.result._value, st={k: v for k, v in sol.stats.items() if k != "max_steps"}, ev=sol.event_mask, d=d)
        lone = eqx.filter_jit(solve)
        for _ in range(effort):
            n = int(rng.integers(2, 5))
            t1 = rng.uniform(.3, 1.9, n) if s.__class__.__name__ not in ("QUICSORT",) else rng.integers(3, 17, n) * .11
            if ev is None and rng.integers(2):
                t1[rng.integers(n)] = 0.
            a = rng.uniform(.2, 4., n)
            y0 = rng.uniform(.3, 1.5, (n, 2))
            try:
                b = eqx.filter_jit(jax.vmap(solve))(t1, a, y0)
            except Exception as e:
                try:
                    for i in range(n):
                        lone(t1[i], a[i], y0[i])
                except Exception:
                    yield None
                else:
                    yield dict(case=f"{name}: the batch raises, its elements alone do not", t1=t1.tolist(), a=a.tolist(), y0=y0.tolist(), error=str(e)[:600])
                continue
            for i in range(n):
                o = lone(t1[i], a[i], y0[i])
                tol = 1e-6 if "vaerno" in name or "isect" in name else 1e-7 if "opri8" in name else 1e-9  # Dopri8: step sizes from error estimates near rounding
                bad = [k for k in o for x, z in zip(jtu.tree_leaves(o[k]), jtu.tree_leaves(b[k])) if not close(np.asarray(z)[i], np.asarray(x), tol)]
                yield None if not bad else dict(case=f"{name}: element {i} of {n}", t1=t1.tolist(), a=a.tolist(), y0=y0.tolist(), differs=sorted(set(bad)),
                                                alone={k: [np.asarray(x).tolist() for x in jtu.tree_leaves(o[k])] for k in set(bad)}, batched={k: [np.asarray(x)[i].tolist() for x in jtu.tree_leaves(b[k])] for k in set(bad)})


def lax_diag(y):
    return jnp.diag(jnp.asarray(.3 * y))


CONCRETE = [("batches against their elements", concrete)]
