"""C06: fixed-step controllers. `ConstantStepSize`, `StepTo`.

The controller's state is treated abstractly: from the real `init` and `adapt_step_size` it is established that every state
component is either never changed or incremented by one per step (the invariant of the step sequence), so that the state
after j steps is known for every j, and the contract is then proved of `adapt_step_size` in that state, for every j."""
from .mainloop import *

FCI, FCA = "ConstantStepSize.init", "ConstantStepSize.adapt_step_size"
FSI, FSA, FSW = "StepTo.init", "StepTo.adapt_step_size", "StepTo.wrap"


def drive_controller(mk, infinite=False, nts=0, dt0=True):
    """mk(ts) -> controller. Returns init's tnext and state, and adapt in the state after j steps"""
    box = {}

    def init(t0, t1, dt, ts):
        tn, st = mk(ts).init(None, t0, jnp.inf if infinite else t1, None, dt if dt0 else None, None, None, None)
        leaves, box["td"] = jtu.tree_flatten(st)
        return tn, [jnp.asarray(l) for l in leaves]

    def adapt(a, b, ts, leaves):
        keep, n0, n1, mj, st, res = mk(ts).adapt_step_size(a, b, None, None, None, None, None, jtu.tree_unflatten(box["td"], leaves))
        return jnp.asarray(keep), n0, n1, jnp.asarray(mj), [jnp.asarray(l) for l in jtu.tree_leaves(st)], jnp.asarray(res._value)

    f = jnp.asarray(1.0)
    s = {k: T.sym(k) for k in ("t0", "t1", "dt0", "a", "b")}
    ts = symarr("ts", (nts,))
    pos = [T.lt(s["t0"], s["t1"]), T.lt(0, s["dt0"])]
    with error_if_stub():
        (tn, st0), ev = run(init, (f, f, f, jnp.ones(nts)), (S.scalar(s["t0"]), S.scalar(s["t1"]), S.scalar(s["dt0"]), ts))
        _, shapes = jax.make_jaxpr(init, return_shape=True)(f, f, f, jnp.ones(nts))
        ex = [jnp.zeros(x.shape, x.dtype) for x in shapes[1]]
        A = Extract(adapt, (f, f, jnp.ones(nts), ex))
        # the invariant: each component of the state stays, or counts
        pre = [S.fresh_like(x, f"state{i}") for i, x in enumerate(shapes[1])]
        out, _ = A((S.scalar(s["a"]), S.scalar(s["b"]), ts, pre))
        counts = []
        for p, q in zip(pre, out[4]):
            if p.shape != ():
                if not all(x is y for x, y in zip(p.reshape(-1), q.reshape(-1))):
                    raise S.Unsupported("array state changes")
                counts.append(False)
            elif val(p) is val(q):
                counts.append(False)
            elif T.sort_of(val(p)) == "I" and core.equal_cases(val(q), T.add(val(p), 1), [])[0]:
                counts.append(True)
            else:
                raise S.Unsupported("controller state is neither constant nor a counter")

        def at(j):
            st = [S.scalar(T.add(val(v), j)) if c else v for v, c in zip(st0, counts)]
            return A((S.scalar(s["a"]), S.scalar(s["b"]), ts, st))[0]
    return s, ts, tn, ev, at, counts, pos


def fixed(ck, nm, fn, s, out):
    ck.fact(nm("every step is accepted"), fn, val(out[0]) is True, f"{val(out[0])}", "simplifier")
    ck.equal(nm("the next step starts where this one ended"), fn, val(out[1]), s["b"])
    ck.fact(nm("no discontinuity"), fn, val(out[3]) is False, "", "simplifier")
    ck.equal(nm("result"), fn, val(out[5]), 0)


def s_constant(ck):
    begin(ck)
    ck.assume("the number of steps is small enough for a machine integer")
    s, _, tn, _, at, counts, pos = drive_controller(lambda ts: dfx.ConstantStepSize())
    j = T.sym("j", "I")
    nm = lambda x: f"constant.{x}"
    ck.equal(nm("first step"), FCI, val(tn), T.add(s["t0"], s["dt0"]))
    ck.fact(nm("the state is a step counter and constants"), FCA, sum(counts) == 1, f"{counts}", "simplifier")
    out = at(j)
    fixed(ck, nm, FCA, s, out)
    nd = S._ulp("next", s["dt0"])
    q = T.div(T.sub(s["t1"], s["t0"]), nd)      # how many steps fit
    J = T.R(j)
    ctx = pos + [T.le(0, j), T.lt(s["dt0"], nd), T.lt(0, q)]
    more = ctx + [T.lt(T.add(J, 2), q)]
    last = ctx + [T.lt(T.add(J, 1), q), T.le(q, T.add(J, 2))]
    ck.sat(nm("premises: another full step"), more)
    ck.sat(nm("premises: last step"), last)
    grid = T.add(s["t0"], T.mul(T.add(J, 2), s["dt0"]))
    ck.equal(nm("a full step ends one step size on"), FCA, val(core.under(out[2], more)), grid, more)
    ck.equal(nm("the last step ends at t1"), FCA, val(core.under(out[2], last)), s["t1"], last)
    # positive: the current end is t0 + (j+1) dt0
    cur = T.add(s["t0"], T.mul(T.add(J, 1), s["dt0"]))
    ck.valid(nm("a full step is positive"), FCA, more, T.lt(T.sub(cur, s["t0"]), T.sub(grid, s["t0"])))
    # (j+1) dt0 < (j+1) next(dt0) < t1 - t0, spelled out for the solver
    ck.valid(nm("the last step is positive"), FCA, last + [T.lt(T.mul(T.add(J, 1), nd), T.sub(s["t1"], s["t0"])), T.le(T.mul(T.add(J, 1), s["dt0"]), T.mul(T.add(J, 1), nd))], T.lt(cur, s["t1"]))


def s_infinite(ck):
    begin(ck)
    s, _, tn, _, at, counts, pos = drive_controller(lambda ts: dfx.ConstantStepSize(), infinite=True)
    j = T.sym("j", "I")
    nm = lambda x: f"constant, t1=inf.{x}"
    ck.equal(nm("first step"), FCI, val(tn), T.add(s["t0"], s["dt0"]))
    out = at(j)
    fixed(ck, nm, FCA, s, out)
    ck.equal(nm("every step is one step size"), FCA, val(out[2]), T.add(s["b"], s["dt0"]), [T.le(0, j)])


def s_stepto(ck):
    begin(ck)
    ck.assume("equinox.error_if raises exactly when its predicate holds")
    for n in (2, 3, 5):
        s, ts, tn, ev, at, counts, pos = drive_controller(lambda ts: dfx.StepTo(ts), nts=n, dt0=False)
        nm = lambda x: f"step to {n} times.{x}"
        ck.equal(nm("first step"), FSI, val(tn), ts[1])
        ck.fact(nm("the state is a counter"), FSA, counts == [True], f"{counts}", "simplifier")
        errs = [val(v[0]) for tg, v, _ in ev.notes if tg == "error_if"]
        ck.valid(nm("ends are checked"), FSI, [], T.iff(T.or_(False, *errs), T.or_(T.ne(s["t0"], ts[0]), T.ne(s["t1"], ts[n - 1]))))
        for k in range(n - 2):
            out = at(k)
            fixed(ck, lambda x: nm(f"{x} ({k})"), FSA, s, out)
            ck.equal(nm(f"step {k + 2} ends at time {k + 2}"), FSA, val(out[2]), ts[k + 2])
        for d in (1, -1):
            def wr(ts):
                return dfx.StepTo(ts).wrap(d).ts
            with error_if_stub():
                w, ev = run(wr, (jnp.ones(n),), (ts,))
            ck.equal_arr(nm(f"wrap({d}): times in the direction of integration"), FSW, w, ascale(d, ts))
            errs = [val(v[0]) for tg, v, _ in ev.notes if tg == "error_if"]
            ck.valid(nm(f"wrap({d}): times must be monotone"), FSW, [], T.iff(T.or_(False, *errs), T.or_(*[T.le(T.mul(d, b), T.mul(d, a)) for a, b in zip(ts, ts[1:])])))


def s_static(ck):
    begin(ck)

    def refused(f):
        try:
            f()
        except ValueError:
            return True
        return False
    ck.fact("constant: dt0=None is refused", FCI, refused(lambda: dfx.ConstantStepSize().init(None, 0.0, 1.0, None, None, None, None, None)), "", "concrete evaluation")
    ck.fact("step to: dt0 is refused", FSI, refused(lambda: dfx.StepTo(ts=[0.0, 1.0]).init(None, 0.0, 1.0, None, 0.1, None, None, None)), "", "concrete evaluation")
    ck.fact("step to: fewer than two times are refused", "StepTo.__check_init__", refused(lambda: dfx.StepTo(ts=[0.0])), "", "concrete evaluation")
    ck.fact("step to: matrices are refused", "StepTo.__check_init__", refused(lambda: dfx.StepTo(ts=[[0.0, 1.0]])), "", "concrete evaluation")
    c = dfx.ConstantStepSize()
    ck.fact("constant: direction does not matter", "ConstantStepSize.wrap", c.wrap(-1) == c and c.wrap(1) == c, "", "concrete evaluation")


SECTIONS = [("constant step size", s_constant), ("constant step size, infinite time", s_infinite), ("step to", s_stepto), ("construction", s_static)]


@eqx.filter_jit
def solve(t0, t1, dt0, ctrl, n):
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Euler(), t0, t1, dt0, 1.0, stepsize_controller=ctrl, saveat=dfx.SaveAt(steps=True), max_steps=64, throw=False)
    return sol.ts, sol.stats["num_accepted_steps"], sol.stats["num_rejected_steps"], sol.result._value


def concrete(rng, effort):
    for trial in range(40 * effort):
        sg = -1.0 if trial % 2 else 1.0
        t0 = float(rng.choice([0.0, rng.uniform(-5, 5)]))
        T_ = float(rng.uniform(0.1, 4))
        kind = trial % 4
        n = int(rng.integers(1, 40))
        dt = T_ / n if kind < 2 else float(rng.uniform(T_ / 40, T_ * 1.2))
        t1 = t0 + sg * T_
        ts, acc, rej, res = solve(*map(jnp.asarray, (t0, t1, sg * dt)), dfx.ConstantStepSize(), None)
        ts = np.asarray(ts)[np.isfinite(ts)]
        k = (T_ / dt)
        m = int(np.ceil(k - 1e-9))
        want = np.array([t0 + sg * dt * (i + 1) for i in range(m - 1)] + [t1])
        ok = close(ts, want, 1e-11) and ts[-1] == t1 and int(acc) == m and int(rej) == 0 and int(res) == 0
        yield None if ok else dict(case="constant step size", t0=t0, t1=t1, dt0=sg * dt, steps=list(ts), expected=list(want), result=int(res))
    for trial in range(10 * effort):
        sg = -1.0 if trial % 2 else 1.0
        g = np.cumsum(rng.uniform(0.01, 1, 7)) * sg
        ts, acc, rej, res = solve(jnp.asarray(g[0]), jnp.asarray(g[-1]), None, dfx.StepTo(ts=g), None)
        ts = np.asarray(ts)[np.isfinite(ts)]
        ok = len(ts) == 6 and np.all(ts == g[1:]) and int(rej) == 0 and int(res) == 0
        yield None if ok else dict(case="step to", ts=list(g), steps=list(ts), result=int(res))
    for ts, a, b, why in (([0.0, 1.0, 0.5, 2.0], 0.0, 2.0, "not monotone"), ([0.0, 1.0, 1.0, 2.0], 0.0, 2.0, "repeated"), ([0.0, 1.0, 2.0], 0.0, 3.0, "end"), ([0.0, 1.0, 2.0], 0.5, 2.0, "start")):
        try:
            solve(a, b, None, dfx.StepTo(ts=ts), None)
            yield dict(case=f"step to invalid times ({why})", ts=ts, t0=a, t1=b, got="accepted")
        except Exception:
            yield None


CONCRETE = [("solves", concrete)]
