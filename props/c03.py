"""C03: integrating backwards in time mirrors integrating the time-negated problem forwards.

Relational: the real `diffeqsolve` is extracted twice, once with t1 < t0 and once on the time-negated problem (forwards);
initial state, body, loop condition and everything returned are proved equal term by term."""
from .c02 import *

FD = "diffeqsolve (direction)"


def arrays(tree):
    return jtu.tree_leaves(tree, is_leaf=lambda x: isinstance(x, np.ndarray))


def names(tree):
    return [jtu.keystr(k) for k, _ in jtu.tree_flatten_with_path(tree, is_leaf=lambda x: isinstance(x, np.ndarray))[0]]


def relate(ck, tag, flip, premises=(), padded=True, fix=None, **kw):
    """flip(name): -1 for outputs that are times or time derivatives, +1 otherwise"""
    begin_loop(ck)
    ctrl = kw.pop("controllers", None) or (UController(jnp.asarray(1), True, True, False), UController(jnp.asarray(1), True, True, False))
    sb, sf = kw.pop("saveats", (None, None))
    eb, ef = kw.pop("events", (None, None))
    kw.setdefault("solver", DSolver())
    common = dict(backward=True, **kw)
    B = LoopVC(saveat=sb, event=eb, controller=ctrl[0], fix_pre=fix, fix_exit=fix, **common)
    F = LoopVC(saveat=sf, event=ef, controller=ctrl[1], negate=True, fix_pre=fix, fix_exit=fix, **common)
    prem = [B.order] + B.requires + list(premises)
    # ulp symbols of both runs describe the same neighbourhood
    sm = {b: f for b, f in zip(B.floors, F.floors)}
    su = lambda v: T.subst(v, sm) if isinstance(v, T.Term) and sm else v

    def cmp(part, a, b, extra=()):
        if jtu.tree_structure(a) != jtu.tree_structure(b):
            ck.fact(f"{tag}.{part}.structure", FD, False, "the two solves carry different structures", "extraction")
            return
        for nm, x, y in zip(names(a), arrays(a), arrays(b)):
            if part == "init" and ".save_state" in nm and nm.endswith(".ts"):
                # unused entries are infinite in both
                for k in range(x.shape[0]):
                    if x[k] in (T.INF, T.NINF) and y[k] in (T.INF, T.NINF):
                        continue
                    ck.equal(f"{tag}.{part}{nm}[{k}]", FD, su(x[k]), y[k], prem)
                continue
            ck.equal_arr(f"{tag}.{part}{nm}", FD, S.emap(su, x), y, prem + list(extra))

    cmp("init", B.init, F.init)
    cmp("body", B.post, F.post, [B.cond_pre] if isinstance(B.cond_pre, T.Term) else [])
    ck.valid(f"{tag}.loop condition", FD, prem, T.iff(su(B.cond_pre), F.cond_pre))
    ck.valid(f"{tag}.loop condition at exit", FD, prem, T.iff(su(B.cond_exit), F.cond_exit))
    if jtu.tree_structure(B.out) != jtu.tree_structure(F.out):
        ck.fact(f"{tag}.out.structure", FD, False, "the two solves return different structures", "extraction")
        return B, F
    for nm, x, y in zip(names(B.out), arrays(B.out), arrays(F.out)):
        s = flip(nm)
        ck.equal_arr(f"{tag}.out{nm}", FD, S.emap(su, x), S.emap(mirrored, y) if s != 1 else y, prem)
    return B, F


def mirrored(v):
    """a time of the negated problem in user time; the marker +inf of an unused entry is the same for both"""
    if v is T.INF:
        return v
    if isinstance(v, T.Term) and v.op == "ite":
        return T.ite(v.args[0], mirrored(v.args[1]), mirrored(v.args[2]))
    return T.mul(-1, v)


class DSolver(USolver):
    """a solver whose `func` is the rate of change along the direction of integration"""
    def func(self, terms, t0, y0, args):
        return terms.vf_prod(t0, y0, args, terms.contr(t0, t0 + 1))


def flip_ts(nm):
    return -1 if nm.startswith("['ts']") or nm.startswith("['t0']") or nm.startswith("['t1']") or "['d" in nm else 1


def finite(v):
    return v


def neg_fn(f):
    return lambda t, y, args: f(-t, y, args)


def s_plain(ck):
    f = ufn("fn")
    relate(ck, "t1", flip_ts, saveats=(lambda ts: dfx.SaveAt(t1=True, fn=f), lambda ts: dfx.SaveAt(t1=True, fn=neg_fn(f))))


def s_states(ck):
    for ps in (("solver",), ("controller",), ("solver", "controller", "made_jump")):
        relate(ck, "passed " + "+".join(ps), flip_ts, pass_state=ps,
               saveats=(lambda ts: dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True),) * 2)


def s_save(ck):
    f = ufn("fn")
    sub = [Sub("fn", t0=True, ts=True, t1=True)]
    for i in range(M + 1):
        fx = fixer(sub, i, 0, 6, 1, pad=False)
        relate(ck, f"save[i={i}]", flip_ts, nts=M, fix=fx, padded=False,
               saveats=(lambda ts: dfx.SaveAt(t0=True, t1=True, ts=ts, fn=f), lambda ts: dfx.SaveAt(t0=True, t1=True, ts=ts, fn=neg_fn(f))))


def s_steps(ck):
    f = ufn("fn")
    sub = [Sub("fn", steps=2, t1=True)]
    for acc in range(3):
        fx = fixer(sub, 0, acc, 3, 1, pad=False)
        relate(ck, f"steps[acc={acc}]", flip_ts, max_steps=3, fix=fx,
               saveats=(lambda ts: dfx.SaveAt(steps=2, t1=True, fn=f), lambda ts: dfx.SaveAt(steps=2, t1=True, fn=neg_fn(f))))


def s_dense(ck):
    ms = 3

    def post(sol, tq):
        d = sol.interpolation.derivative(tq)
        return dict(e=sol.interpolation.evaluate(tq), d=d, dt0=sol.interpolation.t0, dt1=sol.interpolation.t1, er=sol.interpolation.evaluate(tq, left=False),
                    d2=sol.derivative(tq), e2=sol.evaluate(tq))
    for k in range(ms + 1):
        def fix(st, init, k=k):
            return eqx.tree_at(lambda s: s.dense_save_index, st, S.scalar(k))
        relate(ck, f"dense[{k} steps]", flip_ts, max_steps=ms, fix=fix, post=post, saveats=(lambda ts: dfx.SaveAt(dense=True),) * 2)


def s_control(ck):
    """controlled differential equations: the control is seen in user time"""
    class P(dfx.AbstractPath):
        neg: bool = eqx.field(static=True, default=False)
        t0 = -10.0
        t1 = 10.0

        def evaluate(self, t0, t1=None, left=True):
            X = lambda a, b: uf("X", (sds((2,)), sds((2,))), a, b)
            if self.neg:
                return jtu.tree_map(jnp.negative, X(-t1, -t0))
            return X(t0, t1)
    vfc = lambda t, y, args: (uf("vfa", sds((2,)), t, y, args), uf("vfb", sds((2, 2)), t, y, args))
    term = lambda neg: dfx.ControlTerm(vfc if not neg else (lambda t, y, args: vfc(-t, y, args)), P(neg))
    relate(ck, "control", flip_ts, term=term)
    # together with a drift
    vf = lambda t, y, args: uf("vf", YS, t, y, args)
    dr = lambda neg: dfx.ODETerm(vf if not neg else lambda t, y, args: jtu.tree_map(jnp.negative, vf(-t, y, args)))
    relate(ck, "drift+control", flip_ts, term=lambda neg: dfx.MultiTerm(dr(neg), term(neg)), solver=MSolver())


class MSolver(DSolver):
    term_structure = dfx.MultiTerm


def s_events(ck):
    g = lambda t, y, args, **kw: uf("g", sds(), t, y, args)
    b = lambda t, y, args, **kw: uf("b", sds((), "bool"), t, y, args)
    ng = lambda f: (lambda t, y, args, **kw: f(-t, y, args))
    for rf in (None, optx.Newton(1e-6, 1e-6)):
        tag = "event" + ("+root" if rf is not None else "")
        relate(ck, tag, flip_ts,
               events=(lambda: dfx.Event([g, b], rf, direction=[True, None]), lambda: dfx.Event([ng(g), ng(b)], rf, direction=[True, None])))
        sub = [Sub("fn", ts=True, t1=True)]
        f = ufn("fn")
        fx = fixer(sub, 2, 0, 6, 1, pad=False)
        relate(ck, tag + "+save", flip_ts, nts=M, fix=fx,
               events=(lambda: dfx.Event(g, rf), lambda: dfx.Event(ng(g), rf)),
               saveats=(lambda ts: dfx.SaveAt(t1=True, ts=ts, fn=f), lambda ts: dfx.SaveAt(t1=True, ts=ts, fn=neg_fn(f))))


def s_kwargs(ck):
    """what an event function is told (t0, t1, dt0, terms) is in user time"""
    begin_loop(ck)

    def g(t, y, args, *, terms, t0, t1, dt0, **kw):
        return uf("g", sds(), t, y, args, t0, t1, dt0, terms.vf(t, y, args))
    for backward in (False, True):
        vc = LoopVC(event=lambda: dfx.Event(g), backward=backward)
        for part, st, times in (("init", vc.init, S.scalar(vc.t0)), ("body", vc.post, S.scalar(T.mul(vc.sgn, val(vc.post.tprev))))):
            y = vc.y0 if part == "init" else vc.post.y
            want = ufT("g", (), times, *y, S.scalar(vc.args), S.scalar(vc.t0), S.scalar(vc.t1), S.scalar(vc.dt0), *vf_(times, y, vc.args))
            ck.equal(f"event arguments.{'bwd' if backward else 'fwd'}.{part}", "diffeqsolve/loop (event)", val(arrays(st.event_values)[0]), want[()], [vc.order] + vc.requires)


def s_controllers(ck):
    """the built-in controllers' time lists follow the direction"""
    begin_loop(ck)
    R = RES
    for name, mk in (("step_ts", lambda ts: dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-3, atol=1e-6), step_ts=ts)),
                     ("jump_ts", lambda ts: dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-3, atol=1e-6), jump_ts=ts)),
                     ("both", lambda ts: dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-3, atol=1e-6), step_ts=ts[:1], jump_ts=ts[1:])),
                     ("StepTo", lambda ts: dfx.StepTo(ts))):
        for ts in (np.array([0.25, 0.5, 0.75]), np.array([-1.5, 0.0, 2.0])):
            order = ts if name != "StepTo" else ts[::-1]
            with error_if_stub():
                w = mk(jnp.asarray(order)).wrap(-1)
                f = mk(jnp.asarray(-order)).wrap(1)
            la, lb = jtu.tree_leaves(eqx.filter(w, eqx.is_array)), jtu.tree_leaves(eqx.filter(f, eqx.is_array))
            same = len(la) == len(lb) and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(la, lb))
            ck.fact(f"{name}.wrap(-1) of {order.tolist()} is the negated list", f"{name}.wrap", same and len(la) > 0,
                    f"{[np.asarray(a).tolist() for a in la]} vs {[np.asarray(b).tolist() for b in lb]}", "concrete evaluation")
    # symbolic lists, already in the order they are needed
    def go(ts):
        return dfx.StepTo(ts).wrap(jnp.asarray(-1)).ts
    ts = symarr("ts", (3,))
    with error_if_stub():
        got, _ = run(go, (jnp.ones((3,)),), (ts,))
    ck.equal_arr("StepTo.wrap(-1)", "StepTo.wrap", got, S.emap(T.neg, ts))
    for nm in ("PIDController", "ConstantStepSize"):
        c = dfx.PIDController(rtol=1e-3, atol=1e-6, dtmin=0.1, dtmax=2.0) if nm == "PIDController" else dfx.ConstantStepSize()
        a, b = jtu.tree_flatten(c.wrap(-1)), jtu.tree_flatten(c)
        ck.fact(f"{nm}.wrap keeps its settings", f"{nm}.wrap", a[1] == b[1] and all(x is y or x == y for x, y in zip(a[0], b[0])), "", "concrete evaluation")


SECTIONS = [("final value", s_plain), ("ts", s_save), ("steps", s_steps), ("dense", s_dense), ("control", s_control), ("events", s_events),
            ("event arguments", s_kwargs), ("passed states", s_states), ("controllers", s_controllers)]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    w = np.array([1.3, -0.7])
    path_ts = np.linspace(-4, 4, 17)
    for trial in range(4 * effort):
        kind = ["pid", "clip", "jump", "stepto", "const", "sde", "event", "cde"][trial % 8] if effort > 1 else ["clip", "cde", "event", "jump"][trial % 4]
        t0 = float(rng.uniform(0.5, 1.5))
        t1 = t0 - float(rng.uniform(0.8, 2))
        mid = np.sort(rng.uniform(t1, t0, size=2))[::-1]
        tsr = np.sort(rng.uniform(t1, t0, size=4))[::-1]
        tsr = np.concatenate([[t0], tsr, [t1]])
        coef = rng.normal(size=(17, 2))
        vf = lambda t, y, a: jnp.sin(w * t + y) * 0.9 + jnp.where(t > mid[0], 1.0, 0.0)
        out = []
        for sg in (1, -1):
            # sg = 1: the backward solve; -1: the negated problem forwards
            f = vf if sg == 1 else (lambda t, y, a: -vf(-t, y, a))
            term = dfx.ODETerm(f)
            kw, solver = {}, dfx.Tsit5()
            pid = dfx.PIDController(rtol=1e-4, atol=1e-6)
            dt0 = -0.2 * sg
            if kind == "pid":
                kw = dict(stepsize_controller=pid)
            elif kind == "clip":
                kw = dict(stepsize_controller=dfx.ClipStepSizeController(pid, step_ts=jnp.asarray(sg * mid)))
            elif kind == "jump":
                kw = dict(stepsize_controller=dfx.ClipStepSizeController(pid, jump_ts=jnp.asarray(sg * mid)))
            elif kind == "stepto":
                kw = dict(stepsize_controller=dfx.StepTo(jnp.asarray(sg * tsr)))
                dt0 = None
            elif kind == "event":
                kw = dict(stepsize_controller=pid, event=dfx.Event(lambda t, y, args, **k: sg * t - mid[1], optx.Newton(1e-9, 1e-9)))
            elif kind == "cde":
                xs = coef if sg == 1 else coef[::-1]
                pts = path_ts if sg == 1 else -path_ts[::-1]
                path = dfx.LinearInterpolation(jnp.asarray(pts), jnp.asarray(xs.copy()))
                term = dfx.ControlTerm(lambda t, y, a: jnp.outer(jnp.sin(y + sg * t), jnp.array([1.0, 0.3])), path)
            elif kind == "sde":
                pass
            fn = (lambda t, y, a: (y * t, t)) if sg == 1 else (lambda t, y, a: (-y * t, -t))
            sol = dfx.diffeqsolve(term, solver, sg * t0, sg * t1, dt0, jnp.asarray([0.1, 0.4]), max_steps=256, throw=False,
                                  saveat=dfx.SaveAt(t0=True, t1=True, ts=jnp.asarray(sg * tsr), dense=True, fn=fn), **kw)
            last = sg * float(sol.ts[np.isfinite(np.asarray(sol.ts))][-1])
            q = np.linspace(t0, last, 9)
            ev = np.stack([np.asarray(sol.evaluate(sg * x)) for x in q])
            dv = np.stack([sg * np.asarray(sol.derivative(sg * x)) for x in q[1:-1]])
            finite = np.isfinite(np.asarray(sol.ts))
            out.append((np.where(finite, sg * np.asarray(sol.ts), np.asarray(sol.ts)), np.asarray(sol.ys[0]), np.asarray(sol.ys[1]), ev, dv, int(sol.stats["num_steps"]), int(sol.result._value)))
        a, b = out
        good = all(close(x, y, 1e-9) for x, y in zip(a, b))
        yield None if good else dict(case=f"{kind}: backward solve {t0}->{t1} against the negated problem, mid={mid.tolist()} ts={tsr.tolist()}",
                                     got=[x.tolist() if hasattr(x, 'tolist') else x for x in a], expected=[x.tolist() if hasattr(x, 'tolist') else x for x in b])


CONCRETE = [("backward against the negated problem", concrete)]
