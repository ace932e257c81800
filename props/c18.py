"""C18: adjoints. The real `diffeqsolve` under every adjoint: same loop, same results; the backward pass of BacksolveAdjoint and the
linearisation of ImplicitAdjoint against their specification; combinations that cannot be differentiated are rejected."""
import contextlib
import inspect
import types
import warnings

from .c02 import *
import diffrax._integrate as _I
import optimistix.internal as _oi

FA = "AbstractAdjoint.loop"
isarr = lambda x: isinstance(x, np.ndarray)


def lv(t):
    return jtu.tree_leaves(t, is_leaf=isarr)


def same_terms(ck, tag, fn, a, b, prem=()):
    la, lb = lv(a), lv(b)
    if not ck.fact(f"{tag}.structure", fn, len(la) == len(lb) and all(np.shape(x) == np.shape(y) for x, y in zip(la, lb)), f"{len(la)} {len(lb)}"):
        return
    for i, (x, y) in enumerate(zip(la, lb)):
        ck.equal_arr(f"{tag}.{i}", fn, np.asarray(x, dtype=object), np.asarray(y, dtype=object), prem)


# ---------------------------------------------------------------- every adjoint runs the same solve
ADJ = {
    "RecursiveCheckpointAdjoint()": lambda: dfx.RecursiveCheckpointAdjoint(),
    "RecursiveCheckpointAdjoint(checkpoints=3)": lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=3),
    "DirectAdjoint()": lambda: dfx.DirectAdjoint(),
    "ForwardMode()": lambda: dfx.ForwardMode(),
    "BacksolveAdjoint()": lambda: dfx.BacksolveAdjoint(),
    "BacksolveAdjoint(...)": lambda: dfx.BacksolveAdjoint(dt0=-0.1, max_steps=7, throw=False, solver=dfx.Euler()),
    "ImplicitAdjoint()": lambda: dfx.ImplicitAdjoint(),
}
CFG = {
    "t1": (dict(), 0, ADJ),
    "t0, ts and t1": (dict(saveat=lambda ts: dfx.SaveAt(t0=True, ts=ts, t1=True), nts=2), Sub(None, t0=True, t1=True, ts=True), [a for a in ADJ if "Implicit" not in a]),
    "ts with a function": (dict(saveat=lambda ts: dfx.SaveAt(ts=ts, fn=lambda t, y, args: uf("out", sds((3,)), t, y, args)), nts=2), Sub(None, ts=True),
                           [a for a in ADJ if "Implicit" not in a and "Backsolve" not in a]),
    "steps and dense": (dict(saveat=lambda ts: dfx.SaveAt(steps=True, dense=True)), 0, [a for a in ADJ if "Implicit" not in a and "Backsolve" not in a]),
    "states": (dict(saveat=lambda ts: dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True), pass_state=("solver", "controller", "made_jump")), 0,
               [a for a in ADJ if "Implicit" not in a]),
    "events": (dict(event=lambda: dfx.Event(lambda t, y, args, **kw: uf("g", sds(()), t, y, args), optx.Newton(1e-3, 1e-3))), 0, [a for a in ADJ if "Backsolve" not in a]),
    "max_steps=None": (dict(max_steps=None), 0, [a for a in ADJ]),
}


def forward(cfg, backward):
    def go(ck):
        begin_loop(ck)
        kw, sub, ads = CFG[cfg]
        sgn = -1 if backward else 1
        fx = [fixer([sub], i, 0, 6, sgn) for i in (1, 0, 2)] if sub else [None]
        ref = [None] * len(fx)
        for j, f in enumerate(fx):
            ref[j] = LoopVC(backward=backward, **kw, fix_pre=f, fix_exit=f, reuse=ref[0])
        for a, j in [(a, j) for a in ads for j in range(len(fx))]:
            if j == 0:
                vc0 = None
            vc = LoopVC(backward=backward, adjoint=ADJ[a](), **kw, fix_pre=fx[j], fix_exit=fx[j], reuse=vc0)
            vc0 = vc if j == 0 else vc0
            compare(ck, a, f"{cfg}{'.bwd' if backward else ''}{f'.{j}' if sub else ''}", vc, ref[j])
    return go


def compare(ck, a, tag, vc, ref):
            n = lambda s: f"{a}.{tag}.{s}"
            fn = a.split("(")[0] + ".loop"
            ck.fact(n("one loop"), fn, len(vc.box[OUTER]) == 1 and vc.box[OUTER][0]["max_steps"] == ref.box[OUTER][0]["max_steps"], str(vc.box[OUTER][0]["max_steps"]))
            same_terms(ck, n("initial state"), fn, vc.init, ref.init)
            same_terms(ck, n("one iteration"), fn, vc.post, ref.post)
            ck.fact(n("loop condition"), fn, T.iff(vc.cond_pre, ref.cond_pre) is True, f"{vc.cond_pre}")
            same_terms(ck, n("solution"), fn, vc.out, ref.out)
            k = vc.box[OUTER][0]
            if "checkpoints=3" in a:
                ck.fact(n("number of checkpoints"), fn, k["checkpoints"] == 3, str(k["checkpoints"]))


def scans(ck):
    """DirectAdjoint and ForwardMode choose how a Runge-Kutta solver loops over its stages: the step is the same function"""
    begin(ck)
    ck.assume("equinox's while loops of every kind iterate body while cond")
    from .rk import symarr as _  # noqa
    f = jnp.asarray(1.0)

    def vf(t, y, a):
        return uf("f", sds((2,)), t, y, a)

    cases = [("Tsit5", dfx.Tsit5, lambda: dfx.ODETerm(vf), {}), ("Heun", dfx.Heun, lambda: dfx.ODETerm(vf), {}),
             ("SRA1", dfx.SRA1, lambda: dfx.MultiTerm(dfx.ODETerm(vf), dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 2)), t, a), _Levy())), {}),
             ("SPaRK", dfx.SPaRK, lambda: dfx.MultiTerm(dfx.ODETerm(vf), dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 2)), t, y, a), _Levy())), {})]
    for nm, cls, mk, kw in cases:
        ref = None
        for kind in (None, "lax", "bounded", "checkpointed"):
            solver = cls(scan_kind=kind)
            term = mk()

            def one(t0, t1, y0, a):
                st = solver.init(term, t0, t1, y0, a)
                out = []
                for mj in (False, True):
                    y1, err, info, st2, res = solver.step(term, t0, t1, y0, a, st, mj)
                    out.append((y1, err, info, eqx.filter(st2, eqx.is_array)))
                return eqx.filter(out, eqx.is_array)
            o, _ = run(one, (f, f, jnp.ones(2), f), (S.scalar(T.sym("ta")), S.scalar(T.sym("tb")), symarr("y", (2,)), S.scalar(T.sym("a"))))
            if ref is None:
                ref = o
            else:
                same_terms(ck, f"{nm}.scan_kind={kind}", f"{nm}.step", o, ref)


class _Levy(dfx.AbstractBrownianPath):
    levy_area: type = eqx.field(static=True, default=dfx.SpaceTimeLevyArea)

    @property
    def t0(self):
        return None

    @property
    def t1(self):
        return None

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        w, h = uf("dW", (sds((2,)), sds((2,))), t0, t1)
        return dfx.SpaceTimeLevyArea(dt=t1 - t0, W=w, H=h) if use_levy else w


# ---------------------------------------------------------------- BacksolveAdjoint: the backward pass
class VF(eqx.Module):
    theta: jax.Array
    k: jax.Array

    def __call__(self, t, y, args):
        return uf("vf", YS, t, y, args, self.theta, self.k)


NIN = 1 + 3 + 1 + 1 + 2 + 1      # t, y, args (a, n), theta, k


class NDController(UController):
    """an arbitrary controller; the times it chooses are not differentiated (as for the built-in ones)"""

    def wrap(self, direction):
        return NDController(direction, self.jumps, self.has_result, self.dirdep)

    def init(self, *a):
        tn, st = super().init(*a)
        return jax.lax.stop_gradient(tn), st


class BwdVC(LoopVC):
    """one extraction of the vector-Jacobian product of diffeqsolve under BacksolveAdjoint; the solves on the backward pass by contract
    (an uninterpreted function of everything they are given)"""

    def __init__(self, saveat, nts, backward, dt0=True, akw=None, max_steps=6, use_ct=True, nstate=True):
        self.fix_pre = self.fix_exit = None
        self.max_steps = max_steps
        box = {}
        self.calls = calls = []
        solver, ctrl = USolver(True), NDController(jnp.asarray(1), True, True)
        real = _I.diffeqsolve
        sig = inspect.signature(inspect.unwrap(real))
        self.adj = dfx.BacksolveAdjoint(**(akw or {}))

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            q = b.arguments
            calls.append(dict(q))
            terms, y0 = q["terms"], q["y0"]
            t0, t1 = jnp.asarray(q["t0"]), jnp.asarray(q["t1"])
            probe = terms.vf_prod(t0, y0, q["args"], terms.contr(t0, t1))
            none = lambda x: () if x is None else x
            ins = (t0, t1, none(q["dt0"]), y0, eqx.filter(q["args"], eqx.is_array), none(q["solver_state"]), none(q["controller_state"]), jnp.asarray(q["made_jump"]), probe)
            out = uf("solve", (jtu.tree_map(lambda x: sds((1,) + x.shape, x.dtype), y0), sds((2,)), sds((3,))), *ins)
            return types.SimpleNamespace(ts=t1[None], ys=out[0], solver_state=out[1], controller_state=out[2], result=RES.successful, stats={}, t0=t0, t1=t1, made_jump=None)

        def fn(t0, t1, dt, y0, a, theta, ts, ct):
            n, k = jnp.asarray(3), jnp.asarray(5)

            def sol(y0, a, theta):
                s = real(dfx.ODETerm(VF(theta, k)), solver, t0, t1, dt if dt0 else None, y0, dict(a=a, n=n), saveat=saveat(ts), stepsize_controller=ctrl,
                         adjoint=self.adj, max_steps=max_steps, throw=False, progress_meter=_Prog2())
                return s.ys, s.ts
            ys, vjp, ts_ = jax.vjp(sol, y0, a, theta, has_aux=True)
            return dict(ys=ys, ts=ts_, grads=vjp(ct))

        f = jnp.asarray(1.0)
        y_ex = (f, jnp.ones((2,)))
        m = jax.eval_shape(lambda ts: real(dfx.ODETerm(lambda t, y, a: y), dfx.Euler(), 0., 1., 0.1, y_ex, saveat=saveat(ts)).ts, sds((nts,))).shape[0]
        self.m = m
        ct_ex = (jnp.ones((m,)), jnp.ones((m, 2)))
        self.t0, self.t1, self.dt0 = T.sym("t0"), T.sym("t1"), T.sym("dt0")
        self.y0 = (S.scalar(T.sym("y0a")), symarr("y0b", (2,)))
        self.args, self.theta = T.sym("args"), symarr("theta", (2,))
        self.ts = symarr("ts", (nts,))
        self.ct = (symarr("ga", (m,)), symarr("gb", (m, 2)))
        vals = (S.scalar(self.t0), S.scalar(self.t1), S.scalar(self.dt0), self.y0, S.scalar(self.args), self.theta, self.ts, self.ct)
        self.box, self.loops, self.side = box, [], []
        self.no_body = True
        jax.clear_caches()
        _I.diffeqsolve = dfx.diffeqsolve = stub
        try:
            with error_if_stub(), root_find_stub(), hooked_loops(box):
                self.ex = Extract(fn, (f, f, f, y_ex, f, jnp.ones(2), jnp.ones((nts,)), ct_ex))
                self.out, self.ev = self.ex(vals, loop_handler=self._handler)
        finally:
            _I.diffeqsolve = dfx.diffeqsolve = real
        assert len(self.loops) == 1
        self._chains()
        self.backward = backward
        self._resolve_direction(backward)
        self._split()


class _Prog2(dfx.AbstractProgressMeter):
    def init(self):
        return None

    def step(self, state, progress):
        return None

    def close(self, close):
        pass


def flat(y):
    return [v for a in y for v in np.asarray(a, dtype=object).reshape(-1)]


def augmented(sgn, t, h, y, a, ay, theta):
    """the adjoint system over an increment h of the internal time: (f, -a.df/dy, -a.df/dargs, -a.df/dtheta) * h, in user time"""
    ins = [S.scalar(T.mul(sgn, t)), *y, S.scalar(a), S.scalar(3), theta, S.scalar(5)]

    def F(name):
        return flat((ufT(name, (), *ins, nout=2, o=0), ufT(name, (2,), *ins, nout=2, o=1)))
    hh = T.mul(sgn, h)
    A = flat(ay)

    def pull(k):
        d = F(f"vf'{k}")
        return T.mul(hh, T.neg(T.add(T.add(T.mul(A[0], d[0]), T.mul(A[1], d[1])), T.mul(A[2], d[2]))))
    f = [T.mul(hh, v) for v in F("vf")]
    return f, [pull(1), pull(2), pull(3)], pull(4), [pull(6), pull(7)]


SAVE = {
    "t1": (lambda ts: dfx.SaveAt(t1=True), 0, False),
    "t0": (lambda ts: dfx.SaveAt(t0=True), 0, True),
    "t0, t1": (lambda ts: dfx.SaveAt(t0=True, t1=True), 0, True),
    "ts[1]": (lambda ts: dfx.SaveAt(ts=ts), 1, False),
    "ts[2]": (lambda ts: dfx.SaveAt(ts=ts), 2, False),
    "ts[4]": (lambda ts: dfx.SaveAt(ts=ts), 4, False),
    "ts[2], t1": (lambda ts: dfx.SaveAt(ts=ts, t1=True), 2, False),
    "t0, ts[1]": (lambda ts: dfx.SaveAt(t0=True, ts=ts), 1, True),
    "t0, ts[2]": (lambda ts: dfx.SaveAt(t0=True, ts=ts), 2, True),
    "t0, ts[3], t1": (lambda ts: dfx.SaveAt(t0=True, ts=ts, t1=True), 3, True),
}
BW = "BacksolveAdjoint (backward pass)"


def backsolve(cfg, backward, dt0=True, akw=None, tag=""):
    def go(ck):
        begin_loop(ck)
        ck.assume("a solve on the backward pass is a function of what it is given (its own contract is the rest of these properties)",
                  "jax's reverse-mode differentiation of the vector field itself is exact")
        saveat, nts, has0 = SAVE[cfg]
        vc = BwdVC(saveat, nts, backward, dt0, akw)
        n = lambda s: f"{cfg}{'.bwd' if backward else ''}{tag}.{s}"
        kw = akw or {}
        # -- what is handed to the solves (static part)
        nsolves = vc.m - (1 if has0 else 0)
        if nsolves == 0:
            ck.fact(n("nothing to solve"), BW, len(vc.calls) == 0, str(len(vc.calls)))
        for i, q in enumerate(vc.calls):
            ck.fact(n(f"solve {i}: solver"), BW, type(q["solver"]) is type(kw.get("solver", USolver(True))), str(q["solver"]))
            ck.fact(n(f"solve {i}: controller"), BW, type(q["stepsize_controller"]) is type(kw.get("stepsize_controller", NDController(jnp.asarray(1)))), str(q["stepsize_controller"]))
            ck.fact(n(f"solve {i}: adjoint"), BW, type(q["adjoint"]) is type(kw.get("adjoint", vc.adj)), str(q["adjoint"]))
            ck.fact(n(f"solve {i}: max_steps"), BW, q["max_steps"] == kw.get("max_steps", vc.max_steps), str(q["max_steps"]))
            ck.fact(n(f"solve {i}: throw"), BW, q["throw"] is kw.get("throw", False), str(q["throw"]))
            ck.fact(n(f"solve {i}: event"), BW, q["event"] is None, str(q["event"]))
            sa = q["saveat"]
            ck.fact(n(f"solve {i}: saves the final value and the states"), BW,
                    sa.subs.t1 and not sa.subs.t0 and sa.subs.ts is None and not sa.subs.steps and not sa.dense and sa.solver_state and sa.controller_state, str(sa))
        # -- the recursion
        sgn = vc.sgn
        m = vc.m
        ts = [T.mul(sgn, v) for v in vc.out["ts"].reshape(-1)]
        ys = [(S.scalar(vc.out["ys"][0][i]), vc.out["ys"][1][i]) for i in range(m)]
        g = [(S.scalar(vc.ct[0][i]), vc.ct[1][i]) for i in range(m)]
        t0 = T.mul(sgn, vc.t0)
        ay, aa, ath = (S.scalar(Fr(0)), arr(Fr(0), Fr(0))), S.scalar(Fr(0)), arr(Fr(0), Fr(0))
        ss = cs = None
        last = 1 if has0 else 0
        dt = kw.get("dt0", None)
        for i in range(m - 1, last - 1, -1):
            ay = tuple(S.emap(T.add, u, v) for u, v in zip(ay, g[i]))
            tb = ts[i - 1] if i > 0 else t0
            p = augmented(sgn, ts[i], T.sub(tb, ts[i]), ys[i], vc.args, ay, vc.theta)
            d = (S.scalar(core_num(dt)),) if dt is not None else ((S.scalar(T.neg(T.mul(sgn, vc.dt0))),) if dt0 else ())
            ins = (S.scalar(ts[i]), S.scalar(tb), *d, *ys[i], *ay, aa, ath, S.scalar(vc.args), S.scalar(3)) + \
                ((ss, cs) if ss is not None else ()) + (S.scalar(ss is not None), arr(*p[0]), arr(*p[1]), S.scalar(p[2]), arr(*p[3]))
            o = lambda k, shape: ufT("solve", shape, *ins, nout=8, o=k)
            ay = (S.scalar(o(2, (1,))[0]), o(3, (1, 2))[0])
            aa, ath = S.scalar(o(4, (1,))[0]), o(5, (1, 2))[0]
            ss, cs = o(6, (2,)), o(7, (3,))
        if has0:
            ay = tuple(S.emap(T.add, u, v) for u, v in zip(ay, g[0]))
        gy, ga, gt = vc.out["grads"]
        prem = [vc.order]
        for j, (u, v) in enumerate(zip(gy, ay)):
            ck.equal_arr(n(f"gradient of y0.{j}: the adjoint system from the last saved time back to t0, a jump by the cotangent at every saved time"), BW, u, v, prem)
        ck.equal_arr(n("gradient of args"), BW, ga, aa, prem)
        ck.equal_arr(n("gradient of the terms"), BW, gt, ath, prem)
    return go


def core_num(x):
    return Fr(x)


# ---------------------------------------------------------------- ImplicitAdjoint
@contextlib.contextmanager
def implicit_stub():
    """optimistix.internal.implicit_jvp by contract: the primal's value, whose derivative solves the linearisation of `rewrite` at that value"""
    old = _oi.implicit_jvp

    def stub(primal, rewrite, inputs, tags, linear_solver):
        out, res = primal(inputs)
        F = jtu.tree_leaves(rewrite(out, res, inputs))
        l, td = jtu.tree_flatten(out)
        l[0] = note("implicit", l[0], *F)
        return jtu.tree_unflatten(td, l), res

    _oi.implicit_jvp = stub
    try:
        yield
    finally:
        _oi.implicit_jvp = old


def implicit(backward):
    def go(ck):
        begin_loop(ck)
        ck.assume("optimistix.internal.implicit_jvp(primal, rewrite, ...) differentiates primal's value by the implicit function theorem applied to rewrite = 0")
        fn = "ImplicitAdjoint.loop"
        with implicit_stub():
            jax.clear_caches()
            vc = LoopVC(backward=backward, adjoint=dfx.ImplicitAdjoint())
            jax.clear_caches()
        ref = LoopVC(backward=backward)
        tag = "bwd" if backward else "fwd"
        same_terms(ck, f"implicit.{tag}.solution", fn, vc.out, ref.out)
        got = [v for t, v, _ in vc.ev.notes if t == "implicit"]
        if not ck.fact(f"implicit.{tag}.differentiated by the implicit function theorem", fn, len(got) == 1, str(len(got))):
            return
        y = [S.scalar(vc.out["ys"][0][0]), vc.out["ys"][1][0]]
        w = vf_(S.scalar(T.mul(vc.sgn, val(vc.exit.tprev))), y, S.scalar(vc.args))
        for i, (u, v) in enumerate(zip(got[0], w)):
            ck.equal_arr(f"implicit.{tag}.the equation is f(t, y, args) = 0 at the final time and value.{i}", fn, u, v, [vc.order])
    return go


# ---------------------------------------------------------------- rejected combinations
def raises(f, kinds=(Exception,)):
    jax.clear_caches()
    try:
        jax.block_until_ready(f())
    except kinds as e:
        return True, type(e).__name__
    except Exception as e:  # noqa: BLE001
        return False, f"{type(e).__name__}: {e}"
    return False, "no error"


def rejected(ck):
    begin(ck)
    k = jax.random.key(0)
    ode = dfx.ODETerm(lambda t, y, a: -y * a)
    ub, vb = dfx.UnsafeBrownianPath((), k), dfx.VirtualBrownianTree(0., 1., 0.1, (), k)
    sde = lambda p: dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: 0.1 * y, p))
    one = jnp.asarray(1.0)

    def solve(adj, term=ode, solver=None, y0=one, a=one, t1=one, saveat=None, max_steps=40, **kw):
        return dfx.diffeqsolve(term, solver or dfx.Heun(), 0., t1, 0.1, y0, a, saveat=saveat or dfx.SaveAt(t1=True), adjoint=adj, max_steps=max_steps, **kw)
    BS, IM, RC, DA, FM = dfx.BacksolveAdjoint(), dfx.ImplicitAdjoint(), dfx.RecursiveCheckpointAdjoint(), dfx.DirectAdjoint(), dfx.ForwardMode()
    NI, VE = (NotImplementedError,), (ValueError,)
    sub = dfx.SubSaveAt
    ev = dfx.Event(lambda t, y, args, **kw: y < 0.5)
    tup = dfx.ODETerm(lambda t, y, a: y)
    bad = [
        ("BacksolveAdjoint, SaveAt(subs=...)", NI, lambda: solve(BS, saveat=dfx.SaveAt(subs=[sub(t1=True)])).ys),
        ("BacksolveAdjoint, SaveAt(subs=(two))", NI, lambda: solve(BS, saveat=dfx.SaveAt(subs=(sub(t1=True), sub(t0=True)))).ys),
        ("BacksolveAdjoint, SaveAt(steps=True)", NI, lambda: solve(BS, saveat=dfx.SaveAt(steps=True)).ys),
        ("BacksolveAdjoint, SaveAt(steps=2, t1=True)", NI, lambda: solve(BS, saveat=dfx.SaveAt(steps=2, t1=True)).ys),
        ("BacksolveAdjoint, SaveAt(dense=True)", NI, lambda: solve(BS, saveat=dfx.SaveAt(dense=True)).ts),
        ("BacksolveAdjoint, SaveAt(t1=True, dense=True)", NI, lambda: solve(BS, saveat=dfx.SaveAt(t1=True, dense=True)).ts),
        ("BacksolveAdjoint, SaveAt(fn=...)", NI, lambda: solve(BS, saveat=dfx.SaveAt(t1=True, fn=lambda t, y, a: 2 * y)).ys),
        ("BacksolveAdjoint, UnsafeBrownianPath", VE, lambda: solve(BS, sde(ub)).ys),
        ("BacksolveAdjoint, Ito solver (Euler)", NI, lambda: solve(BS, sde(vb), dfx.Euler()).ys),
        ("BacksolveAdjoint, Ito solver (ItoMilstein)", NI, lambda: solve(BS, sde(vb), dfx.ItoMilstein()).ys),
        ("BacksolveAdjoint, solver of several terms", NI, lambda: solve(BS, (tup, tup), dfx.SemiImplicitEuler(), y0=(one, one)).ys),
        ("BacksolveAdjoint, event", NI, lambda: solve(BS, event=ev).ys),
        ("BacksolveAdjoint(saveat=...)", VE, lambda: dfx.BacksolveAdjoint(saveat=dfx.SaveAt(t1=True)) and one),
        ("BacksolveAdjoint(solver_state=...)", VE, lambda: dfx.BacksolveAdjoint(solver_state=1) and one),
        ("BacksolveAdjoint(args=..., dt0=...)", VE, lambda: dfx.BacksolveAdjoint(args=1, dt0=0.1) and one),
        ("ImplicitAdjoint, SaveAt(ts=...)", VE, lambda: solve(IM, saveat=dfx.SaveAt(ts=jnp.array([0.5, 1.]))).ys),
        ("ImplicitAdjoint, SaveAt(t0=True)", VE, lambda: solve(IM, saveat=dfx.SaveAt(t0=True)).ys),
        ("ImplicitAdjoint, SaveAt(t0=True, t1=True)", VE, lambda: solve(IM, saveat=dfx.SaveAt(t0=True, t1=True)).ys),
        ("ImplicitAdjoint, SaveAt(steps=True)", VE, lambda: solve(IM, saveat=dfx.SaveAt(steps=True)).ys),
        ("ImplicitAdjoint, SaveAt(t1=True, dense=True)", VE, lambda: solve(IM, saveat=dfx.SaveAt(t1=True, dense=True)).ys),
        ("ImplicitAdjoint, SaveAt(t1=True, fn=...)", VE, lambda: solve(IM, saveat=dfx.SaveAt(t1=True, fn=lambda t, y, a: 2 * y)).ys),
        ("ImplicitAdjoint, SaveAt(subs=...)", VE, lambda: solve(IM, saveat=dfx.SaveAt(subs=[sub(t1=True)])).ys),
        ("RecursiveCheckpointAdjoint, UnsafeBrownianPath", VE, lambda: solve(RC, sde(ub)).ys),
        # gradients that cannot be computed are errors, not wrong numbers
        ("RecursiveCheckpointAdjoint, max_steps=None: gradient", (Exception,), lambda: jax.grad(lambda y: solve(RC, y0=y, max_steps=None).ys[0])(one)),
        ("RecursiveCheckpointAdjoint: forward mode", (Exception,), lambda: jax.jvp(lambda y: solve(RC, y0=y).ys[0], (one,), (one,))),
        ("DirectAdjoint, max_steps=None: gradient", (Exception,), lambda: jax.grad(lambda y: solve(DA, y0=y, max_steps=None).ys[0])(one)),
        ("DirectAdjoint, UnsafeBrownianPath: gradient", (Exception,), lambda: jax.grad(lambda y: solve(DA, sde(ub), y0=y).ys[0])(one)),
        ("ForwardMode: gradient", (Exception,), lambda: jax.grad(lambda y: solve(FM, y0=y).ys[0])(one)),
        ("BacksolveAdjoint: gradient of t1", (Exception,), lambda: jax.grad(lambda t: solve(BS, t1=t).ys[0])(one)),
        ("BacksolveAdjoint: gradient of a closed-over value", (Exception,), lambda: jax.grad(lambda c: solve(BS, dfx.ODETerm(lambda t, y, a: -c * y)).ys[0])(one)),
        ("BacksolveAdjoint: forward mode", (Exception,), lambda: jax.jvp(lambda y: solve(BS, y0=y).ys[0], (one,), (one,))),
        ("BacksolveAdjoint: gradient of a passed solver_state", (Exception,), lambda: jax.grad(lambda z: solve(BS, solver=dfx.Tsit5(), solver_state=(jnp.asarray(False), z)).ys[0])(one)),
        ("ImplicitAdjoint: gradient of a passed solver_state", (Exception,), lambda: jax.grad(lambda z: solve(IM, solver=dfx.Tsit5(), solver_state=(jnp.asarray(False), z)).ys[0])(one)),
        ("BacksolveAdjoint: gradient of a passed controller_state", (Exception,),
         lambda: jax.grad(lambda z: solve(BS, solver=dfx.Tsit5(), stepsize_controller=dfx.PIDController(1e-3, 1e-3), controller_state=(jnp.asarray(True), jnp.asarray(False), jnp.asarray(0.1), z, one)).ys[0])(one)),
        ("BacksolveAdjoint: gradient through the returned solver_state", (Exception,),
         lambda: jax.grad(lambda y: jnp.sum(solve(BS, solver=dfx.Tsit5(), y0=y, saveat=dfx.SaveAt(t1=True, solver_state=True)).solver_state[1]))(one)),
        ("BacksolveAdjoint: gradient through the returned controller_state", (Exception,),
         lambda: jax.grad(lambda y: sum(jnp.sum(c) for c in jtu.tree_leaves(eqx.filter(solve(BS, solver=dfx.Tsit5(), y0=y, stepsize_controller=dfx.PIDController(1e-3, 1e-3),
                                                                                             saveat=dfx.SaveAt(t1=True, controller_state=True)).controller_state, eqx.is_inexact_array))))(one)),
        ("ImplicitAdjoint: gradient of the time of an event", (Exception,),
         lambda: jax.grad(lambda y: solve(IM, y0=y, event=dfx.Event(lambda t, y, args, **kw: y - 0.5, optx.Newton(1e-6, 1e-6))).ts[0])(one)),
    ]
    for nm, kinds, f in bad:
        ok, why = raises(f, kinds)
        ck.fact(f"rejected.{nm}", "adjoint guards", ok, why)
    good = [
        ("RecursiveCheckpointAdjoint, max_steps=None", lambda: solve(RC, max_steps=None).ys),
        ("RecursiveCheckpointAdjoint(checkpoints), max_steps=None: gradient", lambda: jax.grad(lambda y: solve(dfx.RecursiveCheckpointAdjoint(checkpoints=4), y0=y, max_steps=None).ys[0])(one)),
        ("DirectAdjoint: both modes", lambda: (jax.grad(lambda y: solve(DA, y0=y).ys[0])(one), jax.jvp(lambda y: solve(DA, y0=y).ys[0], (one,), (one,)))),
        ("DirectAdjoint, max_steps=None: forward mode", lambda: jax.jvp(lambda y: solve(DA, y0=y, max_steps=None).ys[0], (one,), (one,))),
        ("DirectAdjoint, UnsafeBrownianPath", lambda: solve(DA, sde(ub)).ys),
        ("ForwardMode, UnsafeBrownianPath: forward mode", lambda: jax.jvp(lambda y: solve(FM, sde(ub), y0=y).ys[0], (one,), (one,))),
        ("ForwardMode, Runge-Kutta: forward mode", lambda: jax.jvp(lambda y: solve(FM, solver=dfx.Tsit5(), y0=y, max_steps=None).ys[0], (one,), (one,))),
        ("ForwardMode, stochastic Runge-Kutta: forward mode", lambda: jax.jvp(lambda y: solve(FM, sde(dfx.UnsafeBrownianPath((), k, levy_area=dfx.SpaceTimeLevyArea)), dfx.SPaRK(), y0=y).ys[0], (one,), (one,))),
        ("BacksolveAdjoint, Stratonovich solver", lambda: jax.grad(lambda y: solve(BS, sde(vb), dfx.Heun(), y0=y).ys[0])(one)),
        ("BacksolveAdjoint, every save time", lambda: jax.grad(lambda y: jnp.sum(solve(BS, y0=y, saveat=dfx.SaveAt(t0=True, ts=jnp.array([0.2, 0.7]), t1=True)).ys))(one)),
        ("BacksolveAdjoint: loss of times and values", lambda: jax.grad(lambda y: (lambda s: jnp.sum(s.ts * s.ys))(solve(BS, y0=y, saveat=dfx.SaveAt(ts=jnp.array([0.2, 0.7])))))(one)),
        ("ImplicitAdjoint, event", lambda: jax.grad(lambda a: solve(IM, a=a, event=ev).ys[0])(one)),
    ]
    for nm, f in good:
        ok, why = raises(f)
        ck.fact(f"accepted.{nm}", "adjoint guards", not ok and why == "no error", why)
    jax.clear_caches()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        solve(BS, sde(vb), dfx.Dopri5())
    ck.fact("warned.BacksolveAdjoint with an SDE and an unmarked solver", "adjoint guards", any("Stratonovich" in str(x.message) for x in w), str([str(x.message)[:60] for x in w]))


SECTIONS = [(f"forward: {c}{' (backward in time)' if b else ''}", forward(c, b)) for c in CFG for b in ((False, True) if c in ("t1", "t0, ts and t1") else (False,))] + [
    ("loops over stages", scans), ("implicit", implicit(False)), ("implicit (backward in time)", implicit(True)), ("rejected combinations", rejected),
] + [(f"backsolve: {c}{' (backward in time)' if b else ''}", backsolve(c, b)) for c in SAVE for b in (False, True)] + [
    ("backsolve: automatic dt0", backsolve("ts[2]", False, dt0=False, tag=".autodt")),
    ("backsolve: own options", backsolve("ts[2]", False, akw=dict(dt0=-0.25, max_steps=9, throw=True, solver=dfx.Euler(), stepsize_controller=dfx.ConstantStepSize(), adjoint=dfx.DirectAdjoint()), tag=".own")),
]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    class F(eqx.Module):
        w: jax.Array

        def __call__(self, t, y, a):
            return jax.tree_util.tree_map(jnp.tanh, (self.w @ y * jnp.cos(t)) + a["a"] * jnp.sin(y))

    @eqx.filter_jit
    def loss(p, adj, t0, t1, ts, ct, solver, kind):
        y0, a, w = p
        sa = [dfx.SaveAt(t1=True), dfx.SaveAt(ts=ts), dfx.SaveAt(t0=True, ts=ts), dfx.SaveAt(t0=True, ts=ts, t1=True)][kind]
        sol = dfx.diffeqsolve(dfx.ODETerm(F(w)), solver, t0, t1, None, y0, dict(a=a, n=3), saveat=sa, adjoint=adj,
                              stepsize_controller=dfx.PIDController(1e-9, 1e-9), max_steps=512)
        return jnp.sum(sol.ys * ct[:sol.ys.shape[0]]), sol.ys
    for trial in range(3 * effort):
        sgn = 1 if trial % 2 == 0 else -1
        t0, t1 = sgn * 0.1, sgn * float(rng.uniform(0.8, 1.6))
        ts = jnp.asarray(np.linspace(t0, t1, 5)[1:4])
        ct = jnp.asarray(rng.normal(size=(6, 2)))
        p = (jnp.asarray(rng.normal(size=2)), jnp.asarray(rng.normal()), jnp.asarray(rng.normal(size=(2, 2))))
        kind = [1, 3, 0, 2][trial % 4]
        out = {}
        for nm, adj in (("default", dfx.RecursiveCheckpointAdjoint()), ("checkpoints=2", dfx.RecursiveCheckpointAdjoint(checkpoints=2)), ("backsolve", dfx.BacksolveAdjoint()),
                        ("backsolve own solver", dfx.BacksolveAdjoint(solver=dfx.Dopri5()))):
            g, ys = jax.grad(lambda p: loss(p, adj, t0, t1, ts, ct, dfx.Tsit5(), kind), has_aux=True)(p)
            out[nm] = np.concatenate([np.ravel(x) for x in jtu.tree_leaves(g)])
            yield None if np.shape(ys)[0] == [1, 3, 4, 5][kind] else dict(case=f"{nm}: {np.shape(ys)} saved")
        for nm in out:
            tol = 1e-8 if "checkpoints" in nm or nm == "default" else 2e-6
            yield None if close(out[nm], out["default"], tol) else dict(case=f"gradient of a loss under {nm}, saveat kind {kind}, t0={t0}, t1={t1}",
                                                                      got=out[nm].tolist(), default=out["default"].tolist(), p=[np.asarray(x).tolist() for x in p])
        # against a difference quotient
        d = [rng.normal(size=np.shape(x)) for x in p]
        h = 1e-5
        q = [loss(tuple(x + s * h * v for x, v in zip(p, d)), dfx.RecursiveCheckpointAdjoint(), t0, t1, ts, ct, dfx.Tsit5(), kind)[0] for s in (1, -1)]
        num = float((q[0] - q[1]) / (2 * h))
        ana = float(np.dot(out["default"], np.concatenate([np.ravel(x) for x in d])))
        yield None if abs(num - ana) <= 1e-5 * (1 + abs(num)) else dict(case=f"derivative of a loss, saveat kind {kind}, t0={t0}, t1={t1}", got=ana, difference_quotient=num)
    # implicit: the steady state of y' = a - b y^3
    for trial in range(2 * effort):
        a, b = rng.uniform(0.5, 2, size=2)
        ev = dfx.Event(dfx.steady_state_event(1e-6, 1e-6))

        def ss(y0, a, b):
            return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, ab: ab[0] - ab[1] * y ** 3), dfx.Tsit5(), 0., 1e4, 0.1, y0, (a, b), adjoint=dfx.ImplicitAdjoint(), event=ev,
                                   max_steps=16384, stepsize_controller=dfx.PIDController(1e-9, 1e-9)).ys[0]
        g = [float(x) for x in jax.grad(ss, argnums=(0, 1, 2))(jnp.asarray(0.3), jnp.asarray(a), jnp.asarray(b))]
        y = (a / b) ** (1 / 3)
        want = [0., 1 / (3 * b * y * y), -y / (3 * b)]
        yield None if close(g, want, 1e-4) else dict(case=f"steady state of a - b y^3, a={a}, b={b}", got=g, expected=want)


CONCRETE = [("gradients", concrete)]
