"""C12: dense output: local interpolants, the interpolants of every solver, the global dense interpolation, and the record of steps."""
from .rk import *
from . import rk as _rk
from .c09 import Multi, ex_step, MJ
from . import c10 as _c10
from .c01 import inv, spec_of, begin_loop, LoopVC, contract_ctrl
from .mainloop import val
from diffrax._local_interpolation import LocalLinearInterpolation, ThirdOrderHermitePolynomialInterpolation, FourthOrderPolynomialInterpolation
from diffrax._global_interpolation import DenseInterpolation

s_ = T.sym
f0 = jnp.asarray(1.0)
IS = lambda z: isinstance(z, np.ndarray)
t1 = T.add(t, h)
S0, S1 = S.scalar(t), S.scalar(t1)
tq, tr = s_("tq"), s_("tr")
POS = [T.lt(0, h)]


def cat(x):
    return np.concatenate([np.reshape(v, (-1,)) for v in jtu.tree_leaves(x, is_leaf=IS)])


def under(a, prem=POS):
    return S.emap(lambda v: core.under(v, prem) if isinstance(v, T.Term) else v, a)


def theta(u):
    return T.div(T.sub(u, t), h)


def check_local(ck, nm, fn, mk, infos_ex, infos, spec, y_ex):
    """mk(t0, t1, infos) the real interpolant; spec(theta) -> flat array"""
    def f(t0, hh, q, r, infos):
        I = mk(t0, t0 + hh, infos)
        dv = lambda u: jax.jvp(lambda v: I.evaluate(v), (u,), (jnp.ones_like(u),))[1]
        return dict(q=I.evaluate(q), r=I.evaluate(r), inc=I.evaluate(q, r), right=I.evaluate(q, left=False), d=I.derivative(q), dr=I.derivative(q, left=False), dv=dv(q),
                    a=I.t0, b=I.t1)
    o, _ = run(f, (f0, f0, f0, f0, infos_ex), (S0, S.scalar(h), S.scalar(tq), S.scalar(tr), infos))
    n = lambda x: f"{nm}.{x}"
    ck.fact(n("structure"), fn, jtu.tree_structure(o["q"], is_leaf=IS) == jtu.tree_structure(y_ex) and [np.shape(v) for v in jtu.tree_leaves(o["q"], is_leaf=IS)] == [jnp.shape(v) for v in jtu.tree_leaves(y_ex)], "")
    if spec is not None:
        ck.equal_arr(n("value at any time"), fn, under(cat(o["q"])), spec(theta(tq)), POS)
    ck.equal_arr(n("increment is the difference of values"), fn, under(cat(o["inc"])), under(S.emap(T.sub, cat(o["r"]), cat(o["q"]))), POS)
    ck.equal_arr(n("left and right values agree"), fn, under(cat(o["right"])), under(cat(o["q"])), POS)
    ck.equal_arr(n("derivative is the derivative of the value"), fn, under(cat(o["d"])), under(cat(o["dv"])), POS)
    ck.equal_arr(n("right derivative"), fn, under(cat(o["dr"])), under(cat(o["dv"])), POS)
    ck.equal(n("t0"), fn, val(o["a"]), t)
    ck.equal(n("t1"), fn, val(o["b"]), t1)
    return o


TREE = {"a": f0, "b": (jnp.ones(2),)}


def symtree(name, ex):
    leaves, td = jtu.tree_flatten(ex)
    return jtu.tree_unflatten(td, [symarr(f"{name}{i}", jnp.shape(l)) for i, l in enumerate(leaves)])


def stack(name, n, ex):
    leaves, td = jtu.tree_flatten(ex)
    return jtu.tree_unflatten(td, [jnp.ones((n,) + jnp.shape(l)) for l in leaves]), jtu.tree_unflatten(td, [symarr(f"{name}{i}", (n,) + jnp.shape(l)) for i, l in enumerate(leaves)])


def at(k, i):
    return cat(jtu.tree_map(lambda l: l[i], k, is_leaf=IS))


def hermite(y0, y1, k0, k1, th):
    def one(a, b, p, q):
        h00 = lambda x: T.add(T.sub(T.mul(2, T.mul(x, T.mul(x, x))), T.mul(3, T.mul(x, x))), 1)
        h10 = lambda x: T.add(T.sub(T.mul(x, T.mul(x, x)), T.mul(2, T.mul(x, x))), x)
        h01 = lambda x: T.sub(T.mul(3, T.mul(x, x)), T.mul(2, T.mul(x, T.mul(x, x))))
        h11 = lambda x: T.sub(T.mul(x, T.mul(x, x)), T.mul(x, x))
        return T.add(T.add(T.mul(h00(th), a), T.mul(h01(th), b)), T.add(T.mul(h10(th), p), T.mul(h11(th), q)))
    return S.emap(one, y0, y1, k0, k1)


def quartic(y0, y1, ym, k0, k1, th):
    """the unique quartic with the given end values, end slopes and middle value: the Hermite cubic plus a multiple of th^2(1-th)^2"""
    cub, mid = hermite(y0, y1, k0, k1, th), hermite(y0, y1, k0, k1, Fr(1, 2))
    w = T.mul(16, T.mul(T.mul(th, th), T.mul(T.sub(1, th), T.sub(1, th))))
    return S.emap(lambda c, m, v: T.add(c, T.mul(w, T.sub(v, m))), cub, mid, ym)


def local(ck):
    begin(ck)
    for kind, ex in (("scalar", f0), ("tree", TREE)):
        y0, y1 = symtree("y0_", ex), symtree("y1_", ex)
        o = check_local(ck, f"linear.{kind}", "LocalLinearInterpolation.evaluate", lambda a, b, i: LocalLinearInterpolation(t0=a, t1=b, y0=i[0], y1=i[1]), (ex, ex), (y0, y1),
                        lambda th: S.emap(lambda p, q: T.add(p, T.mul(th, T.sub(q, p))), cat(y0), cat(y1)), ex)
        k0, k1 = symtree("k0_", ex), symtree("k1_", ex)
        check_local(ck, f"cubic.{kind}", "ThirdOrderHermitePolynomialInterpolation.evaluate",
                    lambda a, b, i: ThirdOrderHermitePolynomialInterpolation(t0=a, t1=b, y0=i[0], y1=i[1], k0=i[2], k1=i[3]), (ex,) * 4, (y0, y1, k0, k1),
                    lambda th: hermite(cat(y0), cat(y1), cat(k0), cat(k1), th), ex)
        kx, k = stack("k", 5, ex)
        check_local(ck, f"cubic from stages.{kind}", "ThirdOrderHermitePolynomialInterpolation.from_k",
                    lambda a, b, i: ThirdOrderHermitePolynomialInterpolation.from_k(t0=a, t1=b, y0=i[0], y1=i[1], k=i[2]), (ex, ex, kx), (y0, y1, k),
                    lambda th: hermite(cat(y0), cat(y1), at(k, 0), at(k, 4), th), ex)

        class Q(FourthOrderPolynomialInterpolation):
            c_mid = np.array([1 / 4, 3 / 8, -1 / 2, 5 / 8, 7 / 16])
        ym = cat(y0)
        for i, c in enumerate([Fr(1, 4), Fr(3, 8), -Fr(1, 2), Fr(5, 8), Fr(7, 16)]):
            ym = aadd(ym, ascale(c, at(k, i)))
        check_local(ck, f"quartic.{kind}", "FourthOrderPolynomialInterpolation.evaluate", lambda a, b, i: Q(t0=a, t1=b, y0=i[0], y1=i[1], k=i[2]), (ex, ex, kx), (y0, y1, k),
                    lambda th: quartic(cat(y0), cat(y1), ym, at(k, 0), at(k, 4), th), ex)
    # degenerate interval: the start value, and no NaN in value or gradient
    def deg(a, q, y0, y1):
        I = LocalLinearInterpolation(t0=a, t1=a, y0=y0, y1=y1)
        return I.evaluate(q)
    o, _ = run(deg, (f0,) * 4, tuple(S.scalar(s_(x)) for x in ("a", "q", "y0", "y1")))
    ck.equal("linear.interval of length zero gives the start value", "linear_rescale", val(o), s_("y0"))


# ---------------------------------------------------------------- every solver
def ends(ck, nm, cls, dense, y0, y1, flat, tol=None):
    """the interpolant of a real step: start value, end value, additivity"""
    leaves, td = jtu.tree_flatten(dense, is_leaf=IS)
    ex = [jnp.ones(np.shape(l)) for l in leaves]
    fn = f"{nm.split('.')[0]} interpolation"

    def f(t0, hh, q, r, *ls):
        I = cls(t0=t0, t1=t0 + hh, **jtu.tree_unflatten(td, ls))
        return dict(a=I.evaluate(t0), b=I.evaluate(t0 + hh), q=I.evaluate(q), r=I.evaluate(r), inc=I.evaluate(q, r), d=I.derivative(q),
                    dv=jax.jvp(lambda v: I.evaluate(v), (q,), (jnp.ones_like(q),))[1])
    o, _ = run(f, (f0, f0, f0, f0, *ex), (S0, S.scalar(h), S.scalar(tq), S.scalar(tr), *leaves))
    fl = lambda k: under(np.reshape(flat(o[k]), (-1,)))
    ck.equal_arr(f"{nm}.value at the start of the step", fn, fl("a"), np.reshape(y0, (-1,)), POS)
    ck.equal_arr(f"{nm}.value at the end of the step", fn, fl("b"), np.reshape(y1, (-1,)), POS)
    ck.equal_arr(f"{nm}.increment is the difference of values", fn, fl("inc"), S.emap(T.sub, fl("r"), fl("q")), POS)
    ck.equal_arr(f"{nm}.derivative is the derivative of the value", fn, fl("d"), fl("dv"), POS)


def runge_kutta(names):
    def sec(ck):
        begin(ck)
        for name in names:
            for kind in ("ode", "tree", "cde") if name in EXPLICIT else ("ode", "tree"):
                p = Problem(kind, 2 if name in IMEX else 1)
                r = one_step(name, p, None, True, False)
                y1, err, dense, state, res = r["out"]
                ends(ck, f"{name}.{kind}", r["solver"].interpolation_cls, dense, p.y, p.flat(y1), p.flat)
    return sec


def others(ck):
    begin(ck)
    for s, term in ((dfx.Euler(), None), (dfx.EulerHeun(), None), (dfx.LeapfrogMidpoint(), "ode"), (dfx.ReversibleHeun(), None)):
        nm = type(s).__name__
        p = Multi() if term is None else Problem("tree")
        shp = jax.eval_shape(lambda y: s.init(p.term, 0.0, 1.0, y, None), p.yex)
        st_ex = jtu.tree_map(lambda x: jnp.ones(x.shape, x.dtype), shp)
        e = ex_step(s, p.term, p.yex, st_ex)
        st = [symarr(f"st{i}", jnp.shape(l)) for i, l in enumerate(jtu.tree_leaves(st_ex))]
        o, _ = e((t, h, p.tree(p.y), S.scalar(MJ), *st))
        ends(ck, nm, s.interpolation_cls, o["dense"], p.y, p.flat(o["y1"]), p.flat)
    s = dfx.SemiImplicitEuler()
    term = (dfx.ODETerm(lambda tt, y, a: uf("f", sds((2,)), tt, y)), dfx.ODETerm(lambda tt, y, a: uf("g", sds((2,)), tt, y)))
    q, p_ = symarr("q", (2,)), symarr("p", (2,))
    o, _ = ex_step(s, term, (jnp.ones(2), jnp.ones(2)))((t, h, (q, p_), S.scalar(MJ)))
    ends(ck, "SemiImplicitEuler", s.interpolation_cls, o["dense"], np.concatenate([q, p_]), cat(o["y1"]), cat)
    with root_stub():
        s = dfx.ImplicitEuler(root_finder=StubRF())
        p = Problem("tree")
        e = ex_step(s, p.term, p.yex, None)
    o, _ = e((t, h, p.tree(p.y), S.scalar(MJ)))
    ends(ck, "ImplicitEuler", s.interpolation_cls, o["dense"], p.y, p.flat(o["y1"]), p.flat)
    for name, tab in _c10.TAB.items():
        s, p = getattr(dfx, name)(), _c10.Prob("tree", tab["additive"])
        o = _c10.extract(s, p)
        ends(ck, name, s.interpolation_cls, o["dense"], p.y, p.flat(o["y1"]), p.flat)
    for s in (dfx.ItoMilstein(), dfx.StratonovichMilstein()):
        p = _c10.Prob("matrix", False)
        o = _c10.extract(s, p)
        ends(ck, type(s).__name__, s.interpolation_cls, o["dense"], p.y, p.flat(o["y1"]), p.flat)


def half(ck):
    begin(ck)
    s = dfx.HalfSolver(dfx.Euler())
    p = Problem("ode")
    o, _ = ex_step(s, p.term, p.yex)((t, h, p.tree(p.y), S.scalar(MJ)))
    ends(ck, "HalfSolver", s.interpolation_cls, o["dense"], p.y, p.flat(o["y1"]), p.flat)


# ---------------------------------------------------------------- the dense interpolation of a solution
class AnyLocal(dfx.AbstractLocalInterpolation if hasattr(dfx, "AbstractLocalInterpolation") else dfx.AbstractPath):
    t0: object
    t1: object
    info: object

    def evaluate(self, t0, t1=None, left=True):
        assert t1 is None
        return {"a": uf("la", sds(), self.t0, self.t1, self.info, t0), "b": uf("lb", sds((2,)), self.t0, self.t1, self.info, t0)}


def loc(i, ts, infos, u, suf=""):
    a = (S.scalar(ts[i]), S.scalar(ts[i + 1]), infos[i], S.scalar(u))
    return np.concatenate([np.reshape(ufT("la" + suf, (), *a), (1,)), ufT("lb" + suf, (2,), *a)])


def dense(ck):
    begin(ck)
    ck.assume("jnp.searchsorted meets its contract on sorted arrays (the arrays are proved sorted in section 'record of steps')")
    N = 4
    fn = "DenseInterpolation.evaluate"
    for direction in (1, -1):
        for m in range(N + 1):            # number of steps recorded
            ts = arr(*[s_(f"ts{i}") for i in range(m + 1)], *[T.INF] * (N - m))
            infos = symarr("info", (N, 2))
            ytr = {"a": S.scalar(s_("ya")), "b": symarr("yb", (2,))}
            ttr = s_("t0triv")
            prem0 = [T.lt(ts[i], ts[i + 1]) for i in range(m)] + ([T.eq(ttr, ts[0])])
            u, w = T.mul(direction, tq), T.mul(direction, tr)

            def f(tsv, inf, q, r, y, tt0):
                I = DenseInterpolation(ts=tsv, ts_size=jnp.asarray(m + 1), infos=dict(info=inf), interpolation_cls=AnyLocal, direction=jnp.asarray(direction), t0_if_trivial=tt0, y0_if_trivial=y)
                return dict(q=I.evaluate(q), qr=I.evaluate(q, left=False), d=I.derivative(q), dr=I.derivative(q, left=False), inc=I.evaluate(q, r), r=I.evaluate(r),
                            incr=I.evaluate(q, r, left=False), rr=I.evaluate(r, left=False), a=I.t0, b=I.t1)
            o, _ = run(f, (jnp.arange(N + 1.), jnp.ones((N, 2)), f0, f0, {"a": f0, "b": jnp.ones(2)}, f0), (ts, infos, S.scalar(tq), S.scalar(tr), ytr, S.scalar(ttr)))
            n = lambda x: f"dense.{'forward' if direction > 0 else 'backward'}.{m} steps.{x}"
            ck.equal(n("t0"), "DenseInterpolation.t0", val(o["a"]), T.mul(direction, ts[0]), prem0)
            ck.equal(n("t1"), "DenseInterpolation.t1", val(o["b"]), T.mul(direction, ts[m]), prem0)
            for i in range(m):
                left = prem0 + [T.lt(ts[i], u) if i else T.le(ts[i], u), T.le(u, ts[i + 1])]
                right = prem0 + [T.le(ts[i], u), T.lt(u, ts[i + 1]) if i < m - 1 else T.le(u, ts[i + 1])]
                want = loc(i, ts, infos, u)
                ck.equal_arr(n(f"within step {i}, from the left"), fn, cat(o["q"]), want, left)
                ck.equal_arr(n(f"within step {i}, from the right"), fn, cat(o["qr"]), want, right)
                dw = ascale(direction, loc(i, ts, infos, u, "'4"))
                ck.equal_arr(n(f"derivative within step {i}, from the left"), "DenseInterpolation.derivative", cat(o["d"]), dw, left)
                ck.equal_arr(n(f"derivative within step {i}, from the right"), "DenseInterpolation.derivative", cat(o["dr"]), dw, right)
                for j in range(m):
                    l2 = [T.lt(ts[j], w) if j else T.le(ts[j], w), T.le(w, ts[j + 1])]
                    if abs(i - j) <= 1:
                        ck.equal_arr(n(f"increment from step {i} to step {j}"), fn, cat(o["inc"]), S.emap(T.sub, loc(j, ts, infos, w), want), left + l2)
                        r2 = [T.le(ts[j], w), T.lt(w, ts[j + 1]) if j < m - 1 else T.le(w, ts[j + 1])]
                        ck.equal_arr(n(f"increment from step {i} to step {j}, from the right"), fn, cat(o["incr"]), S.emap(T.sub, loc(j, ts, infos, w), want), right + r2)
            if m == 0:
                ck.equal_arr(n("the initial value"), fn, cat(o["q"]), cat(ytr), prem0 + [T.eq(u, ts[0])])
            else:
                # outside: never a value (the time passed on is NaN)
                for nm, pr in (("before", [T.lt(u, ts[0])]), ("after", [T.lt(ts[m], u)])):
                    for k in ("q", "qr"):
                        for v in cat(o[k]):
                            last = core.under(v, prem0 + pr)
                            ok = isinstance(last, T.Term) and (last is T.NAN or (last.op == "app" and last.args[-1] is T.NAN))
                            ck.fact(n(f"{nm} the solution there is no value ({'left' if k == 'q' else 'right'})"), "DenseInterpolation._nan_if_out_of_bounds", ok, T.show(last, maxdepth=4) if isinstance(last, T.Term) else str(last))
    # the methods of the solution are those of the interpolation
    marks = {}

    class Rec:
        def evaluate(self, *a, **k):
            return ("evaluate", a, k)

        def derivative(self, *a, **k):
            return ("derivative", a, k)
    sol = dfx.Solution(t0=0., t1=1., ts=None, ys=None, interpolation=None, stats={}, result=dfx.RESULTS.successful, solver_state=None, controller_state=None, made_jump=None, event_mask=None)

    def raises(g):
        try:
            g()
        except ValueError:
            return True
        return False
    ck.fact("Solution.evaluate without dense output is an error", "Solution.evaluate", raises(lambda: sol.evaluate(0.5)) and raises(lambda: sol.derivative(0.5)), "")
    object.__setattr__(sol, "interpolation", Rec())
    norm = lambda r: (r[0], r[1] + tuple(v for _, v in sorted(r[2].items())))
    ck.fact("Solution.evaluate passes all on", "Solution.evaluate", norm(sol.evaluate(1, 2, False)) == ("evaluate", (1, 2, False)) and norm(sol.evaluate(1)) in (("evaluate", (1, None, True)), ("evaluate", (1,))), "")
    ck.fact("Solution.derivative passes all on", "Solution.derivative", norm(sol.derivative(1, False)) == ("derivative", (1, False)) and norm(sol.derivative(1)) in (("derivative", (1, True)), ("derivative", (1,))), "")


def record(ck):
    """the times recorded are sorted, start at the initial time, end at the current time and are padded with infinity; the record of a kept step is the one it ended with"""
    begin_loop(ck)
    FB = "loop.body_fun (dense)"
    ms = 3
    for backward in (False, True):
        sgn = -1 if backward else 1
        base = None
        for k in range(ms):
            def fix(st, init, k=k):
                st = eqx.tree_at(lambda s: s.dense_save_index, st, S.scalar(k))
                return eqx.tree_at(lambda s: s.dense_ts, st, arr(*[s_(f"dts{j}") for j in range(k + 1)], *[T.INF] * (ms - k)))
            vc = LoopVC(saveat=lambda ts: dfx.SaveAt(dense=True), max_steps=ms, backward=backward, jumps=True, reuse=base, fix_pre=fix, fix_exit=fix)
            base = base or vc
            p, q, i0 = vc.pre, vc.post, vc.init
            st, c = spec_of(vc)
            tag = f"record{'(bwd)' if backward else ''}"
            if k == 0:
                ck.equal(f"{tag}.init.first time", "loop (dense)", i0.dense_ts[0], T.mul(sgn, vc.t0), [vc.order])
                for j in range(1, ms + 1):
                    ck.fact(f"{tag}.init.padding[{j}]", "loop (dense)", i0.dense_ts[j] is T.INF, "not +inf")
                ck.equal(f"{tag}.init.current time", "loop (dense)", val(i0.tprev), T.mul(sgn, vc.t0), [vc.order])
            I = lambda s, m: [T.eq(s.dense_ts[m], val(s.tprev))] + [T.lt(s.dense_ts[j], s.dense_ts[j + 1]) for j in range(m)]
            prem = [vc.order] + vc.requires + vc.floor_facts + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c) + I(p, k)
            for keep in (True, False):
                pr = prem + [c["keep"] if keep else T.not_(c["keep"])]
                m = k + int(keep)
                n = f"{tag}.{'kept' if keep else 'rejected'}[{k} recorded]"
                dts = under(q.dense_ts, pr)
                ck.valid(f"{n}.ends at the current time", FB, pr, T.eq(dts[m], val(q.tprev)))
                for j in range(m):
                    ck.valid(f"{n}.sorted[{j}]", FB, pr, T.lt(dts[j], dts[j + 1]))
                for j in range(m + 1, ms + 1):
                    ck.fact(f"{n}.padding[{j}]", FB, dts[j] is T.INF, T.show(dts[j]) if isinstance(dts[j], T.Term) else str(dts[j]))


SECTIONS = [("local interpolants", local), ("explicit Runge-Kutta", runge_kutta(EXPLICIT)), ("implicit and IMEX Runge-Kutta", runge_kutta(IMPLICIT + IMEX)),
            ("other solvers", others), ("HalfSolver", half), ("dense interpolation", dense), ("record of steps", record)]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """whole solves with dense output: agreement with saved values, continuity, increments, derivatives"""
    f = lambda tt, y, a: {"p": jnp.sin(y["q"][0]) + tt, "q": jnp.stack([-y["p"], y["q"][0] * 0.5])}
    solvers = [dfx.Tsit5(), dfx.Dopri5(), dfx.Dopri8(), dfx.Heun(), dfx.Bosh3(), dfx.Kvaerno4(), dfx.Euler(), dfx.Ralston(), dfx.Kvaerno3(), dfx.Kvaerno5(), dfx.Midpoint(), dfx.ReversibleHeun()]
    if effort == 1:
        solvers = [solvers[i] for i in rng.choice(len(solvers), 2, replace=False)]
    for s in solvers:
        for back in (False, True):
            a, b = rng.uniform(-1, 0), rng.uniform(0.5, 1.5)
            if back:
                a, b = b, a
            ctrl = dfx.ConstantStepSize() if isinstance(s, dfx.Euler) else dfx.PIDController(rtol=1e-3, atol=1e-3)
            tss = np.sort(rng.uniform(min(a, b), max(a, b), size=5))[:: -1 if back else 1]
            sol = dfx.diffeqsolve(dfx.ODETerm(f), s, a, b, 0.1 * (-1 if back else 1), {"p": jnp.asarray(0.3), "q": jnp.asarray([0.1, -0.4])}, stepsize_controller=ctrl,
                                  saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(ts=jnp.asarray(tss)), dfx.SubSaveAt(steps=True, t0=True)], dense=True), max_steps=64)
            nm = f"{type(s).__name__} on [{a},{b}]"
            (tsa, tst), (ya, yst) = sol.ts, sol.ys
            ev = lambda u, **k: np.concatenate([np.reshape(x, -1) for x in jtu.tree_leaves(sol.evaluate(u, **k))])
            row = lambda ys, i: np.concatenate([np.reshape(x[i], -1) for x in jtu.tree_leaves(ys)])
            for i, u in enumerate(tss):
                yield None if close(ev(u), row(ya, i), 1e-7) else dict(case=f"{nm}: dense value at saved time {u}", got=ev(u).tolist(), expected=row(ya, i).tolist())
            m = int(sol.stats["num_accepted_steps"])
            for i in range(m + 1):
                u = float(tst[i])
                for lf in (True, False):
                    yield None if close(ev(u, left=lf), row(yst, i), 1e-7) else dict(case=f"{nm}: dense value at step end {u}, left={lf}", got=ev(u, left=lf).tolist(), expected=row(yst, i).tolist())
            u, w = rng.uniform(min(a, b), max(a, b), size=2)
            inc = np.concatenate([np.reshape(x, -1) for x in jtu.tree_leaves(sol.evaluate(u, w))])
            yield None if close(inc, ev(w) - ev(u), 1e-7) else dict(case=f"{nm}: increment over [{u},{w}]", got=inc.tolist(), expected=(ev(w) - ev(u)).tolist())
            d = np.concatenate([np.reshape(x, -1) for x in jtu.tree_leaves(sol.derivative(u))])
            e = 1e-6
            fd = (ev(u + e) - ev(u - e)) / (2 * e)
            yield None if close(d, fd, 1e-4) else dict(case=f"{nm}: derivative at {u}", got=d.tolist(), expected=fd.tolist())
            out = ev(max(a, b) + 0.1), ev(min(a, b) - 0.1)
            yield None if np.all(np.isnan(out)) else dict(case=f"{nm}: value outside the solution", got=[x.tolist() for x in out])


CONCRETE = [("whole solves", concrete)]
