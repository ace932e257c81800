"""C09: Euler, implicit Euler, Euler-Heun, semi-implicit Euler, leapfrog/midpoint, reversible Heun, the half-step wrapper."""
from .rk import *
from .mainloop import val, RESV, okay, anyresult
from . import c19 as _c19

t1 = T.add(t, h)
S0, S1 = S.scalar(t), S.scalar(t1)
MJ = T.sym("mj", "B")


def ex_step(solver, term, yex, st_ex=None):
    """extract the real step with symbolic solver state leaves"""
    st = solver.init(term, 0.0, 1.0, yex, None) if st_ex is None else st_ex
    leaves, td = jtu.tree_flatten(st)

    def step(t0, hh, y0, mj, *ls):
        y1, err, dense, state, res = solver.step(term, t0, t0 + hh, y0, None, jtu.tree_unflatten(td, ls), mj)
        return dict(y1=y1, err=err, dense=dense, state=state, res=jnp.asarray(res._value))
    return Extract(step, (0.0, 1.0, yex, jnp.asarray(False), *[jnp.asarray(x) for x in leaves]))


def common(ck, n, fn, prob, o, y1, err=None):
    ck.equal_arr(n("y1"), fn, prob.flat(o["y1"]).reshape(prob.y.shape), y1)
    if err is None:
        ck.fact(n("no error estimate is claimed"), fn, o["err"] is None, "an error estimate where none is documented")
    else:
        ck.equal_arr(n("error estimate"), fn, prob.flat(o["err"]).reshape(prob.y.shape), err)
    ck.valid(n("result"), fn, [], T.eq(val(o["res"]), RESV["successful"]))


class Multi(Problem):
    """drift + diffusion"""

    def __init__(self):
        a, b = Problem("cde"), None
        self.kind = "sde"
        self.names = ["f", "g"]
        self.yex, self.y, self.fshape = a.yex, a.y, None
        dr = dfx.ODETerm(lambda tt, y, ar: uf("f", sds((2,)), tt, y))
        di = dfx.ControlTerm(lambda tt, y, ar: uf("g", sds((2, 2)), tt, y), UFPath())
        self.term = dfx.MultiTerm(dr, di)

    def D(self, tt, y):
        return ascale(h, ufT("f", (2,), tt, y))

    def G(self, tt, y, a=None, b=None):
        F = ufT("g", (2, 2), tt, y)
        dx = ufT("dX", (2,), S0 if a is None else a, S1 if b is None else b)
        return arr(*[T.add(T.mul(F[i, 0], dx[0]), T.mul(F[i, 1], dx[1])) for i in range(2)])

    def K(self, n, tt, y, hh, a, b):
        return aadd(self.D(tt, y), self.G(tt, y))


PROBS = lambda: [("ode", Problem("ode")), ("tree", Problem("tree")), ("cde", Problem("cde")), ("sde", Multi())]


def orders(ck, solver, term, order, strong=None, sde_term=None):
    nm = type(solver).__name__
    ck.fact(f"{nm}.order", f"{nm}.order", solver.order(term) == order, f"{solver.order(term)}")
    if strong is not None:
        ck.fact(f"{nm}.strong order", f"{nm}.strong_order", solver.strong_order(sde_term) == strong, f"{solver.strong_order(sde_term)}")


def func_init(ck, solver, prob, kind, vf=True):
    nm = type(solver).__name__

    def f(t0, y0):
        return jtu.tree_leaves(solver.func(prob.term, t0, y0, None))
    o, _ = run(f, (0.0, prob.yex), (S0, prob.tree(prob.y)))
    cat = lambda xs: np.concatenate([np.reshape(x, (-1,)) for x in xs])
    if prob.kind == "sde":
        want = [ufT("f", (2,), S0, prob.y), ufT("g", (2, 2), S0, prob.y)]
    else:
        want = [prob.F("f", S0, prob.y)]
    ck.equal_arr(f"{nm}.{kind}.func is the vector field at (t, y)", f"{nm}.func", cat(o), cat(want))


def euler(ck):
    begin(ck)
    s = dfx.Euler()
    for kind, p in PROBS():
        o, _ = ex_step(s, p.term, p.yex)((t, h, p.tree(p.y), MJ))
        common(ck, lambda x: f"Euler.{kind}.{x}", "Euler.step", p, o, aadd(p.y, p.K("f", S0, p.y, h, S0, S1)))
        func_init(ck, s, p, kind)
    orders(ck, s, p.term, 1, 0.5, p.term)


def euler_heun(ck):
    begin(ck)
    s, p = dfx.EulerHeun(), Multi()
    o, _ = ex_step(s, p.term, p.yex)((t, h, p.y, MJ))
    g0 = p.G(S0, p.y)
    g1 = p.G(S0, aadd(p.y, g0))
    y1 = aadd(p.y, p.D(S0, p.y), ascale(Fr(1, 2), aadd(g0, g1)))
    common(ck, lambda x: f"EulerHeun.{x}", "EulerHeun.step", p, o, y1)
    func_init(ck, s, p, "sde")
    orders(ck, s, p.term, 1, 0.5, p.term)


def semi_implicit(ck):
    begin(ck)
    s = dfx.SemiImplicitEuler()
    term = (dfx.ODETerm(lambda tt, y, a: uf("f", sds((2,)), tt, y)), dfx.ODETerm(lambda tt, y, a: uf("g", sds((2,)), tt, y)))
    yex = (jnp.ones(2), jnp.ones(2))
    q, p = symarr("q", (2,)), symarr("p", (2,))
    o, _ = ex_step(s, term, yex)((t, h, (q, p), MJ))
    n = lambda x: f"SemiImplicitEuler.{x}"
    fn = "SemiImplicitEuler.step"
    q1 = aadd(q, ascale(h, ufT("f", (2,), S0, p)))
    p1 = aadd(p, ascale(h, ufT("g", (2,), S0, q1)))
    ck.equal_arr(n("first component uses the old second"), fn, o["y1"][0], q1)
    ck.equal_arr(n("second component uses the new first"), fn, o["y1"][1], p1)
    ck.valid(n("result"), fn, [], T.eq(val(o["res"]), RESV["successful"]))
    ck.fact(n("no error estimate is claimed"), fn, o["err"] is None, "")
    # symplectic: M^T J M = J for gradient (symmetric-Jacobian) fields
    def jac(t0, hh, y):
        g_ = lambda v: jnp.concatenate(s.step(term, t0, t0 + hh, (v[:2], v[2:]), None, None, False)[0])
        return jax.jacfwd(g_)(y)
    M, _ = run(jac, (0.0, 1.0, jnp.ones(4)), (t, h, np.concatenate([q, p])))
    sm = {}
    subs = list(T.subterms([v for v in M.reshape(-1) if isinstance(v, T.Term)]))
    for x in subs:
        for F in "fg":
            if x.op == "app" and x.name == f"{F}'2[0]":       # d/dy_1 of component 0 (argument 0 is the time)
                sm[x] = T.app(f"{F}'1[1]", x.args, "R")
    ck.fact(n("the Jacobians of both fields occur"), fn, len(sm) == 2, f"{[(x.name) for x in subs if x.op == 'app']}")
    M = S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, M)
    J = [[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [0, -1, 0, 0]]
    for a in range(4):
        for b in range(4):
            acc = Fr(0)
            for i in range(4):
                for j in range(4):
                    if J[i][j]:
                        acc = T.add(acc, T.mul(J[i][j], T.mul(M[i, a], M[j, b])))
            ck.equal(n(f"preserves the symplectic form [{a},{b}]"), fn, acc, Fr(J[a][b]))
    # controls: each term its own increment
    term2 = (dfx.ControlTerm(lambda tt, y, a: uf("f", sds((2, 2)), tt, y), UFPath()), dfx.ODETerm(lambda tt, y, a: uf("g", sds((2,)), tt, y)))
    o, _ = ex_step(s, term2, yex)((t, h, (q, p), MJ))
    F, dx = ufT("f", (2, 2), S0, p), ufT("dX", (2,), S0, S1)
    q1 = aadd(q, arr(*[T.add(T.mul(F[i, 0], dx[0]), T.mul(F[i, 1], dx[1])) for i in range(2)]))
    p1 = aadd(p, ascale(h, ufT("g", (2,), S0, q1)))
    ck.equal_arr(n("cde.first"), fn, o["y1"][0], q1)
    ck.equal_arr(n("cde.second"), fn, o["y1"][1], p1)

    def fu(t0, y0):
        return s.func(term, t0, y0, None)
    o, _ = run(fu, (0.0, yex), (S0, (q, p)))
    ck.equal_arr(n("func[0]"), "SemiImplicitEuler.func", o[0], ufT("f", (2,), S0, p))
    ck.equal_arr(n("func[1]"), "SemiImplicitEuler.func", o[1], ufT("g", (2,), S0, q))
    orders(ck, s, term, 1)


def leapfrog(ck):
    begin(ck)
    s = dfx.LeapfrogMidpoint()
    tm = T.sym("tm1")
    for kind, p in [("ode", Problem("ode")), ("tree", Problem("tree")), ("cde", Problem("cde"))]:
        n = lambda x: f"LeapfrogMidpoint.{kind}.{x}"
        fn = "LeapfrogMidpoint.step"
        ym = symarr("ym", p.y.shape)
        e = ex_step(s, p.term, p.yex, (jnp.asarray(0.0), p.yex))
        o, _ = e((t, h, p.tree(p.y), MJ, S.scalar(tm), *jtu.tree_leaves(p.tree(ym), is_leaf=lambda z: isinstance(z, np.ndarray))))
        H = T.sub(t1, tm)
        want = aadd(ym, p.K("f", S0, p.y, H, S.scalar(tm), S1))
        common(ck, n, fn, p, o, want)
        ck.equal(n("state time"), fn, val(o["state"][0]), t)
        ck.equal_arr(n("state value"), fn, p.flat(o["state"][1]).reshape(p.y.shape), p.y)
        (i0), _ = run(lambda t0, y0: s.init(p.term, t0, t0 + 1.0, y0, None), (jnp.asarray(0.0), p.yex), (S0, p.tree(p.y)))
        ck.equal(n("init time"), "LeapfrogMidpoint.init", val(i0[0]), t)
        ck.equal_arr(n("init value"), "LeapfrogMidpoint.init", p.flat(i0[1]).reshape(p.y.shape), p.y)
        func_init(ck, s, p, kind)
    orders(ck, s, p.term, 2)


def rev_heun(ck):
    begin(ck)
    s = dfx.ReversibleHeun()
    for kind, p in PROBS():
        n = lambda x: f"ReversibleHeun.{kind}.{x}"
        fn = "ReversibleHeun.step"
        st = s.init(p.term, 0.0, 1.0, p.yex, None) if False else None
        shp = jax.eval_shape(lambda y: s.init(p.term, 0.0, 1.0, y, None), p.yex)
        st_ex = jtu.tree_map(lambda x: jnp.ones(x.shape, x.dtype), shp)
        e = ex_step(s, p.term, p.yex, st_ex)
        yh = symarr("yh", p.y.shape)
        yhl = jtu.tree_leaves(p.tree(yh), is_leaf=lambda z: isinstance(z, np.ndarray))
        if kind == "sde":
            v0 = [symarr("v0f", (2,)), symarr("v0g", (2, 2))]
            P = lambda vs: aadd(ascale(h, vs[0]), _mv(vs[1]))
            ev = lambda tt, y: [ufT("f", (2,), tt, y), ufT("g", (2, 2), tt, y)]
        else:
            v0 = [symarr("v0", p.fshape)]
            P = (lambda vs: _mv(vs[0])) if kind == "cde" else (lambda vs: ascale(h, vs[0]))
            ev = lambda tt, y: [p.F("f", tt, y)]
        vl = [x for v in v0 for x in (jtu.tree_leaves(p.tree(v), is_leaf=lambda z: isinstance(z, np.ndarray)) if kind == "tree" else [v])]
        lin = lambda a, b, c: [S.emap(lambda x, y: T.add(T.mul(a, x), T.mul(b, y)), u, w) for u, w in zip(c[0], c[1])]
        for mj in (False, True):
            o, _ = e((t, h, p.tree(p.y), mj, *yhl, *vl))
            va = ev(S0, p.y) if mj else v0
            yh1 = aadd(ascale(2, p.y), ascale(-1, yh), P(va))
            vb = ev(S1, yh1)
            y1 = aadd(p.y, ascale(Fr(1, 2), P(lin(1, 1, (va, vb)))))
            er = ascale(Fr(1, 2), P(lin(-1, 1, (va, vb))))
            nn = lambda x: n(f"jump={mj}.{x}")
            common(ck, nn, fn, p, o, y1, er)
            ck.equal_arr(nn("state.yhat"), fn, p.flat(o["state"][0]).reshape(p.y.shape), yh1)
            cat = lambda xs: np.concatenate([np.reshape(x, (-1,)) for x in xs])
            ck.equal_arr(nn("state.vector field"), fn, cat(jtu.tree_leaves(o["state"][1], is_leaf=lambda z: isinstance(z, np.ndarray))), cat(vb))
        (i0), _ = run(lambda t0, y0: s.init(p.term, t0, t0 + 1.0, y0, None), (jnp.asarray(0.0), p.yex), (S0, p.tree(p.y)))
        ck.equal_arr(n("init.yhat"), "ReversibleHeun.init", p.flat(i0[0]).reshape(p.y.shape), p.y)
        ck.equal_arr(n("init.vector field"), "ReversibleHeun.init", cat(jtu.tree_leaves(i0[1], is_leaf=lambda z: isinstance(z, np.ndarray))), cat(ev(S0, p.y)))
        func_init(ck, s, p, kind)
        # algebraically reversible: one step forward then the same step backward is the identity
        if kind in ("ode", "tree"):
            def there_and_back(t0, hh, y0, yh0):
                vf0 = p.term.vf(t0, yh0, None)
                y1, _, _, st1, _ = s.step(p.term, t0, t0 + hh, y0, None, (yh0, vf0), False)
                y2, _, _, st2, _ = s.step(p.term, t0 + hh, t0, y1, None, st1, False)
                return y2, st2[0], jtu.tree_leaves(st2[1])
            o, _ = run(there_and_back, (0.0, 1.0, p.yex, p.yex), (t, h, p.tree(p.y), p.tree(yh)))
            ck.equal_arr(n("reversible.y"), fn, p.flat(o[0]).reshape(p.y.shape), p.y)
            ck.equal_arr(n("reversible.yhat"), fn, p.flat(o[1]).reshape(p.y.shape), yh)
            ck.equal_arr(n("reversible.vector field"), fn, cat(o[2]), cat([p.F("f", S0, yh)]))
    orders(ck, s, Problem("ode").term, 2, 0.5, Multi().term)
    ck.fact("ReversibleHeun.error order", "ReversibleHeun.error_order", s.error_order(Problem("ode").term) == 2, f"{s.error_order(Problem('ode').term)}")


def _mv(F):
    dx = ufT("dX", (2,), S0, S1)
    return arr(*[T.add(T.mul(F[i, 0], dx[0]), T.mul(F[i, 1], dx[1])) for i in range(2)])


def implicit(ck):
    _c19.ieuler(ck)
    s = dfx.ImplicitEuler()
    for kind in ("ode", "tree", "cde"):
        func_init(ck, s, Problem(kind), kind)
    orders(ck, s, Problem("ode").term, 1)
    ck.fact("ImplicitEuler.error order", "ImplicitEuler.error_order", s.error_order(Problem("ode").term) == 2, "")


# ---------------------------------------------------------------- the half-step wrapper, around any solver
class AnySolver(dfx.AbstractSolver):
    term_structure = dfx.AbstractTerm
    interpolation_cls = dfx.LocalLinearInterpolation

    def order(self, terms):
        return 7

    def strong_order(self, terms):
        return 3

    def init(self, terms, t0, t1, y0, args):
        return uf("init", sds((2,)), t0, t1, y0, args)

    def func(self, terms, t0, y0, args):
        return uf("func", sds(), t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        ins = (t0, t1, y0, args, solver_state, jnp.asarray(made_jump))
        y1 = uf("one", (sds(), sds((2,))), *ins)
        return y1, None, dict(info=uf("info", sds(), *ins)), uf("st", sds((2,)), *ins), anyresult("res", *ins)


def half(ck):
    begin(ck)
    s = dfx.HalfSolver(AnySolver())
    fn = "HalfSolver.step"
    y = (S.scalar(T.sym("ya")), symarr("yb", (2,)))
    st, a = symarr("st", (2,)), S.scalar(T.sym("args"))
    term = dfx.ODETerm(lambda *_: None)

    def step(t0, hh, y0, ar, st, mj):
        y1, err, dense, state, res = s.step(term, t0, t0 + hh, y0, ar, st, mj)
        return dict(y1=y1, err=err, dense=dense, state=state, res=jnp.asarray(res._value))
    o, _ = run(step, (0.0, 1.0, (jnp.asarray(1.0), jnp.ones(2)), 1.0, jnp.ones(2), jnp.asarray(False)), (t, h, y, a, st, S.scalar(MJ)))

    def one(ta, tb, y, st, mj):
        ins = (ta, tb, *y, a, st, S.scalar(mj))
        return ((ufT("one", (), *ins, nout=2, o=0), ufT("one", (2,), *ins, nout=2, o=1)), ufT("st", (2,), *ins), ufT("info", (), *ins), ufT("res_ok", (), *ins, sort="B")[()])
    th = S.scalar(T.add(t, T.mul(Fr(1, 2), h)))
    ya, sa, ia, ra = one(S0, th, y, st, MJ)
    yb, sb, ib, rb = one(th, S1, ya, sa, False)
    yc, sc, ic, rc = one(S0, S1, y, st, MJ)
    # the success flags are boolean applications, match them up to arithmetic in their arguments
    present = [q for q in T.subterms([val(o["res"])]) if q.op == "app" and q.name.startswith("res_ok")]

    def find(w):
        for q in present:
            try:
                if len(q.args) == len(w.args) and all((x is y) if (core.is_bool(x) or core.is_bool(y)) else RG.Ring().is_zero(T.sub(x, y)) for x, y in zip(q.args, w.args)):
                    return q
            except RG.NeedSplit:
                pass
        return w
    ra, rb, rc = find(ra), find(rb), find(rc)
    allok = T.and_(ra, rb, rc)
    for j in range(2):
        ck.equal_arr(f"HalfSolver.y1 is that of the two half steps [{j}]", fn, o["y1"][j], yb[j])
        ck.equal_arr(f"HalfSolver.error is the difference with the full step [{j}]", fn, o["err"][j], S.emap(lambda p, q: T.abs_(T.sub(p, q)), yb[j], yc[j]), [allok])
    ck.equal_arr("HalfSolver.state is that after the second half step", fn, o["state"], sb)
    ck.valid("HalfSolver.okay exactly when all three steps are", fn, [], T.iff(okay(val(o["res"])), allok))
    (i0), _ = run(lambda t0, hh, y0, ar: (s.init(term, t0, t0 + hh, y0, ar), s.func(term, t0, y0, ar)), (0.0, 1.0, (jnp.asarray(1.0), jnp.ones(2)), 1.0), (t, h, y, a))
    ck.equal_arr("HalfSolver.init is that of the wrapped solver", "HalfSolver.init", i0[0], ufT("init", (2,), S0, S1, *y, a))
    ck.equal_arr("HalfSolver.func is that of the wrapped solver", "HalfSolver.func", i0[1], ufT("func", (), S0, *y, a))
    ode, sde = Problem("ode").term, dfx.MultiTerm(Problem("ode").term, dfx.ControlTerm(lambda *_: jnp.ones(()), dfx.UnsafeBrownianPath((), jax.random.key(0))))
    ck.fact("HalfSolver.order", "HalfSolver.order", s.order(ode) == 7 and s.strong_order(sde) == 3, "")
    ck.fact("HalfSolver.error order", "HalfSolver.error_order", s.error_order(ode) == 8 and s.error_order(sde) == 3.5, f"{s.error_order(ode)} {s.error_order(sde)}")
    ck.fact("HalfSolver.wrapped attributes", "HalfSolver", s.term_structure is AnySolver.term_structure and s.interpolation_cls is AnySolver.interpolation_cls
            and s.term_compatible_contr_kwargs == AnySolver().term_compatible_contr_kwargs, "")


SECTIONS = [("Euler", euler), ("EulerHeun", euler_heun), ("SemiImplicitEuler", semi_implicit), ("LeapfrogMidpoint", leapfrog), ("ReversibleHeun", rev_heun),
            ("ImplicitEuler", implicit), ("HalfSolver", half)]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """real steps on random polynomial fields against independently coded formulas; convergence orders of whole solves"""
    for _ in range(6 * effort):
        A, B, C = rng.normal(size=(2, 2)), rng.normal(size=(2, 2)), rng.normal(size=2)
        f = lambda tt, y: np.tanh(A @ y) + tt * C
        jf = lambda tt, y, a: jnp.tanh(A @ y) + tt * C
        gg = lambda tt, y: np.stack([np.sin(y) * (1 + tt), B @ y], -1)
        jg = lambda tt, y, a: jnp.stack([jnp.sin(y) * (1 + tt), B @ y], -1)
        y0 = rng.normal(size=2)
        ta, tb = np.sort(rng.uniform(-1, 2, size=2))
        hh = tb - ta
        x = lambda tt: np.array([np.sin(tt), tt ** 2])
        path = dfx.LinearInterpolation(jnp.array([ta, (ta + tb) / 2, tb]), jnp.asarray(np.stack([x(ta), x((ta + tb) / 2), x(tb)])))
        dW = x(tb) - x(ta)
        ode = dfx.ODETerm(jf)
        sde = dfx.MultiTerm(ode, dfx.ControlTerm(jg, path))
        J = jnp.asarray

        def do(s, term, st=None, mj=False, y=None):
            y = J(y0) if y is None else y
            st = s.init(term, J(ta), J(tb), y, None) if st is None else st
            return s.step(term, J(ta), J(tb), y, None, st, mj)
        rows = []
        y1 = do(dfx.Euler(), sde)[0]
        rows.append(("Euler", y1, y0 + hh * f(ta, y0) + gg(ta, y0) @ dW))
        y1 = do(dfx.EulerHeun(), sde)[0]
        g0 = gg(ta, y0) @ dW
        rows.append(("EulerHeun", y1, y0 + hh * f(ta, y0) + 0.5 * (g0 + gg(ta, y0 + g0) @ dW)))
        (q1, p1) = do(dfx.SemiImplicitEuler(), (ode, dfx.ODETerm(lambda tt, y, a: -jf(tt, y, a))), y=(J(y0), J(C)))[0]
        wq = y0 + hh * f(ta, C)
        rows += [("SemiImplicitEuler", q1, wq), ("SemiImplicitEuler", p1, C - hh * f(ta, wq))]
        ym, tm = rng.normal(size=2), ta - 0.3
        y1, _, _, st, _ = do(dfx.LeapfrogMidpoint(), ode, (J(tm), J(ym)))
        rows += [("LeapfrogMidpoint", y1, ym + (tb - tm) * f(ta, y0)), ("LeapfrogMidpoint state", st[1], y0), ("LeapfrogMidpoint state", st[0], ta)]
        for mj in (False, True):
            yh = rng.normal(size=2)
            v0 = f(ta, yh)
            y1, er, _, st, _ = do(dfx.ReversibleHeun(), ode, (J(yh), J(v0)), mj)
            v0 = f(ta, y0) if mj else v0
            yh1 = 2 * y0 - yh + hh * v0
            v1 = f(tb, yh1)
            rows += [("ReversibleHeun", y1, y0 + hh / 2 * (v0 + v1)), ("ReversibleHeun err", er, hh / 2 * (v1 - v0)), ("ReversibleHeun yhat", st[0], yh1), ("ReversibleHeun vf", st[1], v1)]
        y1, er, _, _, res = do(dfx.ImplicitEuler(root_finder=optx.Newton(1e-12, 1e-12), root_find_max_steps=30), ode)
        if bool(res == dfx.RESULTS.successful):
            rows += [("ImplicitEuler", y1, y0 + hh * f(tb, np.asarray(y1))), ("ImplicitEuler err", er, 0.5 * hh * (f(tb, np.asarray(y1)) - f(ta, y0)))]
        y1, er, _, _, _ = do(dfx.HalfSolver(dfx.Heun()), ode)

        def heun(ta, tb, y):
            d = tb - ta
            k0 = f(ta, y)
            return y + d / 2 * (k0 + f(tb, y + d * k0))
        mid = (ta + tb) / 2
        yb = heun(mid, tb, heun(ta, mid, y0))
        rows += [("HalfSolver(Heun)", y1, yb), ("HalfSolver err", er, np.abs(yb - heun(ta, tb, y0)))]
        for nm, got, want in rows:
            yield None if close(got, want, 1e-8) else dict(case=f"{nm}: one step [{ta},{tb}] from {y0.tolist()}", got=np.asarray(got).tolist(), expected=np.asarray(want).tolist())


CONCRETE = [("steps against independent formulas", concrete)]
