"""C10: stochastic Runge-Kutta and Milstein steps."""
import itertools

from .rk import *
from .mainloop import val, RESV
from diffrax._custom_types import AbstractSpaceTimeLevyArea, AbstractSpaceTimeTimeLevyArea, AbstractBrownianIncrement
from diffrax._solver.srk import AbstractSRK, AdditiveCoeffs, GeneralCoeffs, StochasticButcherTableau

t1 = T.add(t, h)
S0, S1 = S.scalar(t), S.scalar(t1)
MJ = T.sym("mj", "B")
r3 = 3.0 ** 0.5
x1, x2 = (3 - r3) / 6, r3 / 3

# the published schemes (Foster, dos Reis, Strange 2023; Rossler 2010; Foster 2023)
#   a[j][i]: drift, aW, aH: noise (a row per stage for general, a number per stage for additive noise)
TAB = {
    "SEA": dict(additive=True, a=[[]], c=[0], b=[1], aW=[Fr(1, 2)], aH=[1], bW=1, bH=0, err=None, order=1, strong=1),
    "ShARK": dict(additive=True, a=[[], [Fr(5, 6)]], c=[0, Fr(5, 6)], b=[Fr(2, 5), Fr(3, 5)], aW=[0, Fr(5, 6)], aH=[1, 1], bW=1, bH=0,
                  err=[-Fr(3, 5), Fr(3, 5)], order=2, strong=1.5),
    "SRA1": dict(additive=True, a=[[], [Fr(3, 4)]], c=[0, Fr(3, 4)], b=[Fr(1, 3), Fr(2, 3)], aW=[0, Fr(3, 4)], aH=[0, Fr(3, 2)], bW=1, bH=0,
                 err=[-Fr(2, 3), Fr(2, 3)], order=2, strong=1.5),
    "SlowRK": dict(additive=False, a=[[], [.5], [.5, 0], [.5, 0, 0], [.5, 0, 0, 0], [.75, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0]], c=[0, .5, .5, .5, .5, .75, 1],
                   b=[Fr(1, 3), 0, 0, 0, 0, Fr(2, 3), 0],
                   aW=[[], [0], [0, .5], [0, 0, .5], [0, 0, 0, 1], [0, 0, 0, .75, 0], [0, 0, .5, 0, 0, 0]],
                   aH=[[], [0], [0, 0], [0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1.5, 0], [0, 0, 0, 0, 0, 0]],
                   bW=[0, Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6), 0, 0], bH=[0, 0, 0, 2, 0, 0, -2], err=None, errW=None, errH=None, order=2, strong=1.5),
    "GeneralShARK": dict(additive=False, a=[[], [0], [0, Fr(5, 6)]], c=[0, 0, Fr(5, 6)], b=[0, Fr(2, 5), Fr(3, 5)],
                         aW=[[], [0], [0, Fr(5, 6)]], aH=[[], [1], [1, 0]], bW=[0, Fr(2, 5), Fr(3, 5)], bH=[0, Fr(6, 5), -Fr(6, 5)],
                         err=None, errW=None, errH=None, order=2, strong=0.5),
    "SPaRK": dict(additive=False, a=[[], [.5], [0, 1]], c=[0, .5, 1], b=[x1, x2, x1], aW=[[], [.5], [0, 1]], aH=[[], [r3], [0, 0]],
                  bW=[x1, x2, x1], bH=[1, 0, -1], err=[x1 - .5, x2, x1 - .5], errW=[x1 - .5, x2, x1 - .5], errH=[1, 0, -1], order=2, strong=0.5),
}


def _n(x):
    return T.flt(x) if isinstance(x, float) else Fr(x)


def scheme(tab, y0, F, G, lin, dG=None):
    """the scheme of a tableau over any arithmetic.  F(c, z) = h f(t+ch, z);
    G(L, c, z) = g(t+ch, z) L for L in "WHK";  additive noise: G(L) = g(t) L, dG(L) = (g(t+h)-g(t)) L."""
    Ls = [L for L in "WHK" if "a" + L in tab]
    kf, kg = [], {L: [] for L in Ls}
    s = len(tab["b"])
    used = lambda i, rows: any(rows[j][i] != 0 for j in range(i + 1, s))
    for j in range(s):
        tm = [(1, y0)] + [(tab["a"][j][i], kf[i]) for i in range(j)]
        for L in Ls:
            if tab["additive"]:
                tm.append((tab["a" + L][j], G(L)))
            else:
                tm += [(tab["a" + L][j][i], kg[L][i]) for i in range(j)]
        z = lin(tm)
        kf.append(F(tab["c"][j], z))
        if not tab["additive"]:
            for L in Ls:
                kg[L].append(G(L, tab["c"][j], z))
    out = [(1, y0)] + list(zip(tab["b"], kf))
    err = None if tab["err"] is None else list(zip(tab["err"], kf))
    for L in Ls:
        if tab["additive"]:
            out.append((tab["b" + L], G(L)))
        else:
            out += list(zip(tab["b" + L], kg[L]))
            if err is not None:
                err += list(zip(tab["err" + L], kg[L]))
    if tab["additive"]:
        # the part of the noise integral due to g varying in time: (g1 - g0) (W/2 - H)
        out.append((Fr(1, 2), dG("W")))
        if "aH" in tab:
            out.append((-1, dG("H")))
    return lin(out), None if err is None else lin(err)


# ---------------------------------------------------------------- problems: arbitrary drift, diffusion and noise
class Noise(dfx.AbstractBrownianPath):
    """an arbitrary Brownian increment with its Levy areas"""
    struct: object = eqx.field(static=True)
    kind: str = eqx.field(static=True)
    levy_area = dfx.BrownianIncrement
    t0 = None
    t1 = None

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        W = uf("W", self.struct, t0, t1)
        if not use_levy:
            return W
        H = uf("H", self.struct, t0, t1)
        K = uf("K", self.struct, t0, t1)
        if self.kind == "W":
            return dfx.BrownianIncrement(dt=t1 - t0, W=W)
        if self.kind == "H":
            return dfx.SpaceTimeLevyArea(dt=t1 - t0, W=W, H=H)
        return dfx.SpaceTimeTimeLevyArea(dt=t1 - t0, W=W, H=H, K=K)


class Prob:
    def __init__(self, kind, additive, noise="H"):
        self.kind = kind
        gn = lambda tt, y: (tt,) if additive else (tt, y)
        self.additive = additive
        if kind == "matrix":
            self.yex, self.y, n, d = jnp.ones(2), symarr("y", (2,)), 2, 2
            drift = lambda tt, y, a: uf("f", sds((2,)), tt, y)
            diff = lambda tt, y, a: uf("g", sds((2, 2)), *gn(tt, y))
            st = sds((2,))
        elif kind == "scalar":
            self.yex, self.y, n, d = jnp.asarray(1.), S.scalar(T.sym("y")), 1, 1
            drift = lambda tt, y, a: uf("f", sds(), tt, y)
            diff = lambda tt, y, a: uf("g", sds(), *gn(tt, y))
            st = sds()
        elif kind == "tree":
            self.yex, self.y, n, d = {"a": jnp.asarray(1.), "b": jnp.ones(2)}, symarr("y", (3,)), 3, 2

            def tree(v):
                return {"a": v[0], "b": v[1:]}
            flat = lambda y: jnp.concatenate([y["a"][None], y["b"]])
            drift = lambda tt, y, a: tree(uf("f", sds((3,)), tt, flat(y)))
            diff = lambda tt, y, a: lx.MatrixLinearOperator(uf("g", sds((3, 2)), *gn(tt, flat(y)))) if False else tree(uf("g", sds((3, 2)), *gn(tt, flat(y))))
            st = {"a": sds((2,)), "b": sds((2,))}
        self.n, self.d = n, d
        self.term = dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, Noise(st, noise)))
        self.shape = np.shape(self.y)

    def flat(self, y):
        if self.kind == "tree":
            return np.concatenate([np.reshape(y["a"], (1,)), np.reshape(y["b"], (2,))])
        return np.asarray(y)

    def tree(self, y):
        return {"a": S.scalar(y[0]), "b": y[1:]} if self.kind == "tree" else y

    def lin(self, tm):
        out = None
        for c, v in tm:
            if c == 0:
                continue
            v = ascale(_n(c), v)
            out = v if out is None else aadd(out, v)
        return np.full(self.shape, Fr(0), dtype=object) if out is None else out

    def tc(self, c):
        return S.scalar(T.add(t, T.mul(_n(c), h)))

    def F(self, c, z):
        return ascale(h, ufT("f", self.shape, self.tc(c), z))

    def noise(self, L):
        return ufT(L, (), S0, S1) if self.kind == "scalar" else ufT(L, (2,), S0, S1)

    def rows(self, g, L):
        if self.kind == "scalar":
            return S.scalar(T.mul(g[()], self.noise(L)[()]))
        out = []
        for i in range(self.n):
            # each leaf of the state has its own leaf of noise
            dX = self.noise(L) if self.kind != "tree" else ufT(L, (2,), S0, S1, nout=2, o=0 if i == 0 else 1)
            out.append(T.add(T.mul(g[i, 0], dX[0]), T.mul(g[i, 1], dX[1])))
        return arr(*out)

    def gv(self, *a):
        return ufT("g", () if self.kind == "scalar" else (self.n, 2), *a)

    def G(self, L, c=None, z=None):
        if self.additive:
            return self.rows(self.gv(S0), L)
        return self.rows(self.gv(self.tc(c), z), L)

    def dG(self, L):
        return self.rows(S.emap(T.sub, self.gv(S1), self.gv(S0)), L)


def extract(solver, p):
    def step(t0, hh, y0, mj):
        y1, err, dense, state, res = solver.step(p.term, t0, t0 + hh, y0, None, None, mj)
        return dict(y1=y1, err=err, dense=dense, state=state, res=jnp.asarray(res._value))
    return run(step, (0.0, 1.0, p.yex, jnp.asarray(False)), (t, h, p.tree(p.y), S.scalar(MJ)))[0]


def compare(ck, nm, fn, p, tab, o):
    n = lambda x: f"{nm}.{x}"
    y1, err = scheme(tab, p.y, p.F, p.G, p.lin, p.dG)
    ck.equal_arr(n("y1 is that of the scheme"), fn, p.flat(o["y1"]), y1)
    if err is None:
        ck.fact(n("no error estimate is claimed"), fn, o["err"] is None, "")
    else:
        ck.equal_arr(n("error estimate is that of the scheme"), fn, p.flat(o["err"]), err)
    ck.equal_arr(n("dense y0"), fn, p.flat(o["dense"]["y0"]), p.y)
    ck.equal_arr(n("dense y1"), fn, p.flat(o["dense"]["y1"]), y1)
    ck.fact(n("no solver state"), fn, o["state"] is None, "")
    ck.valid(n("result"), fn, [], T.eq(val(o["res"]), RESV["successful"]))


def raises(fn, *kinds):
    try:
        fn()
    except (kinds or (ValueError, TypeError)):
        return True
    return False


def srk(name):
    def sec(ck):
        begin(ck)
        tab = TAB[name]
        for kind in ("scalar", "matrix", "tree"):
            for noise in ("H", "K"):
                if noise == "K" and kind != "matrix":
                    continue
                p = Prob(kind, tab["additive"], noise)
                solver = getattr(dfx, name)()
                compare(ck, f"{name}.{kind}{'' if noise == 'H' else '.with K available'}", "AbstractSRK.step", p, tab, extract(solver, p))
        p = Prob("matrix", tab["additive"])
        for sk in ("lax", "checkpointed"):
            compare(ck, f"{name}.scan_kind={sk}", "AbstractSRK.step", p, tab, extract(getattr(dfx, name)(scan_kind=sk), p))
        ck.fact(f"{name}.order", f"{name}.order", solver.order(p.term) == tab["order"], f"{solver.order(p.term)}")
        ck.fact(f"{name}.strong order", f"{name}.strong_order", solver.strong_order(p.term) == tab["strong"], f"{solver.strong_order(p.term)}")
        ck.fact(f"{name} is a Stratonovich solver", name, isinstance(solver, dfx.AbstractStratonovichSolver) and not isinstance(solver, dfx.AbstractItoSolver), "")
        ck.fact(f"{name}.Levy area needed", f"{name}.minimal_levy_area", solver.minimal_levy_area is AbstractSpaceTimeLevyArea, f"{solver.minimal_levy_area}")
        ck.fact(f"{name}.asks the control for Levy areas", f"{name}.term_compatible_contr_kwargs", tuple(dict(k) for k in solver.term_compatible_contr_kwargs) == (dict(), dict(use_levy=True)), "")
        ck.fact(f"{name}.step without Levy area is an error", "AbstractSRK.step", raises(lambda: extract(solver, Prob("matrix", tab["additive"], "W")), ValueError), "a Brownian motion without the Levy area was accepted")
        fv, _ = run(lambda t0, y0: solver.func(p.term, t0, y0, None), (0.0, p.yex), (S0, p.y))
        ck.equal_arr(f"{name}.func is the vector fields at (t, y)", f"{name}.func", np.concatenate([np.reshape(v, (-1,)) for v in jtu.tree_leaves(fv, is_leaf=lambda v: isinstance(v, np.ndarray))]),
                     np.concatenate([ufT("f", (2,), S0, p.y), p.gv(*((S0,) if tab["additive"] else (S0, p.y))).reshape(-1)]))
        if tab["additive"]:
            bad = dfx.MultiTerm(dfx.ODETerm(lambda tt, y, a: -y), dfx.ControlTerm(lambda tt, y, a: jnp.stack([y, y], -1), Noise(sds((2,)), "H")))
            good = dfx.MultiTerm(dfx.ODETerm(lambda tt, y, a: -y), dfx.ControlTerm(lambda tt, y, a: tt * jnp.ones((2, 2)), Noise(sds((2,)), "H")))
            ck.fact(f"{name}.init rejects a diffusion depending on y", "AbstractSRK.init", raises(lambda: solver.init(bad, 0., 1., jnp.ones(2), None), ValueError), "accepted")
            ck.fact(f"{name}.init accepts a diffusion depending on t only", "AbstractSRK.init", not raises(lambda: solver.init(good, 0., 1., jnp.ones(2), None), Exception), "rejected")
        elif True:
            bad = dfx.MultiTerm(dfx.ODETerm(lambda tt, y, a: -y), dfx.ControlTerm(lambda tt, y, a: jnp.stack([y, y], -1), Noise(sds((2,)), "H")))
            ck.fact(f"{name}.init accepts a diffusion depending on y", "AbstractSRK.init", not raises(lambda: solver.init(bad, 0., 1., jnp.ones(2), None), Exception), "rejected")
    return sec


# ---------------------------------------------------------------- the step of an arbitrary tableau
def generic(ck):
    """AbstractSRK.step on tableaus whose coefficients are all distinct: no coefficient is confused with another, for W, H and K, with and without ignored stages"""
    begin(ck)
    pr = iter([p for p in range(2, 8000) if all(p % q for q in range(2, int(p ** .5) + 1))])
    nx = lambda: Fr(next(pr), 1024)

    def tri(s):
        return [[nx() for _ in range(j)] for j in range(s)]

    def vec(s):
        return [nx() for _ in range(s)]
    fl = lambda x: np.array([float(v) for v in x])
    for additive, Ls, err, ign, s in itertools.chain(
            itertools.product((True,), ("W", "WH", "WHK"), (False, True), (False,), (3,)),
            itertools.product((False,), ("W", "WH", "WHK"), (False, True), (False, True), (3,)), [(False, "WHK", True, False, 4)]):
        b = vec(s)
        b[-1] = 1 - sum(b[:-1])
        tab = dict(additive=additive, a=tri(s), b=b, c=[Fr(0)] + vec(s - 1), err=vec(s) if err else None)
        for L in Ls:
            tab["a" + L] = vec(s) if additive else tri(s)
            tab["b" + L] = nx() if additive else vec(s)
            tab["err" + L] = vec(s) if err and not additive else None
        igf = igg = None
        if ign:
            igf, igg = [False] * s, [False] * s
            igf[0], igg[1] = True, True
            # a stage that is not evaluated contributes nothing
            for L in ["f"] + list(Ls):
                ig = igf if L == "f" else igg
                A = tab["a"] if L == "f" else tab["a" + L]
                B = tab["b"] if L == "f" else tab["b" + L]
                E = tab["err"] if L == "f" else tab["err" + L]
                for i in range(s):
                    if ig[i]:
                        for j in range(i + 1, s):
                            A[j][i] = Fr(0)
                        B[i] = Fr(0)
                        if E is not None:
                            E[i] = Fr(0)
            tab["b"][-1] = 1 - sum(tab["b"][:-1])

        def mk(L):
            if L not in Ls:
                return None
            if additive:
                return AdditiveCoeffs(a=fl(tab["a" + L]), b_sol=np.array(float(tab["b" + L])))
            return GeneralCoeffs(a=tuple(fl(r) for r in tab["a" + L][1:]), b_sol=fl(tab["b" + L]), b_error=None if not err else fl(tab["err" + L]))

        class Any(AbstractSRK):
            tableau = StochasticButcherTableau(a=[fl(r) for r in tab["a"][1:]], b_sol=fl(tab["b"]), b_error=None if not err else fl(tab["err"]), c=fl(tab["c"][1:]),
                                               coeffs_w=mk("W"), coeffs_hh=mk("H"), coeffs_kk=mk("K"),
                                               ignore_stage_f=None if igf is None else np.array(igf), ignore_stage_g=None if igg is None else np.array(igg))

            def order(self, terms):
                return 1
        solver = Any()
        nm = f"any tableau.{'additive' if additive else 'general'}.{Ls}{'.err' if err else ''}{'.ignored stages' if ign else ''}.{s} stages"
        p = Prob("matrix", additive, {"W": "W", "WH": "H", "WHK": "K"}[Ls])
        compare(ck, nm, "AbstractSRK.step", p, tab, extract(solver, p))
        want = {"W": AbstractBrownianIncrement, "WH": AbstractSpaceTimeLevyArea, "WHK": AbstractSpaceTimeTimeLevyArea}[Ls]
        ck.fact(f"{nm}.Levy area needed", "AbstractSRK.minimal_levy_area", solver.minimal_levy_area is want, "")


# ---------------------------------------------------------------- Milstein
def milstein(ck):
    begin(ck)
    for cls, ito in ((dfx.StratonovichMilstein, False), (dfx.ItoMilstein, True)):
        nm = cls.__name__
        solver = cls()
        fn = f"{nm}.step"
        for kind in ("scalar", "vector", "matrix", "diagonal", "rank2 noise", "tree"):
            y_ex, w_st = {
                "scalar": (jnp.asarray(1.), sds()),
                "vector": (jnp.ones(2), sds()),
                "matrix": (jnp.ones(2), sds((3,))),
                "diagonal": (jnp.ones(2), sds((2,))),
                "rank2 noise": (jnp.asarray(1.), sds((2, 2))),
                "tree": ({"a": jnp.asarray(1.), "b": jnp.ones(2)}, {"a": sds((2,)), "b": sds()}),
            }[kind]
            leaves, ytd = jtu.tree_flatten(y_ex)
            n_y = sum(int(np.prod(jnp.shape(l))) for l in leaves)
            wl, wtd = jtu.tree_flatten(w_st)
            n_w = sum(int(np.prod(l.shape)) for l in wl)
            if kind == "tree":
                w_st = {"u": w_st["a"], "v": w_st["b"]}
                wl, wtd = jtu.tree_flatten(w_st)
            flat = lambda y: jnp.concatenate([jnp.reshape(l, (-1,)) for l in jtu.tree_leaves(y)])

            def unfl(v):
                out, k = [], 0
                for l in leaves:
                    m = int(np.prod(jnp.shape(l)))
                    out.append(v[k:k + m].reshape(jnp.shape(l)))
                    k += m
                return jtu.tree_unflatten(ytd, out)

            class Full(dfx.ControlTerm):
                """every component of the noise into every component of the state"""
                def prod(self, vf, control):
                    return unfl(vf @ flat(control))
            drift = dfx.ODETerm(lambda tt, y, a: unfl(uf("f", sds((n_y,)), tt, flat(y))))
            if kind == "tree":
                diff = Full(lambda tt, y, a: uf("g", sds((n_y, n_w)), tt, flat(y)), Noise(w_st, "H"))
            elif kind == "diagonal":
                diff = dfx.ControlTerm(lambda tt, y, a: lx.DiagonalLinearOperator(jnp.diagonal(uf("g", sds((2, 2)), tt, y))), Noise(w_st, "H"))
            else:
                diff = dfx.ControlTerm(lambda tt, y, a: uf("g", sds((n_y, n_w)), tt, flat(y)).reshape(jnp.shape(leaves[0]) + wl[0].shape), Noise(w_st, "H"))
            term = dfx.MultiTerm(drift, diff)
            y = symarr("y", (n_y,))
            vals, k = [], 0
            for l in leaves:
                m = int(np.prod(jnp.shape(l)))
                vals.append(y[k:k + m].reshape(jnp.shape(l)))
                k += m

            def step(t0, hh, y0, mj):
                y1, err, dense, state, res = solver.step(term, t0, t0 + hh, y0, None, None, mj)
                return dict(y1=y1, err=err, dense=dense, state=state, res=jnp.asarray(res._value))
            o, _ = run(step, (0.0, 1.0, y_ex, jnp.asarray(False)), (t, h, jtu.tree_unflatten(ytd, vals), S.scalar(MJ)))
            nout = len(wl)
            w = np.concatenate([np.reshape(ufT("W", l.shape, S0, S1, nout=nout, o=i), (-1,)) for i, l in enumerate(wl)])
            fl = lambda x: np.concatenate([np.reshape(v, (-1,)) for v in jtu.tree_leaves(x, is_leaf=lambda v: isinstance(v, np.ndarray))])
            f = ufT("f", (n_y,), S0, y)
            g = ufT("g", (n_y, n_w), S0, y)
            dg = [ufT(f"g'{1 + k}", (n_y, n_w), S0, y) for k in range(n_y)]    # derivative in y_k (argument 0 is time)
            if kind == "diagonal":
                Z = np.full((2, 2), Fr(0), dtype=object)
                for M in [g] + dg:
                    M[0, 1] = M[1, 0] = Fr(0)
            want = []
            for i in range(n_y):
                acc = T.add(y[i], T.mul(h, f[i]))
                for j in range(n_w):
                    acc = T.add(acc, T.mul(g[i, j], w[j]))
                for j1 in range(n_w):
                    for j2 in range(n_w):
                        ww = T.mul(w[j1], w[j2])
                        if ito and j1 == j2:
                            ww = T.sub(ww, h)
                        for k in range(n_y):
                            acc = T.add(acc, T.mul(Fr(1, 2), T.mul(T.mul(g[k, j1], dg[k][i, j2]), ww)))
                want.append(acc)
            ck.equal_arr(f"{nm}.{kind}.y1", fn, fl(o["y1"]), arr(*want))
            ck.fact(f"{nm}.{kind}.no error estimate is claimed", fn, o["err"] is None, "")
            ck.equal_arr(f"{nm}.{kind}.dense", fn, np.concatenate([fl(o["dense"]["y0"]), fl(o["dense"]["y1"])]), np.concatenate([y, arr(*want)]))
            ck.valid(f"{nm}.{kind}.result", fn, [], T.eq(val(o["res"]), RESV["successful"]))
        ck.fact(f"{nm}.strong order", f"{nm}.strong_order", solver.strong_order(term) == 1, "")
        ck.fact(f"{nm}.calculus", nm, isinstance(solver, dfx.AbstractItoSolver) == ito and isinstance(solver, dfx.AbstractStratonovichSolver) == (not ito), "")
        ck.fact(f"{nm}.not an ODE method", f"{nm}.order", raises(lambda: solver.order(term), ValueError), "")
        fv, _ = run(lambda t0, y0: solver.func(term, t0, y0, None), (0.0, y_ex), (S0, jtu.tree_unflatten(ytd, vals)))
        ck.equal_arr(f"{nm}.func", f"{nm}.func", fl(fv), np.concatenate([f, g.reshape(-1)]))


# ---------------------------------------------------------------- lemma: expansion of the scheme
class Ser:
    """truncated polynomials; a monomial is a sorted tuple of (symbol, power); weights: W,H 1, h 2"""
    MAXW = 4
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def sym(name):
        return Ser({((name, 1),): Fr(1)})

    @staticmethod
    def const(c):
        return Ser({(): c} if c != 0 else {})

    @staticmethod
    def weight(m):
        return sum(p * {"W": 1, "H": 1, "h": 2}.get(s, 0) for s, p in m)

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Ser({m: c for m, c in d.items() if c != 0})

    def scale(self, c):
        return Ser({m: c * v for m, v in self.d.items()}) if c != 0 else Ser({})

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            w1 = Ser.weight(m1)
            for m2, c2 in o.d.items():
                if w1 + Ser.weight(m2) > Ser.MAXW:
                    continue
                q = dict(m1)
                for s, p in m2:
                    q[s] = q.get(s, 0) + p
                m = tuple(sorted(q.items()))
                d[m] = d.get(m, 0) + c1 * c2
        return Ser({m: c for m, c in d.items() if c != 0})


def field(name, dim, degree):
    """a generic vector field: its Taylor coefficients at the base point"""
    out = []
    for i in range(dim):
        co = {}
        for deg in range(degree + 1):
            for al in itertools.product(range(deg + 1), repeat=dim):
                if sum(al) == deg:
                    co[al] = Ser.sym(f"{name}{i}_{''.join(map(str, al))}")
        out.append(co)
    return out


def evalf(V, z):
    out = []
    dim = len(V)
    pows = [[Ser.const(Fr(1))] for _ in range(dim)]
    for i in range(dim):
        for _ in range(4):
            pows[i].append(pows[i][-1] * z[i])
    for co in V:
        acc = Ser({})
        for al, c in co.items():
            m = c
            fac = Fr(1)
            for i, a in enumerate(al):
                m = m * pows[i][a]
                for q in range(2, a + 1):
                    fac /= q
            acc = acc + m.scale(fac)
        out.append(acc)
    return out


def lie(V, phi, dim):
    """V(phi) for phi: Taylor coefficients {alpha: Ser} (of alpha!-normalised derivatives)"""
    out = {}
    for al_ in itertools.product(range(4), repeat=dim):
        if sum(al_) > 3:
            continue
        acc = Ser({})
        # Leibniz: d^al (V_i d_i phi) = sum_be binom(al, be) d^be V_i d^(al-be+e_i) phi
        for be in itertools.product(*[range(a + 1) for a in al_]):
            bn = 1
            for a, b in zip(al_, be):
                bn = bn * int(np.prod(range(b + 1, a + 1), dtype=int)) // int(np.prod(range(1, a - b + 1), dtype=int))
            for i in range(dim):
                ga = tuple(a - b + (1 if q == i else 0) for q, (a, b) in enumerate(zip(al_, be)))
                v, ph = V[i].get(be), phi.get(ga)
                if v is not None and ph is not None:
                    acc = acc + (v * ph).scale(Fr(bn))
        out[al_] = acc
    return out


def moments(ser):
    """expectation over W ~ N(0,h), H ~ N(0,h/12) independent"""
    out = Ser({})
    dbl = {0: 1, 2: 1, 4: 3}
    for m, c in ser.d.items():
        q = dict(m)
        w, hh = q.pop("W", 0), q.pop("H", 0)
        if w % 2 or hh % 2:
            continue
        q["h"] = q.get("h", 0) + (w + hh) // 2
        if q["h"] == 0:
            del q["h"]
        out = out + Ser({tuple(sorted(q.items())): c * dbl[w] * dbl[hh] * Fr(1, 12) ** (hh // 2)})
    return out


def part(ser, w, mx=None):
    return Ser({m: c for m, c in ser.d.items() if Ser.weight(m) == w})


def zero(ser):
    return all(abs(float(c)) < 1e-11 for c in ser.d.values())


def expansion(ck):
    """Each scheme against the Stratonovich-Taylor expansion (W ~ h^1/2, H ~ h^1/2).  Strong order p needs the
    expansion pathwise up to weight 2p and its expectation at weight 2p+1 (Milstein-Tretyakov)."""
    begin(ck)
    ck.assume("the fundamental theorem of mean-square convergence (Milstein): local errors of weight > 2p pathwise and > 2p+1 in mean give strong order p")
    W, H, hs = Ser.sym("W"), Ser.sym("H"), Ser.sym("h")
    cases = []
    for name, tab in TAB.items():
        if tab["additive"]:
            cases += [(name, "additive", int(2 * tab["strong"]), tab["strong"])]
        else:
            cases += [(name, "commutative", *((3, 1.5) if name == "SlowRK" else (2, 1.0))), (name, "additive", 3, 1.5)]
    for name, mode, path, order in cases:
        tab = TAB[name]
        for timedep in (False, True):
            dim = 2
            f, g = field("f", dim, 3), field("g", dim, 3)
            if timedep:       # first coordinate is time
                f[0] = {(0, 0): Ser.const(Fr(1))}
                g[0] = {}
            if mode == "additive":
                if timedep:
                    # additive: depends on time only; linear in time suffices to this weight
                    g[1] = {al: c for al, c in g[1].items() if al[1] == 0 and al[0] <= (1 if tab["additive"] else 9)}
                else:
                    g = [{(0, 0): co[(0, 0)]} for co in g]
            if timedep and mode == "additive" and not tab["additive"]:
                continue     # claimed for additive noise by tableaus without a time correction: autonomous statement only
            zero2 = [Ser({}), Ser({})]

            def lin(tm):
                out = [Ser({})] * dim
                for c, v in tm:
                    if c != 0:
                        c = Fr(c) if not isinstance(c, float) or c in (.5, .75, 1.5, 1.0) else c
                        out = [x + y.scale(c) for x, y in zip(out, v)]
                return out
            at = lambda c, z: z if not timedep else [hs.scale(Fr(c) if not isinstance(c, float) else c), z[1]]
            F = lambda c, z: [hs * x for x in evalf(f, at(c, z))]
            noise = {"W": W, "H": H}
            if tab["additive"]:
                G = lambda L: [noise[L] * x for x in evalf(g, zero2)]
                g1 = lambda: evalf(g, [hs, Ser({})] if timedep else zero2)
                dG = lambda L: [noise[L] * (x + y.scale(Fr(-1))) for x, y in zip(g1(), evalf(g, zero2))]
            else:
                G = lambda L, c, z: [noise[L] * x for x in evalf(g, at(c, z))]
                dG = None
            y1, err = scheme(tab, zero2, F, G, lin, dG)
            # the truth
            nm = f"{name}.{mode}{'.time dependent' if timedep else ''}"
            for i in range(dim):
                if timedep and i == 0:
                    ck.fact(f"{nm}.time coordinate", f"{name}.tableau", zero(y1[0] + hs.scale(Fr(-1))), "stage times are not consistent with the drift rows")
                    continue
                e0 = {tuple(1 if q == i else 0 for q in range(dim)): Ser.const(Fr(1))}
                truth = Ser({})
                Lf = lambda p: lie(f, p, dim)
                Lg = lambda p: lie(g, p, dim)
                z = (0,) * dim
                fi, gi = Lf(e0), Lg(e0)
                J10 = (hs * W).scale(Fr(1, 2)) + hs * H        # int W ds
                J01 = (hs * W).scale(Fr(1, 2)) + (hs * H).scale(Fr(-1))
                g2 = Lg(gi)
                truth = gi[z] * W + fi[z] * hs + (g2[z] * (W * W)).scale(Fr(1, 2))
                truth = truth + Lg(fi)[z] * J10 + Lf(gi)[z] * J01 + (Lg(g2)[z] * (W * W * W)).scale(Fr(1, 6))
                for w in range(1, path + 1):
                    dlt = part(y1[i], w) + part(truth, w).scale(Fr(-1))
                    ck.fact(f"{nm}.component {i}.expansion to weight {w}", f"{name}.tableau", zero(dlt), f"{dict(list(dlt.d.items())[:4])}")
                if path == 3:
                    Lop = lambda p: {k: v + Lg(Lg(p)).get(k, Ser({})).scale(Fr(1, 2)) for k, v in Lf(p).items()}
                    mean4 = (Lop(Lop(e0))[z] * (hs * hs)).scale(Fr(1, 2))
                    dlt = moments(part(y1[i], 4)) + mean4.scale(Fr(-1))
                    ck.fact(f"{nm}.component {i}.mean at weight 4", f"{name}.tableau", zero(dlt), f"{dict(list(dlt.d.items())[:4])}")
                if err is not None:
                    # the error estimate vanishes to leading order
                    lo = [part(err[i], w) for w in (1,) + ((2,) if tab["additive"] else ())]
                    ck.fact(f"{nm}.component {i}.error estimate vanishes to leading order", f"{name}.tableau", all(zero(x) for x in lo), f"{[x.d for x in lo]}")
        # without noise
        f = field("f", 2, 3)
        noN = {k: v for k, v in tab.items()}
        F = lambda c, z: [hs * x for x in evalf(f, z)]
        Gz = (lambda L: [Ser({})] * 2) if tab["additive"] else (lambda L, c, z: [Ser({})] * 2)
        y1, _ = scheme(noN, [Ser({})] * 2, F, Gz, lin, lambda L: [Ser({})] * 2)
        for i in range(2):
            e0 = {tuple(1 if q == i else 0 for q in range(2)): Ser.const(Fr(1))}
            fi = lie(f, e0, 2)
            truth = fi[(0, 0)] * hs
            if tab["order"] >= 2:
                truth = truth + (lie(f, fi, 2)[(0, 0)] * (hs * hs)).scale(Fr(1, 2))
            d = y1[i] + truth.scale(Fr(-1))
            d = Ser({m: c for m, c in d.d.items() if Ser.weight(m) <= 2 * tab["order"]})
            ck.fact(f"{name}.{mode}.component {i}.deterministic order {tab['order']}", f"{name}.tableau", zero(d), f"{d.d}")


SECTIONS = [(n, srk(n)) for n in TAB] + [("any tableau", generic), ("Milstein", milstein), ("expansion", expansion)]


# ---------------------------------------------------------------- executable contract
def np_scheme(name, f, g, ta, tb, y0, n):
    hh = tb - ta
    tab = TAB[name]
    lin = lambda tm: sum((float(c) * np.asarray(v) for c, v in tm), np.zeros_like(y0))
    F = lambda c, z: hh * f(ta + float(c) * hh, z)
    if tab["additive"]:
        G = lambda L: g(ta, y0) @ n[L]
        dG = lambda L: (g(tb, y0) - g(ta, y0)) @ n[L]
    else:
        G, dG = (lambda L, c, z: g(ta + float(c) * hh, z) @ n[L]), None
    return scheme(tab, y0, F, G, lin, dG)


class Given(dfx.AbstractBrownianPath):
    W: object
    H: object
    levy_area = dfx.SpaceTimeLevyArea
    t0 = None
    t1 = None

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        return dfx.SpaceTimeLevyArea(dt=t1 - t0, W=self.W, H=self.H) if use_levy else self.W


def concrete_steps(rng, effort):
    """one real step of each solver on random fields against independently coded formulas"""
    J = jnp.asarray
    for _ in range(2 * effort):
        A, B, C = rng.normal(size=(2, 2)), rng.normal(size=(2, 2)), rng.normal(size=2)
        ta, tb = np.sort(rng.uniform(-1, 2, size=2))
        y0 = rng.normal(size=2)
        W, H = rng.normal(size=2), rng.normal(size=2)
        f = lambda tt, y: np.tanh(A @ y) + tt * C
        jf = lambda tt, y, a: jnp.tanh(A @ y) + tt * C
        for name in TAB:
            if TAB[name]["additive"]:
                g = lambda tt, y: np.stack([np.cos(tt) * C, B @ C * tt], -1)
                jg = lambda tt, y, a: jnp.stack([jnp.cos(tt) * C, B @ C * tt], -1)
            else:
                g = lambda tt, y: np.stack([np.sin(y) * (1 + tt), B @ y], -1)
                jg = lambda tt, y, a: jnp.stack([jnp.sin(y) * (1 + tt), B @ y], -1)
            term = dfx.MultiTerm(dfx.ODETerm(jf), dfx.ControlTerm(jg, Given(J(W), J(H))))
            s = getattr(dfx, name)()
            y1, err, _, _, _ = s.step(term, J(ta), J(tb), J(y0), None, s.init(term, J(ta), J(tb), J(y0), None), False)
            w1, werr = np_scheme(name, f, g, ta, tb, y0, dict(W=W, H=H))
            ok = close(y1, w1) and ((err is None) == (werr is None)) and (err is None or close(err, werr))
            yield None if ok else dict(case=f"{name}: one step [{ta},{tb}] from {y0.tolist()}", got=np.asarray(y1).tolist(), expected=np.asarray(w1).tolist())
        g = lambda tt, y: np.stack([np.sin(y) * (1 + tt), B @ y], -1)
        jg = lambda tt, y, a: jnp.stack([jnp.sin(y) * (1 + tt), B @ y], -1)
        term = dfx.MultiTerm(dfx.ODETerm(jf), dfx.ControlTerm(jg, Given(J(W), J(H))))
        dg = np.zeros((2, 2, 2))           # [k][i, j]
        for k in range(2):
            dg[k][:, 0] = np.eye(2)[k] * np.cos(y0[k]) * (1 + ta)
            dg[k][:, 1] = B[:, k]
        for s, ito in ((dfx.StratonovichMilstein(), 0), (dfx.ItoMilstein(), 1)):
            y1 = s.step(term, J(ta), J(tb), J(y0), None, None, False)[0]
            ww = np.outer(W, W) - ito * (tb - ta) * np.eye(2)
            want = y0 + (tb - ta) * f(ta, y0) + g(ta, y0) @ W + 0.5 * np.einsum("kj,kil,jl->i", g(ta, y0), dg, ww)
            yield None if close(y1, want) else dict(case=f"{type(s).__name__}: one step [{ta},{tb}] from {y0.tolist()}", got=np.asarray(y1).tolist(), expected=want.tolist())


def concrete_solve(rng, effort):
    """whole solves with a Brownian tree are the composition of the steps with that path's increments and Levy areas"""
    for _ in range(effort):
        A, B, C = rng.normal(size=(2, 2)), rng.normal(size=(2, 2)), rng.normal(size=2)
        f = lambda tt, y: np.tanh(A @ y) + tt * C
        jf = lambda tt, y, a: jnp.tanh(A @ y) + tt * C
        names = list(TAB) if effort > 1 else ["ShARK", "SPaRK", "SlowRK"]
        bm = dfx.VirtualBrownianTree(0., 1., 2.0 ** -6, (2,), jax.random.key(int(rng.integers(1000))), levy_area=dfx.SpaceTimeLevyArea)
        for name in names:
            if TAB[name]["additive"]:
                g = lambda tt, y: np.stack([np.cos(tt) * C, B @ C * tt], -1)
                jg = lambda tt, y, a: jnp.stack([jnp.cos(tt) * C, B @ C * tt], -1)
            else:
                g = lambda tt, y: np.stack([np.sin(y) * (1 + tt), B @ y], -1)
                jg = lambda tt, y, a: jnp.stack([jnp.sin(y) * (1 + tt), B @ y], -1)
            term = dfx.MultiTerm(dfx.ODETerm(jf), dfx.ControlTerm(jg, bm))
            y0 = rng.normal(size=2)
            ts = np.array([0., 0.25, 0.4375, 1.])
            sol = dfx.diffeqsolve(term, getattr(dfx, name)(), 0., 1., None, jnp.asarray(y0), stepsize_controller=dfx.StepTo(jnp.asarray(ts)), saveat=dfx.SaveAt(steps=True))
            y = y0
            for a, b in zip(ts[:-1], ts[1:]):
                n = bm.evaluate(a, b, use_levy=True)
                y, _ = np_scheme(name, f, g, a, b, y, dict(W=np.asarray(n.W), H=np.asarray(n.H)))
            got = np.asarray(sol.ys)[2]
            yield None if close(got, y, 1e-7) else dict(case=f"{name}: solve on {ts.tolist()} from {y0.tolist()}", got=got.tolist(), expected=y.tolist())


CONCRETE = [("steps against independent formulas", concrete_steps), ("solves with a Brownian tree", concrete_solve)]
import lineax as lx  # noqa: E402
