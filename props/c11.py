"""C11: the Langevin solvers ALIGN, ShOULD and QUICSORT."""
import itertools

from .rk import *
from .mainloop import val, RESV, error_if_stub
from .c10 import raises
from diffrax._custom_types import AbstractSpaceTimeLevyArea, AbstractSpaceTimeTimeLevyArea
from diffrax._term import WrapTerm

IS = lambda z: isinstance(z, np.ndarray)
f0_ = jnp.asarray(1.0)
hp, t_p = T.sym("hprev"), T.sym("tprev")
MJ = T.sym("mj", "B")
NAMES = ("ALIGN", "ShOULD", "QUICSORT")
ORDER = {"ALIGN": (2, 2.0), "ShOULD": (3, 3.0), "QUICSORT": (3, 3.0)}
r3 = 3.0 ** 0.5
LL, RR = 0.5 - r3 / 6, 0.5 + r3 / 6
M = T.mul


def sm(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = T.add(out, x)
    return out


# ---------------------------------------------------------------- the coefficients: closed forms, and their Taylor polynomials of degree 5 in h
# phi(k, z): E = exp(-z)
#   beta = E            a = (1-E)/c       b = (E+z-1)/(c z)     (of a whole or a partial step)
#   chh = 6 (E (z+2) + z - 2)/(z^2 c)     ckk = 60 (E (z(z+6)+12) - z(z-6) - 12)/(z^3 c)
def closed(kind, c, h, s=1):
    """s: the fraction of the step"""
    z = M(c, h)
    sz = M(T.flt(s) if isinstance(s, float) else s, z)
    E = T.unary("exp", T.neg(sz))
    if kind == "beta":
        return E
    if kind == "a":
        return T.div(T.sub(1, E), c)
    if kind == "b":
        return T.div(T.sub(T.add(E, sz), 1), M(c, z))
    if kind == "a/h":
        return T.div(T.sub(1, E), z)
    if kind == "chh":
        return T.div(M(6, sm(M(E, T.add(z, 2)), z, -2)), M(M(z, z), c))
    if kind == "ckk":
        return T.div(M(60, sm(M(E, T.add(M(z, T.add(z, 6)), 12)), T.neg(M(z, T.sub(z, 6))), -12)), M(M(M(z, z), z), c))
    raise KeyError(kind)


_SER = {}


def series(kind, s):
    """exact Taylor coefficients in z of  kind / h^p  (p = 1 for a, b, chh, ckk), from the defining integrals of exp(-z) = sum (-z)^k/k!"""
    key = (kind, s)
    if key in _SER:
        return _SER[key]
    N = 12
    fct = [1]
    for k in range(1, N + 8):
        fct.append(fct[-1] * k)
    e = [Fr((-1) ** k, fct[k]) for k in range(N + 6)]      # exp(-z)
    mul_poly = lambda p: [sum((p[j] * e[k - j] for j in range(len(p)) if k >= j), Fr(0)) for k in range(N + 6)]
    sp = [s ** k for k in range(N + 6)]
    if kind == "beta":
        out, p = [e[k] * sp[k] for k in range(N)], 0
    elif kind == "a":       # h * (1 - exp(-sz))/z
        out, p = [-e[k + 1] * sp[k + 1] for k in range(N)], 1
    elif kind == "a/h":
        out, p = [-e[k + 1] * sp[k + 1] for k in range(N)], 0
    elif kind == "b":       # h * (exp(-sz) + sz - 1)/z^2
        out, p = [e[k + 2] * sp[k + 2] for k in range(N)], 1
    elif kind == "chh":
        q = mul_poly([Fr(2), Fr(1)])
        q[0], q[1] = q[0] - 2, q[1] + 1
        assert q[0] == q[1] == q[2] == 0
        out, p = [6 * q[k + 3] for k in range(N)], 1
    elif kind == "ckk":
        q = mul_poly([Fr(12), Fr(6), Fr(1)])
        q[0], q[1], q[2] = q[0] - 12, q[1] + 6, q[2] - 1
        assert not any(q[:4])
        out, p = [60 * q[k + 4] for k in range(N)], 1
    _SER[key] = out, p
    return out, p


def taylor(kind, c, h, s=1):
    out, p = series(kind, s)
    z, acc = M(c, h), 0
    for k in reversed(range(6 - p)):
        acc = T.add(M(acc, z), T.flt(float(out[k])) if isinstance(out[k], float) else out[k])
    return M(h, acc) if p else acc


def coeffs(name, small):
    """kind, fraction -> coefficient as a function of c, h"""
    return lambda kind, c, h, s=1: (taylor if small else closed)(kind, c, h, s)


# ---------------------------------------------------------------- the published steps, per component; f(x) the gradient (coupling all components)
def step_spec(name, K, c, u, x, v, grad, f0, W, H, K3, h):
    """K[i](kind, c, h, s): the coefficients; everything is a list over components; grad(list) -> list"""
    n = range(len(x))
    rho = [T.unary("sqrt", M(2, M(c[i], u[i]))) for i in n]
    k = lambda i, kind, s=1: K[i](kind, c[i], h, s)
    if name == "ALIGN":
        b, a, chh = [k(i, "b") for i in n], [k(i, "a") for i in n], [k(i, "chh") for i in n]
        # position: exact for a constant gradient;  velocity: exact for the gradient interpolated linearly
        x1 = [sm(x[i], M(a[i], v[i]), T.neg(M(b[i], M(M(u[i], h), f0[i]))), M(rho[i], T.add(M(b[i], W[i]), M(chh[i], H[i])))) for i in n]
        f1 = grad(x1)
        v1 = [sm(M(k(i, "beta"), v[i]), T.neg(M(u[i], T.add(M(T.sub(a[i], b[i]), f0[i]), M(b[i], f1[i])))),
                 M(rho[i], T.sub(M(k(i, "a/h"), W[i]), M(c[i], M(chh[i], H[i]))))) for i in n]
        err = [0 for i in n], [T.neg(M(u[i], M(b[i], T.sub(f1[i], f0[i])))) for i in n]
        return x1, v1, err
    sh = [T.add(v[i], M(rho[i], T.add(H[i], M(6, K3[i])))) for i in n]           # the shifted velocity
    rw = [M(rho[i], T.sub(W[i], M(12, K3[i]))) for i in n]
    uh = [M(u[i], h) for i in n]
    if name == "ShOULD":
        half = Fr(1, 2)
        xm = [sm(x[i], M(k(i, "a", half), sh[i]), M(k(i, "b", half), T.sub(rw[i], M(uh[i], f0[i])))) for i in n]
        f1 = grad(xm)
        nz = [T.add(M(k(i, "chh"), H[i]), M(k(i, "ckk"), K3[i])) for i in n]
        x1 = [sm(x[i], M(k(i, "a"), v[i]), T.neg(M(M(uh[i], k(i, "b")), T.add(M(Fr(1, 3), f0[i]), M(Fr(2, 3), f1[i])))), M(rho[i], T.add(M(k(i, "b"), W[i]), nz[i]))) for i in n]
        f2 = grad(x1)
        v1 = [sm(M(k(i, "beta"), v[i]), T.neg(M(uh[i], sm(M(Fr(1, 6), M(k(i, "beta"), f0[i])), M(Fr(2, 3), M(k(i, "beta", half), f1[i])), M(Fr(1, 6), f2[i])))),
                 M(rho[i], T.sub(M(k(i, "a/h"), W[i]), M(c[i], nz[i])))) for i in n]
        return x1, v1, None
    L_, R_ = LL, RR
    xa = [sm(x[i], M(k(i, "a", L_), sh[i]), M(k(i, "b", L_), rw[i])) for i in n]
    f1 = grad(xa)
    xb = [sm(x[i], M(k(i, "a", R_), sh[i]), M(k(i, "b", R_), rw[i]), T.neg(M(k(i, "a", Fr(1, 3)), M(uh[i], f1[i])))) for i in n]
    f2 = grad(xb)
    x1 = [sm(x[i], M(k(i, "a"), sh[i]), M(k(i, "b"), rw[i]), T.neg(M(Fr(1, 2), M(uh[i], T.add(M(k(i, "a", R_), f1[i]), M(k(i, "a", L_), f2[i])))))) for i in n]
    v1 = [sm(M(k(i, "beta"), sh[i]), T.neg(M(Fr(1, 2), M(uh[i], T.add(M(k(i, "beta", R_), f1[i]), M(k(i, "beta", L_), f2[i]))))), M(k(i, "a/h"), rw[i]),
             T.neg(M(rho[i], T.sub(H[i], M(6, K3[i]))))) for i in n]
    return x1, v1, None


# ---------------------------------------------------------------- arbitrary problems
class LNoise(dfx.AbstractBrownianPath):
    tree: object = eqx.field(static=True)
    kind: str = eqx.field(static=True)
    t0 = None
    t1 = None
    levy_area = dfx.BrownianIncrement

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        W, H, K = (uf(n, self.tree, t0, t1) for n in "WHK")
        if not use_levy:
            return W
        return {"W": lambda: dfx.BrownianIncrement(dt=t1 - t0, W=W), "H": lambda: dfx.SpaceTimeLevyArea(dt=t1 - t0, W=W, H=H), "K": lambda: dfx.SpaceTimeTimeLevyArea(dt=t1 - t0, W=W, H=H, K=K)}[self.kind]()


class LProb:
    """x of the given shape; gamma and u arbitrary (full, or a scalar for all)"""
    def __init__(self, kind, gk="full"):
        self.xex = {"scalar": f0_, "vector": jnp.ones(2), "tree": {"a": f0_, "b": jnp.ones(2)}}[kind]
        ls, self.td = jtu.tree_flatten(self.xex)
        self.shapes = [jnp.shape(l) for l in ls]
        self.n = sum(int(np.prod(s)) for s in self.shapes)
        self.gex = self.xex if gk == "full" else f0_
        self.gk = gk
        self.kind = kind
        self.ws = jtu.tree_map(lambda l: sds(jnp.shape(l)), self.xex)
        self.g = self.vec("gam") if gk == "full" else [T.sym("gam")] * self.n
        self.u = self.vec("u") if gk == "full" else [T.sym("u")] * self.n
        self.x, self.v = self.vec("x"), self.vec("v")

    def vec(self, nm):
        return [v for k, s in enumerate(self.shapes) for v in symarr(f"{nm}{k}", s).reshape(-1)]

    def tree(self, vs, g=False):
        if g and self.gk != "full":
            return S.scalar(vs[0])
        out, k = [], 0
        for s in self.shapes:
            m = int(np.prod(s))
            out.append(arr(*vs[k:k + m]).reshape(s))
            k += m
        return jtu.tree_unflatten(self.td, out)

    def flat(self, tr):
        return [v for l in jtu.tree_leaves(tr, is_leaf=IS) for v in np.reshape(l, (-1,))]

    def gradf(self, x, args):
        fl = jnp.concatenate([jnp.reshape(l, (-1,)) for l in jtu.tree_leaves(x)])
        o, k, out = uf("gf", sds((self.n,)), fl, args), 0, []
        for s in self.shapes:
            m = int(np.prod(s))
            out.append(o[k:k + m].reshape(s))
            k += m
        return jtu.tree_unflatten(self.td, out)

    def grad(self, args):
        return lambda xs: list(ufT("gf", (self.n,), arr(*xs), S.scalar(args)))

    def noise(self, nm, a, b):
        m = len(self.shapes)
        return [v for o, s in enumerate(self.shapes) for v in np.reshape(ufT(nm, s, S.scalar(a), S.scalar(b), nout=m, o=o), (-1,))]

    def terms(self, gam, u, nk, wrap=None, gam2=None, u2=None, gf=None):
        dr = dfx.UnderdampedLangevinDriftTerm(gam, u, gf or self.gradf)
        di = dfx.UnderdampedLangevinDiffusionTerm(gam if gam2 is None else gam2, u if u2 is None else u2, LNoise(self.ws, nk))
        if wrap is not None:
            dr, di = WrapTerm(dr, wrap), WrapTerm(di, wrap)
        return dfx.MultiTerm(dr, di)


A0, A1 = T.sym("args0"), T.sym("args1")


def under_(xs, prem):
    return [core.under(x, prem) if isinstance(x, T.Term) else x for x in xs]


def region(solver, p, h_, small):
    th = Fr(str(solver.taylor_threshold))
    z = lambda i: T.abs_(M(p.g[i], h_))
    out, seen = [], set()
    for i in range(p.n):
        q = T.lt(z(i), th) if small[i] else T.le(th, z(i))
        if q not in seen:
            seen.add(q)
            out.append(q)
    return out


def fractions(p, small):
    return [coeffs(None, s) for s in small]


def eqs(ck, nm, fn, got, want, prem):
    if got is not None and want is not None and len(got) != len(want):
        ck.fact(nm, fn, False, f"{len(got)} values, expected {len(want)}")
        return
    for k, (a, b) in enumerate(zip(got, want)):
        ck.equal(f"{nm}[{k}]", fn, core.under(a, prem) if isinstance(a, T.Term) else a, b, prem)


def steps(name):
    """init, then a step: whatever the step size of init, the gradient cached and whether there was a jump"""
    def sec(ck):
        begin(ck)
        ck.assume("a step size within a relative 1e-9 of the cached one may use the cached coefficients")
        nk = "H" if name == "ALIGN" else "K"
        for kind, gk, thr in (("vector", "full", None), ("tree", "full", None), ("scalar", "full", 0.01), ("tree", "scalar", None)):
            solver = getattr(dfx, name)() if thr is None else getattr(dfx, name)(taylor_threshold=thr)
            p = LProb(kind, gk)

            def f(tt, hh, h_prev, x, v, g, u, a0, a1, mj):
                tm = p.terms(g, u, nk)
                st = solver.init(tm, tt - h_prev, tt, (x, v), a0)
                y1, err, dense, st1, res = solver.step(tm, tt, tt + hh, (x, v), a1, st, mj)
                sti = solver.init(tm, tt, tt + hh, y1, a1)
                return dict(y1=y1, err=err, dense=dense, st1=jtu.tree_leaves(st1), sti=jtu.tree_leaves(sti), st0=jtu.tree_leaves(st), res=jnp.asarray(res._value), same=jnp.asarray(jtu.tree_structure(st1) == jtu.tree_structure(sti) == jtu.tree_structure(st)))
            with error_if_stub():
                o, _ = run(f, (0.0, 1.0, 1.0, p.xex, p.xex, p.gex, p.gex, 0.0, 0.0, jnp.asarray(False)),
                           (t, h, hp, p.tree(p.x), p.tree(p.v), p.tree(p.g, True), p.tree(p.u, True), A0, A1, S.scalar(MJ)))
            fn = f"{name}.step"
            tag = f"{name}.{kind}{'' if gk == 'full' else ' (one friction)'}{'' if thr is None else ' (threshold 0.01)'}"
            pos = [T.lt(0, g) for g in dict.fromkeys(p.g)] + [T.lt(0, u) for u in dict.fromkeys(p.u)] + [T.ne(h, 0), T.ne(hp, 0)]
            ck.valid(f"{tag}.result", fn, [], T.eq(val(o["res"]), RESV["successful"]))
            ck.fact(f"{tag}.the state keeps its structure", fn, val(o["same"]) is True, "")
            eqs(ck, f"{tag}.dense y0", fn, p.flat(o["dense"]["y0"][0]) + p.flat(o["dense"]["y0"][1]), p.x + p.v, pos)
            eqs(ck, f"{tag}.dense y1", fn, p.flat(o["dense"]["y1"]), p.flat(o["y1"]), pos)
            t1 = T.add(t, h)
            W, H, K3 = (p.noise(c, t, t1) for c in "WHK")
            far = T.lt(M(Fr(1, 10 ** 9), T.abs_(h)), T.abs_(T.sub(hp, h)))
            alls = {True: (True,) * p.n, False: (False,) * p.n}
            cases = list(alls.values())
            if gk == "full" and p.n == 2:
                cases += [(True, False)]
            for small in cases:
                K = fractions(p, small)
                for jump in (False, True):
                    fc = p.grad(A1)(p.x) if jump or name == "QUICSORT" else p.grad(A0)(p.x)
                    for same in (True, False):
                        pr = pos + region(solver, p, h, small) + [MJ if jump else T.not_(MJ)] + ([T.eq(hp, h)] if same else [far])
                        if same:
                            # the cached coefficients are those of an equal step size
                            sub = {hp: h}
                            pr = [q for q in pos if q is not T.ne(hp, 0)] + region(solver, p, h, small) + [MJ if jump else T.not_(MJ)]
                            get = lambda xs: under_([T.subst(x, sub) if isinstance(x, T.Term) else x for x in xs], pr)
                        else:
                            # whatever the coefficients cached, those of this step size are used
                            get = lambda xs: under_(xs, pr)
                        nm = f"{tag}.{''.join('s' if s else 'l' for s in small)}.{'jump' if jump else 'no jump'}.{'same step size' if same else 'another step size'}"
                        w = step_spec(name, K, p.g, p.u, p.x, p.v, p.grad(A1), fc, W, H, K3, h)
                        eqs(ck, f"{nm}.x", fn, get(p.flat(o["y1"][0])), w[0], pr)
                        eqs(ck, f"{nm}.v", fn, get(p.flat(o["y1"][1])), w[1], pr)
                        if w[2] is None:
                            ck.fact(f"{nm}.no error estimate is claimed", fn, o["err"] is None, "")
                        else:
                            eqs(ck, f"{nm}.error in x", fn, get(p.flat(o["err"][0])), w[2][0], pr)
                            eqs(ck, f"{nm}.error in v", fn, get(p.flat(o["err"][1])), w[2][1], pr)
                        # invariant: the state is that of init at the new value for this step size
                        a, b = (get([x for l in o[k] for x in np.reshape(l, (-1,))]) for k in ("st1", "sti"))
                        eqs(ck, f"{nm}.the state left is that of a fresh start", fn, a, b, pr)
    return sec


def wrapped(ck):
    """the terms as the solve passes them (wrapped with the direction of time)"""
    begin(ck)
    for name in NAMES:
        nk = "H" if name == "ALIGN" else "K"
        solver = getattr(dfx, name)()
        p = LProb("vector")
        for d in (1, -1):
            def f(tt, hh, x, v, g, u, a):
                tm = p.terms(g, u, nk, wrap=d)
                st = solver.init(tm, tt, tt + hh, (x, v), a)
                y1 = solver.step(tm, tt, tt + hh, (x, v), a, st, False)[0]
                c = tm.terms[1].contr(tt, tt + hh, use_levy=True)
                return dict(y1=y1, dt=tm.terms[0].contr(tt, tt + hh), W=c.W, H=c.H, K=getattr(c, "K", c.H))
            with error_if_stub():
                o, _ = run(f, (0.0, 1.0, p.xex, p.xex, p.gex, p.gex, 0.0), (t, h, p.tree(p.x), p.tree(p.v), p.tree(p.g), p.tree(p.u), A0))
            hh = M(d, h)
            ck.equal(f"{name}.direction {d}.the step is signed", "WrapTerm.contr", val(o["dt"]), hh)
            W, H, K3 = p.flat(o["W"]), p.flat(o["H"]), p.flat(o["K"])
            for s in (True, False):
                small = (s,) * p.n
                pr = [T.lt(0, g) for g in p.g] + [T.lt(0, u) for u in p.u] + [T.lt(0, h)] + region(solver, p, hh, small)
                w = step_spec(name, fractions(p, small), p.g, p.u, p.x, p.v, p.grad(A0), p.grad(A0)(p.x), W, H, K3, hh)
                nm = f"{name}.direction {d}.{'small' if s else 'large'}"
                eqs(ck, f"{nm}.x", f"{name}.step", p.flat(o["y1"][0]), w[0], pr)
                eqs(ck, f"{nm}.v", f"{name}.step", p.flat(o["y1"][1]), w[1], pr)


def interface(ck):
    begin(ck)
    for name in NAMES:
        nk = "H" if name == "ALIGN" else "K"
        solver = getattr(dfx, name)()
        p = LProb("tree")
        # disagreeing drift and diffusion
        g2, u2 = p.vec("gamB"), p.vec("uB")

        def f(x, v, g, u, gg, uu):
            return jtu.tree_leaves(solver.init(p.terms(g, u, nk, gam2=gg, u2=uu), 0.0, 1.0, (x, v), jnp.asarray(0.)))
        with error_if_stub():
            _, ev = run(f, (p.xex,) * 6, tuple(p.tree(z) for z in (p.x, p.v, p.g, p.u, g2, u2)))
        bad = [at0(n[1][0]) for n in ev.notes if n[0] == "error_if"]
        differ = T.or_(*[T.ne(a, b) for a, b in zip(p.g + p.u, g2 + u2)])
        ck.valid(f"{name}.init.error iff drift and diffusion disagree", "AbstractFosterLangevinSRK.init", [], T.eq(T.or_(*bad) if len(bad) > 1 else bad[0] if bad else False, differ))
        q = LProb("vector")
        go = lambda tm, x=q.xex, kind=Exception: raises(lambda: jax.eval_shape(lambda: jtu.tree_leaves(solver.init(tm, 0., 1., (x, x), jnp.asarray(0.)))), kind)
        e = jnp.ones(2)
        ck.fact(f"{name}.init accepts matching shapes", f"{name}.init", not go(q.terms(e, e, nk)) and not go(q.terms(1.0, e, nk)), "rejected")
        ck.fact(f"{name}.init rejects a gradient of another shape", f"{name}.init", go(q.terms(e, e, nk, gf=lambda x, a: jnp.ones(3)), kind=RuntimeError), "accepted")
        ck.fact(f"{name}.init rejects frictions of another shape", f"{name}.init", go(q.terms(jnp.ones(3), e, nk)) and go(q.terms({"a": e}, e, nk)), "accepted")

        def without(kind):
            tm = q.terms(e, e, kind)

            def go():
                st = solver.init(tm, 0., 1., (q.xex, q.xex), jnp.asarray(0.))
                solver.step(tm, 0., 1., (q.xex, q.xex), jnp.asarray(0.), st, False)
            return raises(lambda: jax.make_jaxpr(lambda: go())(), ValueError)
        ck.fact(f"{name}.step without the Levy area it needs is an error", f"{name}.step", without("W") and (name == "ALIGN" or without("H")), "accepted")
        ck.fact(f"{name}.orders", f"{name}.order", (solver.order(None), solver.strong_order(None)) == ORDER[name], "")
        ck.fact(f"{name}.Levy area needed", f"{name}.minimal_levy_area", solver.minimal_levy_area is (AbstractSpaceTimeLevyArea if name == "ALIGN" else AbstractSpaceTimeTimeLevyArea), "")
        ck.fact(f"{name}.adaptive iff there is an error estimate", name, isinstance(solver, dfx.AbstractAdaptiveSolver) == (name == "ALIGN"), "")
        ck.fact(f"{name}.Stratonovich", name, isinstance(solver, dfx.AbstractStratonovichSolver), "")


def lemmas(ck):
    """about the coefficients, not the code: what the proofs above mean"""
    begin(ck)
    import sympy as sp
    s, hh, c, w_, H_, K_, x0, v0, g0, u0, rr = sp.symbols("s h c W H K x v g u rho", positive=True)
    z = c * hh
    E = sp.exp(-z)
    b, a = (E + z - 1) / (c * z), (1 - E) / c
    chh = 6 * (E * (z + 2) + z - 2) / (z ** 2 * c)
    ckk = 60 * (E * (z * (z + 6) + 12) - z * (z - 6) - 12) / (z ** 3 * c)
    # the cubic path with the given increment and Levy areas, W(s)
    r = s / hh
    path = w_ * r + 6 * H_ * r * (1 - r) + 120 * K_ * r * (1 - r) * (Fr(1, 2) - r) if False else w_ * r + 6 * H_ * r * (1 - r) + 120 * K_ * r * (1 - r) * (sp.Rational(1, 2) - r)
    area = sp.simplify(sp.integrate(path - r * w_, (s, 0, hh)) / hh)
    area2 = sp.simplify(sp.integrate((path - r * w_) * (hh / 2 - s), (s, 0, hh)) / hh ** 2)
    ck.fact("the path has the space-time Levy area H", "(lemma)", sp.simplify(area - H_) == 0, str(area))
    ck.fact("the path has the space-time-time Levy area K", "(lemma)", sp.simplify(area2 - K_) == 0, str(area2))
    dw = sp.diff(path, s)
    ker = sp.exp(-c * (hh - s))
    vn = sp.integrate(sp.expand(ker * dw), (s, 0, hh))
    xn = sp.integrate(sp.expand((1 - ker) / c * dw), (s, 0, hh))
    ck.fact("velocity noise of the coefficients is that of the equation along the path", "(lemma)", sp.simplify(sp.expand(vn - (a / hh * w_ - c * (chh * H_ + ckk * K_)))) == 0, "")
    ck.fact("position noise of the coefficients is that of the equation along the path", "(lemma)", sp.simplify(sp.expand(xn - (b * w_ + chh * H_ + ckk * K_))) == 0, "")
    ck.fact("a constant force moves the position by b h", "(lemma)", sp.simplify(sp.integrate((1 - ker) / c, (s, 0, hh)) - b * hh) == 0, "")
    ck.fact("a force growing linearly from zero changes the velocity by b", "(lemma)", sp.simplify(sp.integrate(sp.expand(ker * s / hh), (s, 0, hh)) - b) == 0, "")
    # the Taylor polynomials are continuous with the closed forms at the threshold
    import mpmath as mp
    mp.mp.dps = 50
    cf = {"beta": lambda z, s: mp.e ** (-s * z), "a": lambda z, s: (1 - mp.e ** (-s * z)) / z, "a/h": lambda z, s: (1 - mp.e ** (-s * z)) / z, "b": lambda z, s: (mp.e ** (-s * z) + s * z - 1) / z ** 2,
          "chh": lambda z, s: 6 * (mp.e ** -z * (z + 2) + z - 2) / z ** 3, "ckk": lambda z, s: 60 * (mp.e ** -z * (z * (z + 6) + 12) - z * (z - 6) - 12) / z ** 4}
    for kind, ss in (("beta", (1, .5, LL, RR)), ("a", (1, .5, 1 / 3, LL, RR)), ("b", (1, .5, LL, RR)), ("a/h", (1,)), ("chh", (1,)), ("ckk", (1,))):
        for q in ss:
            out, p = series(kind, Fr(q) if q == 1 else q)
            tail = [abs(float(out[k])) for k in range(6 - p, 12)]
            # the remainder is at most the sum of the absolute terms (all later ones decrease by at least z/4 each)
            bound = sum(tl * 0.1 ** (6 - p + j) for j, tl in enumerate(tail)) + tail[-1] * 0.1 ** 12
            ck.fact(f"the neglected terms of {kind} of {q:.3f} of a step are below 1e-7 up to the threshold 0.1", "(lemma)", bound < 1e-7, f"{bound}")
            for zz in (mp.mpf("0.1"), -mp.mpf("0.1"), mp.mpf("0.01")):
                poly = sum(mp.mpf(out[k].numerator) / out[k].denominator * zz ** k if isinstance(out[k], Fr) else mp.mpf(out[k]) * zz ** k for k in range(6 - p))
                ck.fact(f"{kind} of {q:.3f} of a step: polynomial and closed form agree at {mp.nstr(zz, 3)}", "(lemma)", abs(poly - cf[kind](zz, mp.mpf(q))) < 1e-7, "")


SECTIONS = [(f"{n}: init and step", steps(n)) for n in NAMES] + [("wrapped terms", wrapped), ("interface", interface), ("lemmas", lemmas)]


# ---------------------------------------------------------------- executable contract
def np_step(name, c, u, x, v, grad, f0, W, H, K3, h):
    import mpmath as mp
    mp.mp.dps = 40

    def k(kind, s=1):
        out = []
        for ci in c:
            z, s_ = mp.mpf(float(ci)) * mp.mpf(float(h)), mp.mpf(s.numerator) / s.denominator if isinstance(s, Fr) else mp.mpf(s)
            E, cc, H_ = mp.e ** (-s_ * z), mp.mpf(float(ci)), mp.mpf(float(h))
            out.append(float({"beta": E, "a": (1 - E) / cc, "a/h": (1 - E) / z, "b": (E + s_ * z - 1) / (cc * z), "chh": 6 * (E * (z + 2) + z - 2) / (z * z * cc),
                              "ckk": 60 * (E * (z * (z + 6) + 12) - z * (z - 6) - 12) / (z ** 3 * cc)}[kind]))
        return np.array(out)
    rho = np.sqrt(2 * c * u)
    if name == "ALIGN":
        x1 = x + k("a") * v - k("b") * u * h * f0 + rho * (k("b") * W + k("chh") * H)
        f1 = grad(x1)
        return x1, k("beta") * v - u * ((k("a") - k("b")) * f0 + k("b") * f1) + rho * (k("a/h") * W - c * k("chh") * H)
    sh, rw, uh = v + rho * (H + 6 * K3), rho * (W - 12 * K3), u * h
    if name == "ShOULD":
        q = Fr(1, 2)
        f1 = grad(x + k("a", q) * sh + k("b", q) * (rw - uh * f0))
        nz = k("chh") * H + k("ckk") * K3
        x1 = x + k("a") * v - uh * k("b") * (f0 + 2 * f1) / 3 + rho * (k("b") * W + nz)
        return x1, k("beta") * v - uh * (k("beta") * f0 / 6 + 2 / 3 * k("beta", q) * f1 + grad(x1) / 6) + rho * (k("a/h") * W - c * nz)
    f1 = grad(x + k("a", LL) * sh + k("b", LL) * rw)
    f2 = grad(x + k("a", RR) * sh + k("b", RR) * rw - k("a", Fr(1, 3)) * uh * f1)
    return (x + k("a") * sh + k("b") * rw - .5 * uh * (k("a", RR) * f1 + k("a", LL) * f2),
            k("beta") * sh - .5 * uh * (k("beta", RR) * f1 + k("beta", LL) * f2) + k("a/h") * rw - rho * (H - 6 * K3))


class Given(dfx.AbstractBrownianPath):
    W: object
    H: object
    K: object
    t0 = None
    t1 = None
    levy_area = dfx.SpaceTimeTimeLevyArea

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        return dfx.SpaceTimeTimeLevyArea(dt=t1 - t0, W=self.W, H=self.H, K=self.K) if use_levy else self.W


def concrete(rng, effort):
    """chains of steps against high-precision coefficients, over many scales of friction and step, forward and backward; whole solves in other units; jumps"""
    for name in NAMES:
        s = getattr(dfx, name)()
        grad = lambda x, a=None: (np if isinstance(x, np.ndarray) else jnp).sin(x) * 3

        @jax.jit
        def two(c, u, x, v, W, H, K3, h0, h1, h2):
            tm = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(c, u, grad), dfx.UnderdampedLangevinDiffusionTerm(c, u, Given(W, H, K3)))
            st = s.init(tm, 0.0, h0, (x, v), None)
            y1, e1, _, st, _ = s.step(tm, 0.0, h1, (x, v), None, st, False)
            y2, _, _, st, _ = s.step(tm, h1, h1 + h2, y1, None, st, False)
            return y1, y2, e1
        # inside the region of the Taylor expansions, with large noise: every coefficient to 8 digits
        for _ in range(4 * effort):
            c, u, hh = rng.uniform(.6, .95, 2), rng.uniform(.5, 2, 2), .1 * rng.choice([1, -1])
            x, v = rng.normal(size=2), rng.normal(size=2) * 100
            for big in np.eye(3) * 1e5:
                W, H, K3 = (rng.uniform(.5, 1, 2) * q for q in big)
                y1, _, e1 = two(c, u, x, v, W, H, K3, hh, hh, hh)
                w1 = np_step(name, c, u, x, v, grad, grad(x), W, H, K3, hh)
                sc = np.max(big) * 1e-8
                okk = all(np.abs(np.asarray(g) - w).max() < sc for g, w in zip(y1, w1))
                if name == "ALIGN":
                    z = c * hh
                    we = -u * hh * (np.exp(-z) + z - 1) / z ** 2 * (grad(np.asarray(y1[0])) - grad(x))
                    okk = okk and np.abs(np.asarray(e1[1]) - we).max() < 1e-7 and not np.asarray(e1[0]).any()
                yield None if okk else dict(case=f"{name}: a step in the Taylor region", gamma=c.tolist(), u=u.tolist(), h=float(hh), x=x.tolist(), v=v.tolist(), W=W.tolist(), H=H.tolist(), K=K3.tolist(),
                                            got=[np.asarray(q).tolist() for q in y1], want=[q.tolist() for q in w1], error=None if e1 is None else [np.asarray(q).tolist() for q in e1])
        for _ in range(15 * effort):
            unit = 10.0 ** rng.choice([0, 0, -13, 5])
            c, u = 10 ** rng.uniform(-2, 1, 2) / unit, rng.uniform(.5, 2, 2) / unit ** 2
            hs = 10 ** rng.uniform(-3, 0.3, 3) * unit * rng.choice([1, 1, -1])
            if rng.integers(3) == 0:
                hs[1] = hs[0]
            x, v = rng.normal(size=2), rng.normal(size=2) / unit
            W, H, K3 = (rng.normal(size=2) * np.sqrt(abs(hs[1])) * q for q in (1, .3, .04))
            y1, y2, _ = two(c, u, x, v, W, H, K3, *hs)
            w1 = np_step(name, c, u, x, v, grad, grad(x), W, H, K3, hs[1])
            w2 = np_step(name, c, u, w1[0], w1[1], grad, grad(w1[0]), W, H, K3, hs[2])
            for k, (g, w) in enumerate(((y1, w1), (y2, w2))):
                sc = max(1, np.abs(w[0]).max()), max(1 / unit, np.abs(w[1]).max())
                bad = max(float(np.abs(np.asarray(g[i]) - w[i]).max() / sc[i]) for i in (0, 1))
                big = np.abs(hs / unit).max() * max(1, np.abs(c * unit).max())
                yield None if bad < 1e-6 * np.exp(min(2 * big, 60)) and np.isfinite(bad) or big > 30 else dict(case=f"{name}: step {k + 1}", gamma=c.tolist(), u=u.tolist(), steps=hs.tolist(), x=x.tolist(), v=v.tolist(), W=W.tolist(), H=H.tolist(), K=K3.tolist(),
                                                                                               got=[np.asarray(q).tolist() for q in g], want=[q.tolist() for q in w])
        # another unit of time changes nothing (up to the tolerance of the solve)
        outs = []
        for unit in (1.0, 1e-13):
            z = jnp.zeros(2)
            tm = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(2 / unit, 1 / unit ** 2, grad), dfx.UnderdampedLangevinDiffusionTerm(2 / unit, 1 / unit ** 2, Given(z, z, z)))
            tt = np.concatenate([[0.], np.cumsum(np.linspace(.01, .1, 20))])
            o = dfx.diffeqsolve(tm, s, 0., tt[-1] * unit, None, (jnp.asarray([1., .5]), jnp.asarray([0., 1.]) / unit), stepsize_controller=dfx.StepTo(jnp.asarray(tt * unit)))
            outs.append((np.asarray(o.ys[0][0]), np.asarray(o.ys[1][0]) * unit))
        yield None if close(outs[0][0], outs[1][0], 1e-7) and close(outs[0][1], outs[1][1], 1e-7) else dict(case=f"{name}: the solution depends on the unit of time", seconds=[q.tolist() for q in outs[0]], tiny=[q.tolist() for q in outs[1]])
        # jumps
        sv = s if name == "ALIGN" else dfx.HalfSolver(s)
        z = jnp.zeros(2)
        tm = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(2., 1., grad), dfx.UnderdampedLangevinDiffusionTerm(2., 1., Given(z, z, z)))
        ends = []
        for ctrl in (dfx.PIDController(1e-7, 1e-7), dfx.ClipStepSizeController(dfx.PIDController(1e-7, 1e-7), jump_ts=jnp.asarray([.5]))):
            o = dfx.diffeqsolve(tm, sv, 0., 1., .1, (jnp.asarray([1., .5]), jnp.asarray([0., 1.])), stepsize_controller=ctrl, max_steps=20000)
            ends.append(np.concatenate([np.asarray(q[0]) for q in o.ys]))
        yield None if close(ends[0], ends[1], 1e-4) else dict(case=f"{name}: jump times change the solution", got=[e.tolist() for e in ends])


CONCRETE = [("steps and solves", concrete)]
