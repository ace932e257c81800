"""C16: terms."""
import operator

import lineax as lx

from .common import *
from diffrax._term import WrapTerm, AdjointTerm
from diffrax._heuristics import is_sde, is_unsafe_sde, is_cde

val = at0
s = T.sym
tt, ta, tb, A = S.scalar(s("t")), S.scalar(s("ta")), S.scalar(s("tb")), S.scalar(s("args"))
IS = lambda z: isinstance(z, np.ndarray)
f0 = jnp.asarray(1.0)


def lv(x):
    return jtu.tree_leaves(x, is_leaf=IS)


def cat(xs):
    return np.concatenate([np.reshape(x, (-1,)) for x in lv(xs)] + [np.empty((0,), dtype=object)])


def symtree(name, ex):
    leaves, td = jtu.tree_flatten(ex)
    return jtu.tree_unflatten(td, [symarr(f"{name}{i}", jnp.shape(l)) for i, l in enumerate(leaves)])


class Path(dfx.AbstractPath):
    """an arbitrary path with increments of a given structure"""
    struct: object = eqx.field(static=True)
    t0 = None
    t1 = None

    def evaluate(self, t0, t1=None, left=True, **kw):
        kw = {k: v for k, v in kw.items() if v}
        nm = "dX" if t1 is not None else "X"
        nm += "".join(f"|{k}" for k in sorted(kw))
        return uf(nm, [x for x in jtu.tree_leaves(self.struct)] and self.struct, t0, *(() if t1 is None else (t1,)))


def tensordot(F, c):
    """contraction of the trailing axes of F against all axes of c"""
    k = c.ndim
    st = F.shape[:F.ndim - k]
    out = np.empty(st, dtype=object)
    for i in np.ndindex(st):
        acc = Fr(0)
        for j in np.ndindex(c.shape):
            acc = T.add(acc, T.mul(F[i + j], c[j]))
        out[i] = acc
    return out


def eqs(ck, name, fn, got, want, prem=()):
    g, w = cat(got), cat(want)
    ck.equal_arr(name, fn, g, w, prem)


def linear(ck, name, fn, prod, vf_ex, c_ex):
    """prod(vf, a*c + b*d) = a*prod(vf, c) + b*prod(vf, d)"""
    vf, c, d = symtree("v", vf_ex), symtree("c", c_ex), symtree("d", c_ex)
    a, b = s("a"), s("b")

    def f(vf, a, b, c, d):
        mix = jtu.tree_map(lambda x, y: a * x + b * y, c, d)
        return prod(vf, mix), prod(vf, c), prod(vf, d)
    (m, pc, pd), _ = run(f, (vf_ex, f0, f0, c_ex, c_ex), (vf, S.scalar(a), S.scalar(b), c, d))
    eqs(ck, name, fn, m, S.emap(lambda x, y: T.add(T.mul(a, x), T.mul(b, y)), cat(pc), cat(pd)))


def ode(ck):
    begin(ck)
    cases = {
        "scalar": (f0, lambda: sds(), None),
        "tree": ({"a": f0, "b": (jnp.ones(2), jnp.ones((1, 2)))}, None, None),
    }
    for nm, (y_ex, _, _) in cases.items():
        y = symtree("y", y_ex)
        st = jax.eval_shape(lambda: y_ex)
        term = dfx.ODETerm(lambda t, y, a: uf("f", st, t, y, a))
        n = lambda x: f"ODETerm.{nm}.{x}"
        k = len(lv(y))
        want = [ufT("f", l.shape, tt, *lv(y), A, nout=k, o=i) for i, l in enumerate(lv(y))]
        c = S.scalar(s("c"))
        o, _ = run(lambda t, y, a, c: (term.vf(t, y, a), term.vf_prod(t, y, a, c), term.prod(term.vf(t, y, a), c)), (f0, y_ex, f0, f0), (tt, y, A, c))
        eqs(ck, n("vf is the vector field"), "ODETerm.vf", o[0], want)
        ck.fact(n("structure of vf"), "ODETerm.vf", jtu.tree_structure(o[0], is_leaf=IS) == jtu.tree_structure(y, is_leaf=IS), "")
        eqs(ck, n("vf_prod = control * vf"), "ODETerm.vf_prod", o[1], [ascale(s("c"), w) for w in want])
        eqs(ck, n("prod(vf, control) = vf_prod"), "ODETerm.prod", o[2], o[1])
        linear(ck, n("prod is linear in the control"), "ODETerm.prod", term.prod, y_ex, f0)
    o, _ = run(lambda a, b: term.contr(a, b), (f0, f0), (ta, tb))
    ck.equal("ODETerm.control is the time difference", "ODETerm.contr", val(o), T.sub(s("tb"), s("ta")))
    # broadcasting
    y = symarr("y", (2, 3))
    for shp in ((), (3,), (1, 3), (2, 1), (2, 3)):
        term = dfx.ODETerm(lambda t, y, a: uf("f", sds(shp), t, y))
        o, _ = run(lambda t, y: term.vf(t, y, None), (f0, jnp.ones((2, 3))), (tt, y))
        ck.equal_arr(f"ODETerm.vf broadcasts {shp} to the state", "ODETerm.vf", o, np.broadcast_to(ufT("f", shp, tt, y), (2, 3)))

    def raises(fn):
        try:
            jax.eval_shape(fn)
        except (ValueError, TypeError):
            return True
        return False
    ck.fact("ODETerm.vf.wrong structure is an error", "ODETerm.vf", raises(lambda: dfx.ODETerm(lambda t, y, a: (y, y)).vf(f0, f0, None)), "")
    ck.fact("ODETerm.vf.wrong shape is an error", "ODETerm.vf", raises(lambda: dfx.ODETerm(lambda t, y, a: jnp.ones((3,))).vf(f0, jnp.ones(2), None)), "")


CT = {
    # state shape(s), control shape(s)
    "vector state, vector control": (jnp.ones(2), jnp.ones(3)),
    "vector state, scalar control": (jnp.ones(2), f0),
    "scalar state, vector control": (f0, jnp.ones(3)),
    "matrix state, vector control": (jnp.ones((2, 2)), jnp.ones(3)),
    "vector state, matrix control": (jnp.ones(2), jnp.ones((3, 2))),
    "tree": ({"a": f0, "b": jnp.ones(2)}, {"a": jnp.ones(2), "b": jnp.ones((2,))}),
}


def control(ck):
    begin(ck)
    for nm, (y_ex, c_ex) in CT.items():
        y, c = symtree("y", y_ex), symtree("c", c_ex)
        vf_st = jtu.tree_map(lambda yi, ci: sds(jnp.shape(yi) + jnp.shape(ci)), y_ex, c_ex)
        c_st = jtu.tree_map(lambda ci: sds(jnp.shape(ci)), c_ex)
        n = lambda x: f"ControlTerm.{nm}.{x}"
        for how in ("path", "callable"):
            ctl = Path(c_st) if how == "path" else (lambda a, b: uf("dX", c_st, a, b))
            term = dfx.ControlTerm(lambda t, y, a: uf("g", vf_st, t, y, a), ctl)

            def f(t, a, b, y, ar, c):
                vf = term.vf(t, y, ar)
                return vf, term.vf_prod(t, y, ar, c), term.prod(vf, c), term.contr(a, b)
            o, _ = run(f, (f0, f0, f0, y_ex, f0, c_ex), (tt, ta, tb, y, A, c))
            ls = [l.shape for l in jtu.tree_leaves(vf_st)]
            G = [ufT("g", sh, tt, *lv(y), A, nout=len(ls), o=i) for i, sh in enumerate(ls)]
            eqs(ck, n(f"{how}.vf"), "ControlTerm.vf", o[0], G)
            want = [tensordot(g, ci) for g, ci in zip(G, lv(c))]
            eqs(ck, n(f"{how}.vf_prod contracts the control"), "ControlTerm.vf_prod", o[1], want)
            eqs(ck, n(f"{how}.prod(vf, control) = vf_prod"), "ControlTerm.prod", o[2], want)
            cs = [l.shape for l in jtu.tree_leaves(c_st)]
            eqs(ck, n(f"{how}.control is the increment over the interval"), "ControlTerm.contr", o[3], [ufT("dX", sh, ta, tb, nout=len(cs), o=i) for i, sh in enumerate(cs)])
        linear(ck, n("prod is linear in the control"), "ControlTerm.prod", term.prod, jtu.tree_map(lambda x: jnp.ones(x.shape), vf_st), c_ex)
    term = dfx.ControlTerm(lambda t, y, a: y, Path(sds((2,))))
    o, _ = run(lambda a, b: term.contr(a, b, use_levy=True), (f0, f0), (ta, tb))
    ck.equal_arr("ControlTerm.contr.options are passed on to the path", "ControlTerm.contr", o, ufT("dX|use_levy", (2,), ta, tb))

    # linear operators
    y, c = symarr("y", (2,)), symarr("c", (2,))
    for onm, mk, want in [
        ("diagonal", lambda t, y, a: lx.DiagonalLinearOperator(uf("g", sds((2,)), t, y)), lambda: S.emap(T.mul, ufT("g", (2,), tt, y), c)),
        ("matrix", lambda t, y, a: lx.MatrixLinearOperator(uf("g", sds((2, 2)), t, y)), lambda: tensordot(ufT("g", (2, 2), tt, y), c)),
    ]:
        term = dfx.ControlTerm(mk, Path(sds((2,))))
        o, _ = run(lambda t, y, c: (term.vf_prod(t, y, None, c), term.prod(term.vf(t, y, None), c)), (f0, jnp.ones(2), jnp.ones(2)), (tt, y, c))
        eqs(ck, f"ControlTerm.{onm} operator.vf_prod", "ControlTerm.vf_prod", o[0], want())
        eqs(ck, f"ControlTerm.{onm} operator.prod(vf, control) = vf_prod", "ControlTerm.prod", o[1], want())
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        term = dfx.WeaklyDiagonalControlTerm(lambda t, y, a: uf("g", sds((2,)), t, y), Path(sds((2,))))
    o, _ = run(lambda t, y, c: term.vf_prod(t, y, None, c), (f0, jnp.ones(2), jnp.ones(2)), (tt, y, c))
    eqs(ck, "WeaklyDiagonalControlTerm.elementwise product", "WeaklyDiagonalControlTerm", o, S.emap(T.mul, ufT("g", (2,), tt, y), c))

    def raises(fn):
        try:
            jax.eval_shape(fn)
        except ValueError:
            return True
        return False
    bad = dfx.ControlTerm(lambda t, y, a: jnp.ones(2), Path(sds((2,))))
    ck.fact("ControlTerm.an output of the wrong shape is an error", "ControlTerm.vf_prod", raises(lambda: bad.vf_prod(f0, jnp.ones(2), None, jnp.ones(2))), "a scalar was accepted for a vector state")
    bad = dfx.ControlTerm(lambda t, y, a: jnp.ones(2), Path(sds((2,))))
    ck.fact("ControlTerm.an output of the wrong structure is an error", "ControlTerm.vf_prod", raises(lambda: bad.vf_prod(f0, {"a": f0}, None, jnp.ones(2))), "")
    # conversion to an ODE: multiply by the derivative of the control
    term = dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 3)), t, y, a), Path(sds((3,)))).to_ode()
    ck.fact("to_ode.is an ODETerm", "ControlTerm.to_ode", isinstance(term, dfx.ODETerm), str(type(term)))
    o, _ = run(lambda t, y, a: term.vf(t, y, a), (f0, jnp.ones(2), f0), (tt, y, A))
    G, dX = ufT("g", (2, 3), tt, y, A), ufT("X'0", (3,), tt)
    eqs(ck, "to_ode.vf = g(t, y) dX/dt", "ControlTerm.to_ode", o, tensordot(G, dX))
    o, _ = run(lambda t: Path(sds((3,))).derivative(t), (f0,), (tt,))
    eqs(ck, "AbstractPath.derivative is the derivative of evaluate", "AbstractPath.derivative", o, dX)


def multi(ck):
    begin(ck)
    y = symarr("y", (2,))
    y_ex = jnp.ones(2)
    dr = dfx.ODETerm(lambda t, y, a: uf("f", sds((2,)), t, y, a))
    di = dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 3)), t, y, a), Path(sds((3,))))
    di2 = dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(uf("k", sds((2,)), t, y, a)), Path(sds((2,))))
    F, G, K = ufT("f", (2,), tt, y, A), ufT("g", (2, 3), tt, y, A), ufT("k", (2,), tt, y, A)
    c0, c1, c2 = S.scalar(s("c0")), symarr("c1", (3,)), symarr("c2", (2,))
    p0, p1, p2 = ascale(s("c0"), F), tensordot(G, c1), S.emap(T.mul, K, c2)
    e0, e1, e2 = f0, jnp.ones(3), jnp.ones(2)
    for nm, term, cex, cv, want in [
        ("one", dfx.MultiTerm(dr), (e0,), (c0,), p0),
        ("drift+diffusion", dfx.MultiTerm(dr, di), (e0, e1), (c0, c1), aadd(p0, p1)),
        ("three", dfx.MultiTerm(dr, di, di2), (e0, e1, e2), (c0, c1, c2), aadd(p0, p1, p2)),
        ("nested", dfx.MultiTerm(dfx.MultiTerm(dr, di), di2), ((e0, e1), e2), ((c0, c1), c2), aadd(p0, p1, p2)),
    ]:
        o, _ = run(lambda t, y, a, c: (term.vf_prod(t, y, a, c), term.prod(term.vf(t, y, a), c)), (f0, y_ex, f0, cex), (tt, y, A, cv))
        eqs(ck, f"MultiTerm.{nm}.vf_prod sums the contributions", "MultiTerm.vf_prod", o[0], want)
        eqs(ck, f"MultiTerm.{nm}.prod(vf, control) = vf_prod", "MultiTerm.prod", o[1], want)
        o, _ = run(lambda a, b: term.contr(a, b), (f0, f0), (ta, tb))
        cw = {"one": [S.scalar(T.sub(s("tb"), s("ta")))]}.get(nm, [S.scalar(T.sub(s("tb"), s("ta"))), ufT("dX", (3,), ta, tb)] + ([ufT("dX", (2,), ta, tb)] if nm in ("three", "nested") else []))
        eqs(ck, f"MultiTerm.{nm}.controls", "MultiTerm.contr", o, cw)
    term = dfx.MultiTerm(dr, di)
    o, _ = run(lambda a, b: term.contr(a, b, use_levy=True), (f0, f0), (ta, tb))
    eqs(ck, "MultiTerm.contr.options are passed on", "MultiTerm.contr", o[1], ufT("dX|use_levy", (3,), ta, tb))
    from .rk import ExpensiveODE
    e = ExpensiveODE(lambda t, y, a: y)
    args = (f0, f0, y_ex, None)
    ck.fact("MultiTerm.is_vf_expensive", "MultiTerm.is_vf_expensive", dfx.MultiTerm(dr, e).is_vf_expensive(*args) is True and dfx.MultiTerm(dr, di).is_vf_expensive(*args) is False, "")

    # a term that only defines vf, contr, prod
    class Mine(dfx.AbstractTerm):
        def vf(self, t, y, args):
            return uf("mv", sds((4,)), t, y, args)

        def contr(self, t0, t1, **kw):
            return uf("mc", sds((5,)), t0, t1)

        def prod(self, vf, control):
            return uf("mp", sds((2,)), vf, control)
    m = Mine()
    c = symarr("c", (5,))
    o, _ = run(lambda t, y, a, c: m.vf_prod(t, y, a, c), (f0, y_ex, f0, jnp.ones(5)), (tt, y, A, c))
    eqs(ck, "AbstractTerm.vf_prod is prod of vf", "AbstractTerm.vf_prod", o, ufT("mp", (2,), ufT("mv", (4,), tt, y, A), c))


def wrap(ck):
    """the time-reversal wrapper used for every solve"""
    begin(ck)
    y, y_ex = symarr("y", (2,)), jnp.ones(2)

    class LevyPath(dfx.AbstractBrownianPath):
        cls: type = eqx.field(static=True)
        levy_area = None
        t0 = None
        t1 = None

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            if not use_levy:
                return uf("W", sds((2,)), t0, t1)
            kw = dict(dt=t1 - t0, W=uf("W", sds((2,)), t0, t1))
            if self.cls in (dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea):
                kw["H"] = uf("H", sds((2,)), t0, t1)
            if self.cls is dfx.SpaceTimeTimeLevyArea:
                kw["K"] = uf("K", sds((2,)), t0, t1)
            return self.cls(**kw)
    dr = dfx.ODETerm(lambda t, y, a: uf("f", sds((2,)), t, y, a))
    di = dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 2)), t, y, a), LevyPath(dfx.SpaceTimeLevyArea))
    tree = dfx.ControlTerm(lambda t, y, a: uf("g", [sds((2, 2))], t, y, a), Path([sds((2,))]))
    c = symarr("c", (2,))
    for d in (1, -1):
        n = lambda x: f"WrapTerm.direction={d}.{x}"
        w = lambda term: WrapTerm(term, jnp.asarray(d))
        lo, hi = (s("ta"), s("tb")) if d == 1 else (T.neg(s("tb")), T.neg(s("ta")))
        L, H = S.scalar(lo), S.scalar(hi)
        ut = S.scalar(T.mul(d, s("t")))
        o, _ = run(lambda t, y, a, c: (w(dr).vf(t, y, a), w(dr).vf_prod(t, y, a, c[0]), w(di).vf_prod(t, y, a, c), w(di).prod(w(di).vf(t, y, a), c), w(dr).prod(w(dr).vf(t, y, a), c[0])),
                   (f0, y_ex, f0, jnp.ones(2)), (tt, y, A, c))
        F, G = ufT("f", (2,), ut, y, A), ufT("g", (2, 2), ut, y, A)
        eqs(ck, n("vf is evaluated at the user's time"), "WrapTerm.vf", o[0], F)
        eqs(ck, n("ode.vf_prod"), "WrapTerm.vf_prod", o[1], ascale(c[0], F))
        eqs(ck, n("control.vf_prod"), "WrapTerm.vf_prod", o[2], tensordot(G, c))
        eqs(ck, n("control.prod"), "WrapTerm.prod", o[3], tensordot(G, c))
        eqs(ck, n("ode.prod"), "WrapTerm.prod", o[4], ascale(c[0], F))
        FC = "WrapTerm.contr"
        o, _ = run(lambda a, b: w(dr).contr(a, b), (f0, f0), (ta, tb))
        ck.equal(n("ode.control"), FC, val(o), T.mul(d, T.sub(s("tb"), s("ta"))))
        o, _ = run(lambda a, b: w(di).contr(a, b), (f0, f0), (ta, tb))
        eqs(ck, n("increment, traversed in the direction of the solve"), FC, o, ascale(d, ufT("W", (2,), L, H)))
        o, _ = run(lambda a, b: w(tree).contr(a, b), (f0, f0), (ta, tb))
        eqs(ck, n("increment (tree)"), FC, o, ascale(d, ufT("dX", (2,), L, H)))
        for cls in (dfx.BrownianIncrement, dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea):
            di2 = dfx.ControlTerm(lambda t, y, a: y, LevyPath(cls))
            o, _ = run(lambda a, b: w(di2).contr(a, b, use_levy=True), (f0, f0), (ta, tb))
            ck.fact(n(f"{cls.__name__}.type"), FC, isinstance(o, cls), str(type(o)))
            ck.equal(n(f"{cls.__name__}.dt"), FC, val(o.dt), T.mul(d, T.sub(s("tb"), s("ta"))))
            eqs(ck, n(f"{cls.__name__}.W"), FC, o.W, ascale(d, ufT("W", (2,), L, H)))
            if hasattr(o, "H"):
                eqs(ck, n(f"{cls.__name__}.H: the space-time Levy area does not depend on the direction"), FC, o.H, ufT("H", (2,), L, H))
            if hasattr(o, "K"):
                eqs(ck, n(f"{cls.__name__}.K: the space-time-time Levy area changes sign"), FC, o.K, ascale(d, ufT("K", (2,), L, H)))
        told = []

        class Telling(dfx.ODETerm):
            def is_vf_expensive(self, t0, t1, y, args):
                told.append(1)
                note("asked", f0, t0, t1, y, args)
                return False
        _, ev = run(lambda a, b, y, z: (w(Telling(lambda *a: a[1])).is_vf_expensive(a, b, y, z), dfx.MultiTerm(Telling(lambda *a: a[1]), dr).is_vf_expensive(a, b, y, z), a)[2],
                    (f0, f0, y_ex, f0), (ta, tb, y, A))
        asked = [v for tg, v, _ in ev.notes if tg == "asked"]
        ck.fact(n("is_vf_expensive: the wrapped terms are asked"), "WrapTerm.is_vf_expensive", len(asked) == 2, str(len(asked)))
        for what, v, want in zip(("WrapTerm", "MultiTerm"), asked, ((L, H, y, A), (ta, tb, y, A))):
            for k, (x, z) in enumerate(zip(v, want)):
                ck.equal_arr(n(f"{what}.is_vf_expensive: asked about the same interval, state and arguments ({k})"), f"{what}.is_vf_expensive", x, z)
        from .rk import ExpensiveODE
        ck.fact(n("is_vf_expensive"), "WrapTerm.is_vf_expensive", w(ExpensiveODE(lambda *a: a[1])).is_vf_expensive(f0, f0, y_ex, None) is True and w(dr).is_vf_expensive(f0, f0, y_ex, None) is False, "")


def langevin(ck):
    begin(ck)
    for nm, x_ex, g_ex in [("vector", jnp.ones(2), jnp.ones(2)), ("scalar coefficients", jnp.ones(2), f0),
                           ("tree", {"a": jnp.ones(2), "b": f0}, {"a": f0, "b": f0}), ("tree, scalar coefficients", {"a": jnp.ones(2), "b": f0}, f0)]:
        x, v = symtree("x", x_ex), symtree("v", x_ex)
        ga, u = symtree("gamma", g_ex), symtree("u", g_ex)
        st = jax.eval_shape(lambda: x_ex)
        n = lambda z: f"Langevin.{nm}.{z}"

        class BM(dfx.AbstractBrownianPath):
            levy_area = None
            t0 = None
            t1 = None

            def evaluate(self, t0, t1=None, left=True, use_levy=False):
                return uf("dW|use_levy" if use_levy else "dW", st, t0, t1)

        def bc(c):
            # broadcast prefix
            if not isinstance(c, dict):
                return [np.broadcast_to(c, l.shape) for l in lv(x)]
            return [np.broadcast_to(c[k], x[k].shape) for k in sorted(x)]
        grad = lambda x, a: uf("grad", st, x, a)
        xs, vs = lv(x), lv(v)
        k = len(xs)
        GR = [ufT("grad", l.shape, *xs, A, nout=k, o=i) for i, l in enumerate(xs)]
        c = S.scalar(s("c"))

        def f(t, x, v, ga, u, a, c):
            dr = dfx.UnderdampedLangevinDriftTerm(ga, u, grad)
            return dr.vf(t, (x, v), a), dr.vf_prod(t, (x, v), a, c), dr.prod(dr.vf(t, (x, v), a), c), dr.contr(t, c)
        o, _ = run(f, (f0, x_ex, x_ex, g_ex, g_ex, f0, f0), (tt, x, v, ga, u, A, c))
        acc = [S.emap(lambda g, vv, uu, gr: T.sub(T.mul(-1, T.mul(g, vv)), T.mul(uu, gr)), g, vv, uu, gr) for g, vv, uu, gr in zip(bc(ga), vs, bc(u), GR)]
        FD = "UnderdampedLangevinDriftTerm"
        eqs(ck, n("drift.position: v"), FD + ".vf", o[0][0], vs)
        eqs(ck, n("drift.velocity: -gamma v - u grad f(x)"), FD + ".vf", o[0][1], acc)
        for i, nm2 in ((1, "vf_prod"), (2, "prod")):
            eqs(ck, n(f"drift.{nm2}.position"), f"{FD}.{nm2}", o[i][0], [ascale(s("c"), q) for q in vs])
            eqs(ck, n(f"drift.{nm2}.velocity"), f"{FD}.{nm2}", o[i][1], [ascale(s("c"), q) for q in acc])
        ck.equal(n("drift.control"), FD + ".contr", val(o[3]), T.sub(s("c"), s("t")))
        dw = symtree("dw", x_ex)

        def g(t, x, v, ga, u, a, dw, t1):
            di = dfx.UnderdampedLangevinDiffusionTerm(ga, u, BM())
            return di.vf(t, (x, v), a), di.vf_prod(t, (x, v), a, dw), di.contr(t, t1), di.contr(t, t1, use_levy=True)
        o, _ = run(g, (f0, x_ex, x_ex, g_ex, g_ex, f0, x_ex, f0), (tt, x, v, ga, u, A, dw, tb))
        FF = "UnderdampedLangevinDiffusionTerm"
        sig = cat(o[0])
        pos = [T.lt(0, q) for q in cat(ga)] + [T.lt(0, q) for q in cat(u)]
        w2 = np.concatenate([S.emap(lambda g, uu: T.mul(2, T.mul(g, uu)), g, uu).reshape(-1) for g, uu in zip(bc(ga), bc(u))])
        for i, (a_, b_) in enumerate(zip(sig, w2)):
            ck.equal(n(f"diffusion: sqrt(2 gamma u) [{i}]"), FF + ".vf", T.mul(a_, a_), b_, pos)
            ck.valid(n(f"diffusion: non-negative [{i}]"), FF + ".vf", pos, T.le(0, a_))
        eqs(ck, n("diffusion.position is not forced"), FF + ".prod", o[1][0], [S.emap(lambda _: Fr(0), q) for q in xs])
        eqs(ck, n("diffusion.velocity"), FF + ".prod", o[1][1], S.emap(T.mul, sig, cat(dw)))
        eqs(ck, n("diffusion.control"), FF + ".contr", o[2], [ufT("dW", l.shape, tt, tb, nout=k, o=i) for i, l in enumerate(xs)])
        eqs(ck, n("diffusion.control options"), FF + ".contr", o[3], [ufT("dW|use_levy", l.shape, tt, tb, nout=k, o=i) for i, l in enumerate(xs)])


def adjoint(ck):
    """AdjointTerm: prod(vf, control) = vf_prod (its dynamics are decided in C18)"""
    begin(ck)
    y_ex = jnp.ones(2)
    for nm, base, c_ex in [
        ("ode", dfx.ODETerm(lambda t, y, a: uf("f", sds((2,)), t, y, a)), f0),
        ("control", dfx.ControlTerm(lambda t, y, a: uf("g", sds((2, 3)), t, y, a), Path(sds((3,)))), jnp.ones(3)),
    ]:
        term = AdjointTerm(base)
        y, ay = symarr("y", (2,)), symarr("ay", (2,))
        c = symtree("c", c_ex)

        def f(t, y, ay, a, c):
            st = (y, ay, a, base)
            z = jtu.tree_map(lambda x: x, (y, ay, a, eqx.filter(base, eqx.is_inexact_array)))
            return term.vf_prod(t, z, a, c)[:3], term.prod(term.vf(t, z, a), c)[:3]
        o, _ = run(f, (f0, y_ex, y_ex, f0, c_ex), (tt, y, ay, A, c))
        eqs(ck, f"AdjointTerm.{nm}.prod(vf, control) = vf_prod", "AdjointTerm.prod", o[1], o[0])


def heuristics(ck):
    begin(ck)
    k = jax.random.key(0)
    ub, vb = dfx.UnsafeBrownianPath((), k), dfx.VirtualBrownianTree(0., 1., 0.1, (), k)
    li = dfx.LinearInterpolation(jnp.array([0., 1.]), jnp.array([0., 1.]))
    od = dfx.ODETerm(lambda t, y, a: y)
    ct = lambda p: dfx.ControlTerm(lambda t, y, a: y, p)
    rows = [("ode", od, 0, 0, 0), ("unsafe", ct(ub), 1, 1, 0), ("tree", ct(vb), 1, 0, 0), ("cde", ct(li), 0, 0, 1),
            ("multi", dfx.MultiTerm(od, ct(ub)), 1, 1, 0), ("multi tree", dfx.MultiTerm(od, ct(vb)), 1, 0, 0), ("multi all", dfx.MultiTerm(od, ct(li), ct(vb)), 1, 0, 1),
            ("wrapped", WrapTerm(ct(ub), 1), 1, 1, 0), ("tuple", (od, dfx.MultiTerm(od, ct(vb))), 1, 0, 0), ("dict", {"a": ct(li)}, 0, 0, 1),
            ("langevin", dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1., 1., lambda x: x), dfx.UnderdampedLangevinDiffusionTerm(1., 1., ub)), 1, 1, 0)]
    for nm, t_, a, b, c in rows:
        got = (is_sde(t_), is_unsafe_sde(t_), is_cde(t_))
        ck.fact(f"kind of equation.{nm}", "is_sde/is_unsafe_sde/is_cde", got == (bool(a), bool(b), bool(c)), str(got))


SECTIONS = [("ODETerm", ode), ("ControlTerm", control), ("MultiTerm", multi), ("WrapTerm", wrap), ("Langevin terms", langevin), ("AdjointTerm", adjoint), ("heuristics", heuristics)]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    for _ in range(10 * effort):
        m, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        y, c, G = rng.normal(size=m), rng.normal(size=n), rng.normal(size=(m, n))
        f = lambda t, y, a: jnp.sin(y) * t
        xs = rng.normal(size=(4, n))
        ts = np.sort(rng.uniform(0, 1, size=4))
        path = dfx.LinearInterpolation(jnp.asarray(ts), jnp.asarray(xs))
        ct = dfx.ControlTerm(lambda t, y, a: jnp.asarray(G) * t * y[:, None], path)
        dr = dfx.ODETerm(f)
        t_ = float(rng.uniform())
        want = (G * t_ * y[:, None]) @ c
        rows = [("ControlTerm.vf_prod", ct.vf_prod(t_, jnp.asarray(y), None, jnp.asarray(c)), want),
                ("ControlTerm.prod", ct.prod(ct.vf(t_, jnp.asarray(y), None), jnp.asarray(c)), want),
                ("ODETerm.vf_prod", dr.vf_prod(t_, jnp.asarray(y), None, 0.3), 0.3 * np.sin(y) * t_),
                ("MultiTerm.vf_prod", dfx.MultiTerm(dr, ct).vf_prod(t_, jnp.asarray(y), None, (0.3, jnp.asarray(c))), want + 0.3 * np.sin(y) * t_)]
        mt, cc = dfx.MultiTerm(dr, ct), (0.3, jnp.asarray(c))
        try:
            mp = mt.prod(mt.vf(t_, jnp.asarray(y), None), cc)
        except Exception as e:
            yield dict(case=f"MultiTerm.prod (m={m}, n={n})", got=f"raises {type(e).__name__}: {str(e)[:200]}", expected=(want + 0.3 * np.sin(y) * t_).tolist())
        else:
            rows.append(("MultiTerm.prod", mp, want + 0.3 * np.sin(y) * t_))
        a, b = ts[0] + 0.1 * (ts[3] - ts[0]), ts[3] - 0.2 * (ts[3] - ts[0])
        inc = np.array([np.interp(b, ts, xs[:, j]) - np.interp(a, ts, xs[:, j]) for j in range(n)])
        rows += [("ControlTerm.contr", ct.contr(a, b), inc), ("ODETerm.contr", dr.contr(a, b), b - a),
                 ("WrapTerm.contr backward", WrapTerm(ct, jnp.asarray(-1)).contr(-b, -a), -inc), ("WrapTerm.contr forward", WrapTerm(ct, jnp.asarray(1)).contr(a, b), inc)]
        tm = 0.5 * (ts[1] + ts[2])
        der = (xs[2] - xs[1]) / (ts[2] - ts[1])
        rows.append(("to_ode", ct.to_ode().vf(tm, jnp.asarray(y), None), (G * tm * y[:, None]) @ der))
        g_, u_ = rng.uniform(0.1, 3, size=m), rng.uniform(0.1, 3, size=m)
        v = rng.normal(size=m)
        ld = dfx.UnderdampedLangevinDriftTerm(jnp.asarray(g_), jnp.asarray(u_), lambda x, a: jnp.cos(x))
        lo = ld.vf_prod(0., (jnp.asarray(y), jnp.asarray(v)), None, 0.7)
        rows += [("Langevin drift x", lo[0], 0.7 * v), ("Langevin drift v", lo[1], 0.7 * (-g_ * v - u_ * np.cos(y)))]
        lf = dfx.UnderdampedLangevinDiffusionTerm(jnp.asarray(g_), jnp.asarray(u_), dfx.UnsafeBrownianPath((m,), jax.random.key(0)))
        w = rng.normal(size=m)
        lo = lf.vf_prod(0., (jnp.asarray(y), jnp.asarray(v)), None, jnp.asarray(w))
        rows += [("Langevin diffusion x", lo[0], 0 * v), ("Langevin diffusion v", lo[1], np.sqrt(2 * g_ * u_) * w)]
        if n == 1 or m == 1:
            pass
        vb = dfx.VirtualBrownianTree(0., 1., 1e-3, (m,), jax.random.key(3), levy_area=dfx.SpaceTimeTimeLevyArea)
        fw, bw = (WrapTerm(dfx.ControlTerm(lambda t, y, a: y, vb), jnp.asarray(d)).contr(*q, use_levy=True) for d, q in ((1, (a, b)), (-1, (-b, -a))))
        rows += [("reversed W", bw.W, -fw.W), ("reversed H", bw.H, fw.H), ("reversed K", bw.K, -fw.K)]
        for nm, got, wn in rows:
            yield None if close(got, wn, 1e-9) else dict(case=f"{nm} (m={m}, n={n})", got=np.asarray(got).tolist(), expected=np.asarray(wn).tolist())


CONCRETE = [("terms", concrete)]
