"""Runge-Kutta steps: extraction, the tableau contract, and decoding of coefficients."""
import json
import os

import optimistix

from .common import *

EXPLICIT = ["Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8"]
IMPLICIT = ["Kvaerno3", "Kvaerno4", "Kvaerno5"]
IMEX = ["Sil3", "KenCarp3", "KenCarp4", "KenCarp5"]
ALL = EXPLICIT + IMPLICIT + IMEX
PUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "published_rk.json")


def published(name):
    return json.load(open(PUB))[name]


def make(name, **kw):
    cls = getattr(dfx, name)
    if name in EXPLICIT:
        return cls(**kw)
    return cls(root_finder=StubRF(), **kw)


# ---------------------------------------------------------------- stubs for the implicit solve
class StubRF(optx.AbstractRootFinder):
    """a root finder about which nothing is known: its state is opaque"""
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = optx.max_norm

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return uf("rfstate", sds(), *[x for x in jtu.tree_leaves(y)])

    def step(self, *a, **k):
        raise AssertionError

    def terminate(self, *a, **k):
        raise AssertionError

    def postprocess(self, *a, **k):
        raise AssertionError


class _Sol:
    pass


class root_stub:
    """replaces optimistix.root_find by its contract while the real step is traced:
    an arbitrary value (a function of all that is passed in) whose residual is logged,
    and an arbitrary success flag"""

    def __enter__(self):
        self.old = optimistix.root_find
        self.calls = []

        def root_find(fn, solver, y0, args=None, options=None, **kw):
            self.calls.append(dict(solver=solver, options=options, **kw))
            try:
                opts = jtu.tree_leaves(eqx.filter((options, args, y0), eqx.is_array))
            except Exception:
                opts = []
            struct = jax.eval_shape(lambda: y0)
            # the identity of a solve: everything it is given
            value = uf("root", struct, *[jnp.asarray(x) for x in opts])
            res = fn(value, args)
            # `has_aux=False`
            ok = uf("rootok", sds((), "bool"), *[jnp.asarray(x) for x in opts])
            lv = jtu.tree_leaves(value)
            lr = jtu.tree_leaves(res)
            lg = jtu.tree_leaves(y0)
            lv[0] = note("root", lv[0], *lv, *lr, *lg, ok)
            value = jtu.tree_unflatten(jtu.tree_structure(value), lv)
            s = _Sol()
            s.value = value
            s.result = optx.RESULTS.where(ok, optx.RESULTS.successful, optx.RESULTS.nonlinear_max_steps_reached)
            s.stats = {}
            s.aux = None
            s.state = None
            return s

        optimistix.root_find = root_find
        return self

    def __exit__(self, *a):
        optimistix.root_find = self.old


class ExpensiveODE(dfx.ODETerm):
    def is_vf_expensive(self, t0, t1, y, args):
        return True


class UFPath(dfx.AbstractPath):
    dim: int = 2
    t0 = None
    t1 = None

    def evaluate(self, t0, t1=None, left=True):
        return uf("dX", sds((self.dim,)), t0, t1)


# ---------------------------------------------------------------- the kinds of problem
class Problem:
    """a term (or pair of terms for IMEX) with uninterpreted vector field(s)"""

    def __init__(self, kind, nterms=1):
        self.kind, self.nterms = kind, nterms
        names = ["f"] if nterms == 1 else ["fE", "fI"]
        self.names = names
        if kind in ("ode", "expensive"):
            self.yex = jnp.asarray(1.0)
            self.y = S.scalar(T.sym("y"))
            cls = dfx.ODETerm if kind == "ode" else ExpensiveODE
            mk = lambda n: cls(lambda t, y, a: uf(n, sds(), t, y))
            self.K = lambda n, t, y, h, t0, t1: ascale(h, ufT(n, (), t, y))
            self.fshape = ()
        elif kind == "tree":
            self.yex = {"a": jnp.asarray(1.0), "b": jnp.ones(2)}
            self.y = arr(T.sym("ya"), T.sym("yb0"), T.sym("yb1"))

            def vf(n):
                def g(t, y, a):
                    v = uf(n, sds((3,)), t, y["a"], y["b"])
                    return {"a": v[0], "b": v[1:]}
                return g
            mk = lambda n: dfx.ODETerm(vf(n))
            self.K = lambda n, t, y, h, t0, t1: ascale(h, ufT(n, (3,), t, y))
            self.fshape = (3,)
        elif kind == "cde":
            self.yex = jnp.ones(2)
            self.y = arr(T.sym("y0"), T.sym("y1"))
            mk = lambda n: dfx.ControlTerm(lambda t, y, a: uf(n, sds((2, 2)), t, y), UFPath())

            def K(n, t, y, h, t0, t1):
                F = ufT(n, (2, 2), t, y)
                dx = ufT("dX", (2,), t0, t1)
                return arr(*[T.add(T.mul(F[i, 0], dx[0]), T.mul(F[i, 1], dx[1])) for i in range(2)])
            self.K = K
            self.fshape = (2, 2)
        terms = [mk(n) for n in names]
        self.term = terms[0] if nterms == 1 else dfx.MultiTerm(*terms)

    def F(self, n, t, y):
        return ufT(n, self.fshape, t, y)

    def flat(self, y):
        """real-code y (pytree of object arrays) -> flat array in spec order"""
        if self.kind == "tree":
            return np.concatenate([np.reshape(y["a"], (1,)), np.reshape(y["b"], (2,))])
        return y

    def tree(self, y):
        if self.kind == "tree":
            return {"a": S.scalar(y[0]), "b": y[1:]}
        return y

    def fflat(self, f):
        """vector field value"""
        return self.flat(f)


t, h = T.sym("t"), T.sym("h")


def one_step(name, prob, fsal, first_step, made_jump, f0=None, scan_kind=None, ok=True):
    """extract the real step; returns dict of outputs and the log of implicit solves"""
    solver = make(name) if scan_kind is None else make(name, scan_kind=scan_kind)
    term = prob.term
    st = solver.init(term, 0.0, 1.0, prob.yex, None)
    is_fsal = st is not None and len(jtu.tree_leaves(st)) > 0
    if is_fsal:
        fs_ex, f0_ex = st
        f0_leaves, f0_td = jtu.tree_flatten(f0_ex)

        def step(t0, h, y0, mj, fs, *f0l):
            y1, err, dense, state, res = solver.step(term, t0, t0 + h, y0, None, (fs, jtu.tree_unflatten(f0_td, f0l)), mj)
            return y1, err, dense, state, res._value
        ex = (0.0, 1.0, prob.yex, jnp.array(False), jnp.array(False), *f0_leaves)
    else:
        def step(t0, h, y0, mj):
            y1, err, dense, state, res = solver.step(term, t0, t0 + h, y0, None, st, mj)
            return y1, err, dense, state, jnp.asarray(res._value)
        ex = (0.0, 1.0, prob.yex, jnp.array(False))
    with root_stub() as rs:
        e = Extract(step, ex)
    vals = [t, h, prob.tree(prob.y), made_jump]
    if is_fsal:
        vals += [first_step]
        for l in f0_leaves:
            pass
        vals += f0(f0_td, f0_leaves) if f0 is not None else [S.fresh_like(jax.ShapeDtypeStruct(jnp.shape(l), jnp.result_type(l)), f"stale{i}") for i, l in enumerate(f0_leaves)]
    out, ev = e(tuple(vals))
    return dict(out=out, ev=ev, is_fsal=is_fsal, e=e, calls=rs.calls, solver=solver)


def f0_values(prob):
    """the cached evaluation as it should be: f(t,y)"""
    def g(td, leaves):
        vals = []
        fs = [prob.F(n, S.scalar(t), prob.y) for n in prob.names]
        if prob.kind == "tree":
            for f in fs:
                vals += [S.scalar(f[0]), f[1:]]
        else:
            vals = fs
        assert len(vals) == len(leaves)
        return vals
    return g


def roots_of(ev, prob):
    """log of implicit solves -> list of (value, residual, guess, ok) flat arrays"""
    out = []
    for tag, vals, path in ev.notes:
        if tag != "root":
            continue
        n = (len(vals) - 1) // 3
        cat = lambda xs: xs[0] if len(xs) == 1 else np.concatenate([np.reshape(x, (-1,)) for x in xs])
        out.append((cat(vals[:n]), cat(vals[n:2 * n]), cat(vals[2 * n:3 * n]), vals[-1][()]))
    return out


def same_ring(a, b):
    r = RG.Ring()
    try:
        return all(r.is_zero(T.sub(x, y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    except RG.NeedSplit:
        return False


# ---------------------------------------------------------------- the contract
def spec_step(name, prob, roots, skip_first):
    """y1, y_error, stage increments from the published tableau.  `roots`: values and
    residuals of the implicit solves performed (in stage order)."""
    pub = published(name)
    tabs = pub["tableaus"]
    S_ = tabs[0]["stages"]
    t0, t1 = t, T.add(t, h)
    K = [[None] * S_ for _ in tabs]
    resid = []
    ri = 0
    Ys = []
    imp = next((k for k, tb in enumerate(tabs) if tb["diag"] is not None), None)
    for i in range(S_):
        Y = prob.y
        for k, tb in enumerate(tabs):
            for j in range(i):
                a = T.flt(tb["a"][i][j])
                if a != 0:
                    Y = aadd(Y, ascale(a, K[k][j]))
        if imp is not None:
            tb = tabs[imp]
            d = T.flt(tb["diag"][i])
            ti = T.add(t, T.mul(T.flt(tb["c"][i]), h))
            if i == 0 and skip_first:
                K[imp][0] = prob.K(prob.names[imp], S.scalar(ti), Y, h, t0, t1)
            else:
                val, res, guess, ok = roots[ri]
                ri += 1
                cands = []
                if val.size == prob.y.size:      # solved for the increment
                    inc = val.reshape(prob.y.shape)
                    Yi = aadd(Y, ascale(d, inc))
                    want = S.emap(T.sub, inc, prob.K(prob.names[imp], S.scalar(ti), Yi, h, t0, t1)).reshape(val.shape)
                    cands.append((inc, Yi, want))
                if val.size == int(np.prod(prob.fshape)):  # solved for the vector field value
                    V = val.reshape(prob.fshape)
                    if prob.kind == "cde":
                        dx = ufT("dX", (2,), t0, t1)
                        inc = arr(*[T.add(T.mul(V[q, 0], dx[0]), T.mul(V[q, 1], dx[1])) for q in range(2)])
                    else:
                        inc = ascale(h, V)
                    Yi = aadd(Y, ascale(d, inc))
                    want = S.emap(T.sub, V, prob.F(prob.names[imp], S.scalar(ti), Yi)).reshape(val.shape)
                    cands.append((inc, Yi, want))
                inc, Yi, want = next((c for c in cands if same_ring(res, c[2])), cands[0])
                K[imp][i] = inc
                resid.append((i, res, want))
                Y = Yi
            Y_full = Y
        for k, tb in enumerate(tabs):
            if k == imp:
                continue
            ti = T.add(t, T.mul(T.flt(tb["c"][i]), h))
            K[k][i] = prob.K(prob.names[k], S.scalar(ti), Y, h, t0, t1)
        Ys.append(Y)
    y1 = prob.y
    err = None
    for k, tb in enumerate(tabs):
        for i in range(S_):
            b = T.flt(tb["b"][i])
            if b != 0:
                y1 = aadd(y1, ascale(b, K[k][i]))
            e = T.flt(tb["b_err"][i])
            term = ascale(e, K[k][i])
            err = term if err is None else aadd(err, term)
    return dict(y1=y1, err=err, K=K, resid=resid, Ys=Ys)
