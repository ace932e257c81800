"""C22: discretise-then-optimise gradients are those of the computation that is run"""
from .c17 import *
import optimistix
import jax.random as jr
from . import c09, c10, c11, rk
from .rk import Problem, make, StubRF, UFPath, ExpensiveODE, t as TT, h as HH
from engine.diff import Diff, NoDerivative

FL = "derivative of loop"


def noties(a, also=()):
    """jax averages the derivatives of a minimum (maximum) at a tie; away from ties x == minimum(x, y) says which it is"""
    terms = lambda z: list(T.subterms([v for v in np.asarray(z, dtype=object).reshape(-1) if isinstance(v, T.Term)]))
    sub = lambda z: S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, np.asarray(z, dtype=object))
    key = lambda x: x.id if isinstance(x, T.Term) else x
    prem = []
    branches = lambda z, n=0: {z} if not (isinstance(z, T.Term) and z.op == "ite" and n < 6) else branches(z.args[1], n + 1) | branches(z.args[2], n + 1)
    compared = {frozenset((key(p), key(q))) for u in terms(a) + terms(also) if u.op in ("lt", "le") for p in branches(u.args[0]) for q in branches(u.args[1])}
    for _ in range(20):
        sm = {}
        for t in terms(a):
            if t.op != "eq":
                continue
            if frozenset((key(t.args[0]), key(t.args[1]))) in compared:
                sm[t] = False
                prem.append(T.not_(t))
                continue
            for x, m in (t.args, t.args[::-1]):
                if isinstance(m, T.Term) and m.op == "ite":
                    sm[t] = T.ite(m.args[0], T.eq(x, m.args[1]), T.eq(x, m.args[2]))
                    break
        if not sm:
            break
        a = sub(a)
    return np.asarray(a, dtype=object), prem



def same_deriv(ck, name, fn, got, want, prem=()):
    g, p = noties(got, want)
    return ck.equal_arr(name, fn, g, want, list(prem) + p)


isarr = lambda x: isinstance(x, np.ndarray)
leavesof = lambda x: jtu.tree_leaves(x, is_leaf=isarr)


def begin22(ck):
    begin_loop(ck)
    ck.assume("away from ties of a minimum, maximum or absolute value and from the boundaries between the branches of a condition (where a derivative need not exist)",
              "jax transposes the forward-mode derivatives proved here into reverse-mode ones; equinox's checkpointed while loop differentiates a loop with "
              "the given body and condition as a plain one (its documented condition on buffers is an obligation here)")


def one_loop(tag, **kw):
    """the whole solve: what each iteration does to derivatives is the derivative of what each iteration does"""
    def go(ck):
        begin22(ck)
        vc = LoopVC(jvp=True, **kw)
        special = {v: Diff()(b) for v, b in vc.floor_base.items()}
        prem = [vc.order] + vc.requires if vc.backward is not None else vc.requires
        implicit_derivatives(vc.early + vc.notes + vc.late, special)
        D = Diff(special=special)
        for part, prim, dd in (("initialisation", vc.init, vc.dinit), ("iteration", vc.post, vc.dpost)):
            lv = jtu.tree_flatten_with_path(prim, is_leaf=isarr)[0]
            ck.fact(f"{tag}.{part}: every real number of the state is differentiated", FL, len(dd) == len(vc.floats), "", "extraction")
            for d, i in zip(dd, vc.floats):
                same_deriv(ck, f"{tag}.{part}: derivative of state{jtu.keystr(lv[i][0])}", FL, d, D(lv[i][1]), prem)
        for (p, o), d in zip(jtu.tree_flatten_with_path(vc.out, is_leaf=isarr)[0], leavesof(vc.dout)):
            same_deriv(ck, f"{tag}.result: derivative of {jtu.keystr(p)}", FL, d, D(o), prem)
        buffers(ck, tag, vc, prem, kw.get('fix_pre') is not None)
        # -- the loops are ones that can be differentiated in the mode the adjoint is for
        ad = kw["adjoint"]
        kind = {"RecursiveCheckpointAdjoint": "checkpointed", "ForwardMode": "lax", "DirectAdjoint": "bounded"}[type(ad).__name__]
        for info in vc.box[OUTER]:
            ck.fact(f"{tag}: the loop over steps is {kind}", FW_, info["kind"] == kind and info["checkpoints"] == getattr(ad, "checkpoints", None) and info["max_steps"] == vc.max_steps,
                    f"{info['kind']} {info['checkpoints']} {info['max_steps']}", "extraction")
        for info in vc.box.get(INNER, []):
            ck.fact(f"{tag}: the loop over save times is {kind}", FW_, info["kind"] == kind and info["max_steps"] is not None, f"{info['kind']}", "extraction")
    return go


FW_ = "RecursiveCheckpointAdjoint.loop"


def buffers(ck, tag, vc, prem, placed=False):
    """the parts of the state declared write-once are: what has been written is never written again"""
    info = vc.box[OUTER][-1]
    pre, post = (jtu.tree_flatten_with_path(z, is_leaf=isarr)[0] for z in (vc.pre, vc.post))
    at = {jtu.keystr(p): (a, b) for (p, a), (_, b) in zip(pre, post)}
    checked = 0
    for i in info["buffers"]:
        path = jtu.keystr(pre[i][0])
        dense = path.startswith(".dense")
        sub = ".dense_" if dense else max((q for q in at if q.endswith("save_index") and not q.startswith(".dense") and path.startswith(q[:-len("save_index")])), key=len, default="save_index")[:-len("save_index")]
        ipre, ipost = (val(x) for x in at[sub + "save_index"])
        off = int(path == ".dense_ts")
        a, b = pre[i][1], post[i][1]
        if not T.is_c(ipre):
            continue  # any place: the configurations with a place of their own check these buffers
        checked += 1
        for j in range(a.shape[0] if a.ndim else 0):
            for x, y in zip(np.reshape(a[j], (-1,)), np.reshape(b[j], (-1,))):
                if j - off < ipre:
                    ck.valid(f"{tag}: buffer {path}[{j}] is not written again", FB, prem, T.same(x, y))
                elif x is not y:
                    ck.valid(f"{tag}: buffer {path}[{j}] counts as written once it is", FB, prem, T.or_(T.same(x, y), T.lt(j - off, ipost)))
    ck.fact(f"{tag}: buffers are written once", FB, checked > 0 or not placed, f"{checked}", "extraction")


# ---------------------------------------------------------------- the loops over stages: buffers there
class stage_loops:
    """the loops over stages, as plain loops; every stage's buffers are recorded, with anything at all where nothing has been written yet"""
    def __enter__(self):
        import equinox.internal as eqxi
        from . import common
        self.eqxi, self.common = eqxi, common
        self.old, self.oldscan = common.WHILE[0], eqxi.scan
        self.kinds = []

        def garbage(tree):
            return jtu.tree_map(lambda x: note("garbage", x) if jnp.issubdtype(jnp.result_type(x), jnp.floating) else x, tree)

        def wl(orig, cond, body, init, *a, buffers=None, kind=None, max_steps=None, checkpoints=None, **kw):
            self.kinds.append((kind, checkpoints))
            if buffers is not None:
                init = eqx.tree_at(buffers, init, garbage(buffers(init)))

            def b(c):
                out = body(c)
                if buffers is not None:
                    bl, ol = (jtu.tree_leaves(buffers(z)) for z in (c, out))
                    first, td = jtu.tree_flatten(out)
                    first[0] = note("stage", first[0], *bl, *ol)
                    out = jtu.tree_unflatten(td, first)
                return out
            return lax.while_loop(lambda c: jnp.asarray(cond(c)), b, init)

        def scan(f, init, xs, length=None, *, buffers=None, kind=None, checkpoints=None, **kw):
            self.kinds.append((kind, checkpoints))
            if buffers is not None:
                init = eqx.tree_at(buffers, init, garbage(buffers(init)))

            def g(c, x):
                out, y = f(c, x)
                if buffers is not None:
                    bl, ol = (jtu.tree_leaves(buffers(z)) for z in (c, out))
                    first, td = jtu.tree_flatten(out)
                    first[0] = note("stage", first[0], *bl, *ol)
                    out = jtu.tree_unflatten(td, first)
                return out, y
            return lax.scan(g, init, xs, length)
        common.WHILE[0], eqxi.scan = wl, scan
        return self

    def __exit__(self, *a):
        self.common.WHILE[0], self.eqxi.scan = self.old, self.oldscan


def stage_buffers(ck):
    begin22(ck)
    todo = [(n, make(n), Problem(k, 2 if n in rk.IMEX else 1), True) for n in rk.ALL for k in ("ode", "tree")]
    for n, tab in c10.TAB.items():
        todo.append((n, getattr(dfx, n)(), c10.Prob("matrix", tab["additive"], "K" if "aK" in tab else "H"), False))
    for name, solver, p, stateful in todo:
        with error_if_stub():
            st = eqx.filter_eval_shape(lambda y: solver.init(p.term, jnp.asarray(0.0), jnp.asarray(1.0), y, None), p.yex) if stateful else None
        ls, td = jtu.tree_flatten(st)
        ls = [jnp.zeros(x.shape, x.dtype) for x in ls]

        def step(t0, hh, y0, mj, *l):
            y1, err, dense, state, res = solver.step(p.term, t0, t0 + hh, y0, None, jtu.tree_unflatten(td, l), mj)
            return eqx.filter(dict(y1=y1, err=err, dense=dense, state=state), eqx.is_array)
        flags = [i for i, x in enumerate(ls) if x.dtype == bool]
        with stage_loops() as sl, implicit_stub(), error_if_stub():
            e = Extract(step, (0.0, 1.0, p.yex, jnp.asarray(False), *ls))
        fn = f"{name}.step"
        ck.fact(f"{name}.{p.kind}: stages are computed in a checkpointed loop", fn, all(k == "checkpointed" and c is not None for k, c in sl.kinds) and len(sl.kinds) == 1, f"{sl.kinds}", "extraction")
        for mj, first, batch in ((False, True, False), (True, False, False), (False, False, False), (False, False, True)) if flags else ((T.sym("mj", "B"), False, False),):
            sv = [S.scalar(first) if i in flags else S.fresh_like(jax.ShapeDtypeStruct(x.shape, x.dtype), f"st{i}") for i, x in enumerate(ls)]
            if batch:  # another element of the batch needs its first stage
                S.Evaluator.others = staticmethod(lambda kind, sort: kind == "any" if sort == "B" else 0)
            try:
                o, ev = e((TT, HH, p.tree(p.y), mj, *sv))
            finally:
                S.Evaluator.others = None
            nm = f"{name}.{p.kind}" + (f" (jump={mj}, first step={first}{', of another in the batch' if batch else ''})" if flags else "")
            written = {}
            stages = [v for tag, v, _ in ev.notes if tag == "stage"]
            bad = []
            for k, v in enumerate(stages):
                m = len(v) // 2
                for q, (a, b) in enumerate(zip(v[:m], v[m:])):
                    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
                    for j in range(a.shape[0] if a.ndim else 0):
                        x, y = a[j].reshape(-1) if isinstance(a[j], np.ndarray) else [a[j]], b[j].reshape(-1) if isinstance(b[j], np.ndarray) else [b[j]]
                        blank = all(isinstance(z, T.Term) and z.op == "sym" and z.name.startswith("garbage") for z in x)
                        if any(z is not w for z, w in zip(x, y)):
                            if not blank or (q, j) in written:
                                bad.append((k, q, j))
                            written[(q, j)] = k
            ck.fact(f"{nm}: no stage is written twice", fn, not bad and len(stages) > 0, f"stage, buffer, place: {bad[:5]} of {len(stages)} stages", "extraction")
            left = sorted({v.name for v in T.subterms([v for l in leavesof(o) for v in np.reshape(l, (-1,)) if isinstance(v, T.Term)]) if v.op == "sym" and v.name.startswith("garbage")})
            ck.fact(f"{nm}: nothing is read before it is written", fn, not left, f"{left[:4]}", "extraction")


RC = dfx.RecursiveCheckpointAdjoint


def at_index(i, k):
    def fix(st, init):
        if not jtu.tree_leaves(st.save_state, is_leaf=issave):
            return st
        ss = [type(z)(saveat_ts_index=S.scalar(i), ts=z.ts, ys=z.ys, save_index=S.scalar(k)) for z in jtu.tree_leaves(st.save_state, is_leaf=issave)]
        return eqx.tree_at(lambda z: z.save_state, st, jtu.tree_unflatten(jtu.tree_structure(st.save_state, is_leaf=issave), ss))
    return dict(fix_pre=fix, fix_exit=fix)


def dense_index(k):
    fix = lambda st, init: eqx.tree_at(lambda z: z.dense_save_index, st, S.scalar(k))
    return dict(fix_pre=fix, fix_exit=fix)


# ---------------------------------------------------------------- derivatives of any function of arrays
class implicit_stub:
    """optimistix.root_find by contract: some root (of whatever it is given), differentiated by the implicit function theorem"""
    def __enter__(self):
        self.old = optimistix.root_find

        def stub(fn, solver, y0, args=None, options=None, **kw):
            ins = [jnp.asarray(x) for x in jtu.tree_leaves(eqx.filter((options, args, y0), eqx.is_array))]
            lv, td = jtu.tree_flatten(jax.eval_shape(lambda: y0))
            flat = lambda z: jnp.concatenate([jnp.reshape(x, (-1,)) for x in jtu.tree_leaves(z)])
            n = sum(int(np.prod(l.shape)) for l in lv)
            v = lax.stop_gradient(uf("root", sds((n,)), *ins))
            un = lambda f: jtu.tree_unflatten(td, [jnp.reshape(f[k:k + int(np.prod(l.shape))], l.shape) for l, k in zip(lv, np.cumsum([0] + [int(np.prod(l.shape)) for l in lv]))])
            r = flat(fn(un(v), args))
            inv = uf("root_inv", sds((n, r.size)), *[lax.stop_gradient(z) for z in ins])
            w = v - jnp.sum(inv * (r - lax.stop_gradient(r)), axis=1)
            w = note("implicit", w, v, inv, r)
            ok = uf("rootok", sds((), "bool"), *ins)
            return ox_solution(un(w), optx.RESULTS.where(ok, optx.RESULTS.successful, optx.RESULTS.nonlinear_max_steps_reached))
        optimistix.root_find = stub

    def __exit__(self, *a):
        optimistix.root_find = self.old


def ox_solution(value, result):
    return optx.Solution(value=value, result=result, aux=None, stats={}, state=None)


def derivatives(ck, tag, fn_name, fn, ex, vals, prem=(), cases=((),), only=None, evkw={}):
    """fn: arrays -> pytree of arrays; jax's derivative of it in every real input is the formal derivative of what it computes"""
    isf = lambda x: jnp.issubdtype(jnp.result_type(x), jnp.floating)
    lv, td = jtu.tree_flatten(ex)
    fl = [i for i, l in enumerate(lv) if isf(l)]
    box = {}

    def go(prim, tan):
        p = jtu.tree_leaves(prim)

        def g(fs):
            q = list(p)
            for i, x in zip(fl, fs):
                q[i] = x
            o, otd = jtu.tree_flatten(eqx.filter(fn(*jtu.tree_unflatten(td, q)), eqx.is_array))
            box["td"] = otd
            return o
        o, do = jax.jvp(g, ([jnp.asarray(p[i], dtype=float) for i in fl],), (list(tan),))
        return jtu.tree_unflatten(box["td"], o), [d if isf(x) else jnp.asarray(0.) for x, d in zip(o, do)]
    vl = leavesof(vals)
    vl = [v if isarr(v) else S.scalar(v) for v in vl]
    with implicit_stub(), error_if_stub():
        e = Extract(go, (jtu.tree_map(jnp.asarray, ex), [jnp.asarray(lv[i], dtype=float) for i in fl]))
    D0 = Diff()
    (o, do), ev = e((jtu.tree_unflatten(td, vl), [D0(vl[i]) for i in fl]), **evkw)
    special = {}
    implicit_derivatives(ev.notes, special)
    D = Diff(special=special) if only is None else Diff(lambda x: T.sym("d." + x.name) if x in only else Fr(0), special)
    n = 0
    for (path, a), d in zip(jtu.tree_flatten_with_path(o, is_leaf=isarr)[0], do):
        if not any(T.sort_of(v) == "R" for v in np.asarray(a, dtype=object).reshape(-1)):
            continue
        n += 1
        for pc in cases:
            w = D(a)
            if pc:
                d_, w = (S.emap(lambda v: core.under(v, list(pc)) if isinstance(v, T.Term) else v, z) for z in (d, w))
            else:
                d_ = d
            same_deriv(ck, f"{tag}: derivative of {jtu.keystr(path)}" + (f" {[T.show(c) for c in pc]}" if pc else ""), fn_name, d_, w, list(prem) + list(pc))
    ck.fact(f"{tag}: there are derivatives", fn_name, n > 0, f"{n} real outputs", "extraction")


# ---------------------------------------------------------------- every solver's step
def step_of(ck, tag, solver, term, yex, y, stateless=False, **kw):
    """one step, from any solver state, and the initial state"""
    with error_if_stub():
        st = None if stateless else eqx.filter_eval_shape(lambda y: solver.init(term, jnp.asarray(0.0), jnp.asarray(1.0), y, None), yex)
    ls, td = jtu.tree_flatten(st)
    ls = [jnp.zeros(x.shape, x.dtype) if hasattr(x, "dtype") else x for x in ls]

    def step(t0, hh, y0, mj, *l):
        y1, err, dense, state, res = solver.step(term, t0, t0 + hh, y0, None, jtu.tree_unflatten(td, l), mj)
        return dict(y1=y1, err=err, dense=dense, state=state)
    sv = [S.fresh_like(jax.ShapeDtypeStruct(jnp.shape(x), jnp.result_type(x)), f"st{i}") for i, x in enumerate(ls)]
    flags = [i for i, x in enumerate(ls) if x.dtype == bool]
    # which stages are run depends on the flags: the first step, one after a discontinuity and any other
    for what, mj, first in (("", T.sym("mj", "B"), None),) if not flags else ((", first step", False, True), (", after a discontinuity", True, False), ("", False, False)):
        sw = [S.scalar(first) if i in flags else v for i, v in enumerate(sv)]
        derivatives(ck, tag + what, f"{type(solver).__name__}.step", step, (0.0, 1.0, yex, jnp.asarray(False), *ls), (TT, HH, y, mj, *sw), **kw)


def rk_steps(names, kinds):
    def sec(ck):
        begin22(ck)
        for name in names:
            for kind in kinds:
                p = Problem(kind, 2 if name in rk.IMEX else 1)
                step_of(ck, f"{name}.{kind}", make(name, scan_kind="lax"), p.term, p.yex, p.tree(p.y))
    return sec


def other_steps(ck):
    begin22(ck)
    for kind, p in (("ode", Problem("ode")), ("tree", Problem("tree")), ("cde", Problem("cde")), ("sde", c09.Multi())):
        for s in (dfx.Euler(), dfx.LeapfrogMidpoint(), dfx.ReversibleHeun(), dfx.ImplicitEuler(root_finder=StubRF()), dfx.EulerHeun(), dfx.ItoMilstein(), dfx.StratonovichMilstein()):
            nm = type(s).__name__
            if (nm in ("EulerHeun", "ItoMilstein", "StratonovichMilstein")) != (kind == "sde") and nm not in ("Euler", "ReversibleHeun"):
                continue
            if "Milstein" in nm:
                continue
            step_of(ck, f"{nm}.{kind}", s, p.term, p.yex, p.tree(p.y))
    s = dfx.SemiImplicitEuler()
    term = (dfx.ODETerm(lambda tt, y, a: uf("f", sds((2,)), tt, y)), dfx.ODETerm(lambda tt, y, a: uf("g", sds((2,)), tt, y)))
    step_of(ck, "SemiImplicitEuler", s, term, (jnp.ones(2), jnp.ones(2)), (symarr("q", (2,)), symarr("p", (2,))))
    p = Problem("tree")
    step_of(ck, "HalfSolver(Bosh3)", dfx.HalfSolver(dfx.Bosh3(scan_kind="lax")), p.term, p.yex, p.tree(p.y))


def sde_steps(ck):
    begin22(ck)
    for name, tab in c10.TAB.items():
        kind = "K" if "aK" in tab else "H"
        for pk in ("matrix", "scalar"):
            p = c10.Prob(pk, tab["additive"], kind)
            step_of(ck, f"{name}.{pk}", getattr(dfx, name)(scan_kind="lax"), p.term, p.yex, p.tree(p.y), stateless=True)
    for s in (dfx.ItoMilstein(), dfx.StratonovichMilstein()):
        p = c10.Prob("scalar", False, "W")
        step_of(ck, f"{type(s).__name__}", s, p.term, p.yex, p.tree(p.y))


def langevin(name):
    def sec(ck):
        begin22(ck)
        for kind in ("scalar", "vector"):
            p = c11.LProb(kind)
            solver = getattr(dfx, name)()

            def f(tt, hh, h_prev, x, v, g, u, mj):
                tm = p.terms(g, u, "H" if name == "ALIGN" else "K")
                st = solver.init(tm, tt - h_prev, tt, (x, v), 0.0)
                y1, err, dense, st1, res = solver.step(tm, tt, tt + hh, (x, v), 0.0, st, mj)
                return dict(y1=y1, err=err, dense=dense, st1=st1)
            pos = [T.lt(0, g) for g in p.g] + [T.lt(0, u) for u in p.u] + [T.ne(HH, 0), T.ne(c11.hp, 0)]
            derivatives(ck, f"{name}.{kind}", f"{name}.step", f, (0.0, 1.0, 1.0, p.xex, p.xex, p.gex, p.gex, jnp.asarray(False)),
                        (TT, HH, c11.hp, p.tree(p.x), p.tree(p.v), p.tree(p.g, True), p.tree(p.u, True), T.sym("mj", "B")), pos)
    return sec


# ---------------------------------------------------------------- controllers
class CtrlInner(dfx.AbstractAdaptiveStepSizeController):
    rtol: float = 1.0
    atol: float = 1.0
    norm: object = eqx.field(static=True, default=None)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + uf("init_dt", sds(), t0, y0), uf("init_cs", sds((2,)), t0, y0)

    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, cs):
        i = (t0, t1, y0, y1, err, cs)
        return uf("keep", sds((), "bool"), *i), uf("n0", sds(), *i), uf("n1", sds(), *i), uf("mj", sds((), "bool"), *i), uf("cs", sds((2,)), *i), RES.successful


def controllers(ck):
    """how the times of the next step depend on the numbers a controller is given"""
    begin22(ck)
    ck.assume("as documented, an adaptive step size is differentiated with the factor by which a step grows or shrinks held fixed (and an automatic first step size held fixed)")
    s = lambda n, srt="R": T.sym(n, srt)
    f = jnp.asarray(1.0)
    for tag, c, in (("constant", dfx.ConstantStepSize()),):
        def fn(t0, t1, y0, y1, cs):
            k, a, b, mj, st, r = c.adapt_step_size(t0, t1, y0, y1, None, None, 1.0, cs)
            return dict(t0=a, t1=b, state=st)
        i4 = jnp.asarray(1, jnp.int32)
        for inf in (False, True):
            derivatives(ck, f"{tag}, {'no end' if inf else 'an end'}", "ConstantStepSize.adapt_step_size", fn, (f, f, f, f, (i4, i4, f, f, f)),
                        (s("t0"), s("t1"), s("y0"), s("y1"), (s("k", "I"), -1 if inf else s("n", "I"), s("sim0"), s("sim1"), s("per"))), [T.ne(s("per"), 0)] + ([] if inf else [T.le(1, s("n", "I"))]))

        def fi(t0, t1, y0, dt):
            return c.init(None, t0, t1, y0, dt, None, None, 1.0)
        derivatives(ck, tag + " init", "ConstantStepSize.init", fi, (f, f, f, f), (s("t0"), s("t1"), s("y0"), s("dt")), [T.lt(0, s("dt")), T.lt(s("t0"), s("t1"))])
    ts = symarr("ts", (4,))

    def fs(ts, t0, t1, i):
        c = eqx.tree_at(lambda z: z.ts, dfx.StepTo(jnp.arange(4.)), ts)
        k, a, b, mj, st, r = c.adapt_step_size(t0, t1, 0.0, 0.0, None, None, 1.0, i)
        return dict(t0=a, t1=b, state=st)
    for i in (1, 2, 3):
        derivatives(ck, f"StepTo, step {i}", "StepTo.adapt_step_size", fs, (jnp.arange(4.), f, f, jnp.asarray(1)), (ts, s("t0"), s("t1"), i))
    for kw in (dict(), dict(pcoeff=0.2, dcoeff=0.1, icoeff=0.5), dict(dtmin=0.125, dtmax=2.0), dict(dtmin=0.125, force_dtmin=False)):
        c = dfx.PIDController(rtol=0.25, atol=0.5, norm=lambda x: jnp.max(jnp.abs(x)) if kw else optx.rms_norm(x), **kw)

        def fp(t0, t1, y0, y1, e, st):
            k, a, b, mj, st, r = c.adapt_step_size(t0, t1, y0, y1, None, e, 5.0, st)
            return dict(t0=a, t1=b)
        a, b = s("t0"), s("t1")
        derivatives(ck, f"PID {kw}", "PIDController.adapt_step_size", fp, (f, f, f, f, f, (f, f, jnp.asarray(False))), (a, b, s("y0"), s("y1"), s("err"), (s("e1"), s("e2"), s("atmin", "B"))),
                    [T.lt(a, b)], only=(a, b))

        def fi(t0, t1, y0, dt):
            return c.init(None, t0, t1, y0, dt, None, None, 5.0)[0]
        derivatives(ck, f"PID {kw} init", "PIDController.init", fi, (f, f, f, f), (a, b, s("y0"), s("dt")))
    term = dfx.ODETerm(lambda t, y, args: uf("vf", sds(), t, y))
    c = dfx.PIDController(rtol=0.25, atol=0.5)
    fi = lambda t0, t1, y0: c.init(term, t0, t1, y0, None, None, dfx.Tsit5().func, 5.0)[0]
    automatic(ck, fi)
    import diffrax._step_size_controller.clip as clipmod
    S_, J_, R_ = symarr("s", (2,)), symarr("j", (2,)), symarr("r", (2,))
    for hints in ((0, 0), (1, 2), (2, 1)):
        def fc(t0, t1, y0, y1, e, cs, S_, J_, R_):
            c = dfx.ClipStepSizeController(CtrlInner(), store_rejected_steps=2)
            st = clipmod._ClipState((jnp.asarray(hints[0]), S_), (jnp.asarray(hints[1]), J_), (jnp.asarray(1), R_), cs)
            k, a, b, mj, st, r = c.adapt_step_size(t0, t1, y0, y1, None, e, 5.0, st)
            return dict(t0=a, t1=b, state=st.inner_state, stored=st.reject_info[1])
        derivatives(ck, f"Clip {hints}", "ClipStepSizeController.adapt_step_size", fc, (f, f, f, f, f, jnp.ones(2), jnp.ones(2), jnp.ones(2), jnp.ones(2)),
                    (s("t0"), s("t1"), s("y0"), s("y1"), s("err"), symarr("cs", (2,)), S_, J_, R_), evkw=dict(sym_unroll=[]))

    def fci(t0, t1, y0, S_, J_):
        c = dfx.ClipStepSizeController(CtrlInner(), jnp.arange(2.), jnp.arange(2.))
        c = eqx.tree_at(lambda z: (z.step_ts, z.jump_ts), c, (S_, J_))
        return c.init(None, t0, t1, y0, jnp.asarray(1.0), None, None, 5.0)[0]
    derivatives(ck, "Clip init", "ClipStepSizeController.init", fci, (f, f, f, jnp.ones(2), jnp.ones(2)), (s("t0"), s("t1"), s("y0"), S_, J_))


def automatic(ck, fi):
    """a first step size chosen automatically is held fixed"""
    f = jnp.asarray(1.0)
    go = lambda t0, t1, y0, d0, d1, dy: jax.jvp(fi, (t0, t1, y0), (d0, d1, dy))
    o, _ = run(go, (f,) * 6, tuple(S.scalar(T.sym(n)) for n in ("t0", "t1", "y0", "d.t0", "d.t1", "d.y0")))
    ck.equal("PID init without dt0: moves along with the start", "PIDController.init", val(o[1]), T.sym("d.t0"))


# ---------------------------------------------------------------- dense output and interpolated data
def interpolation(ck):
    begin22(ck)
    f = jnp.asarray(1.0)
    s = lambda n: S.scalar(T.sym(n))
    from diffrax import _local_interpolation as L
    kx, k = jnp.ones((5, 2)), symarr("k", (5, 2))
    v = lambda n: symarr(n, (2,))

    class Q(L.FourthOrderPolynomialInterpolation):
        c_mid = np.array([1 / 4, 3 / 8, -1 / 2, 5 / 8, 7 / 16])
    o = jnp.ones(2)
    loc = [("linear", lambda a, b, i: L.LocalLinearInterpolation(t0=a, t1=b, y0=i[0], y1=i[1]), (o, o), (v("y0"), v("y1"))),
           ("cubic", lambda a, b, i: L.ThirdOrderHermitePolynomialInterpolation(t0=a, t1=b, y0=i[0], y1=i[1], k0=i[2], k1=i[3]), (o,) * 4, tuple(v(n) for n in ("y0", "y1", "k0", "k1"))),
           ("cubic from stages", lambda a, b, i: L.ThirdOrderHermitePolynomialInterpolation.from_k(t0=a, t1=b, y0=i[0], y1=i[1], k=i[2]), (o, o, kx), (v("y0"), v("y1"), k)),
           ("quartic", lambda a, b, i: Q(t0=a, t1=b, y0=i[0], y1=i[1], k=i[2]), (o, o, kx), (v("y0"), v("y1"), k))]
    for nm, mk, ex, vs in loc:
        def fl(a, b, q, r, i):
            I = mk(a, b, i)
            return dict(v=I.evaluate(q), inc=I.evaluate(q, r), d=I.derivative(q))
        derivatives(ck, nm, type(mk(0.0, 1.0, ex)).__name__, fl, (f, f, f, f, ex), (s("a"), s("b"), s("q"), s("r"), vs), [T.lt(T.sym("a"), T.sym("b"))])
    ts = symarr("ts", (3,))
    inc = [T.lt(ts[0], ts[1]), T.lt(ts[1], ts[2])]
    for cls, n, m in ((dfx.LinearInterpolation, 3, 1), (dfx.CubicInterpolation, 2, 4)):
        def fg(t, cs, q, r):
            I = cls(t, cs[0]) if m == 1 else cls(t, tuple(cs))
            return dict(v=I.evaluate(q), i=I.evaluate(q, r, left=False), d=I.derivative(q))
        derivatives(ck, cls.__name__, cls.__name__, fg, (jnp.arange(3.), [jnp.ones((n, 2))] * m, f, f), (ts, [symarr(f"c{j}", (n, 2)) for j in range(m)], s("q"), s("r")), inc)

    def fd(t0, t1, ts, y0, y1, q, r):
        I = dfx.DenseInterpolation(ts=ts, ts_size=jnp.asarray(3), infos=dict(y0=y0, y1=y1), interpolation_cls=L.LocalLinearInterpolation, direction=jnp.asarray(1), t0_if_trivial=t0, y0_if_trivial=y0[0])
        return dict(v=I.evaluate(q), i=I.evaluate(q, r), d=I.derivative(q))
    derivatives(ck, "DenseInterpolation", "DenseInterpolation", fd, (f, f, jnp.arange(3.), jnp.ones((2, 2)), jnp.ones((2, 2)), f, f),
                (s("t0"), s("t1"), ts, symarr("a", (2, 2)), symarr("b", (2, 2)), s("q"), s("r")), inc + [x for n in "qr" for x in (T.le(ts[0], T.sym(n)), T.le(T.sym(n), ts[2]))])


# ---------------------------------------------------------------- terms
def terms_(ck):
    begin22(ck)
    f = jnp.asarray(1.0)
    for kind in ("ode", "tree", "cde"):
        p = Problem(kind)

        def fn(t0, t1, y):
            c = p.term.contr(t0, t1)
            return dict(vf=p.term.vf(t0, y, None), contr=c, vf_prod=p.term.vf_prod(t0, y, None, c), prod=p.term.prod(p.term.vf(t1, y, None), c))
        derivatives(ck, f"term {kind}", type(p.term).__name__, fn, (f, f, p.yex), (S.scalar(TT), S.scalar(T.sym("t1")), p.tree(p.y)))
    p = c09.Multi()

    def fm(t0, t1, y):
        c = p.term.contr(t0, t1)
        w = dfx._term.WrapTerm(p.term, jnp.asarray(-1))
        cw = w.contr(t0, t1)
        return dict(vf_prod=p.term.vf_prod(t0, y, None, c), vf=p.term.vf(t0, y, None), prod=p.term.prod(p.term.vf(t1, y, None), c), wrapped=w.vf_prod(t0, y, None, cw), wp=w.prod(w.vf(t0, y, None), cw))
    derivatives(ck, "terms multi and wrapped", "MultiTerm", fm, (f, f, p.yex), (S.scalar(TT), S.scalar(T.sym("t1")), p.tree(p.y)))
    for kind in ("scalar", "vector"):
        p = c11.LProb(kind)

        def fu(tt, hh, x, v, g, u, w):
            tm = p.terms(g, u, "H")
            out = {}
            for n, z in zip("ab", tm.terms):
                c = z.contr(tt, tt + hh) if n == "a" else w
                out[n] = dict(vf=z.vf(tt, (x, v), 0.0), prod=z.prod(z.vf(tt, (x, v), 0.0), c), vf_prod=z.vf_prod(tt, (x, v), 0.0, c))
            return out
        pos = [T.lt(0, g) for g in p.g] + [T.lt(0, u) for u in p.u]
        derivatives(ck, f"terms Langevin {kind}", "UnderdampedLangevinDriftTerm", fu, (f, f, p.xex, p.xex, p.gex, p.gex, p.xex),
                    (S.scalar(TT), S.scalar(HH), p.tree(p.x), p.tree(p.v), p.tree(p.g, True), p.tree(p.u, True), p.tree(p.v)), pos)


EV = [("g", None, False), ("b", None, True), ("h", True, False)]
EV1 = [("g", False, False)]
states = dict(saveat=lambda ts: dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True), pass_state=("solver", "controller", "made_jump"))
SECTIONS = [
    ("loop t1", one_loop("t1", backward=False, adjoint=RC())),
    ("loop t1, backward, checkpoints=3", one_loop("t1(bwd)", backward=True, adjoint=RC(checkpoints=3))),
    ("loop states", one_loop("states", backward=False, adjoint=RC(), **states)),
    ("loop automatic dt0", one_loop("dt0=None", backward=True, dt0=False, adjoint=RC(checkpoints=1))),
    ("loop ts", one_loop("ts", backward=False, adjoint=RC(), nts=M, saveat=lambda ts: dfx.SaveAt(ts=ts, t0=True, t1=True, fn=ufn("fn")), **at_index(1, 2))),
    ("loop ts, backward", one_loop("ts(bwd)", backward=True, adjoint=RC(checkpoints=2), nts=M, saveat=lambda ts: dfx.SaveAt(ts=ts), **at_index(0, 0))),
    ("loop steps", one_loop("steps", backward=False, adjoint=RC(), saveat=lambda ts: dfx.SaveAt(steps=2, t1=True, fn=ufn("fn")), **at_index(0, 2))),
    ("loop subs", one_loop("subs", backward=True, adjoint=RC(), nts=M, saveat=lambda ts: dfx.SaveAt(subs=[
        dfx.SubSaveAt(ts=ts, fn=ufn("fn")), dict(a=dfx.SubSaveAt(t1=True), b=dfx.SubSaveAt(steps=1, t0=True))]), **at_index(1, 1))),
    ("loop dense", one_loop("dense", backward=False, adjoint=RC(), saveat=lambda ts: dfx.SaveAt(dense=True), **dense_index(2))),
    ("loop event", one_loop("event", backward=False, adjoint=RC(), event=mk_event(EV))),
    ("loop event root finder", one_loop("event(root)", backward=False, adjoint=RC(), event=mk_event(EV1, StubRF()))),
    ("loop event root finder, backward, several", one_loop("event(root,bwd)", backward=True, adjoint=RC(checkpoints=2), event=mk_event(EV, StubRF()))),
]
SECTIONS += [
    ("loop forward mode", one_loop("ForwardMode", backward=False, adjoint=dfx.ForwardMode(), nts=M, saveat=lambda ts: dfx.SaveAt(ts=ts, steps=1), **at_index(1, 1))),
    ("loop direct", one_loop("DirectAdjoint", backward=True, adjoint=dfx.DirectAdjoint(), nts=M, saveat=lambda ts: dfx.SaveAt(ts=ts, t1=True), **at_index(2, 2))),
    ("stage buffers", stage_buffers),
    ("controllers", controllers), ("interpolation", interpolation), ("terms", terms_),
    ("step explicit RK", rk_steps(rk.EXPLICIT, ("ode", "tree"))),
    ("step explicit RK cde", rk_steps(("Heun", "Midpoint"), ("cde",))),
    ("step explicit RK expensive", rk_steps(("Bosh3", "Tsit5"), ("expensive",))),
    ("step implicit RK", rk_steps(rk.IMPLICIT, ("ode",))),
    ("step implicit RK expensive", rk_steps(("Kvaerno3",), ("expensive",))),
    ("step IMEX RK", rk_steps(rk.IMEX, ("ode",))),
    ("step other", other_steps),
    ("step SDE", sde_steps),
    ("step ALIGN", langevin("ALIGN")), ("step ShOULD", langevin("ShOULD")), ("step QUICSORT", langevin("QUICSORT")),
]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """gradients against difference quotients of the same computation, with the times of the steps held fixed"""
    from jax.flatten_util import ravel_pytree
    key = jr.PRNGKey(int(rng.integers(2 ** 31)))
    A, B = np.array([[-0.6, 1.1], [-0.9, -0.4]]), np.array([0.7, -1.2])
    vf = lambda t, y, a: jnp.tanh(jnp.asarray(A) @ y + a * jnp.cos(3 * t)) + 0.3 * a * y
    rf = optx.Newton(rtol=1e-9, atol=1e-9, norm=optx.max_norm)
    vbt = lambda la, shape=(2,): dfx.VirtualBrownianTree(-0.5, 2.5, 1e-3, shape, key, levy_area=la)
    ode = dfx.ODETerm(vf)
    add = lambda: dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: jnp.eye(2) * (0.5 + 0.1 * a), vbt(dfx.SpaceTimeLevyArea)))
    mult = lambda la: dfx.MultiTerm(ode, dfx.WeaklyDiagonalControlTerm(lambda t, y, a: 0.3 * jnp.sin(y) * a + 0.2, vbt(la)))
    com = lambda la: dfx.MultiTerm(ode, dfx.ControlTerm(lambda t, y, a: 0.3 * jnp.sin(y) * a + 0.2, vbt(la, ())))
    lang = lambda la: dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(jnp.asarray(0.8), jnp.asarray(0.6), lambda x, args: args * x + 0.2 * x ** 3), dfx.UnderdampedLangevinDiffusionTerm(jnp.asarray(0.8), jnp.asarray(0.6), vbt(la)))
    split = dfx.MultiTerm(ode, dfx.ODETerm(lambda t, y, a: -1.5 * y + a * jnp.sin(y)))
    dts = jnp.linspace(0.0, 3.0, 13)
    data = dfx.CubicInterpolation(dts, dfx.backward_hermite_coefficients(dts, jnp.stack([jnp.sin(2 * dts), jnp.cos(dts)], 1)))
    cde = dfx.ControlTerm(lambda t, y, a: jnp.outer(jnp.tanh(y), jnp.array([1., 0.5])) * a, data)
    SA = [dict(t1=True), dict(t0=True, ts=1, t1=True), dict(steps=True), dict(dense=True), dict(subs=1)]
    STL = dfx.SpaceTimeTimeLevyArea
    runs = [(dfx.Tsit5(), ode, 1), (dfx.Dopri8(), ode, 3), (dfx.Kvaerno5(root_finder=rf), ode, 2), (dfx.KenCarp4(root_finder=rf), split, 1), (dfx.Ralston(), cde, 4), (dfx.ReversibleHeun(), ode, 0),
            (dfx.SPaRK(), mult(dfx.SpaceTimeLevyArea), 1), (dfx.ShARK(), add(), 3), (dfx.QUICSORT(), lang(STL), 1), (dfx.ImplicitEuler(root_finder=rf), ode, 4), (dfx.LeapfrogMidpoint(), ode, 1),
            (dfx.Bosh3(), "event", 0), (dfx.SlowRK(), com(dfx.SpaceTimeLevyArea), 2), (dfx.ALIGN(), lang(dfx.SpaceTimeLevyArea), 3), (dfx.StratonovichMilstein(), com(dfx.BrownianIncrement), 1), (dfx.SRA1(), add(), 0),
            (dfx.Sil3(root_finder=rf), split, 3), (dfx.HalfSolver(dfx.Heun()), cde, 0), (dfx.Dopri5(), "event", 2), (dfx.ShOULD(), lang(STL), 2), (dfx.GeneralShARK(), mult(dfx.SpaceTimeLevyArea), 3), (dfx.SEA(), add(), 2),
            (dfx.Kvaerno3(root_finder=rf), "event", 1), (dfx.Euler(), ode, 3), (dfx.EulerHeun(), mult(dfx.BrownianIncrement), 4)]
    first = int(rng.integers(2)) if effort == 1 else 0
    todo = runs[:12] if effort == 1 else runs
    for trial, (solver, term, kind) in enumerate(todo):
        is_event = isinstance(term, str)
        adaptive = isinstance(solver, dfx.AbstractAdaptiveSolver) and not is_event and (trial + first) % 2 == 0 and term in (ode, split, cde)
        tm = ode if is_event else term
        isl = type(solver).__name__ in ("QUICSORT", "ALIGN", "ShOULD")
        ev = dfx.Event(lambda t, y, args, **kw: y[0] + 0.7 - 0.8 * t, optx.Newton(1e-12, 1e-12)) if is_event else None
        cks = [None, 1, 2, 3][(trial + first) % 4]
        sgn = 1.0 if (trial + first) % 3 or tm is not ode or is_event else -1.0
        own = kind != 2

        def loss(p, ctrl, adj, full=False):
            y0, a, t0, t1, ts = p
            sub = dict(a=dfx.SubSaveAt(ts=ts, fn=lambda t, y, args: jtu.tree_map(lambda v: v * t, y)), b=dfx.SubSaveAt(t1=True, steps=2))
            sa = [dfx.SaveAt(t1=True), dfx.SaveAt(t0=True, ts=ts, t1=True), dfx.SaveAt(steps=True), dfx.SaveAt(dense=True), dfx.SaveAt(subs=sub)][kind]
            if full:
                sa = dfx.SaveAt(steps=True)
            y = (y0, y0[::-1] * 0.5) if isl else y0
            sol = dfx.diffeqsolve(tm, solver, t0, t1, None if isinstance(ctrl, dfx.StepTo) else sgn * 0.17, y, a, saveat=sa, adjoint=adj, stepsize_controller=ctrl, max_steps=256, event=ev)
            if full:
                return sol
            out = (jax.vmap(lambda t: (sol.evaluate(t), sol.derivative(t)))(ts), sol.evaluate(ts[0], ts[1])) if kind == 3 else (sol.ys, sol.ts if kind != 2 else ())
            fin = lambda x: jnp.where(jnp.isfinite(x), x, 0.0)
            return sum(jnp.sum(jnp.sin(fin(v) + 0.3) * jnp.arange(1., v.size + 1).reshape(v.shape)) for v in jtu.tree_leaves(out)) / 5
        t0, t1 = sgn * float(rng.uniform(0, 0.2)), sgn * float(rng.uniform(1.4, 1.7))
        p = (jnp.asarray(rng.uniform(0.2, 0.9, size=2)), jnp.asarray(float(rng.uniform(0.6, 1.4))), jnp.asarray(t0), jnp.asarray(t1), jnp.asarray(t0 + (t1 - t0) * np.array([0.23, 0.58, 0.91])))
        if is_event:
            p = p[:4] + (p[4] * 0.05 + 0.95 * t0,)
        ctrl = dfx.PIDController(1e-4, 1e-4) if adaptive else dfx.ConstantStepSize()
        name = f"{type(solver).__name__}, kind {kind}{', adaptive' if adaptive else ''}{', event' if is_event else ''}, checkpoints={cks}"
        smooth = tm in (ode, split, cde)
        hold = lambda p: p if smooth else p[:2] + jtu.tree_map(lax.stop_gradient, p[2:])  # a Brownian path has no derivative in time
        g = jax.jit(jax.grad(lambda p: loss(hold(p), ctrl, dfx.RecursiveCheckpointAdjoint(checkpoints=cks))))(p)
        # the parameters the times of the steps do not depend on
        d = jtu.tree_map(lambda x: jnp.asarray(rng.normal(size=x.shape)), p)
        off = lambda v: jtu.tree_map(jnp.zeros_like, v)
        ctl = ctrl
        if adaptive:
            st = loss(p, ctrl, dfx.RecursiveCheckpointAdjoint(), True)
            ctl = dfx.StepTo(jnp.concatenate([p[2][None], st.ts[:int(st.stats["num_accepted_steps"])]]))
            d = (d[0], d[1], off(d[2]), off(d[3]), d[4])
        elif not smooth:
            d = (d[0], d[1], off(d[2]), off(d[3]), off(d[4]))
        h = 1e-6
        F = jax.jit(lambda p: loss(p, ctl, dfx.DirectAdjoint() if isinstance(ctl, dfx.StepTo) else dfx.RecursiveCheckpointAdjoint()))
        q = [float(F(jtu.tree_map(lambda x, v: x + s * h * v, p, d))) for s in (1, -1)]
        num, ana = (q[0] - q[1]) / (2 * h), float(ravel_pytree(g)[0] @ ravel_pytree(d)[0])
        yield None if abs(num - ana) <= 2e-6 * (1 + abs(num) + abs(q[0])) else dict(case=name, gradient=ana, difference_quotient=num, p=jtu.tree_map(lambda x: np.asarray(x).tolist(), p),
                                                                                direction=jtu.tree_map(lambda x: np.asarray(x).tolist(), d))


CONCRETE = [("gradients", concrete)]
