"""Extraction of `diffeqsolve`/`loop` for an arbitrary solver, controller, event and output function.

Everything that `diffeqsolve` is parameterised by is a stub that is an *uninterpreted function* of
what it is given, so what is proved holds for every solver/controller/event/fn. The body of the real
loop is extracted once; the loop is handled by the invariant rule: the obligations are about
  init   the carry the real code starts from,
  pre    an arbitrary carry (fresh symbols), post = body(pre) for the real body,
  exit   an arbitrary carry the loop can end with, and what the real code returns from it.
"""
import contextlib

from .common import *
import equinox.internal as eqxi
from jax import lax
from diffrax._custom_types import *  # noqa
from engine.diff import Diff  # noqa

OUTER, INNER = 91001, 91002
RES = dfx.RESULTS


@contextlib.contextmanager
def error_if_stub():
    """equinox.error_if by contract: returns its argument unless the predicate holds"""
    old, old2 = eqxi.error_if, eqx.error_if

    def stub(x, pred, msg, **kw):
        leaves, td = jtu.tree_flatten(x)
        p = jnp.any(jnp.asarray(pred))
        done = False
        out = []
        for l in leaves:
            if not done and eqx.is_array(l):
                l = note("error_if", l, p)
                done = True
            out.append(l)
        return jtu.tree_unflatten(td, out)

    def ulp(name):
        def one(x):
            return uf(name, sds((), jnp.result_type(x)), x)

        def go(x):
            x = jnp.asarray(x)
            x = x if jnp.issubdtype(x.dtype, jnp.floating) else x.astype(float)
            return one(x) if x.ndim == 0 else jax.vmap(one)(x.reshape(-1)).reshape(x.shape)
        return go

    import equinox._enum as _enum
    old4 = _enum.branched_error_if

    def branched(x, pred, index, msgs, **kw):
        leaves, td = jtu.tree_flatten(x)
        done, out = False, []
        for l in leaves:
            if not done and eqx.is_array(l):
                l = note("throw", l, jnp.any(jnp.asarray(pred)), jnp.asarray(index))
                done = True
            out.append(l)
        return jtu.tree_unflatten(td, out)

    _enum.branched_error_if = branched
    old3 = eqxi.nextafter, eqxi.prevbefore
    eqxi.error_if = eqx.error_if = stub
    eqxi.nextafter, eqxi.prevbefore = ulp("next"), ulp("prev")
    try:
        yield
    finally:
        eqxi.error_if, eqx.error_if = old, old2
        eqxi.nextafter, eqxi.prevbefore = old3
        _enum.branched_error_if = old4


def anyresult(name, *args):
    """an arbitrary RESULTS value, decided by its arguments"""
    a = uf(name + "_ok", sds((), "bool"), *args)
    b = uf(name + "_which", sds((), "bool"), *args)
    return RES.where(a, RES.successful, RES.where(b, RES.internal_error, RES.nonlinear_divergence))


class ULocal(dfx.AbstractLocalInterpolation):
    t0: jax.Array
    t1: jax.Array
    info: jax.Array

    def evaluate(self, t0, t1=None, left=True):
        struct = (sds(), sds((2,)))
        if t1 is not None:
            return uf("interp2", struct, self.t0, self.t1, self.info, t0, t1)
        return uf("interp", struct, self.t0, self.t1, self.info, t0)

    def derivative(self, t, left=True):
        return uf("dinterp", (sds(), sds((2,))), self.t0, self.t1, self.info, t)


YS = (sds(), sds((2,)))


class USolver(dfx.AbstractSolver):
    """an arbitrary one-step method"""
    has_result: bool = eqx.field(static=True, default=True)
    term_structure = dfx.AbstractTerm
    interpolation_cls = ULocal

    def order(self, terms):
        return 3

    def error_order(self, terms):
        return 2.5

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)

    def init(self, terms, t0, t1, y0, args):
        return uf("solver_init", sds((2,)), t0, t1, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        f = terms.vf_prod(t0, y0, args, terms.contr(t0, t1))
        ins = (t0, t1, y0, args, solver_state, jnp.asarray(made_jump), f)
        y1 = uf("step_y", YS, *ins)
        err = uf("step_err", YS, *ins)
        nan = uf("step_err_nan", sds((), "bool"), *ins)
        err = (jnp.where(nan, jnp.nan, err[0]), err[1])
        info = uf("step_info", sds(), *ins)
        ss = uf("step_ss", sds((2,)), *ins)
        res = anyresult("step_res", *ins) if self.has_result else RES.successful
        return y1, err, dict(info=info), ss, res


class UController(dfx.AbstractStepSizeController):
    """an arbitrary step size controller"""
    direction: jax.Array = None
    jumps: bool = eqx.field(static=True, default=True)
    has_result: bool = eqx.field(static=True, default=True)
    dirdep: bool = eqx.field(static=True, default=True)

    def wrap(self, direction):
        return UController(direction, self.jumps, self.has_result, self.dirdep)

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        f = func(terms, t0, y0, args)
        ins = (self.direction if self.dirdep else (), t0, t1, y0, () if dt0 is None else dt0, args, f, jnp.asarray(error_order))
        tn = uf("ctrl_init_tnext", sds(), *ins)
        tn = note("ctrl_init", tn, t0, tn)
        return tn, uf("ctrl_init_state", sds((2,)), *ins)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        # y_error: a non-finite entry is an input like any other, it is encoded as (value, finite)
        enc = jtu.tree_map(lambda e: (jnp.where(jnp.isfinite(e), e, 0.), jnp.isfinite(e), jnp.isnan(e)), y_error)
        ins = (t0, t1, y0, y1_candidate, args, enc, jnp.asarray(error_order), controller_state)
        keep = uf("ctrl_keep", sds((), "bool"), *ins)
        nt0 = uf("ctrl_t0", sds(), *ins)
        nt1 = uf("ctrl_t1", sds(), *ins)
        mj = uf("ctrl_jump", sds((), "bool"), *ins) if self.jumps else False
        cs = uf("ctrl_state", sds((2,)), *ins)
        res = anyresult("ctrl_res", *ins) if self.has_result else RES.successful
        keep = note("ctrl", keep, t0, t1, keep, nt0, nt1, jnp.asarray(mj))
        return keep, nt0, nt1, mj, cs, res


class _Prog(dfx.AbstractProgressMeter):
    def init(self):
        return None

    def step(self, state, progress):
        return None

    def close(self, close):
        pass


def recording(box):
    """while loops handled by the invariant rule"""
    def while_loop(tag, kind="recorded"):
            def go(cond, body, init, *, max_steps=None, buffers=None, checkpoints=None, **_):
                arrs, static = eqx.partition(init, lambda x: isinstance(x, (bool, int, float, np.ndarray, np.generic)) or eqx.is_array(x))
                buf = [] if buffers is None else jtu.tree_leaves(buffers(init))
                buf = [i for i, l in enumerate(jtu.tree_leaves(arrs)) if any(l is b for b in buf)]
                arrs = jtu.tree_map(lambda x: lax.convert_element_type(x, jnp.result_type(x)), arrs)
                leaves, td = jtu.tree_flatten(arrs)
                isf = [i for i, l in enumerate(leaves) if jnp.issubdtype(l.dtype, jnp.floating)]
                box.setdefault(tag, []).append(dict(td=td, static=static, n=len(leaves), max_steps=max_steps, kind=kind, checkpoints=checkpoints, floats=isf, buffers=buf))
                if box.get("seed") is not None:      # being differentiated: every real number in the carry has a tangent
                    leaves = [l + (0 * box["seed"]).astype(l.dtype) if i in isf else l for i, l in enumerate(leaves)]
                mk = lambda c: eqx.combine(jtu.tree_unflatten(td, c[1:]), static)

                def b(c):
                    out = body(mk(c))
                    oa, _ = eqx.partition(out, lambda x: isinstance(x, (bool, int, float, np.ndarray, np.generic)) or eqx.is_array(x))
                    ol, otd = jtu.tree_flatten(oa)
                    assert len(ol) == len(leaves), "carry structure changed"
                    return [c[0] + 1] + [note("carry", lax.convert_element_type(o, l.dtype)) for o, l in zip(ol, leaves)]

                out = lax.while_loop(lambda c: jnp.asarray(cond(mk(c))), b, [jnp.asarray(tag)] + leaves)
                # every part of the state depends on all of it, so that none is dropped as unused while jax differentiates
                return mk([out[0]] + [note("exit", o, *out) for o in out[1:]])
            return go
    return while_loop


class Recorder(dfx.AbstractAdjoint):
    """an adjoint whose loops are the while loops handled by the invariant rule"""
    box: dict = eqx.field(static=True)

    def loop(self, *, throw, passed_solver_state, passed_controller_state, **kw):
        while_loop = recording(self.box)
        return self._loop(inner_while_loop=while_loop(INNER), outer_while_loop=while_loop(OUTER), **kw)


@contextlib.contextmanager
def hooked_loops(box):
    """whatever adjoint is used: the loop over the solver's state is the outer one, loops over anything else that are started
    inside its body (saving) are inner ones; other loops are left alone"""
    from . import common
    old = common.WHILE[0]
    wl = recording(box)
    depth = [0]

    def hook(orig, cond, body, init, *a, kind, **kw):
        if hasattr(init, "tprev") and hasattr(init, "num_steps"):
            def b(c):
                depth[0] += 1
                try:
                    return body(c)
                finally:
                    depth[0] -= 1
            return wl(OUTER, kind)(cond, b, init, *a, **kw)
        if depth[0]:
            return wl(INNER, kind)(cond, body, init, *a, **kw)
        return orig(cond, body, init, *a, kind=kind, **kw)

    common.WHILE[0] = hook
    try:
        yield
    finally:
        common.WHILE[0] = old


IMPLICIT = [False]


def implicit_derivatives(notes, special):
    """the contract of the stub: what the derivative of each root is"""
    for tag, vals, _ in notes:
        if tag == "implicit":
            v, inv, r = vals
            D0 = Diff(special={**special, **{a: 0 for a in v}})
            dr = D0(r)
            for i, a in enumerate(v):
                special[a] = T.neg(T.add(*[T.mul(inv[i, j], dr[j]) for j in range(len(r))], Fr(0)))


@contextlib.contextmanager
def root_find_stub():
    """optimistix.root_find by contract: some value inside the bracket it is given and a success flag; what it is asked to
    solve (the residual at the returned value) is recorded"""
    import optimistix as ox
    old = ox.root_find

    def stub(fn, solver, y0, args=None, options=None, *a, throw=True, **kw):
        opts = options or {}
        y = jnp.asarray(y0)
        ins = (y, jnp.asarray(opts.get("lower", y)), jnp.asarray(opts.get("upper", y)))
        v = uf("root", sds(y.shape, y.dtype), *ins)
        if IMPLICIT[0]:
            # differentiated by the implicit function theorem: "root_inv" is the inverse of the residual's derivative in the root
            v = lax.stop_gradient(v)
            r = jnp.concatenate([jnp.reshape(z, (-1,)) for z in jtu.tree_leaves(fn(v, args))])
            inv = uf("root_inv", sds((v.size, r.size)), *[lax.stop_gradient(z) for z in ins])
            w = jnp.reshape(v, (-1,)) - jnp.sum(inv * (r - lax.stop_gradient(r)), axis=1)
            v = note("implicit", jnp.reshape(w, v.shape), jnp.reshape(v, (-1,)), inv, r)
        res = fn(v, args)
        ok = uf("root_ok", sds((), "bool"), *ins)
        v = note("rootfind", v, v, ok, *ins, *[jnp.asarray(r) for r in jtu.tree_leaves(res)])
        result = ox.RESULTS.where(ok, ox.RESULTS.successful, ox.RESULTS.nonlinear_divergence)
        return ox.Solution(value=v, result=result, aux=None, stats={}, state=None)

    ox.root_find = stub
    try:
        yield
    finally:
        ox.root_find = old


def leafmap(fn, tree, *rest):
    return jtu.tree_map(fn, tree, *rest, is_leaf=lambda x: isinstance(x, np.ndarray))


class LoopVC:
    """one extraction of diffeqsolve"""

    jvp = False
    dout = ()

    def __init__(self, saveat=None, event=None, throw=False, dt0=True, backward=None, nts=0, pass_state=(), jumps=True,
                 has_result=True, max_steps=6, root_finder=None, dense=False, made_jump_in=None, post=None, controller=None, solver=None,
                 reuse=None, fix_pre=None, fix_exit=None, trivial=False, negate=False, term=None, adjoint=None, jvp=False, meter=None):
        """saveat: fn(ts)->SaveAt; event: fn()->Event; post: fn(sol, tq)->extra outputs;
        fix_pre/fix_exit: restrict the arbitrary state (to states satisfying an invariant); trivial: t1 == t0;
        jvp: also its forward-mode derivative with respect to every real input (d... attributes)"""
        self.jvp = jvp
        self.fix_pre, self.fix_exit = fix_pre, fix_exit
        self.max_steps = max_steps
        box = {}
        solver = USolver(has_result) if solver is None else solver
        ctrl = UController(jnp.asarray(1), jumps, has_result) if controller is None else controller
        vf = lambda t, y, args: uf("vf", YS, t, y, args)
        if term is None:
            term = lambda neg: dfx.ODETerm(vf if not neg else lambda t, y, args: jtu.tree_map(jnp.negative, vf(-t, y, args)))

        def fn(t0, t1, dt, y0, args, ts, tq, st):
            if negate:
                t0, t1, dt, ts, tq = -t0, -t1, -dt, -ts, -tq
            kw = {}
            if "solver" in pass_state:
                kw["solver_state"] = st["solver"]
            if "controller" in pass_state:
                kw["controller_state"] = st["controller"]
            if "made_jump" in pass_state:
                kw["made_jump"] = st["made_jump"]
            ev = event() if event is not None else None
            sol = dfx.diffeqsolve(
                term(negate), solver, t0, t1, dt if dt0 else None, y0, args,
                saveat=saveat(ts) if saveat is not None else dfx.SaveAt(t1=True),
                stepsize_controller=ctrl, adjoint=Recorder(box) if adjoint is None else adjoint, event=ev, max_steps=max_steps, throw=throw,
                progress_meter=_Prog() if meter is None else meter, **kw)
            extra = post(sol, tq) if post is not None else ()
            out = dict(ts=sol.ts, ys=sol.ys, t0=sol.t0, t1=sol.t1, result=sol.result._value,
                       stats={k: jnp.asarray(v) for k, v in sol.stats.items() if v is not None},
                       solver_state=sol.solver_state, controller_state=sol.controller_state,
                       made_jump=None if sol.made_jump is None else jnp.asarray(sol.made_jump),
                       event_mask=sol.event_mask, extra=extra)
            return eqx.filter(out, eqx.is_array)

        f = jnp.asarray(1.0)
        y_ex = (f, jnp.ones((2,)))
        st_ex = dict(solver=jnp.ones((2,)), controller=jnp.ones((2,)), made_jump=jnp.asarray(True))
        ex = (f, f, f, y_ex, f, jnp.ones((nts,)), f, st_ex)
        self.S = s = lambda n, srt="R": T.sym(n, srt)
        self.t0, self.t1, self.dt0, self.tq = s("t0"), s("t1"), s("dt0"), s("tq")
        if trivial:
            self.t1 = self.t0
        self.y0 = (S.scalar(s("y0a")), symarr("y0b", (2,)))
        self.args = s("args")
        self.ts = symarr("ts", (nts,))
        self.st = dict(solver=symarr("in_ss", (2,)), controller=symarr("in_cs", (2,)), made_jump=S.scalar(s("in_mj", "B")))
        vals = (S.scalar(self.t0), S.scalar(self.t1), S.scalar(self.dt0), self.y0, S.scalar(self.args), self.ts, S.scalar(self.tq), self.st)
        self.box = box
        self.loops = []
        self.side = []         # (name, premises, goal): obligations of the loop rule itself
        if jvp:
            fn, ex, vals = self._differentiated(fn, ex, vals, box)
        IMPLICIT[0] = jvp
        with error_if_stub(), root_find_stub(), hooked_loops(box):
            if reuse is None:
                self.ex = Extract(fn, ex)
            else:
                self.ex, self.box = reuse.ex, reuse.box
            self.out, self.ev = self.ex(vals, loop_handler=self._handler)
        if jvp:
            self.out, self.dout = self.out
        else:
            self.dout = ()
        assert len(self.loops) == 1, f"{len(self.loops)} outer loops"
        self._chains()
        self.dirs = None
        self.backward = backward
        if backward is not None:
            self._resolve_direction(backward)
        self._split()

    # ------------------------------------------------------------------
    @staticmethod
    def _differentiated(fn, ex, vals, box):
        isf = lambda x: jnp.issubdtype(jnp.result_type(x), jnp.floating)
        lv, td = jtu.tree_flatten(ex)
        fl = [i for i, l in enumerate(lv) if isf(l)]

        def go(*a):
            prim, tan = a[:-1], a[-1]
            p = jtu.tree_leaves(prim)
            shape = [None]

            def g(seed, fs):
                q = list(p)
                for i, x in zip(fl, fs):
                    q[i] = x
                box["seed"] = seed
                try:
                    o, otd = jtu.tree_flatten(fn(*jtu.tree_unflatten(td, q)))
                finally:
                    box["seed"] = None
                shape[0] = otd
                return o
            o, do = jax.jvp(g, (jnp.asarray(0.), [p[i] for i in fl]), (jnp.asarray(0.), list(tan)))
            do = [x if isf(y) else jnp.asarray(0.) for x, y in zip(do, o)]
            return jtu.tree_unflatten(shape[0], o), jtu.tree_unflatten(shape[0], do)
        vl = jtu.tree_leaves(vals, is_leaf=lambda x: isinstance(x, np.ndarray))
        D = Diff()
        return go, (*ex, [lv[i] for i in fl]), (*vals, [D(vl[i]) for i in fl])

    def _handler(self, ev, eqn, cond, body, init):
        tag = init[0][()] if init and isinstance(init[0], np.ndarray) and init[0].shape == () else None
        if not T.is_c(tag) or isinstance(tag, bool):
            return None
        if tag == INNER:
            def rec(carry, depth):
                if depth > 40:
                    raise S.Unsupported("the saving loop does not end")
                c = cond(carry)
                if c is False:
                    return carry
                ev.path.append(c)
                new = rec(body(carry), depth + 1)
                ev.path.pop()
                return [S.emap(lambda p, q: T.ite(c, p, q), n, o) for n, o in zip(new, carry)]
            return rec(list(init), 0)
        if tag == OUTER:
            info = self.box[OUTER][-1]
            avals = [v.aval for v in eqn.outvars]
            k = info["n"]
            mk = lambda p: [init[0]] + [S.fresh_like(a, f"{p}{i}") for i, a in enumerate(avals[1:k + 1])]
            pre, exit_ = mk("c"), mk("x")
            un = lambda c: jtu.tree_unflatten(info["td"], c[1:k + 1])
            re = lambda st: [init[0]] + jtu.tree_leaves(st, is_leaf=lambda x: isinstance(x, np.ndarray))
            if self.fix_pre is not None:
                pre = re(self.fix_pre(un(pre), un(init)))
            if self.fix_exit is not None:
                exit_ = re(self.fix_exit(un(exit_), un(init)))
            if self.jvp:
                if len(avals) != 1 + k + len(info["floats"]):
                    raise S.Unsupported("the derivative of the loop has another carry")
                D = Diff()
                pre = pre + [D(pre[1 + i]) for i in info["floats"]]
                exit_ = exit_ + [D(exit_[1 + i]) for i in info["floats"]]
            else:
                assert len(avals) == 1 + k
            if cond(init) is False:
                exit_ = list(init)
            n0 = len(ev.notes)
            cpre = cond(pre)
            post = body(pre) if cond(init) is not False and not getattr(self, "no_body", False) else pre
            body_notes = ev.notes[n0:]
            self.loops.append(dict(dinit=init[1 + k:], dpost=post[1 + k:], floats=info["floats"], init=un(init), pre=un(pre), post=un(post), exit=un(exit_), cond_pre=cpre, cond_exit=cond(exit_),
                                   notes=body_notes, n_pre_notes=n0, max_steps=info["max_steps"], static=info["static"]))
            return exit_
        return None

    # ---- replace the long ULP chain below t1 by one symbol with its order facts
    def _chains(self):
        every = []
        L = self.loops[0]
        for d in (L["init"], L["pre"], L["post"], L["exit"], self.out, L["dinit"], L["dpost"], self.dout):
            for a in jtu.tree_leaves(d, is_leaf=lambda x: isinstance(x, np.ndarray)):
                every += [v for v in a.reshape(-1) if isinstance(v, T.Term)]
        every += [v for v in (L["cond_pre"], L["cond_exit"]) if isinstance(v, T.Term)]
        inner = set()
        chains = []
        subs = list(T.subterms(every))
        for t in subs:
            if t.op == "app" and t.name == "prev" and isinstance(t.args[0], T.Term) and t.args[0].op == "app" and t.args[0].name == "prev":
                inner.add(t.args[0])
        self.floor_facts = []
        self.floors = []
        self.floor_base = {}
        self.lo = T.sym("ulp_neighbourhood_of_t1")
        sm = {}
        k = 0
        for t in subs:
            if t.op == "app" and t.name == "prev" and t not in inner:
                n, b = 0, t
                while isinstance(b, T.Term) and b.op == "app" and b.name == "prev":
                    n, b = n + 1, b.args[0]
                if n > 1000:
                    raise S.Unsupported("ULP chain too long")
                v = T.sym(f"ulp_floor{k}")
                k += 1
                sm[t] = v
                chains.append((v, b, n))
                self.floors.append(v)
                self.floor_base[v] = b
                self.floor_facts += [T.lt(v, b), T.le(self.lo, v)]
        self._sub(sm)
        self.floor_facts = [T.subst(f, sm) for f in self.floor_facts]

    def _sub(self, sm):
        if not sm:
            return
        sub = lambda a: S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, a)
        L = self.loops[0]
        for k in ("init", "pre", "post", "exit", "dinit", "dpost"):
            L[k] = leafmap(sub, L[k])
        self.dout = leafmap(sub, self.dout)
        for k in ("cond_pre", "cond_exit"):
            L[k] = T.subst(L[k], sm) if isinstance(L[k], T.Term) else L[k]
        nn = lambda notes: [(tag, [sub(v) for v in vals], [T.subst(p, sm) if isinstance(p, T.Term) else p for p in path]) for tag, vals, path in notes]
        L["notes"] = nn(L["notes"])
        self.ev.notes = nn(self.ev.notes)
        self.out = leafmap(sub, self.out)
        self.side = [([T.subst(p, sm) if isinstance(p, T.Term) else p for p in pa], T.subst(g, sm) if isinstance(g, T.Term) else g) for pa, g in self.side]

    def _resolve_direction(self, backward):
        """specialise to t0 < t1 or t0 > t1"""
        c = T.lt(self.t0, self.t1)
        self._sub({c: not backward, T.lt(self.t1, self.t0): backward, T.lt(T.neg(self.t0), T.neg(self.t1)): backward})
        self.sgn = -1 if backward else 1
        self.order = T.lt(self.t1, self.t0) if backward else c

    def _split(self):
        L = self.loops[0]
        self.dinit, self.dpost, self.floats = L["dinit"], L["dpost"], L["floats"]
        self.init, self.pre, self.post, self.exit = L["init"], L["pre"], L["post"], L["exit"]
        self.cond_pre, self.cond_exit = L["cond_pre"], L["cond_exit"]
        self.notes = L["notes"]
        self.early = self.ev.notes[:L["n_pre_notes"]]
        self.late = self.ev.notes[L["n_pre_notes"] + len(L["notes"]):]
        self.requires = []      # what the real code itself rejects (error_if) does not happen
        for tag, vals, path in self.early:
            if tag == "error_if":
                p = vals[0][()]
                self.requires.append(T.not_(p) if isinstance(p, T.Term) else (not p))
        self.requires = [r for r in self.requires if r is not True]


def val(x):
    return x[()] if isinstance(x, np.ndarray) and x.shape == () else x


# ---------------------------------------------------------------- specification terms
def vf_(t, y, args):
    return (ufT("vf", (), t, *y, args, nout=2, o=0), ufT("vf", (2,), t, *y, args, nout=2, o=1))


def step_(t0, t1, y, args, ss, mj, sgn=1):
    """what an arbitrary solver returns on the step [t0, t1] of the normalised time; the vector field is seen in user time"""
    f = vf_(S.emap(lambda v: T.mul(sgn, v), np.asarray(t0, dtype=object)), y, args)
    h = T.mul(sgn, T.sub(val(t1), val(t0)))
    f = tuple(ascale(h, x) for x in f)
    ins = (S.scalar(val(t0)), S.scalar(val(t1)), *y, S.scalar(val(args)), ss, mj, *f)
    two = lambda n: (ufT(n, (), *ins, nout=2, o=0), ufT(n, (2,), *ins, nout=2, o=1))
    nan = ufT("step_err_nan", (), *ins, sort="B")[()]
    e = two("step_err")
    ok = ufT("step_res_ok", (), *ins, sort="B")[()]
    which = ufT("step_res_which", (), *ins, sort="B")[()]
    return dict(y=two("step_y"), err=e, nan=nan, info=ufT("step_info", (), *ins), ss=ufT("step_ss", (2,), *ins),
                result=T.ite(ok, RESV["successful"], T.ite(which, RESV["internal_error"], RESV["nonlinear_divergence"])))


RESV = {n: int(np.asarray(getattr(RES, n)._value)) for n in
        ("successful", "max_steps_reached", "internal_error", "nonlinear_divergence", "event_occurred", "dt_min_reached", "max_steps_rejected")}


def ctrl_(t0, t1, y0, y1, args, step, order, cs):
    """what an arbitrary controller answers; a NaN error estimate must reach it as an infinite one"""
    n = step["nan"]
    e0, e1 = step["err"]
    enc = [S.scalar(T.ite(n, Fr(0), e0[()])), S.scalar(T.not_(n)), S.scalar(False), e1, arr(True, True), arr(False, False)]
    ins = (S.scalar(val(t0)), S.scalar(val(t1)), *y0, *y1, S.scalar(val(args)), *enc, S.scalar(order), cs)
    ok = ufT("ctrl_res_ok", (), *ins, sort="B")[()]
    which = ufT("ctrl_res_which", (), *ins, sort="B")[()]
    return dict(keep=ufT("ctrl_keep", (), *ins, sort="B")[()], t0=ufT("ctrl_t0", (), *ins)[()], t1=ufT("ctrl_t1", (), *ins)[()],
                jump=ufT("ctrl_jump", (), *ins, sort="B")[()], cs=ufT("ctrl_state", (2,), *ins),
                result=T.ite(ok, RESV["successful"], T.ite(which, RESV["internal_error"], RESV["nonlinear_divergence"])))


def contract_ctrl(t0, t1, c):
    """assumed of the controller (proved for the built-in ones in C04-C06): a kept step moves on to a time no earlier than
    the end of the step, a rejected one stays, and the next step has positive length"""
    return [T.implies(c["keep"], T.le(t1, c["t0"])), T.implies(T.not_(c["keep"]), T.eq(c["t0"], t0)), T.lt(c["t0"], c["t1"])]


def okay(r):
    return T.or_(T.eq(r, RESV["successful"]), T.eq(r, RESV["event_occurred"]))
