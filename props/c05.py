"""C05: forced step times, jump times and revisited rejected steps. `ClipStepSizeController`."""
import math
from .mainloop import *
import diffrax._step_size_controller.clip as clipmod

FA, FI, FW, FC = "ClipStepSizeController.adapt_step_size", "ClipStepSizeController.init", "ClipStepSizeController.wrap", "ClipStepSizeController.__init__"
FF, FB, FCL = "_find_idx_with_hint", "_bump_next_t0", "_clip_t"
nx = lambda x: S._ulp("next", x)
pv = lambda x: S._ulp("prev", x)
MAXF = T.sym("largest_float")


class Inner(dfx.AbstractAdaptiveStepSizeController):
    """an arbitrary adaptive controller: its answers are arbitrary values, what it is given is recorded"""
    v: dict
    rtol: float = 1.0
    atol: float = 1.0
    norm: object = eqx.field(static=True, default=None)

    def wrap(self, direction):
        return eqx.tree_at(lambda s: s.v["d"], self, self.v["d"] * direction)

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        n1 = note("inner_init", self.v["n1"], t0, t1, y0, dt0, args, error_order)
        return n1, self.v["ics"]

    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, cs):
        v = self.v
        keep = note("inner", v["keep"], t0, t1, y0, y1, args, err, order, cs)
        res = RES.where(v["ok"], RES.successful, RES.nonlinear_divergence)
        return keep, v["n0"], v["n1"], v["mj"], v["ocs"], res


VALS = dict(t0="R", t1="R", n0="R", n1="R", keep="B", mj="B", ok="B", y0="R", y1="R", err="R", args="R", order="R", dt0="R", d="R")


def floats(xs):
    """order facts of the floating point numbers occurring in xs, and of their neighbours"""
    X = dict.fromkeys(x for x in xs if isinstance(x, T.Term))
    out = []
    L = list(X)
    for x in L:
        if x.op == "app" and x.name == "next":
            a = x.args[0]
            out += [T.lt(a, x)]
            out += [T.implies(T.lt(a, y), T.le(x, y)) for y in L if y is not a and y is not x]
        if x.op == "app" and x.name == "prev":
            a = x.args[0]
            out += [T.lt(x, a)]
            out += [T.implies(T.lt(y, a), T.le(y, x)) for y in L if y is not a and y is not x]
        if x is not MAXF:
            out += [T.le(x, MAXF)]
    return out


def leaves_of(*ts):
    """the next/prev applications and plain symbols occurring"""
    out = []
    for t in T.subterms([t for t in ts if isinstance(t, T.Term)]):
        if t.op == "app" and t.name in ("next", "prev"):
            out.append(t)
    return out


class Adapt:
    def __init__(self, N=None, M=None, K=None, hints=(0, 0), ri=0):
        def fn(v, S_, J_, R_, ics, ocs):
            v = dict(v, ics=ics, ocs=ocs)
            c = dfx.ClipStepSizeController(Inner(v), store_rejected_steps=K)
            st = clipmod._ClipState(None if N is None else (jnp.asarray(hints[0]), S_), None if M is None else (jnp.asarray(hints[1]), J_),
                                    None if K is None else (jnp.asarray(ri), R_), ics)
            keep, a, b, mj, st, res = c.adapt_step_size(v["t0"], v["t1"], v["y0"], v["y1"], v["args"], v["err"], v["order"], st)
            return dict(keep=keep, t0=a, t1=b, mj=jnp.asarray(mj), res=jnp.asarray(res._value), inner=st.inner_state, step=st.step_info, jump=st.jump_info, rej=st.reject_info)

        ex = ({k: jnp.asarray(1.0 if s == "R" else True) for k, s in VALS.items()}, jnp.ones(N or 0), jnp.ones(M or 0), jnp.ones(K or 0), jnp.ones(2), jnp.ones(2))
        self.s = {k: T.sym(k, s) for k, s in VALS.items()}
        self.S, self.J, self.R = symarr("s", (N or 0,)), symarr("j", (M or 0,)), symarr("r", (K or 0,))
        self.ics, self.ocs = symarr("ics", (2,)), symarr("ocs", (2,))
        with error_if_stub():
            self.out, self.ev = run(fn, ex, ({k: S.scalar(v) for k, v in self.s.items()}, self.S, self.J, self.R, self.ics, self.ocs), sym_unroll=[])
        self.K, self.ri = K, ri


def spread(J):
    """jump times that are not (nearly) adjacent floating point numbers; duplicates are fine"""
    out = [T.le(a, b) for a, b in zip(J, J[1:])]
    for a, b in zip(J, J[1:]):
        out.append(T.or_(T.eq(a, b), T.lt(nx(nx(nx(nx(a)))), b)))
    return out


def apart(S_, J):
    """a step time is a jump time, or not within a few floating point numbers of one"""
    return [T.or_(T.eq(a, b), T.lt(nx(nx(nx(a))), b), T.lt(nx(nx(nx(b))), a)) for a in S_ for b in J]


def s_adapt(N=None, M=None, K=None, slack=False):
    """slack: the wrapped controller may itself move the start of the next step past the end of this one (a nested clip)"""
    tag0 = f"step_ts={N} jump_ts={M} rejected={K}" + (" nested" if slack else "")

    def go(ck):
        begin(ck)
        ck.assume("the wrapped controller: a kept step goes on from its end (or later), a rejected one from its start, with a positive next step (proved for PIDController in C04)",
                  "nextafter/prevbefore give the neighbouring floating point number", "step and jump times are equal or at least five floating point numbers apart",
                  "the solve does not start on a jump time")
        for h in range((N or 0) + 1):
            for g in range((M or 0) + 1):
                for ri in (range(K + 1) if K else [0]):
                    one(ck, f"{tag0} hints={h},{g}" + (f" stored={K - ri}" if K else ""), Adapt(N, M, K, (h, g), ri))

    def one(ck, tag, A):
        s, o = A.s, A.out
        nm = lambda x: f"{tag}.{x}"
        keep, a, b, mj, res = (val(o[k]) for k in ("keep", "t0", "t1", "mj", "res"))
        n0, n1, t0, t1 = s["n0"], s["n1"], s["t0"], s["t1"]
        ires = T.ite(s["ok"], 0, RESV["nonlinear_divergence"])
        for k, want in (("keep", s["keep"]),):
            ck.valid(nm("the wrapped controller decides acceptance"), FA, [], T.iff(keep, want))
        ck.equal_arr(nm("wrapped state"), FA, o["inner"], A.ocs)
        calls = [v for tg, v, _ in A.ev.notes if tg == "inner"]
        ck.fact(nm("one call of the wrapped controller"), FA, len(calls) == 1, "", "extraction")
        for k, (x, y) in enumerate(zip(calls[0], [S.scalar(s[q]) for q in ("t0", "t1", "y0", "y1", "args", "err", "order")] + [A.ics])):
            ck.equal_arr(nm(f"wrapped controller argument {k}"), FA, x, y)
        pre = [T.lt(t0, t1), T.implies(s["keep"], T.le(t1, n0) if slack else T.eq(n0, t1)), T.implies(T.not_(s["keep"]), T.eq(n0, t0)), T.lt(n0, n1)]
        pre += spread(list(A.S)) + spread(list(A.J)) + apart(A.S, A.J)
        # the invariant of the state: the step being taken does not straddle anything
        for j in A.J:
            pre += [T.ne(t0, j), T.ne(t0, pv(j)), T.or_(T.lt(j, t0), T.le(t1, pv(j)))]
        base = [t0, t1, n0, n1, *A.S, *A.J, *A.R]
        live = list(A.R[A.ri:]) if A.K else []
        if A.K:
            pre += [T.lt(x, y) for x, y in zip(live, live[1:])] + [T.le(t1, r) for r in live]
            pre += [T.or_(T.le(r, pv(j)), T.lt(nx(j), r)) for r in live for j in A.J]
        goals = []
        add = lambda n, f, g, extra=(): goals.append((n, f, g, list(extra)))
        # -- step times
        for k, x in enumerate(A.S):
            add(f"step time {k} is not passed", FA, T.or_(T.le(x, a), T.le(b, x), T.eq(x, nx(n0))))
        # -- jump times
        isj = T.or_(*[T.or_(T.eq(n0, pv(j)), T.eq(n0, j)) for j in A.J]) if len(A.J) else False
        for k, j in enumerate(A.J):
            add(f"jump time {k} is not evaluated", FA, T.or_(T.lt(j, a), T.le(b, pv(j))))
            add(f"jump time {k}: resumes just after it", FB, T.eq(a, nx(j)), [T.or_(T.eq(n0, pv(j)), T.eq(n0, j))])
            add(f"jump time {k}: next start is not on it", FB, T.and_(T.ne(a, j), T.ne(a, pv(j))))
        add("discontinuity signalled exactly at jumps", FB, T.iff(mj, T.or_(s["mj"], isj)))
        add("start moved only at jumps", FB, T.eq(a, n0), [T.not_(isj)])
        add("a rejected step is retried from its start", FA, T.eq(a, t0), [T.not_(s["keep"])])
        add("a kept step goes on from its end", FA, T.le(t1, a), [s["keep"]])
        add("the next step is positive", FA, T.lt(a, b))
        # -- no more cutting than needed
        free = T.maximum(n1, nx(a)) if len(A.J) else n1
        add("never longer than the wrapped controller wants", FA, T.le(b, free))
        if A.K:
            r2, R2 = val(o["rej"][0]), o["rej"][1]
        add("cut only at a listed time", FA, T.or_(T.eq(b, free), *[T.and_(T.eq(b, x), T.lt(a, x)) for x in A.S], *[T.and_(T.eq(b, pv(j)), T.lt(a, j)) for j in A.J],
                                               *([T.eq(b, r) for r in live + [t1]] if A.K else [])))
        for nme, info, ts in (("step", o["step"], A.S), ("jump", o["jump"], A.J)):
            if info is not None:
                add(f"{nme} index stays in range", FF, T.and_(T.le(0, val(info[0])), T.le(val(info[0]), len(ts))))
                for x, y in zip(info[1], ts):
                    ck.fact(nm(f"{nme} times unchanged"), FA, x is y, "", "simplifier")
        if A.K:
            full = T.and_(T.not_(s["keep"]), A.ri == 0, T.ne(t1, live[0]) if live else True)
            add("too many rejections are an error", FA, T.eq(res, T.ite(T.and_(full, s["ok"]), RESV["max_steps_rejected"], ires)))
            pop = T.eq(t1, live[0]) if live else False
            # what remains to be visited, as a list: reject -> t1 first; then what was stored, less t1
            for pcase, rest in ((pop, live[1:]), (T.not_(pop), live)):
                for kc, want in ((s["keep"], rest), (T.not_(s["keep"]), [t1] + rest)):
                    if len(want) > A.K:
                        continue
                    cs = [pcase, kc]
                    if pcase is False:
                        continue
                    add(f"stored times: number", FA, T.eq(r2, A.K - len(want)), cs)
                    for q, wv in enumerate(want):
                        add(f"stored time {q} of {len(want)}", FA, T.eq(R2[A.K - len(want) + q], wv), cs)
                        add(f"stored time {q} of {len(want)} is ahead", FA, T.and_(T.lt(a, wv), T.le(b, wv)), cs)
        else:
            ck.equal(nm("result"), FA, res, ires)
        ck.sat(nm("premises"), pre + floats(base + leaves_of(*pre)))
        groups = {}
        for n, f, g, extra in goals:
            if g is True:
                ck.fact(nm(n), f, True, "", "simplifier")
                continue
            prem = pre + extra
            fl = floats(base + leaves_of(*prem, g, a, b))
            ck.valid(nm(n), f, prem + fl, g)
    return go


def s_init(ck):
    begin(ck)
    for N in (None, 0, 1, 3):
        for M in (None, 0, 2):
            for K in (None, 2):
                def fn(v, S_, J_, ics):
                    v = dict(v, ics=ics, ocs=ics)
                    c = dfx.ClipStepSizeController(Inner(v), None if N is None else S_, None if M is None else J_, K)
                    b, st = c.init(None, v["t0"], v["t1"], v["y0"], v["dt0"], v["args"], None, v["order"])
                    return dict(b=b, step=st.step_info, jump=st.jump_info, rej=st.reject_info, inner=st.inner_state)
                ex = ({k: jnp.asarray(1.0 if s == "R" else True) for k, s in VALS.items()}, jnp.ones(N or 0), jnp.ones(M or 0), jnp.ones(2))
                s = {k: T.sym(k, srt) for k, srt in VALS.items()}
                S_, J_, ics = symarr("s", (N or 0,)), symarr("j", (M or 0,)), symarr("ics", (2,))
                with error_if_stub():
                    o, ev = run(fn, ex, ({k: S.scalar(v) for k, v in s.items()}, S_, J_, ics))
                nm = lambda x: f"init step_ts={N} jump_ts={M} rejected={K}.{x}"
                b = val(o["b"])
                calls = [v for tg, v, _ in ev.notes if tg == "inner_init"]
                for k, (x, y) in enumerate(zip(calls[0], ("t0", "t1", "y0", "dt0", "args", "order"))):
                    ck.equal(nm(f"wrapped init argument {y}"), FI, val(x), s[y])
                ck.equal_arr(nm("wrapped state"), FI, o["inner"], ics)
                pre = [T.lt(s["t0"], s["n1"])]
                # in any order: the lists are sorted by the constructor
                far = spread(list(J_))[len(J_) - 1:] if len(J_) else []
                far = [T.ne(s["t0"], pv(j)) for j in J_]
                fl = lambda *g: floats([s["t0"], s["n1"], *S_, *J_] + leaves_of(*g, *far, b))
                for k, x in enumerate(S_):
                    g = T.or_(T.le(x, s["t0"]), T.le(b, x))
                    ck.valid(nm(f"step time {k} is not passed"), FI, pre + far + fl(g), g)
                for k, j in enumerate(J_):
                    g = T.or_(T.le(j, s["t0"]), T.le(b, pv(j)))
                    ck.valid(nm(f"jump time {k} is not reached"), FI, pre + far + fl(g), g)
                g = T.or_(T.eq(b, s["n1"]), *[T.and_(T.eq(b, x), T.lt(s["t0"], x)) for x in S_], *[T.and_(T.eq(b, pv(j)), T.lt(s["t0"], j)) for j in J_])
                ck.valid(nm("cut only at a listed time"), FI, pre + far + fl(g), g)
                ck.valid(nm("positive and not longer"), FI, pre + far + fl(), T.and_(T.lt(s["t0"], b), T.le(b, s["n1"])))
                for nme, info, L in (("step", o["step"], N), ("jump", o["jump"], M)):
                    if L is not None:
                        ck.valid(nm(f"{nme} index"), FI, [], T.and_(T.le(0, val(info[0])), T.le(val(info[0]), L)))
                        for p, q in zip(info[1], info[1][1:]):
                            ck.valid(nm(f"{nme} times are kept in order"), FC, [], T.le(p, q))
                        src = S_ if nme == "step" else J_
                        for x in src:
                            ck.valid(nm(f"{nme} times are all kept"), FC, [], T.or_(*[T.eq(x, y) for y in info[1]]))
                    else:
                        ck.fact(nm(f"no {nme} state"), FI, info is None, "", "extraction")
                if K:
                    ck.fact(nm("nothing stored"), FI, val(o["rej"][0]) == K and o["rej"][1].shape == (K,), "", "extraction")
                else:
                    ck.fact(nm("no rejected state"), FI, o["rej"] is None, "", "extraction")


def s_wrap(ck):
    begin(ck)
    for N, M in ((3, None), (None, 2), (2, 3), (None, None)):
        for d in (1, -1):
            def fn(v, S_, J_):
                c = dfx.ClipStepSizeController(Inner(dict(v, ics=jnp.ones(2), ocs=jnp.ones(2))), None if N is None else S_, None if M is None else J_, 7)
                w = c.wrap(d)
                assert w.store_rejected_steps == 7
                return w.step_ts, w.jump_ts, w.controller.v["d"]
            ex = ({k: jnp.asarray(1.0 if s == "R" else True) for k, s in VALS.items()}, jnp.ones(N or 0), jnp.ones(M or 0))
            s = {k: T.sym(k, srt) for k, srt in VALS.items()}
            S_, J_ = symarr("s", (N or 0,)), symarr("j", (M or 0,))
            with error_if_stub():
                (a, b, w), _ = run(fn, ex, ({k: S.scalar(v) for k, v in s.items()}, S_, J_))
            nm = lambda x: f"wrap({d}) step_ts={N} jump_ts={M}.{x}"
            for nme, got, src, L in (("step", a, S_, N), ("jump", b, J_, M)):
                if L is None:
                    ck.fact(nm(f"no {nme} times"), FW, got is None, "", "extraction")
                    continue
                for p, q in zip(got, got[1:]):
                    ck.valid(nm(f"{nme} times in order"), FW, [], T.le(p, q))
                for x in src:
                    ck.valid(nm(f"{nme} times all kept, in the direction of time"), FW, [], T.or_(*[T.eq(T.mul(d, x), y) for y in got]))
                for y in got:
                    ck.valid(nm(f"{nme} times: nothing else"), FW, [], T.or_(*[T.eq(T.mul(d, x), y) for x in src]))
            ck.equal(nm("the wrapped controller is told too"), FW, val(w), T.mul(d, s["d"]))


def s_static(ck):
    begin(ck)
    P = dfx.PIDController(rtol=1e-3, atol=1e-6)

    def refused(f):
        try:
            f()
        except ValueError:
            return True
        return False
    ck.fact("non-adaptive controllers are refused", FC, refused(lambda: dfx.ClipStepSizeController(dfx.ConstantStepSize())), "", "concrete evaluation")
    ck.fact("store_rejected_steps=0 is refused", FC, refused(lambda: dfx.ClipStepSizeController(P, store_rejected_steps=0)), "", "concrete evaluation")
    ck.fact("integer jump times are refused", FC, refused(lambda: dfx.ClipStepSizeController(P, jump_ts=[1, 2])), "", "concrete evaluation")
    c = dfx.PIDController(rtol=1e-3, atol=1e-6, step_ts=[2.0, 1.0], jump_ts=[0.5])
    ck.fact("PIDController(step_ts, jump_ts)", "_MetaPID.__call__", isinstance(c, dfx.ClipStepSizeController) and list(c.step_ts) == [1.0, 2.0] and list(c.jump_ts) == [0.5] and isinstance(c.controller, dfx.PIDController), "", "concrete evaluation")
    ck.fact("tolerances pass through", "ClipStepSizeController", c.rtol == 1e-3 and c.atol == 1e-6 and c.norm is c.controller.norm, "", "concrete evaluation")


SECTIONS = [
    ("none", s_adapt()),
    ("step times", s_adapt(N=3)),
    ("no step times", s_adapt(N=0)),
    ("jump times", s_adapt(M=2)),
    ("three jump times", s_adapt(M=3)),
    ("step and jump times", s_adapt(N=2, M=1)),
    ("step times nested", s_adapt(N=2, slack=True)),
    ("jump times nested", s_adapt(M=2, slack=True)),
    ("rejected", s_adapt(K=3)),
    ("rejected, one", s_adapt(K=1)),
    ("rejected and jumps", s_adapt(M=1, K=2)),
    ("rejected and step times", s_adapt(N=1, K=2)),
    ("init", s_init), ("wrap", s_wrap), ("construction", s_static)]


# ---------------------------------------------------------------- executable contract
class CInner(dfx.AbstractAdaptiveStepSizeController):
    keep: jax.Array
    dt: jax.Array
    rtol: float = 1.0
    atol: float = 1.0
    norm: object = eqx.field(static=True, default=None)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + self.dt[0], jnp.asarray(0)

    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, cs):
        keep, dt = self.keep[cs + 1], self.dt[cs + 1]
        n0 = jnp.where(keep, t1, t0)
        return keep, n0, n0 + jnp.where(keep, dt, (t1 - t0) * jnp.minimum(dt, 0.7)), jnp.asarray(False), cs + 1, RES.successful


@eqx.filter_jit
def cadapt(c, t0, t1, st):
    keep, a, b, mj, st, res = c.adapt_step_size(t0, t1, 0.0, 0.0, None, 0.0, 2.0, st)
    return keep, a, b, mj, st, res._value


COMBOS = [(4, 3, 8, False), (3, 3, None, True), (4, None, 1, False), (None, 3, 8, False), (0, 2, None, False), (None, 0, 2, False), (4, 3, None, False), (2, 2, 8, True)]


def concrete(rng, effort):
    """histories: the controller driven as the main loop drives it, with arbitrary accept/reject decisions"""
    P = lambda x: float(np.nextafter(x, -np.inf))
    Nx = lambda x: float(np.nextafter(x, np.inf))
    for trial in range(64 * effort):
        n = 25
        lat = rng.uniform() < 0.5
        pick = (lambda k: np.round(rng.uniform(0.1, 3, k) * 8) / 8) if lat else (lambda k: rng.uniform(0.1, 3, k))
        NS, NJ, K, nested = COMBOS[trial % len(COMBOS)]
        S_ = None if NS is None else pick(NS)
        J_ = None if NJ is None else pick(NJ)
        if NS and NJ and rng.uniform() < 0.3:
            J_[0] = S_[0]
        keepp = rng.uniform(0.3, 1)
        dts = rng.uniform(0.02, 0.8, n + 1) if not lat else np.round(rng.uniform(0.05, 1, n + 1) * 8 + 1) / 8
        ans = [(bool(rng.uniform() < keepp), float(d)) for d in dts]
        inner = CInner(jnp.asarray([x for x, _ in ans]), jnp.asarray([x for _, x in ans]))
        if nested:
            c = dfx.ClipStepSizeController(dfx.ClipStepSizeController(inner, S_, None, K), None, J_)
        else:
            c = dfx.ClipStepSizeController(inner, S_, J_, K)
        steps = sorted(set(map(float, S_))) if S_ is not None else []
        jumps = sorted(set(map(float, J_))) if J_ is not None else []
        desc = dict(case="history of the clip controller", step_ts=steps, jump_ts=jumps, store=K, nested=nested, answers=ans[:n])
        t0 = 0.0
        t1, st = c.init(None, jnp.asarray(t0), jnp.asarray(9.0), 0.0, None, None, None, 2.0)
        t1 = float(t1)
        pend = []
        bad = None
        log = []
        for k in range(n):
            log.append((t0, t1))
            want = [x for x in steps if t0 < x < t1 and x not in jumps and t0 != P(x)]
            if want:
                bad = f"step {t0, t1} passes step time {want}"
            want = [x for x in jumps if t0 <= x <= t1]
            if want:
                bad = f"step {t0, t1} contains jump time {want}"
            want = [x for x in pend if x < t1]
            if want:
                bad = f"step {t0, t1} passes stored rejected time {want}"
            if not t1 > t0:
                bad = f"empty step {t0, t1}"
            if bad:
                break
            keep, a, b, mj, st, res = cadapt(c, jnp.asarray(t0), jnp.asarray(t1), st)
            res = int(res)
            a, b = float(a), float(b)
            if bool(keep) != ans[k + 1][0]:
                bad = "acceptance changed"
            if K is not None:
                pend = [x for x in pend if x != t1]
                if not keep:
                    pend = [t1] + pend
                over = len(pend) > K
                if over != (res == RESV["max_steps_rejected"]) or (not over and not (res == 0)):
                    bad = f"result {res} with {len(pend)} stored of {K}"
                if over and not bad:
                    break
            elif not (res == 0):
                bad = f"result {res}"
            at = [j for j in jumps if keep and t1 == P(j)]
            exp = Nx(at[0]) if at else (t1 if keep else t0)
            if a != exp:
                bad = f"after step {t0, t1} kept={bool(keep)} resumes at {a}, expected {exp}"
            if bool(mj) != bool(at):
                bad = f"after step {t0, t1}: discontinuity flag {bool(mj)}, expected {bool(at)}"
            if bad:
                break
            want_dt = ans[k + 1][1] if keep else (t1 - t0) * min(ans[k + 1][1], 0.7)
            lim = min([(t1 if keep else t0) + want_dt] + [x for x in steps if x > a and (t1 if keep else t0) != P(x)] + [P(x) for x in jumps if x > a] + pend)
            if abs(b - max(lim, Nx(a) if jumps else lim)) > 1e-12:
                bad = f"after step {t0, t1}: next step ends at {b}, expected {lim}"
                break
            t0, t1 = a, b
        yield None if bad is None else dict(desc, got=bad, steps=log)


def concrete_solve(rng, effort):
    """whole solves: every listed time is the end of an accepted step; dynamics with a jump are integrated exactly"""
    for trial in range(3 * effort):
        back = trial % 2 == 1
        S_ = rng.uniform(0.05, 0.95, 3)
        J_ = rng.uniform(0.05, 0.95, 2)
        sg = -1 if back else 1
        c = dfx.PIDController(rtol=1e-4, atol=1e-6, step_ts=list(sg * S_), jump_ts=list(sg * J_))
        f = lambda t, y, args: sg * jnp.where(sg * t > J_[0], 1.0, 0.0) + jnp.where(sg * t > J_[1], 2.0, 0.0) * sg
        solve = eqx.filter_jit(lambda a, b, y, **kw: dfx.diffeqsolve(
            dfx.ODETerm(f), dfx.Dopri5(), a, b, sg * 0.3, y, stepsize_controller=c, max_steps=512,
            saveat=dfx.SaveAt(steps=True, solver_state=True, controller_state=True, made_jump=True), **kw))
        one = solve(0.0, sg * 1.0, 0.0)
        # the same, stopped on the way and resumed from the states handed back
        tm = rng.uniform(0.02, 0.9)
        fst = solve(0.0, sg * tm, 0.0)
        n1 = int(fst.stats["num_accepted_steps"])
        snd = solve(sg * tm, sg * 1.0, fst.ys[n1 - 1], solver_state=fst.solver_state, controller_state=fst.controller_state, made_jump=fst.made_jump)
        for how, parts in (("one solve", [one]), (f"resumed at {sg * tm}", [fst, snd])):
            ts = np.concatenate([np.asarray(q.ts)[np.isfinite(q.ts)] for q in parts]) * sg
            miss = [x for x in S_ if not np.any(ts == x)]
            missj = [x for x in J_ if not np.any((ts == np.nextafter(x, -np.inf)) | (ts == np.nextafter(x, np.inf)))]
            exact = (1 - J_[0]) + 2 * (1 - J_[1])
            y = float(parts[-1].ys[int(np.isfinite(parts[-1].ts).sum()) - 1])
            rej = sum(int(q.stats["num_rejected_steps"]) for q in parts)
            ok = not miss and not missj and abs(y - exact) < 1e-9 and rej == 0
            yield None if ok else dict(case="solve with step_ts and jump_ts", how=how, backward=back, step_ts=list(S_), jump_ts=list(J_), steps=list(ts), y1=y, expected=exact, rejected=rej)


CONCRETE = [("histories", concrete), ("solves", concrete_solve)]
