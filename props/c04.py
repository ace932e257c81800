"""C04: the PID controller. `PIDController.adapt_step_size` / `init` / `_select_initial_step`."""
from .mainloop import *
import diffrax._step_size_controller.pid as pidmod

FA, FN0, FS = "PIDController.adapt_step_size", "PIDController.init", "_select_initial_step"
PYS = (sds(), sds((2,)))
SYMS = ("t0", "t1", "rtol", "atol", "p", "i", "d", "fmin", "fmax", "safety", "dtmin", "dtmax", "prev", "pprev", "order")


def pw(x, c):
    return S._pow(x, c)


class Out:
    pass


def extract(mode, coeffs=None, dtmin=False, dtmax=False, force=True, own_order=False, order=None, y1nan=False):
    """mode: 'real' (the norm is an arbitrary real), or the constant the norm returns"""
    def norm(tree):
        v = uf("norm", sds(), jnp.zeros(()))  # its argument is recorded, and proved to be the scaled error
        v = note("norm", v, *jtu.tree_leaves(tree))
        return v if mode == "real" else jnp.asarray(float(mode))

    def fn(v, y0, y1, ye, at):
        if y1nan:
            y1 = (y1[0], jnp.where(v["isnan"] > 0, jnp.nan, y1[1]))
        kw = {}
        if coeffs is None:
            kw.update(pcoeff=v["p"], icoeff=v["i"], dcoeff=v["d"])
        else:
            kw.update(coeffs)
        if dtmin:
            kw.update(dtmin=v["dtmin"], force_dtmin=force)
        if dtmax:
            kw.update(dtmax=v["dtmax"])
        if own_order:
            kw.update(error_order=v["own"])
        c = dfx.PIDController(rtol=v["rtol"], atol=v["atol"], norm=norm, factormin=v["fmin"], factormax=v["fmax"], safety=v["safety"], **kw)
        keep, nt0, nt1, mj, cs, res = c.adapt_step_size(v["t0"], v["t1"], y0, y1, None, ye, v["order"] if order is None else order, (v["prev"], v["pprev"], at))
        return dict(keep=keep, t0=nt0, t1=nt1, mj=jnp.asarray(mj), cs=cs[:2], at=jnp.asarray(cs[2]), res=jnp.asarray(res._value))

    f = jnp.asarray(1.0)
    ex = ({k: f for k in SYMS + ("own", "isnan")}, (f, jnp.ones(2)), (f, jnp.ones(2)), (f, jnp.ones(2)), jnp.asarray(True))
    o = Out()
    o.s = {k: T.sym(k) for k in SYMS + ("own", "isnan")}
    o.y0, o.y1, o.ye = [(S.scalar(T.sym(n + "a")), symarr(n + "b", (2,))) for n in ("y0", "y1", "ye")]
    o.at = T.sym("at_dtmin", "B")
    o.out, o.ev = run(fn, ex, ({k: S.scalar(v) for k, v in o.s.items()}, o.y0, o.y1, o.ye, S.scalar(o.at)))
    o.norm_args = [vals for tg, vals, _ in o.ev.notes if tg == "norm"]
    return o


def spec(o, mode, coeffs=None, dtmin=False, dtmax=False, force=True, own_order=False, order=None, y1nan=False):
    s = o.s
    sc = []
    for k, (a, b, e) in enumerate(zip(o.y0, o.y1, o.ye)):
        def one(a, b, e):
            m = T.maximum(T.abs_(a), T.abs_(b))
            if y1nan and k == 1:
                m = T.ite(T.lt(0, s["isnan"]), T.maximum(T.abs_(a), T.abs_(a)), m)
            return T.div(e, T.add(s["atol"], T.mul(m, s["rtol"])))
        sc.append(S.emap(one, a, b, e))
    n = ufT("norm", (), S.scalar(Fr(0)))[()] if mode == "real" else None
    below = T.lt(n, 1) if mode == "real" else float(mode) < 1
    keep = T.or_(below, o.at) if dtmin else below
    p, i, d = (s["p"], s["i"], s["d"]) if coeffs is None else [T.R(T.flt(float(coeffs.get(k, dv)))) for k, dv in (("pcoeff", 0), ("icoeff", 1), ("dcoeff", 0))]
    q = s["own"] if own_order else s["order"] if order is None else T.R(T.flt(float(order)))
    c1, c2, c3 = T.div(T.add(p, i, d), q), T.div(T.neg(T.add(p, T.mul(2, d))), q), T.div(d, q)
    z = lambda c: T.is_c(c) and c == 0
    inv = T.div(1, n) if mode == "real" else None
    if mode == "real":
        f1 = 1 if z(c1) else pw(inv, c1)
        raw = T.mul(s["safety"], f1, 1 if z(c2) else pw(s["prev"], c2), 1 if z(c3) else pw(s["pprev"], c3))
    lo, hi = T.ite(keep, Fr(1), s["fmin"]), T.ite(keep, s["fmax"], s["safety"])
    if mode == "real":
        fac = T.minimum(T.maximum(raw, lo), hi)
    elif float(mode) == 0:
        fac = hi                          # no error at all: grow as much as permitted
    else:
        fac = T.minimum(lo, hi)           # infinite or undefined error: shrink as much as permitted
    dt = T.mul(T.sub(s["t1"], s["t0"]), fac)
    if dtmax:
        dt = T.minimum(dt, s["dtmax"])
    res = 0
    at = o.at
    if dtmin:
        if not force:
            res = T.ite(T.lt(dt, s["dtmin"]), RESV["dt_min_reached"], 0)
        dt = T.ite(T.and_(o.at, T.eq(fac, 1)), s["dtmin"], dt)
        at = T.le(dt, s["dtmin"])
        dt = T.maximum(dt, s["dtmin"])
    nt0 = T.ite(keep, s["t1"], s["t0"])
    hist = inv if mode == "real" else Fr(1)
    cs = (T.ite(keep, hist, s["prev"]), T.ite(keep, s["prev"], s["pprev"]))
    return dict(keep=keep, t0=nt0, t1=T.add(nt0, dt), cs=cs, at=at, res=res, dt=dt, norm=sc, n=n, fac=fac)


def adapt(tag, mode="real", **kw):
    def go(ck):
        begin(ck)
        ck.assume("the norm is an arbitrary function into [0, inf] (or NaN); x**c of a positive real is an uninterpreted positive real function")
        o = extract(mode, **kw)
        w = spec(o, mode, **kw)
        s = o.s
        nm = lambda x: f"{tag}.{x}"
        ctx = [T.lt(s["t0"], s["t1"]), T.lt(0, s["fmin"]), T.lt(s["fmin"], 1), T.lt(0, s["safety"]), T.lt(s["safety"], 1), T.le(1, s["fmax"]), T.lt(0, s["prev"]), T.lt(0, s["pprev"])]
        if kw.get("dtmin"):
            ctx += [T.lt(0, s["dtmin"])]
        if kw.get("dtmax"):
            ctx += [T.lt(0, s["dtmax"])]
        if kw.get("dtmin") and kw.get("dtmax"):
            ctx += [T.le(s["dtmin"], s["dtmax"])]
        if mode == "real":
            ctx += [T.lt(0, w["n"])]
        ck.sat(nm("premises"), ctx)
        if mode == "real":
            ck.fact(nm("the norm is applied"), FA, len(o.norm_args) >= 1, f"{len(o.norm_args)}", "extraction")
            for args in o.norm_args:
                for k, (a, b) in enumerate(zip(args, w["norm"], strict=True)):
                    ck.equal_arr(nm(f"scaled error.{k}"), FA, a, b, [T.lt(0, s["atol"]), T.lt(0, s["rtol"])])
        out = o.out
        K = val(out["keep"])
        ck.valid(nm("accepted exactly when the scaled error is below one"), FA, ctx, T.iff(K, w["keep"]))
        ck.equal(nm("next step start"), FA, val(out["t0"]), w["t0"], ctx)
        ck.equal(nm("next step end"), FA, val(out["t1"]), w["t1"], ctx)
        ck.equal(nm("error history: newest"), FA, val(out["cs"][0]), w["cs"][0], ctx)
        ck.equal(nm("error history: older"), FA, val(out["cs"][1]), w["cs"][1], ctx)
        if kw.get("dtmin"):
            ck.valid(nm("at dtmin"), FA, ctx, T.iff(val(out["at"]), w["at"]))
        ck.equal(nm("result"), FA, val(out["res"]), w["res"], ctx)
        ck.fact(nm("no jump"), FA, val(out["mj"]) is False, "", "simplifier")
        # -- consequences, from the code's own outputs
        dt = T.sub(val(out["t1"]), val(out["t0"]))
        prev = T.sub(s["t1"], s["t0"])
        ck.valid(nm("the next step is positive"), FA, ctx, T.lt(0, dt))
        ck.valid(nm("a kept step moves on to its end"), FA, ctx + [K], T.eq(val(out["t0"]), s["t1"]))
        ck.valid(nm("a rejected step is retried from its start"), FA, ctx + [T.not_(K)], T.eq(val(out["t0"]), s["t0"]))
        if not kw.get("dtmin"):
            ck.valid(nm("a retry is strictly smaller"), FA, ctx + [T.not_(K)], T.lt(dt, prev))
            if not kw.get("dtmax"):
                ck.valid(nm("shrinks by no more than factormin"), FA, ctx + [T.le(s["fmin"], s["safety"])], T.le(T.mul(s["fmin"], prev), dt))
                ck.valid(nm("a kept step is not shrunk"), FA, ctx + [K], T.le(prev, dt))
            ck.valid(nm("grows by no more than factormax"), FA, ctx, T.le(dt, T.mul(s["fmax"], prev)))
        else:
            ck.valid(nm("never below dtmin"), FA, ctx, T.le(s["dtmin"], dt))
        if kw.get("dtmax"):
            ck.valid(nm("never above dtmax"), FA, ctx, T.le(dt, s["dtmax"]))
    return go


def s_init(ck):
    begin(ck)
    for dtmin in (False, True):
        for dtmax in (False, True):
            def fn(t0, t1, dt0, lo, hi):
                kw = (dict(dtmin=lo) if dtmin else {}) | (dict(dtmax=hi) if dtmax else {})
                a, (p, q, at) = dfx.PIDController(rtol=1e-3, atol=1e-6, **kw).init(None, t0, t1, jnp.ones(2), dt0, None, None, 3.0)
                b, _ = dfx.PIDController(rtol=1e-3, atol=1e-6, **kw).init(dfx.ControlTerm(lambda *a: 1.0, lambda a, b: b - a), t0, t1, jnp.ones(2), None, None, None, 3.0)
                return a, p, q, jnp.asarray(at), b
            f = jnp.asarray(1.0)
            s = [T.sym(k) for k in ("t0", "t1", "dt0", "dtmin", "dtmax")]
            (a, p, q, at, b), _ = run(fn, (f,) * 5, tuple(S.scalar(x) for x in s))
            dt = s[2]
            for nm, dt, got in (("given", s[2], a), ("default for other terms", T.R(T.flt(0.01)), b)):
                if dtmax:
                    dt = T.minimum(dt, s[4])
                if dtmin:
                    dt = T.maximum(dt, s[3])
                ck.equal(f"init({nm}, dtmin={dtmin}, dtmax={dtmax})", FN0, val(got), T.add(s[0], dt))
            ck.equal("init.history newest", FN0, val(p), Fr(1))
            ck.equal("init.history older", FN0, val(q), Fr(1))
            ck.fact("init.not at dtmin", FN0, val(at) is False, "", "simplifier")
    # dtypes of the error history: real, of the state's precision
    for dt, want in ((jnp.float32, jnp.float32), (jnp.float64, jnp.float64), (jnp.complex64, jnp.float32), (jnp.complex128, jnp.float64)):
        _, (p, q, at) = dfx.PIDController(rtol=1e-3, atol=1e-6).init(None, 0.0, 1.0, jnp.ones(2, dt), 0.1, None, None, 3.0)
        ck.fact(f"init.history dtype for {dt.__name__}", FN0, p.dtype == want and q.dtype == want, f"{p.dtype}", "concrete evaluation")


def s_initial_step(ck):
    """Hairer, Norsett & Wanner, Algorithm II.4: starting step size"""
    begin(ck)
    norm = lambda t: uf("norm", sds(), t)

    def fn(t0, y0, args, rtol, atol, q):
        term = dfx.ODETerm(lambda t, y, args: uf("vf", PYS, t, y, args))
        return pidmod._select_initial_step(term, t0, y0, args, lambda terms, t, y, a: terms.vf(t, y, a), q, rtol, atol, norm)
    f = jnp.asarray(1.0)
    s = {k: T.sym(k) for k in ("t0", "args", "rtol", "atol", "q")}
    y0 = (S.scalar(T.sym("ya")), symarr("yb", (2,)))
    h, _ = run(fn, (f, (f, jnp.ones(2)), f, f, f, f), (S.scalar(s["t0"]), y0, *[S.scalar(s[k]) for k in ("args", "rtol", "atol", "q")]))
    V = lambda t, y: (ufT("vf", (), S.scalar(t), *y, S.scalar(s["args"]), nout=2, o=0), ufT("vf", (2,), S.scalar(t), *y, S.scalar(s["args"]), nout=2, o=1))
    sc = [S.emap(lambda v: T.add(s["atol"], T.mul(T.abs_(v), s["rtol"])), y) for y in y0]
    N = lambda z: ufT("norm", (), *[S.emap(T.div, a, b) for a, b in zip(z, sc)])[()]
    f0 = V(s["t0"], y0)
    d0, d1 = N(y0), N(f0)
    eps = T.R(T.flt(1e-5))
    small = T.or_(T.lt(d0, eps), T.lt(d1, eps))
    for case, pr, h0 in (("small", [small], T.R(T.flt(1e-6))), ("normal", [T.not_(small)], T.mul(T.R(T.flt(0.01)), T.div(d0, d1)))):
        ya = tuple(S.emap(lambda a, b: T.add(a, T.mul(h0, b)), y, g) for y, g in zip(y0, f0))
        f1 = V(T.add(s["t0"], h0), ya)
        d2 = T.div(N([S.emap(T.sub, b, a) for a, b in zip(f0, f1)]), h0)
        m = T.maximum(d1, d2)
        h1 = T.ite(T.le(m, T.R(T.flt(1e-15))), T.maximum(T.R(T.flt(1e-6)), T.mul(h0, T.R(T.flt(1e-3)))), pw(T.div(T.R(T.flt(0.01)), m), T.div(1, s["q"])))
        pos = [T.lt(0, s["atol"]), T.lt(0, s["rtol"]), T.le(0, d0), T.le(0, d1)]
        ck.equal(f"initial step.{case}", FS, val(core.under(h, pr + pos)), T.minimum(T.mul(100, h0), h1), pr + pos)


def s_order(ck):
    begin(ck)
    c = dfx.PIDController(rtol=1e-3, atol=1e-6)
    ck.fact("error order: the solver's", "PIDController._get_error_order", c._get_error_order(3.5) == 3.5, "", "concrete evaluation")
    ck.fact("error order: the user's takes priority", "PIDController._get_error_order", dfx.PIDController(rtol=1e-3, atol=1e-6, error_order=2.0)._get_error_order(3.5) == 2.0, "", "concrete evaluation")
    r = False
    try:
        c._get_error_order(None)
    except ValueError:
        r = True
    ck.fact("error order: none is refused", "PIDController._get_error_order", r, "", "concrete evaluation")
    r = False
    try:
        c.adapt_step_size(0.0, 1.0, jnp.ones(1), jnp.ones(1), None, None, 3.0, (1.0, 1.0, False))
    except RuntimeError:
        r = True
    ck.fact("no error estimate is refused", FA, r, "", "concrete evaluation")
    d = dfx.PIDController(rtol=1e-3, atol=1e-6)
    ck.fact("defaults", "PIDController", (d.pcoeff, d.icoeff, d.dcoeff, d.dtmin, d.dtmax, d.force_dtmin, d.factormin, d.factormax, d.safety) == (0, 1, 0, None, None, True, 0.2, 10.0, 0.9), "", "concrete evaluation")


PI = dict(pcoeff=0.3, icoeff=0.4, dcoeff=0.0)
SECTIONS = [
    ("any coefficients", adapt("any")),
    ("defaults", adapt("I", coeffs={})),
    ("PI", adapt("PI", coeffs=PI)),
    ("PID", adapt("PID", coeffs=dict(pcoeff=0.2, icoeff=0.4, dcoeff=0.1), order=2.5)),
    ("own error order", adapt("own order", own_order=True)),
    ("dtmax", adapt("dtmax", dtmax=True)),
    ("dtmin", adapt("dtmin", dtmin=True)),
    ("dtmin, not forced", adapt("dtmin!", dtmin=True, force=False)),
    ("dtmin and dtmax", adapt("both", dtmin=True, dtmax=True)),
    ("undefined candidate", adapt("nan", y1nan=True)),
] + [(f"error {m} {t}", adapt(f"{m} {t}", mode=m, coeffs=c, order=2.5, **kw)) for m in ("0", "inf", "nan")
     for t, c, kw in (("defaults", {}, {}), ("PID", dict(pcoeff=0.2, icoeff=0.4, dcoeff=0.1), {}), ("dtmin", {}, dict(dtmin=True)), ("both, not forced", PI, dict(dtmin=True, dtmax=True, force=False)))] + [
    ("first step", s_init), ("automatic first step", s_initial_step), ("error order", s_order)]


# ---------------------------------------------------------------- executable contract
def ref(c, t0, t1, y0, y1, ye, order, st):
    prev, pprev, at = st
    a0, a1 = np.abs(y0), np.abs(y1)
    if np.isnan(y1).any():
        a1 = a0
    with np.errstate(all="ignore"):
        sc = ye / (c.atol + c.rtol * np.maximum(a0, a1))
        se = np.sqrt(np.mean(np.abs(sc) ** 2))
    if np.isnan(se):
        se = np.inf
    keep = se < 1 or (c.dtmin is not None and at)
    q = order if c.error_order is None else c.error_order
    p, i, d = c.pcoeff, c.icoeff, c.dcoeff
    with np.errstate(all="ignore"):
        inv = np.float64(1) / np.float64(se)
        raw = c.safety * (1 if p + i + d == 0 else inv ** ((p + i + d) / q)) * prev ** (-(p + 2 * d) / q) * pprev ** (d / q)
    fac = min(max(raw, 1.0 if keep else c.factormin), c.factormax if keep else c.safety)
    dt = (t1 - t0) * fac
    if inv == 0 or np.isinf(inv):
        inv = 1.0
    res = 0
    if c.dtmax is not None:
        dt = min(dt, c.dtmax)
    if c.dtmin is not None:
        if not c.force_dtmin and dt < c.dtmin:
            res = RESV["dt_min_reached"]
        if at and fac == 1:
            dt = c.dtmin
        at = dt <= c.dtmin
        dt = max(dt, c.dtmin)
    n0 = t1 if keep else t0
    return keep, n0, n0 + dt, ((inv, prev) if keep else (prev, pprev)) + (bool(at),), res


def concrete(rng, effort):
    for trial in range(150 * effort):
        kw = dict(rtol=float(10 ** rng.uniform(-6, -1)), atol=float(10 ** rng.uniform(-8, -1)))
        if rng.uniform() < 0.7:
            kw.update(pcoeff=float(rng.choice([0, 0.3, rng.uniform(0, 1)])), icoeff=float(rng.choice([0.3, 1, rng.uniform(0.1, 1)])), dcoeff=float(rng.choice([0, 0.1, rng.uniform(0, 0.5)])))
        if rng.uniform() < 0.4:
            kw.update(dtmin=float(rng.uniform(0.001, 0.3)), force_dtmin=bool(rng.integers(2)))
        if rng.uniform() < 0.4:
            kw.update(dtmax=float(rng.uniform(0.3, 2)))
        if rng.uniform() < 0.3:
            kw.update(factormin=float(rng.uniform(0.1, 0.5)), factormax=float(rng.uniform(1, 20)), safety=float(rng.uniform(0.6, 0.99)))
        if rng.uniform() < 0.2:
            kw.update(error_order=float(rng.uniform(1, 5)))
        c = dfx.PIDController(**kw)
        t0 = float(rng.normal())
        dt = float(rng.choice([rng.uniform(0.01, 1), kw.get("dtmin", 0.1)]))
        t1 = t0 + dt
        y0, y1 = rng.normal(size=3) * 10 ** rng.uniform(-3, 3, size=3), rng.normal(size=3) * 10 ** rng.uniform(-3, 3, size=3)
        tol = c.atol + c.rtol * np.maximum(np.abs(y0), np.abs(y1))
        ye = rng.normal(size=3) * tol * 10 ** rng.uniform(-2, 2)
        sp = rng.uniform()
        if sp < 0.08:
            ye = ye * 0
        elif sp < 0.16:
            ye[rng.integers(3)] = np.inf
        elif sp < 0.24:
            ye[:] = np.inf
            y1[rng.integers(3)] = rng.choice([np.inf, -np.inf, np.nan])
        elif sp < 0.3:
            y0 = y0 * 0
        order = float(rng.choice([2.0, 3.0, 4.5]))
        st = (float(10 ** rng.uniform(-2, 2)), float(10 ** rng.uniform(-2, 2)), bool(rng.integers(2)))
        keep, n0, n1, mj, cs, res = c.adapt_step_size(t0, t1, jnp.asarray(y0), jnp.asarray(y1), None, jnp.asarray(ye), order, (jnp.asarray(st[0]), jnp.asarray(st[1]), jnp.asarray(st[2])))
        w = ref(c, t0, t1, y0, y1, ye, order, st)
        got = (bool(keep), float(n0), float(n1), (float(cs[0]), float(cs[1]), bool(cs[2])), int(np.asarray(res._value)))
        good = got[0] == w[0] and close(got[1], w[1], 1e-12) and close(got[2] - got[1], w[2] - w[1], 1e-8) and close(got[3][:2], w[3][:2], 1e-9) and \
            (c.dtmin is None or got[3][2] == w[3][2] or abs(w[2] - w[1] - c.dtmin) < 1e-9) and got[4] == w[4] and not bool(mj)
        yield None if good else dict(case=f"adapt_step_size({kw}) t0={t0} t1={t1} y0={y0.tolist()} y1={y1.tolist()} y_error={ye.tolist()} order={order} state={st}",
                                     got=str(got), expected=str(w))


def concrete_solve(rng, effort):
    # overflow during a step is recovered from
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.exp(y ** 4)), dfx.Heun(), 0, 0.8, 0.79, jnp.array([0.0]), max_steps=4000,
                          stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-6), throw=False)
    yield None if bool(sol.result == dfx.RESULTS.successful) else dict(case="y' = exp(y^4), dt0=0.79", got=str(sol.result), expected="successful")
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.exp(y ** 4)), dfx.Heun(), 0, 10.0, 9.0, jnp.array([0.0]), max_steps=100,
                          stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-6), throw=False)
    yield None if int(sol.stats["num_accepted_steps"]) > 0 else dict(case="y' = exp(y^4), dt0=9: the first step overflows", got=str(sol.stats), expected="retried with smaller steps")
    # the automatic first step of an ODE
    term = dfx.ODETerm(lambda t, y, a: -1000.0 * y)
    c = dfx.PIDController(rtol=1e-6, atol=1e-6)
    y0 = jnp.array([1.0])
    want, _ = c.init(term, 0.0, 1.0, y0, None, None, dfx.Tsit5().func, 5.0)
    log = []

    class Spy(dfx.Tsit5):
        def step(self, terms, t0, t1, y0, args, ss, mj):
            jax.debug.callback(lambda a, b: log.append((float(a), float(b))), t0, t1, ordered=True)
            return super().step(terms, t0, t1, y0, args, ss, mj)
    dfx.diffeqsolve(term, Spy(), 0.0, 0.01, None, y0, stepsize_controller=c)
    jax.effects_barrier()
    yield None if abs(log[0][1] - float(want)) < 1e-12 else dict(case="automatic first step of an ODE: diffeqsolve(ODETerm(-1000 y), Tsit5, dt0=None)", got=log[0], expected=float(want))


CONCRETE = [("adapt_step_size", concrete), ("solves", concrete_solve)]
