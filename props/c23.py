"""C23: progress meters: what they are told, what they show, and that nothing depends on them."""
from .c17 import *
from .c21 import batch, assumptions
import diffrax._progress_meter as PM

FM, FC = "loop (progress meter)", "diffeqsolve (progress meter)"


class UMeter(dfx.AbstractProgressMeter):
    """an arbitrary progress meter"""

    def init(self):
        s = uf("meter_init", sds((2,)))
        return note("meter_init", s, s)

    def step(self, state, progress):
        s = uf("meter_step", sds((2,)), state, progress)
        return note("meter_step", s, s, state, progress)

    def close(self, state):
        note("meter_close", state, state)


def mentions(tree, name):
    ts = [v for v in flat_(tree) if isinstance(v, T.Term)]
    return sorted({t.name for t in T.subterms(ts) if t.op == "app" and t.name.startswith(name)})


def flat_(x):
    return [v for l in jtu.tree_leaves(x, is_leaf=lambda z: isinstance(z, np.ndarray)) for v in np.reshape(np.asarray(l, dtype=object), (-1,))]


def told(tag, meter=True, **kw):
    """what a solve tells its meter"""
    def go(ck):
        begin_loop(ck)
        vc = LoopVC(meter=UMeter(), **kw)
        n = lambda s: f"{tag}.{s}"
        p, q, x, i0 = vc.pre, vc.post, vc.exit, vc.init
        t0, t1 = T.mul(vc.sgn, vc.t0), T.mul(vc.sgn, vc.t1)
        req = [vc.order] + vc.requires
        st, c = spec_of(vc)
        get = lambda notes, k: [(v, pa) for tg, v, pa in notes if tg == k]
        ini = get(vc.early, "meter_init")
        ck.fact(n("opened once, before the first step"), FC, len(ini) == 1 and not get(vc.notes + vc.late, "meter_init") and ini[0][1] == [], f"{len(ini)}")
        ck.equal_arr(n("the loop starts from the state it was opened with"), FC, i0.progress_meter_state, ufT("meter_init", (2,)))
        steps = get(vc.notes, "meter_step")
        ok = len(steps) == 1 and not get(vc.early + vc.late, "meter_step")
        ck.fact(n("told once for every attempted step"), FM, ok and all(b is True for b in steps[0][1]), f"{[(len(steps), s[1]) for s in steps]}")
        if not ok:
            return
        new, old, pr = steps[0][0]
        prem = req + vc.floor_facts + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
        ck.sat(n("premises"), prem)
        ck.equal_arr(n("the meter's state is the one it returned for the step before"), FM, old, p.progress_meter_state)
        ck.equal_arr(n("and what it returns is kept"), FM, q.progress_meter_state, new)
        pr = val(pr)
        tp = val(q.tprev)
        ck.valid(n("progress: the part of the interval up to the solver's time"), FM, prem, T.eq(T.mul(pr, T.sub(t1, t0)), T.sub(tp, t0)))
        ck.valid(n("progress >= 0"), FM, prem, T.le(0, pr))
        ck.valid(n("progress <= 1"), FM, prem, T.le(pr, 1))
        ck.valid(n("progress is 1 exactly when t1 is reached"), FM, prem, T.iff(T.eq(pr, 1), T.eq(tp, t1)))
        was = T.div(T.sub(val(p.tprev), t0), T.sub(t1, t0))
        ck.valid(n("a kept step advances it"), FM, prem + [c["keep"]], T.lt(was, pr))
        ck.valid(n("a rejected step leaves it"), FM, prem + [T.not_(c["keep"])], T.eq(was, pr))
        end = get(vc.late, "meter_close")
        ck.fact(n("closed once, after the last step"), FC, len(end) == 1 and not get(vc.early + vc.notes, "meter_close") and all(b is True for b in end[0][1]), f"{len(end)}")
        if len(end) == 1:
            ck.equal_arr(n("closed with the state of the last step"), FC, end[0][0][0], x.progress_meter_state)
        # -- nothing depends on it
        mine = set(v for v in flat_(p.progress_meter_state) if isinstance(v, T.Term)) | set(v for v in flat_(x.progress_meter_state) if isinstance(v, T.Term))
        for what, tree in (("state before the first step", {f: getattr(i0, f) for f in fields(i0)}), ("state after a step", {f: getattr(q, f) for f in fields(q)}),
                           ("whether to go on", [S.scalar(vc.cond_pre), S.scalar(vc.cond_exit)]), ("solution", vc.out)):
            bad = mentions(tree, "meter_") + sorted({t.name for t in T.subterms([v for v in flat_(tree) if isinstance(v, T.Term)]) if t in mine})
            ck.fact(n(f"{what}: independent of the meter"), FM, not bad, f"depends on {bad}", "noninterference")
        for tg, v, pa in vc.early + vc.notes + vc.late:
            if tg in ("error_if", "throw", "rootfind", "ctrl"):
                bad = mentions([*v, *[S.scalar(b) for b in pa]], "meter_")
                if bad:
                    ck.fact(n(f"{tg}: independent of the meter"), FM, False, f"depends on {bad}", "noninterference")
    return go


def fields(s):
    import dataclasses
    return [f.name for f in dataclasses.fields(s) if f.name != "progress_meter_state"]


def same_as_none(ck):
    """the solve with an arbitrary meter is the solve without one"""
    begin_loop(ck)
    for tag, kw in (("forward", dict(backward=False)), ("backward", dict(backward=True)), ("steps and dense", dict(backward=False, saveat=lambda ts: dfx.SaveAt(t1=True, steps=True, dense=True)))):
        a, b = LoopVC(meter=UMeter(), **kw), LoopVC(meter=dfx.NoProgressMeter(), **kw)
        for what, u, v in (("state before the first step", a.init, b.init), ("state after a step", a.post, b.post), ("solution", None, None)):
            if u is None:
                l, r = flat_(a.out), flat_(b.out)
                # the carry has other positions: compare the parts that do not come from it by shape only
                ck.fact(f"{tag}.{what}: the same values are returned", FC, len(l) == len(r), f"{len(l)} {len(r)}")
                continue
            sm = {}
            for f in fields(u):
                for x, y in zip(flat_(getattr(a.pre, f)), flat_(getattr(b.pre, f))):
                    if isinstance(x, T.Term):
                        sm[x] = y
            for x, y in zip(a.floors, b.floors):
                sm[x] = y
            for f in fields(u):
                l, r = flat_(getattr(u, f)), flat_(getattr(v, f))
                if len(l) != len(r):
                    ck.fact(f"{tag}.{what}.{f}", FC, False, "different structure")
                    continue
                for k, (x, y) in enumerate(zip(l, r)):
                    x = T.subst(x, sm) if isinstance(x, T.Term) else x
                    if x is not y:
                        ck.equal(f"{tag}.{what}.{f}[{k}]", FC, x, y)
                ck.fact(f"{tag}.{what}.{f}: {len(l)} values", FC, True, "")


def rescale(ck):
    """t0 == t1"""
    begin(ck)
    from diffrax._misc import linear_rescale
    a, t, b = T.sym("a"), T.sym("t"), T.sym("b")
    o, _ = run(linear_rescale, (1.0, 1.0, 2.0), (S.scalar(a), S.scalar(t), S.scalar(b)))
    o = val(o)
    fn = "linear_rescale"
    ck.equal("no interval: no progress", fn, T.subst(o, {b: a}), 0)
    ck.valid("otherwise the part of it", fn, [T.lt(a, b)], T.eq(T.mul(o, T.sub(b, a)), T.sub(t, a)))
    f = lambda x, y, z: jax.jvp(linear_rescale, (x, y, z), (1.0, 2.0, 3.0))[1]
    o, _ = run(f, (1.0, 1.0, 2.0), (S.scalar(a), S.scalar(t), S.scalar(b)))
    ck.equal("no interval: no derivative", fn, T.subst(val(o), {b: a, t: a}), 0)


def undifferentiated(ck):
    """a meter is a side effect: whatever is differentiated, it is told a number that is not"""
    begin_loop(ck)
    for tag, kw in (("forward", dict(backward=False)), ("backward", dict(backward=True))):
        vc = LoopVC(meter=UMeter(), jvp=True, **kw)
        bad = mentions([vc.dpost, vc.dinit, vc.dout], "meter_step'2")
        ck.fact(f"{tag}: the progress is not differentiated", FM, not bad, f"derivatives {bad[:4]}", "noninterference")
        ck.fact(f"{tag}: the solution's derivatives are independent of the meter", FM, not mentions(vc.dout, "meter_"), "", "noninterference")


# ---------------------------------------------------------------- the meters
@contextlib.contextmanager
def callbacks(box=None):
    """host callbacks by contract: called with what they are given, in order, wherever the program gets to them; what they return
    is theirs to choose"""
    old = jax.pure_callback, PM.io_callback, jax.experimental.io_callback

    def cb(kind):
        def go(f, out, *args, **kw):
            if box is not None:
                box.append((kind, f))
            ins = [jnp.asarray(a) for a in args]
            if out is None:
                note(kind, jnp.asarray(0.0), *ins)
                return None
            s = uf(kind, jtu.tree_map(lambda o: jax.ShapeDtypeStruct(jnp.shape(o), jnp.result_type(o) if not hasattr(o, "dtype") else o.dtype), out), *ins)
            lv, td = jtu.tree_flatten(s)
            lv[0] = note(kind, lv[0], *ins)
            return jtu.tree_unflatten(td, lv)
        return go
    jax.pure_callback = cb("step callback")
    PM.io_callback = jax.experimental.io_callback = cb("io callback")
    try:
        yield
    finally:
        jax.pure_callback, PM.io_callback, jax.experimental.io_callback = old


def step_of(cls, st_ex, st_vals, meter=None, batched=False, box=None):
    p = T.sym("progress")
    m = T.sym("minimum_increase")

    def f(st, pr, mi):
        mt = meter(mi)
        s = cls(**st)
        o = mt.step(s, pr)
        return {k: jnp.asarray(getattr(o, k)) for k in st}
    with callbacks(box):
        e = Extract(f, (st_ex, 0.5, 0.1))
        vals = (st_vals, S.scalar(p), S.scalar(m))
        if not batched:
            return e(vals), None
        with batch() as made:
            r = e(vals)
        return r, made


def text(ck):
    begin(ck)
    assumptions(ck)
    fn = "TextProgressMeter.step"
    s, i, p, m = T.sym("shown"), T.sym("idx"), T.sym("progress"), T.sym("minimum_increase")
    ex, vals = dict(progress=0.5, meter_idx=jnp.asarray(3)), dict(progress=S.scalar(s), meter_idx=S.scalar(i))
    mk = lambda mi: dfx.TextProgressMeter(minimum_increase=mi)
    want = T.or_(T.lt(m, T.sub(p, s)), T.eq(p, 1))
    for batched in (False, True):
        (o, ev), made = step_of(PM._TextProgressMeterState, ex, vals, mk, batched)
        n = lambda q: f"{'one of a batch' if batched else 'alone'}.{q}"
        calls = [(v, pa) for tg, v, pa in ev.notes if tg == "step callback"]
        ck.fact(n("one callback"), fn, len(calls) == 1, str(len(calls)))
        if len(calls) != 1:
            continue
        v, pa = calls[0]
        rest = [z for z in (made or []) if isinstance(z, T.Term)]
        al = [z for z in rest if z.sort == "B"]
        w = T.and_(want, *al)
        ck.valid(n("a line is printed iff the progress has grown by more than minimum_increase, or is complete"), fn, [], T.iff(T.and_(*pa), w))
        mx = [z for z in rest if z.sort != "B"]
        slow = p
        for z in mx:
            slow = T.minimum(slow, T.neg(z))
        ck.fact(n("the rest of the batch takes part"), fn, (len(al), len(mx)) == ((1, 1) if batched else (0, 0)), f"{len(al)} {len(mx)}")
        ck.equal(n("what is printed: the progress of the slowest"), fn, val(v[0]), slow)
        ck.equal(n("on its own line of the display"), fn, val(v[1]), i)
        ck.equal(n("remembers what was shown"), fn, val(o["progress"]), T.ite(w, p, s))
        got = val(o["meter_idx"])
        ck.valid(n("the display stays the same when nothing is printed"), fn, [T.not_(w)], T.eq(got, i))
        ck.fact(n("the callbacks are ordered by the display they return"), fn, bool(mentions([S.scalar(T.subst(got, {}) if isinstance(got, T.Term) else got)], "step callback")), T.show(got, maxdepth=3))
    # -- what follows over a solve
    s2, p2 = T.sym("s2"), T.sym("p2")
    line = lambda p, s: T.or_(T.lt(m, T.sub(p, s)), T.eq(p, 1))
    ck.valid("never far behind", fn, [T.le(0, m), T.le(s, p)], T.le(T.sub(p, T.ite(want, p, s)), m))
    ck.valid("a printed line shows more than the one before (or the end)", fn, [T.le(0, m), want], T.or_(T.lt(T.add(s, m), p), T.eq(p, 1)))
    both = [T.le(0, m), T.le(s, p), T.le(s2, p2), T.le(p, 1), T.le(p2, 1), line(p, s), line(p2, s2)]
    ck.valid("a batch: likewise for the slowest", fn, both, T.or_(T.lt(T.add(T.minimum(s, s2), m), T.minimum(p, p2)), T.eq(T.minimum(p, p2), 1)))


def tqdm_(ck):
    begin(ck)
    assumptions(ck)
    fn = "TqdmProgressMeter.step"
    i, k, p = T.sym("idx"), T.sym("steps", "I"), T.sym("progress")
    for r in (1, 2, 7, 20, 100):
        for batched in (False, True):
            ex, vals = dict(step=jnp.asarray(3), meter_idx=jnp.asarray(3)), dict(step=S.scalar(k), meter_idx=S.scalar(i))
            with tq():
                (o, ev), made = step_of(PM._TqdmProgressMeterState, ex, vals, lambda mi: dfx.TqdmProgressMeter(refresh_steps=r), batched)
            n = lambda q: f"refresh_steps={r}, {'one of a batch' if batched else 'alone'}.{q}"
            ck.equal(n("steps are counted"), fn, val(o["step"]), T.add(k, 1))
            calls = [(v, pa) for tg, v, pa in ev.notes if tg == "step callback"]
            ints = [z for z in made or [] if T.sort_of(z) == "I"]
            reals = [z for z in made or [] if T.sort_of(z) == "R"]
            if not ck.fact(n("one callback; the rest of the batch takes part"), fn, len(calls) == 1 and (len(ints), len(reals)) == ((1, 1) if batched else (0, 0)),
                           f"{len(calls)} {len(ints)} {len(reals)}"):
                continue
            # the number of steps of the batch is the largest number of steps of an element
            kk, slow = k, p
            for z in ints:
                kk = T.maximum(kk, z)
            for z in reals:
                slow = T.minimum(slow, T.neg(z))
            (v, pa), = calls
            q = T.sym("q", "I")
            pre = [T.le(0, k), *[T.le(0, z) for z in ints]]
            ck.valid(n("the bar is refreshed every refresh_steps steps"), fn, pre + [T.le(0, q), T.eq(kk, T.mul(r, q))], T.and_(*pa))
            for j in range(1, r) if r < 30 else (1, 7, 50, r - 1):
                ck.valid(n(f"and not otherwise ({j} steps after that)"), fn, pre + [T.le(0, q), T.eq(kk, T.add(T.mul(r, q), j))], T.not_(T.and_(*pa)))
            ck.equal(n("shows the progress of the slowest"), fn, val(v[0]), slow)
            ck.equal(n("on its own bar"), fn, val(v[1]), i)


@contextlib.contextmanager
def tq():
    """TqdmProgressMeter is created whether or not tqdm is there"""
    import importlib.util
    old = importlib.util.find_spec
    importlib.util.find_spec = lambda name, *a: old(name, *a) or (object() if name == "tqdm" else None)
    try:
        yield
    finally:
        importlib.util.find_spec = old


def opened(ck):
    """init and close"""
    begin(ck)
    for cls in ("TextProgressMeter", "TqdmProgressMeter"):
        box = []
        with tq(), callbacks(box):
            def f():
                s = getattr(dfx, cls)().init()
                return {k.name: jnp.asarray(getattr(s, k.name)) for k in __import__("dataclasses").fields(s)}
            (o), ev = run(f, (), ())
        calls = [c for c in ev.notes if c[0] == "io callback"]
        ck.fact(f"{cls}.init: opens one display", f"{cls}.init", len(calls) == 1 and len(box) == 1, str(len(calls)))
        ck.fact(f"{cls}.init: and remembers it", f"{cls}.init", bool(mentions([o["meter_idx"]], "io callback")), "")
        for k in o:
            if k != "meter_idx":
                ck.equal(f"{cls}.init: nothing shown yet", f"{cls}.init", val(o[k]), 0)
        st = PM._TextProgressMeterState if cls.startswith("Text") else PM._TqdmProgressMeterState
        other = "progress" if cls.startswith("Text") else "step"
        i = T.sym("idx")
        with tq(), callbacks():
            def f(k, z):
                getattr(dfx, cls)().close(st(**{"meter_idx": k, other: z}))
                return k
            _, ev = run(f, (jnp.asarray(3), jnp.asarray(0.5)), (S.scalar(i), S.scalar(T.sym("z"))))
        calls = [(v, pa) for tg, v, pa in ev.notes if tg == "io callback"]
        ck.fact(f"{cls}.close: once", f"{cls}.close", len(calls) == 1 and all(b is True for b in calls[0][1]), str(len(calls)))
        if calls:
            ck.equal(f"{cls}.close: its own display", f"{cls}.close", val(calls[0][0][0]), i)


def nothing(ck):
    begin(ck)
    m = dfx.NoProgressMeter()
    with callbacks(box := []):
        s = m.init()
        f = lambda p: (m.step(s, p), m.close(s), p)[2]
        o, ev = run(f, (0.5,), (S.scalar(T.sym("p")),))
    ck.fact("NoProgressMeter does nothing", "NoProgressMeter", not box and not ev.notes, "")


# ---------------------------------------------------------------- the real meters, run
def concrete(rng, effort):
    import io
    import re
    man = PM._progress_meter_manager
    F = lambda f: dict(contract=f)

    def capture(f):
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            r = jax.block_until_ready(f())
            jax.effects_barrier()
            return r, sys.stdout.getvalue(), sys.stderr.getvalue()
        finally:
            sys.stdout, sys.stderr = old

    def solve(t0, t1, dt0, y0, meter, ctrl=None, adjoint=None, **kw):
        return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y * (1 + t)), dfx.Heun(), t0, t1, dt0, y0, stepsize_controller=ctrl or dfx.ConstantStepSize(),
                               adjoint=adjoint or dfx.RecursiveCheckpointAdjoint(), progress_meter=meter, max_steps=512, **kw).ys[-1]
    has_tqdm = __import__("importlib").util.find_spec("tqdm") is not None
    # lines of text
    for trial in range(3 * effort):
        n = int(rng.integers(2, 40))
        inc = float(rng.choice([0.0, 0.013, 0.0513, 0.2171, 0.613, 1.5]))
        bw = bool(rng.integers(2))
        t0, t1 = float(rng.normal()), None
        t1 = t0 + float(rng.uniform(0.5, 2)) * (-1 if bw else 1)
        for jit in (False, True)[:effort]:
            g = lambda a: solve(a, t1, (t1 - a) / (n - 0.5), 1.0, dfx.TextProgressMeter(inc))
            _, out, _ = capture(lambda: (jax.jit(g) if jit else g)(t0))
            shown, want = 0.0, [0.0]
            near = False
            for k in range(1, n + 1):
                p = min(k / (n - 0.5), 1.0)
                near |= abs(p - shown - inc) < 1e-6
                if p - shown > inc or k == n:
                    shown = p
                    want.append(p)
            got = [float(l[:-1]) / 100 for l in out.split()]
            if got[-2:] == [1.0, 1.0]:      # (t1 - t0) / (t1 - t0), rounded, may be just below 1: the closing line follows it
                got.pop()
            if near:
                continue
            if len(got) != len(want) or max(abs(a - b) for a, b in zip(got, want)) > 1e-4 or not re.fullmatch(r"(\d+\.\d\d%\n)+", out):
                yield dict(contract="lines of TextProgressMeter", n=n, minimum_increase=inc, backward=bw, jit=jit, printed=out, expected=str(want))
            elif man.bars:
                yield dict(contract="displays are closed", bars=str(man.bars))
            else:
                yield None
    # a batch: one display, the slowest; jumps of the controller; other displays at the same time
    for trial in range(2 * effort):
        n = int(rng.integers(3, 20))
        t0s = jnp.asarray(rng.uniform(-1, 0, size=3))
        h = 1.0 / n
        inc = 0.1037
        _, out, _ = capture(lambda: jax.vmap(lambda a: solve(a, 1.0, h, 1.0, dfx.TextProgressMeter(inc)))(t0s))
        pr = lambda a, k: min((k * h) / (1 - a), 1.0) if (a + k * h < 1 - 1e-9) else 1.0
        shown = [0.0] * 3
        want = [0.0]
        for k in range(1, 2 * n + 2):
            ps = [pr(float(a), k) for a in t0s]
            if all(p - s > inc or p == 1 for p, s in zip(ps, shown)) and min(shown) < 1:
                shown = ps
                want.append(min(ps))
        got = [float(l[:-1]) / 100 for l in out.split()]
        if len(got) != len(want) or max(abs(a - b) for a, b in zip(got, want)) > 1e-4:
            yield dict(contract="a batch shows its slowest element", t0=np.asarray(t0s).tolist(), n=n, printed=out, expected=str(want))
        else:
            yield None
    # displays opened, told and closed in any order
    for trial in range(4 * effort):
        live, log, want, k = {}, {}, {}, 0
        for _ in range(30):
            op = int(rng.integers(3))
            if op == 0 or not live:
                k += 1
                name = f"display {k}"
                log[name], want[name] = [], []
                live[name] = man.init(lambda: name)
            else:
                name = list(live)[int(rng.integers(len(live)))]
                if op == 1:
                    p = float(rng.uniform())
                    want[name].append(p)
                    jax.block_until_ready(man.step(lambda b, q: log[b].append(float(q)), jnp.asarray(p), live[name]))
                else:
                    want[name].append("closed")
                    man.close(lambda b: log[b].append("closed"), live.pop(name))
        for name, i in live.items():
            want[name].append("closed")
            man.close(lambda b: log[b].append("closed"), i)
        jax.effects_barrier()
        yield None if log == want and not man.bars else dict(contract="displays opened, told and closed in any order", seen=str(log), expected=str(want))
        man.bars.clear()
    # bars
    if has_tqdm:
        for r in (1, 3, 20):
            seen = []

            class Bar:
                def __init__(self, *a, **k):
                    self.n = 0
                    self.total = k.get("total")
                    seen.append(("open", self.total))

                def update(self, n=1):
                    self.n += n

                def refresh(self):
                    seen.append(("show", self.n))

                def close(self):
                    seen.append(("close", self.n))
            import tqdm as tqm
            old = tqm.tqdm
            tqm.tqdm = Bar
            try:
                n = int(rng.integers(4, 50))
                capture(lambda: solve(0.0, 1.0, 1.0 / n, 1.0, dfx.TqdmProgressMeter(refresh_steps=r)))
            finally:
                tqm.tqdm = old
            want = [("open", 100)] + [("show", round(100 * (k + 1) / n, 2)) for k in range(0, n, r)] + [("close", 100.0)]
            ok = len(seen) == len(want) and all(a == b and abs(x - y) < 0.011 for (a, x), (b, y) in zip(seen, want))
            yield None if ok else dict(contract="bars of TqdmProgressMeter", refresh_steps=r, n=n, seen=str(seen), expected=str(want))
        # several displays at the same time: each is told its own solve's progress
        bars = []

        class Bar2:
            def __init__(self, *a, **k):
                self.n, self.seen = 0, []
                bars.append(self)

            def update(self, n=1):
                self.n += n

            def refresh(self):
                self.seen.append(self.n)

            def close(self):
                self.seen.append(("closed", self.n))
        old, tqm.tqdm = tqm.tqdm, Bar2
        try:
            two = lambda y: solve(0.0, 1.0, 0.25, y, dfx.TqdmProgressMeter(refresh_steps=1)) + solve(0.0, 1.0, 0.5, y, dfx.TqdmProgressMeter(refresh_steps=1))
            for f in (two, jax.jit(two)):
                capture(lambda: f(1.0))
        finally:
            tqm.tqdm = old
        want = sorted([str([25.0, 50.0, 75.0, 100.0, ("closed", 100.0)]), str([50.0, 100.0, ("closed", 100.0)])] * 2)
        got = sorted(str(b.seen) for b in bars)
        yield None if got == want else dict(contract="several displays at the same time", seen=str(got), expected=str(want))
    # results and gradients are those of the solve without a meter
    ms = [dfx.TextProgressMeter(), dfx.TextProgressMeter(0.3)] + ([dfx.TqdmProgressMeter(), dfx.TqdmProgressMeter(3)] if has_tqdm else [])
    pid = dfx.PIDController(1e-3, 1e-6)
    base = {}
    for meter in ms[: effort] + ms[2: 2 + effort]:
        progs = {
            "value": lambda m: solve(0.0, 1.5, 0.11, 1.0, m), "backward": lambda m: solve(1.5, 0.2, -0.11, 1.0, m), "adaptive": lambda m: solve(0.0, 1.5, None, 1.0, m, pid),
            "t0 == t1": lambda m: solve(1.5, 1.5, 0.11, 1.0, m),
            "grad y0": lambda m: jax.grad(lambda y: solve(0.0, 1.5, 0.11, y, m, pid))(1.0), "grad t1": lambda m: jax.grad(lambda t: solve(0.0, t, 0.11, 1.0, m))(1.5),
            "grad t0": lambda m: jax.grad(lambda t: solve(t, 1.5, 0.11, 1.0, m))(0.0), "grad dt0": lambda m: jax.grad(lambda h: solve(0.0, 1.5, h, 1.0, m))(0.11),
            "jvp t1": lambda m: jax.jvp(lambda t: solve(0.0, t, 0.11, 1.0, m, adjoint=dfx.ForwardMode()), (1.5,), (1.0,)),
            "backsolve": lambda m: jax.grad(lambda y: solve(0.0, 1.5, 0.11, y, m, adjoint=dfx.BacksolveAdjoint()))(1.0),
            "batch": lambda m: jax.vmap(lambda a: solve(a, 1.5, 0.11, 1.0, m))(jnp.array([0.0, 1.5, 1.0])),
            "batch of gradients": lambda m: jax.vmap(jax.grad(lambda y, a: solve(a, 1.5, 0.11, y, m)))(jnp.array([0.5, 1.0, 2.0]), jnp.array([0.0, 1.2, 1.0])),
        }
        for nm, f in progs.items():
            a = base[nm] = base[nm] if nm in base else capture(lambda: f(dfx.NoProgressMeter()))[0]
            try:
                b, _, _ = capture(lambda: f(meter))
            except Exception as e:
                yield dict(contract=f"a meter changes nothing: {nm}", meter=repr(meter), exception=repr(e)[:300])
                man.bars.clear()
                continue
            if not all(close(x, y, 1e-12) for x, y in zip(jtu.tree_leaves(a), jtu.tree_leaves(b))):
                yield dict(contract=f"a meter changes nothing: {nm}", meter=repr(meter), without=str(a), with_=str(b))
            elif man.bars:
                yield dict(contract=f"displays are closed: {nm}", bars=str(man.bars))
                man.bars.clear()
            else:
                yield None


SECTIONS = [
    ("told, forward", told("fwd", backward=False)),
    ("told, backward", told("bwd", backward=True)),
    ("told, steps and dense output", told("dense", backward=False, saveat=lambda ts: dfx.SaveAt(t0=True, steps=True, dense=True))),
    ("same as without", same_as_none),
    ("not differentiated", undifferentiated),
    ("rescaling", rescale),
    ("text", text),
    ("bar", tqdm_),
    ("opening and closing", opened),
    ("none", nothing),
]
CONCRETE = [("meters", concrete)]
