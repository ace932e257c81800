"""C02: SaveAt. Saved output is exactly what was asked for."""
from .c01 import *

FB, FI, FO = "loop.body_fun (saving)", "loop (save_t0)", "loop (final save)/diffeqsolve"
M = 3


def ufn(name):
    return lambda t, y, args: dict(p=uf(name, sds(), t, y, args), q=uf(name + "_q", sds((2,)), t, y, args))


def fn_(name, t, y, args):
    """what the user's save function gives: in user time"""
    if name is None:
        return [y[0], y[1]]
    return [ufT(name, (), S.scalar(t), *y, S.scalar(args)), ufT(name + "_q", (2,), S.scalar(t), *y, S.scalar(args))]


class Sub:
    """one save specification"""

    def __init__(self, name, t0=False, t1=False, ts=False, steps=0):
        self.name, self.t0, self.t1, self.ts, self.steps = name, t0, t1, ts, steps

    def real(self, ts):
        kw = {} if self.name is None else dict(fn=ufn(self.name))
        return dfx.SubSaveAt(t0=self.t0, t1=self.t1, ts=ts if self.ts else None, steps=self.steps, **kw)

    def index(self, i, acc):
        return int(self.t0) + (i if self.ts else 0) + (acc // self.steps if self.steps else 0)

    def size(self, ms):
        return int(self.t0) + (M if self.ts else 0) + (ms // self.steps if self.steps else 0) + \
            int(self.t1 and (self.steps == 0 or ms % self.steps != 0))


def issave(x):
    return type(x).__name__ == "SaveState"


def leaves_ys(ys):
    return jtu.tree_leaves(ys, is_leaf=lambda x: isinstance(x, np.ndarray))


def sorted_ts(vc):
    t0, t1 = T.mul(vc.sgn, vc.t0), T.mul(vc.sgn, vc.t1)
    u = [T.mul(vc.sgn, v) for v in vc.ts]
    return [T.le(u[k], u[k + 1]) for k in range(len(u) - 1)] + [T.le(t0, v) for v in u] + [T.le(v, t1) for v in u]


def fixer(subs, i, acc, ms, sgn, pad=True):
    """states satisfying the invariant: indices agree with what has been saved, the rest of the buffer is padding"""
    def go(st, init):
        ss = jtu.tree_leaves(st.save_state, is_leaf=issave)
        new = []
        for sub, s in zip(subs, ss):
            k = sub.index(i, acc)
            ts, ys = s.ts.copy(), [y.copy() for y in leaves_ys(s.ys)]
            if pad:
                for p in range(k, ts.shape[0]):
                    ts[p] = T.INF if sgn > 0 else T.NINF
                    for y in ys:
                        y[p] = T.INF if y.ndim == 1 else S.emap(lambda v: T.INF, y[p])
            td = jtu.tree_structure(s.ys, is_leaf=lambda x: isinstance(x, np.ndarray))
            new.append(type(s)(saveat_ts_index=S.scalar(i if sub.ts else 0), ts=ts, ys=jtu.tree_unflatten(td, ys), save_index=S.scalar(k)))
        td = jtu.tree_structure(st.save_state, is_leaf=issave)
        st = eqx.tree_at(lambda s: s.save_state, st, jtu.tree_unflatten(td, new))
        return eqx.tree_at(lambda s: s.num_accepted_steps, st, S.scalar(acc))
    return go


def check_buf(ck, name, fn, got, want_ts, want_ys, prem):
    """got: SaveState; want_*: list over positions"""
    for p in range(got.ts.shape[0]):
        ck.equal(f"{name}.ts[{p}]", fn, got.ts[p], want_ts[p], prem)
        for l, y in enumerate(leaves_ys(got.ys)):
            ck.equal_arr(f"{name}.ys.{l}[{p}]", fn, np.asarray(y[p], dtype=object), np.asarray(want_ys[p][l], dtype=object), prem)


def section(tag, subs, tree, backward=False, ms=6, jumps=False, accs=None):
    """subs: list of Sub in flattening order; tree: fn(list of SubSaveAt) -> SaveAt"""
    def go(ck):
        begin_loop(ck)
        kw = dict(saveat=lambda ts: tree([s.real(ts) for s in subs]), nts=M, backward=backward, max_steps=ms, jumps=jumps)
        any_ts = any(s.ts for s in subs)
        vc0 = LoopVC(**kw, fix_pre=fixer(subs, 0, 0, ms, -1 if backward else 1))
        sgn = vc0.sgn
        # -- before the first step
        req0 = [vc0.order] + vc0.requires + vc0.floor_facts
        i0 = jtu.tree_leaves(vc0.init.save_state, is_leaf=issave)
        for s, (sub, got) in enumerate(zip(subs, i0)):
            n = f"{tag}.{s}.init"
            N = got.ts.shape[0]
            ck.fact(f"{n}.size", FI, N >= sub.size(ms), f"buffer of {N} for up to {sub.size(ms)} entries", "extraction")
            wts = [T.INF if sgn > 0 else T.NINF] * N
            wys = [[S.emap(lambda v: T.INF, np.asarray(y[0], dtype=object)) for y in leaves_ys(got.ys)] for _ in range(N)]
            if sub.t0:
                wts[0] = T.mul(sgn, vc0.t0)
                wys[0] = fn_(sub.name, vc0.t0, vc0.y0, vc0.args)
            # padding may be kept with either sign internally as long as it is reported as +inf; only written entries are compared
            for p in range(1 if sub.t0 else 0):
                ck.equal(f"{n}.ts[{p}]", FI, got.ts[p], wts[p], req0)
                for l, y in enumerate(leaves_ys(got.ys)):
                    ck.equal_arr(f"{n}.ys.{l}[{p}]", FI, np.asarray(y[p], dtype=object), np.asarray(wys[p][l], dtype=object), req0)
            for p in range(1 if sub.t0 else 0, N):
                ck.fact(f"{n}.padding[{p}]", FI, got.ts[p] in (T.INF, T.NINF) and all(v is T.INF for y in leaves_ys(got.ys) for v in np.asarray(y[p], dtype=object).reshape(-1)),
                        "unused entries are infinite", "simplifier")
            ck.equal(f"{n}.save_index", FI, val(got.save_index), sub.index(0, 0), req0)
            ck.equal(f"{n}.saveat_ts_index", FI, val(got.saveat_ts_index), 0, req0)
        # -- one iteration, from every state satisfying the invariant
        accs_ = accs if accs is not None else range(0, ms) if any(s.steps > 1 for s in subs) else (0, 2) if any(s.steps for s in subs) else (0,)
        for i in (range(M + 1) if any_ts else (0,)):
            for acc in accs_:
                vc = LoopVC(**kw, reuse=vc0, fix_pre=fixer(subs, i, acc, ms, sgn), fix_exit=fixer(subs, i, acc, ms, sgn))
                p, q = vc.pre, vc.post
                st, c = spec_of(vc, None if jumps else False)
                u = [T.mul(sgn, v) for v in vc.ts]
                base = [vc.order] + vc.requires + vc.floor_facts + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c) + sorted_ts(vc)
                pre_s = jtu.tree_leaves(p.save_state, is_leaf=issave)
                post_s = jtu.tree_leaves(q.save_state, is_leaf=issave)
                # rejected: nothing changes
                prem = base + [T.not_(c["keep"])]
                for s, (sub, a, b) in enumerate(zip(subs, pre_s, post_s)):
                    n = f"{tag}.{s}.rejected[i={i},acc={acc}]"
                    N = a.ts.shape[0]
                    check_buf(ck, n, FB, b, [a.ts[k] for k in range(N)], [[y[k] for y in leaves_ys(a.ys)] for k in range(N)], prem)
                    ck.equal(f"{n}.save_index", FB, val(b.save_index), val(a.save_index), prem)
                    ck.equal(f"{n}.saveat_ts_index", FB, val(b.saveat_ts_index), val(a.saveat_ts_index), prem)
                # accepted: m of the requested times fall into this step
                for m in (range(M - i + 1) if any_ts else (0,)):
                    prem = base + [c["keep"]]
                    if any_ts:
                        prem += [T.le(u[k], val(p.tnext)) for k in range(i, i + m)] + ([T.lt(val(p.tnext), u[i + m])] if i + m < M else [])
                    for s, (sub, a, b) in enumerate(zip(subs, pre_s, post_s)):
                        n = f"{tag}.{s}.kept[i={i},m={m},acc={acc}]"
                        N = a.ts.shape[0]
                        k0 = sub.index(i, acc)
                        wts = [a.ts[k] for k in range(N)]
                        wys = [[y[k] for y in leaves_ys(a.ys)] for k in range(N)]
                        k = k0
                        if sub.ts:
                            for j in range(i, i + m):
                                y = tuple(ufT("interp", sh, p.tprev, p.tnext, st["info"], S.scalar(u[j]), nout=2, o=o) for o, sh in enumerate([(), (2,)]))
                                wts[k], wys[k] = u[j], fn_(sub.name, vc.ts[j], y, vc.args)
                                k += 1
                        if sub.steps and (acc + 1) % sub.steps == 0:
                            wts[k] = val(q.tprev)
                            wys[k] = fn_(sub.name, T.mul(sgn, val(q.tprev)), q.y, vc.args)
                            k += 1
                        check_buf(ck, n, FB, b, wts, wys, prem)
                        ck.equal(f"{n}.save_index", FB, val(b.save_index), k, prem)
                        ck.equal(f"{n}.invariant", FB, val(b.save_index), sub.index(i + m, acc + 1), prem)
                        if sub.ts:
                            ck.equal(f"{n}.saveat_ts_index", FB, val(b.saveat_ts_index), i + m, prem)
                # -- the end
                x, o = vc.exit, vc.out
                pe = [vc.order] + vc.requires + inv(vc, x)
                outs_ts = jtu.tree_leaves(o["ts"], is_leaf=lambda z: isinstance(z, np.ndarray))
                ys_l = leaves_ys(o["ys"])
                ex_s = jtu.tree_leaves(x.save_state, is_leaf=issave)
                at = 0
                for s, (sub, a) in enumerate(zip(subs, ex_s)):
                    nl = len(leaves_ys(a.ys))
                    ots, oys = outs_ts[s], ys_l[at:at + nl]
                    at += nl
                    n = f"{tag}.{s}.final[i={i},acc={acc}]"
                    N = a.ts.shape[0]
                    k0 = sub.index(i, acc)
                    wts = [T.mul(sgn, a.ts[k]) if k < k0 else T.INF for k in range(N)]
                    wys = [[y[k] for y in leaves_ys(a.ys)] for k in range(N)]
                    if sub.t1 and not (sub.steps and acc > 0 and acc % sub.steps == 0) and k0 < N:
                        wts[k0] = T.mul(sgn, val(x.tprev))
                        wys[k0] = fn_(sub.name, T.mul(sgn, val(x.tprev)), x.y, vc.args)
                    for k in range(N):
                        ck.equal(f"{n}.ts[{k}]", FO, ots[k], wts[k], pe)
                        for l in range(nl):
                            ck.equal_arr(f"{n}.ys.{l}[{k}]", FO, np.asarray(oys[l][k], dtype=object), np.asarray(wys[k][l], dtype=object), pe)
    return go


def trivial(tag, subs, tree, ms=4):
    """t0 == t1: no step is made; everything requested is the initial value"""
    def go(ck):
        begin_loop(ck)
        vc = LoopVC(saveat=lambda ts: tree([s.real(ts) for s in subs]), nts=M, max_steps=ms, jumps=False, trivial=True)
        ck.fact(f"{tag}.no iteration", "loop", vc.loops[0]["exit"] is not None and _iscond_false(vc), "the loop is not entered", "simplifier")
        o = vc.out
        req = vc.requires
        outs_ts = jtu.tree_leaves(o["ts"], is_leaf=lambda z: isinstance(z, np.ndarray))
        ys_l = leaves_ys(o["ys"])
        at = 0
        for s, sub in enumerate(subs):
            n = int(sub.t0) + (M if sub.ts else 0) + int(sub.t1)
            want = fn_(sub.name, vc.t0, vc.y0, vc.args)
            nl = len(want)
            ots, oys = outs_ts[s], ys_l[at:at + nl]
            at += nl
            for k in range(ots.shape[0]):
                ck.equal(f"{tag}.{s}.ts[{k}]", FO, ots[k], vc.t0 if k < n else T.INF, req)
                for l in range(nl):
                    w = want[l] if k < n else S.emap(lambda v: T.INF, want[l])
                    ck.equal_arr(f"{tag}.{s}.ys.{l}[{k}]", FO, np.asarray(oys[l][k], dtype=object), np.asarray(w, dtype=object), req)
        ck.equal(f"{tag}.result", FO, val(o["result"]), 0, req)
    return go


def _iscond_false(vc):
    return vc.cond_exit is False


def dense(ck):
    begin_loop(ck)
    for backward in (False, True):
        sgn = -1 if backward else 1
        tag = "dense" + ("(bwd)" if backward else "")
        ms = 4
        kw = dict(saveat=lambda ts: dfx.SaveAt(dense=True), max_steps=ms, backward=backward, jumps=True)
        base = None
        for k in range(ms):
            def fix(st, init, k=k):
                st = eqx.tree_at(lambda s: s.dense_save_index, st, S.scalar(k))
                return st
            vc = LoopVC(**kw, reuse=base, fix_pre=fix, fix_exit=fix)
            base = base or vc
            p, q, x, i0 = vc.pre, vc.post, vc.exit, vc.init
            st, c = spec_of(vc)
            if k == 0:
                n = f"{tag}.init"
                ck.equal(f"{n}.ts[0]", FI, i0.dense_ts[0], T.mul(sgn, vc.t0), [vc.order])
                ck.equal(f"{n}.index", FI, val(i0.dense_save_index), 0)
                ck.fact(f"{n}.size", FI, i0.dense_ts.shape[0] >= ms + 1, "one slot per permitted step", "extraction")
            prem = [vc.order] + vc.requires + vc.floor_facts + inv(vc, p) + [vc.cond_pre] + contract_ctrl(val(p.tprev), val(p.tnext), c)
            [pi], [qi] = leaves_ys(p.dense_infos), leaves_ys(q.dense_infos)
            for keep in (True, False):
                n = f"{tag}.{'kept' if keep else 'rejected'}[k={k}]"
                pr = prem + [c["keep"] if keep else T.not_(c["keep"])]
                for j in range(ms + 1):
                    ck.equal(f"{n}.ts[{j}]", FB, q.dense_ts[j], val(q.tprev) if keep and j == k + 1 else p.dense_ts[j], pr)
                for j in range(ms):
                    ck.equal(f"{n}.infos[{j}]", FB, qi[j], st["info"][()] if keep and j == k else pi[j], pr)
                ck.equal(f"{n}.index", FB, val(q.dense_save_index), k + int(keep), pr)


one_ = lambda s: dfx.SaveAt(subs=s[0])
SECTIONS = [
    ("t0, ts, t1", section("all", [Sub("fn", t0=True, t1=True, ts=True)], one_)),
    ("ts only, default fn", section("ts", [Sub(None, ts=True)], one_, jumps=True)),
    ("ts, backward", section("bwd", [Sub("fn", t0=True, ts=True, t1=True)], one_, backward=True)),
    ("steps=1, t0, t1", section("steps1", [Sub("fn", t0=True, t1=True, steps=1)], one_, ms=3, jumps=True)),
    ("steps=3, t1", section("steps3", [Sub("fn", t1=True, steps=3)], one_, ms=7)),
    ("steps=2, t1, dividing max_steps", section("steps2", [Sub("fn", t1=True, steps=2)], one_, ms=4)),
    ("steps=2 without t1, backward", section("steps2b", [Sub("fn", t0=True, steps=2)], one_, ms=4, backward=True)),
    ("ts and steps=2", section("mixed", [Sub("fn", t0=True, ts=True, steps=2, t1=True)], one_, ms=3, accs=(0, 1))),
    ("nested", section("nested", [Sub("fa", t0=True, ts=True), Sub(None, t1=True), Sub("fc", steps=2, t1=True)],
                       lambda s: dfx.SaveAt(subs=[s[0], dict(u=s[1], v=s[2])]), ms=3)),
    ("t0 == t1", trivial("trivial", [Sub("fn", t0=True, ts=True, t1=True)], one_)),
    ("t0 == t1, steps", trivial("trivial-steps", [Sub("fn", t1=True, steps=1)], one_)),
    ("t0 == t1, nested", trivial("trivial-nested", [Sub("fn", ts=True), Sub(None, t0=True)], lambda s: dfx.SaveAt(subs=(s[0], s[1])))),
    ("dense", dense),
]


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """every kind of record against what a steps-and-dense record implies"""
    w = jnp.asarray([1.3, -0.7])
    term = dfx.ODETerm(lambda t, y, a: jnp.sin(w * t + y) * 0.9)
    fn = lambda t, y, args: dict(a=y * t, b=t)
    cfgs = [dict(t0=a, t1=b, ts=c, steps=s) for a in (0, 1) for b in (0, 1) for c in (0, 1) for s in (0, 1, 2, 3) if a or b or c or s]
    order = rng.permutation(len(cfgs))
    for ci in order[: 6 * effort]:
        cfg = cfgs[ci]
        ms = int(rng.choice([12, 16]))

        @eqx.filter_jit
        def solve(t0, t1, dt0, ts):
            y0 = jnp.asarray([0.3, 0.8])
            sub = lambda f: dfx.SubSaveAt(t0=bool(cfg["t0"]), t1=bool(cfg["t1"]), ts=ts if cfg["ts"] else None, steps=cfg["steps"], fn=f)
            sa = dfx.SaveAt(subs=[sub(fn), dfx.SubSaveAt(steps=1), dfx.SubSaveAt(t0=True)], dense=True)
            kw = dict(stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-3), max_steps=ms, throw=False)
            s = dfx.diffeqsolve(term, dfx.Bosh3(), t0, t1, dt0, y0, saveat=sa, **kw)
            alone = dfx.diffeqsolve(term, dfx.Bosh3(), t0, t1, dt0, y0, saveat=dfx.SaveAt(subs=sub(fn)), **kw)
            return s, alone
        for trial in range(3):
            sg = -1 if rng.uniform() < 0.4 else 1
            t0 = float(rng.normal())
            t1 = t0 + sg * float(rng.uniform(0.5, 2.5))
            k = int(rng.choice([5]))
            ts = np.sort(rng.uniform(0, 1, size=k))
            if rng.uniform() < 0.5:
                ts[0], ts[-1] = 0.0, 1.0
            if rng.uniform() < 0.3:
                ts[2] = ts[1]
            ts = t0 + (t1 - t0) * ts
            ts = np.clip(ts, min(t0, t1), max(t0, t1))
            s, alone = solve(t0, t1, sg * 0.3, jnp.asarray(ts))
            r, st, _ = s.ts
            n = int(s.stats["num_accepted_steps"])
            steps = np.asarray(st[:n])
            want = []
            if cfg["t0"]:
                want.append(t0)
            events = ([(x, 0) for x in ts] if cfg["ts"] else []) + \
                ([(x, 1) for q, x in enumerate(steps) if (q + 1) % cfg["steps"] == 0] if cfg["steps"] else [])
            done = n > 0 and int(s.result._value) == 0
            if not done:
                yield None
                continue
            want += [x for x, _ in sorted(events, key=lambda e: (sg * e[0], e[1]))]
            if cfg["t1"] and not (cfg["steps"] and n % cfg["steps"] == 0):
                want.append(steps[-1])
            got = np.asarray(r)
            good = close(got[:len(want)], want, 1e-12) and np.all(got[len(want):] == np.inf)
            ya = np.asarray(s.ys[0]["a"])
            for q, tt in enumerate(want):
                y = np.asarray(s.evaluate(tt))
                good = good and close(ya[q], y * tt, 1e-7) and close(s.ys[0]["b"][q], tt, 1e-12)
            good = good and np.all(np.isinf(ya[len(want):]))
            good = good and all(close(a, b, 1e-12) for a, b in zip(jtu.tree_leaves((alone.ts, alone.ys)), jtu.tree_leaves((s.ts[0], s.ys[0]))))
            yield None if good else dict(case=f"SaveAt({cfg}) t0={t0} t1={t1} ts={ts.tolist()} max_steps={ms} (Bosh3, PID 1e-3, dt0=0.3)",
                                         got=got.tolist(), expected=np.asarray(want).tolist())


def concrete_trivial(rng, effort):
    for cfg in (dict(t0=True, t1=True, ts=jnp.full((3,), 0.5)), dict(t1=True, steps=1), dict(t1=True, steps=2), dict(ts=jnp.full((2,), 0.5))):
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), dfx.Tsit5(), 0.5, 0.5, 0.1, 2.0, saveat=dfx.SaveAt(**cfg), max_steps=4)
        n = int(cfg.get("t0", 0)) + int(cfg.get("t1", 0)) + (len(cfg["ts"]) if "ts" in cfg else 0)
        good = np.all(np.asarray(sol.ts[:n]) == 0.5) and np.all(np.asarray(sol.ys[:n]) == 2.0) and np.all(np.isinf(sol.ts[n:])) and len(sol.ts) >= n
        yield None if good else dict(case=f"t0 == t1 with SaveAt({cfg})", got=np.asarray(sol.ts).tolist(), expected=[0.5] * n)


CONCRETE = [("records against the steps taken", concrete), ("t0 == t1", concrete_trivial)]
