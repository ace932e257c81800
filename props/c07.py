"""C07: every Runge-Kutta step computes the formula of its published tableau."""
from .rk import *

FN = "AbstractRungeKutta.step"


def check_one(ck, name, kind, first_step, made_jump, scan_kind=None, tag=""):
    prob = Problem(kind, 2 if name in IMEX else 1)
    pub = published(name)
    r = one_step(name, prob, None, first_step, made_jump, f0_values(prob) if not (first_step or made_jump) else None, scan_kind)
    y1, err, dense, state, res = r["out"]
    roots = roots_of(r["ev"], prob)
    skip = r["is_fsal"] and not (first_step or made_jump)
    tabs = pub["tableaus"]
    nimp = 0 if all(tb["diag"] is None for tb in tabs) else tabs[0]["stages"] - (1 if skip else 0)
    label = f"{name}[{kind}{',first' if first_step else ''}{',jump' if made_jump else ''}{',' + scan_kind if scan_kind else ''}]"
    if nimp != len(roots):
        raise S.Unsupported(f"{label}: {len(roots)} implicit solves seen, {nimp} expected")
    sp = spec_step(name, prob, roots, skip)
    fn = f"{FN}<{name}>"
    for i, got, want in sp["resid"]:
        ck.equal_arr(f"{label}.implicit-relation[stage {i}]", fn, got, want)
    # implicit solves succeed: y_error is the embedded difference
    oks = {ok: True for *_, ok in roots if isinstance(ok, T.Term)}
    sub = lambda x: S.emap(lambda v: T.subst(v, oks) if oks else v, x)
    ck.equal_arr(f"{label}.y1", fn, prob.flat(y1), sp["y1"])
    ck.equal_arr(f"{label}.y_error", fn, sub(prob.flat(err)), sp["err"])
    rv = sub(res)[()]
    ck.equal(f"{label}.result", fn, rv, 0)
    if r["is_fsal"]:
        first, f1 = state
        f1 = f1 if prob.nterms > 1 else (f1,)
        first = first[()] if isinstance(first, np.ndarray) else first
        ck.fact(f"{label}.state.first_step", fn, first is False or first == False, "a completed step must not be marked as first", "simplifier")
        imp = next((k for k, tb in enumerate(tabs) if tb["diag"] is not None), None)
        for k, n in enumerate(prob.names):
            got = prob.fflat(f1[k])
            if k == imp:
                val, resd, _, _ = roots[-1]
                ck.equal_arr(f"{label}.state.f1[{n}] is the last solve", fn, got, val.reshape(got.shape))
                want = S.emap(T.sub, val.reshape(prob.fshape), prob.F(n, S.scalar(T.add(t, h)), sp["Ys"][-1]))
                ck.equal_arr(f"{label}.state.f1[{n}]=f(t1,y1)", fn, resd.reshape(prob.fshape), want)
                ck.equal_arr(f"{label}.laststage=y1", fn, sp["Ys"][-1], sp["y1"])
            else:
                ck.equal_arr(f"{label}.state.f1[{n}]=f(t1,y1)", fn, got, prob.F(n, S.scalar(T.add(t, h)), sp["y1"]))
    # what the interpolant is built from
    if isinstance(dense, dict) and set(dense) >= {"y0", "y1", "k"}:
        ck.equal_arr(f"{label}.dense.y0", fn, prob.flat(dense["y0"]), prob.y)
        ck.equal_arr(f"{label}.dense.y1", fn, prob.flat(dense["y1"]), sp["y1"])
    return r


def section(name):
    def go(ck):
        begin(ck)
        ck.assume("optimistix.root_find is replaced by its contract: it returns some value and a success flag; the residual it is given to solve is what is checked")
        combos = [("ode", True, False), ("ode", False, True), ("ode", False, False), ("cde", True, False)]
        fsal = published(name)["fspace"]
        if fsal:
            combos += [("cde", False, False)]
        combos += [("tree", True, False)]
        if name not in IMEX:
            combos += [("expensive", True, False)]
        if name in ("Dopri8", "KenCarp5", "KenCarp4") and ck.tier == "quick":
            combos = [c for c in combos if c[0] in ("ode", "cde")]
        for kind, fs, mj in combos:
            check_one(ck, name, kind, fs, mj)
        for sk in ("lax", "bounded") if ck.tier == "thorough" or name in ("Tsit5", "Kvaerno3") else ():
            check_one(ck, name, "ode", True, False, sk)
    return go


SECTIONS = [(n, section(n)) for n in ALL]


# ---------------------------------------------------------------- executable contract
def np_step(name, fE, fI, t0, hh, y0, dX=None):
    """reference step in numpy from the published tableau; fE/fI: vector fields with control applied"""
    tabs = published(name)["tableaus"]
    fs = [fE] if len(tabs) == 1 else [fE, fI]
    s = tabs[0]["stages"]
    imp = next((k for k, tb in enumerate(tabs) if tb["diag"] is not None), None)
    K = [[None] * s for _ in tabs]
    for i in range(s):
        Y = np.array(y0, dtype=float)
        for k, tb in enumerate(tabs):
            for j in range(i):
                Y = Y + tb["a"][i][j] * K[k][j]
        if imp is not None:
            tb = tabs[imp]
            d, ti = tb["diag"][i], t0 + tb["c"][i] * hh
            k0 = fs[imp](ti, Y)
            for _ in range(200):
                k1 = fs[imp](ti, Y + d * k0)
                if np.max(np.abs(k1 - k0)) < 1e-15:
                    break
                k0 = k1
            K[imp][i] = k1
            Y = Y + d * k1
        for k, tb in enumerate(tabs):
            if k != imp:
                K[k][i] = fs[k](t0 + tb["c"][i] * hh, Y)
    y1, e = np.array(y0, dtype=float), 0
    for k, tb in enumerate(tabs):
        for i in range(s):
            y1 = y1 + tb["b"][i] * K[k][i]
            e = e + tb["b_err"][i] * K[k][i]
    return y1, e


def concrete(rng, effort):
    for name in ALL:
        for trial in range(2 * effort):
            w = rng.normal(size=(4, 2))
            t0, hh = float(rng.uniform(-1, 1)), float(rng.uniform(0.05, 0.2))
            y0 = rng.normal(size=2)
            g = lambda q: (lambda tt, y, a=None: jnp.sin(w[q] * tt + w[q + 1] * y[::-1]) + 0.5 * y * tt)
            gn = lambda q: (lambda tt, y: hh * np.asarray(np.sin(w[q] * tt + w[q + 1] * y[::-1]) + 0.5 * y * tt))
            if name in IMEX:
                term = dfx.MultiTerm(dfx.ODETerm(g(0)), dfx.ODETerm(g(2)))
            else:
                term = dfx.ODETerm(g(0))
            kw = {} if name in EXPLICIT else dict(root_finder=optx.Newton(rtol=1e-13, atol=1e-13))
            solver = getattr(dfx, name)(**kw)
            st = solver.init(term, jnp.asarray(t0), jnp.asarray(t0 + hh), jnp.asarray(y0), None)
            stepf = eqx.filter_jit(solver.step)
            y, tt = jnp.asarray(y0), t0
            want = np.array(y0)
            mjs = [False, False, bool(trial % 2)]
            for k, mj in enumerate(mjs):
                y, err, _, st, res = stepf(term, jnp.asarray(tt), jnp.asarray(tt + hh), y, None, st, jnp.asarray(mj))
                want, werr = np_step(name, gn(0), gn(2), tt, hh, want)
                tt = tt + hh
                bad = not close(y, want, 1e-10) or not close(err, werr, 1e-8)
                yield None if not bad else dict(
                    case=f"{name}: step {k} from t={tt - hh}, h={hh}, y0={y0.tolist()}, made_jump={mj}", vector_field=f"sin(w t + w' y[::-1]) + y t/2, w={w.tolist()}",
                    got=[np.asarray(y).tolist(), np.asarray(err).tolist()], expected=[want.tolist(), np.asarray(werr).tolist()])


CONCRETE = [("step equals published tableau", concrete)]
