"""C13: interpolation of data: filling missing values, backward-Hermite coefficients, linear and cubic interpolants."""
import itertools

from .common import *
from .mainloop import error_if_stub, val
import diffrax._global_interpolation as GI
from diffrax._misc import fill_forward

s_ = T.sym
f0 = jnp.asarray(1.0)
IS = lambda z: isinstance(z, np.ndarray)
NAN = T.NAN
tq, tr = s_("tq"), s_("tr")
GAP = "patterns of missing data are enumerated for up to 5 times, one channel per pattern"


def isn(v):
    return v is NAN


def leaves(x):
    return jtu.tree_leaves(x, is_leaf=IS)


def data(N, name="y", pats=None):
    """all patterns of missing data of length N, one per channel"""
    pats = pats if pats is not None else list(itertools.product((False, True), repeat=N))
    ys = np.empty((N, len(pats)), dtype=object)
    for j, p in enumerate(pats):
        for i in range(N):
            ys[i, j] = NAN if p[i] else s_(f"{name}[{i},{j}]")
    return pats, ys


def times(N):
    ts = arr(*[s_(f"ts{i}") for i in range(N)])
    return ts, [T.lt(ts[i], ts[i + 1]) for i in range(N - 1)]


def line(t0, y0, t1, y1, u):
    return T.add(y0, T.div(T.mul(T.sub(y1, y0), T.sub(u, t0)), T.sub(t1, t0)))


def fill_spec(ts, y, r, end):
    """the documented meaning of linear_interpolation, for one channel"""
    y = list(y)
    if r is not None and isn(y[0]):
        y[0] = r
    obs = [i for i, v in enumerate(y) if not isn(v)]
    out = []
    for i, v in enumerate(y):
        p, q = max([o for o in obs if o < i], default=None), min([o for o in obs if o > i], default=None)
        if not isn(v):
            out.append(v)
        elif p is None:
            out.append(NAN)
        elif q is None:
            out.append(y[p] if end else NAN)
        else:
            out.append(line(ts[p], y[p], ts[q], y[q], ts[i]))
    return out


def hermite_spec(ts, y, r, end, d0):
    """the cubic through each pair of successive observations whose slopes are the backward differences, expanded about each time"""
    y = list(y)
    if r is not None and isn(y[0]):
        y[0] = r
    obs = [i for i, v in enumerate(y) if not isn(v)]
    if end and obs:
        for i in range(obs[-1] + 1, len(y)):
            y[i] = y[obs[-1]]
        obs += list(range(obs[-1] + 1, len(y)))
    out = []
    sec = lambda p, q: T.div(T.sub(y[q], y[p]), T.sub(ts[q], ts[p]))
    for i in range(len(y) - 1):
        p, q = max([o for o in obs if o <= i], default=None), min([o for o in obs if o > i], default=None)
        if p is None or q is None:
            out.append((NAN,) * 4)
            continue
        k = obs.index(p)
        m0 = sec(obs[k - 1], p) if k else (d0 if d0 is not None and p == 0 else sec(p, q))
        m1 = sec(p, q)
        H = T.sub(ts[q], ts[p])
        D = T.div(T.sub(T.add(m0, m1), T.mul(2, m1)), T.mul(H, H))     # cubic Hermite, with (y1 - y0)/H = m1
        C = T.div(T.sub(T.sub(T.mul(3, m1), T.mul(2, m0)), m1), H)
        x = T.sub(ts[i], ts[p])
        out.append((D, T.add(C, T.mul(T.mul(3, D), x)),
                    T.add(m0, T.mul(x, T.add(T.mul(2, C), T.mul(T.mul(3, D), x)))),
                    T.add(y[p], T.mul(x, T.add(m0, T.mul(x, T.add(C, T.mul(D, x))))))))
    return out


def same(ck, nm, fn, got, want, prem):
    """equal as numbers, or both missing"""
    if isn(want):
        got = core.under(got, prem) if isinstance(got, T.Term) and got is not NAN else got
        ck.fact(nm, fn, isn(got), T.show(got, maxdepth=4) if isinstance(got, T.Term) else str(got))
    elif isn(got):
        ck.fact(nm, fn, False, "missing, but should be " + T.show(want, maxdepth=4))
    else:
        ck.equal(nm, fn, got, want, prem)


def lab(p):
    return "".join("." if x else "o" for x in p)


def rep_of(mode, n):
    """the replacement at the start, as passed and per channel"""
    if mode == "none":
        return None, None, lambda j: None
    if mode == "scalar":
        return f0, S.scalar(s_("r")), lambda j: s_("r")
    a = symarr("r", (n,))
    return jnp.ones(n), a, lambda j: a[j]


def linear(ck):
    begin(ck)
    ck.assume(GAP)
    fn = "linear_interpolation"
    for N in (2, 3, 4, 5):
        ts, inc = times(N)
        pats, ys = data(N)
        for end in (False, True):
            for mode in ("none", "scalar", "array"):
                rx, rv, r = rep_of(mode, len(pats))

                def f(t, y, *rr):
                    kw = dict(replace_nans_at_start=rr[0]) if rr else {}
                    return GI.linear_interpolation(t, y, fill_forward_nans_at_end=end, **kw)
                with error_if_stub():
                    o, _ = run(f, (jnp.arange(float(N)), jnp.ones((N, len(pats)))) + (() if rx is None else (rx,)), (ts, ys) + (() if rx is None else (rv,)))
                ck.fact(f"linear.{N}.shape", fn, np.shape(o) == np.shape(ys), f"{np.shape(o)}")
                for j, p in enumerate(pats):
                    w = fill_spec(ts, ys[:, j], r(j), end)
                    for i in range(N):
                        same(ck, f"linear.{lab(p)}.start {mode}.end {end}[{i}]", fn, o[i, j], w[i], inc)


def recti(ck):
    begin(ck)
    for N in (2, 3, 4, 5):
        ts, inc = times(N)
        pats, ys = data(N)
        for mode in ("none", "scalar", "array"):
            rx, rv, r = rep_of(mode, len(pats))
            ex, vs = (jnp.arange(float(N)), jnp.ones((N, len(pats)))) + (() if rx is None else (rx,)), (ts, ys) + (() if rx is None else (rv,))
            with error_if_stub():
                (nt, ny), _ = run(lambda t, y, *rr: GI.rectilinear_interpolation(t, y, *rr), ex, vs)
                ff, _ = run(lambda t, y, *rr: fill_forward(y, *rr), ex, vs)
            ck.fact(f"rectilinear.{N}.shape", "rectilinear_interpolation", np.shape(nt) == (2 * N - 1,) and np.shape(ny) == (2 * N - 1, len(pats)), f"{np.shape(nt)} {np.shape(ny)}")
            for k in range(2 * N - 1):
                ck.equal(f"rectilinear.{N}.start {mode}.time[{k}]", "rectilinear_interpolation", nt[k], ts[(k + 1) // 2], inc)
            for j, p in enumerate(pats):
                last, w = r(j) if r(j) is not None else NAN, []
                for i in range(N):
                    last = last if p[i] else ys[i, j]
                    w.append(last)
                for i in range(N):
                    same(ck, f"fill_forward.{lab(p)}.start {mode}[{i}]", "fill_forward", ff[i, j], w[i], inc)
                for k in range(2 * N - 1):
                    same(ck, f"rectilinear.{lab(p)}.start {mode}[{k}]", "rectilinear_interpolation", ny[k, j], w[k // 2], inc)


def hermite(ck):
    begin(ck)
    ck.assume(GAP)
    fn = "backward_hermite_coefficients"
    for N in (2, 3, 4, 5):
        ts, inc = times(N)
        pats, ys = data(N)
        for end in (False, True):
            for mode in ("none", "scalar", "array") if N < 5 else ("none", "scalar"):
                for dm in ("none", "scalar", "array") if N < 5 else ("none", "scalar"):
                    rx, rv, r = rep_of(mode, len(pats))
                    dx, dv, d = rep_of(dm, len(pats))
                    if dm != "none":
                        dv = S.emap(lambda v: s_("d" + v.name), dv)
                        d = (lambda j: s_("dr")) if dm == "scalar" else (lambda j, dv=dv: dv[j])

                    def f(t, y, *rr):
                        rr = list(rr)
                        kw = {}
                        if mode != "none":
                            kw["replace_nans_at_start"] = rr.pop(0)
                        if dm != "none":
                            kw["deriv0"] = rr.pop(0)
                        return GI.backward_hermite_coefficients(t, y, fill_forward_nans_at_end=end, **kw)
                    with error_if_stub():
                        o, _ = run(f, (jnp.arange(float(N)), jnp.ones((N, len(pats)))) + tuple(x for x in (rx, dx) if x is not None), (ts, ys) + tuple(x for x in (rv, dv) if x is not None))
                    ck.fact(f"hermite.{N}.shape", fn, len(o) == 4 and all(np.shape(c) == (N - 1, len(pats)) for c in o), f"{[np.shape(c) for c in o]}")
                    for j, p in enumerate(pats):
                        w = hermite_spec(ts, ys[:, j], r(j), end, d(j))
                        for i in range(N - 1):
                            for c, nm in enumerate("dcba"):
                                if isn(w[i][c]) and nm != "a":
                                    continue                # a missing value is one whatever the other coefficients are
                                same(ck, f"hermite.{lab(p)}.start {mode}.end {end}.deriv0 {dm}.{nm}[{i}]", fn, o[c][i, j], w[i][c], inc)


def trees(ck):
    """options and data of any PyTree: each leaf is filled by itself, with the options of that leaf"""
    begin(ck)
    N = 3
    ts, inc = times(N)
    pats, ya = data(N, "a", [(False, True, False), (True, False, True)])
    _, yb = data(N, "b", [(True, True, False)])
    yb = yb[:, 0]
    tree = {"a": ya, "b": (yb,)}
    ex = {"a": jnp.ones((N, 2)), "b": (jnp.ones(N),)}
    opt = lambda n: ({"a": jnp.ones(2), "b": (f0,)}, {"a": symarr(n + "a", (2,)), "b": (S.scalar(s_(n + "b")),)})
    (rx, rv), (dx, dv) = opt("r"), opt("d")
    e0 = (jnp.arange(float(N)), ex)
    v0 = (ts, tree)
    st = lambda x: jtu.tree_structure(x, is_leaf=IS)
    with error_if_stub():
        for use_r in (False, True):
            R = lambda leaf, j: None if not use_r else (rv["a"][j] if leaf == "a" else rv["b"][0][()])
            kw = lambda r: dict(replace_nans_at_start=r) if use_r else {}
            o, _ = run(lambda t, y, r: GI.linear_interpolation(t, y, **kw(r)), e0 + (rx,), v0 + (rv,))
            ck.fact(f"linear.tree.{use_r}.structure", "linear_interpolation", st(o) == st(tree), str(st(o)))
            (nt, no), _ = run(lambda t, y, r: GI.rectilinear_interpolation(t, y, **kw(r)), e0 + (rx,), v0 + (rv,))
            ck.fact(f"rectilinear.tree.{use_r}.structure", "rectilinear_interpolation", st(no) == st(tree), str(st(no)))
            for leaf, k, col, oc, nc in (("a", 0, ya[:, 0], o["a"][:, 0], no["a"][:, 0]), ("a", 1, ya[:, 1], o["a"][:, 1], no["a"][:, 1]), ("b", 0, yb, o["b"][0], no["b"][0])):
                w = fill_spec(ts, col, R(leaf, k), False)
                for i in range(N):
                    same(ck, f"linear.tree.{use_r}.{leaf}{k}[{i}]", "linear_interpolation", oc[i], w[i], inc)
                last = R(leaf, k) if use_r else NAN
                for i in range(N):
                    last = last if isn(col[i]) else col[i]
                    for m in (2 * i, 2 * i + 1)[: 1 if i == N - 1 else 2]:
                        same(ck, f"rectilinear.tree.{use_r}.{leaf}{k}[{m}]", "rectilinear_interpolation", nc[m], last, inc)
            for use_d in (False, True):
                kd = lambda d: dict(deriv0=d) if use_d else {}
                o, _ = run(lambda t, y, r, d: GI.backward_hermite_coefficients(t, y, **kw(r), **kd(d)), e0 + (rx, dx), v0 + (rv, dv))
                ck.fact(f"hermite.tree.{use_r}.{use_d}.structure", "backward_hermite_coefficients", isinstance(o, tuple) and len(o) == 4 and all(st(x) == st(tree) for x in o), str(st(o)))
                for leaf, k, col, oc in (("a", 0, ya[:, 0], [c["a"][:, 0] for c in o]), ("a", 1, ya[:, 1], [c["a"][:, 1] for c in o]), ("b", 0, yb, [c["b"][0] for c in o])):
                    dd = None if not use_d else (dv["a"][k] if leaf == "a" else dv["b"][0][()])
                    w = hermite_spec(ts, col, R(leaf, k), False, dd)
                    for i in range(N - 1):
                        for c in range(4):
                            if not isn(w[i][c]) or c == 3:
                                same(ck, f"hermite.tree.{use_r}.{use_d}.{leaf}{k}.{'dcba'[c]}[{i}]", "backward_hermite_coefficients", oc[c][i], w[i][c], inc)
    # no leaves at all
    e = jnp.arange(3.)
    ck.fact("empty data", "backward_hermite_coefficients", GI.backward_hermite_coefficients(e, {}) == ({},) * 4 and GI.linear_interpolation(e, {}) == {}, "")


def checks(ck):
    """times which do not increase strictly (or are missing) are an error, and nothing else is"""
    begin(ck)
    FN = {"linear_interpolation": GI.linear_interpolation, "rectilinear_interpolation": GI.rectilinear_interpolation, "backward_hermite_coefficients": GI.backward_hermite_coefficients}
    for name, g in FN.items():
        for N in (2, 3, 4):
            for miss in [None] + list(range(N)):
                ts, inc = times(N)
                if miss is not None:
                    ts[miss] = NAN
                ys = symarr("y", (N,))
                with error_if_stub():
                    _, ev = run(lambda t, y: g(t, y), (jnp.arange(float(N)), jnp.ones(N)), (ts, ys))
                ps = [at0(n[1][0]) for n in ev.notes if n[0] == "error_if"]
                ck.fact(f"{name}.{N}.the times are checked", name, len(ps) >= 1, f"{len(ps)}")
                bad = T.or_(*ps) if len(ps) > 1 else ps[0] if ps else False
                if miss is None:
                    ck.valid(f"{name}.{N}.error iff not strictly increasing", name, [], T.eq(bad, T.not_(T.and_(*inc) if len(inc) > 1 else inc[0])))
                else:
                    ck.valid(f"{name}.{N}.error if time {miss} is NaN", name, [], bad)

        def raises(t, y):
            try:
                jax.eval_shape(g, t, y)
            except ValueError:
                return True
            return False
        ck.fact(f"{name}.a single time is an error", name, raises(jnp.ones(1), jnp.ones(1)), "")
        ck.fact(f"{name}.two-dimensional times are an error", name, raises(jnp.ones((3, 1)), jnp.ones(3)), "")

    def rej(mk):
        try:
            mk()
        except ValueError:
            return True
        return False
    a3, a2 = jnp.arange(3.), jnp.ones(2)
    ck.fact("LinearInterpolation.mismatched lengths are an error", "LinearInterpolation", rej(lambda: dfx.LinearInterpolation(a3, a2)) and rej(lambda: dfx.LinearInterpolation(a3, (a3, a2))) and rej(lambda: dfx.LinearInterpolation(jnp.ones((3, 1)), a3)) and not rej(lambda: dfx.LinearInterpolation(a3, (a3, a3))), "")
    for k in range(4):
        ck.fact(f"CubicInterpolation.mismatched lengths are an error ({k})", "CubicInterpolation", rej(lambda: dfx.CubicInterpolation(a3, tuple(a3 if i == k else a2 for i in range(4)))), "")
    ck.fact("CubicInterpolation.matched lengths", "CubicInterpolation", not rej(lambda: dfx.CubicInterpolation(a3, (a2,) * 4)), "")


# ---------------------------------------------------------------- any number of times: the bodies of the scans
def bodies(ck):
    """contracts of the loop bodies, from which the result for any number of times follows by induction; where a body of that name is not in the source, the enumeration of patterns stands alone"""
    begin(ck)
    Y, C = (s_("y"), NAN), (s_("c"), NAN)
    ti, ct, nt = s_("ti"), s_("ct"), s_("nt")

    def body(name, mod=GI):
        return getattr(mod, name, None)
    E2 = (f0, f0)
    g = body("_interpolation_reverse")
    if g is not None:
        for y in Y:
            for c in C:
                ((a, b), (a2, b2)), _ = run(g, (E2, E2), ((S.scalar(ct), S.scalar(c)), (S.scalar(ti), S.scalar(y))))
                w = (ct, c) if isn(y) else (ti, y)
                for nm, got, want in (("carried time", a, w[0]), ("carried value", b, w[1]), ("time", a2, w[0]), ("value", b2, w[1])):
                    same(ck, f"next observation.{lab([isn(y), isn(c)])}.{nm}", "_interpolation_reverse", at0(got), want, [])
    import diffrax._misc as M
    g = body("_fill_forward", M)
    if g is not None:
        for y in Y:
            for c in C:
                (a, b), _ = run(g, (f0, f0), (S.scalar(c), S.scalar(y)))
                for nm, got in (("carried", a), ("value", b)):
                    same(ck, f"fill forward.{lab([isn(y), isn(c)])}.{nm}", "_fill_forward", at0(got), c if isn(y) else y, [])
    g = body("_linear_interpolation_forward")
    if g is not None:
        # invariant: the carry is the last observation before i (NaN if none); next_i is the first one from i on (NaN if none, or the last one if filling at the end)
        inc = [T.lt(ct, ti), T.lt(ti, nt)]
        for y in Y:
            for c in C:
                for nx in (s_("n"), NAN):
                    n_t, n_y = (ti, y) if not isn(y) else (nt, nx)
                    ((a, b), o), _ = run(g, (E2, (f0,) * 4), ((S.scalar(ct), S.scalar(c)), (S.scalar(ti), S.scalar(y), S.scalar(n_t), S.scalar(n_y))))
                    l = lab([isn(y), isn(c), isn(nx)])
                    same(ck, f"linear.{l}.carried time", "_linear_interpolation_forward", at0(a), ti if not isn(y) else ct, inc)
                    same(ck, f"linear.{l}.carried value", "_linear_interpolation_forward", at0(b), y if not isn(y) else c, inc)
                    w = y if not isn(y) else NAN if isn(c) or isn(nx) else line(ct, c, nt, nx, ti)
                    same(ck, f"linear.{l}.value", "_linear_interpolation_forward", at0(o), w, inc)
                if isn(y):
                    # at the end, filling: next value = last value, next time the last time
                    for atend in (False, True):
                        pr = [T.lt(ct, ti), T.le(ti, nt)]
                        ((a, b), o), _ = run(g, (E2, (f0,) * 4), ((S.scalar(ct), S.scalar(c)), (S.scalar(ti), S.scalar(y), S.scalar(ti if atend else nt), S.scalar(c))))
                        same(ck, f"linear.{lab([True, isn(c)])}.filled at the end {atend}", "_linear_interpolation_forward", at0(o), c, pr)
    g = body("_hermite_forward")
    if g is not None:
        inc = [T.lt(ct, ti), T.lt(ti, nt)]
        cd = s_("cd")
        for y in Y:
            for c in C:
                for nx in (s_("n"), NAN):
                    d_ = NAN if isn(c) else cd
                    o, _ = run(g, ((f0,) * 3, (f0,) * 4), (tuple(map(S.scalar, (ct, c, d_))), tuple(map(S.scalar, (ti, y, nt, nx)))))
                    l = lab([isn(y), isn(c), isn(nx)])
                    sl = d_ if isn(y) else T.div(T.sub(y, c), T.sub(ti, ct)) if not isn(c) else NAN if isn(nx) else T.div(T.sub(nx, y), T.sub(nt, ti))
                    for k, part in enumerate(("carry", "output")):
                        for nm, got, want in (("time", o[k][0], ct if isn(y) else ti), ("value", o[k][1], c if isn(y) else y), ("slope", o[k][2], sl)):
                            same(ck, f"hermite.{l}.{part}.{nm}", "_hermite_forward", at0(got), want, inc)
    g = body("_hermite_impl")
    if g is not None:
        p = [s_(x) for x in ("p_t", "p_y", "p_m", "ti", "n_t", "n_y")]
        o, _ = run(g, (f0,) * 6, tuple(S.scalar(x) for x in p))
        pt, py, pm, u, n_t, n_y = p
        inc = [T.le(pt, u), T.lt(u, n_t)]
        d, c, b, a = [at0(x) for x in o]
        at = lambda x: T.add(a, T.mul(x, T.add(b, T.mul(x, T.add(c, T.mul(x, d))))))
        sl = lambda x: T.add(b, T.mul(x, T.add(T.mul(2, c), T.mul(T.mul(3, d), x))))
        x0, x1 = T.sub(pt, u), T.sub(n_t, u)
        ck.equal("hermite piece.value at the previous observation", "_hermite_impl", at(x0), py, inc)
        ck.equal("hermite piece.value at the next observation", "_hermite_impl", at(x1), n_y, inc)
        ck.equal("hermite piece.slope at the previous observation", "_hermite_impl", sl(x0), pm, inc)
        ck.equal("hermite piece.slope at the next observation", "_hermite_impl", sl(x1), T.div(T.sub(n_y, py), T.sub(n_t, pt)), inc)


# ---------------------------------------------------------------- the interpolants
def interpolants(ck):
    begin(ck)
    ck.assume("jnp.searchsorted meets its contract on sorted arrays")
    for cls, order in (("LinearInterpolation", 1), ("CubicInterpolation", 3)):
        for N in (2, 3, 4, 5):
            ts, inc = times(N)
            n = N if order == 1 else N - 1
            ex = lambda: {"a": jnp.ones(n), "b": (jnp.ones((n, 2)),)}
            co = [{"a": symarr(f"a{k}", (n,)), "b": (symarr(f"b{k}", (n, 2)),)} for k in range(1 if order == 1 else 4)]

            def f(t, cs, q, r):
                I = dfx.LinearInterpolation(t, cs[0]) if order == 1 else dfx.CubicInterpolation(t, tuple(cs))
                one = lambda lf: dict(v=I.evaluate(q, left=lf), w=I.evaluate(r, left=lf), i=I.evaluate(q, r, left=lf), d=I.derivative(q, left=lf))
                return dict(L=one(True), R=one(False), dv=I.evaluate(q), dd=I.derivative(q), di=I.evaluate(q, r), a=I.t0, b=I.t1)
            xt = Extract(f, (jnp.arange(float(N)), [ex() for _ in co], f0, f0))
            go = lambda q, r, ts=ts: xt((ts, co, S.scalar(q), S.scalar(r)))[0]
            o = go(tq, tr)
            cat = lambda x: np.concatenate([np.reshape(v, (-1,)) for v in leaves(x)])
            row = lambda k, i: cat(jtu.tree_map(lambda l: l[i], co[k], is_leaf=IS))

            def value(i, u, ts=ts):
                if order == 1:
                    return S.emap(lambda p, q: line(ts[i], p, ts[i + 1], q, u), row(0, i), row(0, i + 1))
                x = T.sub(u, ts[i])
                return S.emap(lambda d, c, b, a: T.add(a, T.mul(x, T.add(b, T.mul(x, T.add(c, T.mul(x, d)))))), *[row(k, i) for k in range(4)])

            def slope(i, u, ts=ts):
                if order == 1:
                    return S.emap(lambda p, q: T.div(T.sub(q, p), T.sub(ts[i + 1], ts[i])), row(0, i), row(0, i + 1))
                x = T.sub(u, ts[i])
                return S.emap(lambda d, c, b: T.add(b, T.mul(x, T.add(T.mul(2, c), T.mul(x, T.mul(3, d))))), *[row(k, i) for k in range(3)])
            nm = lambda x: f"{cls}.{N} times.{x}"
            ck.fact(nm("structure"), cls, jtu.tree_structure(o["dv"], is_leaf=IS) == jtu.tree_structure(ex()), "")
            ck.equal(nm("t0"), cls + ".t0", val(o["a"]), ts[0], inc)
            ck.equal(nm("t1"), cls + ".t1", val(o["b"]), ts[-1], inc)
            ev, dr = cls + ".evaluate", cls + ".derivative"
            for k in range(len(cat(o["dv"]))):
                for a, b, x in (("dv", "v", "value"), ("dd", "d", "derivative"), ("di", "i", "increment")):
                    ck.equal(nm(f"the {x} is from the left unless asked otherwise[{k}]"), ev, cat(o[a])[k], cat(o["L"][b])[k], inc)
            reg = lambda i, u, side: [T.lt(ts[i], u) if side == "L" and i else T.le(ts[i], u), T.lt(u, ts[i + 1]) if side == "R" and i < N - 2 else T.le(u, ts[i + 1])]
            for side in "LR":
                for i in range(N - 1):
                    pr = inc + reg(i, tq, side)
                    ck.equal_arr(nm(f"value within interval {i} ({side})"), ev, cat(o[side]["v"]), value(i, tq), pr)
                    ck.equal_arr(nm(f"derivative within interval {i} ({side})"), dr, cat(o[side]["d"]), slope(i, tq), pr)
                    for j in range(N - 1):
                        if N <= 4 or abs(i - j) <= 1:
                            ck.equal_arr(nm(f"increment from interval {i} to {j} ({side})"), ev, cat(o[side]["i"]), S.emap(T.sub, value(j, tr), value(i, tq)), pr + reg(j, tr, side))
                if order == 1:
                    for i in range(N):
                        p = go(ts[i], tr)
                        ck.equal_arr(nm(f"passes through data point {i} ({side})"), ev, cat(p[side]["v"]), row(0, i), inc)
            if N == 4:
                # a repeated time is a jump: the left value before it, the right value from it
                for k in ((1,) if order == 1 else (1,)):
                    tj = ts.copy()
                    tj[k + 1] = ts[k]
                    pr = [T.lt(ts[0], ts[1]), T.lt(ts[2] if k != 1 else ts[1], ts[3])]
                    p = go(tj[k], tr, tj)
                    ck.equal_arr(nm("left value at a jump"), ev, cat(p["L"]["v"]), value(k - 1, tj[k], tj), pr)
                    ck.equal_arr(nm("right value at a jump"), ev, cat(p["R"]["v"]), value(k + 1, tj[k], tj), pr)
                    ck.equal_arr(nm("left derivative at a jump"), dr, cat(p["L"]["d"]), slope(k - 1, tj[k], tj), pr)
                    ck.equal_arr(nm("right derivative at a jump"), dr, cat(p["R"]["d"]), slope(k + 1, tj[k], tj), pr)


SECTIONS = [("linear filling", linear), ("rectilinear and forward filling", recti), ("backward-Hermite coefficients", hermite), ("trees of data", trees), ("rejected times", checks),
            ("loop bodies, any number of times", bodies), ("interpolants", interpolants)]


# ---------------------------------------------------------------- executable contract
def ref_fill(ts, y, r, end):
    y = y.copy()
    if r is not None and np.isnan(y[0]):
        y[0] = r
    ob = np.flatnonzero(~np.isnan(y))
    out = np.full(y.shape, np.nan, y.dtype)
    for i in range(len(y)):
        p, q = ob[ob <= i], ob[ob >= i]
        if len(p) and len(q):
            a, b = p[-1], q[0]
            out[i] = y[a] if a == b else y[a] + (y[b] - y[a]) * (ts[i] - ts[a]) / (ts[b] - ts[a])
        elif len(p) and end:
            out[i] = y[p[-1]]
    return out


def concrete(rng, effort):
    """longer series, real and complex, against a direct reading of the documentation"""
    lin = jax.jit(GI.linear_interpolation, static_argnames="fill_forward_nans_at_end")
    her = jax.jit(GI.backward_hermite_coefficients, static_argnames="fill_forward_nans_at_end")
    for _ in range(12 * effort):
        N = int(rng.choice([2, 3, 6, 12]))
        ts = np.cumsum(rng.uniform(0.1, 2, N)) - 3
        cx = bool(rng.integers(2))
        y = rng.normal(size=(N, 3)) + (1j * rng.normal(size=(N, 3)) if cx else 0)
        y[rng.random((N, 3)) < rng.choice([0.2, 0.6, 0.95])] = np.nan
        r = None if rng.integers(2) else (rng.normal(size=3) + (1j if cx else 0))
        end = bool(rng.integers(2))
        kw = dict(fill_forward_nans_at_end=end, **({} if r is None else dict(replace_nans_at_start=jnp.asarray(r))))
        rr = lambda c: None if r is None else r[c]
        case = dict(ts=ts.tolist(), ys=str(y.tolist()), start=str(r), end=end)
        got = np.asarray(lin(jnp.asarray(ts), jnp.asarray(y), **kw))
        want = np.stack([ref_fill(ts, y[:, c], rr(c), end) for c in range(3)], -1)
        yield None if close(np.stack([got.real, got.imag]), np.stack([np.where(np.isnan(want), np.nan, want.real), np.where(np.isnan(want), got.imag, want.imag)])) else dict(case="linear_interpolation", **case, got=str(got), want=str(want))
        nt, ny = GI.rectilinear_interpolation(jnp.asarray(ts), jnp.asarray(y), *(() if r is None else (jnp.asarray(r),)))
        w = y.copy()
        for i in range(N):
            prev = w[i - 1] if i else r if r is not None else w[0]
            w[i] = np.where(np.isnan(w[i]), prev, w[i])
        w = np.repeat(w, 2, axis=0)[:-1]
        ok = np.array_equal(np.asarray(nt), np.repeat(ts, 2)[1:]) and np.array_equal(np.asarray(ny), w, equal_nan=True)
        yield None if ok else dict(case="rectilinear_interpolation", **case, got=str(ny), times=str(nt), want=str(w))
        d0 = None if rng.integers(2) else rng.normal(size=3) + (1j if cx else 0)
        co = her(jnp.asarray(ts), jnp.asarray(y), **kw, **({} if d0 is None else dict(deriv0=jnp.asarray(d0))))
        I = dfx.CubicInterpolation(jnp.asarray(ts), co)
        L, R = (np.asarray(jax.vmap(lambda u: I.evaluate(u, left=lf))(jnp.asarray(ts))) for lf in (True, False))
        dL, dR = (np.asarray(jax.vmap(lambda u: I.derivative(u, left=lf))(jnp.asarray(ts))) for lf in (True, False))
        for c in range(3):
            z = y[:, c].copy()
            if r is not None and np.isnan(z[0]):
                z[0] = r[c]
            ob = np.flatnonzero(~np.isnan(z))
            if end and len(ob):
                z[ob[-1]:] = z[ob[-1]]
                ob = np.flatnonzero(~np.isnan(z))
            bad = None
            if len(ob) >= 2:
                lo, hi = ob[0], ob[-1]
                k = np.arange(lo, hi + 1)
                sl = [(z[b] - z[a]) / (ts[b] - ts[a]) for a, b in zip(ob[:-1], ob[1:])]
                tol = 1e-6 * max(1, np.nanmax(np.abs(sl)), np.nanmax(np.abs(z)))
                if any(abs(L[i, c] - z[i]) > tol for i in ob[1:]) or any(abs(R[i, c] - z[i]) > tol for i in ob[:-1]):
                    bad = "does not pass through the data"
                elif any(not abs(L[i, c] - R[i, c]) <= tol for i in k[1:-1]):
                    bad = "is not continuous"
                elif any(not abs(dL[i, c] - dR[i, c]) <= 10 * tol for i in k[1:-1]):
                    bad = "has a discontinuous slope"
                elif any(abs(dL[b, c] - s) > 10 * tol for s, b in zip(sl, ob[1:])):
                    bad = "slope at an observation is not the backward difference"
                elif abs(dR[lo, c] - (d0[c] if d0 is not None and lo == 0 else sl[0])) > 10 * tol:
                    bad = "slope at the start"
            yield None if bad is None else dict(case=f"backward-Hermite spline {bad}", channel=c, deriv0=str(d0), **case)


def queries(rng, effort):
    """interpolants at knots, between them and at jumps; times that must be rejected"""
    for _ in range(4 * effort):
        N = int(rng.choice([2, 3, 7]))
        ts = np.cumsum(rng.uniform(0.2, 2, N)) - 2
        if N == 7:
            ts[4] = ts[3]
        y = rng.normal(size=(4, N))
        for order in (1, 3):
            I = dfx.LinearInterpolation(jnp.asarray(ts), jnp.asarray(y[0])) if order == 1 else dfx.CubicInterpolation(jnp.asarray(ts), tuple(jnp.asarray(v[:-1]) for v in y))
            us = list(ts) + list(rng.uniform(ts[0], ts[-1], 6))
            for lf in (True, False):
                side = "left" if lf else "right"
                vals = []
                for u in us:
                    i = int(np.clip(np.searchsorted(ts, u, side=side) - 1, 0, N - 2))
                    x = u - ts[i]
                    if order == 1:
                        m = (y[0, i + 1] - y[0, i]) / (ts[i + 1] - ts[i])
                        v, d = y[0, i] + m * x, m
                    else:
                        v, d = y[3, i] + x * (y[2, i] + x * (y[1, i] + x * y[0, i])), y[2, i] + x * (2 * y[1, i] + 3 * x * y[0, i])
                    vals.append(v)
                    gv, gd = float(I.evaluate(u, left=lf)), float(I.derivative(u, left=lf))
                    yield None if close(gv, v) and close(gd, d) else dict(case=f"order {order}, {side}, at {u}", ts=ts.tolist(), y=y.tolist(), got=[gv, gd], want=[v, d])
                a, b = rng.integers(len(us), size=2)
                g = float(I.evaluate(us[a], us[b], left=lf))
                yield None if close(g, vals[b] - vals[a]) else dict(case=f"order {order}, {side}, increment over [{us[a]}, {us[b]}]", ts=ts.tolist(), y=y.tolist(), got=g, want=vals[b] - vals[a])
    for bad in ([0., 1., 1.], [0., 2., 1.], [0., np.nan, 1.], [np.nan, 0.], [1., 0.]):
        for g in (GI.linear_interpolation, GI.rectilinear_interpolation, GI.backward_hermite_coefficients):
            try:
                jax.block_until_ready(g(jnp.asarray(bad), jnp.ones(len(bad))))
                ok = False
            except Exception:
                ok = True
            yield None if ok else dict(case=f"{getattr(g, '__name__', g)} accepts times {bad}")


CONCRETE = [("random series", concrete), ("queries", queries)]
