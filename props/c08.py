"""C08: order conditions of the coefficients the real step uses."""
import functools
import itertools

from .rk import *

# stated order, order up to which the error estimate vanishes, order of the interpolant
STATED = {
    "Heun": (2, 1, 2), "Midpoint": (2, 1, 1), "Ralston": (2, 1, 1), "Bosh3": (3, 2, 3), "Tsit5": (5, 4, 4), "Dopri5": (5, 4, 4),
    "Dopri8": (8, 7, 5), "Kvaerno3": (3, 2, 3), "Kvaerno4": (4, 3, 3), "Kvaerno5": (5, 4, 3),
    "Sil3": (2, 2, 2), "KenCarp3": (3, 2, 2), "KenCarp4": (4, 3, 3), "KenCarp5": (5, 4, 3),
}


# ---------------------------------------------------------------- rooted trees
@functools.lru_cache(None)
def trees(n, colours):
    """rooted trees with n nodes: (colour, sorted tuple of subtrees)"""
    if n == 1:
        return tuple((c, ()) for c in colours)
    out = set()
    for part in forests(n - 1, colours):
        for c in colours:
            out.add((c, part))
    return tuple(sorted(out))


@functools.lru_cache(None)
def forests(n, colours):
    if n == 0:
        return ((),)
    out = set()
    for k in range(1, n + 1):
        for t_ in trees(k, colours):
            for rest in forests(n - k, colours):
                out.add(tuple(sorted(rest + (t_,))))
    return tuple(sorted(out))


@functools.lru_cache(None)
def size(tr):
    return 1 + sum(size(s) for s in tr[1])


@functools.lru_cache(None)
def gamma(tr):
    g = size(tr)
    for s in tr[1]:
        g *= gamma(s)
    return g


# ---------------------------------------------------------------- decoding
class Decoded:
    """nodes: list of (colour, c, {node: coef}); out/err: {node: coef}"""


def decode(name, theta=False, interp=True):
    prob = Problem("ode", 2 if name in IMEX else 1)
    r = one_step(name, prob, None, True, False)
    y1, err, dense, state, res = r["out"]
    ring = RG.Ring()
    roots = roots_of(r["ev"], prob)
    oks = {ok: True for *_, ok in roots if isinstance(ok, T.Term)}
    err = S.scalar(T.subst(err[()], oks)) if oks else err
    D = Decoded()
    D.nodes, D.ids = [], {}
    hid = ring.atom(("sym", "h"))
    tid = ring.atom(("sym", "t"))
    yid = ring.atom(("sym", "y"))
    # implicit solves: value atom -> (f atom, scale)
    rmap = {}
    for val, resid, _, _ in roots:
        (vm, vc), = ring.norm(val.reshape(-1)[0]).items()
        p = dict(ring.norm(resid.reshape(-1)[0]))
        assert vc == 1 and abs(p.pop(vm) - 1) < 1e-14
        p = {m: c for m, c in p.items() if abs(c) > 1e-14}
        (fm, fc), = p.items()
        assert fc == -1
        va = vm[0][0]
        d = dict(fm)
        e = d.pop(hid, 0)
        (fa, one), = d.items()
        rmap[va] = (fa, e)

    def lincomb(p, base):
        """poly -> ({base atoms}, {node: coef}) reading h*f (or k-space root) as stage increments"""
        row, b0 = {}, {}
        for m, c in p.items():
            if abs(c) < 1e-14:
                continue
            d = dict(m)
            fa = [a for a in d if a in rmap or ring.akey[a][0] == "app"]
            if not fa:
                b0[m] = c
                continue
            assert len(fa) == 1 and d[fa[0]] == 1, ring.show({m: c})
            a = fa[0]
            hexp = d.get(hid, 0)
            rest = {k: v for k, v in d.items() if k not in (a, hid)}
            assert all(k in base for k in rest), ring.show({m: c})
            if a in rmap:
                a2, e = rmap[a]
                assert hexp + e == 1
                a = a2
            else:
                assert hexp == 1
            n = node(a)
            key = tuple(sorted(rest.items()))
            if base:
                row.setdefault(n, {})[key] = c
            else:
                row[n] = c
        return b0, row

    def node(a):
        if a in D.ids:
            if D.ids[a] is None:
                return ("self", a)
            return D.ids[a]
        D.ids[a] = None
        tm = ring.terms[a]
        nm = tm.name.split("[")[0]
        tp = ring.norm(tm.args[0])
        c = Fr(0)
        for m, cc in tp.items():
            if abs(cc) < 1e-14:
                continue
            if m == ((tid, Fr(1)),):
                assert abs(cc - 1) < 1e-14
            else:
                assert m == ((hid, Fr(1)),), ring.show(tp)
                c = cc
        b0, row = lincomb(ring.norm(tm.args[1]), ())
        assert list(b0) == [((yid, Fr(1)),)] and abs(list(b0.values())[0] - 1) < 1e-14, ring.show(b0)
        n = len(D.nodes)
        D.nodes.append([prob.names.index(nm), float(c), None])
        D.ids[a] = n
        D.nodes[n][2] = {(n if (isinstance(k, tuple) and k[1] == a) else k): float(v) for k, v in row.items()}
        return n

    b0, row = lincomb(ring.norm(y1[()]), ())
    assert list(b0) == [((yid, Fr(1)),)], "y1 = y0 + increments"
    D.out = {k: float(v) for k, v in row.items()}
    b0, row = lincomb(ring.norm(err[()]), ())
    assert not b0, "error estimate is a combination of stages"
    D.err = {k: float(v) for k, v in row.items()}
    D.ncol = len(prob.names)
    if interp:
        solver = make(name)
        th = T.sym("theta")
        thid = ring.atom(("sym", "theta"))
        leaves, td = jtu.tree_flatten(dense, is_leaf=lambda x: isinstance(x, np.ndarray))
        ex = [jnp.ones(l.shape) for l in leaves]

        def ev(t0, hh, tt, *ls):
            return solver.interpolation_cls(t0=t0, t1=t0 + hh, **jtu.tree_unflatten(td, ls)).evaluate(t0 + tt * hh)
        o, _ = run(ev, (0.0, 1.0, 0.5, *ex), (t, h, th, *leaves))
        b0, row = lincomb(ring.norm(core.under(o[()], [T.lt(0, h)])), (thid,))
        D.y0coef = b0
        D.dense = {k: {dict(key).get(thid, Fr(0)): float(v) for key, v in d.items()} for k, d in row.items()}
        D.thid, D.yid = thid, yid
    return D


def phi(D, n, tr, memo):
    """elementary weight of tree tr rooted at node n (1 if colours match)"""
    if D.nodes[n][0] != tr[0]:
        return 0.0
    key = (n, tr)
    if key in memo:
        return memo[key]
    v = 1.0
    for s in tr[1]:
        v *= sum(a * phi(D, j, s, memo) for j, a in D.nodes[n][2].items())
        if v == 0.0:
            break
    memo[key] = v
    return v


def weights(D, w, tr, memo):
    return sum(b * phi(D, n, tr, memo) for n, b in w.items())


def tshow(tr):
    return ("ab"[tr[0]] if True else "") + ("[" + "".join(tshow(s) for s in tr[1]) + "]" if tr[1] else "")


TOL = {"KenCarp5": 1e-11}   # the published KenCarp5 tableau is only accurate to 2e-12
CTOL = {"KenCarp5": 1e-10}


def section(name):
    def go(ck):
        begin(ck)
        ck.assume("smooth vector fields: the rooted-tree order conditions are equivalent to the order of the method (Butcher)")
        fn = f"{name} coefficients via AbstractRungeKutta.step"
        order, emb, dorder = STATED[name]
        D = decode(name)
        tol = TOL.get(name, 1e-12)
        memo = {}
        cols = tuple(range(D.ncol))
        term = Problem("ode", D.ncol).term
        code_order = make(name).order(term)
        ck.fact(f"{name}.stated order", f"{name}.order", code_order == order, f"order() = {code_order}, documented {order}")
        eo = make(name).error_order(term)
        ck.fact(f"{name}.stated error order", f"{name}.error_order", eo is not None and abs(eo - order) < 1e-12 and eo <= emb + 1, f"error_order() = {eo}, method of order {order}, estimate is O(h^{emb + 1})")
        for n, (col, c, row) in enumerate(D.nodes):
            for k in cols:
                s = sum(a for j, a in row.items() if D.nodes[j][0] == k)
                ck.fact(f"{name}.row sum = abscissa [stage c={c:.4g}, colour {k}]", fn, abs(s - c) < tol, f"{s} vs {c}")
        for p in range(1, order + 1):
            for tr in trees(p, cols):
                w = weights(D, D.out, tr, memo)
                ck.fact(f"{name}.order {p} condition {tshow(tr)}", fn, abs(w - 1 / gamma(tr)) < tol, f"residual {w - 1 / gamma(tr):.3e}")
        for p in range(1, emb + 1):
            for tr in trees(p, cols):
                w = weights(D, D.err, tr, memo)
                ck.fact(f"{name}.error estimate vanishes on {tshow(tr)}", fn, abs(w) < tol, f"{w:.3e}")
        big = max(abs(weights(D, D.err, tr, memo)) for tr in trees(emb + 1, cols))
        ck.fact(f"{name}.error estimate is not identically zero at order {emb + 1}", fn, big > 1e-9, f"{big}")
        # dense output
        bt = D.dense
        for p in range(1, dorder + 1):
            for tr in trees(p, cols):
                acc = {}
                for n, poly in bt.items():
                    f = phi(D, n, tr, memo)
                    for e, c in poly.items():
                        acc[e] = acc.get(e, 0.0) + c * f
                acc[Fr(p)] = acc.get(Fr(p), 0.0) - 1 / gamma(tr)
                bad = max(abs(v) for v in acc.values())
                ck.fact(f"{name}.dense order {p} condition {tshow(tr)}", f"{name} interpolation", bad < CTOL.get(name, 2e-11), f"{bad:.3e}")
        diag = [a for n, (col, c, row) in enumerate(D.nodes) for j, a in row.items() if j == n]
        if name in IMPLICIT + IMEX:
            imp = D.ncol - 1
            last = [n for n, (col, c, row) in enumerate(D.nodes) if col == imp and abs(c - 1) < 1e-12
                    and all(abs(row.get(j, 0) - D.out.get(j, 0)) < tol for j in set(row) | set(D.out) if D.nodes[j][0] == imp)]
            ck.fact(f"{name}.stiffly accurate", fn, len(last) >= 1, "the last implicit stage is not the solution")
    return go


SECTIONS = [(n, section(n)) for n in ALL]


# ---------------------------------------------------------------- executable contract: step residual on polynomial problems
def concrete(rng, effort):
    """local error of the real step scales as h^(p+1): quadrature y'=t^k exact for k<p, and the non-linear problem y'=-y^2..."""
    for name in ALL:
        order, emb, dorder = STATED[name]
        kw = {} if name in EXPLICIT else dict(root_finder=optx.Newton(rtol=1e-13, atol=1e-13))
        solver = getattr(dfx, name)(**kw)
        stepf = eqx.filter_jit(solver.step)
        for k in range(order):
            # y = (t+1)^... quadrature of degree k <= order-1 must be exact
            f = lambda tt, y, a: (tt ** k) * jnp.ones_like(y)
            terms = dfx.ODETerm(f) if name not in IMEX else dfx.MultiTerm(dfx.ODETerm(f), dfx.ODETerm(lambda tt, y, a: 2 * (tt ** k) * jnp.ones_like(y)))
            mult = 1.0 if name not in IMEX else 3.0
            t0, hh = float(rng.uniform(0, 1)), 0.7
            y0 = jnp.array([0.3])
            st = solver.init(terms, jnp.asarray(t0), jnp.asarray(t0 + hh), y0, None)
            y1, err, dense, _, _ = stepf(terms, jnp.asarray(t0), jnp.asarray(t0 + hh), y0, None, st, jnp.asarray(False))
            want = 0.3 + mult * ((t0 + hh) ** (k + 1) - t0 ** (k + 1)) / (k + 1)
            bad = abs(float(y1[0]) - want) > 1e-10
            if k < emb and abs(float(err[0])) > 1e-10:
                bad = True
            tm = t0 + 0.37 * hh
            dv = float(solver.interpolation_cls(t0=t0, t1=t0 + hh, **dense).evaluate(tm)[0])
            dw = 0.3 + mult * (tm ** (k + 1) - t0 ** (k + 1)) / (k + 1)
            if k < dorder and abs(dv - dw) > 1e-9:
                bad = True
            yield None if not bad else dict(case=f"{name}: one step on y'=t^{k} from t={t0}, h={hh}", got=[float(y1[0]), float(err[0]), dv], expected=[want, 0.0 if k < emb else "any", dw])
        # order of the local error on a nonlinear non-autonomous problem with known solution
        sol = lambda tt: np.array([np.sin(tt) + 2, np.cos(2 * tt) + 2])
        dsol = lambda tt: jnp.stack([jnp.cos(tt), -2 * jnp.sin(2 * tt)])
        js = lambda tt: jnp.stack([jnp.sin(tt) + 2, jnp.cos(2 * tt) + 2])

        def G(tt, y):
            d = y - js(tt)
            return jnp.stack([d[1] * y[0] + d[0] ** 2, d[0] * y[1] - d[1]])
        fE = lambda tt, y, a: dsol(tt) + G(tt, y)
        if name in IMEX:
            terms = dfx.MultiTerm(dfx.ODETerm(lambda tt, y, a: 0.3 * dsol(tt) + G(tt, y) + y * y[::-1]), dfx.ODETerm(lambda tt, y, a: 0.7 * dsol(tt) - y * y[::-1]))
        else:
            terms = dfx.ODETerm(fE)
        for _ in range(effort):
            t0s = [float(x) for x in rng.uniform(0, 2, size=5)]
            hs = [0.1, 0.05] if order <= 5 else [0.4, 0.2]
            errs, ests, dns = [], [], []
            for hh in hs:
                acc = np.zeros(3)
                for t0 in t0s:
                    y0 = jnp.asarray(sol(t0))
                    st = solver.init(terms, jnp.asarray(t0), jnp.asarray(t0 + hh), y0, None)
                    y1, est, dense, _, _ = stepf(terms, jnp.asarray(t0), jnp.asarray(t0 + hh), y0, None, st, jnp.asarray(False))
                    tm = t0 + 0.4 * hh
                    dv = np.asarray(solver.interpolation_cls(t0=t0, t1=t0 + hh, **dense).evaluate(tm))
                    acc += [np.sum((np.asarray(y1) - sol(t0 + hh)) ** 2), np.sum(np.asarray(est) ** 2), np.sum((dv - sol(tm)) ** 2)]
                e = np.sqrt(acc)
                errs.append(float(e[0])), ests.append(float(e[1])), dns.append(float(e[2]))
            slope = lambda e, q: True if e[1] < 1e-12 else np.log2(e[0] / e[1]) > q
            bad = not slope(errs, order + 1 - 0.7) or not slope(dns, dorder + 1 - 0.7)
            bad = bad or not (slope(ests, emb + 1 - 0.7))
            yield None if not bad else dict(case=f"{name}: local error order on a nonlinear problem at t={t0s}, h={hs}", errors=errs, estimates=ests, dense=dns, expected_orders=[order + 1, emb + 1, dorder + 1])


def published_step(rng, effort):
    from . import c07
    yield from c07.concrete(rng, effort)


CONCRETE = [("local orders", concrete), ("published tableau", published_step)]
