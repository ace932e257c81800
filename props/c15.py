"""C15: the unsafe Brownian path has the law of Brownian increments with Levy area."""
from .c14 import *

P, Q = T.sym("p"), T.sym("q")
S_ = jax.ShapeDtypeStruct


def path(mode, shape):
    return lambda k: dfx.UnsafeBrownianPath(shape, k, levy_area=MODES[mode])


def ext(mode, shape, ts, use_levy=True, dtype="float64", left=True):
    jax.clear_caches()
    ex = (jr.key(0),) + tuple(jnp.asarray(0.3 + 0.1 * i, dtype) for i in range(len(ts)))
    return run(lambda k, *t: path(mode, shape)(k).evaluate(*t, left=left, use_levy=use_levy), ex, (S.scalar(KEY),) + tuple(S.scalar(t) for t in ts))


def vals(res, mode):
    """all components, as (label, term)"""
    out = []
    for L in mode:
        for j, v in enumerate(jtu.tree_leaves(getattr(res, L), is_leaf=lambda v: isinstance(v, np.ndarray))):
            for i in np.ndindex(np.shape(v)):
                out.append((L, j, i, v[i]))
    return out


SHAPES = {"scalar": (), "vector": (3,), "matrix": (2, 2), "tree": {"a": S_((), "float64"), "b": S_((2,), "float64"), "c": [S_((), "float64")]}}


def laws(ck):
    begin(ck)
    ck.assume("jax.random.normal gives independent standard Gaussians for different keys and positions; different derived keys are independent")
    fn = "UnsafeBrownianPath.evaluate"
    pre = [T.lt(P, Q)]
    for mode in MODES:
        for sname, shape in SHAPES.items():
            res, ev = ext(mode, shape, (P, Q))
            nm = f"{mode}.{sname}"
            ck.fact(f"{nm}.the increment is of the Levy area type asked for", fn, type(res) is MODES[mode], f"{type(res)}")
            h = s_(Q, P)
            parts = {f"{L}.{j}{list(i)}": (t, m({"W": F(1), "H": F(1, 12), "K": F(1, 720)}[L], h)) for L, j, i, t in vals(res, mode)}
            law(ck, nm, fn, parts, gaussians([t for t, _ in parts.values()]), lambda z, w: F(1) if z is w else F(0))
            for d in jtu.tree_leaves(res.dt, is_leaf=lambda v: isinstance(v, np.ndarray)):
                ck.equal(f"{nm}.dt", fn, at0(d), h, pre)
            draws = keyuse_ok(ck, f"{nm}.keys", fn, ev.keyuse, {k for k in _roots(ev)})
            # without Levy areas: the same W
            w, _ = ext(mode, shape, (P, Q), use_levy=False)
            for x, y in zip(jtu.tree_leaves(w, is_leaf=lambda v: isinstance(v, np.ndarray)), jtu.tree_leaves(res.W, is_leaf=lambda v: isinstance(v, np.ndarray))):
                ck.equal_arr(f"{nm}.without Levy areas the increment is W", fn, x, y)
            ck.fact(f"{nm}.same structure as the shape", fn, jtu.tree_structure(jtu.tree_map(lambda v: 0, w, is_leaf=lambda v: isinstance(v, np.ndarray))) == jtu.tree_structure(jtu.tree_map(lambda v: 0, shape) if not isinstance(shape, tuple) else 0), "")
            # evaluated at one time: the increment from 0
            one, _ = ext(mode, shape, (Q,))
            ref, _ = ext(mode, shape, (F(0), Q))
            lf = lambda r: jtu.tree_leaves(r, is_leaf=lambda v: isinstance(v, np.ndarray))
            for k, (x, y) in enumerate(zip(lf(one), lf(ref))):
                ck.equal_arr(f"{nm}.the value at a time is the increment from 0 ({k})", fn, x, y)
            rt, _ = ext(mode, shape, (P, Q), left=False)
            for k, (x, y) in enumerate(zip(lf(rt), lf(res))):
                ck.equal_arr(f"{nm}.left-continuity is irrelevant ({k})", fn, x, y)


def _roots(ev):
    """keys seeded from the path's key and both times"""
    out = []
    for k, how, n in ev.keyuse:
        if how == "split":
            x = k
            while isinstance(x, T.Term) and x.op == "app" and x.name == "split":
                x = x.args[0]
            if isinstance(x, T.Term) and x.op == "app" and x.name == "fold_in":
                out.append(x)
    return out


def seeds(ck):
    """the randomness is a function of the key and of both times, through every bit of both"""
    begin(ck)
    fn = "UnsafeBrownianPath.evaluate"
    for dt, words in (("float64", 2), ("float32", 1)):
        for mode in MODES:
            res, ev = ext(mode, (), (P, Q), dtype=dt)
            roots = set(_roots(ev))
            nm = f"seed.{dt}.{mode}"
            ck.fact(f"{nm}.one seed", fn, len(roots) == 1, f"{[T.show(r) for r in roots]}")
            for r in roots:
                # peel the chain of fold_ins down to the path's key
                chain, x = [], r
                while isinstance(x, T.Term) and x.op == "app" and x.name == "fold_in":
                    chain.append(x.args[1])
                    x = x.args[0]
                ck.fact(f"{nm}.derived from the path's key", fn, x is KEY, T.show(x))
                ws = [{(y.args[0], y.args[1] if len(y.args) > 1 else 0) for y in T.subterms([c]) if y.op == "app" and y.name == "word"} for c in chain if isinstance(c, T.Term)]
                for t, lab in ((P, "t0"), (Q, "t1")):
                    mine = [w for w in ws if any(a is t for a, _ in w)]
                    ck.fact(f"{nm}.{lab} is folded in by itself, all of its bits", fn, any({(t, k) for k in range(words)} == w for w in mine), f"{[T.show(c) for c in chain]}")
                    for c in chain:
                        ops = {y.name for y in T.subterms([c]) if isinstance(y, T.Term) and y.op == "app"} if isinstance(c, T.Term) else set()
                        ck.fact(f"{nm}.the hash of a time changes whenever one of its words does", fn, ops <= {"word", "xor"}, f"{ops}")
                        w_ = [y for y in T.subterms([c]) if isinstance(y, T.Term) and y.op == "app" and y.name == "xor"]
                        ck.fact(f"{nm}.no word cancels", fn, all(a.args[0] is not a.args[1] for a in w_), "")
                # the other order of times is another seed
                other = T.subst(r, {P: Q, Q: P})
                ck.fact(f"{nm}.[t0, t1] and [t1, t0] have different seeds", fn, other is not r, "")
    for dt in ("float32", "float16", "bfloat16"):
        for mode in MODES:
            p = path(mode, S_((3,), dt))(jr.key(0))
            for ts in ((0.5,), (0.5, 1.5)):
                out = jax.eval_shape(lambda: p.evaluate(*map(jnp.asarray, ts), use_levy=True))
                ck.fact(f"shape and dtype {dt} {mode} {len(ts)} times", fn, type(out) is MODES[mode] and all(getattr(out, L).shape == (3,) and str(getattr(out, L).dtype) == dt for L in mode), f"{out}")
    p = path("W", ())(jr.key(0))
    ck.fact("the path is defined for all times", "UnsafeBrownianPath.t0/t1", p.t0 == -np.inf and p.t1 == np.inf, f"{p.t0} {p.t1}")

    def rejects():
        try:
            path("W", S_((), "int32"))(jr.key(0))
        except ValueError:
            return True
        return False
    ck.fact("integer noise is rejected", "UnsafeBrownianPath.__init__", rejects(), "accepted")
    ck.fact("a tuple of integers is the shape of one array of the default dtype", "UnsafeBrownianPath.__init__", path("W", (2, 3))(jr.key(0)).shape == S_((2, 3), "float64"), "")


def concrete(rng, effort):
    """the real code: repeatability, different answers to different queries, sampled second moments"""
    for mode in MODES:
        k = jr.key(int(rng.integers(2 ** 31)))
        p = path(mode, {"a": S_((), "float64"), "b": S_((2,), "float64")})(k)
        f = jax.jit(lambda a, b: jnp.concatenate([jnp.reshape(l, (-1,)) for L in mode for l in jtu.tree_leaves(getattr(p.evaluate(a, b, use_levy=True), L))]))
        t0 = float(rng.uniform(0, 1))
        qs = [(t0, t0 + 1), (np.nextafter(t0, 9), t0 + 1), (t0, np.nextafter(t0 + 1, 9)), (t0, t0 + 2), (t0 + 1, t0 + 2), (t0 - 1e-9, t0 + 1), (t0, t0 + 1 + 1e-9), (0., 1.), (1., 2.), (0., 2.)]
        out = np.stack([np.asarray(f(*q)) for q in qs])
        again = np.asarray(f(*qs[0]))
        yield None if np.array_equal(again, out[0]) else dict(case=f"a repeated query gives another answer ({mode})")
        fl = out.reshape(-1)
        yield None if len(set(fl.tolist())) == len(fl) else dict(case=f"different queries, leaves or components share randomness ({mode})", have=str(out.tolist())[:800])
        w = jtu.tree_leaves(p.evaluate(*qs[0]))
        wl = jtu.tree_leaves(p.evaluate(*qs[0], use_levy=True).W)
        yield None if all(np.array_equal(a, b) for a, b in zip(w, wl)) else dict(case=f"W depends on whether Levy areas are asked for ({mode})")
        N = 3000 * effort
        a, b = float(rng.uniform(-2, 0)), float(rng.uniform(0.5, 3))
        c = b + 1.5
        g = lambda kk: jnp.concatenate([jnp.reshape(getattr(path(mode, (2,))(kk).evaluate(x, y, use_levy=True), L), (-1,)) for x, y in ((a, b), (b, c)) for L in mode])
        X = np.asarray(jax.vmap(g)(jr.split(jr.key(int(rng.integers(2 ** 31))), N)))
        v = np.concatenate([[{"W": 1, "H": 1 / 12, "K": 1 / 720}[L] * (y - x)] * 2 for x, y in ((a, b), (b, c)) for L in mode])
        E = X.T @ X / N
        z = np.abs(E - np.diag(v)) / (np.sqrt(np.outer(v, v) * (1 + np.eye(len(v)))) / np.sqrt(N))
        i = np.unravel_index(np.argmax(z), z.shape)
        yield None if z.max() < 9 else dict(case=f"sampled covariances ({mode}, {N} keys, [{a},{b}])", entry=str(i), z=float(z.max()), have=float(E[i]), want=float(np.diag(v)[i]))
        M = np.abs(X.mean(0)) / np.sqrt(v / N)
        yield None if M.max() < 9 else dict(case=f"sampled means ({mode})", z=float(M.max()))


SECTIONS = [("laws", laws), ("seeds", seeds)]
CONCRETE = [("queries of a path", concrete)]
