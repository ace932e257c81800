"""C14: the virtual Brownian tree is one consistent Brownian sample path.

Ghost state: the triple (W, h H, h^2 K) of an interval of length h is written X; Chen's relation
joins the triples of two adjacent intervals.  A node of the tree carries X over [0, s], [0, u] and
[s, u], and its key.  The invariant of the descent is that X[0,u] = chen(X[0,s], X[s,u]); the law
lemma is that halving a node gives two independent triples with the law of Brownian motion, whose
chen is the parent; induction over the tree gives the joint law at all nodes.
"""
import functools
import itertools

import jax.random as jr
from .common import *
from .mainloop import error_if_stub, val
from engine.core import under

B, ST, STT = dfx.BrownianIncrement, dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea
MODES = {"W": B, "WH": ST, "WHK": STT}
F = Fr
VARS = {"W": lambda h: h, "H": lambda h: T.mul(F(1, 12), T.ipow(h, 3)), "K": lambda h: T.mul(F(1, 720), T.ipow(h, 5))}
m, a_, s_ = T.mul, T.add, T.sub


# ---------------------------------------------------------------- Chen's relation (a: length of x, b: length of y)
def chen(x, a, y, b):
    out = {"W": a_(x["W"], y["W"])}
    if "H" in x:
        q = s_(m(b, x["W"]), m(a, y["W"]))
        out["H"] = a_(x["H"], y["H"], m(F(1, 2), q))
    if "K" in x:
        out["K"] = a_(x["K"], y["K"], m(F(1, 2), b, x["H"]), m(F(-1, 2), a, y["H"]), m(F(1, 12), s_(b, a), q))
    return out


def rest(tot, x, a, b):
    """y with chen(x, a, y, b) = tot"""
    out = {"W": s_(tot["W"], x["W"])}
    if "H" in x:
        q = s_(m(b, x["W"]), m(a, out["W"]))
        out["H"] = a_(tot["H"], T.neg(x["H"]), m(F(-1, 2), q))
    if "K" in x:
        out["K"] = a_(tot["K"], T.neg(x["K"]), m(F(-1, 2), b, x["H"]), m(F(1, 2), a, out["H"]), m(F(-1, 12), s_(b, a), q))
    return out


# ---------------------------------------------------------------- linear Gaussian forms
def gaussians(ts):
    return [x for x in T.subterms([t for t in ts if isinstance(t, T.Term)]) if x.op == "app" and x.name in ("normal", "mvn")]


def linform(ck, name, fn, t, atoms):
    """t as a linear form in atoms (an obligation): {atom: coefficient}, and the part without them"""
    zero = {z: F(0) for z in atoms}
    t0 = T.subst(t, zero) if isinstance(t, T.Term) else t
    co = {}
    for z in atoms:
        one = dict(zero)
        one[z] = F(1)
        c = s_(T.subst(t, one) if isinstance(t, T.Term) else t, t0)
        co[z] = c
    ck.equal(name + ": linear in the Gaussians", fn, t, a_(t0, *[m(c, z) for z, c in co.items()]))
    return {z: c for z, c in co.items() if not (T.is_c(c) and c == 0)}, t0


def cov(x, y, covs):
    """covariance of two linear forms; covs(z, z') the covariance of two atoms (0 if independent)"""
    out = F(0)
    for z, c in x.items():
        for w, d in y.items():
            v = covs(z, w)
            if not (T.is_c(v) and v == 0):
                out = a_(out, m(c, d, v))
    return out


# ---------------------------------------------------------------- extraction
class NodeHook:
    """2 ** -(level + k) becomes h 2^-k, h the length of the node"""

    def __init__(self, level, h):
        self.level, self.h = level, h

    def __call__(self, ev, eqn, name, ins):
        if name in ("pow", "exp2"):
            base, ex = (F(2), ins[0]) if name == "exp2" else ins
            if name == "pow" and not (base.shape == () and T.is_c(base[()]) and base[()] == 2):
                return None
            if not self.has(ex):
                return None
            return [S.emap(self.one, ex)]
        if name == "integer_pow":
            return None
        return None

    def has(self, ex):
        return any(self.level in T.subterms([v]) for v in np.asarray(ex, dtype=object).reshape(-1) if isinstance(v, T.Term))

    def one(self, e):
        k = T.add(e, self.level) if T.sort_of(e) == "I" else T.add(e, T.R(self.level))
        r = RG.Ring()
        p = r.norm(T.R(k))
        if not p:
            return self.h
        if list(p) == [()] and p[()].denominator == 1:
            return T.mul(self.h, F(2) ** int(p[()]))
        raise S.Unsupported("power of two")


class Tree:
    """the real VirtualBrownianTree, extracted"""

    def __init__(self, mode, shape=(), t0=0., t1=1., dtype="float64", tol=0.1):
        self.mode, self.shape = mode, shape
        self.Ls = mode
        self.t0, self.t1, self.tol, self.dtype = t0, t1, tol, dtype

    def make(self, key, tol, t0=None, t1=None):
        st = self.shape if isinstance(self.shape, tuple) else self.shape
        return dfx.VirtualBrownianTree(self.t0 if t0 is None else t0, self.t1 if t1 is None else t1, tol, st, key, levy_area=MODES[self.mode])

    def extract(self, fn, examples, values, handler=None, prim_hook=None):
        """fn(tree, *times) with symbolic key, tolerance and times; handler(i, state class instance, cond, body) per loop"""
        recs = []
        orig = jax.lax.while_loop

        def wl(cond_fun, body_fun, init_val):
            recs.append(jtu.tree_structure(init_val))
            return orig(cond_fun, body_fun, init_val)

        n = [0]

        def lh(ev, eqn, cond, body, init):
            if handler is None:
                return None
            td = recs[n[0]]
            n[0] += 1
            un = lambda vs: jtu.tree_unflatten(td, list(vs))
            fl = lambda st: jtu.tree_leaves(st, is_leaf=lambda v: isinstance(v, np.ndarray))
            out = handler(ev, un(init), lambda st: cond(fl(st))[()] if isinstance(cond(fl(st)), np.ndarray) else cond(fl(st)), lambda st: un(body(fl(st))))
            return fl(out)

        jax.clear_caches()
        jax.lax.while_loop = wl
        try:
            with error_if_stub():
                return run(lambda k, tl, *ts: fn(self.make(k, tl), *ts), (jr.key(0), self.tol) + tuple(examples),
                           (S.scalar(KEY), S.scalar(TOL)) + tuple(values), loop_handler=lh, prim_hook=prim_hook)
        finally:
            jax.lax.while_loop = orig


KEY = T.sym("key", "I")
TOL = T.sym("tol")


class Node:
    """a node [s, u] of the tree as the loop carries it, symbolic: X[0,s] and X[s,u] arbitrary, X[0,u] by the invariant"""

    def __init__(self, Ls, shape, s, h, key, level):
        self.Ls, self.s, self.h, self.key, self.level = Ls, s, h, key, level
        self.left = {L: symarr(f"{L}_0s", shape) for L in Ls}
        self.own = {L: symarr(f"{L}_su", shape) for L in Ls}
        self.right = {L: np.empty(shape, dtype=object) for L in Ls}
        for i in np.ndindex(shape):
            r = chen({L: self.left[L][i] for L in Ls}, s, {L: self.own[L][i] for L in Ls}, h)
            for L in Ls:
                self.right[L][i] = r[L]

    def state(self, init):
        tr = lambda L: (self.left[L], self.right[L], self.own[L]) if L in self.Ls else None
        return dataclasses_replace(init, level=S.scalar(self.level), s=S.scalar(self.s), key=S.scalar(self.key),
                                   w_s_u_su=tr("W"), bhh_s_u_su=tr("H"), bkk_s_u_su=tr("K"))


def dataclasses_replace(st, **kw):
    leaves = list(kw)
    new = object.__new__(type(st))
    for f in st.__dataclass_fields__:
        if f not in kw:
            raise S.Unsupported(f"unknown field {f} of the state of the tree")
    for k in leaves:
        if k not in st.__dataclass_fields__:
            raise S.Unsupported(f"the state of the tree has no field {k}")
    for f in st.__dataclass_fields__:
        object.__setattr__(new, f, kw[f])
    return new


def state_triple(st, i, Ls):
    f = {"W": st.w_s_u_su, "H": st.bhh_s_u_su, "K": st.bkk_s_u_su}
    mk = lambda k: {L: f[L][k][i] for L in Ls}
    return mk(0), mk(1), mk(2)


def keyuse_ok(ck, name, fn, uses, given):
    """every key is consumed at most once (drawn from, or split into a stated number of keys)"""
    seen = {}
    for k, how, n in uses:
        if how == "fold_in":
            continue
        seen.setdefault(k, set()).add((how, n))
    multi = {T.show(k): sorted(v) for k, v in seen.items() if len(v) > 1}
    ck.fact(f"{name}: no key is used for two purposes", fn, not multi, f"{multi}")
    draws = [(k, h, n) for k, h, n in uses if h not in ("split", "fold_in")]
    anc = {}
    for k, h, n in draws:
        chain = []
        x = k
        while isinstance(x, T.Term) and x.op == "app" and x.name == "split":
            chain.append(x)
            x = x.args[0]
        anc[k] = (chain, x)
    bad = [T.show(k) for k, (c, root) in anc.items() if root not in given]
    ck.fact(f"{name}: every draw uses a key derived from the given key", fn, not bad, f"{bad}")
    return draws


# ---------------------------------------------------------------- sections
def lemmas(ck):
    """the ghost theory: Chen's relation is what the definitions of H and K say, and the law of (W, hH, h^2K)"""
    begin(ck)
    # moments of a path over an interval of length a then b: I0 = W, I1 = int W, I2 = int u W  (from the interval's start)
    a, b = T.sym("a"), T.sym("b")
    mom = lambda n: [T.sym(f"{n}{i}") for i in range(3)]
    x, y = mom("x"), mom("y")
    tot = [a_(x[0], y[0]), a_(x[1], m(b, x[0]), y[1]), a_(x[2], m(x[0], a_(m(a, b), m(F(1, 2), b, b))), m(a, y[1]), y[2])]

    def X(q, h):
        # bar H = int (W_u - u/h W) du;  bar K = int (W_u - u/h W)(h/2 - u) du
        return {"W": q[0], "H": s_(q[1], m(F(1, 2), h, q[0])), "K": a_(m(F(1, 2), h, q[1]), T.neg(q[2]), m(F(1, 12), h, h, q[0]))}
    j = chen(X(x, a), a, X(y, b), b)
    g = X(tot, a_(a, b))
    for L in "WHK":
        ck.equal(f"Chen's relation follows from the definition of {L}", "(lemma)", j[L], g[L])
    # law of the moments of Brownian motion over [0, h]: Cov(W_u, W_v) = min(u, v)
    h = T.sym("h")
    cm = {}
    for p, q in itertools.combinations_with_replacement(range(3), 2):
        # I_0 = W_h; I_k = int_0^h u^(k-1) W_u du
        if p == 0 and q == 0:
            v = h
        elif p == 0:
            v = m(F(1, q + 1), T.ipow(h, q + 1))        # int u^(q-1) u du
        else:
            # int int u^(p-1) v^(q-1) min(u,v): over u<v and v<u
            e = p + q + 1
            v = m(F(1, (p + 1) * e) + F(1, (q + 1) * e), T.ipow(h, e))
        cm[p, q] = cm[q, p] = v
    lin = {"W": [F(1), F(0), F(0)], "H": [m(F(-1, 2), h), F(1), F(0)], "K": [m(F(1, 12), h, h), m(F(1, 2), h), F(-1)]}
    for L, M in itertools.combinations_with_replacement("WHK", 2):
        c = a_(*[m(lin[L][p], lin[M][q], cm[p, q]) for p in range(3) for q in range(3)])
        ck.equal(f"law of Brownian motion: Cov({L}, {M})", "(lemma)", c, VARS[L](h) if L == M else F(0))
    # increments: rest inverts chen, and chen is associative
    mk = lambda n: {L: T.sym(f"{n}{L}") for L in "WHK"}
    c = T.sym("c")
    x, y, z = mk("x"), mk("y"), mk("z")
    r = rest(chen(x, a, y, b), x, a, b)
    l1 = chen(chen(x, a, y, b), a_(a, b), z, c)
    l2 = chen(x, a, chen(y, b, z, c), a_(b, c))
    for L in "WHK":
        ck.equal(f"the triple of the second interval is determined: {L}", "(lemma)", r[L], y[L])
        ck.equal(f"Chen's relation is associative: {L}", "(lemma)", l1[L], l2[L])


def noise_model(own, shape):
    """covariance of the atoms: the node's own triple has the law of Brownian motion over its length; draws are standard"""
    var = {}
    for L, (arr_, h) in own.items():
        for i in np.ndindex(shape):
            var[arr_[i]] = VARS[L](h)

    def covs(z, w):
        if z is w:
            if z in var:
                return var[z]
            if z.name == "normal":
                return F(1)
        return F(0)
    return covs


def law(ck, nm, fn, parts, atoms, covs):
    """parts: {label: (term, variance)}; all pairwise uncorrelated, with those variances, and centred"""
    forms = {}
    for lab, (t, v) in parts.items():
        f, t0 = linform(ck, f"{nm}: {lab}", fn, t, atoms)
        ck.equal(f"{nm}: {lab} has mean zero", fn, t0, F(0))
        forms[lab] = f
    labs = list(parts)
    for i, p in enumerate(labs):
        for q in labs[i:]:
            c = cov(forms[p], forms[q], covs)
            if p == q:
                ck.equal(f"{nm}: Var({p})", fn, c, parts[p][1])
            else:
                ck.equal(f"{nm}: Cov({p}, {q}) = 0", fn, c, F(0))


def symbolic_nodes(Ls, shape):
    s, h, l = T.sym("s"), T.sym("h"), T.sym("level", "I")
    return Node(Ls, shape, s, h, T.sym("nodekey", "I"), l)


PRE = lambda n: [T.le(F(0), n.s), T.lt(F(0), n.h), T.le(0, n.level)]


def descent(mode, shape):
    def sec(ck):
        begin(ck)
        ck.assume("jax.random.normal gives independent standard Gaussians for different keys and positions; different derived keys are independent; 2**-level is exact")
        Ls = mode
        tree = Tree(mode, shape)
        fn = "VirtualBrownianTree.evaluate (descent)"
        R = T.sym("r")
        nd = symbolic_nodes(Ls, shape)
        got = {}

        def handler(ev, init, cond, body):
            got["init"] = init
            got["ku0"] = list(ev.keyuse)
            n0 = len(ev.keyuse)
            st = nd.state(init)
            got["cond"] = cond(st)
            got["cond0"] = cond(init)
            got["body"] = body(st)
            got["ku"] = ev.keyuse[n0:]
            del ev.keyuse[n0:]
            return st
        res, ev = tree.extract(lambda tr, r: tr.evaluate(r, use_levy=True), (0.3,), (S.scalar(R),), handler, NodeHook(nd.level, nd.h))
        nm = f"{mode}{list(shape)}"
        # the root
        st = got["init"]
        ck.fact(f"{nm}.root.level and start", fn, at0(st.level) == 0 and at0(st.s) == 0, f"{st.level} {st.s}")
        parts = {}
        alln = gaussians([v for i in np.ndindex(shape) for tr_ in state_triple(st, i, Ls) for v in tr_.values()])
        for i in np.ndindex(shape):
            l0, u0, su0 = state_triple(st, i, Ls)
            for L in Ls:
                ck.equal(f"{nm}.root.{L} over the empty interval{list(i)}", fn, l0[L], F(0))
                ck.equal(f"{nm}.root.{L} at the right end is that of the node{list(i)}", fn, u0[L], su0[L])
                parts[f"{L}{list(i)}"] = (su0[L], VARS[L](F(1)))
        law(ck, f"{nm}.root", fn, parts, alln, lambda z, w: F(1) if z is w else F(0))
        draws = keyuse_ok(ck, f"{nm}.root keys", fn, got["ku0"], {KEY})
        rk = at0(st.key)
        ck.fact(f"{nm}.root.the key of the root node is a fresh derived key", fn, isinstance(rk, T.Term) and rk.op == "app" and rk.name == "split" and all(rk is not k for k, _, _ in draws), T.show(rk))
        # the loop test: only the level and the tolerance
        c = got["cond"]
        sy = {x.name for x in T.subterms([c]) if x.op == "sym"}
        ck.fact(f"{nm}.the depth depends on the tolerance only", fn, sy <= {"h", "tol", "level"}, f"{sy}")
        pre = PRE(nd) + [T.lt(F(0), TOL)]
        ck.valid(f"{nm}.descends exactly while the node is longer than the tolerance", fn, pre, T.iff(c, T.lt(TOL, nd.h)))
        # one level down
        bd = got["body"]
        half = m(F(1, 2), nd.h)
        inv = PRE(nd) + [T.le(nd.s, R), T.le(R, a_(nd.s, nd.h))]
        covs = noise_model({L: (nd.own[L], nd.h) for L in Ls}, shape)
        kids = {}
        flat = lambda: [bd.level, bd.s, bd.key] + [v for tr_ in (bd.w_s_u_su, bd.bhh_s_u_su, bd.bkk_s_u_su) if tr_ is not None for v in tr_]
        for side, right in (("left", False), ("right", True)):
            pc = inv + [T.lt(a_(nd.s, half), R) if right else T.lt(R, a_(nd.s, half))]
            ck.sat(f"{nm}.{side}", pc)
            lev, s2, key2, *arrs = [under(v, pc) for v in flat()]
            tr_ = {L: arrs[3 * k:3 * k + 3] for k, L in enumerate(Ls)}
            kids[side] = (at0(key2), tr_)
            ck.equal(f"{nm}.{side}.level", fn, at0(lev), T.add(nd.level, 1))
            ck.equal(f"{nm}.{side}.start", fn, at0(s2), a_(nd.s, half) if right else nd.s, pc)
            ck.valid(f"{nm}.{side}.the query lies in the node", fn, pc, T.and_(T.le(at0(s2), R), T.le(R, a_(at0(s2), half))))
            fs = {x.name for x in T.subterms([v for ar in arrs + [key2] for v in ar.reshape(-1) if isinstance(v, T.Term)]) if x.op == "sym"}
            ck.fact(f"{nm}.{side}.the node does not depend on the query", fn, "r" not in fs and "tol" not in fs, f"{fs}")
            for i in np.ndindex(shape):
                o = chen({L: tr_[L][0][i] for L in Ls}, a_(nd.s, half) if right else nd.s, {L: tr_[L][2][i] for L in Ls}, half)
                for L in Ls:
                    ck.equal(f"{nm}.{side}.{L} at the right end = chen(left end, node){list(i)}", fn, tr_[L][1][i], o[L])
                    if right:
                        ck.equal(f"{nm}.right.{L} at the right end is that of the parent{list(i)}", fn, tr_[L][1][i], nd.right[L][i])
                    else:
                        ck.equal(f"{nm}.left.{L} at the left end is that of the parent{list(i)}", fn, tr_[L][0][i], nd.left[L][i])
        # a query at the midpoint itself belongs to either half (the value is that of the node either way: see the interpolation)
        pc = inv + [T.eq(R, a_(nd.s, half))]
        vs = [under(v, pc) for v in flat()]
        side = "right" if at0(vs[1]) is not nd.s else "left"
        ck.equal(f"{nm}.midpoint.start", fn, at0(vs[1]), a_(nd.s, half) if side == "right" else nd.s, pc)
        ck.equal(f"{nm}.midpoint.key", fn, at0(vs[2]), kids[side][0])
        for k, L in enumerate(Ls):
            for e, w in zip(vs[3 + 3 * k:6 + 3 * k], kids[side][1][L]):
                ck.equal_arr(f"{nm}.midpoint.{L}: the {side} half", fn, e, w)
        lt, rt = kids["left"][1], kids["right"][1]
        parts, atoms = {}, []
        for i in np.ndindex(shape):
            x, y = {L: lt[L][2][i] for L in Ls}, {L: rt[L][2][i] for L in Ls}
            tot = chen(x, half, y, half)
            for L in Ls:
                ck.equal(f"{nm}.halves.chen of the halves is the node: {L}{list(i)}", fn, tot[L], nd.own[L][i])
                ck.equal(f"{nm}.halves.the two nodes meet: {L}{list(i)}", fn, lt[L][1][i], rt[L][0][i])
                parts[f"left {L}{list(i)}"] = (x[L], VARS[L](half))
                parts[f"right {L}{list(i)}"] = (y[L], VARS[L](half))
                atoms.append(nd.own[L][i])
        atoms += gaussians([t for t, _ in parts.values()])
        law(ck, f"{nm}.halves", fn, parts, atoms, covs)
        # keys
        draws = keyuse_ok(ck, f"{nm}.node keys", fn, got["ku"], {nd.key})
        kl, kr = kids["left"][0], kids["right"][0]
        der = lambda k: isinstance(k, T.Term) and k.op == "app" and k.name == "split"
        ck.fact(f"{nm}.node keys.the halves have different keys", fn, der(kl) and der(kr) and kl is not kr, f"{T.show(kl)} {T.show(kr)}")

        def under_key(k, anc):
            while True:
                if k is anc:
                    return True
                if not der(k):
                    return False
                k = k.args[0]
        ck.fact(f"{nm}.node keys.the midpoint's randomness is not derived from the key of a half", fn,
                all(not under_key(k, kl) and not under_key(k, kr) for k, _, _ in draws), f"{[T.show(k) for k, _, _ in draws]}")
        ck.fact(f"{nm}.node keys.the halves' keys are derived from the node's key", fn, under_key(kl, nd.key) and under_key(kr, nd.key), "")
    return sec


def leaf(mode, shape):
    """between the enclosing nodes: the value at r given the node, for every r"""
    def sec(ck):
        begin(ck)
        ck.assume("jax.random.multivariate_normal(key, mean, cov) has that mean and covariance")
        Ls = mode
        tree = Tree(mode, shape)
        fn = "VirtualBrownianTree.evaluate (interpolation)"
        nm = f"{mode}{list(shape)}"
        s, sr, ru = T.sym("s"), T.sym("sr"), T.sym("ru")
        h = a_(sr, ru)
        lev = T.sym("level", "I")

        def go(sr, ru, h, r):
            nd = Node(Ls, shape, s, h, T.sym("nodekey", "I"), lev)
            ku = {}

            def handler(ev, init, cond, body):
                ku["n"] = len(ev.keyuse)
                return nd.state(init)
            res, ev = tree.extract(lambda tr, rr: tr.evaluate(rr, use_levy=True), (0.3,), (S.scalar(r),), handler, NodeHook(lev, h))
            return nd, res, ev, ev.keyuse[ku["n"]:]
        r = a_(s, sr)
        nd, res, ev, uses = go(sr, ru, h, r)
        eps = T.flt(float(np.finfo(np.float64).eps))
        pre = [T.le(F(0), s), T.lt(F(0), sr), T.lt(F(0), ru), T.le(0, lev), T.le(eps, m(r, r)), T.le(a_(s, h), F(1)), T.lt(eps, r)]
        ck.sat(f"{nm}.between", pre)
        ck.equal(f"{nm}.between.dt", fn, at0(under(res.dt, pre)), r, pre)
        W = under(res.W, pre)
        H = under(res.H, pre) if "H" in Ls else None
        K = under(res.K, pre) if "K" in Ls else None
        hasr = dict(W=W, H=H, K=K)
        own = {L: (nd.own[L], h) for L in Ls}
        base = noise_model(own, shape)
        mv = [v for tg, v, _ in ev.notes if tg == "mvn"]
        cmat = under(np.asarray(mv[0][1], dtype=object), pre) if mv else None

        def covs(z, w):
            if z.op == "app" and w.op == "app" and z.name == w.name == "mvn":
                return cmat[z.args[2], w.args[2]] if z.args[:2] == w.args[:2] else F(0)
            return base(z, w)
        parts, atoms, raw = {}, [], []
        for i in np.ndindex(shape):
            tot_r = {"W": W[i]}
            if "H" in Ls:
                tot_r["H"] = m(r, H[i])
            if "K" in Ls:
                tot_r["K"] = m(r, r, K[i])
            left = {L: nd.left[L][i] for L in Ls}
            x = rest(tot_r, left, s, sr)          # the triple over [s, r]
            y = rest({L: nd.own[L][i] for L in Ls}, x, sr, ru)
            for L in Ls:
                parts[f"[s,r] {L}{list(i)}"] = (x[L], VARS[L](sr))
                parts[f"[r,u] {L}{list(i)}"] = (y[L], VARS[L](ru))
                atoms.append(nd.own[L][i])
                raw.append(tot_r[L])
        gs = gaussians(raw)
        if cmat is not None:
            for p, q in itertools.combinations(range(len(cmat)), 2):
                ck.equal(f"{nm}.between.the covariance matrix is symmetric[{p},{q}]", fn, cmat[p, q], cmat[q, p])
        # nothing before s matters
        fs = {x for t, _ in parts.values() for x in T.subterms([t]) if x.op == "sym"}
        lefts = [nd.left[L][i] for L in Ls for i in np.ndindex(shape)]
        for lab, (t, _) in parts.items():
            z = {l: F(0) for l in lefts}
            ck.equal(f"{nm}.between.{lab} does not depend on the path before s", fn, t, T.subst(t, z))
            parts[lab] = (T.subst(t, z), parts[lab][1])
        law(ck, f"{nm}.between", fn, parts, list(dict.fromkeys(atoms + gs)), covs)
        draws = keyuse_ok(ck, f"{nm}.between keys", fn, uses, {nd.key})
        ck.fact(f"{nm}.between keys.the randomness comes from the key of the node", fn, len(draws) > 0, "")
        # at the ends the value is that of the node: the same whichever node it is reached from
        for end in ("left", "right"):
            sr2, ru2 = (F(0), h0) if end == "left" else (h0, F(0))
            r2 = a_(s, sr2)
            nd2, res2, ev2, _ = go(sr2, ru2, h0, r2)
            pre2 = [T.lt(F(0), h0), T.le(F(0), s), T.le(a_(s, h0), F(1)), T.le(0, lev), T.le(eps, m(r2, r2)), T.lt(eps, r2)]
            ck.sat(f"{nm}.{end} end", pre2)
            for _, cm2, _ in [(v[0], under(np.asarray(v[1], dtype=object), pre2), 0) for tg, v, _ in ev2.notes if tg == "mvn"]:
                for p in np.ndindex(cm2.shape):
                    ck.equal(f"{nm}.{end} end.nothing is left to draw{list(p)}", fn, cm2[p], F(0), pre2)
            want = nd2.left if end == "left" else nd2.right
            for i in np.ndindex(shape):
                for L, sc in (("W", F(1)), ("H", r2), ("K", m(r2, r2))):
                    if L in Ls:
                        t = m(sc, under({"W": res2.W, "H": res2.H if "H" in Ls else None, "K": res2.K if "K" in Ls else None}[L], pre2)[i])
                        g2 = gaussians([t])
                        if any(z.name == "mvn" for z in g2):
                            t = T.subst(t, {z: F(0) for z in g2 if z.name == "mvn"})
                        ck.equal(f"{nm}.{end} end.{L} is that of the node{list(i)}", fn, t, want[L][i], pre2)
    h0 = T.sym("h")
    return sec


def barred(res, dt, i, Ls):
    out = {"W": res.W[i]}
    if "H" in Ls:
        out["H"] = m(dt, res.H[i])
    if "K" in Ls:
        out["K"] = m(dt, dt, res.K[i])
    return out


def increments(mode, shape):
    """increments are differences of values (Chen's relation for the Levy areas), hence add up"""
    def sec(ck):
        begin(ck)
        Ls = mode
        tree = Tree(mode, shape)
        fn = "VirtualBrownianTree.evaluate (increments)"
        nm = f"{mode}{list(shape)}"
        P, Q = T.sym("p"), T.sym("q")
        sa, ha, sb, hb = (T.sym(n) for n in ("sa", "ha", "sb", "hb"))
        la, lb = T.sym("la", "I"), T.sym("lb", "I")

        def node(tag, s, h, l):
            n = Node(Ls, shape, s, h, T.sym("key" + tag, "I"), l)
            n.left = {L: symarr(f"{L}_0s{tag}", shape) for L in Ls}
            n.own = {L: symarr(f"{L}_su{tag}", shape) for L in Ls}
            n.right = {L: symarr(f"{L}_0u{tag}", shape) for L in Ls}
            return n
        A, Bn = node("A", sa, ha, la), node("B", sb, hb, lb)
        hooks = [NodeHook(la, ha), NodeHook(lb, hb)]

        def both(ev, eqn, name, ins):
            for hk in hooks:
                r = hk(ev, eqn, name, ins)
                if r is not None:
                    return r
            return None

        def go(fn_, ex, vals, nodes):
            it = iter(nodes)
            return tree.extract(fn_, ex, vals, lambda ev, init, cond, body: next(it).state(init), both)[0]
        lv = dict(use_levy=True)
        vp = go(lambda tr, p: tr.evaluate(p, **lv), (0.3,), (S.scalar(P),), [A])
        vq = go(lambda tr, p: tr.evaluate(p, **lv), (0.3,), (S.scalar(Q),), [Bn])
        inc = go(lambda tr, p, q: tr.evaluate(p, q, **lv), (0.3, 0.4), (S.scalar(P), S.scalar(Q)), [A, Bn])
        eps = T.flt(float(np.finfo(np.float64).eps))
        d = s_(Q, P)
        pre = [T.le(eps, m(P, P)), T.lt(eps, P), T.le(eps, m(d, d)), T.lt(eps, d), T.le(Q, F(1)), T.le(eps, m(Q, Q)), T.lt(eps, Q),
               T.le(F(0), sa), T.le(F(0), sb), T.lt(F(0), ha), T.lt(F(0), hb), T.le(sa, P), T.le(P, a_(sa, ha)), T.le(sb, Q), T.le(Q, a_(sb, hb))]
        ck.sat(nm, pre)
        ck.equal(f"{nm}.dt of an increment", fn, at0(under(inc.dt, pre)), d, pre)
        abst = {}

        def ab(x, tag):
            """the two values are arbitrary from here on"""
            return x
        U = lambda r: type(r)(**{k: under(getattr(r, k), pre) for k in r.__dataclass_fields__})
        vp, vq, inc = U(vp), U(vq), U(inc)
        for i in np.ndindex(shape):
            x, y = barred(vp, P, i, Ls), barred(vq, Q, i, Ls)
            want = rest(y, x, P, d)
            have = barred(inc, d, i, Ls)
            for L in Ls:
                ck.equal(f"{nm}.{L} over [p, q] is the difference of the values at q and p{list(i)}", fn, have[L], want[L], pre)
        # over an empty interval nothing happens
        inc0 = go(lambda tr, p, q: tr.evaluate(p, q, **lv), (0.3, 0.4), (S.scalar(P), S.scalar(P)), [A, A])
        for L in Ls:
            for i in np.ndindex(shape):
                ck.equal(f"{nm}.{L} over an empty interval{list(i)}", fn, under(getattr(inc0, L), pre)[i], F(0), pre)
        # backwards: minus the forward increment
        bw = go(lambda tr, p, q: tr.evaluate(p, q, **lv), (0.4, 0.3), (S.scalar(Q), S.scalar(P)), [Bn, A])
        for i in np.ndindex(shape):
            ck.equal(f"{nm}.W over [q, p]{list(i)}", fn, under(bw.W, pre)[i], T.neg(inc.W[i]), pre)
        # without Levy areas: just W
        for k in (1, 2):
            ts, ns = ((P,), [A]) if k == 1 else ((P, Q), [A, Bn])
            w = go(lambda tr, *ts: tr.evaluate(*ts), (0.3, 0.4)[:k], tuple(S.scalar(v) for v in ts), ns)
            full = vp if k == 1 else inc
            ck.equal_arr(f"{nm}.evaluate without Levy area is W ({k} times)", fn, under(w, pre), full.W)
    return sec


def scaling(mode):
    """a tree over [T0, T1] is the unit tree, scaled as Brownian motion scales"""
    def sec(ck):
        begin(ck)
        ck.assume("equinox.error_if raises exactly when its predicate holds")
        Ls = mode
        shape = ()
        fn = "VirtualBrownianTree.evaluate (scaling)"
        T0, T1, P, Q = (T.sym(n) for n in ("T0", "T1", "p", "q"))
        Ln = s_(T1, T0)
        res = lambda t: T.div(s_(t, T0), Ln)
        nodes = [symbolic_nodes(Ls, shape) for _ in range(2)]
        pre = [T.lt(T0, T1), T.le(T0, P), T.lt(P, Q), T.le(Q, T1), T.lt(F(0), TOL)]
        ck.sat(f"{mode}.scaling", pre)
        for k in (1, 2):
            ts = (P, Q)[:k]
            log = {"gen": [], "unit": []}

            def mk(which):
                it = iter(nodes)

                def handler(ev, init, cond, body):
                    st = next(it).state(init)
                    log[which].append((cond(st), body(st), init))
                    return st
                return handler
            unit = Tree(mode, shape)
            gen = Tree(mode, shape)
            hook = NodeHook(nodes[0].level, nodes[0].h)
            tr_ = lambda tr, ts: tr.evaluate(*ts, use_levy=True)
            # the unit tree at the rescaled times
            ru, eu = unit.extract(lambda tr, *ts: tr_(tr, ts), (0.3, 0.4)[:k], tuple(S.scalar(res(t)) for t in ts), mk("unit"), hook)
            st = gen.shape

            def gfn(kk, tl, t0, t1, *ts):
                return dfx.VirtualBrownianTree(t0, t1, tl, (), kk, levy_area=MODES[mode]).evaluate(*ts, use_levy=True)
            recs = []
            orig = jax.lax.while_loop
            n = [0]

            def wl(c, b, i):
                recs.append(jtu.tree_structure(i))
                return orig(c, b, i)
            h = mk("gen")

            def lh(ev, eqn, cond, body, init):
                td = recs[n[0]]
                n[0] += 1
                un = lambda vs: jtu.tree_unflatten(td, list(vs))
                fl = lambda s: jtu.tree_leaves(s, is_leaf=lambda v: isinstance(v, np.ndarray))
                return fl(h(ev, un(init), lambda s: at0(cond(fl(s))), lambda s: un(body(fl(s)))))
            jax.clear_caches()
            jax.lax.while_loop = wl
            try:
                with error_if_stub():
                    rg, eg = run(gfn, (jr.key(0), 0.1, 0., 2.) + (0.3, 0.4)[:k], (S.scalar(KEY), S.scalar(TOL), S.scalar(T0), S.scalar(T1)) + tuple(S.scalar(t) for t in ts),
                                 loop_handler=lh, prim_hook=hook)
            finally:
                jax.lax.while_loop = orig
            utol = T.div(TOL, Ln)
            sub_ = lambda v: T.subst(v, {TOL: utol}) if isinstance(v, T.Term) else v
            ck.fact(f"{mode}.scaling({k}).one descent per time", fn, len(log["gen"]) == len(log["unit"]) == k, f"{len(log['gen'])} {len(log['unit'])}")
            for j, ((c1, b1, i1), (c2, b2, i2)) in enumerate(zip(log["gen"], log["unit"])):
                ck.valid(f"{mode}.scaling({k}).loop {j}: test", fn, pre + PRE(nodes[0]), T.iff(under(c1, pre), under(sub_(c2), pre)))
                fl = lambda s: jtu.tree_leaves(s, is_leaf=lambda v: isinstance(v, np.ndarray))
                for q, (x, y) in enumerate(zip(fl(b1), fl(b2))):
                    ck.equal(f"{mode}.scaling({k}).loop {j}: body[{q}]", fn, under(at0(x), pre), under(at0(y), pre), pre)
                for q, (x, y) in enumerate(zip(fl(i1), fl(i2))):
                    ck.equal(f"{mode}.scaling({k}).loop {j}: root[{q}]", fn, at0(x), at0(y), pre)
            root = T.unary("sqrt", Ln)
            for L in Ls:
                ck.equal(f"{mode}.scaling({k}).{L}", fn, under(at0(getattr(rg, L)), pre), m(root, under(at0(getattr(ru, L)), pre)), pre)
            ck.equal(f"{mode}.scaling({k}).dt", fn, under(at0(rg.dt), pre), s_(Q, P) if k == 2 else s_(P, T0), pre)
            errs = [at0(v[0]) for tg, v, _ in eg.notes if tg == "error_if"]
            bad = T.or_(T.le(T1, T0), *[T.or_(T.lt(t, T0), T.lt(T1, t)) for t in ts])
            bad_in = T.or_(*[T.or_(T.lt(res(t), F(0)), T.lt(F(1), res(t))) for t in ts])
            ck.valid(f"{mode}.scaling({k}).an empty range is an error", fn, [T.le(T1, T0)], T.or_(*errs))
            ck.valid(f"{mode}.scaling({k}).a time outside the range is an error", fn, [T.lt(T0, T1), *[], T.or_(*[T.or_(T.lt(t, T0), T.lt(T1, t)) for t in ts])], T.or_(*errs))
            ck.valid(f"{mode}.scaling({k}).a time in the range is no error", fn, [T.lt(T0, T1), *[T.and_(T.le(T0, t), T.le(t, T1)) for t in ts]], T.not_(T.or_(*errs)))
    return sec


def pytrees(ck):
    """leaves are independent trees"""
    begin(ck)
    fn = "VirtualBrownianTree.evaluate (pytrees)"
    S_ = jax.ShapeDtypeStruct
    for mode in ("W", "WH"):
        for times in ((0.2,), (0.2, 1.7), (0., 2.)):
            mk = lambda shape: Tree(mode, shape, 0., 2., tol=1.0)
            one = lambda sh: mk(sh).extract(lambda tr, *ts: tr.evaluate(*ts, use_levy=True), times, tuple(S.scalar(T.flt(v)) for v in times), None, const_tol)[0]
            tree = {"a": S_((), "float64"), "b": S_((2,), "float64"), "c": S_((), "float64")}
            try:
                full = one(tree)
            finally:
                pass
            for j, (lf, sh) in enumerate((("a", ()), ("b", (2,)), ("c", ()))):
                ref = one(sh)
                sm = {T.app("split", (KEY, 0), "I"): T.app("split", (KEY, j), "I")}
                for L in mode:
                    want = S.emap(lambda v: T.subst(v, sm) if isinstance(v, T.Term) else v, getattr(ref, L))
                    ck.equal_arr(f"leaf {lf} is a tree of its own with its own key: {mode}.{L}{list(times)}", fn, getattr(full, L)[lf], want)
                ck.equal_arr(f"dt of leaf {lf}: {mode}{list(times)}", fn, full.dt[lf], ref.dt)
    for dt in ("float32", "float16", "bfloat16"):
        for mode in MODES:
            if dt == "bfloat16" and mode == "WHK":
                continue
            p = dfx.VirtualBrownianTree(0., 2., 0.1, jax.ShapeDtypeStruct((3,), dt), jr.key(0), levy_area=MODES[mode])
            for ts in ((0.5,), (0.5, 1.5)):
                out = jax.eval_shape(lambda: p.evaluate(*map(jnp.asarray, ts), use_levy=True))
                ck.fact(f"shape and dtype {dt} {mode} {len(ts)} times", fn, type(out) is MODES[mode] and all(getattr(out, L).shape == (3,) and str(getattr(out, L).dtype) == dt for L in mode), f"{out}")
    def rejects():
        try:
            dfx.VirtualBrownianTree(0., 1., .1, jax.ShapeDtypeStruct((), "int32"), jr.key(0))
        except ValueError:
            return True
        return False
    ck.fact("integer noise is rejected", "VirtualBrownianTree.__init__", rejects(), "accepted")
    ck.fact("a tuple of integers is the shape of one array of the default dtype", "VirtualBrownianTree.__init__",
            dfx.VirtualBrownianTree(0., 1., .1, (2, 3), jr.key(0)).shape == jax.ShapeDtypeStruct((2, 3), "float64"), "")


def const_tol(ev, eqn, name, ins):
    # with a constant tolerance the whole loop is executed
    if name == "gt" and any(v.shape == () and v[()] is not None and isinstance(v[()], T.Term) and TOL in T.subterms([v[()]]) for v in ins):
        sm = {TOL: F(1)}
        return [S.emap(lambda a, b: T.lt(T.subst(b, sm) if isinstance(b, T.Term) else b, T.subst(a, sm) if isinstance(a, T.Term) else a), *ins)]
    if name == "lt" and any(v.shape == () and isinstance(v[()], T.Term) and TOL in T.subterms([v[()]]) for v in ins):
        sm = {TOL: F(1)}
        return [S.emap(lambda a, b: T.lt(T.subst(a, sm) if isinstance(a, T.Term) else a, T.subst(b, sm) if isinstance(b, T.Term) else b), *ins)]
    return None


GRID = {1.0: (0., 0.3, 1.0), 0.5: (0.2, 0.5, 0.7, 1.0), 0.3: (0., 0.1, 0.25, 0.4, 0.6, 0.75, 0.9, 1.)}


def law_matrix(times, Ls):
    """covariances of (W, r H, r^2 K)(r) over [0, r] for Brownian motion, by Chen's relation"""
    v = lambda h: {"W": h, "H": h ** 3 / 12, "K": h ** 5 / 720}
    n = len(Ls)
    C = np.zeros((len(times) * n,) * 2)
    lin = []     # each time's triple as a matrix over the independent triples of the increments
    prev, cols, t0 = np.zeros((3, 0)), [], 0.
    order = sorted(range(len(times)), key=lambda k: times[k])
    mats = {}
    for k in order:
        a, b = t0, times[k] - t0
        cols += [v(b)[L] for L in "WHK"]
        A = np.concatenate([prev, np.zeros((3, 3))], 1)
        Y = np.concatenate([np.zeros((3, prev.shape[1])), np.eye(3)], 1)
        q = b * A[0] - a * Y[0]
        A = np.stack([A[0] + Y[0], A[1] + Y[1] + q / 2, A[2] + Y[2] + b / 2 * A[1] - a / 2 * Y[1] + (b - a) / 12 * q])
        mats[k], prev, t0 = A, A, times[k]
    m_ = len(cols)
    for i in range(len(times)):
        for j in range(len(times)):
            x = np.pad(mats[i], ((0, 0), (0, m_ - mats[i].shape[1])))
            y = np.pad(mats[j], ((0, 0), (0, m_ - mats[j].shape[1])))
            C[i * n:(i + 1) * n, j * n:(j + 1) * n] = (x @ np.diag(cols) @ y.T)[:n, :n]
    return C


def grid(mode):
    """exact covariances at listed times with the whole descent executed (whatever its form): bounded, depth <= 2"""
    def sec(ck):
        begin(ck)
        n = 0
        fails = []
        for (t0, t1) in ((0., 1.), (1., 3.)):
            for tol, times in GRID.items():
                L_ = t1 - t0
                forms, mvs = [], {}
                keys = {}
                for r in times:
                    tr = Tree(mode, (), t0, t1, tol=tol * L_)

                    def ct(ev, eqn, name, ins, tol=tol * L_):
                        if name in ("gt", "lt", "ge", "le") and any(isinstance(v[()], T.Term) and TOL in T.subterms([v[()]]) for v in ins if v.shape == ()):
                            x, y = (T.subst(v[()], {TOL: T.flt(tol)}) if isinstance(v[()], T.Term) else v[()] for v in ins)
                            return [S.scalar({"gt": T.lt(y, x), "lt": T.lt(x, y), "ge": T.le(y, x), "le": T.le(x, y)}[name])]
                        return None
                    res, ev = tr.extract(lambda t_, p: t_.evaluate(p, use_levy=True), (r,), (S.scalar(T.flt(t0 + r * L_)),), None, ct)
                    x = {L: m(T.flt(r), *([T.flt(r)] if L == "K" else []), getattr(res, L)[()]) if L != "W" else res.W[()] for L in mode}
                    for tg, v, _ in ev.notes:
                        if tg == "mvn":
                            mvs[r] = np.array([[T.evaluate(e, {}, {}) if isinstance(e, T.Term) else float(e) for e in row] for row in np.asarray(v[1], dtype=object)])
                    g = gaussians(list(x.values()))
                    row = {}
                    for L in mode:
                        z0 = {z: 0. for z in g}
                        b0 = T.evaluate(x[L], z0, {}) if isinstance(x[L], T.Term) else float(x[L])
                        co = {}
                        for z in g:
                            z1 = dict(z0)
                            z1[z] = 1.
                            c = T.evaluate(x[L], z1, {}) - b0
                            if c != 0:
                                # draws of the interpolation at different times are different variables only in different nodes
                                co[z if z.name == "normal" else (z, r)] = c
                        if abs(b0) > 1e-12:
                            fails.append(dict(case=f"{mode} [{t0},{t1}] tol={tol}: mean of {L}({r})", have=b0))
                        row[L] = co
                    forms.append(row)
                C = law_matrix([r for r in times], mode)
                nL = len(mode)

                def cv(x, y, r):
                    out = 0.
                    for z, c in x.items():
                        for w, d in y.items():
                            if z == w and not isinstance(z, tuple):
                                out += c * d
                            elif isinstance(z, tuple) and isinstance(w, tuple) and z[1] == w[1] and z[0].args[:2] == w[0].args[:2]:
                                out += c * d * mvs[z[1]][z[0].args[2], w[0].args[2]]
                    return out
                for i, r in enumerate(times):
                    for j, q in enumerate(times[:i + 1]):
                        for a, La in enumerate(mode):
                            for b, Lb in enumerate(mode):
                                n += 1
                                # variances scale by the length of the range: W, H and K scale by its square root
                                want = C[i * nL + a, j * nL + b] * L_
                                have = cv(forms[i][La], forms[j][Lb], r)
                                if not close(have, want, 1e-7):
                                    fails.append(dict(case=f"{mode} [{t0},{t1}] tol={tol}: Cov({La}({r}), {Lb}({q}))", have=have, want=want))
        ck.bounded_check(f"exact covariances at {sum(map(len, GRID.values()))} times, depth <= 2: {mode}", "listed times and tolerances", n, fails)
    return sec


# ---------------------------------------------------------------- executable contract
def concrete(rng, effort):
    """the real code: Chen's relation between queries, repeatability, order of queries, and sampled covariances"""
    n = 6 * effort
    for c in range(n):
        mode = ("W", "WH", "WHK")[c % 3]
        t0 = float(rng.uniform(-2, 2))
        L = float(rng.choice([0.5, 3.]))
        tol = L * float(rng.choice([0.3, 0.05, 0.01]))
        sh = (2,) if c % 2 else {"a": jax.ShapeDtypeStruct((), "float64"), "b": jax.ShapeDtypeStruct((2,), "float64")}
        tree = dfx.VirtualBrownianTree(t0, t0 + L, tol, sh, jr.key(int(rng.integers(2 ** 31))), levy_area=MODES[mode])
        s, u, v = np.sort(rng.uniform(t0, t0 + L, 3))
        if min(u - s, v - u) < 1e-3 * L:
            continue
        ev = lambda *a: tree.evaluate(*map(jnp.asarray, a), use_levy=True)
        x, y, z = ev(s, u), ev(u, v), ev(s, v)
        for lf in range(len(jtu.tree_leaves(x.W))):
            g = lambda r: {k: np.asarray(jtu.tree_leaves(getattr(r, k))[lf]) for k in ("dt",) + tuple(mode)}
            X, Y, Z = g(x), g(y), g(z)
            bar = lambda q: {k: q[k] * {"W": 1, "H": q["dt"], "K": q["dt"] ** 2}[k] for k in mode}
            bx, by, bz = bar(X), bar(Y), bar(Z)
            a, b = u - s, v - u
            w = {"W": bx["W"] + by["W"]}
            if "H" in mode:
                qq = b * bx["W"] - a * by["W"]
                w["H"] = bx["H"] + by["H"] + qq / 2
            if "K" in mode:
                w["K"] = bx["K"] + by["K"] + b / 2 * bx["H"] - a / 2 * by["H"] + (b - a) / 12 * qq
            ok = all(close(w[k], bz[k], 1e-7) for k in mode) and close([X["dt"], Y["dt"], Z["dt"]], [a, b, a + b])
            yield None if ok else dict(case=f"Chen's relation ({mode}, t0={t0}, length {L}, s={s}, u={u}, v={v}, leaf {lf})", want=str(w), have=str(bz), dt=str((X["dt"], Y["dt"], Z["dt"])))
        again = ev(s, u)
        same = all(np.array_equal(p, q) for p, q in zip(jtu.tree_leaves(x), jtu.tree_leaves(again)))
        yield None if same else dict(case="a repeated query gives another answer")
        d = [np.asarray(q) - np.asarray(p) for p, q in zip(jtu.tree_leaves(ev(s).W), jtu.tree_leaves(ev(u).W))]
        yield None if all(close(p, q) for p, q in zip(d, jtu.tree_leaves(x.W))) else dict(case=f"an increment is not the difference of values ({mode})")
    # sampled second moments (9 standard errors)
    N = 2000 * effort
    for mode in ("W", "WH", "WHK"):
        times = (0.1, 0.25, 0.4, 0.6, 0.9)
        seed = int(rng.integers(2 ** 31))
        f = lambda k: [dfx.VirtualBrownianTree(0., 1., 0.3, (2,), k, levy_area=MODES[mode]).evaluate(jnp.asarray(r), use_levy=True) for r in times]
        out = jax.vmap(f)(jr.split(jr.key(seed), N))
        cols = [np.asarray(getattr(o, L)) * {"W": 1, "H": r, "K": r ** 2}[L] for o, r in zip(out, times) for L in mode]
        X = np.stack([c[:, 0] for c in cols], 1)
        Y = np.stack([c[:, 1] for c in cols], 1)
        C = law_matrix(times, mode)
        sd = np.sqrt(np.outer(np.diag(C), np.diag(C)) + C ** 2) / np.sqrt(N)
        for nm, E, W in (("covariances", X.T @ X / N, C), ("covariances across components", X.T @ Y / N, 0 * C)):
            z = np.abs(E - W) / (sd if W is C else np.sqrt(np.outer(np.diag(C), np.diag(C)) / N))
            k = np.unravel_index(np.argmax(z), z.shape)
            yield None if z.max() < 9 else dict(case=f"sampled {nm} ({mode}, {N} keys)", entry=str(k), z=float(z.max()), have=float(E[k]), want=float(W[k]))


SECTIONS = [("ghost theory", lemmas)]
for _m in MODES:
    for _s in ((), (2,)):
        SECTIONS.append((f"descent {_m}{list(_s)}", descent(_m, _s)))
        SECTIONS.append((f"interpolation {_m}{list(_s)}", leaf(_m, _s)))
    SECTIONS.append((f"increments {_m}", increments(_m, ())))
    SECTIONS.append((f"scaling {_m}", scaling(_m)))
    SECTIONS.append((f"grid {_m}", grid(_m)))
SECTIONS.append(("pytrees", pytrees))
CONCRETE = [("queries of a tree", concrete)]
