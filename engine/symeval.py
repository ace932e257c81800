"""Symbolic evaluation of a jaxpr: the extraction step.

A jaxpr is what JAX compiles and runs; this walks it equation by equation and yields,
for each output scalar, a term over the input scalars. Nothing is abstracted except:
floats are mathematical reals, ints mathematical integers, `vp_uf` is uninterpreted,
PRNG primitives are uninterpreted, and loops whose trip count is not a constant are
handed to `loop_handler` (invariant rule).
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import jax
import jax.extend.core as jex
import numpy as np

from . import terms as T


class Unsupported(Exception):
    """the code uses something outside the verifier's reach"""


def arr(x):
    return x if isinstance(x, np.ndarray) and x.dtype == object else _from_np(np.asarray(x))


def _from_np(a):
    out = np.empty(a.shape, dtype=object)
    kind = a.dtype.kind
    for i in np.ndindex(a.shape):
        v = a[i]
        if kind == "b":
            out[i] = bool(v)
        elif kind in "iu":
            out[i] = int(v)
        elif kind == "f" or str(a.dtype) == "bfloat16":
            out[i] = T.flt(float(v))
        elif kind == "V":
            out[i] = 0
        else:
            raise Unsupported(f"dtype {a.dtype}")
    return out


def scalar(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def emap(fn, *xs):
    xs = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x for x in xs]
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, shape) for x in xs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = fn(*[x[i] for x in xs])
    return out


def fresh_like(aval, prefix):
    """array of fresh symbols for an aval"""
    shape = tuple(aval.shape)
    k = np.dtype(aval.dtype).kind if not jax.dtypes.issubdtype(aval.dtype, jax.dtypes.prng_key) else "i"
    s = {"b": "B", "i": "I", "u": "I", "f": "R"}[k]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        idx = ",".join(map(str, i))
        out[i] = T.sym(f"{prefix}[{idx}]" if shape else prefix, s)
    return out


def _int_pow(x, y):
    return T.ipow(x, y)


def _sign(x):
    one = 1 if T.sort_of(x) == "I" else Fraction(1)
    if x is T.NAN:
        return T.NAN
    return T.ite(T.lt(0, x), one, T.ite(T.lt(x, 0), -one, 0 * one))


def _isfinite(x):
    if T._is_special(x):
        l = T._lift(_isfinite, (x,))
        return l if l is not None else False
    return True


def _isnan(x):
    if T._is_special(x):
        l = T._lift(_isnan, (x,))
        return l if l is not None else (x is T.NAN)
    return False


def _pow(x, y):
    if T.is_c(y) and T.sort_of(y) == "R" and y.denominator == 1 and abs(y) <= 12:
        return T.ipow(T.R(x), int(y))
    if T.is_c(y) and T.sort_of(y) == "I" and abs(y) <= 12:
        return T.ipow(x, int(y))
    x, y = T.R(x), T.R(y)
    if T.is_c(y) and y == Fraction(1, 2):
        return T.unary("sqrt", x)
    if T.is_c(x) and x == 1:
        return Fraction(1)
    if T._is_special(x) or T._is_special(y):
        l = T._lift(_pow, (x, y))
        if l is not None:
            return l
        if x is T.INF and T.is_c(y):
            return T.INF if y > 0 else (Fraction(0) if y < 0 else Fraction(1))
        if x is T.NAN or y is T.NAN:
            return T.NAN
        if x is T.INF:
            # inf**y for symbolic y
            return T.ite(T.lt(0, y), T.INF, T.ite(T.lt(y, 0), Fraction(0), Fraction(1)))
        raise Unsupported("pow of special")
    return T.app("pow", (x, y))


def _round_even(x):
    if T.is_c(x):
        return Fraction(round(x))
    return T.app("round", (x,))


def _logical(op_bool, op_name):
    def f(a, b):
        if T.sort_of(a) == "B":
            return op_bool(a, b)
        if T.is_c(a) and T.is_c(b):
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op_name]
        return T.app("bit" + op_name, (a, b), "I")
    return f


def _not(a):
    if T.sort_of(a) == "B":
        return T.not_(a)
    if T.is_c(a):
        return ~a
    return T.app("bitnot", (a,), "I")


def _div(a, b):
    if T.sort_of(a) == "I" and T.sort_of(b) == "I":
        if not T.is_c(b) or b == 0:
            raise Unsupported("integer division by non-constant")
        return T.idiv(a, b)
    return T.div(a, b)


def _rem(a, b):
    if T.sort_of(a) == "I" and T.sort_of(b) == "I":
        if not T.is_c(b) or b == 0:
            raise Unsupported("integer remainder by non-constant")
        return T.irem(a, b)
    if T.is_c(a) and T.is_c(b) and b != 0:
        import math
        return Fraction(math.fmod(a, b))
    raise Unsupported("float rem")


def _xor(a, b):
    if T.sort_of(a) == "B":
        return T.not_(T.iff(a, b))
    return _logical(None, "xor")(a, b)


def _ulp(name, x):
    """the neighbouring floating point number; the one below +inf is the largest float"""
    if isinstance(x, T.Term) and x.op == "ite":
        return T.ite(x.args[0], _ulp(name, x.args[1]), _ulp(name, x.args[2]))
    if x is T.NAN:
        return T.NAN
    if x is T.INF:
        return T.sym("largest_float") if name == "prev" else T.INF
    if x is T.NINF:
        return T.neg(T.sym("largest_float")) if name == "next" else T.NINF
    return T.app(name, (T.R(x),))


def _nextafter(x, y):
    # used as nextafter(x, +-inf)
    if y is T.INF:
        return T.app("next", (T.R(x),))
    if y is T.NINF:
        return T.app("prev", (T.R(x),))
    raise Unsupported("nextafter")


def _horner(x, cs):
    acc = cs[-1]
    for c in reversed(cs[:-1]):
        acc = T.add(T.mul(acc, x), c)
    return acc


def _mono(name):
    return lambda x: T.unary(name, x)


ELEM = {
    "add": lambda a, b: T.add(a, b),
    "add_any": lambda a, b: T.add(a, b),
    "sub": lambda a, b: T.sub(a, b),
    "mul": lambda a, b: T.mul(a, b),
    "div": _div,
    "rem": _rem,
    "neg": lambda a: T.neg(a),
    "max": lambda a, b: T.or_(a, b) if T.sort_of(a) == "B" else T.maximum(a, b),
    "min": lambda a, b: T.and_(a, b) if T.sort_of(a) == "B" else T.minimum(a, b),
    "abs": lambda a: T.abs_(a),
    "sign": _sign,
    "lt": T.lt, "le": T.le, "gt": lambda a, b: T.lt(b, a), "ge": lambda a, b: T.le(b, a),
    "eq": T.eq, "ne": T.ne,
    "eq_to": T.eq, "lt_to": T.lt, "le_to": T.le,
    "and": _logical(T.and_, "and"), "or": _logical(T.or_, "or"), "xor": _xor, "not": _not,
    "floor": T.floor, "ceil": T.ceil,
    "sqrt": _mono("sqrt"), "exp": _mono("exp"), "log": _mono("log"), "expm1": _mono("expm1"),
    "log1p": _mono("log1p"), "sin": _mono("sin"), "cos": _mono("cos"), "tanh": _mono("tanh"),
    "rsqrt": lambda a: T.div(1, T.unary("sqrt", a)),
    "square": lambda a: T.mul(a, a),
    "is_finite": _isfinite,
    "pow": _pow,
    "nextafter": _nextafter,
    "stop_gradient": lambda a: a,
    "real": lambda a: a,
    "conj": lambda a: a,
    "copy": lambda a: a, "copy_p": lambda a: a,
    "reduce_precision": lambda a: a,
    "erf_inv": _mono("erf_inv"),
    "cbrt": _mono("cbrt"),
    "one_minus_square": lambda a: T.sub(1, T.mul(a, a)),
    "polynomial": lambda x, *cs: _horner(x, cs),
}

MOVE = {
    "reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims", "rev", "slice",
    "concatenate", "stack", "tile",
}


def loop_internal(eqn):
    """issued by equinox's own while loops (which are taken by contract)"""
    try:
        files = [f.file_name for f in eqn.source_info.traceback.frames]
    except Exception:
        return False
    own = [f for f in files if "/jax/" not in f and not f.endswith("_unvmap.py")]
    return bool(own) and "/equinox/internal/_loop/" in own[0]


class Evaluator:
    def __init__(self, loop_handler=None, cond_handler=None, prim_hook=None, max_unroll=20000, sym_unroll=None):
        self.sym_unroll = sym_unroll   # premises: unroll loops with a symbolic condition until infeasible
        self.loop_handler = loop_handler
        self.notes = []          # (tag, [values], path condition)
        self.path = []           # current path condition
        self.keyuse = []         # (key, how it is consumed, how many) for every PRNG key
        self.errors = []         # (condition under which an eqx error_if fires)
        self.prim_hook = prim_hook
        self.max_unroll = max_unroll
        self.prims = {}
        self.nuf = 0

    # ------------------------------------------------------------------ driver
    def closed(self, cj, args):
        return self.jaxpr(cj.jaxpr, [arr(np.asarray(c)) if not _iskey(c) else _keyconst(c) for c in cj.consts], args)

    def jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jex.Literal):
                return arr(np.asarray(v.val))
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            a = arr(a)
            assert a.shape == tuple(v.aval.shape), (a.shape, v.aval)
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            name = eqn.primitive.name
            self.prims[name] = self.prims.get(name, 0) + 1
            outs = self.eqn(eqn, name, ins)
            for v, o in zip(eqn.outvars, outs):
                if o.shape != tuple(v.aval.shape):
                    raise Unsupported(f"shape mismatch in {name}: {o.shape} vs {v.aval.shape}")
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    # ------------------------------------------------------------ one equation
    def eqn(self, eqn, name, ins):
        if self.prim_hook is not None:
            r = self.prim_hook(self, eqn, name, ins)
            if r is not None:
                return r
        if name in ELEM:
            return [emap(ELEM[name], *ins)]
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, ins)
        if name in MOVE:
            return self.move(eqn, ins)
        raise Unsupported(f"primitive {name}")

    def move(self, eqn, ins):
        """pure data movement: run the primitive itself on position ids"""
        ids, off, flat = [], 0, []
        for x in ins:
            n = x.size
            ids.append(np.arange(off, off + n, dtype=np.int32).reshape(x.shape))
            off += n
            flat.extend(x.reshape(-1).tolist() if x.size else [])
        with jax.ensure_compile_time_eval():
            out = eqn.primitive.bind(*[jax.numpy.asarray(i) for i in ids], **eqn.params)
        out = np.asarray(out)
        res = np.empty(out.shape, dtype=object)
        for i in np.ndindex(out.shape):
            res[i] = flat[int(out[i])]
        return [res]

    def p_unstack(self, eqn, ins):
        ax = eqn.params.get("axis", 0)
        x = np.moveaxis(ins[0], ax, 0)
        return [x[i] if isinstance(x[i], np.ndarray) else scalar(x[i]) for i in range(x.shape[0])]

    # ---- simple
    def p_convert_element_type(self, eqn, ins):
        nd = np.dtype(eqn.params["new_dtype"])

        def cv(x):
            s = T.sort_of(x)
            if nd.kind == "f":
                return T.R(x)
            if nd.kind in "iu":
                if s == "B":
                    return int(x) if T.is_c(x) else T.ite(x, 1, 0)
                if s == "R":
                    if T.is_c(x):
                        return int(x)
                    # truncation
                    fl = T.floor(x)
                    ce = T.ceil(x)
                    toint = lambda z: (int(z) if T.is_c(z) else _unreal(z))
                    return T.ite(T.le(0, x), toint(fl), toint(ce))
                return x
            if nd.kind == "b":
                if s == "B":
                    return x
                return T.ne(x, 0)
            raise Unsupported(f"convert to {nd}")

        return [emap(cv, ins[0])]

    def p_integer_pow(self, eqn, ins):
        return [emap(lambda x: T.ipow(x, eqn.params["y"]), ins[0])]

    def p_select_n(self, eqn, ins):
        w, *cases = ins
        if w.shape == () and cases[0].shape != ():
            w = np.broadcast_to(w, cases[0].shape)

        def sel(p, *cs):
            if T.sort_of(p) == "B":
                return T.ite(p, cs[1], cs[0])
            out = cs[-1]
            for k in range(len(cs) - 2, -1, -1):
                out = T.ite(T.eq(p, k), cs[k], out)
            return out

        return [emap(sel, w, *cases)]

    def p_clamp(self, eqn, ins):
        return [emap(lambda lo, x, hi: T.minimum(T.maximum(x, lo), hi), *ins)]

    def p_platform_index(self, eqn, ins):
        # the branch compiled for the CPU
        for i, ps in enumerate(eqn.params["platforms"]):
            if ps is None or "cpu" in ps:
                return [scalar(i)]
        raise Unsupported("platform_index")

    def p_iota(self, eqn, ins):
        p = eqn.params
        shape = tuple(p["shape"])
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            v = i[p["dimension"]]
            out[i] = Fraction(v) if np.dtype(p["dtype"]).kind == "f" else int(v)
        return [out]

    def _reduce(self, fn, init):
        def f(eqn, ins):
            x = ins[0]
            axes = tuple(eqn.params["axes"])
            keep = [d for d in range(x.ndim) if d not in axes]
            out = np.empty(tuple(x.shape[d] for d in keep), dtype=object)
            xt = np.transpose(x, keep + list(axes)).reshape(out.shape + (-1,))
            for i in np.ndindex(out.shape):
                vals = list(xt[i])
                if not vals:
                    out[i] = init(eqn.invars[0].aval.dtype)
                else:
                    acc = vals[0]
                    for v in vals[1:]:
                        acc = fn(acc, v)
                    out[i] = acc
            return [out]
        return f

    def p_reduce_sum(self, eqn, ins):
        z = lambda d: Fraction(0) if np.dtype(d).kind == "f" else 0
        return self._reduce(T.add, z)(eqn, ins)

    def p_reduce_prod(self, eqn, ins):
        z = lambda d: Fraction(1) if np.dtype(d).kind == "f" else 1
        return self._reduce(T.mul, z)(eqn, ins)

    def p_reduce_max(self, eqn, ins):
        return self._reduce(T.maximum, lambda d: T.NINF)(eqn, ins)

    def p_reduce_min(self, eqn, ins):
        return self._reduce(T.minimum, lambda d: T.INF)(eqn, ins)

    def p_reduce_and(self, eqn, ins):
        return self._reduce(T.and_, lambda d: True)(eqn, ins)

    def p_reduce_or(self, eqn, ins):
        return self._reduce(T.or_, lambda d: False)(eqn, ins)

    def p_argmax(self, eqn, ins):
        return self._arg(eqn, ins, lambda new, best: T.lt(best, new))

    def p_argmin(self, eqn, ins):
        return self._arg(eqn, ins, lambda new, best: T.lt(new, best))

    def _arg(self, eqn, ins, better):
        x = ins[0]
        (ax,) = eqn.params["axes"]
        xt = np.moveaxis(x, ax, -1)
        out = np.empty(xt.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            b, bi = xt[i][0], 0
            if T.sort_of(b) == "B":
                conv = lambda z: z if not isinstance(z, bool) else z
                b = T.ite(b, 1, 0) if not T.is_c(b) else int(b)
            for k in range(1, xt.shape[-1]):
                v = xt[i][k]
                if T.sort_of(v) == "B":
                    v = T.ite(v, 1, 0) if not T.is_c(v) else int(v)
                c = better(v, b)
                bi = T.ite(c, k, bi)
                b = T.ite(c, v, b)
            out[i] = bi
        return [out]

    def p_cumsum(self, eqn, ins):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        x = np.moveaxis(ins[0], ax, 0)
        out = np.empty(x.shape, dtype=object)
        rng = range(x.shape[0])
        acc = None
        for k in (reversed(rng) if rev else rng):
            acc = x[k] if acc is None else emap(T.add, acc, x[k])
            out[k] = acc
        return [np.moveaxis(out, 0, ax)]

    def p_dot_general(self, eqn, ins):
        (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
        a, b = ins
        lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
        rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
        at = np.transpose(a, list(lb) + lf + list(lc))
        bt = np.transpose(b, list(rb) + rf + list(rc))
        nb = len(lb)
        bs = at.shape[:nb]
        ls = at.shape[nb:nb + len(lf)]
        rs = bt.shape[nb:nb + len(rf)]
        K = at.shape[nb + len(lf):]
        out = np.empty(bs + ls + rs, dtype=object)
        zero = Fraction(0) if np.dtype(eqn.outvars[0].aval.dtype).kind == "f" else 0
        for i in np.ndindex(bs):
            for j in np.ndindex(ls):
                for k in np.ndindex(rs):
                    ts = [T.mul(at[i + j + c], bt[i + k + c]) for c in np.ndindex(K)]
                    # 0 * x is 0 over the reals
                    out[i + j + k] = T.add(zero, *ts) if ts else zero
        return [out]

    def p_pad(self, eqn, ins):
        x, pv = ins
        cfg = eqn.params["padding_config"]
        n = x.size
        idx = np.arange(1, n + 1, dtype=np.int32).reshape(x.shape)
        with jax.ensure_compile_time_eval():
            out = np.asarray(eqn.primitive.bind(jax.numpy.asarray(idx), jax.numpy.zeros((), np.int32), padding_config=cfg))
        flat = [pv[()]] + list(x.reshape(-1))
        res = np.empty(out.shape, dtype=object)
        for i in np.ndindex(out.shape):
            res[i] = flat[int(out[i])]
        return [res]

    def p_split(self, eqn, ins):
        sizes, ax = eqn.params["sizes"], eqn.params["axis"]
        cuts = np.cumsum(sizes)[:-1]
        return list(np.split(ins[0], cuts, axis=ax))

    def p_sort(self, eqn, ins):
        if len(ins) != 1 or ins[0].ndim != 1 or eqn.params["num_keys"] != 1:
            raise Unsupported("sort")
        a = list(ins[0])
        for i in range(1, len(a)):          # insertion sort as a network of exchanges
            for j in range(i, 0, -1):
                a[j - 1], a[j] = T.minimum(a[j - 1], a[j]), T.maximum(a[j - 1], a[j])
        out = np.empty(len(a), dtype=object)
        for i, v in enumerate(a):
            out[i] = v
        return [out]

    # ---- indexing, symbolic indices by case enumeration
    def _index_cases(self, idx_arrays, ranges, build):
        """idx_arrays: list of scalar index values; ranges: list of (lo, hi) inclusive of the
        values to distinguish (values outside behave as the boundary ones).
        build(list of ints) -> object array. Returns ite-combination."""
        def rec(k, chosen):
            if k == len(idx_arrays):
                return build(chosen)
            v = idx_arrays[k]
            if T.is_c(v):
                return rec(k + 1, chosen + [int(v)])
            lo, hi = ranges[k]
            out = rec(k + 1, chosen + [hi])
            for c in range(hi - 1, lo - 1, -1):
                r = rec(k + 1, chosen + [c])
                cond = T.le(v, c) if c == lo else T.eq(v, c)
                out = emap(lambda p, q, cond=cond: T.ite(cond, p, q), r, out)
            return out
        return rec(0, [])

    def p_dynamic_slice(self, eqn, ins):
        x, *idx = ins
        sizes = eqn.params["slice_sizes"]

        def build(ch):
            st = [min(max(c, 0), x.shape[d] - sizes[d]) for d, c in enumerate(ch)]
            return x[tuple(slice(s, s + n) for s, n in zip(st, sizes))]

        rng = [(0, x.shape[d] - sizes[d]) for d in range(x.ndim)]
        return [self._index_cases([i[()] for i in idx], rng, build)]

    def p_dynamic_update_slice(self, eqn, ins):
        x, u, *idx = ins

        def build(ch):
            st = [min(max(c, 0), x.shape[d] - u.shape[d]) for d, c in enumerate(ch)]
            y = x.copy()
            y[tuple(slice(s, s + n) for s, n in zip(st, u.shape))] = u
            return y

        rng = [(0, x.shape[d] - u.shape[d]) for d in range(x.ndim)]
        return [self._index_cases([i[()] for i in idx], rng, build)]

    def p_gather(self, eqn, ins):
        x, idx = ins
        p = dict(eqn.params)
        dn = p["dimension_numbers"]
        flat = list(x.reshape(-1))
        ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
        fill = p.get("fill_value")
        p["fill_value"] = -1
        isf = np.dtype(eqn.invars[0].aval.dtype).kind == "f"
        fv = T.flt(float(fill)) if (fill is not None and isf) else (int(fill) if fill is not None else (T.NAN if isf else -2 ** 31))
        iv = list(idx.reshape(-1))
        ncoord = idx.shape[-1]
        rng = []
        for k in range(len(iv)):
            d = dn.start_index_map[k % ncoord]
            rng.append((-1, x.shape[d]))

        def build(ch):
            ci = np.array(ch, dtype=np.int32).reshape(idx.shape)
            with jax.ensure_compile_time_eval():
                out = np.asarray(eqn.primitive.bind(jax.numpy.asarray(ids), jax.numpy.asarray(ci), **p))
            res = np.empty(out.shape, dtype=object)
            for i in np.ndindex(out.shape):
                res[i] = fv if out[i] < 0 else flat[int(out[i])]
            return res

        return [self._index_cases(iv, rng, build)]

    def _scatter(self, eqn, ins, combine):
        x, idx, upd = ins
        p = dict(eqn.params)
        dn = p["dimension_numbers"]
        # express as data movement with plain scatter of update ids
        iv = list(idx.reshape(-1))
        ncoord = idx.shape[-1] if idx.ndim else 1
        rng = [(-1, x.shape[dn.scatter_dims_to_operand_dims[k % ncoord]]) for k in range(len(iv))]
        xf, uf_ = list(x.reshape(-1)), list(upd.reshape(-1))

        def build(ch):
            ci = np.array(ch, dtype=np.int32).reshape(idx.shape)
            res = list(xf)
            # one update element at a time, so that repeated targets combine in order
            for u in range(len(uf_)):
                uid = np.zeros(upd.shape, dtype=np.int32).reshape(-1)
                uid[u] = 1
                with jax.ensure_compile_time_eval():
                    out = np.asarray(jax.lax.scatter_add_p.bind(
                        jax.numpy.zeros(x.shape, np.int32), jax.numpy.asarray(ci),
                        jax.numpy.asarray(uid.reshape(upd.shape)),
                        dimension_numbers=dn, indices_are_sorted=False, unique_indices=False,
                        mode=p["mode"], **_scatter_add_extra())).reshape(-1)
                for t in np.nonzero(out)[0]:
                    res[int(t)] = combine(res[int(t)], uf_[u])
            o = np.empty(x.shape, dtype=object)
            of = o.reshape(-1) if x.shape else None
            for n, v in enumerate(res):
                if x.shape:
                    o[np.unravel_index(n, x.shape)] = v
                else:
                    o[()] = v
            return o

        return [self._index_cases(iv, rng, build)]

    def p_scatter(self, eqn, ins):
        return self._scatter(eqn, ins, lambda old, new: new)

    def p_scatter_add(self, eqn, ins):
        return self._scatter(eqn, ins, T.add)

    p_scatter_sub = lambda self, eqn, ins: self._scatter(eqn, ins, T.sub)

    def p_scatter_mul(self, eqn, ins):
        return self._scatter(eqn, ins, T.mul)

    # ---- equinox
    # `others`: what the rest of the batch contributes to a reduction over it. None: this is the only element.
    # A function (kind, sort) -> value: the program is one element of an arbitrary batch.
    others = None

    def _more(self, eqn, kind, sort):
        return [] if self.others is None or loop_internal(eqn) else [self.others(kind, sort)]

    def p_unvmap_any(self, eqn, ins):
        more = self._more(eqn, "any", "B")
        return [scalar(T.or_(*list(ins[0].reshape(-1)), *more))]

    def p_unvmap_all(self, eqn, ins):
        more = self._more(eqn, "all", "B")
        return [scalar(T.and_(*list(ins[0].reshape(-1)), *more))]

    def p_unvmap_max(self, eqn, ins):
        v = list(ins[0].reshape(-1))
        v = v + self._more(eqn, "max", "I" if v and T.sort_of(v[0]) == "I" else "R")
        acc = v[0]
        for z in v[1:]:
            acc = T.maximum(acc, z)
        return [scalar(acc)]

    def _ident(self, eqn, ins):
        return list(ins)

    p_nonbatchable = p_nontraceable = p_nondifferentiable_backward = _ident
    p_nondifferentiable = _ident
    p_optimization_barrier = _ident
    p_name = _ident

    def p_select_if_vmap(self, eqn, ins):
        return [ins[1]]

    def p_maybe_set(self, eqn, ins):
        from equinox.internal._loop import common as C
        import equinox as eqx
        import jax.tree_util as jtu
        pred, xs, x, *dyn = ins
        p = eqn.params
        if p["makes_false_steps"]:
            pr = pred[()]
        else:
            pr = True
        i_static = C._to_raw_slice(p["i_static"])

        def build(ch):
            leaves = [np.asarray(c) for c in ch]
            i = eqx.combine(i_static, jtu.tree_unflatten(p["i_treedef"], leaves))
            ids = np.arange(xs.size).reshape(xs.shape)
            ii = i if isinstance(i, tuple) else (i,)
            # clamp/drop semantics of .at[].set: out of bounds is dropped
            for q in ii:
                if isinstance(q, np.ndarray) and q.shape == ():
                    if int(q) >= xs.shape[0] or int(q) < -xs.shape[0]:
                        return xs
            o = xs.copy()
            tgt = o[ii if len(ii) > 1 else int(ii[0]) if isinstance(ii[0], np.ndarray) else ii[0]]
            new = emap(lambda a, b: T.ite(pr, a, b), x, tgt if isinstance(tgt, np.ndarray) else scalar(tgt))
            key = ii if len(ii) > 1 else int(ii[0]) if isinstance(ii[0], np.ndarray) else ii[0]
            o[key] = new if new.shape else new[()]
            return o

        return [self._index_cases([d[()] for d in dyn], [(-1, xs.shape[0])] * len(dyn), build)]

    def p_noinline(self, eqn, ins):
        raise Unsupported("noinline")

    def p_branched_error_p(self, eqn, ins):
        return self._err(eqn, ins)

    def _err(self, eqn, ins):
        raise Unsupported("error primitive")

    # ---- calls
    def p_jit(self, eqn, ins):
        nm = eqn.params.get("name", "")
        h = JIT_HOOKS.get(nm)
        if h is not None:
            r = h(self, eqn, ins)
            if r is not None:
                return r
        return self.closed(eqn.params["jaxpr"], ins)

    p_pjit = p_jit

    def p_call_hi_primitive(self, eqn, ins):
        prim = eqn.params["_prim"]
        if type(prim).__name__ == "SearchSorted":
            p = prim.params
            if p["dimension"] != 0 or p["batch_dims"] != 0 or ins[0].ndim != 1:
                raise Unsupported("batched searchsorted")
            a, x = ins
            # by contract: on a sorted array, the number of entries (strictly) below the query
            self.notes.append(("searchsorted", [a, x], list(self.path)))
            stop = (lambda k, v: T.le(v, a[k])) if p["side"] == "left" else (lambda k, v: T.lt(v, a[k]))

            def one(v):
                r = len(a)
                for k in reversed(range(len(a))):
                    r = T.ite(stop(k, v), k, r)
                return r
            return [emap(one, x)]
        raise Unsupported(f"primitive {type(prim).__name__}")

    def p_closed_call(self, eqn, ins):
        return self.closed(eqn.params["call_jaxpr"], ins)

    p_core_closed_call = p_closed_call

    def p_remat2(self, eqn, ins):
        return self.jaxpr(eqn.params["jaxpr"], [], ins)

    p_checkpoint = p_remat2
    p_remat = p_remat2

    def p_custom_jvp_call(self, eqn, ins):
        return self.closed(eqn.params["call_jaxpr"], ins)

    def p_custom_vjp_call(self, eqn, ins):
        j = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
        return self.closed(j, ins)

    p_custom_vjp_call_jaxpr = p_custom_vjp_call

    def p_cond(self, eqn, ins):
        idx, *ops = ins
        i = idx[()]
        br = eqn.params["branches"]
        if T.is_c(i):
            k = min(max(int(i), 0), len(br) - 1)
            return self.closed(br[k], ops)
        outs = []
        for k, b in enumerate(br):
            if T.sort_of(i) == "B":
                c = i if k == 1 else T.not_(i)
            elif k == 0:
                c = T.le(i, 0)
            elif k == len(br) - 1:
                c = T.le(k, i)
            else:
                c = T.eq(i, k)
            if c is False:
                outs.append((c, None))
                continue
            self.path.append(c)
            try:
                outs.append((c, self.closed(b, ops)))
            finally:
                self.path.pop()
        live = [(c, o) for c, o in outs if o is not None]
        res = live[-1][1]
        for c, o in reversed(live[:-1]):
            res = [emap(lambda p, q, c=c: T.ite(c, p, q), a, b) for a, b in zip(o, res)]
        return res

    def p_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, init = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        cond = lambda c: self.closed(p["cond_jaxpr"], list(cc) + list(c))[0][()]
        body = lambda c: self.closed(p["body_jaxpr"], list(bc) + list(c))
        if self.loop_handler is not None:
            r = self.loop_handler(self, eqn, cond, body, init)
            if r is not None:
                return r
        carry = list(init)
        if self.sym_unroll is not None:
            # exact unrolling: stop once another iteration is infeasible under the stated premises
            from . import smt
            alive = True
            for _ in range(200):
                c = cond(carry)
                alive = T.and_(alive, c)
                if alive is False or (alive is not True and not smt.feasible(list(self.sym_unroll) + [alive])):
                    return carry
                new = body(carry)
                carry = [emap(lambda p, q: T.ite(alive, p, q), n, o) for n, o in zip(new, carry)]
            raise Unsupported("while loop: unroll limit")
        for _ in range(self.max_unroll):
            c = cond(carry)
            if not T.is_c(c):
                raise Unsupported("while loop with non-constant trip count")
            if not c:
                return carry
            carry = body(carry)
        raise Unsupported("while loop: unroll limit")

    def p_scan(self, eqn, ins):
        p = eqn.params
        if "num_consts" in p:
            nc, ncar = p["num_consts"], p["num_carry"]
        else:
            c_, k_, _x = p["ft_in"].update(list(range(len(ins)))).unpack()
            nc, ncar = len(list(c_)), len(list(k_))
        consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
        L = p["length"]
        ys = [None] * L
        order = range(L - 1, -1, -1) if p["reverse"] else range(L)
        for i in order:
            out = self.closed(p["jaxpr"], list(consts) + carry + [_row(x, i) for x in xs])
            carry = out[:ncar]
            ys[i] = out[ncar:]
        nys = len(eqn.outvars) - ncar
        stacked = []
        for k in range(nys):
            if L:
                stacked.append(np.stack([ys[i][k] for i in range(L)]))
            else:
                stacked.append(np.empty(tuple(eqn.outvars[ncar + k].aval.shape), dtype=object))
        return carry + stacked

    # ---- opaque
    def p_vp_uf(self, eqn, ins):
        args = [v for x in ins for v in x.reshape(-1)]
        name, out = eqn.params["name"], eqn.params["out"]
        self.nuf += 1
        res = []
        for o, (shape, dt) in enumerate(out):
            k = np.dtype(dt).kind
            s = {"b": "B", "i": "I", "u": "I", "f": "R"}[k]
            a = np.empty(shape, dtype=object)
            if name in ("next", "prev") and shape == ():
                a[()] = _ulp(name, args[0])
                res.append(a)
                continue
            for i in np.ndindex(tuple(shape)):
                nm = name + (f".{o}" if len(out) > 1 else "") + (str(list(i)) if shape else "")
                a[i] = T.app(nm, args, s)
            res.append(a)
        return res

    def p_vp_note(self, eqn, ins):
        if eqn.params["tag"] == "garbage":       # anything at all wherever there is a constant
            self.blanks = getattr(self, "blanks", 0) + 1
            out = np.asarray(ins[0], dtype=object).copy()
            for i in np.ndindex(out.shape):
                if not isinstance(out[i], T.Term):
                    out[i] = T.sym(f"garbage{self.blanks}{list(i)}")
            return [out]
        if eqn.params["tag"] != "carry":
            self.notes.append((eqn.params["tag"], ins[1:], list(self.path)))
        return [ins[0]]

    # ---- PRNG: uninterpreted
    def p_random_wrap(self, eqn, ins):
        x = ins[0]
        out = np.empty(x.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = mkkey(tuple(x[i]))
        return [out]

    def p_random_unwrap(self, eqn, ins):
        x = ins[0]
        n = eqn.outvars[0].aval.shape[-1]
        out = np.empty(x.shape + (n,), dtype=object)
        for i in np.ndindex(x.shape):
            for k in range(n):
                out[i + (k,)] = T.app(f"keydata{k}", (x[i],), "I")
        return [out]

    def p_random_split(self, eqn, ins):
        x = ins[0]
        shape = tuple(eqn.params["shape"])
        out = np.empty(x.shape + shape, dtype=object)
        for i in np.ndindex(x.shape):
            self.keyuse.append((x[i], "split", int(np.prod(shape))))
            for n, j in enumerate(np.ndindex(shape)):
                out[i + j] = T.app("split", (x[i], n), "I")
        return [out]

    def p_bitcast_convert_type(self, eqn, ins):
        x, o = ins[0], eqn.outvars[0].aval
        if all(T.is_c(v) for v in x.reshape(-1)):
            src = np.asarray([T.flt(0.0)] if x.size == 0 else [float(v) if isinstance(v, Fraction) else v for v in x.reshape(-1)], dtype=eqn.invars[0].aval.dtype).reshape(x.shape)
            with jax.ensure_compile_time_eval():
                return [_from_np(np.asarray(eqn.primitive.bind(jax.numpy.asarray(src), **eqn.params)))]
        if np.dtype(o.dtype).kind not in "iu" or o.shape[:x.ndim] != x.shape:
            raise Unsupported("bitcast")
        # the machine words of a float
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            out[i] = T.app("word", (x[i[:x.ndim]],) + i[x.ndim:], "I")
        return [out]

    def p_reduce_xor(self, eqn, ins):
        return self._reduce(lambda a, b: int(a) ^ int(b) if T.is_c(a) and T.is_c(b) else _xor(a, b) if T.sort_of(a) == "B" else T.app("xor", (a, b), "I"), lambda d: 0)(eqn, ins)

    def p_random_fold_in(self, eqn, ins):
        for i in np.ndindex(ins[0].shape):
            self.keyuse.append((ins[0][i], "fold_in", ins[1][i] if ins[1].shape else ins[1][()]))
        return [emap(lambda k, d: T.app("fold_in", (k, d), "I"), ins[0], ins[1])]

    def p_random_clone(self, eqn, ins):
        return list(ins)

    def p_random_bits(self, eqn, ins):
        x = ins[0]
        shape = tuple(eqn.params["shape"])
        out = np.empty(x.shape + shape, dtype=object)
        for i in np.ndindex(x.shape):
            for n, j in enumerate(np.ndindex(shape)):
                out[i + j] = T.app("bits", (x[i], n), "I")
        return [out]

    def p_empty(self, eqn, ins):
        # uninitialised memory: arbitrary values
        out = []
        for v in eqn.outvars:
            self._nempty = getattr(self, "_nempty", 0) + 1
            out.append(fresh_like(v.aval, f"empty!{self._nempty}"))
        return out

    def p_symbolic_zeros(self, eqn, ins):
        raise Unsupported("symbolic_zeros")

    def p_pure_callback(self, eqn, ins):
        # equinox error_if bodies: value passes through unchanged is NOT implied in general
        raise Unsupported("pure_callback")


def _row(x, i):
    r = x[i]
    return r if isinstance(r, np.ndarray) else scalar(r)


def _scatter_add_extra():
    return dict(update_jaxpr=None, update_consts=())


def _unreal(z):
    if isinstance(z, T.Term):
        if z.op == "toreal":
            return z.args[0]
        if z.op == "mul" and T.is_c(z.args[0]) and z.args[0].denominator == 1 and len(z.args) == 2 and z.args[1].op == "toreal":
            return T.mul(int(z.args[0]), z.args[1].args[0])
        if z.op == "ite":
            return T.ite(z.args[0], _unreal(z.args[1]), _unreal(z.args[2]))
    if T.is_c(z):
        return int(z)
    if T._leafspecial(z):
        return T.sym("int_of_nonfinite", "I")     # implementation-defined: arbitrary
    raise Unsupported("real->int")


def _iskey(c):
    try:
        return jax.dtypes.issubdtype(c.dtype, jax.dtypes.prng_key)
    except Exception:
        return False


def _keyconst(c):
    d = np.asarray(jax.random.key_data(c))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        out[i] = mkkey(tuple(int(v) for v in d[i]))
    return out


def mkkey(raw):
    if all(isinstance(r, T.Term) and r.op == "app" and r.name == f"keydata{k}" for k, r in enumerate(raw)):
        ks = {r.args[0] for r in raw}
        if len(ks) == 1:
            return next(iter(ks))
    # an ite of whole keys: lift componentwise
    if all(isinstance(r, T.Term) and r.op == "ite" for r in raw) and len({r.args[0] for r in raw}) == 1:
        c = raw[0].args[0]
        return T.ite(c, mkkey(tuple(r.args[1] for r in raw)), mkkey(tuple(r.args[2] for r in raw)))
    return T.app("mkkey", raw, "I")


JIT_HOOKS = {}


def _hook_normal(ev, eqn, ins):
    key = ins[0]
    if key.shape != ():
        return None
    shape = tuple(eqn.outvars[0].aval.shape)
    ev.keyuse.append((key[()], "normal", int(np.prod(shape))))
    out = np.empty(shape, dtype=object)
    for n, j in enumerate(np.ndindex(shape)):
        out[j] = T.app("normal", (key[()], n))
    return [out]


for _n in ("_normal", "_normal_real"):
    JIT_HOOKS[_n] = _hook_normal


def _hook_mvn(ev, eqn, ins):
    """jax.random.multivariate_normal(key, mean, cov): by contract mean + (a Gaussian vector of covariance cov, one per
    sample position, independent of each other); the covariance it is given is logged"""
    if len(ins) != 3:
        return None
    key, mean, cov = ins
    shape = tuple(eqn.outvars[0].aval.shape)
    d = shape[-1]
    if key.shape != () or mean.shape != (d,) or cov.shape != (d, d):
        return None
    ev.keyuse.append((key[()], "multivariate normal", int(np.prod(shape))))
    ev.notes.append(("mvn", [key, cov], list(ev.path)))
    out = np.empty(shape, dtype=object)
    for n, j in enumerate(np.ndindex(shape[:-1])):
        for i in range(d):
            out[j + (i,)] = T.add(mean[i], T.app("mvn", (key[()], n, i)))
    return [out]


JIT_HOOKS["_multivariate_normal"] = _hook_mvn


def extract(fn, *example_args):
    """trace the real code; returns (closed_jaxpr, out_treedef)"""
    cj, shapes = jax.make_jaxpr(fn, return_shape=True)(*example_args)
    return cj, shapes
