"""Opaque JAX primitives.

`uf(name, out, *args)`   an uninterpreted function: *any* function of its arguments.
`note(tag, x, *vals)`    the identity on x; the symbolic evaluator logs vals (ghost state).

Differentiation of `uf` yields uninterpreted partial derivatives, batching maps it
element by element. They have no implementation: they exist only while the real code
is being extracted.
"""
import jax
import jax.numpy as jnp
import numpy as np
from jax.extend.core import Primitive
from jax.core import ShapedArray
from jax.interpreters import ad, batching

uf_p = Primitive("vp_uf")
uf_p.multiple_results = True
note_p = Primitive("vp_note")
fresh_p = Primitive("vp_fresh")
fresh_p.multiple_results = True


@uf_p.def_abstract_eval
def _(*avals, name, out):
    return [ShapedArray(s, np.dtype(d)) for s, d in out]


@note_p.def_impl
def _(x, *vals, tag):
    return x


@note_p.def_abstract_eval
def _(x, *vals, tag):
    return ShapedArray(x.shape, x.dtype)


def _struct(x):
    return (tuple(jnp.shape(x)), np.dtype(jnp.result_type(x)).name)


def uf(name, out, *args):
    """out: pytree of arrays/ShapeDtypeStructs; args: arbitrary pytrees of arrays"""
    leaves, treedef = jax.tree_util.tree_flatten(out)
    outs = tuple((tuple(l.shape), np.dtype(l.dtype).name) for l in leaves)
    flat = [jnp.asarray(a) for a in jax.tree_util.tree_leaves(args)]
    res = uf_p.bind(*flat, name=name, out=outs)
    return jax.tree_util.tree_unflatten(treedef, res)


def _uf_jvp(primals, tangents, *, name, out):
    res = uf_p.bind(*primals, name=name, out=out)
    if name in ("next", "prev"):      # neighbouring floats (equinox's derivative rule)
        return res, [tangents[0]]
    touts = [None] * len(res)
    j = 0
    for p, t in zip(primals, tangents):
        n = int(np.prod(np.shape(p)))
        if type(t) is ad.Zero or t.dtype == jax.dtypes.float0:
            j += n
            continue
        tf = jnp.reshape(t, (-1,))
        for i in range(n):
            d = uf_p.bind(*primals, name=f"{name}'{j + i}", out=out)
            for o in range(len(res)):
                if not np.issubdtype(np.dtype(out[o][1]), np.floating):
                    continue
                c = d[o] * tf[i]
                touts[o] = c if touts[o] is None else touts[o] + c
        j += n
    tt = []
    for o, r in zip(touts, res):
        if o is None:
            tt.append(ad.Zero(ShapedArray(r.shape, r.dtype).to_tangent_aval()))
        else:
            tt.append(o)
    return res, tt


ad.primitive_jvps[uf_p] = _uf_jvp


def _uf_batch(args, dims, *, name, out):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    rows = []
    for i in range(size):
        sl = [a if d is None else jnp.take(a, i, axis=d) for a, d in zip(args, dims)]
        sl = [a if d is None else jax.lax.index_in_dim(a, i, axis=d, keepdims=False)
              for a, d in zip(args, dims)]
        rows.append(uf_p.bind(*sl, name=name, out=out))
    outs = [jnp.stack([r[o] for r in rows]) for o in range(len(rows[0]))]
    return outs, [0] * len(outs)


batching.primitive_batchers[uf_p] = _uf_batch


def note(tag, x, *vals):
    x = jnp.asarray(x)
    return note_p.bind(x, *[jnp.asarray(v) for v in vals], tag=tag)


def _note_jvp(primals, tangents, *, tag):
    out = note_p.bind(*primals, tag=tag)
    return out, tangents[0]


ad.primitive_jvps[note_p] = _note_jvp


def _note_batch(args, dims, *, tag):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    x, d = args[0], dims[0]
    x = jnp.broadcast_to(x, (size,) + x.shape) if d is None else jnp.moveaxis(x, d, 0)
    rows = []
    for i in range(size):
        vals = [a if dd is None else jax.lax.index_in_dim(a, i, axis=dd, keepdims=False)
                for a, dd in zip(args[1:], dims[1:])]
        rows.append(note_p.bind(x[i], *vals, tag=tag))
    return jnp.stack(rows), 0


batching.primitive_batchers[note_p] = _note_batch


def sds(shape=(), dtype="float64"):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dtype))
