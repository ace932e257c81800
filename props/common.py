"""shared by all property modules"""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
_site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _site not in sys.path:
    sys.path.append(_site)

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp  # noqa: E402,F401
import jax.tree_util as jtu  # noqa: E402,F401
import numpy as np  # noqa: E402
import equinox as eqx  # noqa: E402,F401
import optimistix as optx  # noqa: E402,F401
import equinox.internal as _eqxi  # noqa: E402

# The while loops of equinox, behind a hook: extraction of an adjoint's loops needs them as plain loops (see mainloop.py).
WHILE = [None]
_while_loop = _eqxi.while_loop


@__import__("functools").wraps(_while_loop)
def _hooked(*a, **k):
    return _while_loop(*a, **k) if WHILE[0] is None else WHILE[0](_while_loop, *a, **k)


_eqxi.while_loop = _hooked
import diffrax as dfx  # noqa: E402

from engine import terms as T, symeval as S, ring as RG, smt, core  # noqa: E402,F401
from engine.uf import uf, note, sds  # noqa: E402,F401
from fractions import Fraction as Fr  # noqa: E402,F401

assert os.path.realpath(dfx.__file__).startswith(os.path.realpath(REPO)), dfx.__file__

BASE_ASSUMPTIONS = (
    "floating-point arithmetic is treated as real arithmetic and machine integers as integers; "
    "coefficients are compared up to rounding (1e-11)",
    "arrays are instantiated at concrete shapes (the code is shape-polymorphic elementwise)",
    "jax.make_jaxpr faithfully records what JAX runs (the jaxpr is what JAX compiles)",
)
BASE_TRUST = ("jax tracing (make_jaxpr)", "engine/symeval.py (primitive semantics)", "engine/ring.py, z3", "equinox/optimistix/lineax internals outside /repo")


def begin(ck):
    ck.assume(*BASE_ASSUMPTIONS)
    ck.trust(*BASE_TRUST)


def arr(*xs, shape=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a.reshape(shape) if shape is not None else a


def symarr(name, shape, sort="R"):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = T.sym(f"{name}[{','.join(map(str, i))}]" if shape else name, sort)
    return out


def ufT(name, shape, *args, nout=1, o=0, sort="R"):
    """the term an application of uf(name, out, *args) is extracted to (output o, array)"""
    flat = [v for a in args for v in np.asarray(a, dtype=object).reshape(-1)]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        nm = name + (f".{o}" if nout > 1 else "") + (str(list(i)) if shape else "")
        out[i] = T.app(nm, flat, sort)
    return out


def run(fn, examples, values, **evkw):
    """extract fn at examples (pytree of arrays) and evaluate on symbolic values (same pytree)"""
    leaves_e, td = jtu.tree_flatten(examples)
    leaves_v = jtu.tree_leaves(values, is_leaf=lambda x: isinstance(x, np.ndarray))
    assert len(leaves_e) == len(leaves_v), (len(leaves_e), len(leaves_v))

    def flat(*ls):
        out = fn(*jtu.tree_unflatten(td, ls))
        return out

    cj, shapes = jax.make_jaxpr(flat, return_shape=True)(*leaves_e)
    ev = S.Evaluator(**evkw)
    vs = [v if isinstance(v, np.ndarray) else S.scalar(v) for v in leaves_v]
    outs = ev.closed(cj, vs)
    res = jtu.tree_unflatten(jtu.tree_structure(shapes), outs)
    return res, ev


class Extract:
    """extract once, evaluate on several symbolic inputs"""

    def __init__(self, fn, examples):
        leaves_e, td = jtu.tree_flatten(examples)
        self.n = len(leaves_e)

        def flat(*ls):
            return fn(*jtu.tree_unflatten(td, ls))

        self.cj, shapes = jax.make_jaxpr(flat, return_shape=True)(*leaves_e)
        self.td = jtu.tree_structure(shapes)

    def __call__(self, values, **evkw):
        leaves_v = jtu.tree_leaves(values, is_leaf=lambda x: isinstance(x, np.ndarray))
        assert len(leaves_v) == self.n, (len(leaves_v), self.n)
        ev = S.Evaluator(**evkw)
        vs = [v if isinstance(v, np.ndarray) else S.scalar(v) for v in leaves_v]
        return jtu.tree_unflatten(self.td, ev.closed(self.cj, vs)), ev


def at0(x):
    return x[()] if isinstance(x, np.ndarray) else x


def amap(fn, *xs):
    return S.emap(fn, *xs)


def aadd(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = S.emap(T.add, out, x)
    return out


def ascale(c, x):
    return S.emap(lambda v: T.mul(c, v), x)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
        return bool(np.all(same | (np.abs(a - b) <= tol * (1 + np.abs(b)))))
