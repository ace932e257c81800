From 41f926fa596837c7ad330edc5e16adf341a93c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 01/26] fix: evaluate(t0, t1) increments of interpolations
 support PyTree-valued y

---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From 7c8b1f8983986a3fbb2b4b0e9ab702b59882bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 02/26] fix: save the final value exactly once with
 SaveAt(steps=...) and events or zero steps

---
 diffrax/_integrate.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..cafc036 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -848,26 +848,22 @@ def loop(
         if subsaveat.steps == 0:
             # We're not saving the final value via `steps`,
             # so we might need to save it via `t1`.
-            t1_saved_via_steps = False
-        elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
+            pred = subsaveat.t1
         else:
-            # We might be saving the final value via `steps`,
-            # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
-        if event is None or event.root_finder is None:
-            if type(t1_saved_via_steps) is bool:
-                t1_not_saved_via_steps = not t1_saved_via_steps
+            # We might have saved the final value via `steps` (if we made any steps at
+            # all), so we might need to save it via `t1`.
+            t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
+            if subsaveat.t1:
+                pred = jnp.logical_not(t1_saved_via_steps)
             else:
-                t1_not_saved_via_steps = jnp.logical_not(t1_saved_via_steps)
-            pred = subsaveat.t1 & t1_not_saved_via_steps
-        else:
-            # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+                pred = False
+            if event is not None and event.root_finder is not None:
+                # If we're using an event with a root finder, and are saving steps,
+                # then we need to write the final value here if we deleted the last
+                # value (it being after the event time) above.
+                pred = pred | (t1_saved_via_steps & (tfinal < final_state.tprev))
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From b5737f33ef25c5f71e494e6f39c774caba89291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 03/26] fix: an event no longer masks a solver or step size
 failure on the same step

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index cafc036..4674a1c 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -626,8 +626,9 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # Do not let an event mask a failure on the same step.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From 71f78343c6fe8505848bb8aa1e79365c66829645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 04/26] fix: entries deleted after an event are reported as
 +inf when solving backward in time

---
 diffrax/_integrate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 4674a1c..d089111 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1474,8 +1474,12 @@ def diffeqsolve(
 
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
+    # Unused entries are always reported as `+inf`, regardless of direction. (Entries
+    # deleted after an event are `+inf` on the flipped timeline as well.)
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        lambda s: jnp.where(jnp.isinf(s.ts), jnp.inf, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From 479d3f3dabf356ada0fabc7efe96bacc4e28527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 05/26] fix: event functions see the user's time, terms and
 options when solving backward in time

---
 diffrax/_integrate.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index d089111..ed29a24 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -296,6 +296,20 @@ def _maybe_static(static_x: ArrayLike | None, x: ArrayLike) -> ArrayLike:
         return x
 
 
+class _DirectionCondFn(eqx.Module):
+    # Event functions are provided by the user, so they should see time (and everything
+    # else that depends upon it) as the user does: prior to flipping the direction of
+    # time when solving backwards.
+    cond_fn: Callable
+    direction: IntScalarLike
+    user_kwargs: dict[str, Any]
+
+    def __call__(self, t, y, args, **kwargs):
+        return self.cond_fn(
+            t * self.direction, y, args, **{**kwargs, **self.user_kwargs}
+        )
+
+
 _PRINT_STATIC = False  # used in tests
 
 
@@ -1152,6 +1166,22 @@ def diffeqsolve(
 
     # Normalises time: if t0 > t1 then flip things around.
     direction = jnp.where(t0 < t1, 1, -1)
+    if event is not None:
+        user_kwargs = dict(
+            terms=terms,
+            t0=t0,
+            t1=t1,
+            dt0=dt0,
+            saveat=saveat,
+            stepsize_controller=stepsize_controller,
+        )
+        cond_fn = jtu.tree_map(
+            lambda fn: _DirectionCondFn(fn, direction, user_kwargs),
+            event.cond_fn,
+            is_leaf=callable,
+        )
+        event = eqx.tree_at(lambda e: e.cond_fn, event, cond_fn, is_leaf=callable)
+        del cond_fn, user_kwargs
     t0 = t0 * direction
     t1 = t1 * direction
     if dt0 is not None:
-- 
2.43.0


From ddfec00b95427511c3fa575f5dd335e3c7d05cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 06/26] fix: a first step targeting within rounding of t1 ends
 exactly at t1, so a requested save time at t1 is not skipped

---
 diffrax/_integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index ed29a24..e2c08cc 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -335,6 +335,12 @@ def loop(
     for _ in range(100):
         t1_clip_floor = eqxi.prevbefore(t1_clip_floor)
 
+    # The first step is clipped just like every other step. (For example this may be
+    # targeting `prevbefore(t1)` due to a jump at `t1`, and then we would finish without
+    # ever making it to `t1` itself.)
+    tnext = _clip_to_end(init_state.tprev, init_state.tnext, t1, t1_clip_floor, True)
+    init_state = eqx.tree_at(lambda s: s.tnext, init_state, tnext)
+
     if saveat.dense:
         dense_ts = init_state.dense_ts
         dense_ts = dense_ts.at[0].set(t0)
-- 
2.43.0


From 97267fcaba816c1f47eea2c2781b6b3b3737e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 07/26] fix: an overflowing step is rejected and retried with a
 smaller step, rather than giving a NaN step size

---
 diffrax/_step_size_controller/pid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 752b9be..ab748aa 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -490,6 +490,10 @@ class PIDController(
                 return _y_error / (self.atol + _y * self.rtol)
 
         scaled_error = self.norm(jtu.tree_map(_scale, y0, y1_candidate, y_error))
+        # E.g. `y1_candidate` has overflowed to infinity as well as `y_error`. Treat this
+        # as an infinitely large error, so that we shrink the step and try again, rather
+        # than obtaining a step size of NaN.
+        scaled_error = jnp.where(jnp.isnan(scaled_error), jnp.inf, scaled_error)
         keep_step = scaled_error < 1
         # Automatically keep the step if it was at dtmin.
         if self.dtmin is not None:
-- 
2.43.0


From aa50f4593b2676f64731e1bce70f7f82899d441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 08/26] fix: an empty list of step or jump times is allowed,
 rather than raising an IndexError

---
 diffrax/_step_size_controller/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_step_size_controller/clip.py b/diffrax/_step_size_controller/clip.py
index cac6ec1..c71e2d8 100644
--- a/diffrax/_step_size_controller/clip.py
+++ b/diffrax/_step_size_controller/clip.py
@@ -102,7 +102,7 @@ def _find_idx_with_hint(t: RealScalarLike, ts: Array | None, hint: IntScalarLike
     # Find index of first element of `ts` strictly greater than `t`.
     # Uses a linear search starting from `hint`. The value `hint` is assumed to be in
     # `{0, 1, ..., len(ts)}`
-    if ts is None:
+    if ts is None or len(ts) == 0:
         return 0
 
     def cond_up(_i):
-- 
2.43.0


From 38ed4100cb5cfd1dd673cecb9b065f0ce433f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:44 +0000
Subject: [PATCH 09/26] fix: constant step size solves take steps of dt0 also
 when dt0 does not divide t1-t0

---
 diffrax/_step_size_controller/constant.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..e3315bd 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,11 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (
+#     steps_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0_per_sim
+# )
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -52,7 +54,9 @@ class ConstantStepSize(
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
         t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        # The (not necessarily integer) number of `dt0`s that `t1 - t0` is made of.
+        dt0_per_sim = jnp.where(jnp.isfinite(t1), (t1_sim_or_dt0 - t0) / dt0, 1)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0, dt0_per_sim)
 
     def adapt_step_size(
         self,
@@ -73,7 +77,13 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        (
+            steps_already_completed,
+            num_steps,
+            t0_sim,
+            t1_sim_or_dt0,
+            dt0_per_sim,
+        ) = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
@@ -82,7 +92,7 @@ class ConstantStepSize(
         # errors.
         time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
         t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
+            jnp.astype(steps_completed, time_dtype) / dt0_per_sim
         )
 
         # If we're on the final step then use `t1` directly, this time to avoid
@@ -99,7 +109,7 @@ class ConstantStepSize(
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0_per_sim),
             RESULTS.successful,
         )
 
-- 
2.43.0


From 80af3f9857f855700e2771de159086eabb7b9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 10/26] fix: ImplicitEuler reports an infinite error when its
 implicit solve fails, so that the step is rejected and retried

---
 diffrax/_solver/implicit_euler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/implicit_euler.py b/diffrax/_solver/implicit_euler.py
index 68477c7..daa6b9c 100644
--- a/diffrax/_solver/implicit_euler.py
+++ b/diffrax/_solver/implicit_euler.py
@@ -1,6 +1,8 @@
 from collections.abc import Callable
 from typing import ClassVar, TypeAlias
 
+import jax.numpy as jnp
+import jax.tree_util as jtu
 import optimistix as optx
 from equinox.internal import ω
 
@@ -8,7 +10,7 @@ from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF,
 from .._heuristics import is_sde
 from .._local_interpolation import LocalLinearInterpolation
 from .._root_finder import with_stepsize_controller_tols
-from .._solution import RESULTS
+from .._solution import is_okay, RESULTS
 from .._term import AbstractTerm
 from .base import AbstractAdaptiveSolver, AbstractImplicitSolver
 
@@ -97,6 +99,10 @@ class ImplicitEuler(AbstractImplicitSolver, AbstractAdaptiveSolver):
         dense_info = dict(y0=y0, y1=y1)
         solver_state = None
         result = RESULTS.promote(nonlinear_sol.result)
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf),
+            y_error,
+        )  # i.e. the implicit step failed to converge
         return y1, y_error, dense_info, solver_state, result
 
     def func(
-- 
2.43.0


From 8c8b81f0519abfab3277567e145f18dca757f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 11/26] fix: HalfSolver reports an infinite error when a
 wrapped implicit step fails, so that the step is rejected and retried

---
 diffrax/_solver/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..051a787 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -27,7 +27,7 @@ from jaxtyping import PyTree
 from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF, Y
 from .._heuristics import is_sde
 from .._local_interpolation import AbstractLocalInterpolation
-from .._solution import RESULTS, update_result
+from .._solution import is_okay, RESULTS, update_result
 from .._term import AbstractTerm, MultiTerm
 
 
@@ -337,6 +337,10 @@ class HalfSolver(
 
         y_error = (y1**ω - y1_alt**ω).call(jnp.abs).ω
         result = update_result(result1, update_result(result2, result3))
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf),
+            y_error,
+        )  # i.e. an implicit step failed to converge
 
         return y1, y_error, dense_info, solver_state, result
 
-- 
2.43.0


From 6cae84db7e5fb62809257d663344364be1a14521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 12/26] fix: HalfSolver can wrap implicit solvers (tolerances
 are looked up on the wrapped root finder)

---
 diffrax/_integrate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index e2c08cc..55ac3b2 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -50,6 +50,7 @@ from ._solver import (
     AbstractItoSolver,
     AbstractSolver,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
     Euler,
     EulerHeun,
     ItoMilstein,
@@ -1210,24 +1211,26 @@ def diffeqsolve(
 
     if isinstance(solver, AbstractImplicitSolver):
 
+        def _get_root_finder(s):
+            while isinstance(s, AbstractWrappedSolver):
+                s = s.solver
+            return cast(AbstractImplicitSolver, s).root_finder
+
         def _get_tols(x):
             outs = []
             for attr in ("rtol", "atol", "norm"):
-                if (
-                    getattr(cast(AbstractImplicitSolver, solver).root_finder, attr)
-                    is use_stepsize_tol
-                ):
+                if getattr(_get_root_finder(solver), attr) is use_stepsize_tol:
                     outs.append(getattr(x, attr))
             return tuple(outs)
 
         if isinstance(stepsize_controller, AbstractAdaptiveStepSizeController):
             solver = eqx.tree_at(
-                lambda s: _get_tols(s.root_finder),
+                lambda s: _get_tols(_get_root_finder(s)),
                 solver,
                 _get_tols(stepsize_controller),
             )
         else:
-            if len(_get_tols(solver.root_finder)) > 0:
+            if len(_get_tols(_get_root_finder(solver))) > 0:
                 raise ValueError(
                     "A fixed step size controller is being used alongside an implicit "
                     "solver, but the tolerances for the implicit solver have not been "
-- 
2.43.0


From bdd09fe8ccaaae884c4e04e965a25b6dd1c72801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 13/26] fix: backward-in-time SDE solves no longer negate the
 space-time Levy area

---
 diffrax/_term.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..9e64ca4 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,20 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+
+        def _reverse(x):
+            out = (self.direction * x**ω).ω
+            if isinstance(x, AbstractSpaceTimeLevyArea):
+                # Traversing a path backward in time negates its increment, but not its
+                # space-time Levy area. (And does negate the space-time-time Levy area.)
+                out = eqx.tree_at(lambda o: o.H, out, x.H)
+            return out
+
+        return jtu.tree_map(
+            _reverse,
+            self.term.contr(_t0, _t1, **kwargs),
+            is_leaf=lambda x: isinstance(x, AbstractSpaceTimeLevyArea),
+        )
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 7aa2a6f026cc031fe28855478c9d4b584ed9fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 14/26] fix: ItoMilstein accepts a PyTree-valued Brownian
 motion

---
 diffrax/_solver/milstein.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/milstein.py b/diffrax/_solver/milstein.py
index 897bc9c..d13c5dd 100644
--- a/diffrax/_solver/milstein.py
+++ b/diffrax/_solver/milstein.py
@@ -214,6 +214,7 @@ class ItoMilstein(AbstractItoSolver):
         # We're going to use this notation extensively.
         #
         leaves_Δw, tree_Δw = jtu.tree_flatten(Δw)
+        holomorphic = any(jnp.iscomplexobj(x) for x in leaves_Δw)
         leaves_ΔwΔw = []
         for i1, l1 in enumerate(leaves_Δw):
             for i2, l2 in enumerate(leaves_Δw):
@@ -244,7 +245,7 @@ class ItoMilstein(AbstractItoSolver):
             _, _jvp = jax.jvp(_to_vjp, (y0,), (_g0,))
             # jvp has structure (tree(g0), leaf(g0))
             _jvp_matrix = jax.jacfwd(
-                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=holomorphic
             )(Δw)
             # _jvp_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
             return _jvp_matrix
@@ -292,7 +293,7 @@ class ItoMilstein(AbstractItoSolver):
         # g0 has structure (tree(g0), leaf(g0))
         # Which we now transform into its isomorphic matrix form, as above.
         g0_matrix = jax.jacfwd(
-            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=holomorphic
         )(Δw)
         # g0_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
         g0_matrix = jtu.tree_transpose(y_treedef, Δw_treedef, g0_matrix)
-- 
2.43.0


From 844789b54df079842f720ab57c3e501a58b939a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 15/26] fix: VirtualBrownianTree with a PyTree shape scales the
 time increment by the length of the interval, not its square root

---
 diffrax/_brownian/tree.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..bd2e291 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,10 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # Note that `x.dt` is a PyTree if `self.shape` is.
+        dt_normalized = jtu.tree_map(mult, x.dt)
+        normalized = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda y: y.dt, normalized, dt_normalized)
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From e70fafa3fb60e33038f1e4253cf36b13d92a5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 16/26] fix: interpolation of data rejects NaN times, as the
 check of `ts` intends

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..83f7f78 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -411,7 +411,7 @@ def _check_ts(ts: Real[Array, " times"]) -> Real[Array, " times"]:
         raise ValueError(f"`ts` must be of length at least 2; got {ts.shape[0]}")
     # Also catches any NaN times.
     ts = eqxi.error_if(
-        ts, ts[:-1] >= ts[1:], "`ts` must be monotonically strictly increasing."
+        ts, ~(ts[:-1] < ts[1:]), "`ts` must be monotonically strictly increasing."
     )
     return ts
 
-- 
2.43.0


From d832a4dc90c3bfc71d76a00b4825e70c5171e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 17/26] fix: backward Hermite coefficients over several
 consecutive missing values describe one (continuous) cubic

---
 diffrax/_global_interpolation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 83f7f78..89355fe 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -663,13 +663,16 @@ def _hermite_coeffs(t0, y0, deriv0, t1, y1):
 
 def _hermite_impl(prev_ti, prev_yi, prev_deriv_i, ti, next_ti, next_yi):
     d, c, b, a = _hermite_coeffs(prev_ti, prev_yi, prev_deriv_i, next_ti, next_yi)
-    ts = jnp.stack([prev_ti, next_ti])
-    interpolation = CubicInterpolation(
-        ts=ts, coeffs=(d[None], c[None], b[None], a[None])
-    )
-    interp_yi = interpolation.evaluate(ti)
-    interp_deriv_i = interpolation.derivative(ti)
-    return _hermite_coeffs(ti, interp_yi, interp_deriv_i, next_ti, next_yi)
+    # `ti` may lie strictly between `prev_ti` and `next_ti`, if there is missing data.
+    # In this case we need the *same* cubic, but as an expansion around `ti`. (And not a
+    # new cubic fit from `ti` to `next_ti`, which would not have the same derivative at
+    # `next_ti`, nor the same value at any missing data in-between.)
+    with jax.numpy_dtype_promotion("standard"):
+        frac = ti - prev_ti
+        shifted_a = a + frac * (b + frac * (c + frac * d))
+        shifted_b = b + frac * (2 * c + frac * 3 * d)
+        shifted_c = c + 3 * frac * d
+    return d, shifted_c, shifted_b, shifted_a
 
 
 def _backward_hermite_coefficients(
-- 
2.43.0


From 6f3b2d7340111b9aad458a39cd9c77f33c42ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 18/26] fix: replace_nans_at_start replaces a missing first
 value (also if all are missing), and never an observed one

---
 diffrax/_global_interpolation.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 89355fe..919e43d 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -431,6 +431,16 @@ def _interpolation_reverse(
     return (ti, yi), (ti, yi)
 
 
+def _replace_nan_at_start(
+    ys: Shaped[Array, " times *channels"],
+    replace_nans_at_start: Shaped[ArrayLike, " *#channels"],
+) -> Shaped[Array, " times *channels"]:
+    y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+    # Only use the replacement if there isn't already an observation.
+    y0 = jnp.where(jnp.isnan(ys[0]), y0, ys[0])
+    return jnp.concatenate([y0[None], ys[1:]])
+
+
 def _linear_interpolation_forward(
     carry: tuple[Real[Array, " *channels"], Shaped[Array, " *channels"]],
     value: tuple[
@@ -463,10 +473,8 @@ def _linear_interpolation(
 ) -> Shaped[Array, " times *channels"]:
     ts = left_broadcast_to(ts, ys.shape)
 
-    if replace_nans_at_start is None:
-        y0 = ys[0]
-    else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+    if replace_nans_at_start is not None:
+        ys = _replace_nan_at_start(ys, replace_nans_at_start)
 
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
@@ -474,7 +482,7 @@ def _linear_interpolation(
     if fill_forward_nans_at_end:
         next_ys = fill_forward(next_ys)
     _, ys = lax.scan(
-        _linear_interpolation_forward, (ts[0], y0), (ts, ys, next_ts, next_ys)
+        _linear_interpolation_forward, (ts[0], ys[0]), (ts, ys, next_ts, next_ys)
     )
     return ys
 
@@ -689,6 +697,9 @@ def _backward_hermite_coefficients(
 ]:
     ts = left_broadcast_to(ts, ys.shape)
 
+    if replace_nans_at_start is not None:
+        ys = _replace_nan_at_start(ys, replace_nans_at_start)
+
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
@@ -697,10 +708,7 @@ def _backward_hermite_coefficients(
         next_ys = fill_forward(next_ys)
 
     t0 = ts[0]
-    if replace_nans_at_start is None:
-        y0 = ys[0]
-    else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+    y0 = ys[0]
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From 18b682bf85cdda7673d3a87d498daeb96ae93909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 19/26] fix:
 backward_hermite_coefficients(fill_forward_nans_at_end=True) fills missing
 values at the end before fitting the spline

---
 diffrax/_global_interpolation.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 919e43d..13ca737 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -441,6 +441,16 @@ def _replace_nan_at_start(
     return jnp.concatenate([y0[None], ys[1:]])
 
 
+def _fill_forward_nans_at_end(
+    ts: Real[Array, " times *channels"], ys: Shaped[Array, " times *channels"]
+) -> Shaped[Array, " times *channels"]:
+    _, (_, next_ys) = lax.scan(
+        _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
+    )
+    nans_at_end = jnp.isnan(next_ys)
+    return jnp.where(nans_at_end, fill_forward(ys), ys)
+
+
 def _linear_interpolation_forward(
     carry: tuple[Real[Array, " *channels"], Shaped[Array, " *channels"]],
     value: tuple[
@@ -699,14 +709,14 @@ def _backward_hermite_coefficients(
 
     if replace_nans_at_start is not None:
         ys = _replace_nan_at_start(ys, replace_nans_at_start)
+    if fill_forward_nans_at_end:
+        # Done prior to fitting the spline.
+        ys = _fill_forward_nans_at_end(ts, ys)
 
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
 
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     y0 = ys[0]
     if deriv0 is None:
-- 
2.43.0


From e33315d6c177f23c06c3e6f6e855f51afc20522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 20/26] fix: Langevin solvers use the Taylor expansion of their
 coefficients only if |h*gamma| is small, also backward in time

---
 diffrax/_solver/foster_langevin_srk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..fa5eb3b 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -196,8 +196,9 @@ class AbstractFosterLangevinSRK(
         def recompute_coeffs_leaf(c: UnderdampedLangevinLeaf, _tay_coeffs: _Coeffs):
             # c is a leaf of gamma
             # Depending on the size of h*gamma choose whether the Taylor expansion or
-            # direct computation is more accurate.
-            cond = h * c < self.taylor_threshold
+            # direct computation is more accurate. (h is negative when solving backwards
+            # in time.)
+            cond = jnp.abs(h * c) < self.taylor_threshold
             tay_out = self._eval_taylor(h, _tay_coeffs)
             if cond.ndim < jtu.tree_leaves(tay_out)[0].ndim:
                 # This happens when c is a scalar
-- 
2.43.0


From 1d43d0dbe50adb3d8b278b26f1543b8b7f2a9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 21/26] fix: Langevin solvers recompute their coefficients when
 a tiny step size changes

---
 diffrax/_solver/foster_langevin_srk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index fa5eb3b..39189c1 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -388,8 +388,9 @@ class AbstractFosterLangevinSRK(
 
         # If h changed, recompute coefficients
         # Even when using constant step sizes, h can fluctuate by small amounts,
-        # so we use `jnp.isclose` for comparison
-        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=1e-12)
+        # so we use `jnp.isclose` for comparison. (This must be relative only: depending
+        # on the units of time then the step sizes themselves may be tiny.)
+        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=0)
         coeffs = lax.cond(
             eqxi.unvmap_all(cond),
             lambda: old_coeffs,
-- 
2.43.0


From af85e6565fc90b9aadbdd34c90e8de5a126c02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 22/26] fix: QUICSORT can be used with jumps in the vector
 field

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 39189c1..83d777d 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -406,7 +406,7 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if made_jump is False or not self._is_fsal:
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From b47dd3c6e7449ca2def66a5d8cbff1d05bb00238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 23/26] fix: BacksolveAdjoint raises an error when
 differentiating the returned solver or controller state

The error raised by _only_transpose_ys was dead code, so zero gradients were silently returned.
---
 diffrax/_adjoint.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..1e5bd34 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -605,6 +605,21 @@ def _loop_backsolve_bwd(
     grad_ys = grad_final_state.save_state.ys
     # We take the simple way out and don't try to handle symbolic zeros.
     grad_ys = jtu.tree_map(_materialise_none, ys, grad_ys)
+    # The states cannot be differentiated. `_only_transpose_ys` raises an error if this is
+    # attempted, but that is dead code (and thus not executed) unless we use its output.
+    grad_states = jtu.tree_leaves(
+        eqx.filter(
+            (grad_final_state.solver_state, grad_final_state.controller_state),
+            eqx.is_inexact_array,
+        )
+    )
+    grad_ys = eqxi.error_if(
+        grad_ys,
+        jnp.array([jnp.any(g != 0) for g in grad_states], dtype=bool).any(),
+        "When using `adjoint=BacksolveAdjoint()`, then the returned `solver_state` and "
+        "`controller_state` cannot be reverse-mode autodifferentiated.",
+    )
+    del grad_states
     del grad_final_state, grad_final_state__aux_stats
     y, args, terms = y__args__terms
     del y__args__terms
-- 
2.43.0


From d574b6bcd0018e80d5a4ffa5ad3ac28ab14e831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 24/26] fix: events locate their time per batch element, and
 boolean events work with bracketing root finders

---
 diffrax/_integrate.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 55ac3b2..49f3a9e 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -721,6 +721,8 @@ def loop(
         assert all(jnp.shape(x) == () for x in flat_mask)
         float_mask = jnp.array(flat_mask).astype(jnp.float32)
         event_happened = jnp.max(float_mask) > 0.0
+        # A (boolean) event that happens before the first step happens at `t0`.
+        should_find = event_happened & (final_state.num_steps > 0)
 
         def _root_find():
             _interpolator = solver.interpolation_cls(
@@ -730,7 +732,9 @@ def loop(
             )
 
             def _to_root_find(_t, _):
-                _distance_from_t_end = final_state.event_tnext - _t
+                # Increasing, like an upcrossing: bracketing root finders need a sign
+                # change between the (open) start and the (closed) end of the step.
+                _distance_from_t_end = _t - final_state.event_tnext
 
                 def _call_real(_event_mask_i, _cond_fn_i):
                     def _call_real_impl():
@@ -769,9 +773,8 @@ def loop(
                     _value = lax.cond(_event_mask_i, _call_real_impl, lambda: 0.0)
 
                     # Third: if no events triggered at all, then have the root occur at
-                    # the end of the last step (which will be the `t1` of the overall
-                    # solve).
-                    _value = jnp.where(event_happened, _value, _distance_from_t_end)
+                    # the end of the last step. (The value found is then ignored.)
+                    _value = jnp.where(should_find, _value, _distance_from_t_end)
                     return _value
 
                 return jtu.tree_map(
@@ -780,9 +783,16 @@ def loop(
                     event.cond_fn,
                 )
 
+            # If there is nothing to locate then the last step may have zero length, and
+            # bracketing root finders need an interval.
+            _event_tnext = final_state.event_tnext
             _options = {
-                "lower": final_state.event_tprev,
-                "upper": final_state.event_tnext,
+                "lower": jnp.where(
+                    should_find,
+                    final_state.event_tprev,
+                    _event_tnext - 1 - jnp.abs(_event_tnext),
+                ),
+                "upper": _event_tnext,
             }
             _event_root_find = optx.root_find(
                 _to_root_find,
@@ -791,16 +801,20 @@ def loop(
                 options=_options,
                 throw=False,
             )
-            _tfinal = _event_root_find.value
+            # Batch elements with nothing to locate finish wherever they got to.
+            _tfinal = jnp.where(
+                should_find, _event_root_find.value, final_state.tprev
+            )
             # TODO: we might need to change the way we evaluate `_yfinal` in order to
             # get more accurate derivatives?
             _yfinal = lax.cond(
-                final_state.num_steps == 0,
-                lambda: final_state.y,
+                should_find,
                 lambda: _interpolator.evaluate(_tfinal),
+                lambda: final_state.y,
             )
             _result = RESULTS.where(
-                _event_root_find.result == optx.RESULTS.successful,
+                jnp.invert(should_find)
+                | (_event_root_find.result == optx.RESULTS.successful),
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
@@ -809,9 +823,9 @@ def loop(
         # Fastpath: if no event happened anywhere at all, then skip the root-find
         # altogether.
         # Note that `_root_find` might still be called on batch elements which did not
-        # have an event, so we still need to access `event_happened` inside of it.
+        # have an event, so we still need to access `should_find` inside of it.
         tfinal, yfinal, result = lax.cond(
-            eqxi.unvmap_any(event_happened),
+            eqxi.unvmap_any(should_find),
             _root_find,
             lambda: (final_state.tprev, final_state.y, result),
         )
-- 
2.43.0


From 510fe043d11ae8beb69830b4ef8178b7f43f66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 25/26] fix: the first step of a resumed solve comes from the
 step size controller

---
 diffrax/_integrate.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 49f3a9e..77329bb 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1299,19 +1299,16 @@ def diffeqsolve(
     # Initialise states
     tprev = t0
     error_order = solver.error_order(terms)
+    # The first step always comes from the controller, e.g. so that it is clipped to any
+    # `ClipStepSizeController(step_ts=..., jump_ts=...)` even if resuming a solve.
+    (tnext, init_controller_state) = stepsize_controller.init(
+        terms, t0, t1, y0, dt0, args, solver.func, error_order
+    )
     if controller_state is None:
         passed_controller_state = False
-        (tnext, controller_state) = stepsize_controller.init(
-            terms, t0, t1, y0, dt0, args, solver.func, error_order
-        )
+        controller_state = init_controller_state
     else:
         passed_controller_state = True
-        if dt0 is None:
-            (tnext, _) = stepsize_controller.init(
-                terms, t0, t1, y0, dt0, args, solver.func, error_order
-            )
-        else:
-            tnext = t0 + dt0
     tnext = jnp.minimum(tnext, t1)
     if solver_state is None:
         passed_solver_state = False
-- 
2.43.0


From a01cde71babcc62f27fd32460d88d464e3212ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 26/26] fix: progress meters with gradients with respect to the
 times of the solve

---
 diffrax/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 77329bb..a45f0ff 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -433,8 +433,11 @@ def loop(
         tprev = jnp.minimum(tprev, t1)
         tnext = _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step)
 
+        # Progress meters use callbacks, which cannot be differentiated. `tprev`, `t0`
+        # and `t1` may all be being differentiated with respect to.
         progress_meter_state = progress_meter.step(
-            state.progress_meter_state, linear_rescale(t0, tprev, t1)
+            state.progress_meter_state,
+            lax.stop_gradient(linear_rescale(t0, tprev, t1)),
         )
 
         # The other parts of the mutable state are kept/not-kept (based on whether the
-- 
2.43.0

