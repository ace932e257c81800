"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

I = "diffrax/_integrate.py"
prop("C01", "A solve steps contiguously from t0 and ends exactly at t1",
 "For every solver and every step size controller, an adaptive or fixed-step solve over t0 to t1 starts at t0, each accepted step begins exactly where the previous accepted step ended, time strictly increases, no step goes past t1, and a solve reported as successful has reached exactly t1. "
 "A rejected step leaves the solution, the accepted time and everything already saved unchanged and is retried from the same time; a kept step whose solver reports failure, or whose output is unusable, stops the solve with that error. "
 "The reported numbers of steps, accepted steps and rejected steps count exactly what happened, reaching the step limit is reported as such, and the solve does no more steps than the limit.",
 ["inputs", "programs", "histories", "configurations"],
 "all vector fields, solvers, controllers (any sequence of accept/reject decisions and proposed steps), all t0<t1, dt0, all step counts",
 "Tests run a handful of vector fields; accept/reject histories are never enumerated, and no test states the loop invariant.",
 [I], [("loop body and condition", I + ":loop"), ("entry point", I + ":diffeqsolve"), ("endpoint clipping", I + ":_clip_to_end"), ("result codes", "diffrax/_solution.py")],
 ["Solution.stats", "Solution.result", "Solution.ts", "solver.step calls"],
 [("tprev,tnext", "accepted time and proposed end of the next step", I + ":State"), ("num_steps,num_accepted_steps,num_rejected_steps", "counters", I + ":State"), ("result", "first failure", I + ":State")])

prop("C02", "Saved output is exactly what SaveAt asked for",
 "The saved times and values of a solve are, in order: the initial value if requested, then one entry per requested time (each equal to the step's interpolant at that time, for every requested time however many fall in one step) and/or one entry per requested number of accepted steps, then the final value if requested - each exactly once - followed by infinite padding; each entry's value is the user's save function applied at that entry's time and state. "
 "Nested or multiple save specifications each receive the record they would have received alone, and dense output covers exactly the accepted steps.",
 ["inputs", "histories", "configurations"],
 "all SaveAt combinations (t0, t1, ts, steps, fn, sub-saves, dense), all accept/reject histories, all placements of requested times relative to steps (equal to t0, t1, step boundaries, several per step), zero-step solves",
 "Tests sample a few placements; coincidences (requested time equal to a step boundary, zero accepted steps, steps=n with n not dividing) are not enumerated.",
 [I, "diffrax/_saveat.py"], [("save_steps/save_ts/save_t1", I + ":loop"), ("buffers", I + ":_inner_buffers"), ("save state", I + ":SaveState"), ("SubSaveAt", "diffrax/_saveat.py")],
 ["Solution.ts", "Solution.ys", "Solution.evaluate"])

prop("C03", "Integrating backwards in time mirrors integrating forwards",
 "Solving from t0 down to t1<t0 gives exactly the result of solving the time-negated problem forwards from -t0 up to -t1, with saved times, dense output, controls and events reported back in the user's own time. "
 "In particular the vector field, controls, save function and step-time lists are all seen in user time, and dense output evaluated anywhere agrees with the forward solve.",
 ["inputs", "configurations"], "all vector fields, controls, t0>t1, all save specifications and all built-in solvers, interpolations and time-aware controllers",
 "Tests integrate backwards for a few solvers and check closeness at a tolerance that hides sign errors in rarely used outputs.",
 [I, "diffrax/_term.py", "diffrax/_global_interpolation.py", "diffrax/_step_size_controller"],
 [("direction flip", I + ":diffeqsolve"), ("wrapped term", "diffrax/_term.py:WrapTerm"), ("wrapped controller", "diffrax/_step_size_controller/base.py:wrap")],
 ["Solution.ts", "Solution.ys", "Solution.evaluate"])

prop("C04", "The PID controller accepts iff the scaled error is below one and resizes safely",
 "The adaptive controller keeps a step exactly when the norm of the error estimate, scaled by atol + rtol*max(|y0|,|y1|) elementwise, is below one (or the step is already at its smallest permitted size dtmin), and treats non-finite errors as rejections. "
 "The next step size is the previous one times the documented PID formula in the current and two previous inverse scaled errors, always within the factor limits and within [dtmin, dtmax]; a rejected step is retried from where it started with a strictly smaller step (unless dtmin forces otherwise), and without forcing a step size below dtmin ends the solve with an error. "
 "The first step is the given dt0 or, for an ordinary differential equation without one, that of the documented automatic algorithm; the next step proposed is always strictly positive, and the stored error history is only advanced on accepted steps.",
 ["inputs", "histories", "configurations"],
 "all coefficients, tolerances, error estimates, states (including zero, infinite and NaN errors), step histories, dtmin/dtmax/force_dtmin settings",
 "Tests only observe a few trajectories; saturation, zero error, non-finite error and dtmin corners are not enumerated.",
 ["diffrax/_step_size_controller/pid.py", "diffrax/_misc.py"],
 [("adapt_step_size", "diffrax/_step_size_controller/pid.py:PIDController"), ("initial step", "diffrax/_step_size_controller/pid.py:_select_initial_step"), ("norm", "diffrax/_misc.py:rms_norm")],
 ["keep_step, next_t0, next_t1 of adapt_step_size"])

prop("C05", "Forced step times and jump times are hit exactly and never skipped",
 "With a list of step times or jump times, every listed time inside the solve's interval is the end of an accepted step: no step ever straddles one (up to neighbouring floating point numbers), and steps are cut short nowhere else. "
 "At a jump time the step ends just before the jump and the next one starts just after it with cached vector field evaluations discarded, and nowhere else is a discontinuity signalled; after a rejection the listed times ahead are still ahead. "
 "When rejected steps are stored, the end of every rejected step is later the end of an accepted step, and exceeding the store is reported as an error.",
 ["inputs", "histories", "configurations"],
 "all lists of step/jump times (any order, duplicates, outside the interval), all accept/reject histories of the inner controller, all store_rejected_steps settings",
 "Tests use short lists and a single dynamics; index bookkeeping after rejections and with duplicates is not enumerated.",
 ["diffrax/_step_size_controller/clip.py"],
 [("adapt_step_size", "diffrax/_step_size_controller/clip.py:ClipStepSizeController"), ("clipping", "diffrax/_step_size_controller/clip.py:_clip_t"), ("bounded search", "diffrax/_step_size_controller/clip.py:_bounded_find_idx")],
 ["next_t0, next_t1, made_jump"])

prop("C06", "Fixed-step controllers take exactly the prescribed steps",
 "A constant step size solve takes steps of exactly the given size from t0 until the last one is cut to end at t1, accepts every step and signals no discontinuity; stepping to a list of times visits exactly those times in order. "
 "Step lists that are not monotone or do not start at t0 and end at t1, and missing or superfluous step sizes, are rejected up front.",
 ["inputs", "configurations"], "all dt0, all intervals, all step-time lists",
 "Tests check a few dt0 and one list.",
 ["diffrax/_step_size_controller/constant.py"],
 [("ConstantStepSize", "diffrax/_step_size_controller/constant.py"), ("StepTo", "diffrax/_step_size_controller/constant.py")],
 ["next_t0, next_t1"])

prop("C07", "Every Runge-Kutta step computes the formula of its published tableau",
 "For every Runge-Kutta solver (explicit, diagonally implicit and additive implicit-explicit) one step returns y0 plus the tableau-weighted sum of stage evaluations, each stage evaluated at t0 + c_i*(t1-t0) and at y0 plus its tableau row, for any vector field, control and pytree state; implicit stages solve exactly their implicit relation. "
 "The error estimate is the difference with the embedded solution, and reusing the last stage of the previous step gives the same step as recomputing it, whether or not a jump was signalled.",
 ["inputs", "programs", "configurations"], "all vector fields and controls (uninterpreted), t0, t1, y0, all RK solvers, all made_jump/first-step states, all stage-evaluation strategies (scan or unrolled)",
 "Tests compare a few problems at loose tolerance, which cannot see a wrong abscissa, weight or stale cached stage that only lowers the order or shows for time-dependent fields.",
 ["diffrax/_solver/runge_kutta.py"] + [f"diffrax/_solver/{s}.py" for s in "heun midpoint ralston bosh3 tsit5 dopri5 dopri8 kvaerno3 kvaerno4 kvaerno5 kencarp3 kencarp4 kencarp5 sil3".split()],
 [("step", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("implicit relations", "diffrax/_solver/runge_kutta.py:_implicit_relation_f")],
 ["y1, y_error, dense_info, solver_state of step"])

prop("C08", "Every Runge-Kutta method attains its stated, embedded and dense order",
 "For every Runge-Kutta solver the coefficients actually used satisfy all rooted-tree order conditions up to the order the solver states, the error estimate vanishes up to the order of the embedded method (at least first order, below the stated order) and not beyond, the row sums equal the abscissae, and the interpolant satisfies the continuous order conditions up to the order of its published dense output. "
 "Implicit-explicit pairs also satisfy the coupling conditions, and the stiffly accurate / L-stable methods end on their last stage.",
 ["inputs", "configurations"], "all smooth vector fields (through the order conditions), all RK solvers, all interpolation points theta",
 "The convergence tests are numerically loose and several of them are not in the stable suite; a coefficient wrong in the 8th digit passes.",
 [f"diffrax/_solver/{s}.py" for s in "heun midpoint ralston bosh3 tsit5 dopri5 dopri8 kvaerno3 kvaerno4 kvaerno5 kencarp3 kencarp4 kencarp5 sil3".split()] + ["diffrax/_local_interpolation.py"],
 [("tableaus", "diffrax/_solver/*.py"), ("dense output coefficients", "diffrax/_solver/*.py and diffrax/_local_interpolation.py")],
 ["y1, y_error of step; interpolation.evaluate", "order()/error_order()/strong_order()"])

prop("C09", "Low-order, symplectic, reversible and Richardson solvers compute their formula",
 "Euler, implicit Euler, Euler-Heun, semi-implicit (symplectic) Euler, leapfrog/midpoint, reversible Heun and the half-step wrapper each return exactly their documented update for every vector field, control and state. "
 "In addition the symplectic solver preserves the symplectic form, reversible Heun is algebraically reversible, and the half-step wrapper returns the two-half-steps solution with the full-step difference as error.",
 ["inputs", "programs"], "all vector fields, controls, states, step sizes, first-step and jump flags",
 "Tests check a few linear problems, where several wrong formulas agree.",
 [f"diffrax/_solver/{s}.py" for s in "euler implicit_euler euler_heun semi_implicit_euler leapfrog_midpoint reversible_heun".split()] + ["diffrax/_solver/base.py"],
 [("step", "diffrax/_solver/*.py"), ("HalfSolver", "diffrax/_solver/base.py")], ["y1, y_error, dense_info, solver_state of step"])

prop("C10", "Stochastic Runge-Kutta and Milstein steps compute their stated schemes",
 "Each SDE solver (ItoMilstein, StratonovichMilstein, SEA, ShARK, SRA1, SlowRK, GeneralShARK, SPaRK) returns, for every drift, diffusion, state and Brownian increment, exactly its published scheme in the increment and its space-time(-time) Levy areas; for additive noise the diffusion is used consistently across stages. "
 "With zero noise each reduces to a deterministic Runge-Kutta method of its stated deterministic order, and its first terms match the stochastic Taylor expansion to its stated strong order.",
 ["inputs", "programs"], "all drifts and diffusions, all states, all increments and Levy areas",
 "The SDE tests are statistical and not in the stable suite; a wrong coefficient changes a convergence slope only slightly.",
 ["diffrax/_solver/srk.py", "diffrax/_solver/milstein.py"] + [f"diffrax/_solver/{s}.py" for s in "sea shark sra1 slowrk shark_general spark".split()],
 [("step", "diffrax/_solver/srk.py:AbstractSRK.step"), ("Milstein correction", "diffrax/_solver/milstein.py")], ["y1, y_error of step"])

prop("C11", "Langevin solvers integrate the underdamped Langevin equation they claim",
 "For every positive friction and inverse mass, every step size and gradient, ALIGN, ShOULD and QUICSORT compute their exponential integrator step, with coefficients equal to their closed forms in friction times step size. "
 "The series expansion used for small arguments agrees with the closed form at the switch-over so results are continuous in the step size, cached gradients equal recomputed ones, and coefficients cached for one step size are never used for another.",
 ["inputs", "programs", "configurations"], "all friction/mass values, step sizes on both sides of the Taylor threshold, gradients, noises, cached states",
 "The Langevin tests are statistical and not in the stable suite.",
 [f"diffrax/_solver/{s}.py" for s in "foster_langevin_srk align should quicsort".split()],
 [("step", "diffrax/_solver/foster_langevin_srk.py"), ("coefficients", "diffrax/_solver/{align,should,quicsort}.py")], ["y1, y_error, solver_state of step"])

prop("C12", "Dense output matches the step endpoints and is additive",
 "Every per-step interpolant equals the step's start value at its start time and the step's end value at its end time, is evaluated in real time (not normalised time), and its increment form over [s,t] equals value at t minus value at s. "
 "A dense solution evaluated at any time uses the accepted step containing that time, is continuous across step boundaries, reproduces saved values, and its derivative is the derivative of its evaluation.",
 ["inputs", "configurations"], "all interpolants of all solvers, all states and stage values, all times, all numbers of steps",
 "Interpolation tests are not in the stable suite and use one step history.",
 ["diffrax/_local_interpolation.py", "diffrax/_global_interpolation.py"],
 [("local interpolants", "diffrax/_local_interpolation.py"), ("DenseInterpolation", "diffrax/_global_interpolation.py")], ["evaluate, derivative"])

prop("C13", "Data interpolation passes through the data and fills missing data as specified",
 "Linear and cubic interpolation of a time series pass through every data point, use the knots surrounding the query time (the left one at a knot when asked), and agree with the line or Hermite cubic on each interval between knots; derivatives are the derivatives of the evaluation and increments are differences of values. "
 "The backward-Hermite spline is continuous with continuous derivative, its slope at a knot being the divided difference to the previous observation (a backward, not a central, difference); and missing values are filled (linearly or rectilinearly) exactly as documented at the start, in gaps and at the end.",
 ["inputs", "configurations"], "all time series (any values, strictly increasing times), all missing-data patterns, all query times, left or right",
 "Interpolation tests are not in the stable suite and sample a few NaN patterns.",
 ["diffrax/_global_interpolation.py", "diffrax/_misc.py"],
 [("interpolants", "diffrax/_global_interpolation.py"), ("coefficients", "diffrax/_global_interpolation.py"), ("fill", "diffrax/_misc.py:fill_forward")], ["evaluate, derivative, coefficient arrays"])

prop("C14", "The virtual Brownian tree is one consistent Brownian sample path",
 "For a fixed key, the value at a time is a function of that time alone, increments over adjacent intervals add up exactly (including the space-time and space-time-time Levy areas by Chen's relation), and increments over an interval are differences of values. "
 "The generated values and Levy areas have exactly the mean, variances and covariances of Brownian motion at every pair of tree nodes, with interpolation below the tolerance conditionally correct given the enclosing nodes, and distinct leaves and nodes use independent randomness.",
 ["inputs", "histories"], "all keys, all query intervals and orders of queries, all tolerances/depths, all Levy area modes and shapes",
 "Brownian tests are statistical and not in the stable suite.",
 ["diffrax/_brownian/tree.py", "diffrax/_brownian/base.py", "diffrax/_custom_types.py"],
 [("evaluate", "diffrax/_brownian/tree.py:VirtualBrownianTree.evaluate"), ("bridge formulae", "diffrax/_brownian/tree.py:_brownian_arch"), ("interval conversion", "diffrax/_brownian/tree.py:_levy_diff")], ["evaluate(t0,t1)"])

prop("C15", "The unsafe Brownian path has the law of Brownian increments with Levy area",
 "Each increment (and its space-time and space-time-time Levy areas) over [t0,t1] is an independent Gaussian with mean zero and exactly the variances t1-t0, (t1-t0)/12 and (t1-t0)/720, the same query always gives the same answer, and different leaves, components and Levy areas use different randomness. "
 "The randomness of a query is seeded from the key and from every bit of both of its end times (so that nearby but different queries differ); the value at one time is the increment from zero.",
 ["inputs", "configurations"], "all keys, intervals, shapes, dtypes and Levy area modes",
 "Brownian tests are statistical and not in the stable suite.",
 ["diffrax/_brownian/path.py", "diffrax/_brownian/base.py"],
 [("evaluate", "diffrax/_brownian/path.py:UnsafeBrownianPath.evaluate")], ["evaluate(t0,t1)"])

prop("C16", "Terms combine vector fields and controls linearly and consistently",
 "For every kind of term the combined vector-field-times-control product equals the product of the separate pieces, is linear in the control, contracts over the control exactly as documented (matrix, diagonal/elementwise or linear operator), and sums of terms sum the contributions. "
 "Controls over an interval are increments of the path over that interval (time differences for ordinary terms), and turning a controlled term into an ordinary one multiplies by the control's derivative.",
 ["inputs", "programs"], "all vector fields, controls, pytree states, intervals and nesting of terms",
 "Tests check single shapes.",
 ["diffrax/_term.py"],
 [("terms", "diffrax/_term.py")], ["vf, contr, prod, vf_prod"])

prop("C17", "Events stop the solve at the first triggering step and locate the event",
 "A solve with events continues until the end of the first accepted step at which some condition triggers (a boolean becomes true, or a real-valued condition changes sign in the requested direction), reports that the event occurred and which condition it was, and otherwise behaves exactly as without events. "
 "With a root finder the final time is a root of the triggering condition inside the last step to the root finder's tolerance, everything saved after it is removed and the final value saved there; without one the solve ends at the end of that step.",
 ["inputs", "programs", "histories", "configurations"], "all condition functions, directions, step histories, save specifications, with and without root finding",
 "Tests use a few monotone conditions with a single save setting.",
 [I, "diffrax/_event.py"], [("event detection", I + ":loop"), ("event location", I + ":loop"), ("Event", "diffrax/_event.py")], ["Solution.event_mask, ts, ys, result"])

prop("C18", "All adjoints run the same forward solve; backsolve solves the adjoint ODE",
 "Every choice of adjoint yields the same forward solution, and the backwards-in-time augmented system of the continuous adjoint is exactly the original dynamics together with minus the vector-Jacobian products with respect to state and arguments, started from the output cotangents and accumulating a cotangent at every saved time. "
 "Unsupported combinations are rejected up front rather than returning wrong gradients.",
 ["inputs", "programs", "configurations"], "all vector fields, states, arguments, cotangents and saved times",
 "Gradient tests compare a few problems numerically.",
 ["diffrax/_adjoint.py"],
 [("AdjointTerm", "diffrax/_term.py:AdjointTerm"), ("BacksolveAdjoint", "diffrax/_adjoint.py"), ("loops", "diffrax/_adjoint.py:_inner_loop/_outer_loop")], ["solution and gradients"])

prop("C19", "Implicit solves only succeed when converged, and failures are never masked",
 "The chord root finder iterates the Newton map of the supplied function with the frozen Jacobian, and reports success only when its displacement test for convergence is met, failing on divergence, non-finite values or the iteration limit. "
 "A step whose implicit solve failed is reported as failed with an infinite error estimate, so that an adaptive controller rejects it and any other solve ends with an error that no event or other outcome can hide; error reports raise exactly when a solve failed.",
 ["inputs", "programs", "fault_sequences"], "all functions, iterates, tolerances, failing stages at any position",
 "Tests exercise converging solves almost exclusively.",
 ["diffrax/_root_finder/_verychord.py", "diffrax/_root_finder/_with_tols.py", "diffrax/_solver/implicit_euler.py", "diffrax/_solver/runge_kutta.py", "diffrax/_solution.py", I],
 [("VeryChord.step/terminate", "diffrax/_root_finder/_verychord.py"), ("result propagation", "diffrax/_solution.py:update_result")], ["Solution.result", "y_error"])

prop("C20", "Stopping and resuming a solve continues it unchanged",
 "A solve given the solver state, controller state and jump flag saved from a previous solve uses exactly those instead of reinitialising, and the states a solve hands back are those after its last accepted step, so that continuing from them behaves as the uninterrupted solve. "
 "Solves are deterministic functions of their inputs: extra or nested save requests never change the steps taken.",
 ["inputs", "histories", "configurations"], "all solvers/controllers with state, all split points, all save settings",
 "Tests resume once with one solver.",
 [I], [("state pass-through", I + ":diffeqsolve")], ["Solution.solver_state, controller_state, made_jump"])

prop("C21", "Batching a solve over a leading axis gives the unbatched results",
 "Mapping a solve over a batch with jax.vmap gives, for every batch element, the result of solving it alone (statistics, returned states and error codes included), regardless of how many steps the other elements take, which of them stop at an event and which fail; up to the tolerance of the root finder where stages are implicit.",
 ["inputs", "configurations"], "all batches of problems", "Tests batch two or three problems.",
 [I, "diffrax/_adjoint.py"], [("buffered loops", "diffrax/_adjoint.py:_inner_loop"), ("masking", I + ":loop")], ["Solution under vmap"])

prop("C22", "Default gradients are the derivatives of the computed discrete solution",
 "Derivatives of everything a solve returns (saved values and times, dense output, the located event, the returned states), taken through the default checkpointing adjoint in reverse mode, for any number of checkpoints, "
 "or through ForwardMode and DirectAdjoint, equal the derivative of the discrete computation that the solve performed: of every solver's step, every accepted step in turn, interpolation and saving, "
 "with respect to the initial value, the arguments, the vector field's parameters and the times. Implicit stages and located events are differentiated by the implicit function theorem. As documented, the step sizes an adaptive controller picks "
 "(including an automatic first step) are held fixed. Rejected steps contribute nothing.",
 ["inputs", "configurations"], "all problems, solvers, save settings and checkpoint counts; away from ties and branch boundaries where no derivative exists",
 "Tests compare gradients on a few problems; a stop_gradient, a buffer written twice or a wrongly closed-over value changes only derivatives, which most tests never look at.",
 [I, "diffrax/_adjoint.py", "diffrax/_solver", "diffrax/_local_interpolation.py", "diffrax/_step_size_controller"],
 [("main loop and its buffers", I + ":loop, _inner_buffers, _outer_buffers"), ("checkpointed loops", "diffrax/_adjoint.py:RecursiveCheckpointAdjoint.loop"), ("stages and their buffers", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"),
  ("step sizes held fixed", "diffrax/_step_size_controller/pid.py:PIDController.adapt_step_size")], ["jax.grad", "jax.jvp"])

prop("C23", "Progress meters report how far the solve has got and change nothing else",
 "A progress meter is opened once before a solve and closed once after it. After every attempted step it is told the fraction of the interval from t0 to t1 that the solver has covered: never decreasing, increasing with every accepted step, reaching 1 exactly at t1 (0 if t0 equals t1), "
 "also when integrating backwards. Nothing the solve returns depends on the meter, nor do its derivatives with respect to any input, the times included. The text meter prints a line exactly when the progress has grown by more than its minimum increase since the last line, or is complete; "
 "the bar is refreshed on every refresh_steps-th step; a batch has one display, which shows its slowest element; every solve has its own display, which is completed and forgotten at its end.",
 ["inputs", "configurations", "histories"], "all problems, solvers, controllers, meters, batches and derivatives",
 "Tests read the output of one problem; none differentiates with respect to the times.",
 ["diffrax/_progress_meter.py", I], [("meters", "diffrax/_progress_meter.py"), ("calls of the meter", I + ":loop, diffeqsolve"), ("fraction covered", "diffrax/_misc.py:linear_rescale")],
 ["AbstractProgressMeter.step", "printed output", "Solution with and without a meter"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
