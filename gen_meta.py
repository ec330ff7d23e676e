#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


RA = "Radau5-NG/include/Radau5cc.hpp"
RO = "Rodas-NG/include/Rodascc.hpp"
K4 = "Rock4-NG/include/Rock4.hpp"
K4C = "Rock4-NG/include/Rock4Coeffs.hpp"
K4T = "Rock4-NG/include/coeffs-rock4"
TO = "Rock4-NG/include/ToolOMP.hpp"
RL = "Rock4-L/include/Rock4L.hpp"
MA = "common/include/Matrices.hpp"
FV = "common/include/fortranVector.hpp"
FA = "common/include/fortranArray.hpp"
SD = ["SDIRKL/include/Sdirkl.hpp", "SDIRKL/include/RKMethod1.hpp", "SDIRKL/include/RKMethod2.hpp", "SDIRKL/include/RKRS.hpp", "SDIRKL/include/CrN.hpp", "SDIRKL/include/EulerImp.hpp"]
SY = ["SymplecticRK/include/SymplecticRK.hpp", "SymplecticRK/include/GaussianMethod.hpp", "SymplecticRK/include/Extrap.hpp", "SymplecticRK/include/Ftest.hpp", "SymplecticRK/sage/generated_coeffs.hpp", "SymplecticRK/sage/generated_coeffs_co.hpp"]
TESTS = "The example programs integrate one or two fixed problems per solver and most of them only have to run to the end"
NOTE = "Random search with a fixed seed: no violation among the generated cases; not a proof. Trusts the compiler, LAPACK, and the oracle in long double."

prop("R01", "Radau5cc reaches xend with an error of the order of the tolerance",
     "Whenever the implicit Runge-Kutta integrator (Radau5cc) returns normally, x is xend (up to rounding) and, for dissipative problems, stiff or not, each component of y is the exact solution at xend up to a moderate multiple of absolute tolerance + relative tolerance*|y|. This holds for scalar and vector tolerances, forwards and backwards in x, for every declared matrix structure and Jacobian mode, and whatever the initial step proposed. The integration of such a problem does succeed.",
     ["inputs", "configurations"], "every dissipative right-hand side with smooth solution, tolerances, interval and direction, initial step, matrix structure",
     TESTS + ": none compares with an exact solution, none integrates backwards or uses vector tolerances.",
     [RA, MA, FV], [("step size control by the embedded estimate", RA), ("conversion of the tolerances", RA)],
     "property-based testing against exact solutions known by construction", NOTE + " The bound is statistical: 15 problems per typical case (median), and a loose bound for each problem.", ["Radau5cc::operator()"])
prop("R02", "Each accepted Radau5cc step solves the 3-stage Radau IIA equations",
     "Each accepted step of Radau5cc, from (x,y) with step h, gives the solution of the three-stage Radau IIA collocation equations (order 5), up to the precision at which the Newton iterations are stopped: well below the tolerance. This holds for every matrix structure, Jacobian mode, tolerance, direction and Newton limit; when the user asks for only one step, exactly one accepted step is done and x is advanced by its length.",
     ["inputs", "configurations", "histories"], "every right-hand side, state, step, Jacobian structure, and every step of a history",
     TESTS + ": a step of another method of lower order, or Newton iterations stopped too early, still reach the end.",
     [RA, MA], [("transformed stage equations and simplified Newton iterations", RA), ("stopping criterion fnewt", RA)],
     "property-based testing; differential against the Radau IIA step computed in long double", NOTE)
prop("R03", "Radau5cc: matrix structure and Jacobian mode do not change the result",
     "Declaring the Jacobian as banded, Hessenberg or full, and giving it analytically or by finite differences, changes neither the outcome nor, beyond the tolerance, the solution computed by Radau5cc, and does not significantly change the number of steps. On linear problems with a right Jacobian the Newton iterations converge at once in every structure.",
     ["inputs", "configurations"], "every problem whose Jacobian fits the declared structure; every structure and mode",
     TESTS + ", each with one structure; no two structures are ever compared.",
     [RA, MA, "common/include/Hessenberg.hpp", FA], [("finite difference Jacobian with grouped columns", RA), ("banded/Hessenberg/full linear algebra", MA)],
     "property-based testing; differential between configurations", NOTE)
prop("R04", "Radau5cc: error test and step size selection follow the published control",
     "Radau5cc accepts a step if and only if the error estimated by the published Radau5 formula (its second, filtered form on a first or previously rejected step) is below 1 in the norm scaled by the tolerances; an undefined estimate is a rejection. The next step then follows the published rule: classical control, or with Gustafsson's prediction when switched on, safety factor, the user's limits on growth and reduction, the previous step kept when it could only grow slightly, no growth just after a rejection, ten times smaller after a rejected first step, and the last step ends at xend. The right-hand side is never evaluated outside of the interval of integration.",
     ["inputs", "configurations", "histories"], "every problem, tolerances, controller options and history of accepted and rejected steps",
     TESTS + " with default options; no test observes the error estimate or the sequence of steps.",
     [RA], [("estrad error estimator", RA), ("step selection and Gustafsson's controller", RA)],
     "model-based testing of the history of steps; estimator recomputed in long double", NOTE + " The model is checked on linear problems (the estimate is then exact); limits are checked on nonlinear ones.")
prop("R05", "Radau5cc commutes with the symmetries of the problem",
     "Reversing time, translating time, changing the unit of time, rescaling the unknowns by constant factors (with the absolute tolerances), or renumbering the unknowns transforms the result of Radau5cc in the same way, up to a fraction of the tolerance, with the same work and the same last step (in the new unit, up to its sign for reversed time).",
     ["inputs", "configurations"], "every problem and its images under the five symmetries",
     TESTS + "; they never solve a problem twice.",
     [RA], [("direction of integration", RA), ("scaling of the error norm", RA)],
     "metamorphic property-based testing", NOTE)
prop("R06", "Radau5cc terminates, and reports success only when it has a solution",
     "Whatever the right-hand side and Jacobian do (NaN, discontinuity, blow-up, wrong Jacobian), whatever the interval and the initial step, Radau5cc stops within its limit on the number of steps (rejected and retried ones included): it returns at x=xend with finite y, or throws and leaves x and y finite. With regular functions it does not give up before this limit, and a call with x=xend returns at once with y unchanged.",
     ["inputs", "fault_sequences", "configurations"], "every fault of the user's functions at every call, every limit nmax, initial step and interval",
     TESTS + "; no test provokes a failure, and a run that never ends would only be seen on other inputs.",
     [RA], [("nmax, step size underflow test, retries", RA)],
     "property-based testing with injected faults", NOTE)
prop("R07", "A Radau5cc object can be reused; its counters and log tell what happened",
     "After any history of integrations with one Radau5cc object (completed, interrupted by an exception of the right-hand side or by a limit, with options changed and changed back), a new integration gives the same result and the same counters as with a new object. The numbers of evaluations, Jacobians, factorizations, steps, accepted and rejected steps, the Newton iterations of the last step, the first accepted and last step lengths that are reported agree with what really happened and with the log.",
     ["histories", "fault_sequences", "configurations"], "every sequence of integrations, options and faults on one object",
     TESTS + "; only BZ reuses an object, and the counters are printed but never checked.",
     [RA, "common/include/logger.hpp"], [("state reset at each call", RA), ("counters", RA)],
     "stateful property-based testing against a fresh object and recorded calls", NOTE)
prop("R08", "Radau5cc follows the published Newton strategy and reuses Jacobians safely",
     "The Newton iterations of each step start from the collocation polynomial of the preceding accepted step (from zero on the first step), use the published transformed systems, go on until the estimated remaining error is below the user's or default threshold, and give up and reduce the step when they diverge, are predicted too slow or reach the user's limit. The Jacobian is evaluated only at the current accepted point, with the value of the right-hand side there, on the first step and then only when convergence was slower than the user's threshold or after a failure.",
     ["inputs", "configurations", "histories"], "every problem, tolerances, Newton options and history of steps",
     TESTS + "; more iterations, a bad starting value or a useless Jacobian are not seen in the solution.",
     [RA], [("starting values, convergence estimate, stopping test", RA), ("decision to evaluate the Jacobian", RA)],
     "model-based testing: each evaluation compared with a reference implementation of the published algorithm", NOTE + " The comparison of a history ends at the first decision that rounding could change.")

prop("D01", "Rodascc reaches xend with an error of the order of the tolerance",
     "Whenever the Rosenbrock integrator (Rodascc) returns normally, x is xend (up to rounding) and, for dissipative problems, stiff or not, each component of y is the exact solution at xend up to a moderate multiple of absolute tolerance + relative tolerance*|y|. This holds for the three methods, scalar and vector tolerances, forwards and backwards, every matrix structure, analytic or numerical derivatives, autonomous or not. The integration of such a problem does succeed.",
     ["inputs", "configurations"], "every dissipative right-hand side with smooth solution, tolerances, interval and direction, initial step, structure, method",
     TESTS + ": none compares with an exact solution, none integrates backwards, is non-autonomous or uses vector tolerances.",
     [RO, MA, FV], [("step size control by the embedded estimate", RO), ("copy of the result", FV)],
     "property-based testing against exact solutions known by construction", NOTE + " The bound is statistical: 15 problems per typical case (median), and a loose bound for each problem.", ["Rodascc::operator()"])
prop("D02", "Each accepted Rodascc step is a step of the chosen Rosenbrock method",
     "Each accepted step of Rodascc, from (x,y) with step h, is the step of the published six-stage Rosenbrock method of order 4 that was chosen (1, 2 or 3), up to rounding, or up to the precision of the finite differences when derivatives are numerical. When the user asks for only one step, exactly one accepted step is done and x is advanced by its length.",
     ["inputs", "configurations", "histories"], "every right-hand side (autonomous or not), state, step, structure, method, and every step of a history",
     TESTS + ": a wrong coefficient lowers the order and the end is still reached.",
     [RO, MA], [("stages and coefficients", RO), ("time derivative for non-autonomous problems", RO)],
     "property-based testing; differential against the published method in long double", NOTE)
prop("D03", "Rodascc: structure, Jacobian mode and treatment of time change nothing",
     "Declaring the Jacobian as banded, Hessenberg or full, giving it and the time derivative analytically or by finite differences, or declaring an autonomous problem as such or not, changes neither the outcome nor, beyond the tolerance, the solution computed by Rodascc; with exact derivatives results and work agree much more closely still.",
     ["inputs", "configurations"], "every problem whose Jacobian fits the declared structure; every structure and mode",
     TESTS + ", each with one structure; no two structures are ever compared.",
     [RO, MA, "common/include/Hessenberg.hpp", FA], [("finite difference derivatives", RO), ("banded/Hessenberg/full linear algebra", MA)],
     "property-based testing; differential between configurations", NOTE)
prop("D04", "Rodascc: error test and step size selection follow the published control",
     "Rodascc accepts a step if and only if the embedded error estimate is below 1 in the norm scaled by the tolerances. The next step follows the published rule (order 4 control with safety factor, Gustafsson's prediction when switched on, growth at most 6, reduction at most 5 times, no growth just after a rejection, a rejected step always reduced, the last step ends at xend, and the step reported in the end is the next one proposed), and the right-hand side is not evaluated outside of the interval beyond the increment of the finite differences.",
     ["inputs", "configurations", "histories"], "every problem, tolerances, controller options and history of accepted and rejected steps",
     TESTS + " with default options; no test observes the error estimate or the sequence of steps.",
     [RO], [("error norm", RO), ("step selection and Gustafsson's controller", RO)],
     "model-based testing of the history of steps; estimate recomputed in long double", NOTE)
prop("D05", "Rodascc terminates, and reports success only when it has a solution",
     "Whatever the right-hand side and Jacobian do (NaN, discontinuity, blow-up, wrong Jacobian), whatever the interval and initial step, Rodascc stops within its limit on the number of steps (rejected ones included): it returns at x=xend with finite y, or throws with finite y. With regular functions it does not give up before this limit unless the step cannot be distinguished from zero, and a call with x=xend returns at once with y unchanged.",
     ["inputs", "fault_sequences", "configurations"], "every fault of the user's functions at every call, every limit nmax, initial step and interval",
     TESTS + "; no test provokes a failure, and a run that never ends would only be seen on other inputs.",
     [RO], [("nmax, step size underflow test, rejections", RO)],
     "property-based testing with injected faults", NOTE)
prop("D06", "A Rodascc object can be reused; its counters and log tell what happened",
     "After any history of integrations with one Rodascc object (completed, interrupted by an exception of the right-hand side or by a limit, with options changed and changed back), a new integration gives the same result, counters and log as with a new object. The numbers of steps, accepted steps, rejected steps (after the first accepted one), Jacobians and factorizations, the first accepted step, and the logged steps agree with what really happened.",
     ["histories", "fault_sequences", "configurations"], "every sequence of integrations, options and faults on one object",
     TESTS + "; no test reuses an object and the counters are printed but never checked.",
     [RO, "common/include/logger.hpp"], [("state reset at each call", RO), ("counters", RO)],
     "stateful property-based testing against a fresh object and recorded calls", NOTE)

prop("D07", "Rodascc commutes with the symmetries of the problem",
     "Reversing time, translating time, changing the unit of time, rescaling the unknowns by constant factors (with the absolute tolerances), or renumbering the unknowns transforms the result of Rodascc in the same way, up to a fraction of the tolerance, with the same work and the same last step (in the new unit, up to its sign for reversed time). With df/dt computed numerically, whose increment has an absolute minimum, changes of time agree within the tolerances only.",
     ["inputs", "configurations"], "every problem and its images under the five symmetries, every method and kind of Jacobian",
     TESTS + "; they never solve a problem twice.",
     [RO], [("direction of integration, steps", RO), ("scaling of the error norm", RO)],
     "metamorphic property-based testing", NOTE)
prop("C01", "Real and complex shifted systems are solved in every matrix structure",
     "For every matrix J that fits the declared structure (full, banded with any numbers of sub- and superdiagonals, Hessenberg reduction) and every regular shift, the solution of (f I - J)x = b and of ((a + i b)I - J)z = w has a residual at the level of rounding, over any history of new matrices, refactorizations with other shifts and repeated solutions. A matrix that is exactly singular is reported by an exception, after which the object can be used again.",
     ["inputs", "configurations", "histories"], "every matrix, shift, right-hand side, bandwidths, and sequence of operations",
     "The examples only reach these systems through solvers that tolerate an inexact solution; Hessenberg and most bandwidths are never used.",
     [MA, FA, "common/include/Hessenberg.hpp", "common/include/fortranComplexArray.hpp", "common/include/fortranRectangularArray.hpp"], [("decomr/decomc/solvereal/solvecomplex", MA), ("Householder/Hessenberg reduction", "common/include/Hessenberg.hpp")],
     "stateful property-based testing; residuals in long double", NOTE)
prop("C02", "Vectors and matrices: values, views, storage and index checks",
     "Every operation of the vectors (assignments, sums, linear combinations, exchange of storage, export, printing) gives its mathematical value in the target and changes no other vector, whatever aliases its operands; a copy of a plain vector is a view. Elements written to a full, banded or complex matrix are read back, lie where LAPACK expects them, and survive copies; in debug builds exactly the indexes out of a vector, a real matrix or a banded complex matrix are rejected.",
     ["inputs", "histories", "configurations"], "every sequence of operations on a pool of vectors, every size and bandwidths",
     "No test uses the containers by themselves; the solvers only use a few patterns, at a few sizes.",
     [FV, FA, "common/include/fortranComplexArray.hpp", "common/include/fortranRectangularArray.hpp", "common/include/fortranRectangularComplexArray.hpp"], [("operations", FV), ("storage of banded matrices", "common/include/fortranRectangularArray.hpp")],
     "model-based stateful property-based testing", NOTE)
prop("C03", "The log gives the events back in order, filtered by type",
     "The log returns every event put into it since it was last cleared, one numbered line each, in order, with its time, step, name and, for changes of step, the new value (to the 6 decimals printed). Selecting one or several types of events gives exactly the events of these types, and writing to a stream gives the same text.",
     ["inputs", "histories"], "every sequence of events and clears, every selection",
     "The examples print the log and never look at it.",
     ["common/include/logger.hpp"], [("put/tostring/clear", "common/include/logger.hpp")],
     "model-based property-based testing", NOTE)

prop("K01", "Rock4 integrates parabolic problems with an error of order of the tolerance",
     "Whenever the stabilized explicit integrator (Rock4) returns normally it has integrated exactly to tend and, for dissipative problems whose Jacobian has a real negative spectrum below the spectral radius that is declared, the error at tend is a moderate multiple of absolute tolerance + relative tolerance*|y|. It does succeed on such problems, whatever the stiffness, interval and tolerances, and whatever the initial step.",
     ["inputs", "configurations"], "every such right-hand side with smooth solution, spectral radius, tolerances, interval, initial step",
     TESTS + ": one reaction-diffusion problem, whose result is not compared with anything.",
     [K4, K4C, K4T], [("error estimate and step control", K4), ("choice of the number of stages", K4)],
     "property-based testing against exact solutions known by construction", NOTE + " The bound is statistical (median of 15 problems), plus a loose bound for each problem.")
prop("K02", "Rock4 is stable on the whole declared spectrum at every number of stages",
     "A step of Rock4 damps (up to one per cent of growth, which the published polynomials have) each linear mode whose eigenvalue is real and between minus the declared spectral radius and zero, whatever the number of stages this needs; it leaves zero modes unchanged and approximates the exponential to order 4. Integrating the heat equation never increases the norm, keeps the mean, and uses a number of stages adapted to the spectral radius.",
     ["inputs", "configurations"], "every eigenvalue in the spectrum, every step size and number of stages, any stationary shift",
     TESTS + ": one spectral radius, hence a few numbers of stages out of fifty.",
     [K4, K4C, K4T], [("stability polynomials", K4T), ("number of stages from the spectral radius", K4)],
     "property-based testing against stability and order bounds", NOTE)
prop("K03", "Rock4 gives the same results whatever the number of threads",
     "For a right-hand side that computes its components independently, Rock4 compiled with OpenMP gives, with any number of threads, the same outcome, the same numbers of steps, stages and evaluations and the same result (up to the rounding of sums) as compiled without it. On stiff problems, where rounding is amplified, results agree up to the tolerance.",
     ["schedules", "inputs", "configurations"], "every number of threads from 1 to 8, problem sizes from 1 unknown up, schedules of the OpenMP runtime",
     "The tests run one size with one number of threads and compare nothing; a data race shows up rarely.",
     [K4, TO, "common/include/AllocateDestroyVector.hpp"], [("partition of the vectors and reductions", TO)],
     "differential property-based testing, sequential against multi-threaded builds", NOTE + " Schedules are those that the OpenMP runtime takes while 8 threads are running; ThreadSanitizer is not used on libgomp.")
prop("K04", "A Rock4 object can be reused; its counters, log and buffers are right",
     "After any history of runs with one Rock4 object (other intervals and tolerances, failures, exceptions of the right-hand side) a new run gives bitwise the result and the counters of a fresh object, and results obtained before are not modified. Counters and log agree with the evaluations, steps and rejections that took place; the result is the end of the last accepted step, and an empty interval leaves the vector unchanged.",
     ["histories", "fault_sequences", "inputs"], "every sequence of runs, vectors and faults on one object",
     "One run per object in the examples; counters are printed but never compared.",
     [K4, "common/include/switchAdr.hpp", "common/include/logger.hpp"], [("exchange of buffers with the caller", K4), ("counters", K4)],
     "stateful property-based testing against a fresh object and recorded calls", NOTE)
prop("K05", "Rock4 has order 4, and its error estimator order 3, for every number of stages",
     "With each of its fifty numbers of stages, one step of Rock4 satisfies the eight order conditions for order 4 on nonlinear problems. Its error estimate vanishes on problems that the embedded method of order 3 solves exactly, and sees an error on those that it does not.",
     ["inputs", "configurations"], "every number of stages, step, and polynomial right-hand side realizing each order condition",
     TESTS + ": a handful of the numbers of stages, and an order too low still ends.",
     [K4, K4C, K4T], [("coefficients of the final four stages and of the embedded formula", K4C), ("recurrence coefficients", K4T)],
     "property-based testing; order conditions as exact relations", NOTE)
prop("K06", "Rock4: stages, error estimate, acceptance and step follow the published control",
     "Attempt by attempt, Rock4 takes the smallest available number of stages that is stable for the step and the spectral radius, accepts the step if and only if the embedded error estimate (scaled root mean square) is below 1, and chooses the next step by the published controller with memory, including the treatment of rejections and of the last step. The spectral radius is computed before the first step and again at least every ten accepted steps.",
     ["inputs", "histories", "configurations"], "every history of accepted and rejected steps, changing spectral radius, tolerances",
     TESTS + "; no test observes attempts, and errors in the control only change efficiency or accuracy.",
     [K4, K4C], [("error estimate and controller", K4), ("refresh of the spectral radius", K4)],
     "model-based testing of the whole history of attempts", NOTE)

prop("K07", "Rock4 commutes with the symmetries of the problem",
     "Rescaling the unknowns (with the absolute tolerance), changing the unit of time (with the spectral radius) or its origin, renumbering the unknowns, shifting them (without relative tolerance), or replacing the system by several copies of itself transforms the result of Rock4 in the same way, up to rounding and its amplification, and does not significantly change the numbers of steps, stages and evaluations. For changes of units by powers of two there is no difference, unless ten successive rejections make the step an absolute constant.",
     ["inputs"], "every problem and its images under the six symmetries",
     TESTS + "; they never solve a problem twice.",
     [K4], [("step selection and error norm", K4)],
     "metamorphic property-based testing", NOTE)
prop("L01", "Rock4L: order 4 and stability for linear problems, at every number of stages",
     "For linear problems y'=Ay+b with real negative spectrum, Rock4L with each number of stages has order 4, damps each mode between minus the spectral radius and zero (up to one per cent of growth per step), leaves stationary solutions unchanged, and integrates the heat equation to the accuracy of its time step.",
     ["inputs", "configurations"], "every matrix with such a spectrum, source, step, number of stages and steps",
     TESTS + ": one heat equation, one number of stages.",
     [RL, "Rock4-L/include/Rock4Coeffs.hpp", "Rock4-L/include/coeffs-rock4"], [("recurrence and final stages", RL)],
     "property-based testing against exact solutions", NOTE)
prop("L02", "Rock4L: affine and linear forms agree; superposition, time shift, splitting",
     "Rock4L applied to y'=Ay+b gives the same result as applied to the linear problem with one more unknown that represents the constant, and with b=0 the same as the linear form, with the same work. Its result depends linearly on the initial value, does not depend on the origin of time, and is the same when the steps are done in several calls.",
     ["inputs", "configurations", "histories"], "every matrix, source, initial values, step and number of steps",
     TESTS + "; two programs, one per form, compared with nothing.",
     [RL], [("affine specialization", RL)],
     "metamorphic and differential property-based testing", NOTE)
prop("L03", "Rock4L: equal steps ending exactly at tend, counters, refusals, reuse",
     "Rock4L divides the interval into equal steps not larger than asked (up to rounding), ends exactly at tend, and reports exactly the numbers of steps, stages and evaluations it did, its size and its time. It throws, with the vector unchanged, when more stages than available would be needed or when the form called (with or without source) is not the one declared; the source is never modified, and a reused object behaves as a fresh one.",
     ["inputs", "histories", "configurations"], "every interval, step, spectral radius, form, and history of runs of one object",
     TESTS + "; fixed interval and step that divides it.",
     [RL], [("loop on time and counters", RL)],
     "model-based property-based testing", NOTE)

prop("S01", "Each SDIRK method performs the steps of the Runge-Kutta method it is named after",
     "Each step of the linear SDIRK integrators (implicit Euler; Crank-Nicolson; RKRS, order 2 with 2 stages; RKMethod1, order 4 with 5 stages; RKMethod2, order 4 with 3 stages) equals the step of the Runge-Kutta method of that name applied to y'=Ay or y'=Ay+b, to rounding, with one linear system solved per implicit stage and the source left unchanged. Objects do not influence each other.",
     ["inputs", "configurations", "histories"], "every method, matrix, step size, source, sequence and interleaving of steps",
     TESTS + ": one heat equation per method, result not compared with anything.",
     SD, [("transformed stage computation", SD[0]), ("Butcher tables", SD[1])],
     "differential property-based testing against the definition in long double", NOTE)
prop("S02", "SDIRK methods: order and stability as published",
     "On linear dissipative problems of any stiffness no SDIRK method increases the Euclidean norm, and the L-stable ones (implicit Euler, RKMethod1) damp very stiff modes completely; each method converges with its published order.",
     ["inputs", "configurations"], "every dissipative (normal) matrix, step size and method",
     TESTS + ": one heat equation per method, result not compared with anything.",
     SD, [("Butcher tables", SD[1]), ("transformed stage computation", SD[0])],
     "property-based testing against stability and order bounds", NOTE)
prop("S03", "SDIRK with a source: stationary solutions, linearity, refusal of the wrong form",
     "With a constant source, the SDIRK integrators keep stationary solutions, and steps of the affine form differ from those of the linear form exactly by the stationary solution; results are linear in the initial value. A step called in the form (with or without source) that was not declared is refused with the unknowns unchanged, and later steps are not affected.",
     ["inputs", "histories", "configurations"], "every method, matrix, source, initial value, sequence of right and wrong calls",
     TESTS + ": sources are used by one program.",
     SD, [("affine form", SD[0])],
     "metamorphic property-based testing", NOTE)
prop("Y01", "SymplecticRK: each step is the Gauss collocation step, to rounding",
     "Whenever a step of the symplectic integrator reports convergence, the new value is that of the s-stage Gauss collocation method (order 2s) applied to the problem, up to the rounding of the unknowns and of the increment in the arithmetic chosen, for each s from 2 to 16, in double and in long double, for steps of either sign and when the step is changed. In long double the precision is that of long double.",
     ["inputs", "configurations", "histories"], "every right-hand side for which the iterations converge, number of stages, precision, step and sequence of steps",
     "The examples integrate planets with 8 stages and print the result; 14 of the 15 formulas and most precisions are never run, errors of 1e-12 per step are invisible.",
     SY, [("fixed point iterations and compensated summation", SY[0]), ("tables of coefficients", SY[4])],
     "differential property-based testing against the definition in higher precision", NOTE)
prop("Y02", "SymplecticRK conserves quadratic invariants, is symplectic and reversible",
     "As long as its steps converge, the symplectic integrator conserves quadratic invariants of the problem, and the symplectic product of tangent vectors of Hamiltonian problems, up to rounding: over long runs with small steps the drift stays at the level of rounding of the increments, thanks to compensated summation. Going back with the opposite step returns to the starting point up to rounding.",
     ["inputs", "histories", "configurations"], "every problem with a quadratic invariant, Hamiltonian, number of stages, step and number of steps",
     "The examples print the energy and compare it with nothing; invariants drift too slowly to be seen in a short run.",
     SY, [("coefficients satisfying Cooper's condition", SY[4]), ("compensated summation", SY[0])],
     "property-based testing of invariants over histories", NOTE)
prop("Y03", "SymplecticRK: truth of the reports, failed steps have no effect",
     "A step of the symplectic integrator returns true exactly when the iterations reached a fixed point, and then only; otherwise (limit on iterations, NaN, divergence, exception of the right-hand side) the unknowns are unchanged, and later steps are the same as with a new object. The number of iterations reported is the number done and never exceeds the limit; contractive steps converge except for rare cycles, and a number of stages out of 2 to 16 is refused by an exception.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every sequence of steps with faults of the right-hand side at any call, limits on iterations, steps",
     "In the examples a step that fails ends the program; no test goes on after a failure.",
     SY[:4], [("stopping test", SY[3]), ("state kept between steps", SY[0])],
     "stateful property-based testing with injected faults against new objects", NOTE)
prop("Y04", "SymplecticRK: starting values only save iterations",
     "The starting values of the iterations are those of the collocation polynomial of the preceding step when it converged with the same step size and the caller does not declare a first step, and the current value otherwise. They do not change the result of a step beyond rounding, and spare iterations on smooth orbits.",
     ["inputs", "histories", "configurations"], "every sequence of steps with changes of step size, declared first steps and failures",
     "The examples declare each step as the first one: the extrapolation is never run.",
     SY, [("extrapolation of the collocation polynomial", SY[2]), ("its coefficients", SY[5])],
     "model-based property-based testing of the history of calls", NOTE)
ALLF = [RA, RO, K4, TO, RL, MA, FV, FA, "common/include/logger.hpp", "common/include/AllocateDestroyVector.hpp"] + SD + SY[:4]
prop("M01", "No memory error, undefined behaviour or leak in any part",
     "Any use of the integrators, matrices, vectors and logs that respects their interface (any structure, size, option, several runs per object, exceptions thrown by the right-hand side, limits reached) reads and writes only memory that belongs to the objects used, has no undefined behaviour, gives back all its memory when the objects are destroyed, and does the same thing again when repeated.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every history of calls, faults and options, all integrators",
     "The examples use one size and structure each, end with success, and are not run with sanitizers; an access beyond an array or a leak changes nothing in what they print.",
     ALLF, [("work arrays of the integrators", RA), ("ownership of the vectors", FV), ("permutations of the buffers of Rock4", K4), ("allocation", "common/include/AllocateDestroyVector.hpp")],
     "property-based testing with fault injection under address and undefined behaviour sanitizers", NOTE)
prop("M02", "Results do not depend on what the memory contained before",
     "For every integrator, every history of runs on an object (with failures, limits and exceptions) gives the same results, counters and logs, bit by bit, whatever the storage of the object, the heap and the stack contained before: nothing is read before it was set.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every scenario and every previous content of the memory",
     "In the examples fresh memory is nearly always zero, which hides the use of values never set.",
     ALLF, [("members set at each call", RA), ("initialization of Rock4", K4), ("state of SymplecticRK", SY[0])],
     "metamorphic property-based testing: same scenario over memory filled with several bytes", NOTE)
prop("T01", "Objects are independent: interleaved and concurrent integrations",
     "Integrations with different objects do not disturb each other: when several integrations (of the same or of different integrators, with several runs, exceptions and limits) are interleaved in any order in the calls of the user's functions, or run in different threads, each gives bit by bit the results, counters and log that it gives alone, without data race.",
     ["schedules", "histories", "inputs"], "every schedule of switches between up to four integrations in the user's functions, every pair of integrators and configurations, threads",
     "Every example program builds its objects one after the other and runs them in one thread.",
     [RA, RO, K4, RL, "SDIRKL/include/Sdirkl.hpp", "SymplecticRK/include/SymplecticRK.hpp", MA], [("work arrays of the object", RA), ("factorized matrices", MA)],
     "property-based testing of schedules against runs alone, and under ThreadSanitizer", NOTE)
prop("I01", "Linear invariants (mass, charge, momentum) are conserved to rounding",
     "When a weighted sum of the unknowns is constant along the exact solutions (w.f(t,y)=0 for every y), every integrator conserves it to rounding error, whatever the step size, the tolerances, the rejected steps, the structure and the accuracy of the Jacobian given (as long as w.J=0), for either direction of integration. With a source of weighted sum s, Rock4L and Sdirkl make the sum grow by s times the time elapsed.",
     ["inputs", "histories"], "every network, every weights, every step size and tolerance, every sequence of accepted and rejected steps",
     "The examples print a few digits of the solution; none looks at an invariant, and an error below the tolerance in each step is invisible in them.",
     [RA, RO, K4, RL, "SDIRKL/include/Sdirkl.hpp", MA] + SY, [("the update is a linear combination of increments", RA), ("solves with factorized matrices", MA), ("recurrences whose coefficients sum to one", TO)],
     "property-based testing of an exact invariant over random conservative networks", NOTE)
prop("G01", "Compiler, optimization and build switches do not change the results",
     "The headers give the same outcomes and results, up to rounding, whatever the supported compiler (g++, clang++), the optimization level, and the switches of the library: ALIGN_BLOCKED, ON_STACK, DEBUG, logs.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every scenario, every combination of switches",
     "Each example is built with one set of switches, and with sizes for which alignment promises happen to be true.",
     ALLF + ["common/include/MacrosForCompilers.hpp"], [("alignment promised to the compiler", "common/include/MacrosForCompilers.hpp"), ("restrict and ivdep promises", TO), ("code under LOG and DEBUG switches", RA)],
     "differential property-based testing between builds", NOTE + " Four builds; on the current tree the three that have no fused operations agree to the last bit.")
NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, t, n in P:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --all", checks=[dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"], technique=t, level="exploration", level_note=n) for p, t, n in P], not_applicable=NOT_APPLICABLE,
             notes="Property-based testing engine in harness/pbt.*, one program per property in checks/, run by run.py. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p, t, n in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 3


main()
