#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
D="crates/linear/src/dense.rs"; LT="crates/linear/src/traits.rs"; LL="crates/linear/src/lib.rs"
N="crates/nonlinear/src/newton.rs"; NT="crates/nonlinear/src/traits.rs"; NL="crates/nonlinear/src/lib.rs"; W="crates/nonlinear/src/norm_wrms.rs"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))

lu=("LU factorisation with partial pivoting",D+" dense_get_rf")
rs=("permute, forward and back substitution",D+" dense_get_rs")
sd=("Dense::setup / Dense::solve",D)
nw=("two-level Newton loop",N+" Newton::solve")
piv=("pivots","row chosen at every elimination step of the last factorisation",D)
jc=("jcur","whether the Jacobian in use is known to be current",N)

prop("C01","A dense setup followed by solve really solves A x = b",
 "For every nonsingular square matrix A and right-hand side b of finite numbers (single or double precision, any size), factorising A and then solving returns Ok and an x whose residual b - A x is, in every component, within the rounding error of Gaussian elimination with partial pivoting. This stays true for badly scaled, nearly singular, sparse, permuted and structured matrices.",
 ["inputs"],"all finite nonsingular A (sizes 1 to 40 sampled), all finite b, f32 and f64, no overflow or underflow in the exact result",
 "The tests solve one 4x4 system and replay four 3x3 traces; row exchanges at other places, sizes and scalings are not reached.",
 [D,LT],[lu,rs,sd],[piv],["LSolver::setup","LSolver::solve"])
prop("C02","A successful setup leaves P A = L U with every multiplier at most 1",
 "After a successful factorisation the matrix that was passed in holds, strictly below its diagonal, multipliers of magnitude at most one and, on and above it, an upper triangle with a nonzero diagonal, and unit-lower times upper equals the original matrix with its rows reordered by some permutation, up to rounding. Every original row is used exactly once.",
 ["inputs"],"all finite nonsingular square A, f32 and f64, sizes 1 to 24 sampled",
 "Two fixed 3x3 factorisations are compared; no test varies the pivot order, ties, zero multipliers or the size.",
 [D],[lu],[piv],["matrix argument of LSolver::setup after it returns"])
prop("C03","Singularity is reported exactly when elimination meets a zero column",
 "Factorisation fails if and only if some elimination step finds no nonzero pivot candidate; it then returns the singular-matrix error carrying the 1-based number of the first such column (for exactly representable eliminations: the smallest k whose first k columns are linearly dependent), and names that column in its message. It never rejects a nonsingular matrix because of tiny, huge or unevenly scaled entries.",
 ["inputs"],"matrices whose elimination is exact in floating point (singular at a chosen column or nonsingular), structurally singular ones, and well-conditioned ones scaled by powers of two over the whole normal range",
 "No existing test factorises a singular matrix or one with extreme scaling.",
 [D,LL],[lu,("Error::LUFactFail",LL)],[],["Result of LSolver::setup","Display of linear::Error"])
prop("C04","Dense LU and solve reproduce the SUNDIALS arithmetic exactly",
 "In double precision the stored factors, the reported zero-pivot column and the solution are equal, number for number, to those of the SUNDIALS dense LU routines (denseGETRF/denseGETRS: first largest pivot, reciprocal scaling, column-oriented updates), as the README promises. This includes ties between pivot candidates, zero entries and wide exponent ranges.",
 ["inputs"],"all finite f64 matrices and right-hand sides, sizes 1 to 24 sampled, ties and zeros over-sampled",
 "Two 3x3 factorisations and two solves of one problem are compared with recorded numbers; other pivot paths are not.",
 [D,"README.md"],[lu,rs],[piv],["LSolver::setup","LSolver::solve"])
prop("C05","A dense solver depends only on its last factorisation and the current b",
 "Over every history of setups, failed setups, solves and clones on any number of solver objects, each solve returns what a freshly created solver returns for the matrix last factorised by that object and the given b, bit for bit. Solving changes neither the factors nor b, ignores the initial content of x, the tolerance and any scaling vectors, may be repeated, and the solver always reports itself as direct with zero iterations and zero residual norm.",
 ["histories"],"sequences of up to 40 operations (setup, failing setup, solve, repeated solve, clone, scaling, queries) over several solver objects",
 "The tests use each solver object once, for one setup and one solve with a zeroed x.",
 [D,LT],[sd],[piv],["LSolver::*"])
prop("C06","Dense results do not depend on how matrix and vectors are stored",
 "Factorising and solving through borrowed views (sub-blocks of larger matrices, any row or column stride, rows used as vectors) gives bit for bit the result obtained with owned storage, and changes no element outside the views.",
 ["inputs","configurations"],"all finite systems, sizes 1 to 10, owned and strided view storage for matrix, x and b in all combinations",
 "The tests only use owned, contiguous storage.",
 [D,LT],[sd],[],["LSolver::setup","LSolver::solve"])
prop("C07","Reordering and power-of-two rescaling a system changes x predictably",
 "Scaling the whole matrix, the right-hand side or single unknowns (columns) by powers of two changes x by exactly the corresponding powers, and reordering the equations leaves x unchanged, exactly so when no two pivot candidates tie. Embedding a system as one block of a larger block-diagonal system leaves its part of x unchanged up to rounding.",
 ["inputs"],"all finite well-scaled nonsingular systems, all permutations and power-of-two scalings that avoid overflow and underflow, sizes 1 to 16",
 "The tests never relate the solutions of two systems.",
 [D],[lu,rs],[],["LSolver::setup","LSolver::solve"])
prop("C08","Any numbers at all are handled without panic and NaN is never swallowed",
 "For every matrix and right-hand side, including zeros, subnormal, huge, infinite and NaN entries, setup and solve return instead of panicking or hanging, and a reported column number lies between 1 and the size. If the right-hand side, or a matrix whose factorisation reports success, contains a NaN, the solution contains a NaN.",
 ["inputs"],"all bit patterns of f32 and f64, sizes 1 to 12",
 "The tests only feed ordinary finite numbers.",
 [D],[lu,rs],[],["LSolver::setup","LSolver::solve"])
prop("C10","The WRMS norm equals sqrt(mean((x_i w_i)^2))",
 "For every vector length from 1 up and all finite entries whose weighted squares neither overflow nor underflow, the weighted root-mean-square norm equals the square root of the sum of (x_i w_i)^2 divided by the number of components, to within a few units of rounding per component. Zero weights and zero entries still count in the number of components.",
 ["inputs"],"vectors of length 1 to several thousand, magnitudes 1e-100 to 1e100, signs, zeros; static, dynamic and borrowed storage",
 "One constant vector of length 32 is tested.",
 [W],[("norm_wrms",W)],[],["NormWRMS::norm_wrms"])
prop("C11","The WRMS norm behaves as a norm",
 "The WRMS norm is never negative, is zero exactly when every product x_i w_i is zero, scales exactly with power-of-two factors, obeys the triangle inequality, is monotone in every |x_i| and |w_i|, and does not change under sign flips, exchanging x and w, or reordering components (up to rounding); repeating both vectors leaves it unchanged. A NaN component yields NaN, an infinite one (with nonzero weights and no NaN) yields infinity, and neither argument is changed.",
 ["inputs"],"vectors of length 1 to 300 with mixed magnitudes, signs, zeros and non-finite entries, and pairs of them related by these laws",
 "One constant vector of length 32 is tested; no law relating two norms is.",
 [W],[("norm_wrms",W)],[],["NormWRMS::norm_wrms"])
prop("C20","Newton reports success only for an iterate its convergence test accepted",
 "When a Newton solve returns Ok, the last thing it did was to ask the problem's convergence test, the test answered converged, and the returned y is exactly the iterate that was tested, namely the initial iterate plus all corrections of that attempt. Conversely, as soon as the test answers converged the solve returns Ok and calls the problem no further.",
 ["inputs","histories"],"all problems: arbitrary scripted outcomes and values of residual, setup, linear solve and convergence test, sizes 1 to 6, several solves per solver object",
 "One problem that converges in a few steps with a fresh Jacobian is tested.",
 [N,NT],[nw],[jc],["NLSolver::solve","calls into NLProblem"])
prop("C21","Newton with a dense Jacobian finds the root to the requested tolerance",
 "For every smooth system with a nonsingular Jacobian at a root and an initial iterate close enough (in the Newton-Kantorovich sense), a Newton solve using the dense linear solver and the WRMS test returns Ok with a y whose WRMS distance from the root is within the tolerance (full Newton) or the contraction-rate multiple of it (Jacobian kept from the start), in no more iterations than the contraction predicts.",
 ["inputs"],"generated polynomial, exponential and trigonometric systems with a known root, sizes 1 to 6, tolerances 1e-2 to 1e-9, weights over six decades, full and modified Newton",
 "One 3-variable polynomial system with one start and one tolerance is tested.",
 [N,NT,W,D],[nw,lu,rs,("norm_wrms",W)],[],["NLSolver::solve"])
prop("C22","An affine system with its exact Jacobian is solved by one correction",
 "For every system F(y) = A y - c with A nonsingular and every start, the first Newton correction already reaches the solution to the accuracy of the linear solve, so a solve with the WRMS test returns Ok after at most two iterations, from any start and whatever y held before; starting at the solution leaves it in place.",
 ["inputs"],"all well-conditioned affine systems, sizes 1 to 10, all starts, both with a fresh Jacobian and with one kept from an earlier solve",
 "No affine problem and no start at the solution is tested.",
 [N,D,W],[nw,lu,rs],[jc],["NLSolver::solve"])
prop("C23","Every Newton solve stops: at most maxiters corrections, at most one retry",
 "Every Newton solve returns after finitely many calls: an attempt performs at most the configured maximum number of linear solves, and provided setup, once told the Jacobian is bad, brings it up to date or fails, there is at most one retry. If convergence fails with an up-to-date Jacobian, by divergence, by exhausting the iterations or by a recoverable failure of any callback, the solve returns the recoverable convergence error rather than continuing or inventing another outcome.",
 ["fault_sequences","histories"],"all scripted sequences of converging, non-converging, recoverable and fatal outcomes of every callback, maximum iterations 1 to 8, several solves per solver object",
 "No test lets an iteration fail to converge.",
 [N,NT,NL],[nw],[jc],["NLSolver::solve","number of calls into NLProblem"])
prop("C24","A convergence failure on a stale Jacobian restarts once with a fresh one",
 "If the iteration fails recoverably (divergence, iterations exhausted, recoverable failure of a callback during the iteration) and the Jacobian was not known to be current, the solve evaluates the residual at the initial iterate again, calls setup there flagged as bad Jacobian, restarts the iteration from the initial iterate with the full iteration budget, and returns the outcome of that second attempt. Setup is called first, flagged as good, exactly when the caller asked for it, and never more than once per attempt; a Jacobian known to be current is not set up again.",
 ["fault_sequences","histories"],"all scripted failure positions and Jacobian states, including states left behind by earlier successful or failed solves",
 "No test exercises the retry path.",
 [N,NT],[nw],[jc],["calls into NLProblem and their arguments"])
prop("C25","Unrecoverable problem errors stop Newton at once and come back unchanged",
 "Whichever callback (residual, setup, linear solve, convergence test) returns an unrecoverable error, at whichever call of whichever attempt, the solve makes no further call into the problem and returns that same error, with its cause; a recoverable failure of the residual or of setup before the iteration has begun is likewise returned at once. No error is ever turned into success or into a different error.",
 ["fault_sequences"],"every callback x every call index x every error value, singly (enumerated) and in random combinations with recoverable failures",
 "No test makes a callback fail.",
 [N,NL,NT],[nw,("Error enum and From<linear::Error>",NL)],[],["Result of NLSolver::solve","calls into NLProblem after the error"])
prop("C26","Newton's counters tell the truth over the life of the solver",
 "Over any history of solves on one solver object, the total iteration count equals the number of linear solves requested so far, the convergence-failure count equals the number of failed attempts so far (each failed solve counts one, plus one for every retry), and the current-iteration count is zero-based within the attempt: it is already correct when the convergence test is called and after the solve tells how many tests of the last attempt asked to continue, if that attempt got as far as iterating. A new solver starts at zero and counters never go down.",
 ["histories","fault_sequences"],"histories of up to 8 solves with scripted outcomes; counters read inside every convergence test and after every solve",
 "The single Newton test only prints the counters.",
 [N,NT],[("niters, curiter, nconvfails updates",N)],[("niters, curiter, nconvfails","public counters",N)],["get_num_iters","get_cur_iter","get_num_conv_fails"])
prop("C27","Newton hands each callback exactly the data its contract promises",
 "In every solve the residual is evaluated first at the initial iterate and then at each current iterate; setup receives the initial iterate and the residual there; each linear solve receives the current iterate and exactly the negated latest residual; the convergence test receives the iterate after adding exactly the correction the linear solve returned, that correction, and the caller's tolerance and weights unchanged. The initial iterate is never modified and the previous content of the output vector has no influence.",
 ["inputs","histories"],"all residual and correction values (including zeros, signed zeros, huge and tiny numbers), sizes 1 to 6, scripted outcomes",
 "No test looks at the arguments of the callbacks.",
 [N,NT],[nw],[("delta","residual, then right-hand side, then correction",N)],["arguments of NLProblem callbacks"])
prop("C28","Newton follows the SUNDIALS call protocol exactly over any history",
 "For every problem and every history of solves on one solver object, the sequence of calls into the problem with their arguments, the results, the returned vector and the counters are those of the SUNDIALS Newton solver (SUNNonlinearSolver_Newton), including the Jacobian-current status carried from one solve to the next. Two solver objects never influence each other.",
 ["histories","fault_sequences"],"histories of up to 8 solves on up to two interleaved solver objects with scripted outcomes, all small outcome scripts enumerated exhaustively",
 "One solve of one problem is tested, by its final value only.",
 [N,NT,"README.md"],[nw],[jc],["calls into NLProblem","NLSolver::*"])
prop("C29","A singular Jacobian surfaces as a linear-setup error naming its column",
 "If the dense factorisation inside the problem's setup fails during a Newton solve, in the first attempt or in the retry, the solve returns the linear-setup-failed error whose cause is the original singular-matrix error with the same column, discoverable through the standard error source chain and both messages; the solver object remains usable, and a following solve of a regular problem succeeds as with a new one.",
 ["inputs","fault_sequences"],"generated systems whose Jacobian is singular at a chosen column at the first iterate or at the retry, sizes 1 to 6",
 "No test lets the factorisation fail.",
 [N,NL,LL,D],[nw,("From<linear::Error>",NL),lu],[jc],["Result of NLSolver::solve","std::error::Error::source"])
prop("C30","Newton results do not depend on how the vectors are stored",
 "Passing initial iterate, output and weight vectors as borrowed or strided views, or as parts of one larger array, gives bit for bit the same outcome, counters and callback arguments as owned vectors, and writes nothing except the output vector.",
 ["configurations","inputs"],"owned and strided view storage for each vector in all combinations, sizes 1 to 6, scripted and real problems",
 "The test uses owned vectors only.",
 [N,NT],[nw],[],["NLSolver::solve"])
prop("C31","Newton with the dense solver is covariant under power-of-two changes of scale",
 "Multiplying all residuals, or measuring each unknown in power-of-two different units with the weights adapted, changes the iterates of a Newton solve with dense Jacobian and WRMS test by exactly those factors and leaves iteration counts and outcome unchanged; reordering equations or unknowns changes them by rounding only.",
 ["inputs"],"generated nonlinear systems, sizes 1 to 6, all power-of-two scalings without overflow or underflow, all permutations, converging and failing runs",
 "No test relates two runs.",
 [N,D,W],[nw,lu,rs,("norm_wrms",W)],[],["NLSolver::solve"])


L="src/lib.rs"; SO="src/impl_solve.rs"; ST="src/impl_stop_test.rs"; RC="src/impl_r_check.rs"; CS="src/impl_complete_step.rs"
NLS="src/ida_nls.rs"; LS="src/ida_ls.rs"; IO="src/ida_io.rs"; TOL="src/tol_control.rs"; RMS="src/norm_rms.rs"; ROB="src/sample_problems/roberts.rs"; SLC="src/sample_problems/slider_crank.rs"; TR="src/traits.rs"
stepm=("one internal step: predict, Newton, error test, order and step choice",L+" step, set_coeffs, nonlinear_solve, test_error, restore, handle_n_flag"); comp=("order and step selection after a step",CS)
sol=("interpolating polynomial",L+" get_solution, get_dky"); rootm=("root search by sign changes and the Illinois method",RC+" r_check1, r_check2, r_check3, root_find"); stopm=("stop tests",ST+" stop_test1, stop_test2"); drv=("solve driver",SO)
hist=("phi, psi, kk, hh","scaled divided differences, step history, order and step size",L)
NT_="src is outside the built workspace and has no runnable end-to-end test; the unit tests replay single recorded calls of the Roberts problem."
prop("C40","The integrator returns the requested time and an accurate solution there",
 "For every index-0 or index-1 problem F(t,y,y')=0 with consistent initial values, a nonsingular Jacobian and attainable tolerances, integrating to any increasing (or, backwards, decreasing) sequence of output times succeeds. Each call reports exactly the output time asked for, and y there differs from the exact solution by no more than a moderate multiple of the requested relative and absolute tolerances in the weighted norm.",
 ["inputs","histories"],"generated contractive linear and mildly nonlinear systems, 1 to 5 components, algebraic components, stiffness to 1e4, tolerances 1e-2 to 1e-8, any sequence of output times, both directions, power-of-two units",
 NT_,[L,SO,NLS,LS,CS,TR],[drv,stepm,comp,sol],[hist],["Ida::solve","Ida::get_yy"])
prop("C41","Every internal step is the one IDA's algorithm prescribes",
 "For every problem, the internal steps are those of the variable-order, variable-coefficient BDF algorithm of IDA: the same order, step size, next order and next step, solution, and numbers of residual and Jacobian evaluations, error-test failures and convergence failures after every step, up to rounding. This includes limits on order, step and first step, and recovery from failed error tests, failed Newton iterations and singular Jacobians.",
 ["inputs","histories","fault_sequences"],"generated problems as for C40 and harder ones, up to 300 steps, maximum orders 1 to 5, step limits, wrong and temporarily singular Jacobians",
 NT_,[L,CS,NLS,LS,SO],[stepm,comp],[hist],["Ida::solve in single steps","getters of step, order and counters"])
prop("C42","Output times, queries and root functions do not disturb the integration",
 "The internal steps, orders and counters depend only on the problem, the tolerances and the first output time: returning at further output times, asking for interpolated solutions, calling in single steps or to an output time, watching root functions and reading any getter leave every later internal step unchanged, bit for bit. Two integrators never influence each other, and a clone continues exactly like its original.",
 ["histories"],"random interleavings of output times, single steps, interpolations, root functions and clones over generated problems",
 NT_,[SO,ST,RC,L],[drv,stopm,sol,rootm],[hist],["Ida::solve","Ida::get_solution","getters"])
prop("C43","Interpolated solutions and derivatives come from one smooth polynomial",
 "Within the last internal step, the interpolated solution and its derivatives of order up to the method order are the values and derivatives of one polynomial of that degree which passes through the last computed solutions, ending in the solution at the current time; output at the current time and via an output time agree with it. Times outside the last step and derivative orders beyond the method order are refused and change nothing.",
 ["inputs","histories"],"random problems and steps, random times within, at the ends of and outside the last step, all derivative orders, both directions of time",
 NT_,[L,SO],[sol],[hist],["Ida::get_solution","Ida::get_dky"])
prop("C44","Every sign change of a root function is found, once, in order, at its place",
 "For every set of user root functions, a sign change within a step is reported before the integration returns at any later time: the reported time lies within a few units of rounding of the crossing, y there is the interpolated solution, the flagged functions are exactly those that cross there with the direction of the crossing as sign, and roots come in the order of integration without repetition. Nothing is reported where no function crosses zero, functions identically zero at the start are ignored until they become nonzero, and a requested direction is respected.",
 ["inputs","histories"],"root functions with known zeros in t, in components of y and y', products, sines and initially zero functions, several at once, close and multiple roots, mixed with output times and single steps, both directions",
 NT_,[RC,SO,ST],[rootm,drv],[("tlo, thi, glo, ghi, gactive","last interval searched, values and activity of the functions",RC)],["Ida::solve returning Root","Ida::get_root_info"])
prop("C45","The stop time is never passed and is reported exactly once",
 "With a stop time set, no step or residual evaluation goes beyond it, and the integration returns the stop status exactly at the stop time with the accurate solution there, unless an output time comes first. Once reported, the stop time is forgotten and integration continues. A stop time behind the current time is refused before the problem is evaluated.",
 ["histories"],"random histories of stop times ahead, behind, equal to output times or to the internal time, output times and single steps",
 NT_,[ST,SO,L],[stopm,drv],[("tstop","stop time in force",L)],["Ida::solve","times of residual evaluations"],"setter for the stop time (added to a copy outside the repository; the port has none)")
prop("C46","Counters and callback arguments tell the truth about the integration",
 "After every call all counters equal what was actually done: residual, Jacobian and root function evaluations, Newton iterations, steps, failed error tests and failed convergences. Every Jacobian is asked for at the point of the residual just evaluated, with a zeroed matrix and the leading coefficient of the current order and step; every iterate keeps y and y' related by that coefficient, and the time advances by exactly the reported last step.",
 ["histories","fault_sequences"],"random problems, root functions, calls in both modes, wrong and temporarily singular Jacobians; every callback recorded",
 NT_,[NLS,LS,L,IO],[("IdaNLProblem sys, setup, solve, ctest",NLS),("idaLsSetup",LS),stepm],[("counters","nst, nre, nje, nni, netf, ncfn, nge",L)],["Residual::res, Jacobian::jac, Root::root calls","getters"])
prop("C47","Illegal requests and failures end in an error that leaves a usable state",
 "Illegal requests (first output time equal to the start, first step or stop time in the wrong direction, a zero tolerance for a zero component, more accuracy than the arithmetic allows) are refused with an error and, where correctable, have no effect on later calls. Transient failures of the problem (NaN residuals, singular Jacobians) are survived or end in an error, persistent ones end in an error after finitely many evaluations; time and solution returned are then those of the last good step, never NaN, and calling again works. A call gives up after exactly the maximum number of steps and can be continued as if it had not stopped.",
 ["inputs","fault_sequences","histories"],"random illegal first calls followed by legal ones, fault windows at any evaluation, tolerances down to and below what is attainable, calls longer than 500 steps",
 NT_,[SO,L,NLS,"src/error.rs"],[drv,stepm],[hist],["Result of Ida::solve","Ida::get_yy"])
prop("C48","Integration is covariant under changes of units and reversal of time",
 "Measuring time, the solution (with its absolute tolerances) or the residual in power-of-two different units, or running time backwards, changes every internal step, output and solution by exactly those factors and leaves orders and counters unchanged.",
 ["inputs","histories"],"generated problems, up to 200 steps with outputs in between, factors 2^-20 to 2^20, both directions, failed steps included",
 NT_,[L,CS,NLS,LS,SO],[stepm,comp,drv],[hist],["Ida::solve","getters"])
prop("C50","Error weights and integrator norms follow their definitions",
 "The scalar and the vector tolerance set each error weight to 1/(rtol |y_i| + atol_i), and the weighted root-mean-square norms equal sqrt(sum (x_i w_i)^2 / n), where masked-out components contribute nothing but still count in n. This holds for any length, number of dimensions, storage and precision.",
 ["inputs","configurations"],"vectors of 1 to 100 components and matrices, magnitudes 2^-66 to 2^66, f32 and f64, owned, row and strided storage",
 "Two constant vectors of length 32 are in unit tests that the build does not reach; the tolerances are not tested.",[TOL,RMS],[("ewt_set",TOL),("norm_wrms, norm_wrms_masked",RMS)],[],["TolControl::ewt_set","NormRms::norm_wrms","NormRmsMasked::norm_wrms_masked"])
prop("C51","The sample problems are the systems they document",
 "The Roberts sample's residual, Jacobian and root functions are those of the documented chemical kinetics system, and integrating it reproduces IDA's steps, conserves the sum of its components and finds the crossing of y3 = 0.01. The slider-crank sample's residual is that of the stabilised index-2 equations of motion of the mechanism, consistent with its constraints, their derivatives and its spring, damper and external force.",
 ["inputs"],"random points, directions and coefficients cj; runs with random tolerances and first output times",
 "The unit tests use the Roberts problem as test data without judging it; the slider crank is used nowhere.",[ROB,SLC],[("res, jac, root",ROB),("res, force",SLC)],[],["Residual::res","Jacobian::jac","Root::root"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
if __name__=="__main__":
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
    print(len(P))
