import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L='LinearResponseVariationalBayes/'
SO,PA,MP,PD,MS,OU,CG,SP,PJ=[L+x for x in ('SparseObjectives.py','Parameters.py','MatrixParameters.py','ParameterDictionary.py','ModelSensitivity.py','OptimizationUtils.py','ConjugateGradient.py','SimplexParams.py','ProjectionParams.py')]

p("C01","Evaluations depend only on their arguments and current parameter values",
"An objective's value, gradient, Hessian, Jacobian and Hessian-vector product (one- or two-parameter, free or vector coordinates, any extra arguments), and a converter's output and Jacobians, equal those of the composed mathematical function at the point passed in, given the current values of the other parameters the user's function reads. This holds after any history of evaluations, derivative requests, updates, failures and interruptions by any code that shares the same parameter objects. Results are always plain numbers of the right shape.",
["histories","schedules","fault_sequences"],"every interleaving of operations by several clients sharing parameter objects, with the user's function failing at any of its calls, malformed or interrupted calls in between",
"The tests evaluate each derivative once or twice on a freshly set parameter and never after a failure; the defect needs residue from another client's earlier (possibly aborted) call.",
[SO,PA,PD],[("set the parameter, call the function, restore the parameter","Objective, TwoParameterObjective, ParameterConverter in "+SO)],["return values of the derivative methods"],
[("parameter values","shared mutable state read by every client",PA+", "+MP)])
p("C02","Derivative requests leave parameters numeric and where they belong",
"After any derivative request on an objective or converter, whether it returned, was refused or the user's function raised, every parameter involved holds ordinary numbers: those evaluated at hold the point that was passed in, all others (including a converter's output parameter) hold the values they had before. Asking a parameter for the Jacobian or Hessian of its own free-to-vector transformation leaves its value unchanged, and converting a vector Hessian to a free Hessian leaves it at the given free point.",
["histories","fault_sequences"],"every derivative entry point, parameter kind and call history, with the user's function raising at any of its invocations",
"Tests read parameters back after a few successful calls only; none makes the user's function raise, and transformation Jacobians are always followed by an explicit reset.",
[SO,PA,MP,MS],[("cache the point, differentiate, set the point back","cache_free_and_eval / cache_vector_and_eval / cache_and_eval"),("transformation derivatives","free_to_vector_jac, free_to_vector_hess, convert_vector_to_free_hessian")],["get, get_free, get_vector after the request"])
p("C03","Every view of a parameter store reads the latest write",
"After any interleaving of writes by value, by free vector and by flat vector, made through a composite, through one of its components or through a by-name view, every read through any of those views returns exactly what the latest write to each component put there, and a write to one component changes no other. Sizes and index ranges reported for the composite always match the vectors it packs and unpacks.",
["histories","schedules"],"every sequence of writes and reads by several writers over any nesting and mix of parameter kinds, including reads and writes after refused ones (each composite complete before it is nested in another)",
"Tests write and read back once per kind in a fixed four-component dictionary; they do not interleave views, nest composites or mix failed writes in.",
[PD,PA,MP,SP,PJ,L+'NormalParams.py',L+'WishartParams.py'],[("offset bookkeeping of the composite","push_param, set_free, set_vector, get_free, get_vector in "+PD)],["get, get_free, get_vector, values view, dictval"],
[("index ranges","where each component lives in the packed vectors",PD)])
p("C04","Updates that do not fit are refused and change nothing",
"A flat or free vector with the wrong number of elements, a matrix, array or simplex value of the wrong shape, a non-symmetric matrix and a second component with a name already in use are refused with an error and leave the parameter, its siblings and all reported sizes exactly as they were. When a composite update fails part-way for a numerical reason each component holds entirely its old or entirely its new value. The next fitting update then takes full effect.",
["histories","fault_sequences"],"every malformed or numerically impossible update delivered at any point of any history of valid updates, to any parameter kind, alone or nested",
"Tests check four refusals on fresh parameters and never look at the state afterwards, nor at matrix arrays, scalars or composites.",
[PA,MP,SP,PJ,PD],[("size and shape checks before assignment","set, set_free, set_vector of every parameter class")],["exceptions, sizes and values after the refusal"])
p("C05","Flat vectors passed in or handed out are never shared with the caller",
"Overwriting, after the call, a flat or free vector that was passed to a parameter, objective, optimisation log, sensitivity object or conjugate-gradient solver, or that a parameter returned, changes no parameter value, no recorded history and no later result. Conversely no call modifies the vectors it was given.",
["histories","schedules"],"every point of any history at which a caller (for example an optimiser that reuses its work arrays) overwrites any buffer it passed or received earlier",
"Tests never overwrite a vector after passing it; scipy optimisers used in tests happen to allocate a fresh point per evaluation.",
[PA,PJ,SP,PD,SO,MS,CG],[("copying on packing and unpacking","set_vector, get_vector, set_free, get_free"),("deep copies of base points","set_base_values, set_optimal_input_par")],["parameter reads, logs and predictions after the overwrite"])
p("C06","Deep copies share nothing with the original",
"A deep copy of a parameter, composite, index parameter, objective, two-parameter objective, converter, sensitivity object or model object containing them is a separate system. Any operation on one of the two, completed or failed, neither changes nor reads the parameters, data, log, preconditioner or base point of the other.",
["histories","schedules","fault_sequences"],"every interleaving of operations on an original and its copies, copies taken at any moment, with failing calls",
"The tests deep-copy parameters to differentiate them but never look at the original afterwards, and never copy an objective or model.",
[PA,MP,SO,MS],[("derivative functions bound to the object that owns them","constructors of ScalarParam, PosDefMatrixParam, Objective, TwoParameterObjective, ParameterConverter; __setstate__ of the latter and of the Taylor expansion")],["values and results of both systems"])
p("C07","The optimisation log is a faithful record of completed evaluations",
"With logging on, an objective's log gains exactly one entry per completed function evaluation, in order, pairing the value with the unconditioned point where it was computed, and its evaluation count always equals the number of entries, also when the optimiser reuses its arrays, the function raises, or the report callback or output stream fails. A report is issued for every print_every-th evaluation starting with the first, through the callback if one is set and to standard output otherwise. Starting a minimisation clears the log unless it was asked to keep it, and evaluations with logging off leave it untouched.",
["histories","fault_sequences"],"every sequence of logged and unlogged evaluations, conditioned or not, with function, callback and stream failures at any call and buffers reused by the optimiser",
"No test reads the log back at all.",
[SO,OU],[("append-only arrays plus counter","Logger.log and Logger.initialize in "+SO),("log reset","minimize_objective_* in "+OU)],["logger arrays, counter, callback invocations, captured output"])
p("C08","Minimisation gives the right optimum whatever happened before",
"Started from any point on an objective with any history (earlier runs aborted by the user's function at any evaluation, preconditioners replaced, parameters moved), each minimisation routine reaches the minimum a fresh objective would reach. Start and result are in original free coordinates whether or not a preconditioner is in force, and the returned point maps exactly from the solver's final point. A run resumed from the last logged point of an aborted one reaches the same minimum.",
["histories","fault_sequences","configurations"],"every abort point, preconditioner (dense, asymmetric, replaced between runs), method and starting point on strictly convex objectives",
"Tests minimise one quadratic from one start with no failures and a preconditioner that is symmetric.",
[OU,SO],[("change of coordinates around the solver","minimize_objective_trust_ncg, minimize_objective_bfgs"),("conditioned evaluations","fun_free_cond and friends")],["returned optimum and solver result"])
p("C09","Repeated optimisation follows its stopping protocol exactly",
"Repeated optimisation calls the optional initial optimiser once, then feeds each optimiser call the previous call's result, at least once and at most max_iter times, and stops after the first call for which the L1 change in position, the change in value or the L1 norm of the gradient is strictly below its tolerance. It returns the last call's point and result object, the three criteria as evaluated for that call, whether any held, and, when asked, every intermediate result in order. An error raised by an optimiser or by the objective reaches the caller unchanged and without further optimiser calls.",
["schedules","fault_sequences","configurations"],"every behaviour of the optimiser callback: progress, stall, regress, non-finite values, errors at any call, any tolerances and budget of at least one",
"One test with a steadily converging optimiser; no stall, budget exhaustion, non-finite value or error, and no check of the flags.",
[OU],[("convergence loop","repeatedly_optimize in "+OU)],["optimiser callback invocations and the returned tuple"])
p("C10","Conditioned evaluations use the last preconditioner installed successfully",
"After any sequence of installing preconditioners, dense or sparse, directly or from a Hessian, some of whose computations fail, the conditioned value, gradient, Hessian and Hessian-vector product are those of the function composed with multiplication by the preconditioner installed last without failure. A failed installation leaves the previous one in force, and with none installed conditioned evaluations are refused. The one installed from a Hessian is the inverse square root of that symmetrised Hessian with its eigenvalues limited to the requested range.",
["histories","fault_sequences"],"every interleaving of installations, failures of the function or the factorisation inside an installation, and conditioned or plain evaluations",
"Tests install one preconditioner per objective and never fail or replace it.",
[OU,SO],[("assignment after all computation","set_objective_preconditioner in "+OU),("chain rule with the preconditioner","fun_free_*_cond in "+SO)],["conditioned results, preconditioner attribute"])
p("C11","Conjugate-gradient subset solves are recorded once, aligned and in order",
"Each finished subset solve adds exactly one aligned record of mask, masked vector, solution, solver status and time, in the order of the masks; a failing Hessian product or output stream adds nothing for the subset in progress, so continuing with the remaining masks yields the records of an uninterrupted run. Each solution reported as converged solves the Hessian at the construction-time base point for that masked vector to the solver's tolerance, whatever was solved before, and resetting empties all records. The masks generated for a length partition it into consecutive non-empty blocks of at most the requested size.",
["histories","fault_sequences"],"every failure point inside a sequence of subset solves, retries, resets, preconditioners, mask layouts and reuse of the caller's base-point array",
"One uninterrupted test run of five masks.",
[CG],[("append all fields only after the solve","get_hinv_vec_subsets in "+CG)],["the solver's record lists"])
p("C12","Recorded durations are true elapsed time, never wall-clock artefacts",
"Each duration recorded by the timer is the real time elapsed between the latest start and the stop, and each recorded conjugate-gradient time covers that subset's solve only. Adjustments of the wall clock in either direction between or during the measurements do not show: durations are never negative and never include the jump. A named duration is recorded even if printing it fails, and other names are kept.",
["schedules","fault_sequences"],"every pattern of wall-clock jumps, slow or stalled callbacks and output failures around timed sections",
"No test controls a clock or reads a duration.",
[SO,CG],[("clock reads around the timed section","Timer in "+SO+", get_hinv_vec_subsets in "+CG)],["time_dict, times, printed output"])
p("C13","Sensitivity answers always refer to the base point they were built for",
"Derivatives of the optimum in the hyperparameter, Taylor predictions of every order up to the declared one and linear predictions of input and output parameters are the exact ones at the base point and base Hessian the sensitivity object was given, in the coordinates (free or vector) declared for each parameter. This holds however other code moves the parameters, evaluates, fails, or reuses its vectors or the Hessian it gave between calls, and after a failed sensitivity call. Each evaluation of a Taylor derivative, completed or failed, puts the parameters back to the base point.",
["histories","schedules","fault_sequences","configurations"],"every interleaving of sensitivity queries with other users of the same parameters, failures of the user's function at any call inside a query, all coordinate choices and orders up to four",
"Tests query once, immediately after construction, up to order three, with default coordinates and a base Hessian equal to the recomputed one.",
[MS,SO],[("base values stored and re-imposed","set_base_values, cache_and_eval in "+MS),("linear response","ParametricSensitivity in "+SO)],["predictions, derivatives and parameter values after each query"])
p("C14","Moving a sensitivity object to a new base point is all or nothing",
"If moving a sensitivity object to a new base point fails, because the user's function raises or the Hessian there is not positive definite, its base point, derivatives and predictions are exactly those it had before. If it succeeds all later answers refer to the new point.",
["histories","crash_points","fault_sequences"],"every failure point inside a change of base point, for each kind of sensitivity object, followed by any queries and retries",
"No test changes the base point after construction.",
[MS,SO],[("recompute Hessian, factor and cross-Hessian","set_base_values in "+MS+", set_optimal_input_par in "+SO)],["queries after the failed move"])
p("C15","A session restarted from its saved parameters continues as if never stopped",
"For any parameter kind or composite, the free vector, the flat vector and the value dictionary read at any moment can be written as JSON to storage and restored into a newly constructed parameter of the same description, which then holds exactly the same state. A computation that crashes at any instant and is restarted from its last durable checkpoint therefore gives the results of an uninterrupted one, with no other hidden state involved.",
["crash_points","fault_sequences","histories"],"every crash instant inside library code or storage operations, torn, lost and failed writes, any checkpoint format and parameter description",
"Tests never leave the process or reconstruct a parameter from stored text.",
[PD,PA,MP,SP,PJ,L+'NormalParams.py',L+'GammaParams.py',L+'WishartParams.py',L+'DirichletParams.py'],[("serialisable state","get_free, get_vector, dictval and their inverses")],["state and results after restart"])
p("C16","Stored sparse matrices come back identical or not at all",
"A sparse matrix of finite numbers packed for pickling or as JSON, stored, and unpacked in another process equals the original in shape, element type, and every element, including empty rows, trailing empty columns, explicitly stored zeros (which stay stored) and matrices with no entries, and packing leaves the original alone. A stored record with a missing or truncated part, or with the wrong type label, is refused with an error and never yields a matrix.",
["inputs","fault_sequences","crash_points"],"every matrix and every truncation or loss of parts, or wrong type label, of its stored record, at any crash point of the store",
"One three-by-three matrix is packed and unpacked in memory; the JSON form is untested.",
[SO],[("pack and unpack","pack_csr_matrix, unpack_csr_matrix, json_pack_csr_matrix, json_unpack_csr_matrix in "+SO)],["unpacked matrices and errors after restart"])
p("C17","Calls neither disturb nor depend on process-wide state",
"No library call, completed, failed or interrupted, changes the process's random-number state, warning filters, floating-point error handling, print options, clock, environment, working directory or standard streams, and none prints anything unless it was asked to. The results of any session are the same under any random seed, hash seed, clock reading, non-raising floating-point error setting, print or warning setting and state of the output stream.",
["configurations","fault_sequences","histories"],"every session replayed under different seeds, clocks, hash orders and warning settings, with failures and interrupts at any point inside library code",
"Tests run in one environment and look only at results.",
[PA,SO,OU,CG,MS,SP,MP],[("scoped warning filters","free_to_vector_hess in "+PA),("no global state","whole package")],["process-global state before and after each call; transcripts of twin sessions"])
p("C18","Independent sessions on concurrent threads do not interfere",
"Sessions that share no parameter, objective or solver object, run on separate threads under any interleaving, produce exactly the values, gradients, Jacobians, logs, conjugate-gradient records and stored states they produce when run alone. A failure in one session does not affect another.",
["schedules","fault_sequences"],"every interleaving of the threads at user-function calls and at any line of library code, with failures in some sessions (second and higher derivatives excluded: the automatic differentiation dependency's trace counter is not thread-safe)",
"Tests are single-threaded.",
[PA,SO,CG,PD],[("state kept per object, none at module level","whole package")],["transcripts of each session"])
p("C19","Moments, entropies, priors and helpers answer for what they are given now",
"Every moment, entropy and expected prior of a distribution object is that of the named distribution at the values the object holds at the time of asking, and every helper function (entropies, expectations, priors, quadrature, regression, logistic terms, index masks, sub-matrices, matrix roots) computes what it is named for from the contents of its arguments at the time of the call; a new object or a newly imported library gives exactly the same for the same values. This holds after any history of writes by any route, in-place changes of arrays, differentiation, refused or failed updates, failures and interrupts of earlier calls, copies and transfers of moments between objects. Asking changes neither the object nor the arguments, and an answer once given is the caller's: later calls do not change it, and overwriting it has no effect on later answers (an answer that is the stored value itself is the stored value).",
["histories","fault_sequences"],"every history of writes, in-place changes, queries, derivative requests, failures, interrupts and copies for all distribution kinds and helper functions",
"Tests ask each object once right after construction or one write, and each helper once.",
[L+'NormalParams.py',L+'GammaParams.py',L+'WishartParams.py',L+'DirichletParams.py',L+'ExponentialFamilies.py',L+'Modeling.py',L+'regression_utils.py'],[("moments computed from the stored values on every call","methods of the distribution classes"),("stateless functions","ExponentialFamilies, Modeling, regression_utils")],["returned values after a history"])
n=lambda *a: p(*a)
def na(id,title,statement,over,text,why,files,mech):
    p(id,title,statement,over,text,why,files,mech,["return values"])
na("N01","Free and constrained parameterisations are inverse to each other","For every parameter kind and bounds, converting a legal value to its free vector and back, or a free vector to a value and back, returns what was started from up to rounding.",["inputs"],"all legal values and free vectors, all bounds and shapes","A handful of values per kind are tried.",[PA,MP,SP,PJ],[("constrain/unconstrain","pack/unpack functions")])
na("N02","Any free vector gives a legal value","Every finite free vector within floating-point range maps to a value within bounds, positive definite above its diagonal bound, on the simplex or in the subspace, and default values are legal.",["inputs"],"all free vectors","Only default and a few random values are tried.",[PA,MP,SP,PJ],[("constrain","constraining functions")])
na("N03","Sparse transformation derivatives equal the true derivatives","The sparse Jacobian and Hessians of the free-to-vector map equal the derivatives of that map for every kind, and for composites appear at the components' offsets.",["inputs"],"all parameter kinds, shapes, nestings and points","One random point per default-size parameter.",[PA,MP,SP,PJ,PD],[("hand-coded derivatives","free_to_vector_jac, free_to_vector_hess")])
na("N04","Vector Hessians convert to the correct free Hessian","Converting a dense or sparse vector-coordinate Hessian and gradient gives the Hessian of the same objective in free coordinates.",["inputs"],"all objectives and points","One model is tried.",[PA],[("chain rule","convert_vector_to_free_hessian")])
na("N05","Entropies equal the entropies of the named distributions","Every entropy function and method equals the differential or discrete entropy of the distribution it names.",["inputs"],"all legal distribution parameters","One parameter value each, compared with scipy.",[L+'ExponentialFamilies.py',L+'NormalParams.py',L+'GammaParams.py',L+'WishartParams.py',L+'DirichletParams.py'],[("formulas","*_entropy")])
na("N06","Moments and expected priors match their distributions","Every expectation, variance and expected log prior equals that of the distribution it names.",["inputs"],"all legal distribution parameters","Monte Carlo at a few values; several are only executed.",[L+'ExponentialFamilies.py',L+'NormalParams.py',L+'GammaParams.py',L+'WishartParams.py',L+'DirichletParams.py'],[("formulas","get_e_*, *_prior")])
na("N07","Numerical expectations converge to the integrals they approximate","Gauss-Hermite and quantile-draw expectations equal the Gaussian integral to quadrature accuracy for every shape of means and standard deviations.",["inputs"],"all shapes and values","A few values are tried.",[L+'Modeling.py',L+'ExponentialFamilies.py'],[("quadrature","get_e_fun_normal, get_e_logistic_term*")])
na("N08","Regression helpers give the exact conjugate posterior","Natural parameters, coefficients and posteriors equal those of Gaussian linear regression for every combination of leading dimensions.",["inputs"],"all array shapes","Five shapes are tried.",[L+'regression_utils.py'],[("einsum algebra","get_posterior_regression_coefficients")])
na("N09","Derivative-term algebra enumerates the total derivative exactly","Differentiating and consolidating expansion terms yields, at every order, exactly the terms of the total derivative with the right multiplicities.",["inputs"],"all orders and term lists","Orders up to three are compared numerically.",[MS],[("product rule","DerivativeTerm.differentiate, consolidate_terms")])
na("N10","Subspace parameters span exactly the orthogonal complement","The basis of a subspace parameter is orthonormal and spans the complement of the given rows for every full-rank constraint.",["inputs"],"all full-rank constraint matrices","One random matrix is tried.",[PJ],[("projection eigenvectors","get_perpendicular_subspace")])
na("N11","Sparse sub-matrices are placed at the requested indices","Embedding a dense block at given row and column indices yields the matrix with exactly those entries, adding where indices repeat.",["inputs"],"all blocks and index vectors","Untested.",[SO],[("placement loop","get_sparse_sub_matrix, offset_sparse_matrix")])
with open(ROOT + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
