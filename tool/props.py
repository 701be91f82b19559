# ---------------------------------------------------------------- claimed
LS = "Static analysis of clang's resolved AST and CFG of every unit the Makefile compiles, parsed from /repo's working tree on each run. "

prop("P01", "Copies of an element are independent of each other",
 "Points, vectors and linear operators share storage when they are copied and are separated on the first write. Changing one element, a component of a product, or the target of an assignment changes no other element: every write goes to storage the written element owns alone, the storage of a product is owned by the product, shared storage is released exactly once by its last owner, and data attached to an element never depend on memory owned by somebody else.",
 ["histories", "inputs"], "all sequences of copies, writes, component accesses and destructions, for all dimensions",
 "Two elements share storage only after particular histories of copies; the tests compare final objective values of a few runs.",
 ["Manifolds/SmartSpace.cpp", "Manifolds/Element.cpp", "Manifolds/", "Solvers/", "Problems/"], [("copy-on-write storage with a share counter", "Manifolds/SmartSpace.cpp: NewMemoryOnWrite, CopyOnWrite, CopyTo"), ("components that point into the storage of their product", "Manifolds/Element.cpp: ResetMultiElementsParams"), ("temporary data attached with AddToFields", "Manifolds/Element.cpp")],
 "typestate of raw data pointers; abstract interpretation of the share counter", LS + "Storage primitives are interpreted over {no storage, one owner, several owners}; every write through a raw data pointer in the library is an obligation of a flow-sensitive typestate. Pointers that leave a function through a container or a class member are not followed.")

prop("P02", "Derived data never outlive the contents they were derived from",
 "Factorizations and other data an element carries in its temporary fields always belong to its current contents. Every change of contents, shape or storage drops them (for a product, in all components as well); an assignment gives the target exactly the fields of the source; a factorization is reused only when all of its factors are present and every path of a factorization stores all of them; data kept with a point for later use depend on that point alone, and are not modified in place.",
 ["histories", "inputs"], "all sequences of writes, assignments, reshapes and factorizations",
 "Stale data need a write between two uses of the same factorization of the same object; the tests run the solvers' fixed patterns only.",
 ["Manifolds/Element.cpp", "Manifolds/", "Problems/"], [("Fields map and RemoveAllFromFields", "Manifolds/Element.cpp"), ("LUdecom, CholDecom, EigenDecomSym, HHRDecom, QRDecom, SVDDecom, SchurForm", "Manifolds/Element.cpp"), ("AddToFields in objective functions and manifold operations", "Problems/*.cpp, Manifolds/*.cpp")],
 "must-pass CFG analysis, pointer typestate and operand-dependence dataflow", LS + "Fields that are attached together with another operand by design (EGrad, beta, betaTReta, tau1tau2, nu1, nu2 and the data of the last Cayley retraction) are listed in the check and exempt from the dependence rule.")

prop("P03", "Updates keep what they do not change, and no undefined entry is ever used",
 "An operation that changes a part of an element leaves the other entries as they were, and an operation that computes an element from scratch gives every entry a value: old contents are given up only when all entries are written, both parts of complex entries, both triangles and the diagonal, and the first to the last position included. No data are read after they were given up and before they are written, or through a pointer to storage the element has left.",
 ["inputs", "histories"], "all dimensions and both sharing states of the written element",
 "Whether old entries survive depends on the element being shared at that moment, and uninitialised memory is often zero in a test run.",
 ["Manifolds/", "Problems/", "Solvers/"], [("ObtainWritePartialData / ObtainWriteEntireData / NewMemoryOnWrite", "Manifolds/SmartSpace.h and all users")],
 "typestate of raw data pointers; polynomial index-coverage analysis of filling loops", LS + "Reads are decided by a flow-sensitive typestate over all users; coverage of filling loops is decided by comparing index ranges with the declared dimensions as polynomials. Loops whose index is not an affine function of counted loop variables carry no coverage obligation.")

prop("P07", "Tangent vectors are used at the point they belong to",
 "Throughout a run of any solver, every tangent vector handed to an operation of the manifold or the problem (metric, linear combination, retraction, transport, operator application, line search slope) lies in the tangent space at the very point the operation is told, also after the iterates have been swapped and after a trial point has been overwritten. A vector computed at one point is never used at another without transport.",
 ["histories", "configurations"], "every path through every solver's iteration, with every line search, initial step size and update formula",
 "On the manifolds the tests use, most operations ignore the base point or are close to the identity for small steps, so a wrong one only slows convergence.",
 ["Solvers/"], [("run loops, line searches, update formulas", "Solvers/SolversSMLS.cpp, Solvers/SolversSMTR.cpp, Solvers/SolversNSMSubLS.cpp, Solvers/R*.cpp, Solvers/LR*.cpp, Solvers/*ManPG.cpp")],
 "path-sensitive abstract interpretation (property simulation) of every solver's Run", LS + "Interprets Run of every concrete solver class with calls on the solver resolved and inlined; a state records which locations hold equal points and in which tangent space each vector lies, and the direction given to a transport must be the one whose retraction is the target point. Vectors selected by run-time indices are not followed. Trusts the signature table of Manifold/Problem operations in sa/walk.py.")

prop("P08", "Reported results belong to the reported point",
 "When a solver stops, for whatever reason, the function value it reports is the objective at the point it reports, and for smooth solvers the reported gradient norm is that of the gradient at that point and the recorded series end with the values of that point. Stopping tests and user stopping functions see the value and gradient norm of the candidate they are asked about. Each result accessor returns the quantity it names.",
 ["histories", "configurations"], "every exit of every solver's run",
 "Early exits (failed line search, NaN, smallest trust region, restarts) are rarely taken in tests, and tests check convergence rather than the agreement of the reported numbers.",
 ["Solvers/"], [("run loops and their exits", "Solvers/SolversSMLS.cpp, Solvers/SolversSMTR.cpp, Solvers/SolversNSMSubLS.cpp, Solvers/ManPG.cpp, Solvers/AManPG.cpp"), ("accessors", "Solvers/Solvers.h, Solvers/SolversSM.h, Solvers/SolversNSM.h")],
 "path-sensitive abstract interpretation (property simulation) of every solver's Run", LS + "Same interpreter as P07; scalars carry the fact that they are the objective or the gradient norm at a point. For nonsmooth solvers only the function value is judged.")

prop("P09", "Operation counters equal the operations performed",
 "At the end of a run the counters nf, ng, nR, nV, nVp and nH equal the number of function, gradient, retraction, vector transport and Hessian evaluations that the run has made.",
 ["histories"], "every path through every solver's run",
 "Tests never compare counters with the number of calls.",
 ["Solvers/"], [("nf++, ng++, nR++, nV++, nVp++, nH++ and the calls they count", "Solvers/*.cpp")],
 "interprocedural counting dataflow over the CFGs (increments minus operations)", LS + "Per solver class, the set of possible differences at each block is propagated through inlined calls to a fixed point; any path on which it is not zero is reported. nV and nVp are compared by their sum. nH is judged only for methods that use the exact Hessian.")

prop("P10", "Objective, gradient and Hessian are evaluated in the order problems may rely on",
 "Solvers ask for the gradient only at a point object where they have evaluated the objective since the point got its value, and for the action of the Hessian only where they have evaluated the gradient, so that what a problem stores with the point in f is there in Grad and what it stores in Grad is there in HessianEta.",
 ["histories", "configurations"], "every path through every solver's iteration",
 "Problems in the tests recompute or tolerate missing data, and the order only breaks on rarely taken paths.",
 ["Solvers/"], [("Prob->f, Prob->Grad, Prob->HessianEta call sites", "Solvers/*.cpp")],
 "path-sensitive abstract interpretation (property simulation) of every solver's Run", LS + "Same interpreter as P07; each point object carries what has been evaluated at it, copied with the object.")

prop("P12", "Named run-time parameters reach exactly the setting they are named after",
 "Setting a solver or manifold parameter by its public name stores the given value, unaltered in type and precision, in the setting of that name, and changes no other setting. A class handles its own names and hands every name to its base class, so a name understood by a base class works on every derived solver. Names that a class does not know are ignored.",
 ["configurations", "inputs"], "every solver class, every documented parameter name and every value",
 "The tests set a few parameters per problem and only check convergence; a name that is ignored, truncated or stored elsewhere still converges.",
 ["Solvers/", "Manifolds/"], [("SetParams overrides walking a map of name/value pairs", "Solvers/*.cpp: SetParams"), ("Manifold::SetParams", "Manifolds/Manifold.cpp, Manifolds/Stiefel.cpp")],
 "AST/CFG rule: per-name assignment obligations", LS + "Decides, for each documented name, which attribute is assigned under that name, that no lossy conversion lies on the way, and that the base class is called on every path. Trusts the table of documented names.")

prop("P13", "Selecting an option selects exactly the algorithm variant it names",
 "For every value of an option (metric, retraction, vector transport, stopping criterion, line search, conjugate-gradient formula, initial step size, parameter set) the operation that depends on it runs the variant of that name and no other variant. A preset leaves every option with the value documented for it, option validity checks accept exactly the enumerated values, and printed option and status names are those of the value.",
 ["configurations"], "every combination of option values that is supported",
 "Each test fixes one combination; the others are never run, and two variants usually both converge.",
 ["Manifolds/", "Solvers/"], [("if/else and switch dispatch on option members", "Manifolds/Stiefel.cpp, Manifolds/Grassmann.cpp, Manifolds/SPDManifold.cpp, Solvers/RCG.cpp, Solvers/SolversSMLS.cpp"), ("enumeration name tables", "Solvers/Solvers.cpp, Solvers/SolversSMLS.cpp"), ("ChooseParamsSet1..5", "Manifolds/*.cpp")],
 "CFG reachability under option assignments", LS + "The CFG of each dispatcher is restricted by one assignment of its option members and the reachable implementations are compared with the table in sa/tables/dispatch.json (confirmed by reading). Does not judge the numerical content of a variant.")

prop("P14", "Specialised operations replace the generic ones through the base interface",
 "Every operation a manifold, problem or solver class specialises is the one that runs when the operation is invoked through the base Manifold, Problem or Solvers interface. No method silently hides an inherited virtual operation of the same name.",
 ["programs"], "every class derived from Manifold, Problem or Solvers and every virtual operation",
 "A hidden operation falls back on a generic default that is often close enough to converge, and most classes and operations are not run by the tests.",
 ["Manifolds/", "Problems/", "Solvers/"], [("virtual dispatch", "Manifolds/Manifold.h, Problems/Problem.h, Solvers/Solvers.h")],
 "class-hierarchy override/resolution analysis", LS + "Complete over the class records; the table of specialised operations is sa/tables/overrides.json.")

prop("P15", "Every supported build configuration compiles and links completely",
 "The library sources type-check and leave no library symbol undefined in every supported configuration: single or double precision, with or without FFTW, and with each diagnostic switch.",
 ["configurations"], "the product of the documented preprocessor switches (seven representative combinations)",
 "The tests are built in one configuration only.",
 ["Others/def.h", "Makefile"], [("SINGLE_PRECISION, ROPTLIB_WITH_FFTW, CHECKMEMORYDELETED conditionals", "Others/def.h and all sources")],
 "compile-and-link witness per configuration", "The type checker and the symbol tables of the object files decide. Objects are compiled, never run. Configurations that need MATLAB, Julia or Windows headers are not covered.")

prop("P16", "BLAS/LAPACK wrappers call the right routine with the right arguments",
 "Each overloaded linear-algebra wrapper calls exactly one library routine: the one of the wrapper's own name and of the element type of its arguments, and passes its arguments on, each exactly once and in order. Overloads of one name cover real precisions in pairs and complex precisions in pairs.",
 ["inputs", "configurations"], "all 128 wrapper overloads",
 "The double precision overloads of some wrappers are exercised; the single precision and most complex ones never run.",
 ["Others/BlasLapackCppWrapper.h", "Others/BlasLapackCppWrapper.cpp"], [("overload set per routine", "Others/BlasLapackCppWrapper.cpp")],
 "call-forwarding rule over the AST", LS + "Complete for the wrapper file. Trusts the prototypes and the BLAS naming scheme.")

prop("P18", "Linear algebra calls stay inside the matrices and workspaces they are given",
 "Every BLAS/LAPACK call made by the library addresses only storage that exists: the matrix described by dimensions and leading dimension fits the element or array passed for it, work arrays of documented size have at least that size, and a routine that reports its optimal workspace is asked with the very arguments it is then run with, gets an array of exactly the reported size, and is really run afterwards.",
 ["inputs"], "all dimensions, real and complex data",
 "An undersized workspace or a swapped dimension is invisible for square or small matrices and usually does not crash.",
 ["Manifolds/", "Problems/", "Solvers/", "Others/randgen.cpp"], [("LAPACK workspace protocol", "Manifolds/Element.cpp: HHRDecom, QRDecom, SVDDecom, EigenDecomSym, SchurForm, SYL"), ("gemm/getrs/ger call sites", "Manifolds/*.cpp, Problems/*.cpp")],
 "workspace-query typestate; polynomial comparison of dimensions", LS + "Sizes are compared as polynomials in the dimension symbols under the asserted equalities; buffers with unknown origin or offsets, and sizes that cannot be compared symbolically, carry no obligation.")

prop("P21", "A solver never moves to a point whose objective is not a number",
 "An iterate is replaced by a candidate only after the objective at the candidate has been found to be neither NaN nor infinite; otherwise the solver stops at its last good iterate.",
 ["inputs", "histories"], "every path through every solver's iteration",
 "Tests never produce NaN or infinite function values.",
 ["Solvers/"], [("isnan/isinf tests and iterate updates", "Solvers/SolversSMLS.cpp, Solvers/SolversSMTR.cpp, Solvers/SolversNSMSubLS.cpp, Solvers/ManPG.cpp, Solvers/AManPG.cpp")],
 "path-sensitive abstract interpretation (property simulation) of every solver's Run", LS + "Same interpreter as P07; an assignment to x1 of a point with a different value needs a scalar known to be its objective and known on the path to be finite.")

prop("P22", "No attribute or local variable is used before it has a value",
 "After construction every scalar attribute of a manifold or problem that any of its methods reads has a value, whichever constructor was used; whatever a solver reads during a run has been given a value by its construction or earlier in that run, on every path; and no local variable is read on a path that has not assigned it. The behaviour of the library never depends on what memory held before.",
 ["configurations", "histories"], "every constructor of every class and every path through every solver's run and every function",
 "Fresh memory is usually zero in a test, and zero is usually the intended default.",
 ["Manifolds/", "Problems/", "Solvers/", "Others/"], [("constructors and SetDefaultParams", "Manifolds/*.cpp, Problems/*.cpp, Solvers/*.cpp"), ("first uses in Run", "Solvers/*.cpp")],
 "definite-assignment dataflow through constructors, runs and functions", LS + "Constructor chains (with the virtual calls they make) and Run are interpreted in place for each concrete class with small constants; locals are decided per function with branches on the same condition correlated. The first loop over a range not known to be empty is taken to run; elements of arrays and pointers to member functions are outside.")

prop("P25", "A solver object can be run again",
 "Calling Run again on the same solver object starts from its current iterate like a new solver with the same options: nothing else that the earlier run computed (memory of pairs, trust-region radius, status, step sizes, stored values) influences it, except the quasi-Newton operator and the cumulative operation counters. Runs of different solver objects, also nested ones, share no data.",
 ["histories"], "all sequences of runs of one or several solver objects, every path through every solver's iteration",
 "The tests run every solver object once.",
 ["Solvers/", "Others/MinPNormConHull.cpp"], [("Run overrides that reset the state of an earlier run", "Solvers/*.cpp"), ("solvers nested in solvers", "Others/MinPNormConHull.cpp, Problems/SphereTxRQ.cpp")],
 "interprocedural exposed-read analysis of every solver's Run", LS + "For each concrete solver the attributes Run reads before it has certainly written them are computed path-sensitively with inlined calls and small constants; each one that Run also writes must be the iterate, an option set by SetParams, a pure counter or the operator H/B. Elements of arrays are represented by the lengths and indices that guard them.")

prop("P04", "Operations that may be called in place can be called in place",
 "Where the manifold interface allows an operand and the result to be the same object (projections, transports, differentiated retractions, linear combinations, operator products, conversions of Euclidean gradients and Hessians), calling the operation in place gives what it gives with a separate result, on every manifold and for all option values; and wherever the library itself passes one object as argument and as result, every implementation the call can reach works in place.",
 ["inputs", "configurations"], "every operation of every manifold class with every option, and every call site of the library",
 "An implementation that reads its operand after it started to write the result is right for every caller but those that pass the same object.",
 ["Manifolds/", "Problems/", "Solvers/"], [("what may be the same object", "Manifolds/Manifold.h"), ("implementations", "Manifolds/*.cpp"), ("in-place calls", "Solvers/*.cpp, Manifolds/*.cpp")],
 "typestate dataflow over operand and result with call-graph closure", LS + "For each implementation the CFG is propagated with the state (result changed, entries stored through pointers, copies that share storage); the operand must not be looked at after the result changed. What operand and result are handed on to is judged in the same way, with virtual calls resolved for all classes. Entry-wise loops are judged by the text of the index with variables set once expanded.")

prop("P05", "Operations on a product act component by component",
 "On a product of manifolds (any number of types, any number of components of each type) the inner product, projections, retractions, transports, conversions of representations and of Euclidean gradients and Hessians apply the operation of each component manifold to that component of the operands, every component exactly once; inner products and squared distances are summed, blocks of linear operators follow each other by the lengths of the components, and a product set to extrinsic vectors makes its components work on extrinsic vectors and leaves their setting as it was.",
 ["inputs", "configurations"], "all products: any number of types and of components, intrinsic and extrinsic, all component manifolds",
 "The tests use a product of Stiefel manifolds with one setting and products of Euclidean spaces; offsets and operands agree there by symmetry.",
 ["Manifolds/MultiManifolds.cpp", "Manifolds/MultiManifolds.h"], [("operations of products", "Manifolds/MultiManifolds.cpp"), ("intervals of equal components", "Manifolds/Element.cpp, Manifolds/SmartSpace.cpp")],
 "loop-bound, index and operand analysis of all calls on components", LS + "Every call on manifolds[E] in MultiManifolds and the classes below it, also in helpers judged at each caller: index expressions and loop bounds as polynomials over variables. Where index, bounds or operand cannot be told from the source nothing is claimed; numerical properties of the components' own operations are not covered.")

prop("P11", "What a solver prints or records does not change what it computes",
 "For every value of Verbose and OutputGap a solver performs the same iterations: the iterates, step sizes, function and gradient values, counters, status and stopping decisions are the same, and the same random numbers are drawn. The output level decides only what is printed and which series and details are recorded.",
 ["configurations", "inputs"], "all output levels and gaps, every path through every solver",
 "The tests run with the levels they print at; a computation that slipped into an output branch is done in all of them.",
 ["Solvers/"], [("branches on Verbose and OutputGap", "Solvers/*.cpp"), ("PrintInfo and PrintFinalInfo", "Solvers/*.cpp")],
 "information-flow analysis (explicit and control dependence) from Verbose/OutputGap", LS + "Control dependence by postdominators, taint through locals, parameters and return values; a location written under the influence must not be read, nor written with anything but a constant, elsewhere in the code a run reaches. What a stopping function of the user sees of the recorded series, printed text and the clock are outside.")

prop("P24", "Tangent vectors keep their representation and point inside operations",
 "A tangent vector is either an ambient matrix (extrinsic) or coefficients in an orthonormal basis of a tangent space (intrinsic). Inside every operation of every manifold and problem, for both settings of IsIntrApproach, each vector handed on is in the representation and in the tangent space that the callee expects, conversions are made with the point the vector belongs to, and the result is in the representation and at the point the interface promises.",
 ["configurations", "inputs"], "every operation of every manifold and problem class with intrinsic and with extrinsic vectors, all option values",
 "Each test uses one setting on one manifold; wrong conversions at nearby points only slow convergence.",
 ["Manifolds/", "Problems/"], [("ObtainIntr / ObtainExtr and the operations built on them", "Manifolds/*.cpp, Problems/Problem.cpp")],
 "path-sensitive abstract interpretation over (tangent space, representation)", LS + "Every operation is interpreted for each class and each setting of IsIntrApproach with virtual calls resolved to that class; the state is the tangent space and the representation of each vector. Results of raw matrix arithmetic are unknown and carry no obligation, except that one formula must not read the same operand in both representations.")

prop("P20", "Runs end at the limits and by the criterion the user set",
 "A run performs at most Max_Iteration iterations and never stops by its criterion before Min_Iteration; the time limit and a stopping function of the user are tested in every iteration, also in iterations that reject a candidate or only refine a parameter, whatever the criterion; when the stop test holds and Min_Iteration is reached no further iteration is started; every iteration is counted exactly once; and each stopping criterion is computed by its documented formula.",
 ["configurations", "histories"], "every path through every solver's iteration, all values of the limits and criteria",
 "The tests stop by the gradient norm long before any limit; a limit that is lost on one branch shows only when that branch is taken for ever.",
 ["Solvers/"], [("iteration loops", "Solvers/SolversSMLS.cpp, Solvers/SolversSMTR.cpp, Solvers/SolversNSMSubLS.cpp, Solvers/ManPG.cpp, Solvers/AManPG.cpp"), ("IsStopped", "Solvers/SolversSM.cpp, Solvers/SolversNSM.cpp")],
 "three-valued path exploration of loop conditions and stop tests", LS + "Each iteration loop is explored over all paths with the limit comparisons as three-valued facts; IsStopped is compared with the criterion as a rational expression, so rearranged formulas pass. What a stopping function of the user returns and how long one objective evaluation takes are outside.")

prop("P26", "Line searches and inner iterations come to an end",
 "Every loop inside a solver, manifold or problem operation ends after boundedly many passes, whatever values (also infinite ones or NaN) the objective and gradient take: each pass tests a counter that it moves towards its bound, or a step size that it shrinks or enlarges by at least a fixed factor.",
 ["inputs"], "all values of the objective, the gradient and the options in their documented ranges, every loop of the library's solvers, manifolds and problems",
 "Tests run smooth objectives for which the first few trial steps succeed.",
 ["Solvers/", "Manifolds/", "Problems/"], [("line searches", "Solvers/SolversSMLS.cpp, Solvers/SolversNSMSubLS.cpp"), ("inner solvers", "Solvers/SolversSMTR.cpp, Solvers/RNewton.cpp, Solvers/ManPG.cpp, Others/MinPNormConHull.cpp")],
 "ranking-function dataflow over natural loops (counters, geometric step sizes, NaN-aware)", LS + "For every natural loop a ranking argument is searched: all cycles pass an exit test and a strict move of the tested integer, or the tested real number at every back edge is at most (at least) a factor times its value at the start of the pass, with comparisons judged for NaN. Iteration loops of Run are P20's; copying loops of Element and SmartSpace are left out.")

prop("P27", "A line search that reports success satisfies its conditions",
 "A line search ends with the status of success only when the sufficient decrease condition (and, for Wolfe and strong Wolfe searches, the curvature condition) has been found to hold at the final step size, and whenever its status lets the run go on, the trial point, its objective and its gradient are those of the final step size.",
 ["inputs"], "all objectives, gradients, initial step sizes and line search parameters, all paths through every line search of the library",
 "Tests look at the iterates of a few runs in which the first trial steps succeed; exits through bounds, interpolation and bracketing are not reached.",
 ["Solvers/"], [("line searches", "Solvers/SolversSMLS.cpp, Solvers/SolversNSMSubLS.cpp, Solvers/SolversNSMPGLS.cpp")],
 "path-sensitive typestate with predicate facts (normalised comparisons of f2, stepsize and slopes, interprocedural)", LS + "Every path through a search is followed with the set of comparisons found true or false on it, normalised as polynomials in the values compared; a fact is dropped when one of its values changes. The exact search is approximate by design and is held to the delivery rules only. The comparison of NaN is left to P08/P21.")

prop("P28", "A trust-region run moves only to candidates its acceptance rule allows",
 "In every iteration of a trust-region solver the candidate becomes the iterate if and only if the ratio of actual to predicted decrease (of the quadratic model built from gradient and Hessian action) exceeds Acceptence_Rho, or the decrease is positive but negligible, or the iterate is accurate enough and the candidate is lower or an interior step; an accepted candidate brings its own cost, gradient and gradient norm, a rejected one changes none of them. The radius starts at initial_Delta, grows (never above maximum_Delta) only after a very good step that reached the boundary, shrinks only after a poor one, and the run ends when it falls below minimum_Delta. Steps of the truncated conjugate gradient solver stay inside the region or end exactly on its boundary, and its status names the reason it stopped.",
 ["inputs", "histories"], "all objectives, Hessian approximations, preconditioners, radii and parameters; every path through one iteration of Run and, by induction over its rounds, of the truncated conjugate gradient iteration",
 "Tests run a few problems whose early steps are accepted; rejected steps, capped radii, negative curvature and the accuracy clause hardly occur, and a wrong model value or radius still converges on them.",
 ["Solvers/"], [("acceptance and radius", "Solvers/SolversSMTR.cpp Run"), ("inner iteration", "Solvers/SolversSMTR.cpp tCG_TR"), ("variants", "Solvers/RTRNewton.cpp, RTRSD.cpp, RTRSR1.cpp, LRTRSR1.cpp")],
 "abstract interpretation in an inner-product-space domain (linear combinations of unknown vectors, global value numbering of rational expressions) with path facts; inductive loop invariants found by candidate elimination", "The dense inner solver of LRTRSR1 (an eigenvalue computation) is outside the inner rule; its outer iteration is covered. The preconditioner is taken to be the identity for random starts of the inner iteration.")

prop("P29", "Quasi-Newton updates satisfy the secant equation of their method",
 "Whenever a quasi-Newton solver updates its operator, the new operator satisfies the secant equation for this iteration's step s and gradient difference y (with the locking factor Beta, the cotangent of the retraction, or pulled back gradients, as the method prescribes): H y = s for the line search methods RBFGS, RWRBFGS, RBroydenFamily and RBFGSSub, B s = y for RTRSR1; the update is the BFGS, Broyden or symmetric rank-one update of the transported operator (or of the prescribed first multiple of the identity), it is made exactly when the method's curvature condition holds, isupdated says so, and an operator that is not updated is transported unchanged (RBFGSSub: reset to the identity; RTRSR1: it is transported when a candidate is accepted). The limited-memory solvers store s, y and 1/<s,y> of this iteration at one place, transport every stored vector whether or not a pair was taken, and compute products by the two-loop recursion from the newest pair to the oldest and back with gamma = <s,y>/<y,y> between; search directions are minus the product with the gradient.",
 ["inputs", "histories"], "all objectives, manifolds, steps and parameters; every path through each update, by induction over the rounds of the loops over stored pairs",
 "Tests check that a run converges; with a wrong update the method degrades to something slower that still converges on the few problems tried.",
 ["Solvers/"], [("dense updates", "Solvers/RBFGS.cpp, RWRBFGS.cpp, RBroydenFamily.cpp, RBFGSSub.cpp, RTRSR1.cpp UpdateData*"), ("limited memory", "Solvers/LRBFGS.cpp, LRBFGSSub.cpp, LRTRSR1.cpp")],
 "abstract interpretation in an inner-product-space domain (operators as words plus rank-one terms, global value numbering of rational expressions) with path facts; per-round judgement of loops", "The compact representation LRTRSR1 uses for its products (small Gram matrices) is not judged, only what it stores and transports. Transport is taken to be linear and isometric, the metric bilinear and symmetric, arithmetic exact.")

prop("P30", "CG coefficients, descent directions and initial steps follow their formulas",
 "For each RCGmethod the coefficient sigma equals the formula of the method (Fletcher-Reeves, Polak-Ribiere with restart at negative values, Hestenes-Stiefel, the FR-PR clamp, Dai-Yuan, Hager-Zhang) for the current and the transported previous gradient and direction, sigma is 0 exactly when the gradients are far from orthogonal, and the new direction is minus the preconditioned gradient plus sigma times the transported old direction. RCG and RSD use a direction only if it was found to be a descent direction, or minus the gradient. For each InitSteptype the initial step size is the prescribed one (Initstepsize in the first iteration, then one, Barzilai-Borwein with the ratio rule, quadratic interpolation) after its two safeguards. Newton's inner iteration takes conjugate gradient steps for the Newton equation and returns the step that converged, or the last one before negative curvature, or the steepest descent direction if there is none. Every iteration leaves the point, value, gradient and slope it started from where the initial step rule of the next one reads them.",
 ["inputs", "histories"], "all objectives, manifolds, preconditioners and parameters; every path through these functions, every enumerator",
 "Tests use the default method and step rule on one problem each and only look at convergence; a wrong coefficient or step size is corrected by the line search and costs iterations.",
 ["Solvers/"], [("conjugate gradients", "Solvers/RCG.cpp"), ("initial step", "Solvers/SolversSMLS.cpp InitialStepSize"), ("directions", "Solvers/RSD.cpp, RCG.cpp"), ("Newton", "Solvers/RNewton.cpp tCG_LS")],
 "abstract interpretation in an inner-product-space domain (global value numbering of rational expressions over unknown inner products) with path facts, one analysis per enumerator", "The minimum over the stored Barzilai-Borwein values is taken as some value. The Hager-Zhang coefficient is compared for the identity preconditioner.")

prop("P31", "A new solver has the documented defaults and calls them valid",
 "After construction, by any constructor and on every path, each parameter of a solver has the default its header documents (the value a method documents for itself instead of the inherited one where there is one), and a default set by a base class is not lost or replaced by construction order. The parameter report of CheckParams calls every default valid, and the verdict printed beside a parameter is about that parameter, not about another one.",
 ["configurations"], "every solver class, constructor and documented parameter; every path of construction and of the report",
 "Tests set the parameters they depend on, so a wrong default or report is not exercised; most wrong defaults only change the number of iterations.",
 ["Solvers/"], [("defaults", "Solvers/*.h comments, SetDefaultParams and Initialization in Solvers/*.cpp"), ("report", "CheckParams in Solvers/*.cpp")],
 "constant propagation through constructors with virtual dispatch of the class under construction, and through CheckParams with one parameter unknown at a time", "The documented values are those of sa/tables/defaults.json, taken from the header comments. Parameters without a documented default are only covered by the report rules.")

# ---------------------------------------------------------------- not applicable
NA_NUM = "Quantifies over floating-point values computed by loops over run-time matrices; no sound static bound on them is in reach, and deciding it would mean running the code."
prop("N01", "Retractions and vector transports satisfy their defining equations",
 "A retraction returns a point on the manifold, agrees with the argument at zero and is first-order tangent to the given direction; an isometric vector transport preserves the metric up to rounding.",
 ["inputs"], "all points and tangent vectors", "Tests sample one random point per manifold.",
 ["Manifolds/"], [("Retraction, VectorTransport", "Manifolds/*.cpp")], na=NA_NUM)
prop("N02", "Solvers converge to stationary points",
 "On a problem that satisfies the convergence theory of a solver, the norm of the reported Riemannian gradient tends to zero and the reported objective does not increase for monotone line searches.",
 ["inputs", "histories"], "all smooth problems and starting points", "Tests run one instance per problem.",
 ["Solvers/"], [("Run loops", "Solvers/*.cpp")], na=NA_NUM)
prop("N03", "Supplied gradients and Hessians are the derivatives of the objective",
 "For every problem shipped with the library the Euclidean gradient and Hessian action are the first and second derivatives of the objective.",
 ["inputs"], "all points and directions of all shipped problems", "CheckGradHessian samples one point and one direction.",
 ["Problems/"], [("EucGrad, EucHessianEta", "Problems/*.cpp")], na="Needs symbolic differentiation of BLAS call sequences up to floating-point equality; outside what a syntactic or dataflow analysis can establish.")
