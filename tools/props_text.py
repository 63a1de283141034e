NP = "operators/_nonparametric.py"
PO = "operators/_polynomial_operator.py"
OB = "operators/_base.py"
AF = "operators/_affine.py"
IT = "operators/_interpolate.py"
MB = "models/mono/_base.py"
MN = "models/mono/_nonparametric.py"
MP = "models/mono/_parametric.py"

prop("C01", "Applying an operator equals its entries times its data vector",
     "For every operator kind (constant, linear, quadratic, cubic, quartic, input, bilinear, general polynomial degree) and every entry matrix, applying the operator to a state and input gives exactly its entry matrix times the column of the regression data matrix built from the same state and input. Applying it to a batch of snapshots gives, column by column, what applying it to each snapshot alone gives. This also holds for scalar states, one-dimensional states and one-dimensional inputs.",
     ["inputs", "configurations"],
     "All real entries, states and inputs; all operator kinds; state dimensions 1-4, input dimensions 1-3, batches of 1-3 snapshots.",
     "Tests compare random matrices at a few sizes and mostly compare shapes; the r=1, m=1 and single-vs-batch code paths are separate branches, and an error in one monomial of one of them can hide.",
     [NP, PO, OB],
     [("per-operator apply() and datablock()", NP + " apply/datablock of each class"),
      ("compressed Kronecker products", NP + " ckron/ckron_indices"),
      ("general-degree monomials", PO + " exp_p/keptIndices_p")])

prop("C02", "Jacobians are the exact derivatives of operators and models",
     "The Jacobian an operator returns at a state and input is the exact matrix of partial derivatives of its application with respect to the state, for every operator kind including general polynomial degree and parametric operators. The Jacobian of a model is the exact derivative of its right-hand side at every state, input and (for parametric models) parameter value. Both stay true after operator entries are replaced, cleared and set again.",
     ["inputs", "histories", "configurations"],
     "All real entries, states, inputs; dimensions 1-4; all combinations of operator kinds in a model; entries re-assigned between calls.",
     "Tests check one finite-difference tolerance at random points; cached derivative tensors, symmetry assumptions and scalar paths need every entry pattern and every history of re-assignment.",
     [NP, PO, OB, MN, MP],
     [("jacobian() and cached derivative tensors", NP + " _precompute_jacobian_jit/jacobian"),
      ("model Jacobian is the sum over operators", MN + " jacobian"),
      ("parametric Jacobian", MP + " jacobian")])

prop("C03", "Projecting operators and models commutes with evaluation",
     "For every pair of trial and test bases with an invertible product, the (Petrov-)Galerkin projection of an operator, evaluated at any reduced state and input, equals the projection of the full operator evaluated at the lifted state. The same holds for models built from several operators and for parametric operators at each training parameter value, and the original operator is left unchanged.",
     ["inputs", "configurations"],
     "All real entries, bases (not only orthonormal ones when a test basis is given), reduced states and inputs; full dimension up to 3-4, reduced up to 2.",
     "Tests use random orthonormal bases at fixed sizes with tolerance; wrong transposes and index permutations that coincide for symmetric or square cases survive.",
     [NP, OB, AF, IT, MN, MP],
     [("galerkin()", OB + " _galerkin"), ("expanded entries times Kronecker powers of the basis", NP + " galerkin of each class"),
      ("parametric galerkin()", AF + " galerkin; " + IT + " galerkin"), ("model galerkin()", MB + " galerkin")])

prop("C04", "Compressed polynomial entries represent the same operator",
     "Compressing and expanding quadratic, cubic and quartic operator entries never changes the function they represent, compressing after expanding gives back the same entries, and expanded entries are symmetric in the Kronecker factors. Operators built from full, tensor-shaped, compressed or (for linear operators) sparse entries all act identically, and the reported number of columns always equals both the compressed width and the height of the data matrix. Adding two operators of one kind gives the operator that acts as their sum.",
     ["inputs", "configurations"],
     "All real entry matrices, state dimensions 1-4 (2-3 for quartic), non-square compressions; all supported input layouts.",
     "Tests check round trips on random symmetric inputs; a wrong weight on one multi-index only shows for entries that are asymmetric there.",
     [NP, PO, OB],
     [("compress_entries/expand_entries", NP), ("operator_dimension", NP), ("__add__", OB)])

prop("C05", "Fitting solves exactly the regression the model will simulate",
     "When a model is fitted to snapshots, left-hand-side data and inputs, then for every candidate operator value the residual handed to the least-squares solver equals, snapshot by snapshot, the difference between the fitted model's own right-hand side and the data it must match. Operators with known entries are accounted for exactly once, inferred operators receive exactly their own block of the solution, and every operator ordering and combination obeys this, in continuous, discrete and steady form.",
     ["inputs", "configurations"],
     "All real snapshots, derivative data, inputs, known entries and solver outputs; every subset/ordering of operator kinds within the bound; state dimensions 1-3, up to 3 snapshots.",
     "Tests fit random data and check shapes or loose reconstruction; misplaced blocks or mis-signed known terms can be masked by refitting.",
     [MN, MB],
     [("data-matrix assembly", MN + " _assemble_data_matrix"), ("splitting of the solution", MN + " _extract_operators"),
      ("subtraction of known operators", MN + " _fit_solver")])

prop("C06", "Parametric fitting solves the regression of the parametric model",
     "When a parametric model (affine, interpolated or mixed) is fitted to trajectories at several parameter values, then for every candidate solution of the regression the residual seen by the solver equals the mismatch between the data and the model evaluated at each training parameter value. Known operators, parametric or not, are accounted for exactly once, and each inferred operator receives exactly its own block.",
     ["inputs", "configurations"],
     "All real snapshots, parameter values, data, known entries and solver outputs; 2-3 parameter values, state dimensions 1-2.",
     "Tests use a handful of parameter samples with positive data and check only attributes or shapes after fitting.",
     [MP, AF, IT],
     [("parametric data matrix", MP + " _assemble_data_matrix; " + AF + " datablock; " + IT + " datablock"),
      ("parametric extraction", MP + " _extract_operators"), ("separate fits per parameter", MP + " _InterpModel._fit_solver")])

prop("C07", "Simulation follows the model's own right-hand side",
     "A model's right-hand side is the sum of its operators' applications, for every state, input and parameter value. Discrete-time prediction produces exactly the sequence obtained by repeatedly applying the right-hand side to the previous state with that step's input, starting from the given initial state; steady and continuous models hand the integrator a function, inputs and Jacobian that agree with the right-hand side at every time.",
     ["inputs", "configurations"],
     "All real entries, initial states and input sequences; up to 4 steps; all operator combinations in the bound; scalar and vector inputs.",
     "Tests run a few random linear models; input/step misalignment or dependence on the wrong time only show for particular inputs.",
     [MN, MP],
     [("rhs/jacobian", MN + " rhs, jacobian"), ("discrete recurrence", MN + " DiscreteModel.predict"), ("integrator set-up", MN + " ContinuousModel.predict")])

prop("C08", "Least-squares solvers return the minimiser of their stated objective",
     "For every data matrix and right-hand side, the solution returned by the ordinary, scalar-L2, per-row-L2, Tikhonov and per-row-Tikhonov solvers is a minimiser of the stated (regularised) least-squares objective: its gradient vanishes. This holds for every accepted form of regulariser (scalar, diagonal, full matrix, one per row), for both solution methods, and after the regulariser is changed on an already fitted solver.",
     ["inputs", "histories", "configurations"],
     "All real data with positive regularisation (and full-rank data without); up to 3 snapshots, 2 unknown columns, 2 right-hand sides; regulariser re-assigned between solves.",
     "Tests compare to one reference formula on random well-conditioned data and do not re-assign regularisers in every order.",
     ["lstsq/_base.py", "lstsq/_tikhonov.py"],
     [("regularised solves", "lstsq/_tikhonov.py solve of each class"), ("regulariser validation/conversion", "lstsq/_tikhonov.py regularizer setters")])

prop("C09", "Solver diagnostics agree with the fitted data and regulariser",
     "The residual a solver reports for any candidate matrix is the row-wise squared misfit of the fitted data, the regularised residual adds exactly the squared regulariser term of the objective, and the reported posterior for each row has the least-squares solution as mean and the inverse of the regularised Gram matrix (scaled by the noise variance) as covariance. Dimensions reported by a solver match the data it was given, for one-dimensional and two-dimensional right-hand sides.",
     ["inputs", "configurations"],
     "All real data, candidates and regularisers within the size bound; all solver classes.",
     "Tests recompute a few of these at random points, for some classes.",
     ["lstsq/_base.py", "lstsq/_tikhonov.py"],
     [("residual/regresidual", "lstsq/_base.py residual; lstsq/_tikhonov.py regresidual"), ("posterior", "lstsq/_tikhonov.py posterior")])

prop("C10", "Truncated and total least squares follow the singular value decomposition",
     "The truncated-SVD solver returns the minimum-norm least-squares solution over exactly the requested number of leading singular modes, for every requested number and after that number is changed. The total-least-squares solver returns the solution whose augmented vectors are orthogonal to the trailing right singular subspace of the stacked data.",
     ["inputs", "histories", "configurations"],
     "All real data presented through an arbitrary singular value decomposition; up to 3 snapshots, 2 unknown columns.",
     "Tests compare one random matrix with the same formula.",
     ["lstsq/_tsvd.py", "lstsq/_total.py"],
     [("mode truncation", "lstsq/_tsvd.py solve"), ("block partition of right singular vectors", "lstsq/_total.py fit/solve")])

prop("C11", "Preprocessing transformations are invertible",
     "After fitting on any admissible snapshots, applying a transformation and then its inverse returns the original data exactly, for every centering and scaling option, whole-array and row-wise, for new data as well as training data, for one snapshot or many, in place or not. Inverting only some rows gives exactly those rows of the full inverse. The same holds for variable-wise and chained transformations.",
     ["inputs", "configurations"],
     "All real non-degenerate training data and all real new data; 1-3 rows, 2-3 snapshots; every option combination.",
     "Tests sample random data per option with tolerance; option x row-subset x in-place combinations are not all covered, and data-dependent scale factors vary with the input.",
     ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
     [("transform/inverse_transform", "pre/_shiftscale.py"), ("block-wise and chained transformers", "pre/_multi.py")])

prop("C12", "Time derivatives are transformed by the derivative of the state transformation",
     "The transformation applied to time-derivative data is the linear part of the state transformation: the difference of two transformed states equals the transformed difference, so shifting terms never affect derivatives and scale factors always do. This holds for every option, for variable-wise and chained transformations, and in place or not.",
     ["inputs", "configurations"],
     "All real training data, states and derivative data in the bound; every option combination.",
     "Tests compare with a finite-difference tolerance for a few options.",
     ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
     [("transform_ddts", "pre/_shiftscale.py; pre/_multi.py")])

prop("C13", "Fitting a transformation has its documented effect and no side effects",
     "Fitting and transforming in one call equals fitting and then transforming; data passed without requesting in-place work is never modified and in-place work returns the caller's own array. After a fit, transformed training data has the documented property of the chosen scaling (zero mean, given minimum and maximum, unit deviation, unit maximum magnitude, unit norm), and refitting on new data depends on that data only.",
     ["inputs", "histories", "configurations"],
     "All real non-degenerate training data in the bound; every centering/scaling/row-wise option; refits on unrelated data.",
     "Tests check these on random data, not for every option after every earlier fit, and data-dependent branches (ties, signs) are rarely hit.",
     ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
     [("fit_transform", "pre/_shiftscale.py; pre/_multi.py"), ("standalone shift/scale", "pre/_shiftscale.py shift, scale")])

prop("C14", "Multi-variable and chained preprocessing acts block by block and in order",
     "A variable-wise transformer gives each variable's block exactly what that variable's own transformer alone gives it, for equal and unequal block sizes, and splitting into blocks inverts stacking. A chain of transformers equals applying its members one after the other, each fitted on the output of the previous one, and inverts in the reverse order.",
     ["inputs", "configurations"],
     "All real data; 2-3 variables with sizes 1-2; chains of 2 transformers; all affine member transformers.",
     "Tests use a few concrete members and sizes; off-by-one slices or order swaps can cancel for commuting members.",
     ["pre/_multi.py"],
     [("block slicing", "pre/_multi.py TransformerMulti"), ("chaining", "pre/_multi.py TransformerPipeline")])

prop("C15", "Bases project and reconstruct consistently",
     "Compressing a decompressed reduced state returns that reduced state, decompressing a compressed state is the (weighted-)orthogonal projection onto the basis, and projecting twice equals projecting once; the reported projection error is the norm of what projection discards. Asking only for some rows returns exactly those rows of the full reconstruction. Multi-variable bases act block by block, for one snapshot or many.",
     ["inputs", "configurations"],
     "All orthonormal and weight-orthonormal bases (rationally parametrised), all real states; full dimension up to 3-4, reduced up to 2; vector and matrix weights.",
     "Tests use random QR bases, and check weights and row subsets for one or two concrete choices.",
     ["basis/_base.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py"],
     [("compress/decompress/project", "basis/_linear.py; basis/_base.py"), ("block-wise bases", "basis/_multi.py")])

prop("C16", "POD bases keep the right number of the right modes",
     "Given any singular values, choosing the reduced dimension by a cumulative-energy, projection-error, residual-energy or singular-value threshold keeps the smallest number of leading modes that satisfies the criterion, and the reported energies are those of the kept modes. The basis vectors are the leading left singular vectors of the (weighted, centred as documented) data in order, and changing the dimension afterwards only re-slices them.",
     ["inputs", "histories", "configurations"],
     "All non-increasing positive singular values up to 4 modes, all thresholds; any sequence of two dimension changes.",
     "Tests try fixed thresholds on one random data set; ties and boundary thresholds need symbolic values.",
     ["basis/_pod.py"],
     [("set_dimension and energies", "basis/_pod.py PODBasis"), ("standalone selection helpers", "basis/_pod.py svdval_decay, residual_energy, cumulative_energy, projection_error")])

prop("C17", "Time-derivative estimates are exact to their order and stay aligned",
     "Each finite-difference scheme of order p differentiates every polynomial of degree at most p exactly, at every returned snapshot, for every step size; second-order non-uniform differences are exact for quadratics on every increasing time grid. The states, derivatives and inputs returned together always refer to the same time instants, and one-dimensional inputs and data are handled like one-row ones.",
     ["inputs", "configurations"],
     "All real polynomial coefficients, all positive step sizes and increasing grids; every scheme at its minimum length and a few lengths above; 1-2 state rows.",
     "Tests check decay rates on one smooth signal; one wrong coefficient at one boundary point or a mask shifted by one can stay within tolerance.",
     ["ddt/_finite_difference.py", "ddt/_base.py", "ddt/_interpolation.py"],
     [("difference stencils", "ddt/_finite_difference.py"), ("mask/alignment of states and inputs", "ddt/_finite_difference.py estimate")])

prop("C18", "Lifting maps are inverted exactly and differentiated by the chain rule",
     "Unlifting a lifted state returns the original state, and the lifted time derivatives are the exact chain-rule derivatives of the lifted states, for every admissible combination of monomial orders (including zero and negative orders) and every number of variables and snapshots.",
     ["inputs", "configurations"],
     "All real (non-zero where an order is negative) states and derivatives; sets of orders in -2..3; 1-3 rows.",
     "Tests use positive random data and default tolerance.",
     ["lift/_polynomial.py", "lift/_base.py"],
     [("lift/unlift/lift_ddts", "lift/_polynomial.py")])

prop("C19", "The reduced-order-model pipeline composes its stages faithfully",
     "Encoding is lifting, then transforming, then compressing, and decoding is the exact reverse order; whichever optional stages are present, encoding a decoded reduced state returns it, and decoding only some rows returns those rows. Fitting presents the model with exactly the encoded states, derivatives and inputs of each trajectory, with stages fitted on all trajectories together and derivatives never estimated across trajectory boundaries; predicting is encoding the initial condition, simulating the model, and decoding.",
     ["inputs", "configurations"],
     "All real trajectories (two of unequal length), bases, inputs; every subset of optional stages; continuous, discrete and parametric pipelines.",
     "Tests check that calls run and shapes match for random data; swapped stages, leakage between trajectories or re-ordered inputs keep shapes.",
     ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
     [("encode/decode", "roms/_base.py"), ("fit / data processing", "roms/_base.py _check_fit_args, _process..."), ("predict", "roms/_nonparametric.py; roms/_parametric.py")])

prop("C20", "Regularisation selection returns the best admissible candidate",
     "Selecting regularisation over a set of candidates returns a candidate whose reported error is no larger than that of any other candidate, and the model is left refitted with exactly that regulariser and that training data. Candidates whose simulated training trajectory leaves the admissible range are never preferred over candidates that stay in it, and the search never proposes values outside the admissible (non-negative) range.",
     ["inputs", "configurations"],
     "All real error values for up to 4 candidates (including infinite and tied errors), all simulated training trajectories in the bound.",
     "Tests run the search on one well-behaved problem; the order of errors and ties are never varied.",
     ["utils/_gridsearch.py", "roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
     [("grid then local search", "utils/_gridsearch.py"), ("training-error objective and stability bound", "roms/_base.py fit_regselect_*")])

prop("C21", "Reported errors are the documented norms of the true difference",
     "Each reported absolute error is the documented norm (Frobenius, Euclidean per snapshot, maximum, or time-integral) of truth minus approximation, and each relative error divides it by the same norm of the truth, optionally normalised by the maximum over time. Errors are zero for an exact approximation, non-negative, and relative errors are unchanged when truth and approximation are scaled together.",
     ["inputs", "configurations"],
     "All real truth/approximation arrays up to 2x3 with non-zero truth, increasing time grids.",
     "Tests compare with the same formula on one random array.",
     ["post/_errors.py"],
     [("frobenius_error, lp_error, Lp_error", "post/_errors.py")])

prop("C22", "Saved objects load back to equal objects",
     "Saving an operator, model, transformer, basis, lifter-free pipeline part or solver and loading it gives an object that is equal to, and acts identically to, the saved one in any configuration, including optional settings that are unset, sparse entries, parametric entries and partially specified models. Saving never changes the object saved, and an existing file is never overwritten unless that was requested.",
     ["inputs", "configurations"],
     "All real contents; every serialisable class and optional-setting combination in the bound.",
     "Tests round-trip a few concrete configurations.",
     [OB, NP, AF, IT, MB, MN, MP, "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "utils/_hdf5.py"],
     [("save/load", "every module's save/load"), ("file handling", "utils/_hdf5.py")])

prop("C23", "Copies are equal and independent; equality means equal content",
     "A copy of an operator, model, solver or transformer equals and acts identically to the original, and changing either afterwards never affects the other. Two objects compare equal exactly when they have the same kind, settings and numerical content.",
     ["inputs", "histories", "configurations"],
     "All real contents for every class with copy or equality; one mutation of either side after copying.",
     "Tests copy a few concrete objects and rarely mutate afterwards; equality is tested on a few unequal pairs.",
     [OB, AF, IT, MN, MP, "lstsq/_base.py", "lstsq/_tikhonov.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py"],
     [("copy/__eq__", "every module's copy/__eq__")])

prop("C24", "Parametric operators evaluate to their defining combination",
     "An affine-parametric operator evaluated at any parameter value acts as the coefficient-weighted sum of its component operators, for every form of coefficient function and every entry layout including sparse. An interpolated operator reproduces each training operator exactly at its training parameter value, whatever order the training values are given in and however often it is re-assigned, copied or projected, and its fitted data matrix uses the same coefficients as evaluation.",
     ["inputs", "histories", "configurations"],
     "All real component entries, coefficients and parameters; 2-3 terms/training values in any order; all operator kinds.",
     "Tests use sorted positive training values and one coefficient function.",
     [AF, IT],
     [("affine evaluate/datablock", AF), ("interpolation over stored parameters", IT + " set_interpolator/evaluate")])

prop("C25", "Results never depend on an object's earlier history",
     "Fitting or configuring an object again (a model, a solver, a transformer, a basis, a pipeline, an interpolated operator) with given data leaves it in the same observable state as a fresh object given only that data. Evaluating, predicting or querying never changes later results.",
     ["inputs", "histories", "configurations"],
     "All real first and second data sets of possibly different dimensions; one earlier fit/evaluation of each kind.",
     "Tests nearly always use fresh objects.",
     [MN, MP, NP, IT, "lstsq/_base.py", "lstsq/_tikhonov.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "roms/_base.py"],
     [("clearing of inferred entries and caches", OB + " _clear; " + MN + " _clear"), ("reset of solver state", "lstsq/_base.py reset")])

prop("C26", "Re-projected data reproduces the intrusive reduced model",
     "Re-projecting with a full model and an orthonormal basis yields, step by step, exactly the trajectory of the Galerkin-projected model: discrete states follow the projected recurrence, and continuous derivative data equals the projected right-hand side at the projected states with the matching inputs.",
     ["inputs", "configurations"],
     "All polynomial full models in the bound, all orthonormal bases, initial conditions, inputs; up to 3 steps.",
     "Tests check one linear model.",
     ["utils/_reprojection.py"],
     [("reproject_discrete/reproject_continuous", "utils/_reprojection.py")])

prop("C27", "Inconsistent or missing data is rejected instead of silently used",
     "Data whose dimensions do not match an operator, model, solver, transformer, basis or pipeline is rejected with an error and never silently broadcast, truncated or reshaped; entries containing undefined or infinite values are rejected. Using an object before it has the data it needs raises an error, and a rejected call leaves the object's previous state usable and unchanged.",
     ["inputs", "histories", "configurations"],
     "All real contents; every listed entry point with each of its dimensions off by one, or each entry replaced by NaN/infinity.",
     "Tests cover selected messages; state after a rejected call is not checked.",
     [OB, NP, MN, MP, "lstsq/_base.py", "lstsq/_tikhonov.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "roms/_base.py", "ddt/_base.py", "post/_errors.py"],
     [("shape validation", OB + " _validate_entries; lstsq/_base.py fit; pre/_base.py; models _process_fit_arguments")])

prop("C28", "Bayesian reduced models sample and propagate the stated posterior",
     "The Bayesian pipeline uses, for each operator row, exactly the mean and covariance given by the regularised least-squares posterior of the data it was fitted to; a prediction draw simulates the model whose operators are the drawn rows, and leaves the model's own operators as documented. A draw with zero covariance contribution reproduces the deterministic prediction.",
     ["inputs", "configurations"],
     "All real data, posterior means/precisions and normal draws in the bound.",
     "Tests check shapes of random draws.",
     ["roms/_bayes.py"],
     [("OperatorPosterior", "roms/_bayes.py"), ("draw_operators / predict", "roms/_bayes.py BayesianROM")])

prop("C29", "Timed blocks measure, log and limit elapsed time",
     "A timed code block records its wall-clock duration, interrupts the block when the time limit passes, and always restores the previous alarm state.",
     ["schedules", "fault_sequences"],
     "All block durations, limits and interruption points.",
     "Tests use sleeps of a second or two.",
     ["utils/_timer.py"],
     [("signal-based limit", "utils/_timer.py TimedBlock")])

prop("C30", "Continuous-time predictions are accurate to the integrator tolerance",
     "A continuous-time prediction approximates the exact solution of the model's differential equation to the requested tolerance for every initial state, input and model.",
     ["inputs"],
     "All initial states and inputs for which the solution exists.",
     "Tests integrate a few linear systems.",
     [MN],
     [("hand-off to the external integrator", MN + " ContinuousModel.predict")])

prop("C31", "Self-verification reports the truth",
     "The verify() methods accept every object that meets the documented requirements, whatever random numbers they draw, and leave it unchanged; they raise VerificationError for an object that breaks any one of these requirements (shapes, in-place behaviour, inverses, projections, derivatives, copies, saved files, intrusive projection), using the documented tolerances. Verification of a time derivative estimator reports the true relative errors at the estimator's own snapshots and leaves its time domain as it was.",
     ["inputs", "configurations", "fault_sequences"],
     "All random draws, all object contents, one violated requirement at a time at each position.",
     "Tests use a few deliberately broken classes and one random draw each; the verification code itself is largely excluded from coverage.",
     ["pre/_base.py", "pre/_multi.py", "basis/_base.py", "basis/_multi.py", "lift/_base.py", "lstsq/_base.py", OB, AF, IT, "ddt/_base.py", "ddt/_interpolation.py"],
     [("verification of transformers, bases and lifters", "pre/_base.py, basis/_base.py, lift/_base.py verify"),
      ("verification of solvers and operators", "lstsq/_base.py, operators/_base.py verify"),
      ("verification of derivative estimators", "ddt/_base.py verify, verify_shapes")])
