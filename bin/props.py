NA = []

prop('C01', 'Option objects: fixed keys, overlay semantics, no sharing',
     'An option object of any solver always has exactly the key tree of its '
     'defaults and, for each option, holds the last value accepted for it (the '
     'default if none), however it was written (constructor, key path, nested '
     'access, update) or copied. A write naming a key that does not exist, or '
     'giving a plain value where a sub-tree of options is required, is '
     'rejected with the dedicated error and alters no option that it does not '
     'name. Objects are independent: no write to one is visible in another, '
     'in its copies or in objects created later.',
     ['histories', 'inputs', 'programs'],
     'all sequences of constructions, reads, valid and invalid writes and '
     'copies on any number of option objects, for every option class',
     'Tests cover a few hand-written option dicts; they do not compare every '
     'other option and every other object after each write.',
     ['sporco/cdict.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py',
      'sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/cbpdndl.py'],
     [('ConstrainedDict.__setitem__/update/check', 'sporco/cdict.py'),
      ('Options classes of all solvers', 'sporco/admm, pgm, dictlrn')],
     TV, TRUST + ' Bounds: tree of depth 4, two objects, histories of 9 '
     'operations (sampled), plus a systematic sweep of every key of every '
     'option class found in the package.')

prop('C02', 'Timers report exactly the time for which they were running',
     'For every history of start, stop and reset calls on a set of labelled '
     'timers (one, several, all or the default label), the total elapsed time '
     'of a label is the sum of the intervals in which it was running since it '
     'was last reset, and the current elapsed time is the length of the '
     'interval in progress. Repeated starts and stops are harmless, labels do '
     'not influence each other, and unknown labels are rejected without '
     'effect. A timed block stops (or restarts) its timer on every exit and '
     'never swallows an exception.',
     ['histories', 'fault_sequences'],
     'all operation histories, clock values and exceptions in timed blocks',
     'Tests use the wall clock with single start/stop pairs and cannot check '
     'exact sums or interleavings of labels.',
     ['sporco/util.py'],
     [('Timer.start/stop/reset/elapsed', 'sporco/util.py'),
      ('ContextTimer.__enter__/__exit__', 'sporco/util.py')],
     TV, TRUST + ' Clock replaced by a deterministic one.')

prop('C03', 'ADMM solve loop: counting, stopping, statistics and restart',
     'Over any sequence of calls of the solve method, with any iteration '
     'limits, an ADMM solver performs one x update and then one y update per '
     'iteration and stops after exactly the requested number of iterations '
     'unless a callback asks for it or both residuals are strictly below '
     'their tolerances, in which case it stops after that iteration. Outside '
     'fast mode each iteration yields one statistics record, numbered '
     'consecutively from zero across calls and carrying the selected timer '
     'value; a repeated call continues from the current state. The value '
     'returned is the documented solution variable.',
     ['histories', 'configurations'],
     'all option settings, update sequences, callbacks and solve histories',
     'Tests run a handful of problems to convergence and check only the final '
     'value.',
     ['sporco/admm/admm.py'],
     [('ADMM.solve', 'sporco/admm/admm.py'),
      ('getmin / obfn_fvar of derived classes', 'sporco/admm/admm.py')],
     TV, TRUST)

prop('C04', 'ADMM penalty adaptation keeps rho and the scaled dual consistent',
     'The penalty parameter changes only when adaptation is enabled and its '
     'period has elapsed: it is multiplied by the scaling factor if the '
     'primal residual exceeds the configured multiple of the dual residual, '
     'divided by it in the opposite case, and otherwise left alone; with '
     'automatic scaling the factor is the square root of the residual ratio, '
     'capped by the configured factor. Whenever it changes, the scaled dual '
     'variable is divided by the same factor and the solver is notified '
     'exactly once; the statistics record the value used in the iteration.',
     ['histories', 'configurations', 'inputs'],
     'all option settings and residual histories',
     'Tests only check that adaptive runs still converge.',
     ['sporco/admm/admm.py'],
     [('ADMM.update_rho', 'sporco/admm/admm.py')], TV, TRUST)

prop('C05', 'ADMM iteration algebra: relaxation, dual update, residuals',
     'For every constraint A x + B y = c (general, equality, two-block, '
     'consensus and weighted consensus forms) each iteration presents the '
     'over-relaxed A x and the current dual to the y update, adds the relaxed '
     'constraint residual to the scaled dual, and reports the primal and dual '
     'residuals and tolerances given by the documented formulas (absolute or '
     'normalised). The reported objective components are evaluated at the '
     'documented variables and sum to the reported objective.',
     ['inputs', 'configurations', 'histories'],
     'all constraint matrices, relaxation parameters, iterates and residual '
     'normalisations',
     'Tests never look at intermediate iterates; a wrong relaxation, dual or '
     'residual formula usually still converges.',
     ['sporco/admm/admm.py'],
     [('ADMM.relax_AX, ustep, compute_residuals, rsdl_*',
       'sporco/admm/admm.py'),
      ('ADMMEqual, ADMMTwoBlockCnstrnt, ADMMConsensus, '
       'WeightedADMMConsensus', 'sporco/admm/admm.py')], TV, TRUST)

prop('C06', 'Proximal gradient iteration: step, momentum, backtracking, stopping',
     'Over any sequence of solve calls, each iteration of a proximal gradient '
     'solver applies the proximal step of the regularisation term to the '
     'gradient step taken from the current extrapolated point, and forms the '
     'next extrapolated point from the last two iterates with the momentum '
     'coefficient of the selected rule. With backtracking the accepted step '
     'size satisfies the documented sufficient-decrease condition and '
     'rejected trials leave no trace; step size policies set the documented '
     'value. In monotone mode the objective never increases and the iterate '
     '(in every domain) is restored when a step is rejected. Residual, '
     'stopping, statistics and restart follow the documented rules, and the '
     'frequency domain variant computes the same iterates.',
     ['histories', 'configurations', 'inputs'],
     'all problems, momentum, backtracking and step size policies, option '
     'settings and solve histories',
     'Tests run a few problems to convergence; a wrong momentum coefficient, '
     'a backtracking test with the wrong sign or a stale iterate still '
     'converges on them.',
     ['sporco/pgm/pgm.py', 'sporco/pgm/backtrack.py',
      'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py'],
     [('PGM.solve, ystep, proximal_step, combination_step',
       'sporco/pgm/pgm.py'),
      ('BacktrackStandard/BacktrackRobust.update', 'sporco/pgm/backtrack.py'),
      ('Momentum*.update', 'sporco/pgm/momentum.py'),
      ('StepSizePolicy*.update', 'sporco/pgm/stepsize.py')], TV, TRUST)

prop('C10', 'Array utilities: padding, blocks, windows, subsampling, rounding',
     'For every array shape, data type, memory layout and parameter, the '
     'array utilities place each element exactly where documented: zero '
     'padding, dimension extension, splitting, rolling windows, subsampling '
     'and block extraction are pure index maps; averaging or taking the '
     'median of extracted blocks reassembles an image from every block that '
     'covers a pixel and from nothing else, so that extraction followed by '
     'reassembly is the identity; division by zero yields zero; precision '
     'rounding and the conversion between records and arrays keep every '
     'value. Inputs are not modified.',
     ['inputs'],
     'all shapes, strides, block and step sizes, axes, modes and data types',
     'Tests use one or two shapes per function, mostly with square blocks '
     'and unit steps.',
     ['sporco/array.py'],
     [('extract_blocks / average_blocks / combine_blocks', 'sporco/array.py'),
      ('rolling_window / subsample_array', 'sporco/array.py'),
      ('zpad, zdivide, promote16, atleast_nd, split, ntpl2array',
       'sporco/array.py')],
     'TLA+ spec of the index maps, TLC law checking + TLC-generated calls '
     'replayed on the code, results judged by TLC',
     TRUST)

prop('C11', 'Roles of array axes in convolutional problems are inferred correctly',
     'For every combination of signal and dictionary shapes, spatial '
     'dimensionality and explicit or implicit designation of signal axes, '
     'the roles of the axes (spatial, channel, signal, filter), the derived '
     'sizes and the internal shapes of signal, dictionary, coefficients, l1 '
     'weights and masks are those documented, every input element keeps its '
     'position, and an inconsistent number of channels is rejected. This '
     'holds for dictionary sizes given as single-scale, multi-scale or '
     'per-channel specifications.',
     ['inputs', 'configurations'],
     'all signal and dictionary shapes with one or two spatial dimensions, '
     'dimK settings, weight and mask shapes',
     'Tests check a few fixed shapes; combinations without a channel axis '
     'but with a signal axis for weights were untested (and wrong).',
     ['sporco/cnvrep.py', 'sporco/admm/cbpdn.py', 'sporco/pgm/cbpdn.py'],
     [('CSC_ConvRepIndexing, CDU_ConvRepIndexing, DictionarySize',
       'sporco/cnvrep.py'),
      ('l1Wshape, mskWshape, stdformD', 'sporco/cnvrep.py')],
     'TLA+ spec of the layout rules, TLC exhaustive small scope + '
     'TLC-generated shapes replayed on the code, judged by TLC', TRUST)

prop('C12', 'Dictionary projection yields feasible filters: support, mean, norm',
     'For every input array and dictionary size specification (single '
     'scale, multi-scale or per channel), number of spatial dimensions and '
     'choice of cropping and zero-mean options, projection onto the '
     'dictionary constraint set sets every sample outside the support of '
     'its filter to zero, subtracts from each filter and channel its mean '
     'over the support if requested, and scales the result of each filter '
     'to unit norm (jointly over channels, or per channel when so '
     'configured), leaving null filters at zero; nothing else is changed.',
     ['inputs', 'configurations'],
     'all arrays, size specifications and option combinations',
     'Tests check the norm on one or two shapes with two spatial dimensions.',
     ['sporco/cnvrep.py'],
     [('Pcn, getPcn, bcrop, zpad, zeromean, normalise', 'sporco/cnvrep.py')],
     'TLA+ spec of the constraint set, TLC exhaustive small scope + '
     'TLC-generated calls replayed on the code, judged by TLC', TRUST)

prop('C13', 'Proximal operators and projections are the exact minimisers',
     'For every input (real or complex, any shape, axes, data type and '
     'parameter, including zero vectors and zero or array-valued '
     'parameters), each proximal operator returns the minimiser that '
     'defines it, each projection returns the closest point of its set (and '
     'returns points of the set unchanged), and each norm is the documented '
     'function of the grouped entries. Groups are formed by the given axes. '
     'The result does not depend on whether the optional acceleration is '
     'available, and inputs are not modified.',
     ['inputs', 'configurations'],
     'all vectors and arrays, axes, parameters, data types and methods',
     'Tests verify a few random vectors against numerical gradients.',
     ['sporco/prox/_lp.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_l21.py',
      'sporco/prox/_dl1l2.py', 'sporco/prox/_nuclear.py',
      'sporco/prox/_util.py', 'sporco/linalg.py'],
     [('prox_l0/l1/l2/sl1l2/dl1l2/nuclear', 'sporco/prox'),
      ('proj_l1/l2', 'sporco/prox'), ('norm_*', 'sporco/prox')],
     'TLA+ optimality conditions, TLC exhaustive small scope + '
     'TLC-generated calls replayed on the code, judged by TLC', TRUST)

prop('C14', 'Linear solvers solve the stated systems for every shape and option',
     'The diagonal-block solvers (Sherman-Morrison, iterated, recursive and '
     'conjugate gradient), the factorised regularised least squares solvers '
     '(LU, Cholesky; tall and wide matrices; vectors and matrices) and the '
     'symmetric Sylvester solver return, for all real or complex data, '
     'shapes, axes and parameters, with or without cached factors, a '
     'solution of the documented equation. Inner products and matrix '
     'products along an axis, block circulant matrices, relative residuals, '
     'adjoint validation, PCA and Kronecker factorisations satisfy their '
     'definitions. Inputs are not modified.',
     ['inputs', 'configurations'],
     'all arrays, shapes, broadcast patterns, axes (including negative) and '
     'parameters',
     'Tests check fixed shapes with axes at the default position.',
     ['sporco/linalg.py'],
     [('solvedbi_sm, solvedbd_sm, solvemdbi_ism/rsm/cg', 'sporco/linalg.py'),
      ('lu_*, cho_*, solve_symmetric_sylvester', 'sporco/linalg.py'),
      ('inner, dot, block_circulant, rrs, pca, nkp, kpsvd',
       'sporco/linalg.py')],
     'TLA+ residual conditions, TLC exact small scope + TLC-generated calls '
     'replayed on the code, judged by TLC', TRUST)

prop('C15', 'Transforms, convolution and linear filters compute their definition',
     'For every shape, choice of axes, size argument, data type and memory '
     'layout the (real) discrete Fourier transforms and the DCT compute the '
     'defining sums and their inverses restore the array; convolution via '
     'the DFT equals circular convolution shifted by the origin; the '
     'frequency domain norms equal the spatial norm; discrete gradients, '
     'their transposes (exact adjoints) and the frequency domain gradient '
     'filters implement the documented operators; the Tikhonov filter '
     'solves its linear system and its two outputs add up to the input. '
     'Precision is preserved and inputs are not modified.',
     ['inputs', 'configurations'],
     'all arrays, axes (including negative), sizes and origins',
     'Tests check round trips for one or two shapes.',
     ['sporco/fft.py', 'sporco/signal.py'],
     [('fftn, rfftn, dctii, fftconv, rfl2norm2 ...', 'sporco/fft.py'),
      ('grad, gradT, gradient_filters, tikhonov_filter',
       'sporco/signal.py')],
     'TLA+ defining sums, TLC law checking on small shapes + TLC-generated '
     'calls replayed on the code, judged by TLC', TRUST)

SV = ('TLA+ spec of the ADMM iteration for explicitly given problems '
      '(Solvers, SolversDef), TLC model checking of the spec, TLC-generated '
      'problem instances run on the code, recorded iterations judged by TLC')
SVB = (' Instances are small (up to about 50 coefficients) with integer or '
       'quarter-integer data; runs of up to 3 iterations before and after a '
       'change of dictionary.')

prop('C16', 'Sparse coding solvers iterate on the documented problem',
     'For every dictionary, signal, parameter and option setting, each '
     'iteration of the sparse coding and convolutional sparse coding solvers '
     '(BPDN, elastic net, joint sparsity, l1 ball, gradient, l1 and l2 ball '
     'data fidelity, mask decoupling) solves the documented subproblems '
     'exactly: the x step minimises the augmented Lagrangian, the y step is '
     'the proximal operator of the documented regularisation term with its '
     'weights and constraints, and the dual variable is updated accordingly. '
     'The reported functional terms, objective and residuals are those of '
     'the documented problem at the documented variables; initial values are '
     'honoured; a new dictionary takes full effect; the returned solution and '
     'the reconstruction correspond to the requested variable.',
     ['inputs', 'configurations', 'histories'],
     'all dictionaries, signals, shapes (channels, signals, one and two '
     'spatial dimensions), weights, masks and option combinations, before '
     'and after setdict',
     'Tests run a few shapes to convergence from the default options and '
     'check final values loosely.',
     ['sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/admm.py'],
     [('BPDN, BPDNJoint, ElasticNet, BPDNProjL1, MinL1InL2Ball',
       'sporco/admm/bpdn.py'),
      ('ConvBPDN, ConvBPDNJoint, ConvElasticNet, ConvBPDNGradReg, '
       'ConvBPDNProjL1, ConvMinL1InL2Ball, ConvBPDNMaskDcpl, ConvL1L1Grd',
       'sporco/admm/cbpdn.py')], SV, TRUST + SVB)

prop('C22', 'Metrics, regressions and image helpers compute their definition',
     'For every image, shape, data type (without wrap-around of integers) '
     'and memory layout: the error and signal to noise metrics equal their '
     'defining ratios, including the infinite values for identical images; '
     'the perceptual metrics equal their filter based definitions; the '
     'robust regressions return a point that minimises the l1 or maximum '
     'residual; interpolation points, Lanczos kernels and filters and '
     'bilinear demosaicing, grey scale conversion, Gaussian windows, local '
     'contrast normalisation and the tiled view of a dictionary equal their '
     'definitions; noise and masks have the requested statistics. Inputs '
     'are not modified.',
     ['inputs', 'configurations'],
     'all images, data types, layouts and parameters',
     'Tests use a single image, often only checking that a value is positive.',
     ['sporco/metric.py', 'sporco/interp.py', 'sporco/signal.py',
      'sporco/util.py'],
     [('mae, mse, snr, psnr, isnr, bsnr, pamse, gmsd', 'sporco/metric.py'),
      ('lstabsdev, lstmaxdev, lanczos_filters, bilinear_demosaic',
       'sporco/interp.py'),
      ('rgb2gray, gaussian, local_contrast_normalise, rndmask, spnoise',
       'sporco/signal.py'), ('tiledict', 'sporco/util.py')],
     'TLA+ definitions (Met), TLC law checking on small inputs (MetMC: vertex '
     'theorem of the regressions, kernels, tilings) + TLC-generated calls '
     'replayed on the code, judged by TLC', TRUST +
     ' Gradient magnitude similarity uses the averaging grid of the code '
     '(preceding row and column); random functions are judged with six '
     'standard deviations for fixed seeds.')

prop('C23', 'Image restoration solvers iterate on the documented problem',
     'For every image, kernel, weight, axis selection and option setting, '
     'each iteration of the total variation denoising and deconvolution '
     'solvers (l1 and l2 data fidelity, scalar and vector total variation), '
     'the l1 spline solver, robust PCA and the plug and play solvers '
     'performs the documented ADMM steps: x step (exact or converged to the '
     'requested tolerance), y step, dual update; the reported terms, '
     'objective and residuals are those of the documented problem; the '
     'solution returned is the documented variable.',
     ['inputs', 'configurations'],
     'all images of one to three axes, axis and channel axis choices, '
     'kernels, weights and options',
     'Tests use one image size per class with all axes and mostly scalar '
     'weights.',
     ['sporco/admm/tvl1.py', 'sporco/admm/tvl2.py', 'sporco/admm/spline.py',
      'sporco/admm/rpca.py', 'sporco/admm/ppp.py'],
     [('TVL1Denoise, TVL1Deconv', 'sporco/admm/tvl1.py'),
      ('TVL2Denoise, TVL2Deconv', 'sporco/admm/tvl2.py'),
      ('SplineL1', 'sporco/admm/spline.py'),
      ('RobustPCA', 'sporco/admm/rpca.py'),
      ('PPP, PPPConsensus', 'sporco/admm/ppp.py')], SV, TRUST + SVB)

prop('C24', 'Dictionary update solvers iterate on the documented problem',
     'For every set of coefficients, signals, masks, dictionary size '
     'specifications and option setting, each iteration of the dictionary '
     'update solvers (matrix and convolutional; iterated Sherman-Morrison, '
     'conjugate gradient and consensus; with and without mask) performs the '
     'documented ADMM steps with the projection onto the dictionary '
     'constraint set as y step; the reported terms, constraint violation and '
     'residuals are those of the documented problem, including after changes '
     'of the penalty parameter and of the coefficients; the dictionary '
     'returned is the cropped auxiliary variable.',
     ['inputs', 'configurations', 'histories'],
     'all coefficient maps, signals, masks, dictionary sizes and options, '
     'before and after setcoef',
     'Tests use one or two shapes and check only final values loosely.',
     ['sporco/admm/cmod.py', 'sporco/admm/ccmod.py',
      'sporco/admm/ccmodmd.py'],
     [('CnstrMOD', 'sporco/admm/cmod.py'),
      ('ConvCnstrMOD_IterSM, _CG, _Consensus', 'sporco/admm/ccmod.py'),
      ('ConvCnstrMODMaskDcpl_IterSM, _CG, _Consensus',
       'sporco/admm/ccmodmd.py')], SV, TRUST + SVB)

prop('C25', 'Variants of convolutional sparse coding iterate on their problems',
     'For every dictionary, signal, mask and option setting, each iteration '
     'of the convolutional sparse coding variants with total variation terms '
     '(on coefficient maps, jointly over filters, on the reconstruction), '
     'with product dictionaries, with additive mask simulation and with '
     'several dictionaries and signals performs the documented ADMM steps '
     'for the documented problem, before and after a change of one or both '
     'dictionaries; the reported functional terms, objective and residuals '
     'are those of that problem; initial values and default options are '
     'honoured; the returned solution, coefficients and reconstructions '
     'refer to the primary dictionary.',
     ['inputs', 'configurations', 'histories'],
     'all dictionaries, signals, masks, weights, numbers of channels and '
     'signals, and options',
     'Tests construct these classes with one or two shapes and default '
     'weights and do not check intermediate steps.',
     ['sporco/admm/cbpdntv.py', 'sporco/admm/pdcsc.py',
      'sporco/admm/cbpdn.py'],
     [('ConvBPDNScalarTV, ConvBPDNVectorTV, ConvBPDNRecTV',
       'sporco/admm/cbpdntv.py'),
      ('ConvProdDictBPDN, ConvProdDictBPDNJoint, ConvProdDictL1L1Grd, '
       'ConvProdDictL1L1GrdJoint', 'sporco/admm/pdcsc.py'),
      ('AddMaskSim, MultiDictConvBPDN', 'sporco/admm/cbpdn.py')], SV,
     TRUST + SVB)

prop('C20', 'Iteration statistics are displayed and returned as recorded',
     'With the verbose option, every call of the solve method of any solver '
     'prints one row per iteration that shows, under the label of each '
     'displayed field, the value of that field in the statistics record of '
     'that iteration, correctly rounded; with the status header option a '
     'header with the labels, aligned with the columns, and separators of '
     'its length enclose the rows. The penalty parameter and the '
     'backtracking fields are shown exactly if they can change. Otherwise '
     'nothing is printed. The array form of the statistics holds exactly the '
     'recorded values of every field, and the records of dictionary learning '
     'methods hold the values recorded by their two update steps.',
     ['histories', 'configurations', 'inputs'],
     'all solver classes, display options, numbers of iterations and solve '
     'calls, field labels, widths and values',
     'Tests run silently, or do not look at what is printed.',
     ['sporco/common.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py',
      'sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/common.py',
      'sporco/array.py'],
     [('solve_status_str', 'sporco/common.py'),
      ('display_start, display_status, display_end, hdrtxt, hdrval',
       'sporco/admm/admm.py, sporco/pgm/pgm.py'),
      ('IterStatsConfig', 'sporco/dictlrn/dictlrn.py')],
     'TLA+ spec of the display layout and of the statistics records (Stat), '
     'TLC model checking of the layout (StatMC), TLC-generated runs of all '
     'solver classes: printed text and records judged by TLC', TRUST +
     ' Display text is compared after rounding to the printed digits; field '
     'labels are those of the classes at present.')

prop('C21', 'Proximal gradient solvers step on the documented problem',
     'For every dictionary, coefficient array, signal, weight, mask and '
     'option setting, each iteration of the proximal gradient solvers '
     '(sparse coding and dictionary update, matrix and convolutional, with '
     'and without weights or mask, and plug and play) moves from the '
     'auxiliary variable along the exact gradient of the documented data '
     'term and applies the proximal operator of the documented regulariser '
     'or constraint with the current step size; the reported functional '
     'terms, objective and fixed point residual (its square for the '
     'frequency domain classes) are those of the documented problem; the '
     'Hessian supplied to step size policies is that of the data term; '
     'initial values, changed dictionaries and coefficients, returned '
     'solutions and reconstructions are consistent with the state.',
     ['inputs', 'configurations', 'histories'],
     'all inputs, weights, masks, momentum and step size choices, before and '
     'after setdict/setcoef',
     'Tests run each class on one shape to near convergence; weights, '
     'reconstruct and hessian_f are hardly touched.',
     ['sporco/pgm/bpdn.py', 'sporco/pgm/cmod.py', 'sporco/pgm/cbpdn.py',
      'sporco/pgm/ccmod.py', 'sporco/pgm/ppp.py', 'sporco/pgm/pgm.py'],
     [('BPDN, WeightedBPDN', 'sporco/pgm/bpdn.py'),
      ('CnstrMOD, WeightedCnstrMOD', 'sporco/pgm/cmod.py'),
      ('ConvBPDN, ConvBPDNMask', 'sporco/pgm/cbpdn.py'),
      ('ConvCnstrMOD, ConvCnstrMODMask', 'sporco/pgm/ccmod.py'),
      ('PPP', 'sporco/pgm/ppp.py')], SV, TRUST + SVB)

prop('C09', 'Parallel solvers compute the documented iterations, however run',
     'For every dictionary, signal, mask, weight and option setting, the '
     'parallel sparse coding solver (for the partition of the filters into '
     'the requested number of groups) and the parallel consensus dictionary '
     'learning solvers (one work item per signal, with or without mask) '
     'perform the documented x, y and dual steps in every iteration; '
     'reported terms, returned solution and reconstruction are those of the '
     'problem. The result is the same for any number of worker processes, '
     'any order in which the work items are processed and any division of '
     'the iterations into calls, and for dictionary learning the same as '
     'that of the serial solver; initial values and a changed dictionary '
     'are honoured.',
     ['inputs', 'configurations', 'schedules', 'histories'],
     'all inputs, numbers of groups and processes, orders of work items and '
     'divisions of the run into calls',
     'Tests run one problem with default grouping and compare the final '
     'solution loosely.',
     ['sporco/admm/parcbpdn.py', 'sporco/dictlrn/prlcnscdl.py'],
     [('ParConvBPDN and module level step functions',
       'sporco/admm/parcbpdn.py'),
      ('ConvBPDNDictLearn_Consensus, ConvBPDNMaskDcplDictLearn_Consensus',
       'sporco/dictlrn/prlcnscdl.py')], SV, TRUST + SVB)

prop('C07', 'Dictionary learning alternates documented sparse coding and '
     'dictionary updates',
     'For every choice of sparse coding and dictionary update method '
     '(matrix, weighted, convolutional, masked; ADMM or PGM), every '
     'dictionary size specification, option setting and division of the run '
     'into calls, each outer iteration performs the configured number of '
     'documented sparse coding iterations for the current dictionary '
     'followed by the configured number of documented dictionary update '
     'iterations for the current coefficients. The learned dictionary is '
     'always feasible (support, normalisation), initially equal to the '
     'normalised given one; iteration numbers, reported functional terms, '
     'returned dictionary, coefficients and reconstructions are those of the '
     'state.',
     ['inputs', 'configurations', 'histories'],
     'all training data, method pairs, inner and outer iteration counts and '
     'histories of solve calls',
     'Tests run each method pair for one or two iterations and only check '
     'that no exception is raised.',
     ['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/cbpdndl.py',
      'sporco/dictlrn/cbpdndlmd.py', 'sporco/dictlrn/bpdndl.py',
      'sporco/dictlrn/wbpdndl.py', 'sporco/dictlrn/common.py'],
     [('DictLearn.solve', 'sporco/dictlrn/dictlrn.py'),
      ('ConvBPDNDictLearn', 'sporco/dictlrn/cbpdndl.py'),
      ('ConvBPDNMaskDictLearn', 'sporco/dictlrn/cbpdndlmd.py'),
      ('BPDNDictLearn', 'sporco/dictlrn/bpdndl.py'),
      ('WeightedBPDNDictLearn', 'sporco/dictlrn/wbpdndl.py')],
     SV, TRUST + SVB)

prop('C08', 'Online dictionary learning makes projected gradient steps',
     'For every sequence of training signals, presented one call at a time '
     'with any spatial sizes, numbers of signals and masks, each call of an '
     'online dictionary learning solver codes the given signals with the '
     'current dictionary by the documented sparse coding iterations and then '
     'moves the dictionary by the step size a / (b + i) along the exact '
     'negative gradient of the (masked) data fidelity term for these signals '
     'and coefficients and projects it onto the constraint set. The '
     'dictionary is feasible at all times; iteration number, step size, '
     'constraint violation, change and sparse coding statistics recorded are '
     'those of the call, and the current dictionary is returned.',
     ['inputs', 'configurations', 'histories'],
     'all histories of calls with signals of any shape, all dictionary size '
     'specifications, masks and step size parameters',
     'Tests run ten calls with signals of one shape and only check that no '
     'exception is raised.',
     ['sporco/dictlrn/onlinecdl.py'],
     [('OnlineConvBPDNDictLearn, OnlineConvBPDNMaskDictLearn',
       'sporco/dictlrn/onlinecdl.py')], SV, TRUST + SVB)

GV = ('TLA+ model of the search as a concurrent system (GridMC: prefix sums, '
      'evaluation, collective gather in every interleaving) model checked '
      'with TLC; TLC-generated searches run on the code with real worker '
      'pools and message passing jobs, every result judged by TLC')

prop('C17', 'Grid search finds an optimum and terminates, however distributed',
     'For every grid, single or multi-valued function (undefined values '
     'included), selection of minima or maxima, number of worker processes '
     'or message passing ranks (fewer or more than grid points) and order in '
     'which evaluations complete, grid_search terminates and returns, in '
     'every process, the function value at each grid point in its place, for '
     'each function an index at which the value is optimal among the defined '
     'values, that value and the parameters at that index.',
     ['inputs', 'configurations', 'schedules'],
     'all grids, functions, numbers of processes and completion orders',
     'Tests search two one-dimensional grids in a pool and with a single '
     'message passing rank.',
     ['sporco/util.py', 'sporco/mpiutil.py'],
     [('util.grid_search', 'sporco/util.py'),
      ('mpiutil.grid_search', 'sporco/mpiutil.py'),
      ('mpiutil._get_rank_limits', 'sporco/mpiutil.py')], GV, TRUST +
     ' Jobs have 1, 2, 3 and 5 ranks on one machine; where message passing '
     'jobs cannot be launched only one rank is used, which the evidence '
     'records.')

prop('C18', 'Downloads retry on time-outs only, boundedly, with documented errors',
     'For every sequence of network outcomes, netgetdata makes at most the '
     'given number of attempts, each for the given location with the given '
     'time-out; it makes another attempt if and only if the previous one '
     'timed out (while connecting, waiting for the response or reading it) '
     'and attempts remain; it returns exactly the content of the first '
     'successful attempt and raises the documented error when the file '
     'cannot be downloaded.',
     ['fault_sequences', 'configurations'],
     'all sequences of attempt outcomes and limits on the number of attempts',
     'Tests need a network and download one file, if run at all.',
     ['sporco/util.py'], [('netgetdata', 'sporco/util.py')],
     'TLA+ model of the download (Net, NetMC) checked exhaustively with TLC; '
     'every complete behaviour of the model is played against the code with '
     'a scripted URL opener and the recorded attempts are judged by TLC',
     TRUST + ' All behaviours with up to 4 (quick) or 6 (thorough) attempts.')

prop('C19', 'Solver objects are isolated, deterministic and can be stored and copied',
     'What a solver object computes is a function of its inputs, options and '
     'the sequence of solve calls and dictionary replacements applied to it: '
     'it does not depend on other solver objects (of the same or other '
     'classes, sharing input arrays or an options object), on how operations '
     'on different objects are interleaved, on queries, or on the state of '
     'the random number generator. Input arrays and options objects are '
     'never altered. A solver object can be pickled or deep copied at any '
     'point between calls, and continues like the original, without further '
     'influence between the two.',
     ['histories', 'schedules', 'inputs'],
     'all interleavings of operations on any number of solver objects of any '
     'class',
     'Tests create one solver at a time and never compare two histories or '
     'continue a stored object.',
     ['sporco/common.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py',
      'sporco/dictlrn/dictlrn.py', 'sporco/admm/parcbpdn.py'],
     [('IterativeSolver, _fix_nested_class_lookup, '
       '_fix_dynamic_class_lookup', 'sporco/common.py'),
      ('constructors and solve methods of all solver classes',
       'sporco/admm, pgm, dictlrn')],
     'TLA+ spec of solver objects as independent machines (Iso), '
     'non-interference model checked with TLC (IsoMC), TLC-generated '
     'interleavings of operations on real objects judged by TLC: '
     'observations must be a function of the abstract history', TRUST +
     ' 69 class configurations in 4 variants, four objects at a time. The '
     'parallel solvers keep their working arrays in module globals: two of '
     'them used concurrently are a known finding. Objects that hold user '
     'functions (plug and play) or overridden methods (AddMaskSim) are not '
     'stored or copied.')

prop('C26', 'Figures show the given data and react to events as documented',
     'Every plotting function draws exactly the given data (curves, mesh and '
     'contours, surface patches, image after the documented scaling of its '
     'data type) in the figure and axes given or in a new figure of the '
     'requested number and size, with the given labels, scales, colour map '
     'and bounds. Over every sequence of scroll and key events, scrolling '
     'over a plot zooms that plot, and no other, by a factor of two about '
     'the pointer without ever leaving the limits with which it was drawn; '
     'keys e, c and q enlarge, reduce and close the figure; and the pixel '
     'value is displayed exactly when the pointer is over the image. '
     'Inputs are not modified.',
     ['inputs', 'configurations', 'histories'],
     'all data, options, figure layouts (several plots in a figure or in the '
     'same axes, inverted axes, colour bars) and event sequences',
     'Tests only call the functions; no event is ever generated and nothing '
     'that is drawn is looked at.',
     ['sporco/plot.py'],
     [('attach_zoom, attach_keypress', 'sporco/plot.py'),
      ('plot, surf, contour, imview, close', 'sporco/plot.py')],
     'TLA+ spec of the view under scroll and key events and of the drawn '
     'content (Fig), exhaustive model checking of the zoom (FigMC), '
     'TLC-generated figures and event histories dispatched through '
     'matplotlib, artists and views judged by TLC', TRUST +
     ' The non-interactive Agg backend dispatches the events.')

prop('C27', 'Image collections are listed and read as requested',
     'For every directory tree, an image collection lists exactly the files '
     'that hold images, once each, under the group of their directory, and '
     'returns for each the stored pixels after conversion to the requested '
     'data type, scaling, cropping, resampling and conversion to grey, in '
     'this order, where a setting given with the request takes precedence '
     'over that of the collection and is not remembered. Grey images stay '
     'as they are when grey is requested; an inaccessible image is reported '
     'as such. Example dictionaries are independent copies of the sizes in '
     'their names.',
     ['inputs', 'configurations', 'histories'],
     'all directory trees, forms of the path, file types, settings of the '
     'collection and sequences of requests',
     'Tests read one colour image of the package with three fixed settings.',
     ['sporco/util.py'],
     [('ExampleImages', 'sporco/util.py'), ('convdicts', 'sporco/util.py')],
     'TLA+ spec of collections and of the image operations (Img), TLC model '
     'checking of the operations (ImgMC), TLC-generated directory trees and '
     'request histories judged by TLC', TRUST + ' The one-dimensional '
     'interpolation weights are those of scipy.ndimage.')
