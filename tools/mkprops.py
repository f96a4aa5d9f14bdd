#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable as text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)
O='tensorD/base/ops.py'; T='tensorD/base/type.py'; L='tensorD/loss.py'; R='tensorD/dataproc/reader.py'
CP='tensorD/factorization/cp.py'; NCP='tensorD/factorization/ncp.py'; NT='tensorD/factorization/ntucker.py'
TU='tensorD/factorization/tucker.py'; PT='tensorD/factorization/pitf.py'; PN='tensorD/factorization/pitf_numpy.py'
PO='tensorD/base/pitf_ops.py'; PON='tensorD/base/pitf_ops_numpy.py'; EN='tensorD/factorization/env.py'
DG='tensorD/demo/DataGenerator.py'; BF='tensorD/factorization/factorization.py'; PR='tensorD/dataproc/provider.py'
ALL=[CP,NCP,NT,TU]

p('C01','Unfolding and folding follow the Kolda layout and invert each other',
 'For every tensor and every mode, unfolding yields the Kolda matricisation: row = index in that mode, and in the column the remaining modes vary with the lowest-numbered one fastest, every value bit-for-bit unchanged. Folding an unfolding with the same mode and the full shape returns exactly the original tensor, and unfolding a folding returns exactly the matrix.',
 ['inputs'],'every order from 1 up, every shape including extents of 1, every mode, every element type (integer, float, half, complex, bool), every value including NaN, infinities and signed zeros, data given as constant, variable or placeholder',
 'The tests look at one or two fixed small tensors of order 3; layout errors that need order 4 or more, equal or unit extents, or special values pass.',
 [O],[('unfold: permutation then reshape',O+' unfold/_gen_perm'),('fold: inverse permutation',O+' fold')])
p('C02','Generalised matricisation and vectorisation keep order, values and arguments',
 'Flattening a tensor with any ordered row axes and column axes (or -1 for the remaining ones in increasing order) places every entry where those ordered axes say, and vectorising and re-tensorising are exact row-major inverses. The axis lists passed by the caller are never modified.',
 ['inputs','histories'],'every order, every ordered partition of the axes into rows and columns, axes given as int, list or tuple, -1 for the columns, every element type, the same argument objects reused over several calls',
 'One fixed tensor and three axis choices are tested, none with reuse of the argument objects.',
 [O],[('t2mat',O+' t2mat'),('vectorize / vec_to_tensor',O+' vectorize, vec_to_tensor')])
p('C03','Tensor contraction and inner product equal their mathematical definition',
 'Contracting two tensors over any paired axes equals the sum over the paired indices, with the free axes of the first tensor followed by those of the second in their original order. The inner product of two equally shaped tensors is the sum of products of corresponding entries.',
 ['inputs'],'every order, shape, pairing and ordering of the contracted axes (none up to all), axes as int, list or tuple, integer, real and complex element types; exact for integers, to rounding for floats',
 'The tests use a single pair of shapes; order of free axes, unsorted axes and full contraction are not reached.',
 [O],[('mul',O+' mul'),('inner',O+' inner')])
p('C04','Tensor-times-matrix multiplies each mode by its own matrix',
 'Multiplying a tensor by matrices contracts matrix k with its designated mode (position k, or the given axis list, or the modes that are not skipped), transposed if asked, replacing that extent in place and leaving every other mode alone. Results do not depend on the order in which the matrix/axis pairs are listed.',
 ['inputs'],'every order, every subset and ordering of axes, every skip index or list, transposed or not, a single matrix or fewer matrices than modes, rectangular matrices with equal or different extents, integer, real and complex types',
 'Two shapes of order 3 are tested; transposition together with skipping or permuted axes is not.',
 [O],[('ttm einsum construction',O+' ttm'),('_skip',O+' _skip')])
p('C05','Hadamard, Kronecker and Khatri-Rao products are exact, with skip and reverse',
 'For any list of compatible matrices, the Hadamard, Kronecker and Khatri-Rao products equal their textbook definition taken over the list without the skipped positions and, where asked, in reversed order. The list handed in is left as it was.',
 ['inputs'],'any number of matrices from 1 up, any shapes (rows of 1, columns of 1), skip as None, int or list, reversed or not, integer, real and complex types',
 'The tests use two or three fixed matrices; skip lists, reversal and their combination over four and more matrices are not compared with a definition.',
 [O],[('hadamard/kron/khatri',O+' hadamard, kron, khatri'),('_skip',O+' _skip')])
p('C06','MTTKRP helper and spectral-norm product equal their definition',
 'For an order-3 tensor X and matrices C and B, the helper xcb equals the mode-0 unfolding of X times the Khatri-Rao product of C and B, for any zero pattern in X. The product of maximal singular values equals the product of the spectral norms of the matrices that are not skipped.',
 ['inputs'],'every shape and rank (including 1), dense, sparse and all-zero slices, matrices of any aspect ratio and rank deficiency, any skip',
 'One fixed example each.',
 [O],[('xcb',O+' xcb'),('max_single_value_mul',O+' max_single_value_mul')])
p('C07','DTensor operations agree with the plain operations whatever was called before',
 'Every DTensor operation (unfold, fold, flatten, vectorise, contraction, Kronecker, Khatri-Rao, +, -, element-wise *, indexing, shape) returns what the corresponding mathematical operation on its current tensor returns. The answer never depends on which operations were called on the object before, and no call changes the tensor the object holds.',
 ['inputs','histories'],'all sequences of operations with all arguments on the same objects, operands as DTensor or tensor (for + - * also array or scalar), all orders and shapes',
 'Each test calls one operation once on a fresh object, so nothing that depends on history is seen.',
 [T],[('DTensor methods',T+' class DTensor')],[('unfold_T','last unfolding of the object',T)])
p('C08','Kruskal and Tucker tensors extract to the tensor they denote',
 'Extracting a Kruskal tensor gives the sum over components of weight times outer product of the factor columns (weights 1 if none are given), and extracting a Tucker tensor gives the core multiplied by each factor in its mode, with the shape given by the factors rows. This holds for arrays and graph tensors, and for weights given as a vector or a column.',
 ['inputs'],'every order from 1 up, every shape, rank or rank tuple (including 1 and larger than the extents), arrays or tensors, float32 and float64 in every combination the factors and weights may come in, zero and negative weights',
 'Only one shape is tested; the test with weights in double precision fails on the original code.',
 [T],[('KTensor.extract',T+' KTensor'),('TTensor.extract',T+' TTensor'),('khatri / ttm',O)])
p('C09','Losses equal their formula',
 'The L2 loss is half the sum of squared differences, RMSE the root of the mean squared difference over all entries, and the zero-ignoring RMSE the same restricted to the entries where the first tensor is non-zero. Argument order matters exactly as documented: the entries to ignore are decided by the first tensor alone.',
 ['inputs'],'every order and shape, float32 and float64, every zero pattern in either tensor except an all-zero first tensor, large, tiny and negative entries, identical tensors',
 'No test computes a loss; they are only printed.',
 [L],[('l2/rmse/rmse_ignore_zero',L)])
p('C10','Documented misuse is rejected with the documented error, and only misuse is',
 'Axis together with skip in tensor-times-matrix and inner products of different shapes raise ValueError, RMSE of different shapes and predict before training raise TensorErr, an unsupported file extension raises ArgumentError, a TensorFlow sampling or scatter operator without a valid dimension raises ValueError, and abstract base operations raise NotImplementedError. The neighbouring valid call is accepted, and a rejected call leaves the objects involved usable with unchanged results.',
 ['inputs','histories'],'every shape pair, mode and model class; rejection followed by valid use of the same objects',
 'A single misuse of one function is tested.',
 [O,L,R,PO,BF,PR]+ALL,[('explicit checks','ttm, inner, rmse, rmse_ignore_zero, TensorReader.read, predict, Pomega_mat, adjoint_operator')])
p('C11','The tensor reader loads exactly the entries of the file',
 'Reading a file of "index, ..., value" lines gives a tensor whose entry at every listed position is the double nearest to the listed value and zero elsewhere, for lines in any order and files with blank lines. The shape is the smallest that holds all indices, or the full shape if one is given, and the sparse and the dense form denote the same tensor.',
 ['inputs'],'every order from 1 up, every line order, sparse and dense files, csv and txt, negative, exponent and extreme values, blank lines, padding, quoted fields, explicit larger shapes as list, tuple or array, extents beyond 65535, files that changed before they are read again, several files or repeated reads by one process',
 'The only test needs a file that is not in the repository and checks nothing.',
 [R],[('TensorReader.read',R)],observe=['TensorReader.full_data','TensorReader.sparse_data'])
p('C12','Synthetic data has the promised structure',
 'Without noise the CP generator returns a non-negative tensor that is a sum of at most R non-negative rank-one terms, and the Tucker generator one whose multilinear rank is bounded by the given ranks, both of the requested shape and generally attaining these ranks. With noise, the addition to that tensor is entry-wise non-negative, clipped Gaussian of the requested scale (about half of the entries untouched), and drawn afresh on every call.',
 ['inputs'],'every list of extents and rank(s) of order 2 and more, ranks below, equal to and above extents, every noise level, every state of the random generator',
 'No test covers the generators.',
 [DG],[('synthetic_data_cp / synthetic_data_tucker',DG)])
p('C13','The published result of a training is one coherent snapshot',
 'After training returns, for whatever reason it stopped, the published full tensor is the reconstruction from the published factors together with the weights or core, has the shape of the input, and the last entry of the returned history is the error of exactly this full tensor. Predict returns the entry of this full tensor at the given index for every index, and shapes of factors, core and weights match the requested ranks.',
 ['inputs','configurations','histories'],'all five dense models, orders 2 to 5, all ranks, number of steps, tolerances (early stop on a step without validation, stall stop, step limit), validation intervals, verbosity, repeated training of one model',
 'The tests train one model each to a fixed number of steps and look at nothing.',
 ALL,[('fetching factors, core, weights and full tensor in one step','train of each model'),('predict','predict of each model')],
 [('_full_tensor/_factors/_core/_lambdas','last published snapshot','all models')],['model.full','model.factors','model.core','model.lambdas','model.predict'])
p('C14','The history is accurate, and looking at the training does not change it',
 'The returned history has one entry per executed step, in order, each being the zero-ignoring RMSE against the data and the relative residual in Frobenius norm of the model after exactly that step. Validation interval, verbosity and summary directory affect only what is printed and logged: the factors, core, weights, number of steps and history are the same for every setting, and a training asked for more steps passes through the same states.',
 ['inputs','configurations'],'all iterative models, orders, ranks, data with and without zeros, all validation intervals (divisor, non-divisor, larger than the steps, disabled), verbose or not, different summary directories, different step counts',
 'The tests discard the history and use one setting.',
 ALL,[('hist.append','train of each model'),('loss / relative residual ops','build_model of each model')])
p('C15','Training stops exactly when its rule says so',
 'Training stops at the first step after which the relative residual is below the tolerance or the objective (half the squared residual) has changed by less than the tolerance, relative to its previous value plus one, for three steps in a row, and otherwise runs exactly the requested number of steps. For the momentum methods the previous value is that of the last accepted (not increased) step, and the first step is compared with its own objective plus one.',
 ['inputs','configurations','histories'],'CP-ALS, non-negative CP, HOOI and non-negative Tucker, all tolerances, step limits, scales of the data, trainings that converge, stall, oscillate or hit the limit, repeated trainings of one model',
 'No test looks at the number of executed steps or uses a tolerance other than the default.',
 ALL,[('nstall / relerr1 / relerr2 loop','train of each model')])
p('C16','Every CP-ALS sweep is an exact alternating least-squares sweep',
 'Each step of CP-ALS replaces the factors mode by mode, each by the least-squares optimum given the newest other factors (minimum-norm if singular), so that the residual never increases from step to step beyond rounding. Every published factor column has largest absolute entry 1 (or is zero), the weights carry the scale, and everything stays finite for every finite non-zero tensor and every rank.',
 ['inputs','histories'],'orders 2 to 5, every shape, rank below, equal to and above extents, data of either sign, with zero slices, tiny and huge scale, all steps of all trajectories; conformance to rounding times conditioning',
 'The test trains on one random tensor and prints the error.',
 [CP],[('per-mode update chained by control dependencies',CP+' build_model'),('max-norm normalisation',CP+' build_model'),('pseudo-inverse of the Gram Hadamard product',CP+' build_model')])
p('C17','HOSVD is the truncated higher-order SVD',
 'Every HOSVD factor is an orthonormal basis of the leading left singular subspace of the corresponding unfolding of the data, the core is the projection of the data onto these bases, and the reconstruction error is at most the root of the summed squared discarded singular values. The data is reproduced to rounding whenever the ranks are at least its multilinear rank.',
 ['inputs'],'orders 2 to 5, every shape, every rank tuple up to the extents that the unfoldings allow, exact low-rank, noisy, rank-deficient and integer data, all scales',
 'Only one 3x4x5 tensor is used and nothing is compared.',
 [TU],[('SVD of every unfolding, truncation, projection',TU+' HOSVD.build_model')])
p('C18','HOOI is the orthogonal iteration started from HOSVD and never gets worse',
 'HOOI starts from the truncated HOSVD, and every step replaces each factor in turn by an orthonormal basis of the leading left singular subspace of the data projected on the newest other factors; the core is the projection of the data on the current factors. The residual never increases, is never worse than that of HOSVD with the same ranks, satisfies residual^2 = |data|^2 - |core|^2, and vanishes whenever the ranks are at least the multilinear rank.',
 ['inputs','histories'],'orders 2 to 5, every shape and rank tuple feasible for the projections, all steps of all trajectories',
 'Only one tensor is used and nothing is compared.',
 [TU],[('HOSVD init, chained per-mode SVD',TU+' HOOI.build_model')])
p('C19','Non-negative models stay non-negative and finite',
 'Every factor (and core) that the non-negative CP and Tucker models publish, after every number of steps, has no negative entry and no NaN or infinity, and neither has the published full tensor; for non-negative CP all weights are 1. This holds for data of any sign pattern, and the history stays finite.',
 ['inputs','histories'],'all step counts (including long runs through momentum restarts), orders 2 to 5, ranks below and above extents, positive, sparse, mixed-sign and all-negative data, large and small scales, tolerance 0',
 'The tests train once on positive uniform data and check nothing.',
 [NCP,NT],[('relu projection of every update','build_model'),('division guarded against vanished Lipschitz constants','build_model')])
p('C20','Data is never changed, and results depend on its values alone',
 'Building and training a model never modifies the array the provider hands out, nor objects passed as ranks, and later changes that training makes to its results do not reach the data. Two arrays with equal values give identical results whatever their memory layout, strides, writability, byte order or element type (as long as single precision holds the values).',
 ['inputs'],'all five dense models and the pairwise NumPy one, C- and Fortran-ordered, strided, reversed, read-only, big-endian, integer, float16/32/64 data, rank lists',
 'Each test uses one freshly made C-ordered array and does not look at it afterwards.',
 ALL+[EN],[('feeding the data through a placeholder','build_model of each model'),('Environment.full_data',EN)])
p('C21','Every non-negative CP/Tucker step is the prescribed projected-gradient step',
 'Each step of the non-negative models updates the core (Tucker) and then each factor in turn by a projected gradient step with step length 1/L at the extrapolated point, L being the spectral norm of the Hessian with the newest other blocks. After an accepted step the extrapolation is min((t-1)/t_next, sqrt(L_previous/L)) of the last move with t_next=(1+sqrt(1+4t^2))/2; after an increase of the objective the extrapolation is dropped, so the next step descends from the last accepted point.',
 ['inputs','histories'],'orders 2 to 4, all shapes and ranks, whole trajectories through accepted and rejected steps; conformance to rounding',
 'No test computes a single step by hand.',
 [NCP,NT],[('update ops','build_model'),('train_op1/train_op2 selection','train')],
 [('Am/A0/t0/L/L0','extrapolated point, last accepted point, momentum and Lipschitz state','NCP/NTucker')])
p('C22','Models do not influence each other, and training again starts afresh',
 'What a model publishes is the same whether it is alone or shares graph, process, data provider or summary directory with other models, built or trained before, after or interleaved with it. A published result stays unchanged while other models train, and training the same model again starts from scratch, independent of the earlier training and of what became of its published arrays, and replaces its published result as a whole; a model built again with other arguments gives what a new model gives.',
 ['histories','configurations'],'all interleavings of build, train and read over several models of all classes, the pairwise ones included, in shared or separate graphs, repeated trainings with different step counts',
 'Each test has one model per process and trains once; the only test with two models fails on the original code.',
 ALL,[('own variables, placeholders, summaries and sessions per model','build_model / train')],[('default graph','shared by the models of a process','TensorFlow')])
p('C23','Results do not depend on scheduling',
 'With a fixed seed, a training publishes the same factors, weights, core, full tensor, history and step count for every number of TensorFlow threads, every order in which independent operations get executed, and when several trainings run at the same time in different threads. Operation delays at arbitrary points never change the result.',
 ['schedules'],'inter-op and intra-op thread counts, injected delays in graph operations and between steps, concurrent trainings of different models and graphs in one process, for the dense models and the pairwise one; equality to rounding amplification',
 'Every test runs one training on the default thread pool; a missing ordering edge between variable updates shows only under other schedules.',
 ALL,[('control dependencies between in-place updates of factor variables','build_model of each model')])
p('C24','The summary log is complete and true when training returns',
 'When training returns, the event file in the summary directory is complete and readable, and holds for every validation step (first, last, multiples of the interval, all if verbose) exactly one summary with the loss and, for iterative models, the relative residual that the history has for this step. It holds the graph and run metadata of these steps and nothing for other steps.',
 ['histories','configurations'],'all models, step counts, intervals, verbosity, early stops, several trainings into one directory or different ones',
 'No test reads an event file.',
 ALL+[PT],[('FileWriter.add_summary / close','train of each model'),('summary ops','build_model of each model')])
p('C25','Failures surface, and the training state is reported truthfully',
 'A model reports an unfinished training before the first training, during every training and after one that failed, and a finished one exactly after a training returned. A failure of the computation, the log or the output at any point reaches the caller as that exception; a failed training never changes the input, and training again afterwards works and gives the same result as if the failure had not happened.',
 ['fault_sequences','histories'],'all models, an exception injected at every session call of a training (initialisation, any step, momentum update), including repeated failures and retries',
 'No test makes anything fail.',
 ALL,[('_is_train_finish','train of each model')],[('train_finish','whether the last training completed','all models')])
p('C26','Finished trainings release what they used',
 'When a training has returned, the threads and files it opened are closed: repeated trainings do not accumulate threads, file descriptors or graph nodes. This holds for every model class and stop reason.',
 ['histories'],'any number of consecutive trainings of every model class, early and late stops',
 'Every test trains once and exits.',
 ALL+[PT,PN],[('closing the summary writer','train of each model')])
p('C27','Pairwise sampling operators are exact and adjoint to their scatter operators',
 'Sampling a matrix, a matrix triple or a tensor at a list of index triples returns in order the sampled entries, scaled by the inverse root of the third extent for matrices, and the sum over the three matrices for the triple. The scatter operator of each matrix is the exact adjoint up to that scaling: it adds every sample to its position, repeated positions included, and is zero elsewhere, in both the NumPy and the TensorFlow implementation.',
 ['inputs'],'every shape with all extents different or equal, every sample list including repeated triples and pairs, single and many samples, all three matrices, float32 and float64',
 'The tests only build the graph nodes and never evaluate them; one fails on the original code.',
 [PO,PON],[('Pomega_mat/Pomega_tensor/Pomega_Pair','both implementations'),('adjoint_operator','both implementations')])
p('C28','Centralisation, thresholding and shrinkage are the exact proximal maps',
 'Centralisation subtracts the column means. Singular value thresholding returns the SVD of the centralised matrix with singular values reduced by the threshold and clipped at zero, and shrinkage recombines them to the minimiser of half the squared distance plus threshold times nuclear norm; the complicated mode adds the shrunk constant component. NumPy and TensorFlow versions agree.',
 ['inputs'],'every shape (wide, tall, square, single row or column), rank-deficient and zero matrices, thresholds from 0 to beyond the largest singular value, both modes',
 'The tests build the graph without evaluating it.',
 [PO,PON],[('centralization/SVT/shrink','both implementations')])
p('C29','Generated pairwise matrices satisfy the identifiability constraints',
 'Matrices generated for the second and third pair have zero column sums, those for the first pair have equal column sums, their rank never exceeds the requested rank (plus one for the constant part) and generically attains it, and shapes follow the tensor shape cyclically; the matrices are standard normal low-rank products projected on these constraints. Sampled index triples always lie within the tensor, reach every index of every mode, and are drawn uniformly and independently per mode.',
 ['inputs'],'every tensor shape, rank and sample number, every random state, both implementations',
 'The tests do not evaluate what they build.',
 [PO,PON],[('subspace/sample_rule4mat/sample3D_rule','both implementations')])
p('C30','Pairwise interaction tensor factorisation follows its iteration and recovers',
 'Each iteration shrinks the scattered sample vector into three matrices, measures the sampled error of these matrices against the data, and adds the step length times the error to the sample vector, for one sample set fixed during the training; the reported error rate, loss and matrices are those of that iteration. On pairwise interaction tensors with enough samples the error rate tends to zero and the recovered matrices reproduce the full tensor, in both implementations.',
 ['inputs','histories'],'every shape, rank, step length and threshold within the convergence range, sample number, number of steps, validation interval',
 'The test runs the NumPy version on structureless noise and checks nothing; the TensorFlow version cannot even be built on the original code.',
 [PT,PN,PO,PON],[('PITF_np.exact_recovery',PN),('PITF.build_model/train',PT)])
p('C31','Cone projection returns the nearest point of the second-order cone',
 'For every vector and number, the cone projection returns the point of the cone (norm of the vector at most the number) nearest to them: the point itself inside, zero in the polar cone, and the boundary point in between. Both implementations agree, and projecting twice changes nothing.',
 ['inputs'],'every vector length and scale including zero vectors, every number including the case boundaries, both implementations',
 'The only test is commented out.',
 [PO,PON],[('cone_projection_operator','both implementations')])
p('C32','Accelerators give the same results as the CPU',
 'Training on a GPU publishes the same results as training on the CPU up to rounding. This holds for every model.',
 ['configurations'],'all models, devices available to TensorFlow',
 'The tests run on the CPU only.',
 ALL,[('device placement is left to TensorFlow','build_model of each model')])
p('C33','What a training prints is true',
 'A training prints one report line for every validation step (first, last, multiples of the interval, all if verbose) and for no other, in order, with the step number and the errors that the history has for this step. When and only when it has succeeded, it prints one final line, with the number of executed steps and the error of the published result; the pairwise models report error rate and loss as logged or returned.',
 ['histories','configurations'],'all models, step counts, intervals, verbosity, early stops, repeated trainings, trainings that fail at any session call',
 'No test captures the output.',
 ALL+[PT,PN],[('print of step and finish lines','train of each model')])
p('C34','Using the library leaves the process and the graph of the caller as they were',
 'Building and training models, whether it succeeds or fails, operations, tensors, losses, reader and pairwise operators change nothing that belongs to the caller: random state of Python and NumPy, graph-level seed, default graph and session, scopes, existing operations and variables, open sessions, other graphs, working directory, environment, streams, warning, logging and numerical settings. Files appear only in the summary directory and the text logs of the pairwise models. Generators on NumPy draw from its global generator and never seed it, so its seed decides what they draw.',
 ['histories','configurations'],'all sequences of uses, in a default session or scope of the caller or not, with failures at any session call',
 'The tests use one model per process and look at nothing but its result.',
 ALL+[PT,PN,PO,PON],[('build_model and train','all models'),('generators','DataGenerator, pitf_ops_numpy')])
p('C35','The shipped programs train what they announce and write its history',
 'Every demonstration and experiment program, and the example of the README, runs to its end for all sizes, ranks and random data. It trains the model it is named after, with the announced rank, on data of the announced shape and structure; the MovieLens programs on exactly the entries of their file. What an experiment prints and writes to its result file is, in order and one line per step, the history of that training. Programs for several graphs train every tensor with its own data.',
 ['inputs','configurations'],'all extents, ranks, random data and rating files',
 'The tests run none of the programs.',
 ['tensorD/demo/cp_demo.py','tensorD/demo/ncp_demo.py','tensorD/demo/ntucker_demo.py','tensorD/demo/tucker_demo.py','tensorD/demo/multigraph_demo.py','tensorD/ex/cp_ex.py','tensorD/ex/ncp_ex.py','tensorD/ex/ntucker_ex.py','tensorD/ex/tucker_ex.py','tensorD/ex/ml_cp.py','tensorD/ex/ml_ncp.py','tensorD/ex/ml_ntucker.py','tensorD/ex/ml_tucker.py'],[('the programs','cp_run, ncp_run, ntucker_run, tucker_run and the __main__ blocks')])
p('C36','Extents known only at run time give right results or an error',
 'An operation, tensor type, loss or pairwise operator that is built from tensors whose extents or order are unknown when the graph is built either raises, or gives the result of its definition for every size it is then fed with, also when several sizes are fed in one session. It never silently returns a wrong result.',
 ['inputs','histories'],'every operation, every pattern of unknown extents including an unknown order, every sequence of sizes fed, extents of one and coinciding extents included',
 'All tests use constants, whose extents are known.',
 [O,T,L,PO],[('get_shape / tf.shape in the operations','tensorD/base/ops.py, type.py, pitf_ops.py, loss.py')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
