#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so ids/titles stay in step)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Task assignment is an ordered, balanced partition of the tasks',
 'Whatever the task list, the task weights (any non-negative numbers, or none) and the number of MPI workers, the '
 'assignment has one list per worker, and joining these lists in rank order gives back exactly the original tasks in their '
 'original order, so no task is dropped, duplicated or reordered, and the arguments are left unmodified. Every worker '
 'computes the same assignment; with uniform weights the numbers of tasks of any two workers differ by at most one, and with '
 'general weights no worker gets much more than the average load plus the largest single weight. The empty-task test is true '
 'exactly when some worker has no task.',
 ['inputs', 'configurations'],
 'All task lists (empty, shorter and longer than the number of workers, arbitrary objects), all non-negative weight vectors '
 'including zero, tiny and hugely unequal ones, all worker counts.',
 'The tests check a handful of hand-made task lists for one or three workers with strictly positive similar weights.',
 ['modred/parallel.py'],
 [('find_assignments greedy split by cumulative weight', 'modred/parallel.py:find_assignments'),
  ('check_for_empty_tasks', 'modred/parallel.py:check_for_empty_tasks')],
 ['return value of parallel.find_assignments / check_for_empty_tasks'])

prop('C02', 'Inner product arrays hold exactly the pairwise inner products',
 'For any lists of row and column vector handles (or single handles), entry (i, j) of the computed inner product array is the '
 'user inner product of row vector i with column vector j, whatever the numbers of rows and columns, the memory limit, the '
 'verbosity and progress-print interval, the vector type and whether values are real or complex, zero or negative. The '
 'symmetric version equals the general one applied to the same list twice and is exactly Hermitian. The array-based vector '
 'space gives the same matrices for unweighted, 1D-weighted and 2D-weighted inner products (first argument conjugated).',
 ['inputs', 'configurations'],
 'All list lengths, vector values (including zeros, repeated vectors, integer and complex data), vector classes satisfying the '
 'documented interface, max_vecs_per_node settings, weights, 1 to 6 MPI ranks.',
 'Tests use random positive-real-part complex data with one memory limit per size and only 1 or 3 ranks, so chunk edges, '
 'exact zeros, mixed value types, rows-greater-than-columns with complex data and other rank counts are sampled once or never.',
 ['modred/vectorspace.py'],
 [('chunked rectangular computation with ring passing and internal transpose', 'modred/vectorspace.py:VectorSpaceHandles.compute_inner_product_array'),
  ('triangular/rectangular chunked symmetric computation', 'modred/vectorspace.py:VectorSpaceHandles.compute_symm_inner_product_array'),
  ('weighted products', 'modred/vectorspace.py:VectorSpaceArrays')],
 ['returned arrays on every rank'])

prop('C03', 'Linear combinations equal basis times coefficients, one put per sum',
 'For any basis vectors, coefficient array and selected column indices (any order, repeats allowed), each sum handle receives '
 'exactly one put whose vector is the combination of the basis vectors with the selected coefficient column, whatever the '
 'memory limit, print settings and number of MPI workers; 1D coefficients mean one row for one basis vector and one column otherwise. '
 'Basis vectors and the coefficient array are left unmodified. Mismatched numbers of basis vectors, coefficients or sum handles raise ValueError '
 'before any put.',
 ['inputs', 'configurations'],
 'All basis/sum counts, real, integer or complex coefficients including zeros, coefficient index lists, single handles, '
 'vector types, max_vecs_per_node values, 1 to 6 ranks.',
 'Tests use random complex coefficients, the identity selection of columns or a single one, and 1 or 3 ranks.',
 ['modred/vectorspace.py', 'modred/util.py'],
 [('chunked layer accumulation with ring passing', 'modred/vectorspace.py:VectorSpaceHandles.lin_combine'),
  ('array version', 'modred/vectorspace.py:VectorSpaceArrays.lin_combine')],
 ['vectors received by the user-supplied handles', 'raised exceptions'])

prop('C04', 'Vectors held in memory stay within max_vecs_per_node',
 'During inner product arrays, linear combinations and every decomposition that uses handles, the number of the '
 'user\'s vectors alive at the same time in one process never exceeds the number allowed per processor (max_vecs_per_node '
 'divided over the processors of the node, at least three) by more than a small constant number of working temporaries, '
 'however many vectors the data set contains. In particular the peak does not grow with the number of vectors, rows, columns or sums.',
 ['inputs', 'configurations'],
 'All data-set sizes well above the limit, all limits from the minimum to large, all handle-based operations, 1 to 4 ranks.',
 'No existing test counts live vectors; all tests would pass if everything were loaded at once.',
 ['modred/vectorspace.py'],
 [('row/column/sum chunk sizes derived from max_vecs_per_proc', 'modred/vectorspace.py:VectorSpaceHandles')],
 ['live-instance counter of an instrumented user vector class'])

prop('C05', 'Results do not depend on the number of MPI processes or their timing',
 'Every handle-based computation (inner product arrays, linear combinations, POD, BPOD, DMD, total-least-squares DMD, Galerkin projection, '
 'time derivatives) run on any number of MPI processes terminates and gives the same numbers, modes and saved files as run on one process, '
 'every process gets identical return values, and this is so for every relative timing of the processes and for sequences of computations, including ones that put results into files that later ones read, or use as base vectors. Array-only functions and '
 'classes refuse to run on more than one process with RuntimeError.',
 ['schedules', 'inputs', 'configurations'],
 'All rank counts (2 to 6 here), problem sizes smaller and larger than the rank count, and per-rank delays in user callbacks.',
 'Tests run on 1 and 3 ranks with sizes much larger than the rank count and with no control over timing.',
 ['modred/vectorspace.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/parallel.py'],
 [('task split + ring exchange + allreduce', 'modred/vectorspace.py'),
  ('call_and_bcast of decompositions', 'modred/parallel.py:call_and_bcast')],
 ['per-rank return values, files written, exceptions'])

prop('C06', 'Collective helpers equal their sequential definition on every rank',
 'The scalable reduce, allreduce, scan and exscan return, for any number of ranks, root and associative operation (commutative or not), the fold '
 'of the ranks\' values in rank order (all, up to and including, or strictly before the rank; None where the definition gives no value). '
 'Broadcast and call-and-broadcast give every rank the value from rank zero, the function being evaluated only on rank zero, once; '
 'call-from-rank-zero likewise evaluates on rank zero only, returning None elsewhere. When the function called by call-and-broadcast raises, every rank raises an exception (none waits forever). None of them modifies the caller\'s objects.',
 ['inputs', 'configurations'],
 'All rank counts 1 to 6, roots, operations, picklable values, sequences of collectives.',
 'Tests cover sum allreduce and bcast on 1 and 3 ranks only.',
 ['modred/reductions.py', 'modred/parallel.py'],
 [('binomial tree', 'modred/reductions.py:Intracomm.reduce'), ('hypercube scans', 'modred/reductions.py:Intracomm.scan'),
  ('call_and_bcast', 'modred/parallel.py')],
 ['return values on each rank'])

prop('C07', 'Collective puts are complete and visible when the call returns',
 'When a collective call that puts vectors (modes, linear combinations, time derivatives) or arrays (any put method of the '
 'decomposition and model classes) returns on any process, everything it puts has been completely put, so that process can immediately read '
 'all of it, whichever process did the writing. Each array is put by rank zero only and exactly once, each vector by exactly one process.',
 ['schedules', 'configurations'],
 'All put-type methods, 2 to 4 ranks, and all choices of which rank is slow at which put.',
 'The tests cannot control which process is slow; without delays the missing synchronisation almost never shows.',
 ['modred/vectorspace.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/parallel.py'],
 [('barrier after puts', 'parallel.barrier() calls'), ('rank-zero guard', 'parallel.is_rank_zero()')],
 ['existence and content of destinations read by every rank immediately after return', 'log of put calls'])

prop('C08', 'POD gives orthonormal energy-ordered modes and optimal projections',
 'For any data set, real or complex, with no, 1D or 2D (Hermitian positive definite) inner product weights, POD by either array method or by handles returns positive eigenvalues of the '
 'correlation array X*WX in descending order with orthonormal eigenvectors, modes that are orthonormal in the weighted inner product, and projection coefficients equal to the inner '
 'products of the modes with the data, so that modes times coefficients reproduces the data (to the truncation level). Modes requested by index '
 '(any order) are the corresponding columns of the full set; atol and rtol keep exactly the components above the level. The three implementations agree up to a phase per mode.',
 ['inputs', 'configurations'],
 'All shapes (more states than vectors and fewer), ranks, real/complex data, weights, tolerances in spectral gaps, mode index lists.',
 'Tests use one random data set per run, do not vary shape, weights complexity, index order or tolerances, and two of them do not run at all on this numpy.',
 ['modred/pod.py', 'modred/util.py', 'modred/vectorspace.py'],
 [('snapshots method', 'modred/pod.py:compute_POD_arrays_snaps_method'), ('direct method', 'modred/pod.py:compute_POD_arrays_direct_method'),
  ('handles', 'modred/pod.py:PODHandles')],
 ['returned namedtuple / arrays, modes received by handles'])

prop('C09', 'BPOD gives balanced biorthogonal modes from impulse-response data',
 'For direct and adjoint impulse-response data of any linear system (any numbers of inputs, outputs and time steps, real or complex, weighted or not), BPOD by arrays or handles returns '
 'the Hankel array equal to Y*WX, its singular values in descending order and orthonormal singular vectors, and direct and adjoint modes that are biorthonormal in the weighted inner product. '
 'Direct (adjoint) projection coefficients equal the inner products of the adjoint (direct) modes with the direct (adjoint) data; modes requested by index are the '
 'corresponding columns of the full sets; atol and rtol keep exactly the singular values above the level. Arrays and handles agree.',
 ['inputs', 'configurations'],
 'All system sizes, num_inputs, num_outputs, unequal numbers of direct and adjoint time steps, weights, tolerances, index lists.',
 'The array test does not run on this numpy (np.complex) and the handle tests fix two or three sizes.',
 ['modred/bpod.py', 'modred/util.py'],
 [('Hankel assembly from first column/last row', 'modred/bpod.py, modred/util.py:Hankel_chunks'), ('SVD and build coefficients', 'modred/bpod.py')],
 ['returned namedtuple / arrays, modes received by handles'])

prop('C10', 'DMD eigenpairs, modes and projections satisfy their definitions',
 'For sequential or paired data, real or complex, weighted or not, DMD by either array method or by handles returns the eigenvalues of the data\'s best-fit linear map compressed to the leading '
 '(non-truncated) POD subspace; exact modes are eigenvectors of the best-fit map and projected modes of its compression, with those eigenvalues. Adjoint modes are biorthonormal to both sets, projection '
 'coefficients (and the advanced ones) are the inner products of the adjoint modes with the data (advanced data), and spectral coefficients are the magnitudes of the first vector\'s coefficients. '
 'Data from linear dynamics yield its true eigenvalues; atol, rtol, the maximum number of eigenvalues and mode indices select exactly as documented; all implementations agree.',
 ['inputs', 'configurations'],
 'All shapes, ranks, real/complex data, weights, sequential or not, truncations in spectral gaps, mode index lists (also of a single mode).',
 'The array test class does not run on this numpy; handle tests use fixed sizes and never exercise rtol or complex weights.',
 ['modred/dmd.py', 'modred/util.py'],
 [('snapshots method', 'modred/dmd.py:compute_DMD_arrays_snaps_method'), ('direct method', 'modred/dmd.py:compute_DMD_arrays_direct_method'),
  ('handles', 'modred/dmd.py:DMDHandles')],
 ['returned namedtuple / arrays, modes received by handles'])

prop('C11', 'Total-least-squares DMD equals DMD of the de-noised data',
 'For sequential or paired data, real or complex, weighted or not, total-least-squares DMD by either array method or by handles gives the eigenvalues, modes, adjoint modes, spectral and projection '
 'coefficients of DMD applied to the data and advanced data projected onto the leading right singular subspace of the stacked data, truncated as requested by atol, rtol or the maximum number of eigenvalues. '
 'Without truncation it reduces to standard DMD. All implementations agree, and modes requested by index are the corresponding columns of the full sets.',
 ['inputs', 'configurations'],
 'All shapes, truncation levels in spectral gaps, real/complex data, weights, sequential or not, index lists.',
 'Tests compare with a re-implementation on one fixed size with non-generic (positive) random data.',
 ['modred/dmd.py'],
 [('snapshots method', 'modred/dmd.py:compute_TLSqrDMD_arrays_snaps_method'), ('direct method', 'modred/dmd.py:compute_TLSqrDMD_arrays_direct_method'),
  ('handles', 'modred/dmd.py:TLSqrDMDHandles')],
 ['returned namedtuple / arrays, modes received by handles'])

prop('C12', 'SVD and eigendecomposition wrappers return valid truncated factors',
 'For every array, the SVD wrapper returns orthonormal left and right singular vectors and descending positive singular values that reconstruct the array up to the truncated part, and it keeps exactly the '
 'singular values above atol whose ratio to the largest is above rtol. The Hermitian eigendecomposition wrapper does the same ordered by eigenvalue magnitude, and returns only positive eigenvalues when '
 'asked for a positive-definite decomposition. The biorthogonal eigendecomposition returns matching eigenvalues, right and left eigenvectors with left-adjoint times right equal to the identity, the set not chosen for scaling having unit norms.',
 ['inputs'],
 'All real and complex arrays, square or not, rank deficient or not, indefinite Hermitian arrays, all tolerances (or None).',
 'Tests use a few random sizes and tolerances on random positive data.',
 ['modred/util.py'],
 [('svd', 'modred/util.py:svd'), ('eigh', 'modred/util.py:eigh'), ('eig_biorthog', 'modred/util.py:eig_biorthog')],
 ['returned arrays'])

prop('C13', 'Saved text arrays and signals load back exactly',
 'Saving any 1D or 2D array (real, integer or complex, any memory layout, list or array, any supported delimiter) to a text file and loading it with the matching options gives back exactly the same values, '
 '1D arrays coming back as one column, and saving does not change the array; more than two dimensions are refused. '
 'Loading a complex array from a file with an odd number of columns raises ValueError. Signal files load as time values and signals in file order, several files stack in the order given, and files with different time values are refused, whatever the unit of time.',
 ['inputs'],
 'All finite and non-finite values, dtypes, shapes, layouts (C, Fortran, strided, reversed), delimiters, numbers of files and columns.',
 'Tests round-trip C-contiguous random float and complex arrays only.',
 ['modred/util.py'],
 [('save_array_text / load_array_text', 'modred/util.py'), ('load_signals / load_multiple_signals', 'modred/util.py')],
 ['loaded arrays'])

prop('C14', 'A vector handle returns (last put vector minus base) times scale',
 'For any history of puts and gets through any number of in-memory, pickle and text vector handles, sharing or not sharing paths, base vectors and scale factors, each get returns the vector last put to that storage minus the '
 'current value of the base handle\'s vector, times the scale factor, with the handle\'s own base and scale. Getting modifies neither stored vector nor base, and putting stores the vector unscaled and without adding the base; an array given to a put or returned by an earlier get is not changed by later ones. '
 'Handles of the same type compare equal exactly when they refer to the same path (or hold equal vectors).',
 ['histories', 'inputs'],
 'All sequences of put/get operations over sets of handles with shared or distinct paths, base handles (also nested) and scales, real and complex vectors, user-defined vector objects.',
 'Tests create each handle once, and the in-memory one does not run; no test re-puts a base vector or mixes several bases.',
 ['modred/vectors.py'],
 [('base-vector cache and scaling', 'modred/vectors.py:VecHandle.get'), ('put', 'modred/vectors.py:VecHandle.put')],
 ['returned vectors, files'],
 [('cached base vector', 'class-level cache of the last base vector used', 'modred/vectors.py:VecHandle')])

prop('C15', 'Supplied inner products are the weighted quadrature they claim to be',
 'The trapezoidal inner product on any grid (any dimension, non-uniform spacing) equals the sum over grid points of conj(v1) v2 times the tensor-product trapezoidal weights; it is conjugate-symmetric, linear in its second argument, positive for '
 'non-zero vectors on increasing grids, and leaves its arguments unmodified. Vectors whose shape differs from the grid, missing grids and grids that are not arrays are refused. The uniform inner product is the sum of conj(v1) v2 for arrays of any shape.',
 ['inputs'],
 'All grids of 1 to 4 dimensions with at least 2 points each, real and complex vectors, wrong shapes.',
 'One test compares a 2D real case with numpy.',
 ['modred/vectors.py'],
 [('InnerProductTrapz', 'modred/vectors.py'), ('inner_product_array_uniform', 'modred/vectors.py')],
 ['returned scalar, raised exceptions'])

prop('C16', 'The sanity check accepts valid vectors and rejects faulty ones',
 'The sanity check of every handle-based class accepts any vector object whose addition, scalar multiplication and inner product satisfy the documented requirements, whatever its magnitude, and leaves the vector unmodified. '
 'It raises ValueError for a vector of ordinary magnitude whose addition or multiplication modifies an operand in place or gives a wrong result (such as ignoring, dropping or mis-scaling a term), and for an inner product that is not quadratic; it raises RuntimeError when no inner product is given.',
 ['inputs'],
 'All norms from tiny to huge, sizes, real/complex arrays and vector classes; a family of faulty vector classes and inner products.',
 'One test with one array of order-one entries and three faulty objects.',
 ['modred/vectorspace.py'],
 [('sanity_check', 'modred/vectorspace.py:VectorSpaceHandles.sanity_check')],
 ['exception or none'])

prop('C17', 'ERA reproduces the Markov parameters of a finite-order system',
 'Given impulse-response samples at times 0, 1, P, P+1, 2P, ... of a real or complex linear system of order n, any numbers of inputs and outputs and enough samples, the eigensystem realization algorithm with n states returns A, B, C whose Markov parameters C A^k B equal the system\'s for every k, whatever their units, '
 'with the requested (or default) Hankel dimensions, whichever way those are given; fewer states give the leading part of the larger model. Uniformly sampled series converted to the required sampling repeat each interior sample, keep times and values together, and refuse non-uniform times or mismatched lengths. '
 'Saved models and decompositions contain exactly the computed arrays and the inputs are unmodified; one object can be reused for other data.',
 ['inputs', 'configurations', 'histories'],
 'All stable and unstable systems of small order with distinct eigenvalues, sampling intervals, odd and even lengths, 1D/2D/3D input arrays, mc/mo values.',
 'Tests fix a few sizes with stable random systems, and compare within loose tolerances; mc/mo given to the constructor are never exercised.',
 ['modred/era.py'],
 [('ERA', 'modred/era.py:ERA'), ('make_sampled_format', 'modred/era.py')],
 ['returned A, B, C; saved arrays'])

prop('C18', 'OKID recovers the Markov parameters from noise-free input-output data',
 'Given sufficiently rich, noise-free input and output data of a linear system started from rest, with any numbers of inputs and outputs and with or without direct feedthrough, OKID returns an array indexed [time, output, input] whose first entry is the feedthrough and whose later entries are C A^(k-1) B, for all '
 'requested parameters. 1D signals are treated as a single channel, inputs are unmodified, and differing numbers of samples raise ValueError.',
 ['inputs'],
 'All systems of small order, channel counts, data lengths and numbers of Markov parameters at least the order.',
 'Tests use stored data of a few systems with loose tolerance.',
 ['modred/okid.py'],
 [('observer Markov parameters by least squares + recursion', 'modred/okid.py:OKID')],
 ['returned array'])

prop('C19', 'Balanced truncation balances the discrete-time Gramians',
 'For any stable, controllable and observable discrete-time system, in any units of its inputs and outputs, the full-order balanced system has the same Markov parameters as the original, and its controllability and observability Gramians are both equal to the diagonal matrix of returned singular values, which are the Hankel singular values in descending order. States that are not excited (or not seen) at all drop out. '
 'Truncating to a given order returns the leading part of the balanced system, of that order, whose Markov parameters differ from the original by at most twice the sum of the discarded singular values. The inputs are unmodified.',
 ['inputs'],
 'All stable minimal systems of small order, real or complex, any numbers of inputs and outputs, every truncation order.',
 'The test only checks that a full-order model has the same impulse response, which holds for any similarity transform.',
 ['modred/util.py'],
 [('balanced_truncation', 'modred/util.py')],
 ['returned arrays'])

prop('C20', 'Simulations and random systems follow the discrete-time definitions',
 'Simulating with arbitrary inputs and initial condition gives outputs y(n) = C x(n) of x(n+1) = A x(n) + B u(n), one row per time step, and the impulse response gives C A^k B indexed [time, output, input] for exactly the requested number of steps, without modifying the arguments. '
 'Random discrete-time (continuous-time) systems have the requested dimensions and real eigenvalues inside the unit circle (in the left half plane).',
 ['inputs'],
 'All system dimensions, lengths, initial conditions.',
 'Tests check a couple of sizes.',
 ['modred/util.py'],
 [('lsim, impulse', 'modred/util.py'), ('drss, rss', 'modred/util.py')],
 ['returned arrays'])

prop('C21', 'Hankel builders place every element and chunk on its skew diagonal',
 'For any first column and last row, entry (i, j) of the Hankel array is the element number i+j of the first column continued by the last row (whose first element is ignored, and which is zeros by default), with shape len(first column) by len(last row). '
 'The chunked version does the same with equally sized 2D chunks, square or not, preserving the values and number type of the chunks (real or complex), and neither modifies its arguments.',
 ['inputs'],
 'All lengths (also one), chunk shapes, real and complex values, default and given last rows.',
 'Tests fix a few sizes.',
 ['modred/util.py'],
 [('Hankel', 'modred/util.py'), ('Hankel_chunks', 'modred/util.py')],
 ['returned array'])

prop('C22', 'Galerkin projection gives the oblique projection of the dynamics',
 'For any basis and (optional) adjoint basis, real or complex, weighted or not, the reduced arrays are (adjoint* W basis)^-1 adjoint* W applied to A-on-basis and to B, and C-on-basis, with the inverse omitted exactly when the basis is declared orthonormal; arrays and handles agree and results do not depend on the order or repetition of the calls. '
 'Time-derivative helpers give (advanced vector - vector)/dt for every vector. Saved models contain exactly the computed arrays; mismatched basis sizes are refused and inputs are unmodified.',
 ['inputs', 'configurations', 'histories'],
 'All dimensions, numbers of inputs/outputs different from the number of modes, orthonormal and general bases, weights, call orders.',
 'Tests fix one size with real data for most cases.',
 ['modred/ltigalerkinproj.py'],
 [('LTIGalerkinProjectionArrays/Handles', 'modred/ltigalerkinproj.py'), ('compute_derivs', 'modred/ltigalerkinproj.py')],
 ['returned arrays, saved arrays, derivative vectors'])

prop('C23', 'Saved decompositions can be loaded into a new object and continued',
 'For POD, BPOD, DMD and total-least-squares DMD, putting the decomposition (and correlation, Hankel, projection and spectral arrays) and getting it into a fresh object, through text files or memory, restores the same arrays, and '
 'modes, projection coefficients and spectral coefficients computed by the new object equal those of the original, also when only one component or one mode exists. Recomputing the eigendecomposition or SVD from loaded arrays gives the original decomposition.',
 ['inputs', 'histories'],
 'All decomposition sizes (one component and more), real and complex data, destinations, orders of put/get calls.',
 'Tests put and get through one in-memory mapping with many components, and never continue with mode computation after a text-file round trip.',
 ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py'],
 [('put_decomp/get_decomp and single put/get methods', 'modred/pod.py, modred/bpod.py, modred/dmd.py')],
 ['arrays and modes of the restored object'])

prop('C24', 'Calls have no side effects and reused objects behave like new ones',
 'Array functions never modify their arguments, give the same result when called again, and do not depend on the memory layout of the data or on lists being passed instead of arrays. An object of a handle-based class used for any sequence of computations '
 '(other data sets, paired after sequential data, other truncations, explicit or remembered handles) gives at every step the same results as a fresh object given only the last relevant inputs, and methods that need data not yet supplied raise an error instead of computing with other data.',
 ['histories', 'inputs'],
 'All sequences of public calls on one object, interleaved with other objects, and all layouts (C, Fortran, strided) of array arguments.',
 'Tests use each object for one computation.',
 ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/era.py', 'modred/util.py'],
 [('state kept in decomposition objects', 'vec_handles / adv_vec_handles / decomposition attributes')],
 ['results of each call, arguments after the call'],
 [('remembered handles and arrays', 'attributes set by compute_decomp and reused later', 'modred/dmd.py:DMDHandles')])

prop('C25', 'Errors of user callbacks reach the caller and the call can be repeated',
 'When a user-supplied callback (get or put of a vector handle or of its base handle, inner product, put_array, get_array) raises, whatever the type of the exception and whichever of its calls it is, that exception reaches the caller of the modred operation unchanged: it is neither swallowed nor replaced. '
 'Repeating the failed call on the same object with the same arguments then gives exactly the results, vectors and saved arrays that a run without the fault gives.',
 ['crash points', 'inputs', 'histories'],
 'All handle-based operations in one process, every callback, every call index of it, several exception types, several faults in a row.',
 'No test makes a callback fail.',
 ['modred/vectorspace.py', 'modred/vectors.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py'],
 [('all calls of user callbacks', 'modred/vectorspace.py, modred/vectors.py, put_* methods')],
 ['exception seen by the caller, results of the repeated call'],
 [('cached base vector', 'read once per handle', 'modred/vectors.py:VecHandle')])

prop('C26', 'Messages obey the verbosity and come from rank zero only',
 'With verbosity 0, no handle-based class or ERA writes anything to standard output or standard error on any MPI worker, for any data, memory limit and print interval. With a positive verbosity only rank zero writes, and it warns when max_vecs_per_node is missing or too small for the number of workers; results are the same either way. '
 'The print functions write exactly the given message, from rank zero only, to the channel named (in any case); unknown channels are refused with ValueError and print nothing.',
 ['inputs', 'configurations'],
 'All operations, memory limits, print intervals, numbers of workers; all messages and channel names.',
 'Tests do not capture the output of the decomposition classes, and never on several workers.',
 ['modred/parallel.py', 'modred/vectorspace.py', 'modred/era.py'],
 [('print_stdout, print_stderr, print_msg', 'modred/parallel.py'), ('VectorSpaceHandles.print_msg', 'modred/vectorspace.py'), ('ERA.print_msg', 'modred/era.py')],
 ['standard output and error of every worker'])

prop('C27', 'General helpers, vector base class and equality do what they document',
 'For all arguments: atleast_2d_row/col keep type and entries and give the documented shape; make_iterable wraps exactly what cannot be iterated; flatten_list flattens one level; get_file_list lists exactly the files with the given extension; get_data_members, sum_lists and smart_eq give the documented value without changing their arguments; '
 'arrays of equal contents compare equal and others do not; a vector class which defines __add__ and __mul__ gets subtraction and multiplication by a scalar from the left, consistent with these, from the base class, and one that lacks them raises NotImplementedError; vector spaces and handles are equal exactly when their classes and data are; run_script executes a script in the given name spaces.',
 ['inputs'],
 'All nestings, dimensions, types, file names and extensions, vector classes and scripts.',
 'Tests use one or two hand-written arguments each, and some helpers are not tested.',
 ['modred/util.py', 'modred/vectors.py', 'modred/vectorspace.py'],
 [('helpers', 'modred/util.py'), ('Vector', 'modred/vectors.py'), ('__eq__ / __ne__', 'modred/vectorspace.py, modred/vectors.py')],
 ['returned values, arguments after the call'])

prop('C28', 'Different routes to the same reduced model or modes agree',
 'For linear systems, BPOD followed by Petrov-Galerkin projection gives the model that ERA identifies from the same impulse response (equal Markov parameters), ERA with enough samples agrees with balanced truncation, OKID followed by ERA and lsim reproduces outputs of the identified system for new inputs, '
 'BPOD of data with identical direct and adjoint snapshots gives the POD modes, and projecting the dynamics on POD modes gives the DMD eigenvalues; with arrays as well as with handles, real or complex, weighted or not.',
 ['inputs', 'configurations'],
 'All stable systems, orders, numbers of inputs and outputs, weights, data sets with well-separated spectra; array and handle implementations.',
 'Each test looks at one module, so errors in conventions shared by two modules (ordering, scaling, conjugation, sampling) stay hidden.',
 ['modred/bpod.py', 'modred/era.py', 'modred/okid.py', 'modred/pod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/util.py'],
 [('whole reduction pipelines', 'modred/*.py')],
 ['Markov parameters, outputs, eigenvalues and modes'])

prop('C29', 'Requests whose parts do not fit are refused without effect',
 'A request whose parts do not fit together (numbers of vectors, handles, coefficients, rows or columns, numbers of vectors that are no multiple of the numbers of inputs or outputs, indices out of range, weights of the wrong size or dimension, data in an unknown format, missing inner product, missing files to load) raises an exception on every MPI worker instead of returning a result, and puts no vector and no array. '
 'It leaves objects usable: later consistent requests give the same results as if the refused one had not been made, and data of a refused decomposition are never used.',
 ['inputs', 'configurations', 'histories'],
 'All operations, all kinds of misfit, all sizes and numbers of workers.',
 'Tests check a few refusals in one process, and never what the object does afterwards.',
 ['modred/vectorspace.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/era.py', 'modred/okid.py', 'modred/util.py'],
 [('checks of sizes before any computation', 'modred/vectorspace.py:lin_combine, modred/dmd.py:compute_decomp, modred/ltigalerkinproj.py')],
 ['exceptions of every worker, vectors and arrays put, later results'],
 [('remembered handles', 'vec_handles, adv_vec_handles', 'modred/dmd.py')])

prop('C30', 'Without mpi4py everything works as in one MPI process',
 'Where mpi4py cannot be imported, modred imports, its parallel helpers describe one process (rank zero of one, one node, not distributed) and call or return their arguments directly, and every array-based and handle-based computation, helper function, save, load and message gives the same result as with mpi4py in one process.',
 ['inputs', 'configurations'],
 'All operations of the array and handle classes, system identification, file handles and helpers, all data sizes and memory limits.',
 'Tests run with the mpi4py that is installed; the branches for its absence are never executed.',
 ['modred/parallel.py', 'modred/vectorspace.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py', 'modred/era.py', 'modred/okid.py', 'modred/util.py'],
 [('fallbacks for one process', 'modred/parallel.py')],
 ['returned values, vectors and arrays put, printed text, in processes with and without mpi4py'],
 [('MPI availability', '_MPI_avail, comm, custom_comm', 'modred/parallel.py')])

prop('C31', 'Vectors are retrieved and combined no more often than documented',
 'Apart from a constant number of calls per process for timing, an inner product array takes one inner product per entry, and each vector of the shorter list is retrieved once, each of the longer list once per group of the others that fits in memory; the symmetric version takes only the entries above and on the diagonal (in one process; never more than all entries on several); linear combinations retrieve each basis vector once per group of sums that fits in memory, with one multiplication per coefficient and one put per sum. '
 'The work is divided evenly over the processes. Decompositions take no more than the arrays they are made of (BPOD only the first column and last row of chunks of the Hankel array, sequential DMD only one symmetric array); projection coefficients, spectra, saved or loaded decompositions and recomputed eigendecompositions need no vectors; Galerkin projection computes the projection array at most once.',
 ['inputs', 'configurations', 'histories'],
 'All numbers of vectors, memory limits, numbers of processes and nodes, all handle-based operations.',
 'Tests look at results only; doing work twice, or on one process, leaves them unchanged.',
 ['modred/vectorspace.py', 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/ltigalerkinproj.py'],
 [('chunks and passes', 'modred/vectorspace.py:compute_inner_product_array, compute_symm_inner_product_array, lin_combine')],
 ['calls of get, put, inner product and scalar multiplication, per process'],
 [('projection array', '_proj_array', 'modred/ltigalerkinproj.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
