#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Derivatives of elementwise operations are the true derivatives',
 "For every elementwise operation (add, subtract, multiply, divide and the NaN-suppressing divide, power, maximum, minimum, exp, log, sin, cos, tan, arcsin, arccos, arctan, sqrt, square, reciprocal, negative, absolute, clip, nan_to_num, gamma) the Jacobian returned for each operand equals the partial derivative of the operation's own value, at every point where it is differentiable, with flattened outputs as rows and flattened inputs as columns. "
 "This holds for every shape, for every way numpy broadcasting combines the two operands' shapes, when one object is both operands, and regardless of which other operations were differentiated before. "
 "Operations that are locally constant (floor, ceil, sign, comparisons) report no derivative.",
 ['inputs', 'histories'], 'all operand values inside the domain of differentiability (away from kinks and ties), all shapes, broadcasting pairs and aliasing patterns, all orders in which operations of various shapes are differentiated',
 'test_ch samples one shape per operation and compares a directional finite difference at one random point; structure reused between operations of equal shapes is never exercised in a hostile order.',
 ['chumpy/ch_ops.py', 'chumpy/extras.py'],
 [('UnaryElemwise and its subclasses', 'chumpy/ch_ops.py'), ('binary operations (add ... power, Extremum)', 'chumpy/ch_ops.py'), ('_broadcast_matrix/_broadcast_setup', 'chumpy/ch_ops.py')],
 [('_bs_setup_data1/_bs_setup_data2', 'sparsity structure shared by all operations with the same operand shapes', 'chumpy/ch_ops.py')], ['dr_wrt'])

prop('C02', 'Derivatives of rearranging operations are the exact selection matrices',
 "For every operation that only moves, repeats or drops entries (indexing, reshape, ravel, transpose, swapaxes, rollaxis, roll, rot90, tile, repeat, sort of distinct values, diag, diagflat, squeeze, expand_dims, flips, atleast_nd, concatenate, hstack, vstack, dstack) the Jacobian has a 1 where an output entry is a copy of an input entry and 0 everywhere else. "
 "This holds for all shapes and arguments, when one object is concatenated several times, and after the inputs, their shapes or the arguments have been changed.",
 ['inputs', 'histories'], 'all input shapes, all arguments (axes, indices, repetitions, shifts), all sequences of changes of inputs, shapes and arguments between evaluations',
 'the tests sample a few shapes and arguments, mostly with one evaluation per object, so structure remembered from an earlier shape or argument is never observed.',
 ['chumpy/reordering.py', 'chumpy/ch.py'],
 [('Reorder and its subclasses', 'chumpy/reordering.py'), ('Select, Reshape, AtleastNd, Concatenate', 'chumpy/reordering.py'), ('__getitem__', 'chumpy/ch.py')],
 [('dr_lookup, _dr_cached, dr_cached', 'selection matrices remembered per object', 'chumpy/reordering.py')], ['dr_wrt'])

prop('C03', 'Derivatives of reductions and products are the true derivatives',
 "For sum, mean, the sum of squares, cumulative sum (of all entries), max, min and their NaN-ignoring forms (over all entries or one axis, positive or negative), dot products of arrays of any rank, tensordot, the row-wise cross product of (n,3) arrays and multiplication by a constant matrix, the Jacobian returned for each operand equals the partial derivative of the operation's own value wherever that is unique. "
 "This holds for all shapes and values, when one object is both operands, and after inputs, shapes or the axis have been changed.",
 ['inputs', 'histories'], 'all shapes, axes and values (extrema attained once), all aliasing patterns, all sequences of changes',
 'the tests sample a handful of shapes and axes and never change a shape or the axis between two derivatives of one object.',
 ['chumpy/ch_ops.py', 'chumpy/ch.py', 'chumpy/np_tensordot.py'],
 [('sum, mean, SumOfSquares, cumsum, A_extremum, dot, Cross', 'chumpy/ch_ops.py'), ('MatVecMult', 'chumpy/ch.py'), ('tensordot', 'chumpy/np_tensordot.py')],
 [('dr_cache', 'summation matrices remembered per shape and axis', 'chumpy/ch_ops.py')], ['dr_wrt'])

prop('C04', 'Derivatives of matrix functions are the true derivatives',
 "For the inverse (also of stacks of matrices), determinant, log-determinant, pseudo-inverse of full-rank matrices, least-squares solution, norm and the factors of the singular value decomposition (for distinct non-zero singular values) the Jacobian equals the partial derivative of the operation's own value with respect to the matrix (and the right-hand side), for all sizes and values where the operation is differentiable, also after the matrix has been changed.",
 ['inputs', 'histories'], 'all sizes (tall and wide where allowed), all invertible / full-rank / distinct-singular-value matrices, changes of the matrix between evaluations',
 'test_linalg compares at one random matrix per function.',
 ['chumpy/linalg.py'],
 [('Inv, Det, LogAbsDet, Pinv, lstsq, norm, SvdD, SvdU, SvdV', 'chumpy/linalg.py')],
 [('UDV', 'decomposition remembered until the matrix changes', 'chumpy/linalg.py')], ['dr_wrt'])

prop('C05', 'Derivatives of composite expressions obey the chain rule',
 "The Jacobian of any expression with respect to any variable or intermediate result it is built from equals the sum, over the expression's distinct inputs, of the local derivative with respect to that input times that input's own Jacobian; a subexpression used in several places contributes once for each use. "
 "With respect to a selection of entries of a variable (also a selection of a selection) it equals the corresponding columns of the Jacobian with respect to the variable. "
 "No derivative is reported if and only if the expression has no differentiable path to the target.",
 ['inputs', 'programs'], 'all expression graphs (any number of inputs per operation, any sharing), all targets',
 'tests differentiate a few fixed expressions; sharing patterns, selections of selections and non-leaf targets are sampled once or not at all.',
 ['chumpy/ch.py'],
 [('dr_wrt, compute_rop, _compute_dr_wrt_sliced, compute_dr_wrt of variables', 'chumpy/ch.py')], (), ['dr_wrt'])

prop('C06', 'Forward mode, reverse mode and vector products agree',
 "For every expression and target, differentiating in reverse mode gives the same Jacobian as the default forward mode, and left-multiplying through the graph by any matrix of matching width gives that matrix times the Jacobian, or nothing exactly when the Jacobian is absent. "
 "This also holds for targets that are selections of a variable and for shared subexpressions.",
 ['inputs', 'programs'], 'all expression graphs, all targets, all left-hand matrices (dense or sparse)',
 'reverse mode is exercised by one test on one expression.',
 ['chumpy/ch.py'], [('lmult_wrt, lop, compute_lop, dr_wrt(reverse_mode=True)', 'chumpy/ch.py')], (), ['lop', 'lmult_wrt', 'dr_wrt'])

prop('C07', 'Values are never stale',
 "After any history of assignments to variables (whole values, single entries, several attributes at once, replacing an operand or an operation's argument) interleaved with evaluations in any order, the value of every expression equals the value obtained by building the same expression afresh from the current state of its variables and arguments. "
 "(What is resolved once, when an expression is built, stays resolved: indices and shapes worked out by indexing, squeeze, expand_dims, flips and stacking, and the operands of nested concatenations and reshapes, which are flattened.) Nothing depends on which intermediate results were evaluated before, on how often a subexpression is shared, or on other expressions that share nodes with it, or on evaluations that failed with an exception.",
 ['histories', 'programs'], 'all expression graphs, all finite histories of assignments and evaluations',
 'tests run a few two- or three-step histories on fixed graphs.',
 ['chumpy/ch.py'], [('__setattr__, set, __call__, clear_cache, r', 'chumpy/ch.py')],
 [('_cache', 'remembered value and derivatives', 'chumpy/ch.py'), ('_parents', 'who uses this node, and as which operands', 'chumpy/ch.py'), ('_itr', 'tag of the update that last cleared this node', 'chumpy/ch.py')], ['r', '__call__'])

prop('C08', 'Derivatives are never stale',
 "After any history of assignments interleaved with evaluations and differentiations in any order, every Jacobian of every expression equals the Jacobian of the same expression built afresh from the current state. "
 "Asking twice without a change in between gives equal results, and a Jacobian handed out earlier is not altered by later assignments or differentiations; a differentiation that failed with an exception leaves nothing behind.",
 ['histories', 'programs'], 'all expression graphs, all finite histories of assignments, evaluations and differentiations',
 'tests rarely ask for a derivative again after a change, and never after changes of shape or of an operand.',
 ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py'], [('dr_wrt caching, clear_cache, clear_cache_wrt', 'chumpy/ch.py')],
 [("_cache['drs']", 'remembered Jacobians by target', 'chumpy/ch.py')], ['dr_wrt'])

prop('C09', 'Change notification and dependent cached properties are coherent',
 "A property declared to depend on some of an object's inputs is recomputed before its next use whenever one of these inputs, or anything below it, has changed since it was last computed, and is not recomputed otherwise. "
 "An object's change callback runs before its next value or derivative is computed after a change, at most once per evaluation, and is told exactly the names of the inputs that changed or have something below them that changed since its last call that succeeded.",
 ['histories', 'programs'], 'all graphs, all sets of declared dependencies, all histories of assignments and evaluations',
 'one test checks one dependency on a two-node graph.',
 ['chumpy/ch.py'], [('depends_on, _invalidate_cacheprop_names, _call_on_changed, clear_cache, __setattr__', 'chumpy/ch.py')],
 [('_dirty_vars', 'inputs changed since the last callback', 'chumpy/ch.py'), ('_depends_on_deps', 'out-of-date flags and values of dependent properties', 'chumpy/ch.py')], ['r', 'dr_wrt'])

prop('C10', 'Values equal what numpy computes',
 "Every wrapped function, operator and method returns, for all shapes, values and supported arguments, the value that the numpy function of the same name returns for the current values of its operands, as float64 with scalars becoming one-element arrays; reversed operators with a plain number or array on the left included. Singular vectors are equal up to their signs, power gives 0 for an infinite result, and NanDivide for any non-finite one. "
 "(Known exception: var and std return the mean of squares and its root.)",
 ['inputs'], 'all operand shapes and values, all supported arguments, Ch or plain operands on either side',
 'the tests compare a few functions on one input each; reversed operators are sampled once.',
 ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/logic.py', 'chumpy/ch.py', 'chumpy/extras.py'],
 [('compute_r of every class, operator overloads, module level wrappers', 'chumpy/*.py')], (), ['r'])

prop('C11', 'Values are read-only float64 arrays and evaluation has no side effects',
 "The value of any object is a float64 array of at least one dimension that cannot be written to by its receiver. "
 "Evaluating or differentiating an expression changes no operand's value, no argument, no array supplied by the user, and no result returned earlier; later assignments do not change results returned earlier either.",
 ['inputs', 'histories'], 'all expressions, all input dtypes and ranks, all interleavings of evaluation, differentiation and assignment',
 'no test checks that operands, arguments or earlier results survive.',
 ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/extras.py'],
 [('r', 'chumpy/ch.py'), ('compute_r / compute_dr_wrt of every class', 'chumpy/*.py')], (), ['r', 'dr_wrt'])

prop('C12', 'Indexed assignment changes exactly the selected entries',
 "Assigning to an index expression of a variable sets exactly the entries that numpy's own indexed assignment would set, to the same values, and changes no other entry, no array the variable was created from and no other variable. "
 "Assigning through a view (any chain of selections, reshapes and transposes of a variable) sets exactly the entries of the underlying variable that the assigned entries of the view show; assigning through anything that is not a view of one variable is refused and changes nothing.",
 ['inputs', 'programs'], 'all variable shapes, all index expressions (integers, slices, masks, index arrays), all values incl. broadcasting and non-finite ones, all chains of views',
 'tests assign through one slice and one reshape.',
 ['chumpy/ch.py', 'chumpy/reordering.py'], [('__setitem__, __getitem__', 'chumpy/ch.py'), ('Permute classes', 'chumpy/reordering.py')], (), ['__setitem__', 'r'])

prop('C13', 'Copies and pickles are equal and independent',
 "Copying an expression, or pickling and unpickling it, yields an expression with equal value and equal Jacobians with respect to its corresponding variables, which keeps reacting to changes of its own variables. "
 "Changing either of the two afterwards never changes the other, and copying does not alter the original.",
 ['programs', 'histories'], 'all picklable expression graphs in any caching state, all later histories on either copy',
 'one test pickles one expression and compares the value.',
 ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py'], [('__getstate__, __setstate__, copy', 'chumpy/ch.py, chumpy/ch_ops.py, chumpy/reordering.py')], (), ['copy', 'pickle'])

prop('C14', 'Replacement and redundancy removal preserve meaning',
 "Replacing one object by another inside an expression makes the expression equal (value and derivatives) to the same expression built with the replacement, including reactions to later changes, and leaves expressions that were not asked to change as they were except through shared parts. "
 "Removing redundancy changes neither the value nor any derivative of an expression with respect to its variables, now or after any later change of them, and never merges distinct variables.",
 ['programs', 'histories'], 'all expression graphs, all choices of replaced object, all later histories',
 'tests check the value once after one replacement, and the node count after one redundancy removal.',
 ['chumpy/ch.py'], [('replace, remove_redundancy, sid', 'chumpy/ch.py')], (), ['replace', 'remove_redundancy'])

prop('C15', 'The dogleg minimizer never gets worse and respects its budget',
 "Minimizing with the default method never leaves the sum of squares of the residuals larger than it was, from one reported step to the next and overall: the final free variables give the last accepted, smallest sum of squares seen at a reported step, and rejected trial steps (also non-finite ones) are undone exactly. "
 "After the first trial step, no further iteration is started once the requested number of iterations has been made, and no further trial once the requested number of function evaluations is used up.",
 ['inputs', 'histories'], 'all objectives (also ones with NaN or infinite residuals, zero or wrong-way Gauss-Newton steps), all starting points and options',
 'tests run to convergence on a few smooth problems and look only at the end result.',
 ['chumpy/optimization_internal.py', 'chumpy/optimization.py'], [('minimize_dogleg, DoglegState', 'chumpy/optimization_internal.py')],
 [('state.p, state.r, state.J', 'last accepted point, its residuals and Jacobian', 'chumpy/optimization_internal.py')], ['minimize', 'on_step callback'])

prop('C16', 'Every dogleg step stays inside the trust region, which is updated lawfully',
 "Each step the dogleg method proposes is no longer than the current trust-region radius: it is the steepest-descent (Cauchy) step cut at the radius if that step reaches the radius, otherwise the Gauss-Newton step if that fits (or if no radius was given, when its length becomes the radius), otherwise the point of length equal to the radius on the segment joining the two. "
 "The radius is raised to 2.5 times the step length (never lowered) after a step that achieved more than 0.9 of the predicted gain, is cut to a quarter when the step achieved no gain or less than 0.05 of the predicted gain, and is unchanged otherwise.",
 ['inputs'], 'all Jacobians, residuals, radii and steps over the real numbers',
 'no test looks at steps or radii.',
 ['chumpy/optimization_internal.py'], [('update_step, beta_multiplier, start_iteration, updateAg, updateGN, updateRadius, Trial', 'chumpy/optimization_internal.py')],
 [('delta', 'trust-region radius', 'chumpy/optimization_internal.py')], ['on_step callback', 'trial evaluations'])

prop('C17', 'Minimization moves only the free entries, each to its own value',
 "During and after minimization every free variable holds, in its own shape, exactly its segment of the optimizer's parameter vector; where a selection (also a selection of a selection) of a variable is free, exactly the selected entries do, and the variable's other entries keep their values. "
 "Variables that are not free are never changed, and the Jacobian the optimizer uses has, for each free variable in order, the columns of that variable's (selected entries') Jacobian.",
 ['inputs', 'configurations'], 'all lists of distinct free variables and (nested, non-overlapping) selections, all shapes, all parameter vectors',
 'tests minimize over whole variables, and over one selection.',
 ['chumpy/optimization_internal.py', 'chumpy/optimization.py'], [('ChInputsStacked, setup_objective', 'chumpy/optimization_internal.py'), ('changevars', 'chumpy/optimization.py')], (), ['minimize'])

prop('C18', 'Functions handed to scipy are consistent at the point asked for',
 "For the methods delegated to scipy and an objective that depends on every free variable, whatever sequence of calls the solver makes, the objective returned for a parameter vector is the scalar objective (or the sum of squares of a vector one) at that vector, the gradient is its derivative at that vector, and, for vector objectives, the Hessian and its products are those of twice the Gauss-Newton matrix at that vector. "
 "When minimize returns, the free variables hold exactly the solver's result.",
 ['histories', 'inputs'], 'all call sequences of objective, gradient and Hessian at arbitrary (also repeated) points, all objectives and free variables',
 'tests run complete minimizations on one function and compare the minimum.',
 ['chumpy/optimization.py'], [('residuals, scalar_jacfunc, ns_jacfunc, hess, hessp, changevars', 'chumpy/optimization.py')],
 [('scalar_jacfunc.vs/.J, ns_jacfunc.vs/.J, hessp.vs/.H', 'remembered point and result', 'chumpy/optimization.py')], ['minimize'])

prop('C19', 'Function-style and grouped expressions equal the expression written out',
 "An expression defined by a Python function of named arguments (whose operations do not depend on the arguments' shapes) has, for every assignment of objects to its arguments in any order and any number of times, the value and the Jacobians (with respect to the arguments and everything below them) of the function's body applied to these objects. "
 "Grouping an expression likewise changes neither its value nor its Jacobians. "
 "Two such objects never influence each other.",
 ['programs', 'histories'], 'all function bodies, all arguments, all histories of (re)assignment of arguments',
 'test_inner_composition evaluates two fixed functions.',
 ['chumpy/ch.py'], [('ChLambda, ChGroup, ChHandle, add_dterm', 'chumpy/ch.py')], (), ['r', 'dr_wrt'])

prop('C20', 'Results do not depend on the storage format',
 "Multiplying two derivative matrices gives the same matrix whether each is given dense, sparse, or, when it has a single entry, as a plain number, and an absent factor gives an absent product. "
 "Requesting dense or sparse results changes only the storage of a Jacobian, never its entries or shape, whether it is computed or remembered, and the automatic choice of sparse storage for mostly-zero results does not change entries either.",
 ['inputs', 'configurations'], 'all conforming pairs of matrices in all combinations of formats, all graphs and requested storage options',
 'tests use whatever format arises for their inputs.',
 ['chumpy/ch.py', 'chumpy/utils.py'], [('_superdot, dr_wrt', 'chumpy/ch.py'), ('convert_inputs_to_sparse_if_necessary, row, col', 'chumpy/utils.py')], (), ['dr_wrt'])

prop('C21', 'User-defined operations are bound to their declared inputs',
 "Constructing an object of any class derived from Ch, directly or from one of the library's operations, binds positional arguments to the declared inputs in the declared order (term_order where the class or a base class gives it, otherwise the class's terms followed by its dterms) and keyword arguments by name; plain numbers and arrays given for differentiable inputs (dterms) become variables holding these values, objects are used as they are, and inputs that are not differentiable (terms) are left as given. "
 "The value and the Jacobians of such an object are those of its compute_r and compute_dr_wrt on the inputs it currently has. "
 "None of this depends on which other classes were defined, instantiated, subclassed or discarded before, and two objects never share state. Declaring an input under a name the library reserves is refused.",
 ['programs', 'histories'], 'all classes (declaring their inputs as one name, tuples or lists, with or without term_order, directly or by inheritance), all arguments, all histories of other class definitions and instantiations',
 'the tests define a handful of classes, each used once and in one way.',
 ['chumpy/ch.py'], [('Ch.__new__, setup_terms, set, depends_on properties', 'chumpy/ch.py'), ('_check_kw_conflict, _props_for, _dep_props_for', 'chumpy/ch.py')],
 [('_setup_terms', 'classes whose declarations were prepared', 'chumpy/ch.py')], ['r', 'dr_wrt'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
