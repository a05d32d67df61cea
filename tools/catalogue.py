"""
The catalogue of properties: writes properties.jsonl and MANIFEST.json.

    python3 tools/catalogue.py
"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sigmaepsilon/math/"

# id, title, statement, quantified over, text of the quantifier, why tests can't, files, mechanism, technique, note
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((id, title, statement, over, text, why, files, mech, technique, note))


p("P01", "Tensors are invariant under any history of changes of frames",
  "However frames are changed in place (new axes, single items, scaling, shifting, rotation, transposition) and however tensors of any order are re-attached to other frames, the components a vector or tensor has in the ambient frame and in every other frame stay those of the same geometric object. The components and every array-like view of a tensor always correspond to the current axes of its frame. This holds for single tensors, for collections, and for collections with one frame per item.",
  ["histories", "inputs"], "every sequence of in-place changes of several frames shared by several tensors of any order, class and dimension",
  "The tests change a frame once or twice with fixed numbers, mostly with orthonormal axes; interplay of several observers, several operations, skew axes and views is never exercised.",
  ["linalg/frame.py", "linalg/tensor.py", "linalg/vector.py", "linalg/abstract.py", "linalg/meta.py", "linalg/tr.py"],
  [("frames notify the tensors attached to them", "linalg/frame.py: weak references, axes setter, in-place operators"), ("components follow the frame", "linalg/meta.py, linalg/tensor.py: frame setter, transform_components")],
  "stateful (model-based) property testing of frame/tensor histories against an ambient-components model",
  "Random histories of up to 12 operations on up to 3 initial frames; NumPy is the trusted oracle of matrix algebra.")
p("P02", "Copies equal the original and are independent of it",
  "A copy of a vector, tensor or frame, shallow or deep, made by its method or by Python's copy module, is of the same class and has the same components and axes as the original at the moment of copying. Nothing done to the copy changes the components of the original and the other way around, and a deep copy has its own frame, too. Objects are also independent of the arrays they were created from and of the arrays their components are shown in.",
  ["histories", "inputs"], "every sequence of copies and in-place modifications, every memory layout of the inputs",
  "Existing tests copy once and compare; aliasing only shows after a particular later modification.",
  ["linalg/meta.py", "linalg/frame.py", "linalg/tensor.py", "linalg/vector.py", "linalg/abstract.py"],
  [("copying", "linalg/*: copy, deepcopy, __copy__, __deepcopy__"), ("construction from arrays", "linalg/frame.py, linalg/meta.py constructors and setters")],
  "stateful property testing with a model, aliasing probes", "Aliasing is probed by overwriting arrays and by memory-sharing queries.")
p("P03", "Frames: transformation matrices, duals, metric, volume, predicates",
  "For any set of linearly independent base vectors the matrix that transforms components between two frames maps the components of every vector correctly, inverses and compositions are consistent, and the axes shown in another frame are the components of the base vectors there. Dual base vectors satisfy the duality relation, the metric matrix consists of the scalar products, the metric tensor is the identity map and the volume is the signed volume, whatever the lengths of the base vectors are. Predicates of rectangularity, orthonormality and independence tell the truth, and operations turn a special frame into the class its new axes belong to. In NumPy functions a frame stands for the array of its base vectors.",
  ["inputs"], "all frames with independent base vectors in 1-5 dimensions, and stacks of them",
  "Tests use a handful of mostly orthonormal 3d frames, for which most mistakes (transposes, inverses, metric) cancel out.",
  ["linalg/frame.py", "linalg/utils.py", "linalg/logical.py"],
  [("transformation between frames", "linalg/frame.py: dcm, show"), ("metric and dual", "linalg/frame.py: Gram, dual, volume; linalg/utils.py: dual_frame, Gram, normalize_frame")],
  "property testing against solutions of linear systems, metamorphic relations (inverse, composition)", "Well conditioned frames only (bounded skewness).")
p("P04", "Rotations are proper, compose, and rotate frames and tensors alike",
  "A rotation given by body or space fixed angles, a quaternion or a matrix is the proper rotation of the textbook definition. Rotating a frame rotates its base vectors, leaves lengths, angles and volume unchanged, and leaves every vector attached to it in place; variants that return a new object leave the original untouched. Rotating a tensor rotates the geometric object while its frame stays where it is.",
  ["inputs", "histories"], "all rotation types, orders and angles, all frames and tensors up to fourth order",
  "Tests use a few orders and round angles on orthonormal frames.",
  ["linalg/frame.py", "linalg/tensor.py", "linalg/vector.py", "linalg/meta.py", "linalg/utils.py", "linalg/tr.py"],
  [("rotation matrices", "linalg/utils.py: rotation_matrix"), ("rotation of frames and tensors", "orient, orient_new, rotate, rotate_new")],
  "property testing against independently composed rotation matrices", "Elementary rotations and Rodrigues' formula written from scratch are the oracle.")
p("P05", "Tensor arithmetic does not depend on the frames of the operands",
  "Sums, differences, multiples, quotients, negatives, duals and transposes of vectors and tensors, out of place or in place, represent the corresponding operation on the geometric objects whatever frames the operands are given in. Operands of out-of-place operations and the right hand sides of in-place operations do not change. The class, the order and the single-or-collection nature are kept, and operands that do not match or are not tensors are refused and leave everything unchanged. Tensors are compared for closeness as geometric objects, and chopping sets exactly the components below the limit to zero.",
  ["inputs", "histories"], "all pairs of frames, all tensor classes and dimensions, all sequences of operations",
  "Tests add tensors of the same or of two fixed orthonormal frames.",
  ["linalg/tensor.py", "linalg/vector.py", "linalg/meta.py", "linalg/abstract.py"],
  [("operators", "linalg/meta.py, linalg/tensor.py, linalg/vector.py: arithmetic operators, __array_ufunc__, dual, transpose")],
  "property testing and stateful histories against ambient components", "Ambient components (computed with NumPy) are the oracle.")
p("P06", "Dot products and contractions do not depend on frames",
  "The dot product of two vectors is the scalar product of the arrows; products of tensors with vectors and tensors and contractions along any pair of axes are those of the geometric objects, whatever frames the operands are given in, and if a frame is asked for, the result is in that frame. Products of collections are the products of their items. Operands do not change.",
  ["inputs"], "all pairs of operands of order 1-6 in all frames, single or collections of them, all axes of contraction",
  "Tests mostly multiply in orthonormal frames, where co- and contravariant components coincide.",
  ["linalg/utils.py", "linalg/tensor.py", "linalg/vector.py"],
  [("products", "linalg/utils.py: dot; array function protocol for np.dot")],
  "property testing against contractions of ambient components", "NumPy tensordot on ambient components is the oracle.")
p("P07", "Cross products are right-handed and frame independent",
  "The cross product of two vectors, and of a vector and a second order tensor, is that of the geometric objects in any pair of frames, also skew and left-handed ones; it is anticommutative and perpendicular to its factors, and in the frame that is asked for. Products of collections are the products of their items. The permutation tensor of every dimension holds the signs of the permutations and zeros elsewhere.",
  ["inputs"], "all vectors, tensors and frames in 3d; permutation tensors up to dimension 6",
  "Tests use orthonormal right-handed frames and dimension 3.",
  ["linalg/utils.py", "linalg/vector.py", "linalg/tensor.py"],
  [("cross product", "linalg/utils.py: cross; array function protocol for np.cross"), ("permutation symbol", "linalg/utils.py: permutation_tensor")],
  "property testing against the component formula; exhaustive permutation symbols", "Exhaustive for permutation tensors up to dimension 6.")
p("P08", "A collection of tensors behaves as its items one by one",
  "Transforming, combining, scaling, transposing, rotating or copying a collection of vectors or tensors gives for every item what the same operation gives for that item alone, with one frame for all items or one frame for each. The result is again a collection of the same size. Shapes that are neither that of a tensor nor that of a collection are refused.",
  ["inputs"], "collections of any size, nesting, tensor class and dimension, and any frames",
  "Tests check collections of a fixed size and mostly compare shapes; separate parallel kernels serve each combination of collection and frames.",
  ["linalg/tensor.py", "linalg/vector.py", "linalg/tr.py", "linalg/utils.py"],
  [("parallel kernels", "linalg/tr.py, linalg/utils.py: transformation kernels for stacks"), ("bulk flag", "linalg/tensor.py, linalg/vector.py")],
  "differential property testing: collection against its items", "Small collections (up to 64 items).")
p("P09", "Linear systems with prescribed unknowns are solved correctly",
  "With any subset of the unknowns prescribed, the solution takes the prescribed values exactly, satisfies the equations of the free unknowns, and the returned residuals are the left hand side minus the right hand side of the original system, for every method, any number of right hand sides, integers or floats. Without prescriptions all methods solve the system and the reduced system has the same solution. Inputs stay unchanged unless asked otherwise and singular systems are never answered with a wrong finite solution.",
  ["inputs", "configurations"], "systems of 1-7 unknowns with admissible pivots, any prescription, any method",
  "Tests solve a few fixed matrices; the number, order and position of prescribed unknowns matter.",
  ["linalg/solve.py"], [("elimination with prescriptions", "linalg/solve.py: linsolve, reduce, elimination and back substitution kernels")],
  "property testing against the reduced system solved by LAPACK", "Elimination is without pivoting by design: systems with small pivots are out of scope.")
p("P10", "Closed-form determinants, inverses, norms and paths are right",
  "Closed-form determinants, adjugates and inverses of 2x2 and 3x3 matrices, single, stacked, nested or symbolic, agree with the definition. Generalized inverses are the Moore-Penrose inverse and rank deficiency is reported. Products, norms, normalization, unit vectors, equidistant points between points or numbers (end points included) and random definite matrices have their defining property.",
  ["inputs"], "all well conditioned matrices, all stacks, all point pairs and divisions",
  "Tests check one or two matrices, often with random entries but only through a weak relation.",
  ["linalg/utils.py"], [("closed-form kernels", "linalg/utils.py: det2x2, det3x3, adj3x3, inv*"), ("paths and norms", "linalg/utils.py: linspace, vpath, norm*, normalize*")],
  "differential property testing against Leibniz' formula, LAPACK and SymPy", "Well conditioned matrices.")
p("P11", "Jagged arrays keep their rows through every conversion",
  "A jagged array made from rows of any widths (empty rows included), in any accepted way, returns exactly the same rows, widths, size, shape and flattened data. Conversions to dense, sparse, SciPy, Awkward and list form hold the same values, the rest being zero, and the array can be rebuilt from its flattened form. Stacking arrays lists the rows of the first followed by those of the others, and the unique values with counts and inverse refer to the values of all rows. A copy is a jagged array of the same rows, and what is done to a deep copy does not change the original.",
  ["inputs"], "all lists of rows with at least one value, all ways of construction",
  "Tests use one or two fixed arrays, without empty rows and corner cases of regular data.",
  ["linalg/sparse/jaggedarray.py", "linalg/sparse/csr.py", "linalg/sparse/utils.py", "arraysetops.py"],
  [("storage of rows", "linalg/sparse/jaggedarray.py"), ("conversion to CSR", "linalg/sparse/utils.py")],
  "round-trip property testing against lists of lists", "Rows of up to 5 values, up to 6 rows per array.")
p("P12", "Sparse row matrices equal the dense matrices they come from",
  "A compressed sparse row matrix made from SciPy matrices of any format, raw arrays, dense or jagged data represents the same dense matrix, with the right shape. Its rows and column indices are those of the dense rows, inside and outside of compiled code, and passing a matrix through compiled code or changing the data it was made from does not change it. The number of columns of each row is counted right.",
  ["inputs"], "all matrices up to 6x6 with any pattern of zeros, empty rows included",
  "Tests use fixed matrices; empty rows, trailing empty columns and compiled code paths with other patterns are not reached.",
  ["linalg/sparse/csr.py", "linalg/sparse/utils.py", "utils.py"],
  [("CSR storage", "linalg/sparse/csr.py: constructor, row, irow"), ("native representation", "linalg/sparse/csr.py: boxing, unboxing, overloads")],
  "round-trip and differential property testing against dense matrices, in and out of jitted code", "Small matrices.")
p("P13", "Unique values of 2d and jagged arrays with positions and inverse",
  "The unique values of a two dimensional integer array, regular or jagged, are the sorted distinct values. Positions, inverse and counts, in any combination, locate every occurrence: the inverse rebuilds the array, the counts sum to its size and the positions of a value are exactly its occurrences in order. The input does not change.",
  ["inputs"], "all integer arrays, regular and jagged, of any memory layout and magnitude",
  "Tests use one array with small consecutive integers.",
  ["arraysetops.py", "linalg/sparse/jaggedarray.py"], [("unique values", "arraysetops.py")],
  "property testing against plain Python sets and lists", "Integers up to 2^40 in magnitude.")
p("P14", "Array utilities agree with their plain definitions",
  "Repetition, tiling, block diagonals, flattening by rows and columns, padding and squeezing of dimensions, clipping, mapping between ranges, searching, matching of equal rows, histograms with bin centers and random choices give exactly what their definition gives in plain arithmetic. They work for any shape, memory layout, and integer or float data, and do not change inputs other than documented.",
  ["inputs"], "all small arrays of any shape, layout and type",
  "Tests call each function once, usually with float data in C order.",
  ["utils.py", "hist.py"], [("utilities", "utils.py"), ("histograms", "hist.py")],
  "differential property testing against plain Python", "Small arrays.")
p("P15", "Rooted level structures are breadth-first levels",
  "For every undirected graph and every root the rooted level structure lists exactly the nodes of the component of the root, level k being the nodes at distance k. The adjacency matrix has a nonzero exactly where two nodes are joined, in the order of the nodes. The computation terminates for disconnected graphs and isolated nodes, too.",
  ["inputs"], "all undirected graphs up to 24 nodes, all roots, with and without weights",
  "Tests use one connected grid-like graph with one root.",
  ["graph/utils.py", "graph/graph.py"], [("level structure", "graph/utils.py: rooted_level_structure"), ("adjacency", "graph/graph.py: adjacency_matrix")],
  "property testing against a breadth-first search", "A hang is reported by a watchdog.")
p("P16", "Pseudo-peripheral nodes are peripheral",
  "The pseudo-peripheral nodes of a graph are nodes of the component of the first node with equal eccentricity, not less than that of the starting node; one of them has the others as its last level, and no other of them has a narrower level structure. In trees their eccentricity is the diameter.",
  ["inputs"], "all undirected graphs up to 24 nodes",
  "Tests use one graph and check that the result is not empty.",
  ["graph/utils.py", "graph/graph.py"], [("pseudo-peripheral nodes", "graph/utils.py: pseudo_peripheral_nodes")],
  "property testing of an invariant with brute-force level structures", "Brute force over all nodes.")
p("P17", "Nearest neighbours are the nearest ones",
  "The nearest neighbour search returns for every sampling point distinct data points in the order of distance, none of the others being closer, at their true distances in the selected norm. A distance limit, one for all or one per sampling point, excludes exactly the points farther away, and missing neighbours are marked by an infinite distance and the number of data points as the index. Any number or selection of neighbours can be asked for, with or without distances, and inputs and options stay unchanged.",
  ["inputs", "configurations"], "all point clouds in 1-6 dimensions, all numbers of neighbours, limits and norms",
  "Tests check shapes for random points.",
  ["knn.py"], [("search", "knn.py: k_nearest_neighbours")],
  "property testing against brute-force distances", "Only the SciPy back end is available offline.")
p("P18", "Moving averages use the nearest data and keep constants",
  "The approximator of scattered data returns at every target the mean of the values of the nearest source points, within the distance limit if there is one, for data of any shape and type. The factors of a target sum to one, constants are reproduced, repeated use gives the same result and the sources stay unchanged.",
  ["inputs", "configurations", "histories"], "all source clouds, data shapes and types, targets, neighbour counts and limits",
  "Tests check one configuration with two data shapes.",
  ["approx/mls.py", "knn.py"], [("approximation", "approx/mls.py: MLSApproximator")],
  "property testing against brute-force means", "Targets with at least one neighbour within the limit and a unique set of neighbours.")
p("P19", "Values, gradients and Hessians of functions are right",
  "A function given as a string or as a symbolic expression, with variables given as names, symbols (with any assumptions, called anything, E or S included) or not at all, evaluates to the mathematical value of the expression, and its gradient and Hessian are the exact derivatives in the order of its variables. Simplifying or updating a function never makes it inconsistent. Numerical functions return what the supplied callables return.",
  ["inputs"], "all expressions of the grammar (arithmetic, powers, roots, exponentials, trigonometric functions) in 1-6 variables",
  "Tests evaluate a few expressions in one or two variables.",
  ["function/function.py", "function/metafunction.py", "function/symutils.py"],
  [("compilation of expressions", "function/symutils.py: decode, symbolize"), ("evaluation", "function/metafunction.py")],
  "grammar-based property testing against second order jets (automatic differentiation)", "Magnitudes up to 1e6; positive denominators and radicands by construction.")
p("P20", "Coefficients, linearity and substitution of symbolic functions",
  "The coefficients of a polynomial function, rational numbers or not, are those of its expanded form, every variable has an entry, normalized coefficients have a single constant, and a function is reported linear exactly if no variable occurs above first degree and everything is polynomial. Substituting numbers or expressions for variables, all or some, by name or symbol, is simultaneous: the new function of the remaining variables has the value of the original at the substituted point. The original only changes if asked.",
  ["inputs"], "all polynomials of the grammar in 1-4 variables, all partial substitutions",
  "Tests check three fixed functions.",
  ["function/function.py", "function/symutils.py"], [("coefficients and linearity", "function/function.py: coefficients, linear_coefficients, is_linear"), ("substitution", "function/function.py: subs; function/symutils.py: substitute")],
  "property testing against exact rational polynomial arithmetic", "Multilinear terms count as linear, as documented by the degree test.")
p("P21", "Relations hold exactly where their two sides compare so",
  "A relation given as a text with an operator, or as a function with a separate operator, is of the right kind, evaluates to the difference of its sides and is satisfied at a point exactly if the sides compare so there, equality at the limit included. The parser splits a text at its only operator, whatever the spacing. Malformed texts and unknown or contradictory operators are refused.",
  ["inputs"], "all pairs of polynomial sides, all operators and forms of definition, points on and off the boundary",
  "Tests use a few fixed texts and points off the boundary.",
  ["function/relation.py", "function/utils.py"], [("relations", "function/relation.py"), ("parsing", "function/utils.py: parse_expression")],
  "property testing against exact rational arithmetic", "Boundary points are generated on purpose.")
p("P22", "Linear programs are solved to their true optimum",
  "For any linear objective, constraints of any kind and form, bounds and integrality, the solution reported is feasible and optimal and the reported value is the objective there, constant included, for minimization and maximization. A problem without an optimum is never reported as solved.",
  ["inputs", "configurations"], "all problems of up to 4 variables and 4 constraints, continuous, mixed and integer",
  "Tests solve a few textbook problems.",
  ["optimize/lp.py", "function/relation.py", "function/function.py"], [("assembly of the matrices", "optimize/lp.py: LinearProgrammingProblem")],
  "differential property testing: independent formulation solved by HiGHS; brute force for integer problems", "HiGHS is trusted; strict inequalities act as non-strict.")
p("P23", "Equivalent linear programs have the same optimum",
  "Reordering or renaming variables and constraints, multiplying constraints, repeating them or splitting equalities, negating the objective and the direction, shifting it by a constant, and dense or sparse assembly do not change the optimum (other than the sign or the shift). A problem can be solved repeatedly and in both directions. Incomplete or invalid definitions are refused.",
  ["inputs", "histories", "configurations"], "all problems and all compositions of equivalent transformations",
  "No test compares two formulations of the same problem.",
  ["optimize/lp.py", "function/relation.py"], [("assembly of the matrices", "optimize/lp.py: LinearProgrammingProblem")],
  "metamorphic property testing", "Relations between runs of the code itself, plus P22 as the absolute oracle.")
p("P24", "The champion of a genetic search is the best point evaluated",
  "At any point of any history of evolving, solving, continuing, resetting and changing parameters, the champion is the best of all points the objective was evaluated at since the start of the run, within the ranges, and its reported fitness is the objective there. It never gets worse during a run, and the reported result is the champion. This holds for minimization and maximization and for numerical and symbolic objectives.",
  ["histories", "configurations", "inputs"], "all histories of calls, configurations, objectives and random seeds",
  "Tests run to convergence on easy objectives with a tolerance.",
  ["optimize/ga.py", "optimize/bga.py", "optimize/state.py"], [("champion", "optimize/ga.py: evolve, solve, reset"), ("result", "optimize/state.py")],
  "stateful property testing with a recording objective", "The record of evaluations is the oracle.")
p("P25", "Populations stay valid and the elite survives",
  "In every generation the population has the declared size, genes are bits, the decoded points lie on a uniform grid spanning the ranges with each code being one point, and the fitness is the objective at the decoded points. The elite consists of the best members and its fitness survives into the next generation; children only have genes of their parents unless mutated and parents are selected by tournaments. Crossover, mutation and selection do not change their inputs. Members are equal if their genes are and are ordered by their fitness.",
  ["histories", "configurations"], "all configurations, seeds and generations; all codes exhaustively for short lengths",
  "Tests look at final results only.",
  ["optimize/ga.py", "optimize/bga.py"], [("operators", "optimize/bga.py: decode, crossover, mutate, select, populate"), ("division", "optimize/ga.py: divide")],
  "property testing of invariants over generations; exhaustive codes", "Exhaustive over codes up to length 7.")
p("P26", "Genetic searches count, terminate and report faithfully",
  "A search terminates after the first iteration where the minimum number of iterations is reached and either the champion is older than allowed or the maximum number of iterations is reached. The numbers of iterations and evaluations, the status and the success reported are the true ones, also when a solution is continued or repeated. If the objective fails, the error is reported, the state says so, and the search can be started again; invalid parameters are refused.",
  ["histories", "configurations", "fault_sequences"], "all limits, ages, seeds, continuations and failing evaluations",
  "Tests check two configurations for a message.",
  ["optimize/ga.py", "optimize/bga.py", "optimize/state.py"], [("termination", "optimize/ga.py: solve, stopping criterion"), ("accounting", "optimize/state.py")],
  "property testing with replay of the termination on recorded evaluations; injected faults", "The record of evaluations is the oracle.")
p("P27", "Least squares fits are the best polynomial fits",
  "The least squares approximation of scattered data in 1-3 dimensions, first or second degree, of any number of components, is the polynomial with the least (weighted) sum of squared errors, and with constant weights its derivatives are those of the polynomial. Polynomials of the degree of the fit are reproduced. Only derivatives up to the requested order are returned and data of different lengths are refused.",
  ["inputs", "configurations"], "all unisolvent point sets and data, weights and orders",
  "Tests fit one data set per dimension with a loose tolerance.",
  ["approx/ls.py", "approx/ls_approx.py", "approx/ls_poly.py", "approx/ls_preproc.py"], [("fits", "approx/ls.py"), ("polynomial bases", "approx/ls_poly.py")],
  "differential property testing against an independent least squares solution", "Well conditioned point sets.")
p("P28", "Moving least squares: values and true derivatives",
  "The moving least squares approximation equals at every point the weighted least squares fit with the weights centred there, and the returned first and second derivatives are the derivatives of this approximation. Polynomials up to the degree of the fit are reproduced with their derivatives, and evaluations do not affect each other.",
  ["inputs", "histories", "configurations"], "all unisolvent point sets in 1-3 dimensions, all weight functions",
  "Tests compare with a sampled surface in a loose tolerance, mostly values.",
  ["approx/ls.py", "approx/ls_approx.py", "approx/ls_preproc.py", "approx/ls_poly.py", "approx/functions.py"], [("moving fit", "approx/ls.py: moving_least_squares; approx/ls_preproc.py")],
  "differential property testing against an independent solution and its fourth order finite differences", "Second derivatives to 2e-4 relative.")
p("P29", "Weight functions and their derivatives by the core are right",
  "The constant, cubic and singular weight functions are non-negative, symmetric about and largest at their core, vanish outside of their support, and follow their formulas; gradient and Hessian are the derivatives with respect to the position of the core, wherever the core is moved.",
  ["inputs", "histories"], "all cores, supports and points in 1-3 dimensions",
  "Tests do not look at derivatives of weights at all.",
  ["approx/functions.py"], [("weights", "approx/functions.py")],
  "property testing against formulas and finite differences", "Points within 0.005 of a kink of the cubic weight are skipped for derivatives.")
p("P30", "Lagrange polynomials interpolate exactly",
  "The Lagrange polynomials of any distinct nodes, numeric or symbolic, in any order, are one at their node and zero at the others, reproduce all polynomials below the number of nodes, and their first three derivatives, symbolic and compiled, are the exact ones. Default nodes are equidistant in [-1, 1]. The interpolation of data passes through the data.",
  ["inputs"], "all sets of 1-5 distinct nodes and values",
  "Tests generate two or three sets and check partition of unity at few points.",
  ["approx/lagrange.py"], [("polynomials", "approx/lagrange.py: gen_Lagrange_1d, approx_Lagrange_1d")],
  "differential property testing against exact rational Lagrange polynomials", "Up to 5 nodes.")
p("P31", "Gauss quadrature is exact to its degree",
  "The Gauss points in one, two and three dimensions with any number of points in each direction integrate every polynomial up to degree 2n-1 in each direction exactly over the unit hypercube [-1, 1]. Weights are positive and sum to the volume, points lie inside, symmetric, on a grid enumerated with the last direction the fastest. Higher dimensions are refused.",
  ["inputs"], "all numbers of points (up to 12 in 1d, up to 7 per direction in 2-3d) and all monomials of admissible degree",
  "Tests only call the functions.",
  ["numint.py"], [("rules", "numint.py: gauss_points*")],
  "property testing against exact integrals of polynomials", "Up to 12 points.")
p("P32", "Benchmark functions follow their textbook formulas",
  "The benchmark functions of optimization (Rosenbrock with any parameters, Himmelblau, Goldstein-Price, Beale, Matyas) take (x, y) in this order and have the textbook values, gradients and Hessians everywhere. Their listed minimizers are stationary points with the known minimum, and no point has a lower value.",
  ["inputs"], "all points of [-5, 5]^2, all parameters",
  "Tests evaluate at the known optimum only.",
  ["function/functions.py", "function/testfunction.py"], [("formulas", "function/functions.py")],
  "property testing against jets of the textbook formulas", "Minimizers to 2e-5.")
p("P33", "Predicates on arrays, matrices and frames tell the truth",
  "Predicates on the type of an array, symmetry, definiteness, closeness (absolute, relative, both), rank, rectangularity, normality, orthonormality and independence answer exactly by their definition for every input away from the tolerance, single numbers, lists and arrays alike. Invalid tolerances and shapes are refused.",
  ["inputs"], "all dtypes and shapes; matrices of known spectrum or rank up to 5x5; frames in 1-4 dimensions",
  "Tests use one positive and one negative example each.",
  ["logical.py", "linalg/logical.py"], [("predicates", "logical.py, linalg/logical.py")],
  "property testing with inputs constructed with a known answer", "Inputs close to the tolerance are skipped.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for id, title, statement, over, text, why, files, mech, tech, note in P:
            assert len(title) <= 80, title
            f.write(
                json.dumps(
                    {
                        "id": id,
                        "title": title,
                        "statement": statement,
                        "quantifier": {"over": over, "text": text},
                        "why_tests_cant": why,
                        "anchors": {
                            "files": [S + x for x in files],
                            "mechanism": [{"name": n, "where": w} for n, w in mech],
                        },
                    }
                )
                + "\n"
            )
    cmd = "/opt/venv/bin/python harness/run.py "
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python harness/run.py --setup",
        "checks": [
            {
                "property": q[0],
                "quick_cmd": cmd + q[0] + " --tier quick",
                "thorough_cmd": cmd + q[0] + " --tier thorough",
                "technique": q[8],
                "level": "exploration",
                "level_note": "Generated-input search, shrunk by Hypothesis; no violation on the explored cases. " + q[9],
            }
            for q in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the checks import the package from /repo's working tree, with a private cache for compiled code. Repairs are the 'fix:' commits, listed in known_findings.jsonl.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
