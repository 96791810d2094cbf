T = "Hypothesis property-based testing: "
TESTS_ARITH = ("The existing tests compare a few dozen hand-picked intervals (mostly small integers) with stored results; whether every pair of floating-point "
               "endpoints is enclosed is a statement about all inputs, and rounding only shows with full mantissas.")

prop("C01", "Classical interval arithmetic encloses the exact range, tightly",
     "For proper intervals and numbers, the result of x+y, x-y, x*y and x/y (by operator, reflected operator, in-place operator or numpy function, number on either side) contains the exact value of the operation for all real numbers from the operands. "
     "Each endpoint of the result is at most 4 units in the last place away from the corresponding endpoint of the exact range (8 for number / interval). "
     "Overflow and underflow keep the enclosure.",
     ["inputs"], "all finite double endpoints including zeros, subnormals and huge values, integers up to 2^53, every Python and numpy number type, zero-free divisors",
     TESTS_ARITH, [PYX, RI], [("directed rounding around each endpoint operation", PYX + ": ClassicalArithmetic.__add__/__sub__/__mul__/__truediv__ and reflected forms"),
                              ("dispatch of numpy functions", RI + ": Interval, ArrayInterval.__array_ufunc__")],
     "Exact range in rational arithmetic (fractions.Fraction) over the endpoints.",
     T + "enclosure and tightness against exact rational ranges", "Search over generated operands, exact oracle; assumes Python's Fraction arithmetic and the listed slack.")

prop("C02", "Powers of intervals enclose the exact range",
     "x**n for a natural number n contains the n-th power of every number of a proper interval x and its endpoints are the exact range up to rounding (for even n and x containing zero the range starts at zero); a Kaucher interval is raised like the repeated Kaucher product. "
     "Negative and real exponents give the range of the real power function where it is defined on x, and raise where it is not. Arrays are raised element by element.",
     ["inputs"], "all bases with finite endpoints, proper and improper, natural exponents 0..40, negative integers, real exponents up to 12",
     "The tests square and cube a handful of intervals; sign cases times parity times rounding is a product no table samples.",
     [PYX, RI], [("power by cases of parity and sign", PYX + ": ClassicalArithmetic.__pow__, KaucherArithmetic.__pow__")],
     "Exact rational ranges for natural exponents; 300-bit mpmath for the others.",
     T + "exact rational and multiprecision ranges", "Search over generated bases and exponents; even powers of improper intervals with negative endpoints are excluded because the existing tests pin another convention.")

prop("C03", "Elementary functions enclose their range",
     "sqrt, exp, log, sin and cos of an interval (called through the library or through numpy, on intervals, arrays, lists and numbers) contain the value of the function at every number of the interval, including interior extrema of sin and cos. "
     "The result is not wider than the exact range by more than rounding errors of the function, sqrt and log use the part of the interval inside their domain (NaN where there is none), and improper arguments give the dual of the range.",
     ["inputs"], "all intervals from points to many periods, endpoints near and far from extrema and zeros, over- and underflowing arguments",
     "The tests evaluate each function on one or two intervals; the position of an interval relative to all extrema and the rounding of the library functions cannot be sampled by a table.",
     [EL, PYX, RI], [("monotone functions on endpoints with outward rounding", EL + ": sqrt, exp, log"), ("search for extrema", EL + ": sin, cos")],
     "Range by 300-bit mpmath interval evaluation with exact extrema.",
     T + "multiprecision ranges", "Search over generated intervals; mpmath is trusted.")

prop("C04", "Kaucher arithmetic follows the minimax definition",
     "For proper and improper intervals, x+y, x-y, x*y and x/y are the operations of complete (Kaucher) interval arithmetic: join over the values of a proper operand, meet over those of an improper one. "
     "Results are rounded outwards (left endpoint not above, right endpoint not below the exact one) by at most a few units in the last place, and a result is an operand like a new interval with its endpoints. dual, opp, inv, pro and negation satisfy their laws: x+opp(x)=0, x*inv(x)=1 up to rounding where zero is not in pro(x), dual is an involution.",
     ["inputs"], "all sign and direction patterns of endpoints, zero endpoints, degenerate intervals, numbers on either side, zero-free divisors",
     "There are 4x4 sign classes times proper/improper for each operation; the tests reach a few of them with small integers.",
     [PYX], [("multiplication table by sign classes", PYX + ": KaucherArithmetic.__mul__"), ("division, inverse elements", PYX + ": KaucherArithmetic.__truediv__, opp, inv, dual, pro")],
     "Minimax definition evaluated with rational numbers.",
     T + "rational minimax model and algebraic laws", "Search over generated operands with an exact oracle.")

prop("C05", "Undefined operations raise instead of returning an interval",
     "Dividing by an interval, number or array element that contains zero, combining arrays of incompatible shapes, and applying operations that are not defined for intervals (other functions, methods like outer and reduce of numpy functions, containment of things that are neither numbers nor intervals) raise an exception and never return a wrong value. "
     "The operands are unchanged afterwards.",
     ["inputs"], "all dividends (numbers, intervals, arrays) and divisors containing zero anywhere, incompatible shapes, undefined functions, by every operator form",
     "The tests check one or two divisions by zero; a single missing case (zero as an endpoint, one array element, reflected or in-place operator) returns a wrong finite interval silently.",
     [PYX, RI, AB], [("zero check of divisors", PYX + ": __truediv__, __rtruediv__"), ("shape check", RI + ": ArrayInterval")],
     "The call has to raise.", T + "every generated call must raise and leave operands unchanged", "Search over generated operands and call forms.")

prop("C06", "Characteristics of intervals and arrays equal their defining formulas",
     "inf/a, sup/b, mid, rad, wid, mag, mig, abs, khi and the vertex array of an interval equal their defining formulas (up to two units in the last place), as attributes and as library functions. "
     "For arrays they are element by element with the array's shape, and the library functions accept lists and pandas data that mix intervals and numbers.",
     ["inputs"], "proper, improper, degenerate intervals with int and float endpoints of any size, arrays of 1-3 dimensions with up to 400 elements, lists, Series, numbers",
     "The tests look at a few intervals; integer endpoints, signs, improper intervals, mixtures and dtype effects multiply.",
     [RI, AB, UT], [("characteristics", "intvalpy/kernel/interval_arithmetics.pyx: mid, rad, wid, mag, mig, khi, abs"), ("functions over sequences", UT + ": inf, sup, mid, rad, wid, mag, khi")],
     "Defining formulas in rational numbers.", T + "exact formulas", "Search over generated intervals and containers.")

prop("C07", "Order and inclusion relations agree with their meaning",
     "Comparisons of intervals (and with numbers) hold exactly when they hold for both pairs of endpoints, == is equality of both endpoints, and they satisfy the laws of partial orders. "
     "Membership, subset, superset, their proper versions and contain hold exactly when every number of the one interval belongs to the other; for arrays they are the conjunction (or the elementwise array) of the elements' relations.",
     ["inputs"], "pairs and triples sharing endpoints, differing in the last bit, nested, disjoint, overlapping, degenerate, improper; arrays of up to 400 elements",
     "Relations are decided at coincidences (equal endpoints, one-bit differences) which tests hit only where someone thought of them.",
     [PYX, UT, RI], [("comparisons", PYX + ": __eq__, __lt__, __le__, __gt__, __ge__, __contains__"), ("set relations", UT + ": subset, superset, proper_subset, contain")],
     "Endpoint definitions plus sampled points and order laws.", T + "definitions, sampled members and order laws", "Search over generated pairs with many coincidences.")

prop("C08", "Construction yields the intervals that were described",
     "Every documented constructor form (two numbers, one number, a pair, an interval, two arrays, nested pairs, midpoint and radius) and asinterval build the intervals described, with endpoints exactly as given: sorted when sorting is on, and kept as improper intervals when it is off. "
     "zeros, full, eye, diag and the comparison matrix have the documented entries and shapes.",
     ["inputs"], "all number types and mixtures, both endpoint orders, sortQ on and off, lists, tuples and arrays of 1-3 dimensions with up to 300 elements",
     "The number of input forms times number types times shapes is far beyond the existing examples.",
     [RI, AB, NEW, PRE, UT], [("constructor", RI + ": Interval.__new__"), ("conversion", PRE + ": asinterval, get_shape"), ("special arrays", NEW + ": zeros, full, eye; " + UT + ": diag, compmat")],
     "The documented meaning of each form.", T + "model of the documented forms", "Search over generated inputs.")

prop("C09", "Array operations are the scalar operations, element by element",
     "An arithmetic operation, power, absolute value, negation or elementary function of an interval array, combined with interval arrays, single intervals, numbers or numeric arrays on either side, has numpy's broadcast shape (also when that is empty) and each element is the scalar operation of the corresponding elements. "
     "In-place operators give the same values.",
     ["inputs"], "arrays of 1-3 dimensions with up to 585 elements, all broadcastable shapes, proper and improper elements, all operand kinds on both sides, operators and numpy functions",
     "Broadcasting shapes times operand kinds times operators times sides is a large product of which the tests sample a few points.",
     [RI, EL], [("numpy protocol", RI + ": ArrayInterval.__array_ufunc__ and operators")],
     "Differential: scalar operation per element in plain Python (scalars decided by C01-C04).",
     T + "differential against scalar operations", "Search over generated arrays; relies on the scalar properties.")

prop("C10", "Interval matrix products are exact sums of products, rounded outwards",
     "A @ B for interval and numeric matrices, vectors and stacks of matrices on either side has numpy's shape and each entry encloses the exact (Kaucher) sum of products, with at most the rounding errors of its terms as slack. "
     "The product of any matrix and vector taken from the operands lies in the interval product.",
     ["inputs"], "all four shape combinations, up to 90 summands, interval or numeric operand on either side, proper and improper entries",
     "Tests multiply a few small integer matrices; operand order, shape combination and improper entries interact.",
     [RI, AB, PYX], [("matmul", RI + ": ArrayInterval.__matmul__, __rmatmul__")],
     "Exact rational sums of products; sampled members.", T + "exact rational sums and sampled members", "Search over generated matrices with an exact oracle.")

prop("C11", "Interval arrays behave as containers like numpy arrays",
     "Under any history of reading, writing, deleting, slicing, masking, reshaping, transposing, copying, iterating, converting and in-place arithmetic, an interval array has the shape, length and elements that numpy arrays of its endpoints have under the same history. "
     "Writing to a copy does not change the original.",
     ["histories"], "histories of up to 14 container operations on arrays of 1-3 dimensions with every index form",
     "The tests index fixed arrays once; a stale shape or shared buffer only shows after a sequence of operations.",
     [RI, AB], [("container protocol", RI + ": ArrayInterval.__getitem__, __setitem__, __delitem__, reshape, T, copy, __iter__, __len__"), ("cached shape and endpoints", RI + ": ArrayInterval")],
     "Two numpy arrays of endpoints (stateful reference model), whole state compared after every step.",
     T + "stateful model-based generation", "Search over generated histories with a complete model.")

prop("C12", "Intersection is the set intersection",
     "The intersection of two intervals is the interval of their common numbers, and an interval of NaN when they have none; for arrays (and mixtures with single intervals, numbers and lists) it is element by element. "
     "It is commutative, contained in both operands and leaves them unchanged.",
     ["inputs"], "overlapping, nested, touching, equal, disjoint intervals; arrays of up to 400 elements, mixtures, numbers and lists",
     "The tests intersect two arrays; contact, nesting and mixtures of operand kinds are not covered.",
     [PRE], [("componentwise intersection", PRE + ": intersection")], "Maximum of left and minimum of right endpoints.",
     T + "exact definition", "Search over generated pairs.")

prop("C13", "The interval distance is the documented metric",
     "dist(x, y, order) equals the Chebyshev or p-norm of the larger endpoint differences for every order, and is a metric: zero only for equal operands, symmetric, and satisfying the triangle inequality.",
     ["inputs"], "intervals and arrays (proper and improper, 1-2 dimensions), orders 1..6 and infinity",
     "Two stored examples cannot settle the axioms.", [UT], [("metric", UT + ": dist")], "Formula and metric axioms.",
     T + "formula and axioms", "Search over generated triples.")

prop("C14", "Interval evaluation of an expression encloses all its values",
     "Evaluating an expression composed of arithmetic, powers, elementary functions and absolute value on intervals gives an interval that contains the expression's value at every point of the box. "
     "On a sub-box the result is contained in the result on the box, and on an array of boxes it is the result of each box.",
     ["inputs", "programs"], "random expression trees up to depth 5 over 1-3 interval variables, with numbers of all types on either side",
     "The fundamental theorem is about all compositions; the tests evaluate single operations.",
     [PYX, EL, RI], [("composition of all operations", PYX + "; " + EL)], "400-bit mpmath: values at sampled points lie in the result; the natural interval extension (an independent evaluator with 400-bit endpoints) lies in the result, and the result lies in the natural extension whose operations are all widened by a relative 1e-12.",
     T + "random expression programs against a multiprecision interval evaluator", "Search over generated programs and boxes; sampled points.")

prop("C15", "The floating-point rounding mode is left as it was found",
     "Whatever interval operations are performed, in whatever order, and whether they return or raise, the processor's rounding mode afterwards is the one before, and ordinary floating-point results are unaffected.",
     ["histories", "configurations"], "histories of up to 12 operations including raising ones, started under each of the four rounding modes",
     "No existing test looks at the rounding mode; a leak silently changes every later computation of the process.",
     [PYX], [("saving and restoring of the rounding mode", PYX + ": fesetround around endpoint computations")],
     "fegetround of libm and probe additions after every operation.", T + "histories with an environment invariant", "Search over generated histories.")

prop("C16", "Recognizing functionals have their defining values, signs and subgradients",
     "Tol, Uni, Uss and ChebNorm evaluated at a point equal their defining formulas (with weights), and their constituents list the value of every equation. "
     "Their sign decides membership: Tol(x) >= 0 exactly when A x lies in the right-hand side for every member A of the matrix, Uni(x) >= 0 and Uss(x) >= 0 exactly when x solves some member. "
     "The gradients used in optimisation are sub- or supergradients of these functions.",
     ["inputs"], "interval systems of every shape up to 6x4, points inside, on the boundary of and outside of the solution sets, zero coordinates, weights",
     "A stored value at one point does not settle membership for every system and point.",
     [LIN + "Tol.py", LIN + "Uni.py", LIN + "Uss.py", LIN + "ChebNorm.py", AB], [("values and constituents", AB + ": BaseRecFun.value; " + LIN + "*.py: constituent, calcfg")],
     "Closed formulas, Oettli-Prager condition, subgradient inequality.", T + "closed formulas and membership conditions", "Search over generated systems and points.")

prop("C17", "Optimisation of the recognizing functionals reaches the optimum",
     "Maximising Tol, Uni, Uss and minimising ChebNorm returns a point, the functional's value at that very point and counters within the limits; for Tol and ChebNorm the value is the global optimum up to the method's accuracy, for Uni and Uss it is not worse than at the starting point, not above the global optimum, the optimum where the matrix consists of numbers, and otherwise, save for a few systems in a hundred, the best of its orthant. "
     "With linear constraints the result satisfies them and is the constrained optimum (box limits, two-sided rows, explicit penalty factor).",
     ["inputs", "configurations"], "systems up to 6x3 (30x10 for Tol and ChebNorm), weights, starting points, iteration limits, boxes with missing limits, two-sided rows",
     "The tests optimise two fixed systems; a wrong subgradient, weight or penalty only shows for particular signs and shapes.",
     [AB, RALG, LIN + "Tol.py", LIN + "Uni.py", LIN + "Uss.py", LIN + "ChebNorm.py"], [("optimisation", AB + ": BaseRecFun.maximize, linear_penalty; LinearConstraint.find_mu"), ("subgradient method", RALG + ": ralgb5")],
     "Linear programming (HiGHS).", T + "differential against linear programming", "Search over generated systems; tolerances of the subgradient method.")

prop("C18", "The subgradient minimiser keeps its contract",
     "ralgb5 returns the best point among those it evaluated, the objective's value at that point, the true numbers of iterations and calls, and a code that names the stopping rule that was in fact met; it respects the iteration limit. "
     "On convex functions with a sharp or quadratic minimum it comes close to the minimum.",
     ["inputs", "configurations"], "convex piecewise linear and quadratic functions of 1-12 variables, unbounded ones, starting points, all parameters",
     "No test calls the minimiser directly; its contract concerns whole histories of evaluations.",
     [RALG], [("record of the best point, counters, stopping rules", RALG + ": ralgb5")],
     "Recorded history of the objective; exact minima by construction or linear programming.", T + "history recording objective and exact minima", "Search over generated functions and parameters.")

prop("C19", "Gauss, Gauss-Seidel and Hansen-Bliek-Rohn enclose the united solution set",
     "Each of these methods either raises or returns a box that contains every solution of every member system (for Gauss-Seidel: every such solution within the starting box); for systems whose midpoint matrix is the identity, Hansen-Bliek-Rohn returns the exact hull. "
     "For regular point systems Gauss encloses the exact rational solution.",
     ["inputs", "configurations"], "square systems up to 16x16 with regular matrices, arbitrary ones for Gauss, starting boxes, preconditioners and limits; equations multiplied by powers of two from 2^-20 to 2^17, and (for the hulls) solutions by those up to 2^20",
     "A handful of stored results does not settle that no solution is lost for any system.",
     [LIN + "Gauss.py", LIN + "Gauss_Seidel.py", LIN + "HBR.py"], [("interval elimination", LIN + "Gauss.py"), ("interval Gauss-Seidel iteration", LIN + "Gauss_Seidel.py"), ("Hansen-Bliek-Rohn formula", LIN + "HBR.py")],
     "Exact hull by vertex enumeration over orthants; sampled member systems; rational solutions.", T + "exact hulls and sampled solutions", "Search over generated systems; enumeration to 1e-9.")

prop("C20", "PPS computes the exact hull of the united solution set of square systems",
     "PPS returns, for a square system with a regular matrix, the interval hull of the united solution set (or the requested component of it) up to its accuracy; it never returns a box that loses solutions, also when stopped by the iteration limit.",
     ["inputs", "configurations"], "square systems up to 5x5 (interval and point parts), all or one component, iteration limits; equations multiplied by powers of two from 2^-20 to 2^17 and solutions by those from 2^-13 to 2^20",
     "The tests check two published systems; pruning and the monotonicity tests depend on signs and shapes of all bars.",
     [LIN + "PPS.py"], [("parameter partitioning with pruning", LIN + "PPS.py: PPS")],
     "Exact hull by vertex enumeration over orthants.", T + "exact hulls", "Search over generated systems.")

prop("C21", "PSS computes optimal outer estimates of the united solution set",
     "PSS returns, for a square or overdetermined system of full rank, the interval hull of the united solution set (within the given starting box) up to its accuracy, for all or one component; when stopped early it still contains the set.",
     ["inputs", "configurations"], "systems of 2-10 equations and 2-4 unknowns, all or one component, iteration limits, starting boxes; equations multiplied by powers of two from 2^-20 to 2^17 and solutions by those from 2^-13 to 2^20",
     "The tests check published systems only; the starting box, reflection of unknowns and pruning have many sign cases.",
     [LIN + "PSS.py"], [("partitioning of the solution set by linear programs", LIN + "PSS.py: PSS")],
     "Exact hull by vertex enumeration over orthants.", T + "exact hulls", "Search over generated systems.")

prop("C22", "Rohn's methods enclose the united set and bound the tolerable set exactly",
     "Rohn's estimate of the united solution set of an overdetermined system contains every solution of every member system. "
     "Rohn's estimate of the tolerable solution set is its exact interval hull (infinite where the set is unbounded), and an empty tolerable set is refused.",
     ["inputs"], "rectangular systems up to 32x12 of full rank, tolerable sets bounded, unbounded and empty; equations (for the tolerable set) and solutions multiplied by powers of two from 2^-20 to 2^20",
     "Two stored systems in the tests cannot settle containment for all.", [LIN + "Rohn.py"], [("pseudo-inverse iteration and linear programs", LIN + "Rohn.py: Rohn")],
     "Exact hull by vertex enumeration; linear programming for the tolerable set.", T + "exact hulls and linear programming", "Search over generated systems.")

prop("C23", "The subdifferential Newton method returns formal solutions",
     "For square systems with a diagonally dominant Kaucher matrix the subdifferential Newton method returns the interval vector (proper or improper) whose product with the matrix reproduces the right-hand side.",
     ["inputs"], "square systems up to 16x16, proper and improper elements, arbitrary right-hand sides, step factors 1 and 0.8; equations and solutions multiplied by powers of two",
     "The subgradient has sixteen sign cases per element; the tests reach a few.", [LIN + "Subdiff.py"], [("subgradient of the immersed product", LIN + "Subdiff.py: Subdiff")],
     "Independent Kaucher product of the result; chosen solution.", T + "substitution round trip", "Search over generated systems.")

prop("C24", "Neumaier's box lies in the tolerable set and is as large as can be shown",
     "Around a point of the tolerable solution set, the Neumaier procedure returns a box centred at the point with the requested proportions whose product with the matrix lies in the right-hand side. "
     "Its radius is the largest that the defining inequality admits; for point matrices no larger box of these proportions fits.",
     ["inputs"], "systems up to 60x14, centres inside and on the boundary, weights of the directions including zeros",
     "One stored box does not settle it.", [LIN + "Neumaier.py"], [("radius formula", LIN + "Neumaier.py: Neumaier")],
     "Independent interval product; formula; maximality.", T + "independent inclusion and maximality", "Search over generated systems.")

prop("C25", "lineqs lists exactly the vertices of a planar polyhedral set",
     "For a system of linear inequalities with two unknowns whose solution set has an interior, lineqs returns exactly its vertices, each once and in order around the set (within the window, where one is given and the set is unbounded); an inconsistent system gives an empty list. "
     "An unbounded set without a window is shown by points of the set that include all its true vertices. Multiplying the rows by positive numbers, or the solutions by a factor, changes nothing else.",
     ["inputs"], "systems of 1-60 inequalities of rational data with row factors from 0.01 to 1000 and solutions scaled from 0.01 to 1e6, with repeated, parallel, redundant and zero rows, with and without windows",
     "The tests check a few polygons; degenerate row combinations are what breaks the walk along boundary intervals.",
     [LIN + "boundary_intervals.py", PRE], [("boundary intervals method", LIN + "boundary_intervals.py: BoundaryIntervals, ParticularPoints, Intervals2Path, lineqs"), ("row preprocessing", PRE + ": clear_zero_rows, unique")],
     "Vertex enumeration over all pairs of constraints and linear programming.", T + "differential against vertex enumeration", "Search over generated systems, 1e-6.")

prop("C26", "IntLinIncR2 lists the vertices of interval solution sets orthant by orthant",
     "For an interval system with two unknowns, IntLinIncR2 returns four lists with exactly the vertices of the united (or tolerable) solution set in each quadrant, in order; empty pieces give empty lists, and unbounded pieces are cut by the given window or by one common square. "
     "Point systems give what lineqs gives, and one call leaves nothing behind for the next.",
     ["inputs", "histories"], "interval systems of 1-24 equations with row factors from 0.003 to 1000 and solutions scaled from 0.01 to 1e6, both consistencies, with and without windows",
     "The tests check two published sets.", [LIN + "boundary_intervals.py"], [("orthant systems", LIN + "boundary_intervals.py: IntLinIncR2")],
     "Vertex enumeration per orthant.", T + "differential against vertex enumeration", "Search over generated systems, 1e-6.")

prop("C27", "lineqs3D and IntLinIncR3 list exactly the faces of solution sets in space",
     "For linear inequalities with three unknowns whose solution set has an interior, lineqs3D returns every facet with exactly its vertices in order and nothing else, cut by the window where the set is unbounded; inconsistent systems give nothing. "
     "IntLinIncR3 does this for each of the eight orthant pieces of the united or tolerable solution set.",
     ["inputs"], "systems of 1-26 inequalities and interval systems of 2-4 equations, with row factors and scaled solutions as in C25, both consistencies, with and without windows",
     "The tests check one or two bodies.", [LIN + "boundary_intervals.py", PRE], [("boundary intervals in each plane", LIN + "boundary_intervals.py: ChangeVariable, lineqs3D, IntLinIncR3"), ("repeated rows", PRE + ": non_repeat")],
     "Facet enumeration over all triples of constraints.", T + "differential against facet enumeration", "Search over generated systems, 1e-6.")

prop("C28", "globopt encloses the global minimum by adaptive subdivision",
     "globopt returns a sub-box of the starting box and the value of the objective over it, whose lower end is a lower bound of the objective over the whole starting box (for separable functions the range contains the minimum). "
     "No part of the starting box is dropped, the returned box has the smallest lower bound of those left, and subdivision stops only when the range is narrower than tol, the box cannot be divided any more, or the iteration limit is reached. "
     "The starting box is unchanged.",
     ["inputs", "histories", "configurations"], "objectives of 1-3 variables, starting boxes with degenerate sides and integer ends, tolerances, iteration limits",
     "The tests minimise two functions and compare stored digits; a dropped or misordered box only shows where the minimum lies in it.",
     [NON + "globopt.py"], [("work list ordered by lower bounds, bisection of the widest side", NON + "globopt.py: globopt")],
     "Known minima and sampled values; a record of every box handed to the objective (coverage of the starting box, order, number of bisections).",
     T + "invariants over the recorded history of the search", "Search over generated objectives; lower bounds are compared with sampled minima.")

prop("C29", "Krawczyk and Hansen-Sengupta iterations never lose a zero",
     "Every zero of an equation or system inside the starting box lies in the box that Krawczyk's or the Hansen-Sengupta iteration returns, the result lies in the starting box, and neither declares that there is no solution where there is one. "
     "Where the preconditioned Jacobian is close to the identity the result shrinks to the zero within the tolerance. The starting box is unchanged.",
     ["inputs", "configurations"], "equations and systems of 1-10 unknowns with several, one or no zeros in the box, off-centre boxes, limits and tolerances",
     "The tests solve one or two systems; losing a zero depends on where it lies relative to the centre and on signs of the Jacobian.",
     [NON + "external_evaluation.py"], [("Krawczyk operator", NON + "external_evaluation.py: Krawczyk"), ("Hansen-Sengupta operator", NON + "external_evaluation.py: HansenSengupta")],
     "Zeros known by construction, or to 300 bits (then without tolerance); contraction where the Jacobian guarantees it.", T + "no zero is lost, convergence", "Search over generated systems with known zeros, 1e-12.")

prop("C30", "WILS fits the weighted interval regression it describes and predicts exactly",
     "fit maximises the chosen functional (Tol, Uni or Uss, norm inf or l1) of the training data with the smoothed weights: the reported value is the functional at the reported coefficients, never below the start, and for Tol (and for Uni and Uss when the features are numbers) the global maximum, also under box constraints; for Uni and Uss it is, save for a few data sets in a hundred, the best of its orthant. "
     "predict returns the exact range of the linear function. Training data, weights, start and constraint stay as they were, and earlier fits have no influence.",
     ["inputs", "histories", "configurations"], "up to 36 observations of 6 features, interval and numeric data, weights, alpha, beta, starts, objectives, norms, constraints, repeated fits",
     "The tests fit one or two data sets.", [MOD + "WILS.py", LIN + "Tol.py", LIN + "Uni.py", LIN + "Uss.py"], [("weights and objective", MOD + "WILS.py: WILS")],
     "Formulas of the functionals, linear programming for the optimum of Tol, exact ranges.", T + "model formulas and linear programming", "Search over generated data; the optimum to 1e-4 (inf) and 3e-3 (l1, constraints).")

prop("C31", "ISPAE fits interval polynomials and encloses their exact ranges",
     "Polynomials in any of the five bases get their exact range over an interval; fit reports the objective at the reported coefficients with the smoothed weights, never below the start, and the maximum where the features are numbers or, for Tol, the model is linear (for Uni then nearly always the best of its orthant). "
     "predict encloses the fitted polynomial over every row (exactly at numbers and for order one), earlier fits have no influence, and arguments are not changed.",
     ["inputs", "histories", "configurations"], "1-2 features, orders 1-4 per feature, five bases, intercept, weights, objectives, norms, limits, frames and arrays",
     "The tests fit single data sets in single bases.", [MOD + "ISPAE.py"], [("critical points of basis polynomials", MOD + "ISPAE.py: ISPAE.value_of_one_col"), ("objectives and subgradients", MOD + "ISPAE.py: ISPAE.fit")],
     "numpy's polynomial classes and critical points; the objective's formula; linear programming.", T + "polynomial ranges and linear programming", "Search over generated data, relative 1e-9 (ranges) and 3e-3 (optimum).")

prop("C32", "ive is the variability measure of the interval system",
     "ive equals sqrt(n) times max Tol times the smallest condition number of the sampled corner matrices times the norm of the maximiser over the norm of the right-hand side: the condition number in it belongs to a corner matrix, sampling more corners never increases it, and with enough samples it is the smallest of all. "
     "The system is unchanged.",
     ["inputs"], "systems up to 5x3 with up to 8 interval entries, numbers of samples, seeds of the generator",
     "The tests compare one value.", [LIN + "system_properties.py"], [("corner matrices", LIN + "system_properties.py: ive")],
     "Enumeration of all corner matrices; Tol by linear programming.", T + "differential against enumeration of corner matrices", "Search over generated systems with condition numbers below 1e6.")

prop("C33", "Calls leave their arguments alone and do not depend on earlier calls",
     "No function or method of the library changes the objects it is given (except documented in-place forms), results own their data, and every call returns the same whatever was called before on the same objects, including what was written into earlier results. Objects that were used and then written to in place act like new ones with the same content.",
     ["inputs", "histories"], "histories of 3-12 calls out of 77 operations over shared matrices, vectors, boxes, lists, constraints and models",
     "A unit test calls a function once on fresh data; aliasing, module state and in-place changes show only over sequences of calls.",
     [RI, AB, UT, LIN, NON, MOD], [("copies of arguments", RI + ": ArrayInterval"), ("module state of the vertex enumeration", LIN + "boundary_intervals.py: __center_rm")],
     "The same call on fresh objects; the original state of the pool.", T + "model-based histories: differential against fresh objects", "Search over generated histories.")

prop("C34", "Pictures show exactly the sets and intervals they were given",
     "IPlot draws on the chosen axes (the first by default) one mark for every pair of intervals - the box with its exact corners, an outline where one of them is a point, a dot where both are - and every non-empty vertex list as its polygon with its vertices, in the given colour, transparency and size. "
     "lineqs, IntLinIncR2, lineqs3D and IntLinIncR3 return the same with and without drawing, and draw polygons of exactly the returned lists in one window; a file is written only when asked for.",
     ["inputs", "configurations"], "grids of axes, boxes, segments, points, vectors and matrices, vertex lists, systems in the plane and in space",
     "The tests never look at a figure.", [VIS, LIN + "boundary_intervals.py"], [("marks on axes", VIS + ": IPlot"), ("drawing of solution sets", LIN + "boundary_intervals.py: lineqs, IntLinIncR2, lineqs3D, IntLinIncR3")],
     "Coordinates, colours and sizes of all objects on the axes of the figure (matplotlib's Agg backend).", T + "inspection of every object on the figure", "Search over generated plots; trusts matplotlib's rendering.")

prop("C35", "Test systems follow their definitions; row preprocessing keeps what it must",
     "Neumaier_system, Shary_system and Toft_system build the published matrices and right-hand sides for all dimensions and parameters, refuse parameters that contradict the definition, and their entries are objects of their own. "
     "unique and non_repeat keep the first of rows equal up to the stated rounding, in order, and clear_zero_rows drops exactly the zero rows and reports inconsistency exactly when one of them contradicts.",
     ["inputs"], "dimensions 1-30 with all parameters; matrices of up to 150 rows with repeated, opposite, zero and nearly equal rows",
     "The tests build each system once.", [NEW, PRE], [("test systems", NEW + ": Neumaier_system, Shary_system, Toft_system"), ("rows", PRE + ": unique, non_repeat, clear_zero_rows")],
     "Published formulas; first occurrences.", T + "differential against the defining formulas", "Search over generated parameters and matrices.")

prop("C36", "The printed form shows the intervals that are there",
     "repr and str of an interval show its two endpoints, in order, to six significant digits, whatever their magnitude and for improper intervals too. "
     "repr and str of an interval array show every element like that, in order, in lists nested like its shape and without anything left over of the underlying numpy array (arrays of more than 1000 intervals are abbreviated by numpy). Printing changes nothing.",
     ["inputs"], "endpoints of all magnitudes, arrays of up to three dimensions, slices and transposes, abbreviated arrays",
     "The tests never look at printed intervals; what is cut off the text of the numpy array depends on where numpy breaks its lines, hence on shape and values.",
     [PYX, RI], [("text of an interval", PYX + ": __repr__"), ("text of an array", RI + ": ArrayInterval.__repr__")],
     "The text parsed back into numbers and nested lists.", T + "round trip through the printed text", "Search over generated intervals and arrays; line breaks and spaces are not claimed.")

prop("C37", "Copies and pickles are equal to the original and independent of it",
     "copy.copy, copy.deepcopy, the copy methods and pickle with every protocol work on intervals (proper, improper, with integer, floating-point, infinite and NaN endpoints), interval arrays (also views and empty ones), and on lists, dictionaries and data frames of them, linear constraints and fitted models. "
     "The copy has exactly the same endpoints and arithmetic and acts like the original; writing to a copy of an array, or fitting a copy of a model again, never changes the original, nor the other way round.",
     ["inputs", "configurations"], "single intervals, arrays of up to three dimensions, containers, constraints, fitted WILS and ISPAE models; nine ways to copy",
     "The tests never copy or pickle; the equality has to hold for every kind of endpoint and arithmetic, the independence for every way of copying.",
     [PYX, RI, MOD], [("pickling of intervals", PYX + ": BaseTools.__reduce__"), ("copies of arrays", RI + ": ArrayInterval.copy, __copy__, __deepcopy__")],
     "The original, before and after writes to either side.", T + "round trip and independence under writes", "Search over generated objects.")

prop("C38", "Results do not depend on how the arguments are represented",
     "Every function and method gives the same result for the same values however they are represented: numbers, points, weights, matrices and constraints as float64 arrays, lists, tuples, integer, unsigned, half- and single-precision or object arrays, with other strides or memory order; intervals with integer or floating-point endpoints, proper intervals typed in Kaucher arithmetic, views and transposes. "
     "(Lists may be refused where an array is asked for; results agree to 1e-9 where intermediate roundings may differ.)",
     ["inputs", "configurations"], "98 calls on two representations of one content, 14 representations of numbers and 6 of intervals",
     "The tests pass one representation to each function; numpy's promotion rules make narrow types overflow, wrap or lose digits only for particular values.",
     [RI, AB, UT, LIN, NON, MOD], [("coercion of numbers", RI + ": ArrayInterval.__array_ufunc__; " + PYX + ": conversions of operands"), ("weights and starting points", AB + ": BaseRecFun.maximize; " + LIN + "ChebNorm.py: value"), ("constraints", AB + ": LinearConstraint; " + LIN + "boundary_intervals.py: lineqs, lineqs3D")],
     "The same call with float64 arrays and floating-point endpoints.", T + "metamorphic relation between representations", "Search over generated contents and representations.")

prop("C39", "Calls that run at the same time or inside one another give what they give alone",
     "Two calls of functions or methods of the library that run at the same time in two threads, on separate objects or on the same ones (which no function changes, not even for a time), return exactly what each returns alone, wherever control changes between them. "
     "So do calls made inside the functions that globopt, Krawczyk, HansenSengupta and the subgradient minimiser are given, and the calls around them. (Fitted models are not shared; numpy's global random generator is left aside.)",
     ["inputs", "schedules"], "pairs out of 79 calls on small systems, interleaved line by line by generated schedules; single calls with the arguments observed before every line; four outer functions with up to three calls inside",
     "The tests run in one thread; what is kept in a module or written to an argument for a while shows only when control changes at that place.",
     [RI, AB, UT, LIN, NON, MOD], [("places kept between calls", LIN + "boundary_intervals.py: lineqs, IntLinIncR2, lineqs3D, IntLinIncR3"), ("options of the linear programming solver", LIN + "PSS.py: solve_lp; " + LIN + "Rohn.py: solve_lp"), ("the rounding mode", PYX + ": RoundingContext")],
     "The same call alone, on fresh objects.", T + "deterministic interleaving of two threads by a generated schedule", "Search over generated schedules at the granularity of Python lines; compiled parts run undivided.")
