PROPS = []; NA = {}
def P(id, title, statement, over, quant, why, mech, technique='', design='', note='', state=(), observe=('public API',)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, technique=technique, design=design, note=note, state=list(state), observe=list(observe)))

P('P01', 'Polyline attributes always describe the current points',
  """Whatever sequence of modifications (building, setting, translating, moving, rotating, mirroring, minimizing, clearing, assigning, writing through the
  non-const point access) a polyline goes through, its length, area, centroid, simple-polygon status and the comparison with another polyline
  always reflect the points it holds now, never those it held when the attribute was last computed. A modification that changes the points
  never leaves a previously computed attribute, or the stored "normalized" status, in force.""",
  ['histories', 'inputs'], 'every sequence of API calls on a polyline, every argument',
  'The tests compute an attribute at most once or twice per object; a stale cache needs query-modify-query histories over every modifier, attribute and constructor.',
  [('validity flag next to each computed attribute, reset by every modifier', 'PolylineBase, PolylineAttribs, ValueFlag')],
  technique='typestate dataflow over CFGs with interprocedural summaries',
  design="""per (object, attribute) abstract state {flag off, recomputed, valid, STALE}; each function's entry-to-exit transformer is computed over its CFG (branches on the flag refine it),
  composed over the call graph incl. lambdas, iterators, references and algorithms to a fixpoint. Violations: a public function that can return with an object STALE, a cached value read while its flag may be off,
  a non-const reference to the points leaving with a flag still valid, a flag copied without its data. Whole-range reversal, and rotation of a closed polyline, are attribute-neutral. ~1000 obligations; 10 s.""",
  note='Decides coherence of cache and points on every path; that the recomputation is the right formula is not decided. References obtained from the non-const getPts() must not be used after a later query.',
  state=[('cached length/area/centroid/simplicity', 'last computed value and its validity flag')])

P('P02', 'Homographies transform lines with their current matrix',
  """After any modification of a homography (setting or adding a transformation, direct element access, assignment, product, inversion, transposition, normalization,
  building from points), applying it to lines uses the inverse-transposed matrix of its current content, never one computed from earlier content or from another object,
  and its "is normalized" status is never reported true on the basis of earlier content (this also holds for ellipses, which share that status).""",
  ['histories', 'inputs'], 'every sequence of operations on a homography, copies and assignments included',
  'Tests apply a homography to lines once, right after building it; staleness needs apply-modify-apply histories for each modifier, copy and move.',
  [('"has changed" flag guarding the stored inverse-transposed matrix', 'Hmatrix_, operator*(Homogr, Line2d)'), ('"is normalized" flag', 'detail::Matrix_')],
  technique='typestate dataflow over CFGs with interprocedural summaries',
  design="""same engine as P01 with two caches: the inverse-transposed matrix (valid when "has changed" is false) and the normalization flag. Pure scaling of the whole matrix is neutral for the former (projective), not for the latter.
  All writes, including through getRaw()/value() references, base-class calls and friend functions, are seen by their access path.""",
  note='Decides cache coherence on every path, not the numerical correctness of inversion or product.',
  state=[('stored H^-T and its flag', 'used to transform lines'), ('normalized flag', 'tells if comparison must normalize first')])

P('P03', 'Stored ellipse parameters follow the ellipse (speed-optimized build)',
  """In the HOMOG2D_OPTIMIZE_SPEED build, every parameter the ellipse keeps (center, axes, squared axes, angle, sine, cosine) always corresponds to the current ellipse:
  any construction or modification updates all of them or causes all of them to be recomputed before they are used.""",
  ['histories', 'configurations'], 'every construction/modification/query history of an ellipse in that build',
  'The test suite of the optimized build checks few ellipses after a modification, and never each stored parameter.',
  [('stored parameters and their flag', 'Ellipse_::p_init, Ellipse_::p_getParams')],
  technique='typestate dataflow over CFGs with interprocedural summaries',
  design="""same engine as P01, in the HOMOG2D_OPTIMIZE_SPEED configuration, one cache per field of the stored parameter record: declaring the record valid while one field was not written since the matrix changed is STALE.""",
  note='Field-wise coherence of record and matrix; not that each stored expression is the right one.')

P('P13', 'Arguments may be parts of the object being modified',
  """Passing to an operation a reference to (part of) the very object it modifies (its own center, one of its own points, itself) gives the same result as passing a copy:
  no operation reads an argument again after having overwritten the memory it may refer to.""",
  ['inputs'], 'every public function taking references, every way an argument can denote memory of the modified object that the class lets out',
  'Tests pass distinct objects; self-aliasing calls such as c.set(c.center(), p) or poly.moveTo(poly.getPoint(0)) are never combined with every modifier.',
  [('parameters taken by const reference', 'set(), moveTo(), translate(), operators, constructors')],
  technique='alias/effect dataflow over CFGs with interprocedural read/write summaries',
  design="""access-path may-alias analysis: a hazard is a read of a reference parameter reachable, on the CFG, from a write to a place it can denote (types agree and the class exposes that part, or the parameter is a whole object).
  ~2000 obligations; 8 s.""")

P('P14', 'A rejected modification leaves its object unchanged',
  """When a member function or a free function throws because it rejects its arguments or the current state (parallel lines, invalid radius, empty set, points too close, null matrix, bad index...),
  the geometry of the object it was called on, and of the objects passed by reference, is what it was before the call.""",
  ['faults', 'inputs'], 'every throwing path of every modifying function, callees included',
  'Tests check that an exception is raised, never that the object is intact afterwards, and cover a few of the throw sites.',
  [('HOMOG2D_THROW_ERROR_x sites', 'whole header')],
  technique='exception-effect dataflow over CFGs with interprocedural summaries',
  design="""for each function: set of escaping throw origins, and for each the places possibly written before it (forward may-analysis over CFG and call graph); any overlap of geometry with this/reference parameters is a violation. ~1000 obligations; 9 s.""",
  note='Exceptions from the standard library (bad_alloc) are outside the claim; caches and flags may change.')

P('P26', 'x and y never get mixed up',
  """In every operation that treats the two axes independently (constructors and setters, translation, moving, bounding boxes, corners, centers, vectors, width/height, min/max, rectangle union, copies and conversions between types),
  a resulting x coordinate is computed only from x coordinates (and sizes) of the inputs and a resulting y only from y coordinates; a positional (x,y) argument pair reaches x and y respectively;
  the entries of translation, scale and rotation matrices depend exactly on the parameter they stand for.""",
  ['inputs'], 'all inputs, all instantiations and build configurations of these operations',
  'Tests with symmetric or equal coordinates, and overloads or types the tests never instantiate, hide a swapped coordinate.',
  [('two-axis formulas', 'point, segment, circle, rectangle, polyline, ellipse, matrix setters')],
  technique='interprocedural field-sensitive value-provenance dataflow',
  design="""set of input places each output field is computed from, to a fixpoint over the call graph; classified by axis of the homogeneous coordinate. Tables of axis-separable functions are frozen in the rule. ~2500 obligations; 9 s.""")

P('P10', 'Equality compares all the data that define an object',
  """Two points, lines, segments, circles, rectangles, polylines, ellipses or homographies compare equal only if every datum that defines them (each coordinate, radius, point, matrix entry) was compared with the same datum
  of the other object, exactly or within the documented threshold, and compare different only if one of these comparisons told them apart; operator!= is always the negation of operator==.""",
  ['inputs'], 'every pair of objects of every type',
  'Tests compare objects that are equal or differ in an obvious way; objects that differ in the one datum a comparison forgot or mismatched are not among them.',
  [('comparison operators', 'operator==, operator!= of all types')],
  technique='implied-facts must-dataflow over CFGs with interprocedural boolean-result summaries',
  design="""for each operator instantiation: the facts implied by a true result and by a false result. A true == (or false !=) must imply, for every defining field, a comparison of that field of this object with the same field of the argument;
  a false == (true !=) must imply that some comparison told them apart. ~11 s for two configurations (seven in the thorough tier).""",
  note='That a loop comparing elements visits all of them is not decided, nor the threshold value.')

P('P32', 'Sort orders are consistent and the extreme points are the documented ones',
  """Every operator< of the library's types and every comparison used internally for sorting or for finding a minimum or maximum is a strict weak order; points are ordered by x, then y;
  the top-, bottom-, left- and right-most point of a set is the one that comes first in the documented order (ties on the first coordinate decided by the other one), and these functions only return points of the set.""",
  ['inputs'], 'all values of the compared objects',
  'An inconsistent order shows on particular triples or ties only, which tests on a few points never contain.',
  [('comparison functions', 'operator<, comparators given to std::sort / std::min_element...')],
  technique='abstract evaluation of comparators over a finite ordering domain',
  design="""each comparator is evaluated on every combination of {below, equal, above} of the pairs of keys it compares; the resulting complete table is checked against the laws of a strict weak order and, for points and extreme points, against the documented lexicographic order. ~9 s.""",
  note='Comparators that compute with the values before comparing are listed as not decided; NaN is excluded.')

P('P25', 'Degenerate or invalid arguments are rejected, valid ones are not',
  """Every function that documents a precondition throws when it does not hold and never returns a result built from such input: points/circles that must differ do so by more than thr::nullDistance(), rectangle corners by more than
  thr::nullOrthogDistance() along each axis, lines that must intersect are not parallel (thr::nullAngleValue()), determinants and denominators exceed their threshold, radii are not negative nor null, distances have the documented sign and
  range, indices are below the size, containers have the documented minimum size (and that very minimum is accepted), consecutive points of a polyline differ, and requests without meaning (bounding box of a point, length of a line...) always throw.""",
  ['inputs'], 'every overload and instantiation of these functions, every argument',
  'Tests try one or two invalid calls on one overload; a check lost in another overload or path, weakened by one, using another threshold or comparing the wrong operands shows only on inputs they do not contain.',
  [('precondition checks', 'constructors, set(), getPoint(), getSegment(), split(), getBB(), operator*, inverse()...')],
  technique='implied-facts must-dataflow over CFGs with interprocedural summaries',
  design="""a frozen table maps ~125 public functions to their documented preconditions; each must be among the facts implied by normal return (operands by provenance, threshold by the accessor giving it, exact bounds). ~310 obligations per configuration, 7 s.""",
  note='The formula of the measured quantity is not decided. HOMOG2D_NOCHECKS builds excluded.')

P('P05', 'Thresholds are read live, and only the user changes them',
  """Changing a threshold through its thr:: accessor takes effect on the next call of everything documented to use it, and of nothing else: points are at infinity below thr::nullDenom(), points (and what is made of points) are equal within
  thr::nullDistance(), lines and segments are parallel, and line directions equal, within thr::nullAngleValue(), matrices and ellipses equal within thr::nullDeter(). The library never changes a threshold or setting, except while
  it runs and with restoration on every exit; each HOMOG2D_THR_* build symbol gives the initial value of its own threshold and nothing else; printThresholds() prints each value under its name.""",
  ['histories', 'configurations', 'inputs'], 'every sequence of threshold changes and calls, every value of the build-time symbols',
  'The tests run with default values; a cached, hard-coded, confused or clobbered threshold is invisible until a user changes one, and the exception path that skips a restoration is not exercised.',
  [('threshold accessors', 'namespace thr'), ('threshold-based predicates', 'operator==, isInf(), isParallelTo(), areParallel()'), ('Welzl radius-check switch', 'thr::doNotCheckRadius()')],
  technique='implied-facts must-dataflow, global-effect analysis, constant tracking under marker build symbols',
  design="""table of ~20 threshold predicates: the facts implied by true / false results must compare the right operands with the variable behind the right accessor; who-may-write analysis of the settings; each accessor owns its static;
  no static variable initialised from a setting; a build with marker values for the five symbols must contain each marker exactly once. ~80 obligations, 10 s.""",
  note='That the compared quantity (distance, angle) is computed right is not decided. The numeric defaults are not compared with the manual.')

P('P06', 'Queries neither change anything, print, nor depend on hidden state',
  """An operation that only reads an object (const member, free function taking it by const reference) leaves what can be observed of it unchanged: it may refresh caches, scale a homogeneous matrix for comparison, or reorder (never alter, add or
  drop) the points of a polyline where documented as normalization. Results depend only on the arguments and the documented settings: no randomness, time, environment or memory of previous calls (except genRandomColors).
  Nothing is printed on the standard streams by functions not meant for it, except warnings enabled by err::printWarnings() (none at all with HOMOG2D_NOWARNINGS) or just before an exception; files are touched only by image writing.""",
  ['histories', 'inputs', 'configurations'], 'every call sequence on shared const objects, every public function',
  'Tests compare results, not that the queried objects, the global state and the standard streams are untouched; a hidden static or a write in a rarely taken branch is not exercised twice.',
  [('mutable members', 'PolylineBase, Matrix_, Hmatrix_, Ellipse_'), ('warnings', 'HOMOG2D_LOG_WARNING')],
  technique='interprocedural effect analysis (who may write what) and call-graph reachability filtered by CFG dominance',
  design="""places written through const this / const references, to a fixpoint over the call graph, must belong to the frozen list of caches; reachability of randomness, time, files and standard streams from public functions, ignoring call sites dominated by
  a printWarnings() test or on paths that cannot return; list of mutable statics. ~8000 obligations (function x rule), 6 s; 11 configurations in the thorough tier.""",
  note='Uninitialized reads as a source of non-determinism are handled elsewhere. Polyline comparison and getOffsetPoly may rotate/reverse the stored points (documented normalization).')

P('P17', 'Meaningless operations do not compile, documented ones do, in every build',
  """For every numeric type and documented build configuration: each documented operation compiles, including between objects of different numeric types, and yields the documented kind of object with at least the precision of its operand
  (lengths, distances, angles and areas come in the internal numeric type); operations without geometrical meaning (distance between lines, coordinates of a line, orthogonal line of a point, intersection with a point, splitting or reversing
  a non-oriented segment, opening a closed shape, non-numeric or bool coordinates, ...) are rejected by the compiler. The header can be included any number of times, in any number of source files, which share one set of settings.""",
  ['configurations', 'inputs'], 'every numeric type combination, every build option, every listed operation',
  'The no-build tests try about 25 rejections, each with one numeric type and failing for any reason counts; functions nobody instantiates with a given type or option are not compiled at all.',
  [('static_assert guards, overload sets', 'whole header'), ('inline functions', 'whole header')],
  technique='compile-pass / compile-fail witnesses decided by the type checker, linkage analysis of the type-checked program',
  design="""~150 positive witnesses (expression and kind of result) and ~165 negative ones per numeric-type combination; a rejection is attributed to its witness through the instantiation chain, doubtful ones are compiled alone.
  The instantiation driver must type-check in each configuration (12 in the thorough tier); linkage/inline facts of every function and variable. 13 s quick, 50 s thorough.""",
  note='The list of operations is frozen; a meaningless operation not in the list is not examined.')

P('P09', 'Computations are carried out in the internal numeric type',
  """Whatever the numeric type of the stored objects, computations are done in HOMOG2D_INUMTYPE: results (lengths, distances, angles, areas, coordinates, intersection points, transformation coefficients) lose precision only when they are finally stored
  in an object of a smaller type. Float objects give double computations when the internal type is double; a long double build involves no double step, double constant or double intermediate object; mixed-type operations do not degrade to the lower type.""",
  ['inputs', 'configurations'], 'every numeric type, internal type and operation',
  'Test assertions use tolerances of 1E-8 and more, thus a step done in float or double instead of long double is invisible to them.',
  [('HOMOG2D_INUMTYPE', 'HOMOG2D_INUMTYPE'), ('manual', 'docs/homog2d_manual.md section "Numerical data types"')],
  technique='type-flow analysis of every floating expression of the instantiated program, per precision configuration',
  design="""every live arithmetic node, math call, floating conversion, constant, variable and object type in the functions reachable from the driver, in configurations float/double, long double/long double and double/double with the mixed types (thorough: six):
  arithmetic below the internal type, narrowing followed by further computation, low-precision constants or intermediate objects are reported. ~9700 obligations, 9 s.""",
  note='In-place scaling of stored values and exact scaling by a power of two are accepted; drawing and printing are outside.')

P('P33', 'Containment answers are consistent with what they stand for',
  """isInside() answers false for every pair of types for which the manual says so (nothing is inside an open polyline, for instance) and can answer both true and false for the others. A true answer is strict (touching the border
  is not being inside) for points, circles and rectangles, compares x with x and y with y, and for a segment, rectangle or polyline was reached only after all of its points were found inside; for a closed polyline container it requires a simple polygon
  and the absence of intersection. Being inside a polygon never depends on one side alone. getPtsInside() tries all the points, returns only points found inside, and all of them.""",
  ['inputs'], 'every pair of objects of every pair of types',
  'Tests draw a few shapes for some pairs of types; an object with one single vertex outside, a touching border or a point aligned with a side is not among them for each pair.',
  [('isInside() overloads', 'point, segment, circle, rectangle, polyline, ellipse'), ('getPtsInside()', 'free function')],
  technique='implied-facts must-dataflow over CFGs with loop-exhaustion facts and interprocedural boolean-result summaries',
  design="""for each pair of types: what a true answer implies (strict comparisons per axis, element tests combined with the exhaustion of the loop over the points, simple-polygon test, no-intersection test) and whether true/false are possible at all,
  checked against the table of the manual, section 5.2. Three ellipse pairs that never answer true are recorded findings. 10 s; six configurations in the thorough tier.""",
  note='The ray-crossing count and the conic sign test are not decided; the ellipse border counts as outside.')

P('P31', 'Constructions and measures satisfy their defining equations',
  """In exact arithmetic, for all coordinates: the line through two points contains both, the intersection point of two lines (segments, segment or line and circle, two circles) lies on both, orthogonal, parallel, rotated and bisecting lines and segments have the
  stated direction, go through the stated point and are at the stated distance; lines are normalised. Distances, lengths, angles between lines or oriented segments, areas, perimeters, centers, midpoints, corners, diagonals, sides, split and extended
  segments, inscribed, bounding and diameter circles, bounding boxes of rectangles, circles, ellipses, polylines, sets of points and pairs of primitives, top-, bottom-, left- and right-most points are those of plane geometry. translate(), moveTo(), rotate() move all the points as stated. Homography builders, products, inverse and
  transposition are the matrices of these transformations, and points, lines, segments, circles and ellipses are transformed accordingly (the conic of the image). An ellipse built from center, half axes and angle has that conic, and gives back its center,
  axes, axis lines, angle, area and perimeter. Default-constructed objects are the documented ones; constructors, setters, copies and conversions hold the values they are given; free functions return what the members of the same name return.""",
  ['inputs'], 'all coordinates, radii, angles and matrix entries for which the function returns',
  'Tests check sample values, mostly axis-aligned or symmetric, on which swapped coordinates, signs or factors agree.',
  [('LPBase, SegVec, Circle_, FRect_, Hmatrix_, Ellipse_, PolylineBase', 'constructors, measures, constructions, transformations'), ('free functions of the same names', 'namespace h2d')],
  technique='value-numbering dataflow over CFGs with interprocedural formula summaries; normal-form comparison with the defining equations',
  design="""`vn.py` gives every place a value number: a rational function over the input coordinates, with roots, trigonometric functions, minima and maxima as normalised terms with their reductions (sqrt(x)^2 = x, sin^2 = 1-cos^2). Where paths
  meet the value is conditional on the indicator of the branch condition (`Ite`, an idempotent atom per comparison; min, max and abs are recognised), or, when the condition has no formula, the set of alternatives; paths that throw become preconditions. Summaries are composed over calls, loops are fixpoints (or unrolled on constant counters),
  `std::minmax_element` and its kin yield the extreme element under the derived order. Analysis of a function stops at a budget of term products (then conditions are dropped, then it is not decided). `geo.py` reads points, lines, circles, matrices out of the values, in homogeneous form where the library uses it. Each equation of the statement is put in the
  same normal form (`poly.py`); when the normal forms differ (nested radicals, several alternatives) the identity of the two formulas is decided by evaluating them at points of the input space respecting the class invariants. About 420 kinds of public functions (690 instantiations)
  are decided in the base configuration, 60 s; the thorough tier covers six configurations. Functions whose formula cannot be derived are listed in the evidence and not claimed.""",
  note='Exact arithmetic: rounding is not modelled. What happens exactly on a branch boundary (equal coordinates) is not distinguished; loops over run-time numbers of points other than element-wise ones and extreme elements are not decided.')

P('P12', 'Everything has a value before it is used',
  """Every constructor of the library, on every path that returns, leaves every member of the object with a value (coordinates, radii, matrix entries, flags, indexes, parameters; whatever the arguments, the template arguments and the constructor delegated to). No
  function reads, copies, passes on or returns a local variable, or part of one, before it was given a value. Members holding the cached result of a lazy computation may stay unset as long as their validity flag says so.""",
  ['inputs'], 'all paths through all constructors and functions',
  'An unset member usually happens to hold zero or the value of an earlier object at the same place, so that tests pass; which value it has depends on the compiler, the optimiser and what ran before.',
  [('all classes', 'constructors, default member initialisers'), ('all functions', 'local variables')],
  technique='definite-assignment must-dataflow over CFGs with interprocedural summaries',
  design="""The set of certainly assigned scalar leaves (members of members, array entries, locals) is propagated forward over every CFG, intersected at joins; constructor initialisers, default member initialisers, default-initialised bases and members and delegation
  follow the language rules; a loop over a constant range that covers an array, or a range-based loop over it, assigns all of it. Summaries (leaves of *this and the parameters a function certainly assigns, those it reads first) are computed bottom-up over the call graph, so
  that helpers such as `p_init` or `p_fillZero` count. Obligations: all the leaves at the return of each constructor; each read, copy, return of a leaf of a local object. Reads of lazily computed members are the business of P01, P02, P03.""",
  note='External functions that receive an lvalue by non-const reference, a pointer or an iterator are taken to assign it; elements of run-time sized containers are initialised by the container.')

P('P15', 'Type queries are truthful and free functions dispatch to the member',
  """For every geometric class (and each template argument): `type()` answers the kind of the class (Point2d, Line2d, Segment, OSegment, Circle, Ellipse, FRect, CPolyline, OPolyline), `dtype()` the numeric type it is built on, `dsize()` the size of that type; `getString()`
  gives every enumerator its own name, no two alike. A free function that has the name of a member function (`length(x)`, `area(x)`, `type(x)`, `size(x)`, `getBB(x)`, `translate(x,…)`, `draw(img,x)`…) gives what the member function gives for the same
  object and the same arguments in the same order, also when the object is held by a `std::variant` (whichever alternative it holds) or referred to through the run-time polymorphic base class; a base-class object is only taken for the class its `type()` names.""",
  ['inputs'], 'all classes, all enumerators, all free functions and variant visitors',
  'Tests call each of these on one or two types; a wrong answer for one alternative of a variant, one enumerator or one argument order is not sampled.',
  [('type(), dtype(), dsize(), getString()', 'all classes'), ('free functions, fct::*Funct visitors', 'forwarding'), ('rtp', 'operator<< of the base class')],
  technique='value numbering of the type queries and interprocedural provenance of forwarded calls (def-use, per template instantiation)',
  design="""The constants returned by the type queries are computed by value numbering (helper functions, constexpr branches and tables are seen through) and compared with the class of `*this`. `getString` is evaluated symbolically for each enumerator of each enumeration.
  For each free function with a first-class argument whose class has a public member of the same name, the returned value is traced back (copies, conversions, single-definition locals, helper functions, visitors with every instantiation of their call operator) to
  the call that makes it. Reaching another public member, an altered result or a permutation of the arguments is a violation; a chain not resolved to a call of a member is counted and left out. Each downcast from the run-time polymorphic base class must be
  dominated by the case label of the type it casts to.""",
  note='std::visit is taken to call the visitor with the alternative held. Functions that compute rather than forward are the business of P31.')

P('P16', 'Operations on a set process every element, and nothing beyond',
  """Whatever the number of elements, an operation that applies to all the points, segments or entries of a polyline, container or matrix (translating, rotating, mirroring, transforming, comparing, testing containment, summing lengths, bounding, selecting,
  drawing, converting, printing) reaches the first element, the last one and those between, and never accesses an element before the first or after the last one: every loop and every standard algorithm call that walks a container covers it from end to end.""",
  ['inputs'], 'all loops and algorithm calls of the library',
  'A loop that forgets the first or last element, or that reads one too many, gives right results on the few sets used by tests whose first or last element does not matter.',
  [('base::PolylineBase', 'member functions'), ('free functions on containers', 'loops'), ('detail::Matrix_', 'loops on the entries')],
  technique='interval analysis of loop walks (linear offsets from the ends of the container accessed, per access path)',
  design="""`rules/cover.py` finds the variables stepped once per iteration (counters, iterators), their initial value, the bound in the loop condition and the element accesses made with them, as linear forms relative to the size of the very container accessed
  (locals holding sizes, `std::next`, `prev`, `min`, `max` are resolved). It yields for each (loop, container) the first and last element visited: complete, short, beyond, or undecided (wrapped indexes, accesses under a condition). An element left out by the
  loop but accessed on its own (`front()`, `[0]`, `back()`, `*begin()`) counts as visited.""",
  note='Loops that stop on another condition than the end of the container, or that are left early, are not judged on what they leave.')

# ---------------------------------------------------------------- not applicable
def NAp(id, title, statement, over, quant, why, mech, reason):
    P(id, title, statement, over, quant, why, mech); NA[id] = reason
NAp('P90', 'Intersection, inside and containment answers are geometrically right',
    """For every pair of primitives, the intersection points, the intersects flag and the isInside answer are those of exact geometry up to the documented thresholds.""",
    ['inputs'], 'all pairs of primitives and all coordinates', 'Tests sample a few configurations.', [('intersects(), isInside()', 'all primitives')],
    'The answer depends on floating-point values of unbounded inputs; no shape-of-code argument implies it. The structural necessary parts (which threshold, which operand, aliasing, precision, caches) are claimed by other properties.')
NAp('P91', 'Convex hull, bounding boxes and enclosing circle enclose their input',
    """Every input point lies inside or on the computed convex hull, bounding box and minimum enclosing circle, and these are minimal.""",
    ['inputs'], 'all point sets', 'Tests sample small sets.', [('convexHull, getBB, Circle_ (Welzl)', 'free functions')],
    'Numerical/combinatorial correctness of algorithms over arbitrary point sets; needs proof of the algorithm over reals, not a code-shape rule.')
NAp('P92', 'A homography built from 4 points maps the sources on the destinations',
    """buildFrom4Points gives a matrix that maps each source point to its destination point, for every non-degenerate set.""",
    ['inputs'], 'all 4-point sets', 'Tests use a few sets.', [('Hmatrix_::buildFrom4Points', 'Eigen/OpenCV back-ends')],
    'Numerical solution of a linear system by an external library; not decidable from the source shape.')
NAp('P93', 'Union and intersection areas of flat rectangles are exact',
    """unionArea and intersectArea return polygons that cover exactly the union and the intersection of the two rectangles.""",
    ['inputs'], 'all rectangle pairs', 'Tests enumerate drawn cases.', [('FRect_::unionPoly / intersectArea', 'FRect_')],
    'Case analysis over real coordinates whose correctness is geometric; no sound structural surrogate.')
NAp('P94', 'SVG written by the library reads back as the same shapes',
    """Importing a file produced by the drawing functions gives primitives equal to those drawn.""",
    ['inputs'], 'all shapes', 'Tests round-trip few shapes.', [('draw(), svg::Visitor', 'SVG export/import')],
    'Round-trip equality quantifies over decimal text of floating-point values (default stream precision already loses digits), out of reach of a static argument.')
