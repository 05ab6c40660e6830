# The properties: source of properties.jsonl and MANIFEST.json (see gen.py).
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=["nytl/" + f for f in files],
                  mech=[{"name": a, "where": "nytl/" + b} for a, b in mech],
                  technique=technique, note=note))


STATELESS = "stateless model checking: exhaustive enumeration of operation histories on the real code against a reference model"
ENUM = "bounded exhaustive enumeration of inputs on the real code against an independent reference"
TRUST = " Trusted: the reference model in the harness, g++, ASan/UBSan."

p("C01", "Calls reach exactly the functions registered when they started",
  "Calling a recursive callback runs every function that was registered at the moment the call started exactly once, in "
  "order of registration, even if it is removed meanwhile, and none that was added meanwhile. This also holds for calls made "
  "by functions that are being called, to any depth. The results of a call are the results of exactly these functions in that order.",
  ["histories", "programs"], "all programs of add, remove, clear, assign and call, at top level and inside of running functions",
  "tests run a handful of fixed scripts with one or two nesting levels; the guarantee is about every interleaving of nested "
  "calls with registrations and removals",
  ["recursiveCallback.hpp"], [("snapshot of last function and call id", "recursiveCallback.hpp: RecursiveCallback::call"),
                              ("removal stamped with the call id", "recursiveCallback.hpp: disconnect, clear, removeOld")],
  STATELESS, "Every program within the bounds (functions, top level operations, total reentrant actions, nesting) is executed "
  "on the real class and each call compared with a list model." + TRUST)
p("C02", "Disconnecting removes exactly the identified function",
  "Disconnecting removes exactly the function that the connection or id was returned for and reports success only if that "
  "function was still registered. Repeated disconnects, and disconnects after a clear, report failure and change nothing. All other functions stay registered in their order.",
  ["histories", "programs"], "all histories of registrations and (repeated, stale, reentrant) removals of either callback class",
  "tests disconnect live ids in simple orders; stale ids, removal during nested calls, of the first/last/only function are combinations they do not reach",
  ["recursiveCallback.hpp", "callback.hpp", "connection.hpp"],
  [("search by id", "recursiveCallback.hpp: disconnect"), ("search by id", "callback.hpp: disconnect")],
  STATELESS, "All histories within bounds, for both callback classes, with plain and tracked ids; the return value and the set of called functions are compared with the model." + TRUST)
p("C03", "Connection ids are told about removal exactly once, at the right time",
  "The id object of every registered function is notified of its removal exactly once: immediately if the callback is not being "
  "called, otherwise not before all pending calls are done, in which case it is first marked as pending removal. After that "
  "notification it is not used any more. Destroying the callback notifies all that are left.",
  ["histories", "programs"], "all histories of registration and removal at any point of (nested) calls, for user-defined id types",
  "tests use the two id types of the library, which hide duplicate, lost and early notifications",
  ["recursiveCallback.hpp", "callback.hpp"], [("deferred removal", "recursiveCallback.hpp: removeOld, disconnect, clear, ~RecursiveCallback"),
                                              ("notification", "callback.hpp: clear, disconnect, ~CallbackBase")],
  STATELESS, "A self-checking id type records every notification of the real code; all histories within bounds." + TRUST)
p("C04", "Tracked connections always report whether their function is registered",
  "A tracked connection reports connected exactly as long as the function it was returned for is registered, whoever removed the "
  "function and in whichever way, including removals during calls, clear and assignment and the end of the callback. All copies agree. Other connections are never affected.",
  ["histories", "programs"], "all histories of operations, observed through all connections after each step",
  "tests look at one connection after one operation",
  ["connection.hpp", "recursiveCallback.hpp", "callback.hpp"], [("shared id value", "connection.hpp: TrackedConnectionID"),
   ("validity test", "connection.hpp: ConnectionT::connected")],
  STATELESS, "Connections of all functions are queried after every operation of every explored history." + TRUST)
p("C05", "Exceptions of functions reach the caller and leave a callback usable",
  "An exception thrown by a called function ends the call, reaches the caller unchanged, and leaves the callback in a state where "
  "all later operations behave as if the call had ended normally at that point; removals deferred during the call are completed. "
  "Registering an empty function is rejected with an exception and changes nothing.",
  ["histories", "fault_sequences"], "all histories in which any called function at any nesting depth may throw",
  "tests throw once from one place and do not check deferred removals and nested counters afterwards",
  ["recursiveCallback.hpp", "callback.hpp", "scope.hpp"], [("cleanup guard", "recursiveCallback.hpp: call")],
  STATELESS, "A throw is one of the choices of every function execution in the explored programs." + TRUST)
p("C06", "Registering a function either succeeds or changes nothing",
  "If registering a function fails because memory cannot be allocated or the connection id cannot be constructed, the exception "
  "reaches the caller and no function is registered. All later operations behave as if the attempt had not been made.",
  ["fault_sequences", "histories"], "every allocation made by every registration in every history failing",
  "tests cannot make allocations fail",
  ["recursiveCallback.hpp", "callback.hpp"], [("ordering of throwing steps", "recursiveCallback.hpp: emplace, add"), ("ordering", "callback.hpp: add, emplace")],
  "stateless model checking with exhaustive fault injection: every allocation of every explored history is made to fail",
  "Allocations of the real code are counted and failed one by one (operator new replacement), in all histories within bounds; the callback is then compared with a list model." + TRUST)
p("C07", "The simple callback behaves like a list of functions",
  "For every history of registrations, removals, clears and calls the simple callback behaves like a list of functions: each call runs "
  "exactly the registered functions in order of registration and returns their results in that order. A function whose id was reset from the outside counts as removed.",
  ["histories"], "all histories up to a length over all operations and both forms of registration",
  "tests run a few fixed histories",
  ["callback.hpp"], [("list of subscriptions", "callback.hpp: CallbackBase, Callback")],
  STATELESS, "All histories up to the bound compared step by step with a list model." + TRUST)
p("C08", "Connection handles disconnect exactly what they own",
  "An owning connection handle disconnects its function when it is destroyed, overwritten or told to, at most once, and never "
  "touches a function it does not own. Moving transfers ownership, releasing gives it up and returns a connection to the same function. A plain connection never disconnects by itself. Tracked connections and handles may outlive their callback; using them afterwards does nothing.",
  ["histories"], "all histories of creating, moving, assigning, releasing, disconnecting and destroying handles of two callbacks",
  "tests cover single steps; double ownership and lost ownership need sequences",
  ["connection.hpp"], [("ownership transfer", "connection.hpp: UniqueConnectionT")],
  STATELESS, "All handle histories up to the bound compared with an ownership table." + TRUST)
p("C09", "All functions of a call receive the same arguments",
  "Every function run by a call receives the arguments of the call: values are equal to the ones passed in, whatever previously run "
  "functions did with theirs, references refer to the passed object. Passing arguments does not read moved-from or destroyed objects.",
  ["inputs", "programs"], "all parameter kinds (value, const, lvalue and rvalue reference, move-only for a single function) and all ways in which functions consume them",
  "tests register a single function or pass integers",
  ["callback.hpp", "recursiveCallback.hpp"], [("argument forwarding", "callback.hpp: Callback::call"), ("argument forwarding", "recursiveCallback.hpp: RecursiveCallback::call")],
  STATELESS, "All combinations of argument kinds, consuming functions and callback classes within bounds." + TRUST)
p("C10", "Function objects stay alive and in place while they run",
  "A registered function object is not destroyed, moved or copied while it or a function called by it is running, not even when it "
  "removes itself, clears the callback or is removed by a nested call. It is destroyed exactly once, at the latest when the callback is.",
  ["histories", "programs"], "all programs of reentrant operations",
  "tests use stateless lambdas for which early destruction is invisible",
  ["recursiveCallback.hpp"], [("deferred erase", "recursiveCallback.hpp: removeOld, iterationCount_")],
  STATELESS, "Self-checking function objects with sanitizers in all programs within bounds." + TRUST)
p("C11", "Scope guards run exactly when their scope ends the declared way",
  "A guard runs its function exactly once when its scope is left: always, only without exception or only with one, depending on its "
  "kind, where only exceptions thrown inside of the scope count, not ones already in flight when it was entered. A dismissed guard does "
  "not run. Guards run in reverse order of their declaration.",
  ["programs"], "all programs of nested scopes with guards, throws, catches, dismissals and destructors that run further scopes",
  "tests use one scope with one exception; guards inside of destructors that run during unwinding are not covered",
  ["scope.hpp"], [("count of exceptions in flight", "scope.hpp: SuccessGuard, ExceptionGuard"), ("unset", "scope.hpp: ScopeGuard")],
  STATELESS, "All programs up to a size are executed and their traces compared with an interpreter." + TRUST)
p("C12", "Spans view exactly the elements they were created for",
  "A span shows exactly the elements of the range it was created from, in every element access and iteration, and creating, copying, "
  "slicing and comparing never reads elements outside of it. Slices and byte views show exactly the requested part. Comparisons are those of the element sequences.",
  ["inputs"], "all sizes, offsets, counts, static and dynamic extents and source containers within bounds",
  "tests look at a few sizes and at hardly any boundary",
  ["span.hpp"], [("pointer and size", "span.hpp: span, storage_type, extent_type"), ("slices", "span.hpp: first, last, subspan, make_subspan")],
  STATELESS, "All (size, offset, count) within bounds for all constructors and extents; sources are surrounded by guard elements." + TRUST)
p("C13", "Bytes written to a buffer are read back unchanged, in order",
  "A sequence of values written to a byte buffer is recovered by reading the same sequence of types, for every kind of buffer. Every "
  "operation advances the buffer by exactly the size it transferred and changes no byte outside.",
  ["histories", "inputs"], "all sequences of transfers up to a length over types of different sizes and all buffer kinds, at all alignments",
  "tests write and read one fixed sequence at one alignment",
  ["bytes.hpp"], [("cursor arithmetic", "bytes.hpp: read, write, skip")],
  STATELESS, "All sequences within bounds compared with a byte array and a cursor; memory around the buffers is checked." + TRUST)
p("C14", "Byte transfers that do not fit are rejected without any effect",
  "An operation that needs more bytes than are left is rejected before it reads, writes or moves the position of anything. A fitting operation is never rejected.",
  ["histories", "fault_sequences"], "all sequences of transfers on buffers of all sizes, the failing transfer at any place",
  "tests do not exhaust buffers",
  ["bytes.hpp"], [("size checks", "bytes.hpp: NYTL_BYTES_ASSERT")],
  STATELESS, "The assertion hook of the header is defined to throw; buffers end directly behind their last byte (sanitizers)." + TRUST)
p("C15", "Conversions between the utf encodings preserve the text",
  "Converting a string between utf-8, utf-16 and utf-32 yields the encoding of exactly the same sequence of characters, for every "
  "valid string and in every direction, and converting back yields the original.",
  ["inputs"], "all unicode scalar values; all short strings over boundary values; runs of consecutive characters",
  "tests convert two literals",
  ["utf.hpp"], [("codecvt conversions", "utf.hpp: toUtf8, toUtf16, toUtf32")],
  ENUM, "All scalar values individually and all strings up to a length over boundary values." + TRUST)
p("C16", "Counting and indexing utf-8 text works on whole characters",
  "For every valid utf-8 text the character count is its number of encoded characters and accessing the n-th character yields exactly the "
  "bytes, position and size of that character. Indices behind the end are rejected; nothing outside of the text is read.",
  ["inputs"], "all scalar values and all short strings over boundary values, all positions",
  "tests index one string",
  ["utf.hpp"], [("lead byte decoding", "utf.hpp: charCount, nth")],
  ENUM, "All scalar values and all strings up to a length over boundary values, all positions including some behind the end." + TRUST)
p("C17", "String parameters are always null-terminated and complete",
  "A string parameter, whether default constructed, created from a string or a character pointer, copied or assigned, views the text of its "
  "source up to the first null character without copying it, and is null-terminated: reading its characters through the pointer yields exactly the viewed text.",
  ["inputs"], "all short contents (also with embedded null characters), all character and source types, all ways of copying",
  "tests check one literal and one string",
  ["stringParam.hpp"], [("constructors", "stringParam.hpp: BasicStringParam")],
  ENUM, "All contents up to a length over an alphabet with null and negative characters, from all source types." + TRUST)
p("C18", "Flags behave like sets of bits",
  "Combining, intersecting, toggling, inverting, assigning, comparing and converting flags has exactly the effect of the bitwise operation on the "
  "underlying value, for every underlying type and for any mix of flags and single values. Operators with a result leave their operands unchanged.",
  ["inputs", "programs"], "all pairs of 8 bit sets; all boundary bit sets of other widths; all short expression programs",
  "tests evaluate a few expressions with small values of one type",
  ["flags.hpp"], [("bitwise operators", "flags.hpp: Flags, NYTL_FLAG_OPS")],
  ENUM, "8 bit sets exhaustively, other widths over subsets of values including the highest bit and their complements." + TRUST)
p("C19", "Clones are complete, independent copies of the dynamic object",
  "Cloning through any interface or base a class is cloneable through yields an object of the same dynamic type that is equal to the "
  "original and independent of it, returned through that base; clone-moving yields such an object holding the contents the original had. If "
  "copying fails, the exception reaches the caller, nothing leaks and the original is unchanged.",
  ["histories", "fault_sequences"], "all histories of cloning, moving, changing and destroying objects of a family of class hierarchies, through every base",
  "tests clone one class once; wrong offsets for second bases, slicing and shared state need other hierarchies and later operations",
  ["clone.hpp"], [("covariant clone through a derived implementation class", "clone.hpp: Cloneable, DeriveCloneable, cloneImpl")],
  STATELESS, "Objects of self-checking classes; every history within the bounds, each copy may throw; identity, dynamic type, contents, number of "
  "living objects and releases with the proper address are compared with a model (sanitizers)." + TRUST)
p("C20", "Vector arithmetic works component by component",
  "Sum, difference, negation, scaling and comparison of vectors have, for every dimension and element type, in each component the result "
  "of the scalar operation on the corresponding components, also when operands alias each other. Assigning operators change only their left operand and return it.",
  ["inputs"], "all vectors over an alphabet of values, all dimensions, element types, operators and forms of aliasing",
  "tests evaluate a few expressions; wrong handling of one component, one type combination or aliased operands is not visible in them",
  ["vec.hpp", "vecOps.hpp"], [("assigning operators", "vec.hpp: operator+=, -=, *="), ("binary operators", "vec.hpp: operator+, -, *, ==")],
  ENUM, "All pairs of vectors over alphabets chosen to be exact in every type; expected values are computed by scalar code." + TRUST)
p("C21", "Products, lengths, distances and angles of vectors are the geometric ones",
  "Dot and cross product, length, distance, angle, normalization, reflection about a point, sum and product of components yield the mathematical "
  "value for every dimension and element type, to the precision of the type. The in-place and the returning form agree.",
  ["inputs"], "all pairs of vectors over an alphabet, all pairs of directions of a grid on the sphere in many lengths",
  "tests check single vectors",
  ["vecOps.hpp"], [("reductions", "vecOps.hpp: dot, length, distance, angle, cross, normalize, mirror")],
  ENUM, "Expected values in long double or, for integers, exactly; tolerances relative to the precision of the type." + TRUST)
p("C22", "Component-wise functions affect every component and nothing else",
  "The component-wise operations and functions (minimum, maximum, product, quotient, power, clamping, scalar operators, functions of the standard "
  "library) yield in each component what the scalar function yields for the corresponding components; the in-place forms change exactly their argument "
  "to that result. Sum and product of the components combine all of them.",
  ["inputs"], "all pairs of vectors over an alphabet of values, all dimensions and element types",
  "there are no tests for most of these functions",
  ["vecOps.hpp"], [("loops over components", "vecOps.hpp: vec::cw, vec::cw::ip, vec::operators")],
  ENUM, "All pairs of vectors over alphabets; expected values are computed by scalar code." + TRUST)
p("C23", "Matrix arithmetic follows the definitions of linear algebra",
  "Sum, difference, scaling, products of matrices and vectors, transposition, trace, identity, row and column access, symmetry and comparison yield the "
  "mathematical result for all sizes and element types, also when operands alias; assigning forms convert this result to the element type of the assigned matrix. Checked access rejects exactly the indices outside.",
  ["inputs"], "all matrices over alphabets of values, all sizes up to 4, all forms of aliasing",
  "tests compute a few products of fixed size",
  ["mat.hpp", "matOps.hpp"], [("operators", "mat.hpp: operator+=, *=, *"), ("structure", "matOps.hpp: row, col, transpose, identity, symmetric")],
  ENUM, "All pairs of matrices over alphabets; large sizes by patterns and by all single-entry matrices (the operations are linear in each entry)." + TRUST)
p("C24", "Row echelon forms are echelon forms of the given matrix",
  "The row echelon form of a matrix is in echelon form and has the same row space; the reduced form is the unique reduced row echelon form. "
  "This holds for all shapes and ranks. Pivoting swaps the row with the largest candidate and reports it. Nothing outside of the matrix is accessed, and the copying forms leave the source unchanged.",
  ["inputs"], "all small matrices over alphabets of values, of all shapes up to 4x4, all ranks",
  "tests compute two full-rank examples; rank-deficient, wide and tall matrices are the ones that break elimination",
  ["matOps.hpp"], [("elimination", "matOps.hpp: pivot, rowEcholon, reducedRowEcholon")],
  ENUM, "Expected forms are computed with rational numbers; restricted to matrices for which the elimination is exact in the element type." + TRUST)
p("C25", "LU decomposition and determinant are those of the matrix",
  "The LU decomposition of an invertible matrix consists of a unit lower triangular, an upper triangular and a permutation matrix with P*A = L*U, and "
  "its sign is that of the permutation. The determinant is the mathematical one for every matrix, singular ones included, and a matrix is reported invertible iff it is non-zero.",
  ["inputs"], "all small integer matrices, row permutations of larger ones and scaled versions of them",
  "tests decompose a handful of matrices and none that needs particular row exchanges",
  ["matOps.hpp", "mat.hpp"], [("decomposition with pivoting", "matOps.hpp: luDecomp"), ("determinant", "matOps.hpp: determinant, invertible")],
  ENUM, "Determinants are computed exactly with integers; the product is compared within a tolerance relative to the entries." + TRUST)
p("C26", "Solving equation systems and inverting yields the solution",
  "For every invertible matrix A, the solution computed for a right side b satisfies A*x = b, and the computed inverse is the inverse matrix, for all sizes, all "
  "element types and by all forms of the interface.",
  ["inputs"], "all small integer matrices with all unit vectors and further right sides",
  "tests solve one system",
  ["matOps.hpp"], [("substitution", "matOps.hpp: luEvaluate"), ("inverse", "matOps.hpp: inverse")],
  ENUM, "Solutions are compared with the exact (adjugate) ones within a tolerance relative to the condition of the matrix." + TRUST)
p("C27", "Containment and intersection of rects agree with their points",
  "A rect contains exactly the points between its bounds. Two rects intersect iff they have a point in common (the strict variants: iff their interiors do), "
  "and their intersection consists of exactly the common points. This is independent of the order of the rects and holds for every dimension and element type.",
  ["inputs"], "all pairs of rects, and all pairs of rects and points, on a grid, also placed at the ends of the number range",
  "tests check a few pairs; touching, nested, crossing and degenerate placements are many in 2 and 3 dimensions",
  ["rectOps.hpp"], [("interval comparisons", "rectOps.hpp: contains, containsReal, intersects, intersectsReal, intersection")],
  ENUM, "All placements up to the order of coordinates are covered by the grids; the answers are compared with interval arithmetic and points." + TRUST)
p("C28", "The difference of rects is exactly the uncovered part",
  "The rects returned as the difference of two rects do not overlap, have a positive size, lie inside of the first and outside of the second rect and cover "
  "everything of the first that is not in the second.",
  ["inputs"], "all pairs of rects with positive size on grids in 1 to 4 dimensions",
  "tests check two configurations in 2D",
  ["rectOps.hpp"], [("splitting per axis", "rectOps.hpp: difference")],
  ENUM, "The pieces are rasterized on the grid: every cell has to be covered exactly once or not at all." + TRUST)
p("C29", "Numbers are mapped and paired without collisions",
  "Mapping signed to unsigned numbers yields the documented number for every int and is undone by the reverse mapping. Pairing two unsigned numbers is "
  "the Cantor pairing for all pairs whose number is representable, so different pairs have different numbers.",
  ["inputs"], "all 2^32 ints; all 2^32 pairs whose number fits",
  "tests can only sample",
  ["math.hpp"], [("zigzag mapping", "math.hpp: mapUnsigned, unmapUnsigned"), ("Cantor pairing", "math.hpp: pair")],
  ENUM, "The whole domain is enumerated." + TRUST)
p("C30", "Scalar helpers compute the documented values",
  "Conversions between degrees and radians, linear interpolation, the smooth step, factorials and clamping yield the documented value for all arguments of their "
  "domain; the smooth step is 0 below, 1 above and monotonic inside of its range; clamping reports whether and at which side it clamped. The constants have the value of their name.",
  ["inputs"], "grids of all arguments and, for float, all finite values",
  "there are no tests for these functions",
  ["math.hpp"], [("formulas", "math.hpp: degrees, radians, mix, smoothstep, factorial, clampStore")],
  ENUM, "Dense grids and (all or every n-th) finite float compared with long double references." + TRUST)
p("C31", "Approximate comparison accepts exactly what is within its tolerance",
  "A value a equals an approximate value b iff |a - b| < epsilon * (1 + max(|a|, |b|)), up to rounding, in the precision of their type; vectors and matrices iff this holds for every component, "
  "complex numbers for both parts. The comparison is symmetric, inequality is its negation, and the default tolerance is used unless one is given.",
  ["inputs"], "all assignments of {equal, inside, outside of the tolerance} to the components, all tolerances of a list, values of all magnitudes",
  "tests compare a few numbers and never one wrong component among right ones",
  ["approx.hpp", "approxVec.hpp"], [("relative comparison", "approx.hpp: Approx operator=="), ("component loops", "approxVec.hpp")],
  ENUM, "Values are placed at both sides of the limit of the tolerance for every component independently." + TRUST)
p("C32", "Quaternions represent rotations consistently",
  "A unit quaternion, its matrix, and applying it to vectors describe the same rotation. Products compose rotations in the documented order, conjugation inverts, and conversion "
  "from a matrix restores the rotation. Quaternions constructed from axis and angle or a sequence of angles describe the documented rotation.",
  ["inputs"], "all quaternions on an integer grid, all pairs of them, all axes of a grid with all multiples of an angle",
  "there are no tests; conversions have four branches that are taken in different regions",
  ["quaternion.hpp"], [("conversions", "quaternion.hpp: fromMat, toMat, apply"), ("Hamilton product", "quaternion.hpp: operator*=")],
  ENUM, "All grid rotations compared with an independent implementation (Rodrigues' formula and quaternion algebra in long double)." + TRUST)
p("C33", "Euler angles reproduce the rotation they were computed from",
  "For every unit quaternion and each of the rotation sequences, rotating by the computed angles in this sequence yields the same rotation, also at and near the "
  "orientations for which the angles are not unique.",
  ["inputs"], "all quaternions on a grid and all angle triples on a grid, for all 12 sequences, and neighbourhoods of the singular orientations",
  "there are no tests; singular orientations are isolated points",
  ["quaternion.hpp"], [("decomposition and indeterminate cases", "quaternion.hpp: eulerAngles")],
  ENUM, "Every decomposition is recomposed by an independent implementation." + TRUST)
p("C34", "Spherical interpolation follows the shortest arc at constant speed",
  "Interpolating between two rotations yields unit quaternions on the shorter arc between them, at the requested fraction of its angle, starts with the first and ends "
  "with the second rotation, for all pairs and independent of the sign of the quaternions.",
  ["inputs"], "all pairs of grid rotations, pairs that are close or nearly opposite, all fractions in steps",
  "there are no tests; sign and threshold cases are missed by single examples",
  ["quaternion.hpp"], [("shortest arc, threshold", "quaternion.hpp: slerp")],
  ENUM, "Compared with the angle to both ends, computed independently in long double." + TRUST)
p("C35", "Transformation matrices move points as documented",
  "Scaling, translation, rotation and orientation matrices transform every point as documented, in all supported dimensions; applying a transformation to a matrix composes it after the "
  "existing one; flipping an axis negates that coordinate; expanding a matrix keeps its effect.",
  ["inputs"], "all vectors and points over alphabets, all axes of a grid with all multiples of an angle, all pairs of directions of a grid",
  "there are no tests",
  ["transform.hpp"], [("matrix construction", "transform.hpp: scaleMat, translateMat, rotateMat, orientMat, flipAxis, expandIdentity, multPos")],
  ENUM, "Transformed points and (for rotations) orthogonality, determinant and Rodrigues' formula, in long double." + TRUST)
p("C36", "Projection matrices map their volume onto the clip volume",
  "Orthographic, frustum and perspective matrices map the described volume, and only it, onto the clip volume with the documented depth range, for normal, reversed "
  "and infinite depth and for both signs of the planes; near and far plane and the sides map onto the corresponding boundaries.",
  ["inputs"], "all boxes, rects, plane pairs, angles and points of grids, including inverted and reversed ones",
  "there are no tests",
  ["transform.hpp"], [("projections", "transform.hpp: ortho, frustum, perspective")],
  ENUM, "Projected points are compared with similar triangles computed in long double." + TRUST)
p("C37", "Camera matrices and bases are orthonormal and look the right way",
  "The look-at matrices transform the camera position to the origin and the view direction onto the documented axis, keep distances and orientation and leave up upwards. The base built for a "
  "direction consists of unit vectors that are orthogonal to it and each other, for all directions.",
  ["inputs"], "all directions and up vectors on grids, all grid rotations, neighbourhoods of both poles",
  "there are no tests; the poles are special",
  ["transform.hpp"], [("look at", "transform.hpp: lookAt"), ("orthonormal base with pole case", "transform.hpp: base")],
  ENUM, "Compared with matrices computed by an independent implementation in long double." + TRUST)
p("C38", "Converting dimensions and element types keeps the common part",
  "Converting a vector, matrix, rect or simplex to another dimension or element type keeps every component both have, converted like a scalar, sets all others to zero, "
  "and leaves the source unchanged.",
  ["inputs"], "all pairs of dimensions up to 4 or 5 and pairs of types, all values of an alphabet per component",
  "tests convert single objects",
  ["vec.hpp", "vec2.hpp", "vec3.hpp", "mat.hpp", "rect.hpp", "simplex.hpp"], [("conversion operators", "vec.hpp, vec2.hpp, vec3.hpp, mat.hpp, rect.hpp, simplex.hpp: operator Vec/Mat/Rect/Simplex")],
  ENUM, "Source and target sizes and types form a grid that is covered completely." + TRUST)
p("C39", "Printing shows all values in order and leaves the stream as it was",
  "Printing a vector, rect, matrix or approximate value writes all of its values in order, in the requested format, to the given stream, returns this stream and leaves its "
  "formatting state unchanged.",
  ["inputs"], "all values of an alphabet, all dimensions, formats and initial states of the stream",
  "tests do not look at the output",
  ["vecOps.hpp", "matOps.hpp", "rectOps.hpp", "approx.hpp", "approxVec.hpp"], [("print", "vecOps.hpp, matOps.hpp, rectOps.hpp: print")],
  ENUM, "The text (or for matrices and rects the parsed numbers and lines) is compared with the values." + TRUST)
p("C40", "Callable traits report the exact signature",
  "For every callable (signature, function pointer, member function pointer, functor, lambda, references to them) the traits report exactly its return type, parameter types with "
  "qualifiers, their number, constness and class (an exception specification does not change any of them); callability is reported for callables and nothing else; expression checks report exactly whether the expression is valid.",
  ["inputs", "programs"], "the grid of forms, return types and parameter lists; all pairs of a list of types for each of a list of expressions",
  "tests instantiate three signatures",
  ["functionTraits.hpp", "tmpUtil.hpp"], [("partial specializations", "functionTraits.hpp: FunctionTraits, IsCallableImpl"), ("detection", "tmpUtil.hpp: ValidExpressionT")],
  "bounded exhaustive enumeration of types (instantiations of the real templates) against an independent reference",
  "All combinations of the grid are instantiated and their answers compared one by one." + TRUST)
p("C41", "Objects declared non-copyable cannot be copied but keep moving",
  "Objects of classes derived from the non-copyable helper cannot be copied or copy-assigned in any way, but can be moved, keeping their values; those derived from the non-movable "
  "helper can be neither copied nor moved. Callbacks, owning connections and scope guards cannot be copied.",
  ["inputs", "programs"], "all ways of deriving (access, order, depth, several bases, members, virtual bases) and all forms of copying and moving",
  "tests check one class each",
  ["nonCopyable.hpp", "callback.hpp", "recursiveCallback.hpp", "connection.hpp", "scope.hpp"], [("deleted members", "nonCopyable.hpp: NonCopyable, NonMovable")],
  "bounded exhaustive enumeration of class shapes and conversions (instantiations of the real classes)",
  "Type traits and, for moves, values of all shapes of the list." + TRUST)
p("C42", "All ways to access elements refer to the same elements",
  "Names, indices, iterators, data pointers, front and back of vectors, and rows, indices and checked access of matrices refer to the same elements: whatever is written in one way is read in all "
  "others, and other elements stay unchanged. Sizes are those of the type, and the named types (Vec3f, Mat34, Rect2i, Triangle, ...) have the dimensions and element types that their names say. Vectors that check indices reject exactly those outside.",
  ["histories", "inputs"], "all histories of writes in any way to vectors and matrices of all small sizes, read in all ways",
  "tests read what they have initialized",
  ["vec.hpp", "vec2.hpp", "vec3.hpp", "mat.hpp", "fwd/vec.hpp", "fwd/mat.hpp", "fwd/rect.hpp", "fwd/simplex.hpp"], [("separate specializations with named members", "vec2.hpp, vec3.hpp: Vec"), ("array based", "vec.hpp: Vec")],
  STATELESS, "All histories within the bound compared with an array." + TRUST)
p("C43", "Headers can be included alone, in any order and in many units",
  "Every public header can be included on its own and next to every other one in any order, and in any number of translation units of one program, "
  "and what its entities do does not depend on which other headers are included.",
  ["configurations", "programs"], "all headers, all ordered pairs of headers, cyclic orders of all headers, two translation units",
  "each test program is a single translation unit with one fixed selection of headers",
  ["approx.hpp", "approxVec.hpp", "bytes.hpp", "callback.hpp", "clone.hpp", "connection.hpp", "flags.hpp", "functionTraits.hpp", "fwd.hpp", "mat.hpp",
   "matOps.hpp", "math.hpp", "nonCopyable.hpp", "quaternion.hpp", "rect.hpp", "rectOps.hpp", "recursiveCallback.hpp", "scope.hpp", "simplex.hpp",
   "span.hpp", "stringParam.hpp", "tmpUtil.hpp", "transform.hpp", "utf.hpp", "vec.hpp", "vec2.hpp", "vec3.hpp", "vecOps.hpp"],
  [("inline and template definitions", "*.hpp"), ("forward declarations and aliases", "fwd/*.hpp")],
  "exhaustive enumeration of the inclusion orders of pairs of headers and of link configurations, each compiled and (where linked) run",
  "One probe represents the use of each header; its result in every configuration is compared with the one it has alone. Trusted: g++ and ld.")
p("C44", "Uses that the types can rule out do not compile, meaningful ones do",
  "The types keep misuse out: views never remove const, never reinterpret elements nor change a fixed size; objects are only taken as bytes "
  "when they are trivially copyable and of standard layout, and only writable when they are not const; operations on vectors, matrices, rects and simplices "
  "of dimensions that do not match, and functions, arguments, connections, flags and strings (not null-terminated) that do not match are rejected by the "
  "compiler, as are writes through const objects and copies of handles that own something. Every use whose types match compiles.",
  ["inputs", "programs"], "all pairs of sources and targets, element types, dimensions, shapes and operations of the tables",
  "a test that does not compile cannot be part of a test suite, so none of the tests checks that anything is rejected",
  ["span.hpp", "bytes.hpp", "vec.hpp", "vecOps.hpp", "mat.hpp", "matOps.hpp", "rectOps.hpp", "simplex.hpp", "approx.hpp", "flags.hpp", "stringParam.hpp",
   "callback.hpp", "recursiveCallback.hpp", "connection.hpp", "scope.hpp", "clone.hpp"],
  [("constraints of the constructors", "span.hpp"), ("validExpression checks", "bytes.hpp")],
  "exhaustive enumeration of the uses in tables generated from typing rules, each compiled against the current headers",
  "A use that has to compile and does not, or the other way round, is a violation. Uses that must not compile are compiled one by one. Trusted: g++.")
