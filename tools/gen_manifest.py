"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/zcm/"
VEC = ["%s%s%d.hpp" % (INC, k, n) for k in ("vec", "ivec") for n in (2, 3, 4)] + ["src/%s%d.cpp" % (k, n) for k in ("vec", "ivec") for n in (2, 3, 4)]
MAT = [INC + "mat%d.hpp" % n for n in (2, 3, 4)] + ["src/mat%d.cpp" % n for n in (2, 3, 4)]
BV = [INC + "bvec%d.hpp" % n for n in (2, 3, 4)] + ["src/bvec%d.cpp" % n for n in (2, 3, 4)]
QU = [INC + "quat.hpp", INC + "quaternion.hpp", "src/quat.cpp", "src/quaternion.cpp"]


def hs(*n):
    return [x for k in n for x in (INC + k + ".hpp", "src/" + k + ".cpp")]


VF = "gated-SSA value-flow extraction from the flattened call tree, normal-form comparison with the definition"
FEW = "The tests evaluate a handful of sampled operands; "
NOT = " are not called by any test; "
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), technique=VF, level="other", note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": observe or ["return values and written-back operands of the public functions"], "hook_needed": None},
                  technique=technique, level=level, note=note))


REAL = ("Decided for all inputs from the source of both build types, with float expressions compared as real-number expressions: rounding, "
        "overflow and evaluation order are not distinguished. Trusts clang/LLVM's front end and mid-level passes and the analysis in /verif/zsa.")
EXACT = "Decided for all inputs from the source of both build types, bit-exactly. Trusts clang/LLVM's front end and mid-level passes and the analysis in /verif/zsa."

p("C01", "Vector arithmetic acts component by component",
  "Every binary arithmetic, bitwise and shift operator and every unary sign of float and integer vectors, with a vector or a scalar on either side, yields in each component the operator applied to the corresponding operand components, as the same IEEE operation. No component influences another, and operand order is respected.",
  "all operand values, all vector sizes and element types, both build types", FEW + "a wrong component in one operator form shows only for operands that differ in that component.",
  VEC + [INC + "detail/impl_op_macro.hpp"], [("operator definitions generated per type", INC + "detail/impl_op_macro.hpp"), ("per-type operator bodies", "src/vec*.cpp, src/ivec*.cpp")], note=REAL)
p("C02", "Compound assignment and increments equal the binary operator",
  "Compound assignments, increments and decrements of vectors, matrices and quaternions leave in the object exactly what the corresponding binary operator gives on its old value (rounding included, except for products and quotients of matrices or quaternions), also when the object is its own right-hand side or a part of itself. They return the modified object (postfix forms return the old value) and change nothing else.",
  "all operand values and aliasings of the object with the right-hand side", FEW + "self-operands and part-of-self operands are not tried.",
  VEC + MAT + QU, [("compound operators", "src/vec*.cpp, src/ivec*.cpp, src/mat*.cpp, src/quat.cpp")], note=REAL)
p("C03", "Construction, conversion and indexing put each value where it belongs",
  "Every constructor, factory, conversion, raw-pointer view and index access places or reads each component at its documented position: components in declaration order, matrices column by column, smaller matrices embedded in the identity, larger ones truncated. No component of a constructed value is left indeterminate.",
  "all argument values, all constructor overloads, all constant indices, both build types", FEW + "many constructor overloads and all raw-pointer and cross-size conversions are never built.",
  VEC + MAT + BV + QU + hs("type_ptr"), [("constructors", "src/*vec*.cpp, src/mat*.cpp, src/quat.cpp"), ("make_* / value_ptr", "src/type_ptr.cpp")], note=EXACT)
p("C04", "Component and swizzle names select exactly the named components",
  "Reading a component or a swizzle of any spelling gives exactly the named components in the named order, and writing through a component name changes that component and nothing else. All spellings of a component denote the same storage.",
  "all values, every name offered for every vector type", "There are thousands of accessor names; the tests use a few dozen.",
  [INC + "detail/vec%d_access.hpp" % n for n in (2, 3, 4)] + ["src/vec%d_access.cpp" % n for n in (2, 3, 4)], [("accessor tables", INC + "detail/vec*_access.hpp"), ("accessor bodies", "src/vec*_access.cpp")],
  note=EXACT + " Assigning one object's component accessor to another's same-named accessor (a.x = b.x) is a listed known finding.")
p("C05", "No operation touches memory outside its operands or uses garbage",
  "Called with valid arguments, no public operation reads or writes outside the objects it was given, lets an uninitialised value reach a result, or trips an assertion. In builds with assertions, an index outside the type's range is rejected by an assertion in every indexable type.",
  "all valid argument values for the first part; every out-of-range index for the second", "A wild read of a neighbouring stack slot usually goes unnoticed by value tests, and no test uses an out-of-range index.",
  VEC + MAT + BV + QU, [("index operators with assertions", "include/zcm/*.hpp operator[] / src/*.cpp")],
  technique="byte-range memory dataflow over the flattened call tree with bounds and definedness obligations", note="Decided for all inputs on every public operation the generator covers; guards of suspicious accesses are checked for feasibility. Trusts clang/LLVM and /verif/zsa.")
p("C06", "Bool vectors and relational functions follow IEEE comparison per component",
  "Logical operators on bool vectors, the any/all reductions, the component-wise comparisons and the NaN/infinity tests give in each component exactly the truth value of the scalar operation on that component. This includes components that are NaN or infinite.",
  "all truth values and all orderings of components, NaN and infinities included", FEW + "NaN operands and most relational functions are not exercised.",
  BV + hs("common"), [("logical operators", "src/bvec*.cpp"), ("relational functions", "src/*vec*.cpp, src/common.cpp")], note="Decided exactly over every ordering case of the operands. Trusts clang/LLVM and /verif/zsa.")
p("C07", "Equality is component equality; integer-vector order is lexicographic",
  "Two values compare equal exactly when all their components do, and != is the exact negation of ==. The ordering operators of integer vectors are the lexicographic order of the components, hence a consistent strict weak order usable in ordered containers.",
  "all pairs (and through the lexicographic form all triples) of values", "Order axioms quantify over triples of values; the tests compare a few pairs.",
  VEC + MAT + BV + QU, [("comparison operators", "src/*vec*.cpp, src/mat*.cpp, src/quat.cpp")], note="Decided exactly over every ordering case, NaN included. Trusts clang/LLVM and /verif/zsa.")
p("C08", "Equal values hash equally, and every component feeds the hash",
  "Values that compare equal have the same hash, also when they differ in the sign of a zero. Every component of a value takes part in its hash, and the standard-library hash of a type is the library's own hash.",
  "all values of every hashable type", "No test hashes anything; equality classes with signed zeros are sparse in samples.",
  [INC + "hash.hpp", "src/hash.cpp"], [("hash and hash_combine", "src/hash.cpp"), ("std::hash specialisations", INC + "hash.hpp")],
  technique="value-flow extraction into GF(2) bit normal form, dependence and signed-zero invariance", note="Decides invariance on equal values and dependence on every component for all inputs; says nothing about collision rates. Trusts clang/LLVM and /verif/zsa.")
p("C09", "Elementary functions map each component through the named function",
  "Exponential, logarithm, power, root and trigonometric functions of vectors (and quaternions where offered) give in each component the function of that name of the same argument component, with arguments in the documented order. Degree/radian conversion multiplies by the exact factor, up to float rounding.",
  "all argument values, all vector sizes", "These functions" + NOT + "even one sample per function would not separate all components.",
  hs("angle_and_trigonometry", "exponential"), [("component-wise application", "src/angle_and_trigonometry.cpp, src/exponential.cpp")], note=REAL + " The C math library is trusted to compute the function of its name.")
p("C10", "Rounding, sign and modulus functions meet their definitions in every case",
  "abs, sign, floor, ceil, trunc, round, roundEven, fract, mod and fma return, component by component, the value their definition prescribes for every sign and ordering of the arguments. Zero and negative arguments are included.",
  "all finite argument values in every sign case, all scalar and vector forms", "Most of these functions" + NOT + "their branches depend on sign cases.",
  hs("common"), [("scalar kernels and vector forms", "src/common.cpp")], note=REAL + " The C math library's rounding functions are trusted.")
p("C11", "min, max, clamp, mix, step and smoothstep meet their definitions",
  "min, max, clamp, mix (with float and bool selectors), step and smoothstep return, component by component, the value their definition prescribes in every ordering of the operands, including equality. A NaN second operand never displaces a number in min and max.",
  "all operand orderings, all scalar and vector forms", "Branch behaviour on every ordering of up to three operands in four forms is not sampled.",
  hs("common"), [("scalar kernels and vector forms", "src/common.cpp")], note=REAL)
p("C12", "Component reductions cover every component once",
  "The sum, product, minimum and maximum over the components of a vector are those of exactly its components, each counted once, up to float rounding.",
  "all component values and orderings", FEW + "a dropped or doubled component is invisible when values repeat.",
  hs("component_wise"), [("reductions", "src/component_wise.cpp")], note=REAL)
p("C13", "Dot product, lengths, distances and normalisation are Euclidean",
  "dot, length, squared length, distance, squared distance and normalize of scalars, vectors and quaternions equal their Euclidean definitions up to the definition's own rounding (no avoidable cancellation or overflow); normalising a non-zero value gives length one and the same direction.",
  "all operand values", FEW + "identities such as |v/|v|| = 1 are not checked for all directions.",
  hs("geometric") + ["src/quaternion.cpp"], [("geometric functions", "src/geometric.cpp"), ("quaternion norms", "src/quaternion.cpp")], note=REAL)
p("C14", "Reflection, refraction and face-forward follow the optical definitions",
  "reflect mirrors the incident vector in the surface, refract follows Snell's law and yields zero exactly under total internal reflection, and faceforward orients the normal against the incident direction. This holds in every sign case and dimension, up to rounding.",
  "all operand values and sign cases", FEW + "the case boundary (total reflection, zero dot product) is not pinned.",
  hs("geometric"), [("reflect/refract/faceforward", "src/geometric.cpp")], note=REAL)
p("C15", "Cross and orthogonal products are orthogonal to their arguments",
  "The cross product is the oriented area vector of its arguments and orthogonal to both; the helper that picks a perpendicular vector returns one orthogonal to its argument, and non-zero whenever the argument is.",
  "all operand values and orderings of their components", "Orthogonality must hold in every branch of the component ordering; samples reach a few.",
  hs("geometric"), [("cross/orthogonal", "src/geometric.cpp")], note=REAL)
p("C16", "Octahedral direction coding round-trips",
  "Encoding any direction yields a code in the unit square, and decoding that code gives the same direction back, normalised, for every octant, up to rounding. Decoding any code yields a unit vector.",
  "all directions in all eight octants and on their boundaries", "The codec" + NOT.replace("are", "is") + "its folding depends on octant and edge cases.",
  hs("geometric") + ["src/common.cpp"], [("encode/decode octahedral", "src/geometric.cpp")], note=REAL)
p("C17", "Matrix operators follow column-major linear algebra",
  "Sums, differences, products, quotients and negation of matrices, with matrices, vectors and scalars on either side, equal the column-major linear-algebra definition in every element, up to rounding. Component-wise product is the element-wise product.",
  "all element values, all sizes and operand kinds", "No test covers matrices at all.",
  MAT + hs("matrix"), [("matrix operators", "src/mat*.cpp")], note=REAL)
p("C18", "Determinant, inverse, adjugate and transpose satisfy their identities",
  "The determinant equals the Leibniz expansion, the inverse times the matrix is the identity on both sides for every invertible matrix, the adjugate is the transposed cofactor matrix, and the transposed variants are their transposes. No singularity other than a zero determinant is introduced.",
  "all (invertible) matrices of each size", "No test covers matrices; a wrong cofactor sign needs a dense matrix to show.",
  hs("matrix") + MAT, [("determinant/inverse/adjugate", "src/matrix.cpp")], note=REAL)
p("C19", "Translate, rotate and scale append the elementary transform",
  "Translating, rotating or scaling a matrix multiplies it on the right with the elementary transform: the origin moves by the vector, rotation is right-handed about the normalised axis by the angle, scale acts along each axis. The axis need not be normalised, and the remaining parts of the matrix are kept.",
  "all matrices, vectors, angles and non-zero axes", "No test covers transforms.",
  hs("matrix_transform"), [("translate/rotate/scale", "src/matrix_transform.cpp")], note=REAL)
p("C20", "View matrices map the eye to the origin and the target onto the view axis",
  "The look-at matrices are rigid changes of basis: the eye maps to the origin, the target to the forward axis of the chosen handedness (positive z left-handed, negative z right-handed) at its distance, and up stays in the upper half-plane. Left- and right-handed forms follow their handedness.",
  "all eye, target and up vectors in general position", "No test covers view matrices.",
  hs("matrix_transform"), [("lookAtLH/RH", "src/matrix_transform.cpp")], note=REAL)
p("C21", "Projection matrices send the view volume to the stated clip volume",
  "Each orthographic and perspective projection maps the corners of its view volume to the corners of the clip volume of its handedness and depth convention (zero-to-one or minus-one-to-one). All other elements are as the projection's definition prescribes.",
  "all non-degenerate volumes, handedness and depth conventions", "No test covers projections.",
  hs("matrix_transform"), [("ortho*/perspective*", "src/matrix_transform.cpp")], note=REAL)
p("C22", "Quaternion algebra is Hamilton's, and unit quaternions rotate",
  "Quaternion sum, product, quotient, conjugate and inverse follow Hamilton's algebra; a unit quaternion applied to a vector rotates it, in agreement with the matrices it converts to, and application from the right is the inverse rotation.",
  "all quaternions (all unit quaternions for the rotation statements)", FEW + "the quaternion part of the library is hardly tested.",
  QU, [("quaternion operators", "src/quat.cpp"), ("conversions and rotation", "src/quaternion.cpp")], note=REAL)
p("C23", "Quaternion conversions agree with each other",
  "Converting a unit quaternion to a matrix and back gives the same rotation in every branch; axis/angle, Euler angles, rotation between two directions and look-at quaternions are those of the rotation they describe. Opposite and boundary cases are included, and the matrix-to-quaternion conversion never divides by a quantity that can come arbitrarily close to zero.",
  "all unit quaternions, axes, angles and directions, every branch", "The branches depend on which component dominates; the tests reach none of the conversions.",
  QU, [("quat_cast, angleAxis, eulerAngles, quatLookAt", "src/quaternion.cpp, src/quat.cpp")], note=REAL)
p("C24", "Quaternion interpolation follows the shorter arc and hits its end points",
  "Linear, normalised-linear and spherical interpolation of quaternions equal their definitions for every parameter, take the shorter arc where documented, and give the end points at 0 and 1 (up to sign for the shorter arc).",
  "all quaternion pairs and parameters", "Interpolation" + NOT.replace("are", "is") + "the shorter-arc and nearly-parallel branches need special operands.",
  QU, [("lerp/nlerp/slerp", "src/quaternion.cpp")], note=REAL)
p("C25", "sRGB conversions apply the transfer function per channel and keep alpha",
  "Encoding and decoding between linear and sRGB colour applies the piecewise transfer function to each colour channel separately, on the correct side of the threshold, with the gamma given; alpha is untouched. With the same explicit gamma the power segments are inverse to each other.",
  "all colours and gammas", "No test covers colour conversion.",
  hs("color_space"), [("convertLinearToSRGB / convertSRGBToLinear", "src/color_space.cpp")], note=REAL)
p("C26", "Mathematical constants have their documented values",
  "Every named constant is the single-precision value nearest to (within one rounding unit of) the mathematical constant it names.",
  "all constants", "No test looks at the constants.",
  hs("constants"), [("constants table", "src/constants.cpp")], note="Exact: the literal reaching each result is compared with a 60-digit reference. The space is finite and fully enumerated.")
p("C27", "All operations are pure: no shared state, no hidden effects",
  "No library operation keeps or changes state between calls, writes through its read-only arguments, allocates, throws, performs I/O or depends on anything but its arguments. Hence concurrent calls on distinct results never interfere and equal arguments always give equal results.",
  "all call histories and thread schedules", "Interference needs particular schedules or call histories; tests run each function once in one thread.",
  ["src", "include/zcm"], [("absence of mutable static storage and external effects", "src/*.cpp")], over=("schedules", "histories"),
  technique="interprocedural effect analysis (stores, globals, external callees, const-parameter writes) over every library function", note="Sound for the compiled library code of both build types: every function and instruction is classified; anything not on the allow-list is reported.")
p("C28", "Everything the headers declare can be used",
  "Every function, operator and member the public headers declare is defined by the library, with exactly the declared signature, in each build type and also with the swizzle accessors disabled. A program using any of them links.",
  "all declarations in all configurations", "Tests link only what they call; most declarations are never referenced.",
  ["include/zcm", "src", "CMakeLists.txt"], [("declarations", "include/zcm/*.hpp"), ("definitions", "src/*.cpp")], over=("programs", "configurations"),
  technique="resolved declaration/definition matching over the type-checked syntax tree and the symbol tables", note="Exhaustive over the declarations clang resolves in each configuration. One declaration without definition (sterp) is a listed known finding.")
p("C29", "Headers stand alone and combine in any program",
  "Each public header compiles on its own, repeatedly and after any other, under every supported configuration and language standard, and several translation units including them link together without clashes. The library itself compiles in every configuration.",
  "all inclusion orders of pairs, configurations and language standards", "The tests include headers in one fixed order in one configuration.",
  ["include/zcm"], [("include guards, inline definitions, forward declarations", "include/zcm/*.hpp")], over=("programs", "configurations"),
  technique="type-level witnesses: generated programs that must compile and link", note="Exhaustive over headers, ordered header pairs, build types, swizzle setting and standards C++11/14/17/20.")
p("C30", "Build configuration does not change results",
  "A program gets the same results from the debug build, the release build and the build without swizzle accessors. Where a result involves no case distinction, the same floating-point operations are applied in the same arrangement, so it agrees bit for bit for valid inputs.",
  "all inputs, all configurations", "Tests are run in one configuration, and comparing configurations on samples settles single inputs only.",
  ["include/zcm", "src", "CMakeLists.txt"], [("conditional compilation", "ZCM_RELEASE_BUILD / ZCM_DISABLE_SWIZZLE sections")], over=("inputs", "configurations"),
  technique="value-flow extraction per configuration and term identity across configurations", note="Branch-free results must be the same tree of floating-point operations in each configuration (up to exchanging operands); results with branches are compared in every ordering case as real-number expressions.")
p("C31", "Decomposing a transform gives back its parts",
  "Decomposing any matrix that is a translation times a rotation times an axis-aligned scale yields that translation, the scale (negated as a whole when the frame is mirrored) and a quaternion whose rotation, with these, multiplies back to the matrix. This holds in every branch of the rotation extraction, none of which divides by a quantity that can come arbitrarily close to zero on a rotation.",
  "all translations, unit rotations and non-zero scales of any sign pattern", "No test decomposes a matrix; branches depend on the dominating rotation component and the mirror case.",
  hs("matrix_transform"), [("decompose_orthogonal", "src/matrix_transform.cpp")], note=REAL)
p("C32", "Types have the promised shape and reject ill-typed uses",
  "Vectors, matrices and quaternions are plain packed values: exactly their components in order without padding, bitwise copyable, passable to graphics interfaces by address. Uses the interface does not offer (mixing sizes or kinds, modifying constants, lossy implicit conversions) do not compile, and every operation is declared not to throw.",
  "all programs using the types", "A program that must not compile cannot be a unit test of this suite, and layout is assumed rather than checked.",
  ["include/zcm"], [("class definitions and overload sets", "include/zcm/*.hpp")], over=("programs", "configurations"),
  technique="type-level witnesses: static assertions and compile-fail programs", note="Exact for the enumerated witnesses (about 1,100 rejected programs with accepted controls, 2,900 static assertions), checked against the current headers in each configuration.")
p("C33", "Shared operations agree with GLM",
  "Where zcm and GLM 0.9.9.8 offer an operation of the same name and signature, porting code between them does not change results: as real-number expressions both give the same value in every component and every case of the operands, over operators, component-wise functions, geometry, matrices, camera and quaternion functions, colour and constants. Left out are the inputs and functions on which GLM departs from the definition or guards a degenerate input (zero-length normalisation, nearly gimbal-locked angles, nearly parallel view directions, axes within 0.001 of unit length, the default linear-to-sRGB curve, 2x2 inverseTranspose, integer sign, roundEven).",
  "all operand values outside the listed exceptions, both build types", "The tests compare against GLM, where at all, on single operands.",
  ["README.md", "include/zcm", "src"], [("public functions named as in GLM", "include/zcm/*.hpp")], note=REAL + " Also trusts the installed GLM headers as the reference, in GLM's portable form.")
p("C34", "Rounding never leads out of a function's domain",
  "With arguments that are valid up to rounding (unit quaternions and directions, rotation matrices, weights in [0, 1], colours that only just leave their range), no operation takes a square root, logarithm or power of a computed value that rounding may have made negative, or an inverse sine or cosine of one that rounding may have pushed beyond one, and spherical interpolation never divides by a rounding residue, so valid arguments do not turn into NaN; nor does normalising a perpendicular of a unit direction, coding it octahedrally and back, or casting a rotation matrix to a quaternion. Covers normalize, length, distance, refract, octahedral coding, orthogonal, view and look-at operations, quaternion conversions (angle, axis, Euler angles, quat_cast, between), slerp and nlerp, decomposition, rotation and colour conversion.",
  "all argument values within 0.001 of the stated ranges, all roundings", "Whether rounding exceeds one depends on the last bits of the operands; samples rarely hit them.",
  ["src/quaternion.cpp", "src/geometric.cpp", "src/matrix_transform.cpp", "src/color_space.cpp"], [("guards around partial functions", "src/*.cpp")],
  technique="interval abstract interpretation with rounding over value-flow terms, refined by path comparisons and polyhedra",
  note="Trusts: correctly rounded basic operations and square root, libm within 4 units in the last place, no intermediate overflow or underflow.")
p("C35", "Including a header leaves the rest of the program alone",
  "Including any public header adds nothing to the including program but namespace zcm, the hash specialisations in std and macros whose names begin with ZCM or zcm. It neither defines nor removes other macros, leaves no pragma in effect, emits no code, data or start-up code, and brings in no standard-library header beyond the integer and size types (and, for the hashing header, <functional>).",
  "all programs that include the headers, in every configuration", "A leaked macro, name or pragma only hurts programs that happen to use the same name; the tests are one such program.",
  ["README.md", "include/zcm"], [("public headers", "include/zcm/*.hpp, include/zcm/detail/*.hpp")], over=("programs", "configurations"),
  technique="lints over the preprocessor record, the type-checked syntax tree, the dependency list and the emitted IR of every header",
  note="Exhaustive over the public headers in the debug, release and no-swizzle variants; every directive, file-scope declaration and file read is classified, anything not on the allow-list is reported.")
p("C36", "Benchmark programs mean the same for zcm and GLM",
  "Every code snippet the benchmark generator can emit compiles, behind the generator's preamble and in the generated build's C++11, both against zcm and against GLM. In both it is the same program: the same functions are called and every local variable has the corresponding type, so that the compile times compared are those of the same work.",
  "all programs the generator can produce (any choice and order of snippets)", "No test builds the generator or its output, which picks snippets at random.",
  ["tools/benchgen", "include/zcm"], [("snippets", "tools/benchgen/snippets.h"), ("preamble", "tools/benchgen/main.cpp")], over=("programs",),
  technique="type-level witnesses: the snippets read from the generator's source must type-check against both libraries, with corresponding syntax trees",
  note="Exhaustive over the snippet table; snippets are independent blocks, so any combination of accepted ones is accepted. Trusts the installed GLM 0.9.9.8.")
p("C90", "Results are within known rounding bounds",
  "Every float result is within a stated number of rounding units of the exact value, without avoidable overflow or cancellation.",
  "all finite float inputs", "Rounding behaviour varies per input; samples do not bound it.", ["src"], [("float arithmetic", "src/*.cpp")])
p("C91", "Including the library is cheap to compile, and calls are cheap to run",
  "Programs that include the library compile quickly, and operations cost no more than the arithmetic they perform.",
  "all programs", "Timing is not observable by value tests.", ["include/zcm"], [("no templates and no includes in public headers", "include/zcm/*.hpp")], over=("programs",))
NA = {"C90": "Rounding-error bounds quantify over runtime float values; no abstraction in this framework bounds them (float expressions are compared as real-number expressions), and deciding them would need numeric range solving or execution.",
      "C91": "Compile-time and run-time cost are timing properties of a compiler and machine; nothing in the source decides them."}


def main():
    have = {f[:-3].upper() for f in os.listdir(V + "/zsa/props") if f.startswith("c") and f.endswith(".py") and f[1:3].isdigit()}
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            d = {k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            if x["id"] in have or x["id"] in NA:
                f.write(json.dumps(d) + "\n")
            else:
                print("no module for", x["id"], file=sys.stderr)
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q zsa && clang++-18 --version && opt-18 --version && cmake --version",
         "checks": [{"property": x["id"], "quick_cmd": "python3 -m zsa %s quick" % x["id"], "thorough_cmd": "python3 -m zsa %s thorough" % x["id"],
                     "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]}
                    for x in P if x["id"] in have],
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "Static analysis only: nothing of /repo is executed. See DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")


main()
