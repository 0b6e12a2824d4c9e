import json
head = r'''# Static verification of CML

CML is a header-only expression-template library, so "the code" is what the compiler makes of the
templates when they are instantiated.  Every check generates translation units that instantiate CML's
operations from /repo's *current* headers, lets clang's front end type-check or lower them, and decides
the property on the result.  **Nothing of CML is ever executed, and no path is given to a solver.**

    python3 check.py P09 --tier quick        one property (exit 0 | 1 with a VIOLATION line)
    python3 check.py P09 --tier thorough     more sizes, kinds and combinations
    CML_REPO=dir python3 check.py P09        the same against another tree
    python3 tool/props.py; tool/manifest.py  regenerate properties.jsonl and MANIFEST.json

## 1. The engines

### V - value flow over the IR (`lib/vflow.py`, `lib/alg.py`, `lib/pairs.py`, `tool/irdump.cpp`)

*What is generated.*  For each *case* a reference `r_case` (the property in plain C++ on arrays: a few
loops, no CML) and any number of targets `t_case__variant` (the same computation through CML with one
combination of storage kinds, value categories, memory orders, bases, element types).  Inputs are
arguments; outputs are written to arrays.  `lib/harness.py` packs them into translation units, which a
process pool analyses (8 workers).

*What is analysed.*  clang lowers the units to LLVM IR with **no LLVM pass run** (`-O1 -Xclang
-disable-llvm-passes`): object lifetimes, temporaries and every load and store are those of the source.
`tool/irdump.cpp` (LLVM's own bitcode reader) prints the IR as JSON.  If the unoptimised form meets an
unsupported construct the same target is retried on optimised IR.

*The abstract domain.*  A forward dataflow analysis gives every SSA value and every memory cell a value
number in a canonical domain:

- numbers: rational functions over the inputs with exact rational coefficients, square roots (with
  `s*s` reduced), `sin`/`cos` pairs (reduced by sin^2 = 1 - cos^2, sums and multiples of angles expanded),
  inverse functions (`acos`, `asin`, `atan2`: sine and cosine of these are algebraic), and uninterpreted
  functions of canonical arguments for the rest (`exp`, `log`, hashing of bytes, ...);
- `integer` atoms (for int versions of the helpers), `nonneg`/`positive`/`non-zero` atoms;
- conditional values: ordered decision diagrams whose tests are signs (-,0,+) of polynomials, shared and
  reduced; a test that is a square sum, or follows by interval reasoning from the others on its path, is
  decided.  Branches whose condition is constant are not followed, others are joined by gates at the merge
  point.  Loops are peeled while their condition is constant (sizes are constants of the case);
- pointers: (region, offset); regions are arguments, stack objects (with lifetime markers: an access after
  `lifetime.end` is an event), heap blocks (size, freed, per-element constructed state), globals, strings,
  streams.

*Oracle.*  For every output cell: target value number == reference value number, on every path on which
the reference returns.  For every exception type: the condition under which the target throws it == the one
under which the reference throws it.  Plus, for every target: no out-of-range, null, dangling or
uninitialised access on any such path, no write to a static object, no computed double rounded to float, no
write to a `watch`ed object before an exception, no write to a `freeze`n operand, no leak.  Equality is
identity of canonical forms after cross-multiplication; if two forms differ, the difference is reported only
when it is *refuted* by evaluating both **terms** (not the code) at sample points, otherwise the obligation
is `undecided` and raises no alarm.  On the current tree no obligation is undecided in any check.

*Reach.*  Decided for **all** element values (over the reals), for the enumerated sizes, kinds and types.
A test samples a few values of a few combinations.  `__builtin_unreachable()` in a reference states an
assumption: nothing is required on that path.

*Effect modes.*  Target names select them: `HEAPaK`/`HEAPcK` (the K-th allocation/element construction
throws; exceptions are followed to landing pads and handlers), `FROZEN` (floating-point results opaque, so
that only effects matter), `NOALLOC` (call-graph reachability of an allocation on returning paths, with the
flow analysis as second opinion), `HASH` (injectivity of the hash term in each element, `lib/hashing.py`),
`RND` (draws of random engines are fresh values identified by the engine's state; which draw goes where is
matched up to renumbering), `EVT` (events count also where the reference throws).

*Library models.*  libm functions, memcpy/memmove/memset, operator new/delete and allocators, exceptions,
guards of function-local statics, `std::_Hash_bytes`, stream output (the characters and formatted values
written become cells of the stream object), `std::rand`, `std::random_device`, engines and distributions.

*Time limits.*  60 s per target; after 500 s every remaining target gets 3 s.  A target that runs out, or
that the engine does not support, is `not_analysed` in the evidence; more than 20 % of them (or fewer
obligations than the floors confirmed by hand) makes the check fail as broken rather than pass.

### T - the type-checked program (`checks/p24.py`, `p28.py`, `p29.py`, `p35.py`)

Generated `static_assert`s on the types of expressions (P28, P29), compile-fail witnesses, one translation
unit per combination that the compiler must refuse, each paired with a neighbouring combination that it must
accept (P24), instantiation of every operation, and rules over the AST and the symbol tables: every declared
function is defined under the same signature, every symbol a unit needs is defined in it, each header parses
on its own (P35).

### Replays

A violation prints file:line chains in /repo, the rule, the target and, for values, an input on which the
two terms differ; all of them are in `evidence/replay/<id>.txt`.

## 2. Per property

'''
M = {
'P01': "V. Sums, differences, products/quotients with scalars, negation, hadamard of vectors, matrices and quaternions; every pair of storage kinds (fixed, dynamic, external fixed/run-time sized, const external) x value categories (lvalue, const lvalue, rvalue, expression, row/column/sub views) x element types x memory orders; element k of the result is op of elements k.",
'P02': "V on unoptimised IR. Expressions built from temporaries, moved and nested nodes, returned from functions and stored in `auto` before evaluation; lifetime markers make any access to a dead temporary an event; values as in P01.",
'P03': "V. Target also an operand (a = a op b, a = b op a, swapping, views of the target, scalars that are elements of the target); the reference evaluates the documented elementwise or whole-object semantics.",
'P04': "V. dot, cross, perp_dot, outer, triple_product, length, normalize against their sums; polynomial identity.",
'P05': "V. matrix*matrix, matrix*vector, vector*matrix for rectangular shapes, chains, views, mixed orders/bases/types; row-by-column sums in the written order.",
'P06': "V. The same construction, assignment, move, array and list input, element access under row_major and col_major; element (i,j) equal and `data()` in the documented order.",
'P07': "V, relational: the column-basis instantiation is the reference for the row-basis ones (results arranged into a common form by the harness); targets are captured from the cases of P14-P21 and P37.",
'P08': "V. Every row, column, transpose, subvector index of every small shape, nested, over lvalues and temporaries; writes through views in P32/P38.",
'P09': "V. determinant and trace against the Leibniz sum, inverse against the adjugate over the determinant up to 4x4; for larger ones (Gauss-Jordan with pivoting) M*inv(M) = 1 on the pivot paths of sparse-symbolic matrices (fully symbolic ones exceed any normal form).",
'P10': "V. P*L*U = A, on every pivot order, with in-place and copying forms; lu_solve satisfies A*x = b.",
'P11': "V. Hamilton product for both storage orders and both cross conventions, all operand categories, mixed orders.",
'P12': "V. Conjugate, inverse, norm, length, normalize, identity, real/imaginary accessors.",
'P13': "V. exp, log, and their composition, slerp/lerp/nlerp boundary branches.",
'P14': "V. Matrix, quaternion and axis-angle constructors against Rodrigues' formula, all axes, bases, quaternion conventions; handedness included.",
'P15': "V. All 12 Euler orders, matrices, quaternions and derivatives against the product of axis rotations and its symbolic derivative.",
'P16': "V. Round trips: matrices built in the harness from a unit axis and (s,c), from a unit quaternion or from three angles, are read back; the composition must be the identity (up to the sign of a quaternion / documented singular branches).",
'P17': "V. Translations, scales, shears, skew matrices, affine from parts, inverse of rigid transforms, get/set translation.",
'P18': "V. get/set of every basis vector index and combination for every basis/shape; untouched cells must stay identical.",
'P19': "V. Orthographic and perspective constructors: the corners of the view volume map to the documented clip corners for both handednesses, z ranges, bases, all parameter sets.",
'P20': "V. Planes extracted from a symbolic transform are the six linear forms w+-x, w+-y, w+-z or z, normalized or not.",
'P21': "V. look_at: eye goes to the origin, forward to +-z, up into the yz half plane; 2D/3D align functions.",
'P22': "V. Polar/cylindrical/spherical conversions in both directions and composed.",
'P23': "V. Every size-checked operation x every combination of sizes (static with dynamic): documented error type exactly when sizes differ, no out-of-range access even where it throws, target unmodified (watch).",
'P24': "T. One witness unit per mismatched combination of fixed sizes must be refused; matching combinations must compile with the right result size.",
'P25': "V with exceptions and typestate: blocks (obtained/released once, with the size and allocator they came from) and elements of class type (raw/constructed); every allocation and every construction in turn is made to throw.",
'P26': "V/call graph. For operations on fixed-size operands no allocation is reachable on a returning path.",
'P27': "V. Memory of read-only operands is frozen while the operation runs, and no global or static is written.",
'P28': "T. static_assert on element type, storage, memory order, basis, quaternion order and cross of results of every operand combination; promotion computed independently in Python.",
'P29': "T. Names are read from the headers; what each must denote is computed from its spelling.",
'P30': "V. ==, !=, <, <=, >, >= as decision diagrams over the signs of element differences, including tolerance comparisons; consistency with one another.",
'P31': "V. Scalar helpers on double, float and int; index helpers; field-of-view/zoom conversions; axis/Euler order decoders; constants.",
'P32': "V. Accessors and mutators at each index, whole array frozen elsewhere (guard elements before/after external arrays).",
'P33': "V. Symbolic integer axis/order/index arguments: throw conditions are decision diagrams over the integer.",
'P34': "V + structural rule: hash is a function of the element values only, equal for -0/+0, and invertible in each element's own hash.",
'P35': "T/AST/linkage.",
'P36': "V. Angles, projections, nearest points, rotation of vectors, manhattan distances, random-free utilities.",
'P37': "V. transform_point/vector/4D in all dimensions, bases and storage kinds.",
'P38': "V. zero, identity, fill, set, minimize, maximize, transpose, generators: every element and nothing else.",
'P39': "V with the stream model: the trace written equals the reference's trace; the object is frozen.",
'P40': "Not applicable: rounding error bounds need magnitudes and condition numbers at run time.",
'P41': "Not applicable: uniformity is a statement about a distribution.",
'P42': "V with the engine/distribution model.",
}
tail = r'''
## 3. Bounds

Targets of every builder hold arbitrary (symbolic) previous values.  Sizes: vectors up to 5 (thorough 9), matrices up to 4x4 and rectangular shapes with sides up to 4 (5 and 6
where the algorithm changes with the size).  Element types double, float, int and mixtures.  Values: all
reals.  Not covered: rounding (P40), overflow, NaN inputs, other allocators than those in the harness,
aliasing of expression operands where CML documents that evaluation is lazy.  Sign tests are over the reals: a
test `x < eps` is a test on the polynomial `x - eps` with eps's exact binary value.

Cutoffs: CML's loops are uniform in the size, so a size-dependent defect needs a size in the source.  lib/cutoff.py
reads every integer constant of the tree outside comments and strings; each constant above 4 that the reference list
(KNOWN, per file) does not explain adds the sizes around and above it (v, v+1, v+2, 2v+1; at most two or three
constants, up to 40, 130 where cheap) to the size lists of P01, P03-P06, P08-P10, P25, P30, P32, P34, P36, P38, P39
and P42.  On the current tree it adds none; a blocked or unrolled loop with a wrong remainder is analysed past its
threshold.  Harmless constants were planted to confirm that the longer runs stay quiet and within the time limit.

Element types: besides double, every builder check of P09, P12, P14, P17, P19, P21, P30 and P37 has sections with int
operands and mixed int/float/double operands.  Two defects came from them (integer bounds in projections, integer
factors in inverse scales); both are fixed.  Angles have to be floating point: with an int angle the trigonometric
functions are evaluated and truncated in int, which CML leaves to the caller; noted, not repaired and not checked.

## 4. Genuine defects found

Repaired in /repo (one `fix:` commit each); list in `known_findings.txt` (`fixed:` lines, which suppress
nothing).  There is no `known:` entry: no check needs one on the current tree.

Noticed, not repaired because outside the properties or not small: `_HASH_ROTL32` is undefined under another
spelling; `lu_pivot` does not test its last pivot; row/col/basis views test only `index >= 0`; a size-0
inner product reads element 0; the Euler derivative leaves 1 in the corner of an affine matrix; the
`detail/*.h` headers are not self-contained; the doc comment of matrix_concat has the order inverted.

## 5. False alarms met and what was changed

- An expression assigned to one of its own operands (e.g. `v = M*v` with lazy nodes): CML's documented
  behaviour differs between product nodes (evaluated) and elementwise ones; P03 states only what is documented.
- Writing through moved-from external vectors rebinds instead of copying: P38 excludes that combination.
- Pivot comparisons of equal magnitude: either pivot is right; P09/P10 compare the property, not the permutation.
- Indices of equal extremes: P31 compares the value found, not the index.
- acos arguments clamped: `acos_safe` is compared as the clamped function.
- Optimised IR introduced rounding-equivalent rewrites and removed lifetimes; the unoptimised IR is the first choice.
- Caches shared between cases made results depend on the order of cases: each case starts from a fresh domain.
- A reference's unspecified path (division by 0) was compared: references now mark it unreachable.
- P16 asked for one of the two axes of a half turn; a refactored branch order gave the other one.  The axis is
  now compared up to its sign.
- An operation list shared by several checks contained a lambda returning nothing; P26, P27 and P35 bind results by
  reference and reported a construct of the harness.  The lambda returns the result now.
- P22 compared `pi/2 - atan2(l, z)` and `atan2(z, l)` (l >= 0) as different functions; atan2 angles in a half
  plane now have one spelling.

## 6. Planted bugs

`seeded/<id>/`: patch.diff, demo.sh (+ demo.cpp), meta.json.  All are caught by the check of their property.
Three needed the checks strengthened first: S15 (hash of views), S23 (targets with arbitrary previous contents:
now symbolic) and S28 (the size tests of the LU solvers).

'''
import os
seeds = []
for s in sorted(os.listdir('/verif/seeded')):
    d = json.load(open('/verif/seeded/%s/meta.json' % s))
    seeds.append('- %s (%s): %s' % (s, d['property'], d['what_it_breaks'].strip().split('\n')[0][:160]))
with open('/verif/DESIGN.md', 'w') as f:
    f.write(head)
    for l in open('/verif/properties.jsonl'):
        d = json.loads(l)
        f.write('- **%s %s.** %s\n' % (d['id'], d['title'], M[d['id']]))
    f.write(tail + '\n'.join(seeds) + '\n')
    if os.path.exists('/tmp/w/design_extra.md'):
        f.write(open('/tmp/w/design_extra.md').read())
