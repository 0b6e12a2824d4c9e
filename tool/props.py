"""The properties.  `python3 tool/props.py` rewrites properties.jsonl."""
import json, os
V = 'cml/vector/'; M = 'cml/matrix/'; Q = 'cml/quaternion/'; L = 'cml/mathlib/'; C = 'cml/common/'; S = 'cml/storage/'; SC = 'cml/scalar/'

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)

p('P01', 'Elementwise arithmetic is elementwise, whatever the operands are stored in',
  'For vectors, matrices and quaternions, +, -, unary +/-, and multiplication or division by a scalar give, at every index, the scalar operation applied to the operands\' elements at that index, and the compound forms (+=, -=, *=, /=) leave the left operand holding exactly what the binary form would have given. The result does not depend on where the operands live: fixed, dynamic or external memory, a nested expression, a row, column, transpose or subvector view, or a temporary.',
  ['inputs', 'configurations'], 'all element values; storage kinds, memory orders, bases and sizes of both operands; named objects, const objects, temporaries and nested expressions',
  'Each test assigns a few literal values to a few operand kinds; a wrong index, operand or sign that shows only for one storage/expression combination or for unequal elements is never evaluated.',
  [V+'binary_node.tpp', V+'unary_node.tpp', V+'scalar_node.tpp', M+'binary_node.tpp', Q+'binary_node.tpp', SC+'binary_ops.h', V+'writable_vector.tpp', M+'writable_matrix.tpp', Q+'writable_quaternion.tpp'],
  [('binary/unary/scalar expression nodes', V+'binary_node.tpp'), ('scalar functors', SC+'binary_ops.h'), ('assign/plus_assign/... of writable types', V+'writable_vector.tpp')])

p('P02', 'Expressions never outlive or read past the temporaries they are built from',
  'An arithmetic expression built from named objects, temporaries or other expressions, and kept in a variable before it is evaluated, yields the same elements as evaluating it at once, and never reads storage that has been released. Named operands are referenced (a later change of the operand shows in the expression), temporaries are owned by the expression.',
  ['programs', 'inputs'], 'every expression operator, with each operand a named object, a const object, a temporary container or a nested expression',
  'A dangling reference usually still reads the right bytes in a test; it takes an ownership argument over every node type and value category.',
  [V+'binary_node.h', V+'unary_node.h', V+'cross_node.h', V+'subvector_node.h', V+'outer_product_node.h', M+'binary_node.h', M+'transpose_node.h', M+'row_node.h', M+'col_node.h', Q+'binary_node.h', Q+'conjugate_node.h', Q+'imaginary_node.h'],
  [('operand type deduction (by reference for named objects, by value for temporaries)', V+'binary_ops.h'), ('move constructors of nodes', V+'binary_node.tpp')])

p('P03', 'Compound and whole-object operations are safe when an operand is the target',
  'Compound assignment whose right operand is the target itself, one of its elements, or an elementwise expression of it gives the same result as computing the right operand first into fresh storage; so do the matrix routines that read and write the same object (transpose in place, inverse in place, assigning a product of matrices or a concatenation of transforms to one of its operands, inversion of a transform in place).',
  ['inputs', 'programs'], 'all element values; the target named as either operand, as an element reference, or inside an elementwise expression',
  'The tests almost never alias the target; an aliasing bug gives the right answer for every non-aliased call.',
  [V+'writable_vector.tpp', M+'writable_matrix.tpp', Q+'writable_quaternion.tpp', M+'detail/transpose.h', L+'matrix/concat.tpp'],
  [('temporaries taken before in-place writes', M+'writable_matrix.tpp'), ('scalars taken by value in *= and /=', V+'writable_vector.tpp')])

p('P04', 'Vector products compute their algebraic definition',
  'The dot product is the sum of elementwise products; the cross product is the right-handed one; perp-dot, scalar triple product, outer product and elementwise (Hadamard) product equal their definitions, with the operands in the order they are written; squared length, length and normalisation equal the dot product with itself, its square root, and division by it.',
  ['inputs', 'configurations'], 'all element values, all operand storage kinds, value categories and expression operands, equal and mixed element types',
  'A sign, operand-order or index slip in a product can cancel on the symmetric or axis-aligned values the tests use.',
  [V+'dot.tpp', V+'cross_node.tpp', V+'perp_dot.tpp', V+'triple_product.tpp', V+'outer_product_node.tpp', V+'hadamard_product.h', V+'readable_vector.tpp', V+'writable_vector.tpp'],
  [('dot/cross/perp_dot/triple/outer definitions', V), ('length, normalize', V+'readable_vector.tpp')])

p('P05', 'Matrix products compute row-by-column sums in the written order',
  'The product of an RxK and a KxC matrix has element (i,j) equal to the sum over k of left(i,k)*right(k,j); matrix*vector treats the vector as a column, vector*matrix as a row; a product is a new object and leaves both operands unchanged. This holds for rectangular shapes, every mix of memory layouts, bases and storage kinds.',
  ['inputs', 'configurations'], 'all element values; square and rectangular shapes; row/column-major, row/column-basis, fixed/dynamic/external operands and expressions',
  'Tests multiply a few matrices with chosen values in matching layouts; a transposed index or short sum in one layout combination is not exercised.',
  [M+'matrix_product.tpp', M+'vector_product.tpp', M+'detail', M+'writable_matrix.tpp'],
  [('product loops', M+'matrix_product.tpp'), ('result type/shape', M+'promotion.h')])

p('P06', 'Element (i,j) is the same element under either memory order',
  'A matrix read or written through (i,j) denotes the same mathematical matrix whether its storage is row- or column-major; only the flat memory order differs: row-major stores element (i,j) at i*cols+j and column-major at j*rows+i. Copying, converting or loading between memory orders keeps every (i,j) element, and list or flat-array input is taken in row-by-row (i,j) order as documented.',
  ['inputs', 'configurations'], 'all shapes (rectangular too), both memory orders, fixed, dynamic and external storage, every way of constructing, assigning and moving a matrix',
  'With square or symmetric matrices a layout slip is invisible; the tests cover few rectangular column-major cases.',
  [M+'fixed_compiled.tpp', M+'dynamic_allocated.tpp', M+'fixed_external.tpp', M+'dynamic_external.tpp', M+'detail', M+'writable_matrix.tpp', C+'layout_tags.h'],
  [('layout-tagged get/put and array copying', M+'fixed_compiled.tpp')])

p('P07', 'Row-basis and column-basis matrices are transposes of one another',
  'Every transform builder and basis accessor gives, for a column-basis matrix, the transpose of what it gives for a row-basis matrix with the same arguments, so applying the matrix to a vector the way its basis prescribes gives the same vector in both; concatenating transforms means "first, then second" under both.',
  ['inputs', 'configurations'], 'all argument values, both bases, both memory orders, every sized variant of the builders',
  'The tests check mostly one basis with a handful of angles; a swap of indices under one basis only is not seen.',
  [L+'matrix/rotation.tpp', L+'matrix/translation.tpp', L+'matrix/scale.tpp', L+'matrix/projection.tpp', L+'matrix/concat.tpp', M+'basis_node.tpp', M+'writable_matrix.tpp'],
  [('basis-aware element access', M+'readable_matrix.tpp')])

p('P08', 'Transpose, row, column and subvector views select exactly their elements',
  'transpose(m) has element (j,i) of m at (i,j) and the swapped shape; row(m,i) and col(m,j) are the i-th row and j-th column; subvector(v,i) is v without its i-th element; the imaginary part of a quaternion is its three imaginary elements in i,j,k order. Transposing twice, in place or as an expression, restores the matrix.',
  ['inputs', 'configurations'], 'all element values, all indices in range, all shapes, layouts, bases and storage kinds, operands named, temporary or expressions',
  'Tests use small square examples; off-by-one selection on rectangular shapes or for particular indices is not enumerated.',
  [M+'transpose_node.tpp', M+'row_node.tpp', M+'col_node.tpp', V+'subvector_node.tpp', Q+'imaginary_node.tpp', M+'detail/transpose.h'],
  [('view nodes', M+'transpose_node.tpp')])

p('P09', 'Determinant, trace and inverse are the algebraic ones',
  'For matrices up to 4x4 the determinant is the signed sum over permutations, the trace is the sum of the diagonal, and the inverse is the adjugate divided by the determinant, for every layout and storage kind; larger matrices give the same inverse and determinant by elimination whatever pivots the values make it choose.',
  ['inputs', 'configurations'], 'all element values with non-zero determinant; sizes, layouts, bases, storage kinds',
  'One wrong sign or index among dozens of hand-expanded products, or a pivot rule that fails only for some value pattern, is missed by a few numeric examples.',
  [M+'determinant.tpp', M+'detail/determinant.h', M+'detail/inverse.h', M+'inverse.h', M+'trace.tpp', M+'writable_matrix.tpp'],
  [('closed forms for 1..4, elimination above', M+'detail')])

p('P10', 'LU factorisation reproduces the matrix and its solver solves the system',
  'The factors returned for a square matrix multiply back to it (to the row-permuted matrix with pivoting, whose permutation and sign agree with the row exchanges made), the pivot chosen at each step is the entry of largest magnitude among the remaining rows, and solving with the factors gives the vector that the matrix maps to the right-hand side.',
  ['inputs', 'configurations'], 'all element values with non-zero pivots; sizes 1..4; layouts and storage kinds',
  'The tests factor a few fixed matrices; a pivot or permutation slip needs specific magnitude orderings.',
  [M+'lu.tpp', M+'lu.h'], [('lu, lu_pivot, lu_solve', M+'lu.tpp')])

p('P11', 'Quaternion multiplication is the Hamilton product under every convention',
  'The quaternion product is the Hamilton product of its operands in the written order for positive-cross quaternions and the same product with the operands exchanged for negative-cross ones, independent of whether the real part is stored first or last; *= agrees with *, and operands may be named, temporary or expressions, of differing storage order.',
  ['inputs', 'configurations'], 'all element values, both storage orders, both cross conventions, all operand kinds',
  'The tests use unit-axis quaternions for the default convention mostly; sign slips in the non-default conventions are not exercised.',
  [Q+'product.tpp', Q+'writable_quaternion.tpp', Q+'order_tags.h', Q+'cross_tags.h'], [('product', Q+'product.tpp')])

p('P12', 'Quaternion conjugate, inverse, norm and identity are consistent',
  'The conjugate negates exactly the imaginary part; the inverse is the conjugate divided by the squared norm, so it multiplies with the quaternion to the identity; length and squared length are the Euclidean ones over all four elements; the identity has real part one and imaginary part zero; dot is the four-element sum; component accessors agree with the storage order.',
  ['inputs', 'configurations'], 'all element values with non-zero norm; both storage orders and cross conventions; in-place and expression forms',
  'Tests read back a few values in the default order; an order-dependent slip is seen only with the other order and unequal elements.',
  [Q+'conjugate_node.tpp', Q+'inverse_node.tpp', Q+'inverse_ops.tpp', Q+'writable_quaternion.tpp', Q+'readable_quaternion.tpp', Q+'dot.tpp', Q+'order_tags.h'],
  [('conjugate/inverse nodes and in-place forms', Q)])

p('P13', 'Quaternion exponential, logarithm and interpolation-free functions are exact',
  'exp(q) equals e^w times (cos|v|, sin|v| v/|v|) with the real case giving e^w, and log(q) equals ln|q| plus the unit imaginary direction times acos(w/|q|), the real positive case giving ln w, for every quaternion convention.',
  ['inputs', 'configurations'], 'all element values (for log: non-zero, not a negative real); both storage orders',
  'Only sampled values are tried; the branch for small imaginary parts and the storage-order handling need argument.',
  [Q+'functions.tpp'], [('exp, log', Q+'functions.tpp')])

p('P14', 'Rotation constructors implement Rodrigues\' formula with one handedness',
  'Rotations about a coordinate axis, about an arbitrary unit axis, and in 2D are right-handed rotations by the given angle; the matrix built from a quaternion rotates exactly as the quaternion built from the same axis and angle; rotations aligning or aiming an axis are built from the orthonormal basis of the given direction in the requested axis order.',
  ['inputs', 'configurations'], 'all angles and axes; both bases, memory orders, storage kinds and quaternion conventions; every axis order',
  'Tests sample a few angles; a sign error that cancels at multiples of 90 degrees or a wrong handling of one axis order is not covered.',
  [L+'matrix/rotation.tpp', L+'quaternion/rotation.tpp', L+'vector/orthonormal.tpp', L+'vector/rotation.tpp'], [('rotation builders', L+'matrix/rotation.tpp')])

p('P15', 'Euler rotations compose the three axis rotations in the named order',
  'For each of the twelve (times moving/static naming) Euler orders, the matrix and the quaternion built from three angles equal the product, in that order, of the three single-axis rotations, and the derivative matrix with respect to an angle is the exact derivative of that product\'s rotation part.',
  ['inputs', 'configurations'], 'all angles, every Euler order, both bases; matrix and quaternion forms',
  'Only a few orders and angle triples are sampled; each order is a separate formula with its own signs.',
  [L+'matrix/rotation.tpp', L+'quaternion/rotation.tpp', L+'euler_order.h'], [('order unpacking and sign/permutation handling', L+'matrix/rotation.tpp')])

p('P16', 'Reading a rotation back inverts building it',
  'Extracting axis-angle, Euler angles or a quaternion from a rotation matrix (and axis-angle from a quaternion) applies the inverse of the corresponding constructor: each branch takes the formula that is the exact inverse on the values that select it.',
  ['inputs', 'configurations'], 'all rotation matrices and quaternions, each branch of the extraction; both bases; every Euler order',
  'The branches are selected by the signs and sizes of the diagonal; tests hit few of them.',
  [L+'matrix/rotation.tpp', L+'quaternion/rotation.tpp'], [('matrix_to_*, quaternion_to_*', L+'matrix/rotation.tpp')])

p('P17', 'Affine builders place translation, scale, shear and inverse exactly',
  'Translation, uniform and per-axis scale (and their inverses), linear and affine-transform builders, in 2D and 3D, set exactly the documented elements and leave the others as the identity; setting then getting a translation returns it; the rigid and scaled inverse routines produce the inverse of such a transform.',
  ['inputs', 'configurations'], 'all argument values; both bases, memory orders, storage kinds, and every allowed matrix shape',
  'Tests use a handful of values and shapes; a stray or missing element on one shape or basis is not seen.',
  [L+'matrix/translation.tpp', L+'matrix/scale.tpp', L+'matrix/misc.tpp', L+'matrix/invert.tpp', L+'matrix/transform.tpp'], [('affine builders', L+'matrix')])

p('P18', 'Basis vectors read and written agree and touch nothing else',
  'Setting a basis vector (by index or by x/y/z name, in 2D and 3D, all at once or transposed) writes exactly that row or column prescribed by the basis, leaves every other element as it was, and getting it back yields the vector set; the same holds for basis vectors of a quaternion\'s rotation.',
  ['inputs', 'configurations'], 'all element values, every index, both bases, memory orders and matrix shapes',
  'Writing one element too many or one wrong index is invisible when the surrounding elements hold what the test expects anyway.',
  [L+'matrix/basis.tpp', L+'quaternion/basis.tpp'], [('basis accessors', L+'matrix/basis.tpp')])

p('P19', 'Projection matrices map the view volume to the documented clip volume',
  'Orthographic and perspective builders, in every left/right-handed, z-clip, corner/extent/field-of-view variant, map the eight corners of the view volume to the corresponding corners of the clip volume (x,y in [-1,1], z in [-1,1] or [0,1]).',
  ['inputs', 'configurations'], 'all volume parameters; both handedness values, both z-clip modes, both bases; 2D/3D/4x4 targets',
  'Each variant is a closed formula; tests compare a few parameter sets against the same formula.',
  [L+'matrix/projection.tpp'], [('orthographic/perspective builders', L+'matrix/projection.tpp')])

p('P20', 'Frustum planes bound exactly the clip volume',
  'The six planes extracted from model-view-projection matrices are, in left, right, bottom, top, near, far order, the planes whose signed value at a point equals the corresponding clip inequality of the transformed point, normalised when asked, for both z-clip modes and both bases.',
  ['inputs', 'configurations'], 'all matrix values; both z-clip modes; both bases; normalised or not',
  'Swapped planes or signs go unnoticed for the symmetric frusta the tests use.',
  [L+'frustum.tpp'], [('extract_frustum_planes', L+'frustum.tpp')])

p('P21', 'The look-at transform maps eye, target and up to their view-space places',
  'A look-at matrix maps the eye position to the origin, the view direction to the forward axis of the chosen handedness, and keeps the up vector in the vertical half plane, with orthonormal rotation part; the left- and right-handed variants differ by the mirrored x and z axes.',
  ['inputs', 'configurations'], 'all eye, target and up values not degenerate; both handedness values, bases, point and scalar argument forms',
  'Only a few camera positions are tried.',
  [L+'matrix/transform.tpp', L+'matrix/generators.h'], [('matrix_look_at*', L+'matrix')])

p('P22', 'Coordinate conversions follow their defining formulas and invert each other',
  'Cartesian, polar, cylindrical and spherical conversions (each radial axis; latitude or colatitude) assign each output the defining expression of the inputs, in both directions.',
  ['inputs', 'configurations'], 'all coordinates, each axis, both spherical conventions, all storage kinds',
  'A handful of points are converted; swapped axes or angles cancel for symmetric points.',
  [L+'coordinate_conversion.tpp', L+'coordinate_conversion.h'], [('conversion functions', L+'coordinate_conversion.tpp')])

p('P23', 'Run-time size mismatches throw before anything is read or written',
  'When at least one operand has a size known only at run time, every operation that needs matching sizes throws the documented size error for exactly the mismatched sizes (and not for matching ones); no operation reads or writes beyond an operand for any sizes; and the elementary operators and assignments (sum, difference, products, element, row, column and list assignment) leave every operand unmodified when they throw.',
  ['inputs', 'configurations'], 'all pairs of sizes for every size-checked operation, operands named, temporary or expression',
  'Tests check one mismatched pair for some operations; a check that tests the wrong dimension, comes too late, or is missing for one operand kind passes them.',
  [V+'size_checking.tpp', M+'size_checking.tpp', V+'detail', M+'detail', V+'writable_vector.tpp', M+'writable_matrix.tpp'],
  [('check_same_size and friends', V+'size_checking.tpp'), ('resize or check on assignment', V+'detail/resize.h')])

p('P24', 'Compile-time size mismatches do not compile and matching sizes do',
  'When the sizes of both operands (vectors, matrices, quaternions, views and expressions of them) are fixed, every operation with incompatible sizes is rejected by the compiler, every operation with compatible sizes compiles, and the result has the documented compile-time size.',
  ['programs'], 'every size-checked operation over pairs of fixed shapes (rectangular included), expressions and views as operands',
  'A test can only contain programs that compile; that the others are rejected is a statement about programs.',
  [V+'size_checking.h', M+'size_checking.h', V+'promotion.h', M+'promotion.h', S+'promotion.h', V+'type_util.h', M+'type_util.h'],
  [('static size checks', C+'mpl'), ('storage promotion', S+'promotion.h')])

p('P25', 'Dynamic storage is allocated, constructed, destroyed and freed exactly once',
  'Through every sequence of constructing, copying, moving, assigning, resizing and destroying dynamic vectors and matrices, each block obtained from the allocator is returned to it once with the size it was obtained with, each element is constructed before use and destroyed once before its storage is released, and resizing leaves the object with the requested size or shape (also when the number of elements does not change), keeps the leading elements (as documented) and never touches released storage; this includes the paths on which an allocation or the construction of an element fails.',
  ['histories', 'inputs'], 'all sequences of operations, all sizes (zero included), trivially and non-trivially constructible elements, moved-from and self-assigned objects',
  'Tests use plain scalars and short sequences; a leaked or doubly released block or a lost element under a particular size change does not change a test\'s outcome.',
  [V+'dynamic_allocated.tpp', M+'dynamic_allocated.tpp', V+'dynamic_allocated.h', M+'dynamic_allocated.h'],
  [('allocate/construct/destruct/deallocate steps', V+'dynamic_allocated.tpp')])

p('P26', 'Fixed-size objects and expressions over them never allocate',
  'Operations whose operands are all fixed-size, with storage of their own or external, use no heap memory on any path that returns.',
  ['programs', 'inputs'], 'every operation of the library instantiated on fixed-size and fixed external operands',
  'A hidden allocation changes no result, so no test sees it.',
  [V+'fixed_compiled.tpp', M+'fixed_compiled.tpp', C+'temporary.h', V+'temporary.h', M+'temporary.h', M+'detail/inverse.h'],
  [('temporary selection by operand storage', V+'temporary.h')])

p('P27', 'Operands are not modified and no hidden state is shared',
  'No operation modifies an operand it takes as read-only, other than the target it is documented to write, and no operation other than the random fills (which seed themselves from std::rand) writes static state, the one-time initialisation of a constant aside, so concurrent use of distinct objects (or concurrent reads of one) needs no locking.',
  ['inputs', 'schedules', 'programs'], 'every operation of the library, every argument value, any interleaving of threads working on distinct objects',
  'Tests are single threaded and rarely compare the operands after the call.',
  [V, M, Q, L], [('const access paths', V+'readable_vector.tpp'), ('const-only statics', M+'detail/inverse.h')])

p('P28', 'Result types follow the promotion rules for scalar, storage, order and basis',
  'The element type of a mixed-type result is the common arithmetic type of the operands; its storage is its own (never a reference to external memory), fixed when the size follows from the operand types (for elementwise operations from either operand, for products from the operands that give the shape) and run-time sized otherwise; memory order and basis follow the operands when they agree, and the row-major order when the orders differ; quaternion results keep the component order and cross convention; combining quaternions of different conventions, or storing a result of mixed bases, is refused by the compiler.',
  ['programs', 'configurations'], 'all pairs of element types, storage kinds, memory orders, bases and quaternion conventions',
  'The set of type combinations is large and a wrong promoted type (for example losing double precision) still computes plausible values.',
  [S+'promotion.h', SC+'promotion.h', V+'promotion.h', M+'promotion.h', Q+'promotion.h', C+'promotion.h', C+'temporary.h'],
  [('promotion metafunctions', S+'promotion.h')])

p('P29', 'Named aliases denote exactly the type their name spells',
  'Each predefined vector, matrix and quaternion type name denotes the element type, size, basis, memory order, storage, component order and cross convention that its name states.',
  ['programs'], 'every predefined name',
  'Tests use a few of the names and mostly their sizes.',
  [V+'types.h', M+'types.h', Q+'types.h'], [('alias lists', M+'types.h')])

p('P30', 'Comparisons are a consistent equality and lexicographic order',
  'Two vectors, matrices or quaternions are equal exactly when all corresponding elements are equal, != is the negation of ==, < is the documented lexicographic order over the elements, and >, <= and >= are derived from it consistently.',
  ['inputs', 'configurations'], 'all element values without NaN; mixed storage, layouts and element types; operands of different size where allowed',
  'The order of two objects that first differ at a late element or in opposite directions at two positions is rarely sampled.',
  [V+'comparison.tpp', M+'comparison.tpp', Q+'comparison.tpp'], [('comparison operators', V+'comparison.tpp')])

p('P31', 'Scalar and index helpers compute their definitions',
  'Clamp, sign, squaring, wrapping, angle and field-of-view/zoom conversion, interpolation, index-of-largest/smallest (by value or magnitude) and cyclic-index helpers, and the axis-order and Euler-order decoders, return their mathematical definition for every argument, including ties and boundary values (of equal extremes, any one may be returned).',
  ['inputs'], 'all argument values, every axis order and every Euler order',
  'Boundary and tie cases are not all sampled.',
  [SC+'functions.h', L+'axis_order.h', L+'euler_order.h', L+'vector/misc.tpp'], [('helpers', SC+'functions.h')])

p('P32', 'Element access reads and writes exactly the addressed element',
  'Reading element i (or (i,j)) returns, and writing it changes, exactly that element, through every accessor of every container and view, including const objects, temporaries, pointers to the data, iterators, and buffers supplied by the caller; no access touches memory outside the container.',
  ['inputs', 'configurations'], 'every index in range, every container, accessor, layout and value category',
  'Tests read back what they wrote with the same accessor and so miss a consistent displacement or a neighbouring write.',
  [V+'readable_vector.tpp', V+'writable_vector.tpp', M+'readable_matrix.tpp', M+'writable_matrix.tpp', V+'fixed_external.tpp', V+'dynamic_external.tpp', M+'fixed_external.tpp', M+'dynamic_external.tpp', Q+'readable_quaternion.tpp'],
  [('get/put/operator[]/operator()', V+'readable_vector.tpp')])

p('P33', 'Invalid axes, orders and indices are rejected with the documented error',
  'Operations taking an axis number (including a repeated axis where the Euler order repeats one), a size for a run-time sized object, or the index of a row, column or basis view reject every invalid value with the documented exception before writing anything, and accept every valid value.',
  ['inputs'], 'every value of the argument',
  'Tests try one invalid value of a few functions.',
  [C+'exception.h', L+'matrix/rotation.tpp', L+'matrix/scale.tpp', L+'matrix/basis.tpp', L+'vector/generators.h'], [('argument checks', C+'exception.h')])

p('P34', 'Equal vectors hash equally and every element affects the hash',
  'The hash of a vector is a function of its element values (and count) only, not of its storage or address, and depends on every element.',
  ['inputs', 'configurations'], 'all element values, all sizes and storage kinds',
  'Tests compare a few vectors; ignoring one element or including padding needs an argument over all of them.',
  ['cml/util/vector_hash.h', C+'hash.h'], [('element-wise combination', 'cml/util/vector_hash.h')])

p('P35', 'Every documented operation instantiates for every documented type',
  'Each public operation compiles for every combination of element type, storage kind, memory order, basis and value category that its documentation allows, and every public header can be included on its own.',
  ['programs', 'configurations'], 'all public operations and headers over the matrix of allowed types',
  'A template that is never instantiated is never compiled; the tests instantiate a small part of the combinations.',
  [V, M, Q, L], [('templates', V)])

p('P36', 'Vector utilities compute their geometric definitions',
  'Projection onto a vector or hyperplane, perpendiculars, Manhattan distance, rotation of a vector about an axis, signed and unsigned angles between vectors, random-free generators (zero, axis, cardinal) and orthonormal-basis construction equal their geometric definitions for every storage kind and operand kind.',
  ['inputs', 'configurations'], 'all element values not degenerate for the formula, all storage kinds and expression operands, every axis order',
  'A few numeric examples are tried for each.',
  [L+'vector/misc.tpp', L+'vector/rotation.tpp', L+'vector/angle.tpp', L+'vector/generators.h', L+'vector/orthonormal.tpp'], [('utilities', L+'vector')])

p('P37', 'Transforming points and vectors applies exactly the affine map',
  'Transforming a vector applies the linear part only; transforming a point applies the linear part and the translation; the 4D form applies the full matrix; each in 2D and 3D, for both bases, for affine-sized and square matrices, matching multiplication on the side the basis prescribes.',
  ['inputs', 'configurations'], 'all values; both bases, memory orders, storage kinds, every allowed matrix and vector shape',
  'Tests use simple matrices in which a transposed or dropped term vanishes.',
  [L+'vector/transform.tpp'], [('transform_point/vector', L+'vector/transform.tpp')])

p('P38', 'Whole-object setters set every element and only as documented',
  'Zero, identity, fill, cardinal, minimum/maximum, generator- and function-driven assignment, conversion from lists, arrays and other containers, and diagonal/affine/square generators leave every element with the documented value.',
  ['inputs', 'configurations'], 'all element values, shapes, layouts and storage kinds',
  'Missing one element of one shape is invisible when it already holds the value.',
  [V+'writable_vector.tpp', M+'writable_matrix.tpp', Q+'writable_quaternion.tpp', L+'vector/generators.h', L+'matrix/generators.h'], [('setters', V+'writable_vector.tpp')])

p('P39', 'Printing lists every element in (i,j) or index order',
  'Streaming a vector writes its elements once each, in index order, separated by single spaces (nothing for an empty vector); streaming a matrix writes one bracketed line per row, in row order, with the elements of the row in column order; streaming a quaternion writes the real part and then the imaginary parts, in brackets, whatever the storage order. Nothing else is written, the stream is returned, and the object is not modified.',
  ['inputs', 'configurations'], 'all sizes, shapes, layouts, storage kinds',
  'The tests print nothing that they compare.',
  ['cml/util/vector_print.tpp', 'cml/util/matrix_print.tpp', 'cml/util/quaternion_print.tpp'], [('stream operators', 'cml/util')])

p('P40', 'Results are as accurate as the scalar type allows',
  'Results of inversion, factorisation, normalisation and rotation round trips differ from the exact result by no more than a small multiple of the rounding unit times the condition of the problem.',
  ['inputs'], 'all well conditioned inputs of each operation',
  'A sample of values says nothing about the worst case.',
  [M+'detail/inverse.h', M+'lu.tpp', L+'matrix/rotation.tpp'], [('floating-point evaluation order', M+'detail')])

p('P41', 'Random unit vectors, rotations and orthogonal matrices are uniform',
  'Randomly generated unit vectors, quaternions and rotations are uniformly distributed over their space and of unit length for any conforming random engine.',
  ['inputs', 'histories'], 'all random engines and seeds',
  'Uniformity is a statement about a distribution.',
  [L+'random_unit.tpp'], [('random_unit', L+'random_unit.tpp')])

p('P42', 'Random fills draw every element anew within the requested bounds',
  'The random scalar functions return a draw of the uniform distribution over the requested bounds; random(low, high) on a vector or matrix sets every element, each to a draw of its own from that distribution; random_unit sets every element from its own normal draw and returns a vector of unit length; given an engine, random_unit draws from that engine and leaves it advanced, so that the next call differs; without one, the generator is seeded anew through std::rand on each call; given a direction and a half-angle, the angle between the result and the direction is the requested half-angle times a number in [0,1] that the draws determine, and half-angles outside (0,90] degrees throw.',
  ['inputs', 'histories'], 'all bounds, directions and half-angles, all numbers the engine may produce',
  'A test of random output can only check ranges on a sample; an element drawn twice or left out is rarely visible.',
  [SC+'functions.h', L+'random_unit.tpp', V+'writable_vector.tpp', M+'writable_matrix.tpp'], [('random fills', V+'writable_vector.tpp'), ('random_unit', L+'random_unit.tpp')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    for d in P:
        assert len(d['title']) <= 80, d['id']
        for x in d['anchors']['files']:
            if not os.path.exists('/repo/' + x):
                print('missing anchor', d['id'], x)
