import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
K='public/klein/'; X=K+'detail/x86/'
BC=['inputs','configurations']
p('K01','Geometric product equals the Clifford product of PGA',
 "For every pair of entity types between which a geometric product is offered, and every pair of operand values, the product equals the Clifford product in P(R*_{3,0,1}) of the two multivectors, component by component; the product of two points is that product divided by its scalar part. The product is associative and bilinear across types wherever the composite is expressible.",
 BC,"all coefficient values of all operand pairs (plane, point, line, branch, rotor, translator, motor, dual), including zero, negative, very large and very small coefficients, both SIMD levels and both language modes",
 "test_gp.cpp samples one hand-computed pair per overload with mostly small positive coefficients; a wrong sign or lane on a coefficient that is zero or symmetric in the sample passes.",
 [K+'geometric_product.hpp',X+'x86_geometric_product.hpp'],[('operator* overloads',K+'geometric_product.hpp'),('gp00 gp03 gp11 gp33 gpDL gpRT gp12 gpLL gpMM',X+'x86_geometric_product.hpp')])
p('K02','Meet equals the exterior product',
 "For every pair of entity types between which a meet is offered, in both operand orders, and every pair of values, the result equals the exterior product of the two multivectors. In particular it is graded-anticommutative, vanishes exactly on dependent operands, and three planes meet in the point incident with all of them.",
 BC,"all coefficient values of plane, branch, ideal line, line and point operands in both orders",
 "test_ep.cpp checks one value pair per overload.",
 [K+'meet.hpp',X+'x86_exterior_product.hpp'],[('operator^ overloads',K+'meet.hpp'),('ext00 extPB ext02 ext03',X+'x86_exterior_product.hpp')])
p('K03','Join equals the regressive product, dual to meet',
 "For every pair of entity types between which a join is offered, in both orders, the result equals the dual of the exterior product of the duals. The join of two points is the line through both, and the join of a point and a line (or of three points) is a plane incident with all of them, for every position and weight of the operands.",
 BC,"all coefficient values of point, line, branch, ideal line and plane operands in both orders",
 "test_rp.cpp has two sample pairs.",
 [K+'join.hpp',K+'meet.hpp',X+'x86_exterior_product.hpp'],[('operator& overloads',K+'join.hpp'),('operator! overloads',K+'join.hpp')])
p('K04','Inner product equals the symmetric contraction',
 "For every pair of entity types between which an inner product is offered, in both orders, the result equals the part of the Clifford product whose grade is the difference of the operand grades. Hence orthogonality, perpendicular-through-a-point and parallel constructions hold for every operand.",
 BC,"all coefficient values of plane, line, ideal line and point operands in both orders",
 "test_ip.cpp samples one pair per overload; several overloads (line|plane order, plane|ideal line) have coefficients that cancel.",
 [K+'inner_product.hpp',X+'x86_inner_product.hpp'],[('operator| overloads',K+'inner_product.hpp'),('dot00 dotPL dotPIL dot03 dot11 dotPTL dot33',X+'x86_inner_product.hpp')])
p('K05','Duality, reversion and unary minus act component-wise as documented',
 "For every entity, the dual is the Poincare dual relabelling (plane-point, line real/ideal swap, branch-ideal line, scalar-pseudoscalar) and is an involution; reversion negates exactly the grade-2 and grade-3 components; unary minus negates every component, except that for planes and points it flips the direction part and keeps the homogeneous component, as documented.",
 BC,"all values of every type offering !, ~ or unary -",
 "no test exercises reversion or negation of most types; the dual is only used inside joins.",
 [K+'join.hpp',K+'plane.hpp',K+'point.hpp',K+'line.hpp',K+'rotor.hpp',K+'motor.hpp',K+'direction.hpp'],[('operator!',K+'join.hpp'),('operator~ and unary operator-',K+'line.hpp, '+K+'point.hpp, '+K+'rotor.hpp, '+K+'motor.hpp')])
p('K06','Entities form vector spaces: sums, scalings, components',
 "For every entity type, sum and difference act per component, scaling by a float or int (on either side where offered, and in compound-assignment form) multiplies every component, division divides every component to within single-precision reciprocal accuracy, and compound forms equal their binary counterparts and return the object. Named component readers (including the sign-flipped aliases such as e21) report exactly the component last stored.",
 BC,"all values and scalars (negative, zero, large, small, int and float) for plane, point, direction, line, ideal line, branch, rotor, translator, motor and dual",
 "almost none of these operators are called by any test.",
 [K+'plane.hpp',K+'point.hpp',K+'direction.hpp',K+'line.hpp',K+'rotor.hpp',K+'translator.hpp',K+'motor.hpp',K+'dual.hpp'],[('operator+ - * / and compound forms, accessors',K+'*.hpp')])
p('K07','Applying a rotor is conjugation by it',
 "Applying any rotor r to a plane, branch, line, point or direction X yields exactly r X ~r, so rotations keep weights, incidences, angles and the origin for every rotor and operand.",
 BC,"all rotors (normalized or not, any sign of the scalar part) and all operands including unnormalized, ideal and zero ones",
 "test_sw.cpp applies one rotor to one operand per type.",
 [K+'rotor.hpp',X+'x86_sandwich.hpp',X+'x86_sandwich_cxx11.inl'],[('rotor::operator()',K+'rotor.hpp'),('sw012, swMM',X+'x86_sandwich.hpp, '+X+'x86_sandwich_cxx11.inl')])
p('K08','Applying a translator is conjugation by it',
 "Applying any translator t to a plane, line or point X yields exactly t X ~t: directions and normals are unchanged, ideal operands are fixed and finite points move by the translation times their weight.",
 BC,"all translators and all plane, line and point operands including ideal and weighted ones",
 "test_sw.cpp applies one translator to one operand per type, always with weight 1.",
 [K+'translator.hpp',X+'x86_sandwich.hpp',X+'x86_sandwich_cxx11.inl'],[('translator::operator()',K+'translator.hpp'),('sw02 swL2 sw32',X+'x86_sandwich.hpp')])
p('K09','Applying a motor is conjugation by it',
 "Applying any motor m (a scaled product of rotations and translations) to a plane, line, point or direction X yields exactly m X ~m, and applying a normalized motor to the origin equals applying it to the point at the origin.",
 BC,"all motors satisfying the Study condition and all operands, including weighted, ideal and zero operands",
 "test_sw.cpp applies one or two motors to one operand per type with few lanes distinguishable.",
 [K+'motor.hpp',X+'x86_sandwich.hpp',X+'x86_sandwich_cxx11.inl'],[('motor::operator()',K+'motor.hpp'),('sw012 sw312 swMM swo12',X+'x86_sandwich.hpp, '+X+'x86_sandwich_cxx11.inl')])
p('K10','Reflection through a plane is the sandwich with that plane',
 "Reflecting a plane, line or point X through a plane p yields exactly p X p; reflecting twice through the same unit plane gives X back, and reflecting through two planes in succession equals applying the motor that is their product.",
 BC,"all planes and all operands",
 "test_sw.cpp reflects one plane, one line and one point.",
 [K+'plane.hpp',X+'x86_sandwich.hpp'],[('plane::operator()',K+'plane.hpp'),('sw00 sw10 sw20 sw30',X+'x86_sandwich.hpp')])
p('K11','Applying to an array equals applying to each element, also in place',
 "Applying a rotor or motor to an array of n entities writes to output element i exactly what applying it to input element i alone yields, for every n including 0, whether output and input are distinct or the same array. Nothing outside the n output elements is written and a distinct input array is left unchanged.",
 ['inputs','configurations','histories'],"all array lengths, both aliasing modes, rotor and motor, every element type offered, contents before and after the arrays, repeated in-place application",
 "test_sw.cpp runs arrays of length 1 or 2 with equal elements, never in place and never looks beyond the end.",
 [K+'rotor.hpp',K+'motor.hpp',X+'x86_sandwich.hpp',X+'x86_sandwich_cxx11.inl'],[('operator()(in, out, count)',K+'rotor.hpp, '+K+'motor.hpp'),('variadic sw012 sw312 swMM',X+'x86_sandwich.hpp, '+X+'x86_sandwich_cxx11.inl')])
p('K12','Composed motions act as their product over any history',
 "For every sequence of rotations, translations, general motions and reflections, applying the product object equals applying the factors one after another, in every grouping and through every conversion between rotor, translator and motor. Along any such history of applications, joins and meets, incidence and duality relations between the moved objects are those of the unmoved objects moved.",
 ['histories','programs','configurations'],"all finite programs over registers of entities built from products, applications, joins, meets, duals, reversions and conversions, results feeding later steps",
 "tests are single-step: no test feeds a result object into a second operation, so pollution of unused lanes or a composition-order slip is invisible.",
 [K+'geometric_product.hpp',K+'motor.hpp',K+'rotor.hpp',K+'translator.hpp',K+'meet.hpp',K+'join.hpp'],[('motor products and application',X+'x86_geometric_product.hpp, '+X+'x86_sandwich.hpp'),('motor(rotor), motor(translator), assignment',K+'motor.hpp')])
p('K13','Matrices from rotors and motors act like the rotor or motor',
 "For every rotor and motor, the 4x4 matrix times the homogeneous column (x,y,z,w) equals the rotor's or motor's own action on that point, for every motor scale; for normalized ones the 3x4 matrix is the affine part of the same map. Every entry is determined by the rotor or motor alone, and applying the matrix object to a packed vector equals the matrix-vector product.",
 BC,"all rotors, motors and vectors, both matrix forms, both SIMD levels and language modes",
 "tests convert two fixed motors and no rotor.",
 [K+'rotor.hpp',K+'motor.hpp',K+'mat3x4.hpp',K+'mat4x4.hpp',X+'x86_matrix.hpp',X+'x86_matrix_cxx11.inl'],[('mat4x4_12',X+'x86_matrix.hpp, '+X+'x86_matrix_cxx11.inl'),('mat::operator()',K+'mat3x4.hpp, '+K+'mat4x4.hpp')])
p('K14','Normalization yields the unit representative of the same object',
 "Normalizing any plane, point, direction, line, branch, rotor or motor that has a norm yields a unit object (unit normal, weight one, l*l=-1, m*~m=1) that differs from the original only by an invertible positive (for points: any) scalar or dual-number factor, hence represents the same plane, point, line or motion; it is idempotent, and the in-place and copying forms agree.",
 BC,"all normalizable values of each type, small and large, both SIMD levels",
 "two or three samples exist, none checks the plane's distance component.",
 [K+'plane.hpp',K+'point.hpp',K+'direction.hpp',K+'line.hpp',K+'rotor.hpp',K+'motor.hpp',X+'x86_sse.hpp'],[('normalize()/normalized()',K+'plane.hpp, '+K+'point.hpp, '+K+'line.hpp, '+K+'rotor.hpp, '+K+'motor.hpp'),('rsqrt_nr1, rcp_nr1',X+'x86_sse.hpp')])
p('K15','Inverse and division satisfy x * x^-1 = 1 and (a / b) * b = a',
 "For every invertible plane, point, line, branch, rotor, translator and motor, the inverse multiplied by the object on either side is the scalar one (for a point, whose square is negative, minus one: the inverse has the reciprocal weight), and for every offered quotient a / b, (a / b) * b gives a back, to single-precision accuracy; the in-place and copying forms agree.",
 BC,"all invertible operands, normalized or not",
 "tests divide a few objects by themselves or by unit objects with zero scalar part.",
 [K+'geometric_product.hpp',K+'plane.hpp',K+'point.hpp',K+'line.hpp',K+'rotor.hpp',K+'translator.hpp',K+'motor.hpp'],[('invert()/inverse()',K+'*.hpp'),('operator/ overloads',K+'geometric_product.hpp')])
p('K16','The exponential of a bivector is the motion it generates',
 "For every line, branch and ideal line, the exponential equals the power series of that bivector: a unit motor (rotor, translator) rotating and translating along that axis by the amounts the bivector encodes, with exp(0) the identity and exp((s+t) l) = exp(s l) * exp(t l).",
 BC,"all bivectors: zero, purely ideal, purely real, simple and screw (non-simple), small and large angles",
 "test_exp_log.cpp round-trips three samples.",
 [K+'exp_log.hpp',X+'x86_exp_log.hpp'],[('exp overloads',K+'exp_log.hpp'),('detail::exp',X+'x86_exp_log.hpp')])
p('K17','The logarithm inverts the exponential on the principal branch',
 "For every unit motor, rotor and translator, the exponential of its logarithm is that object again (the negation of it for a motion that does not rotate and whose scalar part is -1, which no principal bivector generates), and the logarithm is the bivector of principal rotation angle along the motion's own axis; the identity has logarithm zero.",
 BC,"all unit motors: identity, pure translations, pure rotations, half turns, screws with positive and negative pitch, either sign of the scalar part",
 "test_exp_log.cpp takes three logs, none at a half turn, the identity or with negative scalar part.",
 [K+'exp_log.hpp',X+'x86_exp_log.hpp'],[('log overloads',K+'exp_log.hpp'),('detail::log',X+'x86_exp_log.hpp')])
p('K18','The square root is the half-way motion',
 "For every unit rotor, translator and motor other than a full turn, the square root is a unit object of the same kind whose square is the original, on the short side; the square root of a branch treats it as the rotor with that real part.",
 BC,"all unit rotors, motors and all translators; unit branches",
 "one motor sample exists.",
 [K+'exp_log.hpp'],[('sqrt overloads',K+'exp_log.hpp')])
p('K19','Constructors and conversions build the documented multivector',
 "Building a rotor from an angle and any nonzero axis, a translator from a distance and any nonzero direction, a motor from an angle, a distance and a unit line, and every component-wise constructor, conversion or assignment between types yields exactly the documented multivector, with axis and direction normalized, and every unmentioned component zero (scalar one where implicit).",
 BC,"all angles and distances (zero, negative, beyond a turn), all nonzero axes, all components",
 "tests construct with unit or axis-aligned directions and never use assignment conversions.",
 [K+'rotor.hpp',K+'translator.hpp',K+'motor.hpp',K+'line.hpp',K+'point.hpp',K+'plane.hpp',K+'direction.hpp'],[('constructors, operator=(rotor), operator=(translator)',K+'*.hpp')])
p('K20','Euler angles and rotors convert back and forth',
 "A rotor built from Euler angles is the product of the roll rotation about e23, the pitch rotation about e31 and the yaw rotation about e12, in that order, and for every unit rotor the reported Euler angles rebuild the same rotation, also at and near the poles, with pitch in [-pi/2, pi/2].",
 BC,"all Euler triples and all unit rotors including poles and axis-aligned quarter turns",
 "one random-free sample with generic angles.",
 [K+'rotor.hpp'],[('rotor(euler_angles), as_euler_angles',K+'rotor.hpp')])
p('K21','Projections give the documented incident or parallel object',
 "For every operand pair offered, the projection equals (a.b) wedge b or (a.b).b as documented; so a projected point or line lies on its target up to scale, projecting onto a point gives the parallel object through that point, and projecting a projection changes nothing but scale.",
 BC,"all operand values of the six offered projections",
 "one sample per projection, mostly axis-aligned.",
 [K+'projection.hpp'],[('project overloads',K+'projection.hpp')])
p('K22','Norms and products measure distances and angles',
 "For every plane, line, branch and ideal line the (squared) norm equals the root of (the sum of squares of) its non-degenerate components, or ideal components for the ideal norm. Consequently the norm of the join of two normalized points is their distance, and plane-plane, plane-point and line products of normalized operands give cosine of angle and signed distance.",
 BC,"all values including zero and very large or small ones",
 "test_metric.cpp has three samples.",
 [K+'plane.hpp',K+'line.hpp',X+'x86_sse.hpp'],[('norm, squared_norm, ideal_norm',K+'plane.hpp, '+K+'line.hpp')])
p('K23','Comparison and storage are faithful in every component',
 "Equality holds exactly when all components are equal, approximate equality exactly when every component differs by less than the given epsilon, and loading or storing moves each component to and from its documented slot of any float buffer, touching nothing else.",
 BC,"all pairs of values differing in any single component, all epsilons, any buffer alignment",
 "tests compare only equal objects and never store to unaligned buffers.",
 [K+'plane.hpp',K+'point.hpp',K+'line.hpp',K+'rotor.hpp',K+'motor.hpp'],[('operator==, approx_eq, load, store, load_normalized',K+'*.hpp')])
p('K24','Constraining picks the short-arc representative of the same motion',
 "Constraining any rotor or motor yields either itself or its negation, whichever has a nonnegative scalar part, so its action on every entity is unchanged; the in-place and copying forms agree.",
 BC,"all rotors and motors with positive, negative or zero scalar part",
 "one or two samples with all-positive tails.",
 [K+'rotor.hpp',K+'motor.hpp'],[('constrain()/constrained()',K+'rotor.hpp, '+K+'motor.hpp')])
p('K25','All build configurations compute the same results',
 "Every operation gives the same result (exactly for products, to single-precision accuracy for those using reciprocal approximations) in every supported build: SSE3 or SSE4.1, native or emulated intrinsics, C++11 or C++17 or later, optimized or not.",
 ['configurations','inputs'],"the cross product of supported configurations with the inputs of all other core properties",
 "each test binary compares one configuration with hard-coded samples; none compares configurations or optimized builds.",
 [X+'x86_sse.hpp',X+'x86_sandwich.hpp',X+'x86_sandwich_cxx11.inl',X+'x86_matrix.hpp',X+'x86_matrix_cxx11.inl'],[('KLEIN_SSE_4_1 branches',X+'*.hpp'),('C++11 variants',X+'x86_sandwich_cxx11.inl, '+X+'x86_matrix_cxx11.inl')])
p('K26','The shader library agrees with the algebra',
 "Every function of the shader header (products of rotors, translators and motors; rotor and motor application to planes, points and the origin) computes the same multivector as the Clifford product or conjugation it names, with the same component layout as the C++ types.",
 ['inputs'],"all operand values of the eight shader functions",
 "test_glsl.cpp has one sample per function.",
 ['glsl/klein.glsl'],[('kln_mul, kln_apply','glsl/klein.glsl')])
p('K27','The C interface agrees with the algebra',
 "Every function of the C interface returns the same multivector as the operation it documents: initializers, reflection, rotation, translation and motor application, compositions (second argument applied after the first) and the motor logarithm and line exponential.",
 ['inputs'],"all operand values of all C functions",
 "no test builds or calls the C interface.",
 ['c_src/klein.h','c_src/klein_c.cpp'],[('kln_* functions','c_src/klein_c.cpp')])
p('K28','Symbolic products implement the algebra of any signature',
 "For every signature (p,q,r) and all basis elements, the symbolic geometric, exterior and inner products and reversion equal those of the Clifford algebra with that signature, the dual map and regressive product equal the Poincare dual constructions for 3D PGA, and products, sums, differences, negations and reversions of symbolic multivectors, copying or in place (also with themselves), extend them (bi)linearly with exact cancellation. The inner product of a scalar with anything is zero. Algebras compare equal exactly when their signatures agree.",
 ['inputs','histories','configurations'],"all signatures of up to 30 dimensions, all pairs of basis elements, all multivectors with polynomial coefficients, all sequences of operations on them",
 "sym/test.cpp checks a handful of pairs in 3D PGA.",
 ['sym/ga.cpp','sym/ga.hpp'],[('algebra::mul ext reg dot dual rev','sym/ga.cpp'),('mv operators','sym/ga.cpp')])
p('K29','Symbolic polynomials stay canonical under arithmetic',
 "Sums, products and negations of polynomials are those of the commutative polynomial ring with Laurent monomials; the representation is canonical (no zero coefficient, no zero exponent, equal polynomials are represented and printed identically, monomials in graded order), whatever sequence of operations produced it.",
 ['inputs','histories'],"all polynomials over any variables, degrees and coefficients and all sequences of ring operations",
 "sym/test.cpp checks a few sums and products.",
 ['sym/poly.cpp','sym/poly.hpp'],[('mon and poly operators, grlex comparison, printing','sym/poly.cpp')])
p('K30','The symbolic shell language means what its grammar says',
 "Every well-formed expression evaluates to the multivector given by its grammar: juxtaposed coefficient and basis element, basis indices in any order with permutation sign, unary minus, plus and reversion, binary operators binding inner, join, meet, product, sum from tightest to loosest and associating to the left, parentheses overriding. The meaning does not depend on whitespace or on redundant parentheses.",
 ['programs'],"all expressions of the grammar",
 "sym/test.cpp parses under ten expressions and never mixes all precedence levels.",
 ['sym/parser.cpp'],[('tokenize and parse_* functions','sym/parser.cpp')])
p('K31','Every input line is answered or rejected, never hangs or corrupts',
 "For every input string the parser terminates with either the value of a well-formed expression or a reported error; malformed text (unknown characters, unbalanced parentheses, missing operands, trailing tokens, overlong numbers, out-of-range or repeated indices) is rejected with an error, and no input makes it loop, read or write out of bounds, or crash.",
 ['inputs','programs'],"all byte strings",
 "no malformed input is tested.",
 ['sym/parser.cpp','sym/repl.cpp'],[('tokenize, tokenize_number, tokenize_element, tokenize_identifier, parse','sym/parser.cpp')])
p('K32','The shell answers each line independently and in order',
 "For every script, the shell prints for each line in order exactly one answer that depends only on that line: the simplified value, the echoed comment, an empty line for blank input, nothing for dot commands, and for malformed lines an error on the error stream; errors and commands never affect later lines. Printed values show every nonzero term, ordered by grade and index, with its coefficient to six significant digits, so values that differ within that precision print differently.",
 ['histories','inputs'],"all sequences of lines of all kinds",
 "the shell's loop and printing are not tested at all.",
 ['sym/repl.cpp','sym/ga.cpp','sym/poly.cpp'],[('repl::run','sym/repl.cpp'),('operator<< for mv and poly','sym/ga.cpp, sym/poly.cpp')])
p('K33','Every call is a pure function of its operands, from any thread',
 "Every operation of the numeric library, including its array forms, its C interface and the shader library, and every operation of the symbolic library and its parser, is a function of its operands: the identical call returns the identical result whatever was computed before it, in whatever order, and from however many threads at once, even when the threads read the same operands; and no call changes an operand or an array that it is only to read.",
 ['schedules','histories','inputs'],"all operations, all operands, all orders and interleavings of calls",
 "the tests call each operation once or twice, from one thread, in one order, and do not look at the operands afterwards.",
 ['public/klein','c_src/klein_c.cpp','sym'],[('all operations','public/klein/*.hpp'),('algebra, mv, poly and parse','sym/*.cpp')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
