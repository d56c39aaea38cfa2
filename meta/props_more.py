prop("C10", "Rational functions form an exact field in canonical form",
  "Through any sequence of field operations, a rational function over the two-element field, a prime field or an extension field equals the exact value, in lowest terms with a non-zero denominator. Two ways of writing the same fraction give values that compare equal. Division by zero and zero denominators are refused and leave operands unchanged.",
  "all numerators and denominators, operation sequences, common factors at every size",
  "The tests use a few fixed fractions; cancellation, canonical form under scaling and aliasing histories are not sampled.",
  ["spffl/rationals/f2_polyrat_t.cpp", "spffl/rationals/fp_polyrat_t.cpp", "spffl/rationals/f2n_polyrat_t.cpp"],
  [("division of both parts by their gcd after each operation", "spffl/rationals/fp_polyrat_t.cpp")], over=("inputs", "histories"), technique=S)

F = "spffl/factorization/"
L = "spffl/linalg/"
prop("C11", "Polynomial factorization and irreducibility are exact",
  "Over the two-element field, prime fields and extension fields of characteristic two, the factors returned for a polynomial are monic and irreducible, pairwise distinct, and together with the unit multiply back to it with the right multiplicities. The irreducibility test agrees with an independent one. Searches for irreducible polynomials return an irreducible of the asked degree, the lowest one where that is promised.",
  "all non-zero polynomials of bounded degree, repeated factors and p-th powers included",
  "The tests factor a few fixed polynomials; multiplicities divisible by the characteristic, many equal-degree factors and larger fields are not sampled.",
  [F + "f2_poly_factor.cpp", F + "fp_poly_factor.cpp", F + "f2n_poly_factor.cpp"],
  [("square-free reduction then Berlekamp's kernel", F + "f2_poly_factor.cpp"), ("p-th root when the derivative vanishes", F + "fp_poly_factor.cpp")], technique=D)
prop("C12", "Divisor lists, totients and factor tables are complete and exact",
  "The divisors enumerated from a factorization are exactly the divisors, each once, with the proper and maximal-proper subsets as named. Totients of integers and polynomials count the units modulo them. A factor table stays equal to a multiset of factors through any sequence of insertions, merges, unit changes and queries.",
  "all factorizations of bounded size; operation sequences on factor tables",
  "The tests list divisors of a few numbers; insertion order, repeated factors and units are not sampled.",
  ["spffl/containers/tfacinfo.h", F + "f2_poly_totient.cpp", F + "fp_poly_totient.cpp", F + "f2n_poly_totient.cpp", F + "int_factor.cpp"],
  [("mixed-radix enumeration of exponents", "spffl/containers/tfacinfo.h"), ("product of (q^d - 1) q^(d(e-1)) over the factors", F + "fp_poly_totient.cpp")], over=("inputs", "histories"), technique=S)
prop("C13", "Multiplicative orders, generators and periods are exact",
  "The order reported for a unit of a residue ring is its exact multiplicative order and non-units are reported as having none. A reported generator generates the whole unit group and one is found whenever one exists. The period of a polynomial is the least e with f dividing x^e - 1, and primitivity and maximal order agree with the definition.",
  "all moduli of bounded size, irreducible or not; all elements",
  "The tests sample a few elements in a few fields, always with irreducible moduli.",
  ["spffl/units/fp_units.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/f2n_polymod_units.cpp"],
  [("test of the divisors of the group order", "spffl/units/f2_polymod_units.cpp")], technique=D)
prop("C14", "Discrete logarithms are exact or refused",
  "In every supported residue ring, the reported logarithm of an element to a base is an exponent that gives back the element, in the range of the group. An element outside the group generated by the base is refused and never answered with a wrong exponent. Nothing but the answer is written to standard output.",
  "all prime moduli and fields of bounded order; all bases and elements, generators or not",
  "The tests take logarithms to a generator in small fields only.",
  ["spffl/units/fp_units.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/f2n_polymod_units.cpp"],
  [("baby-step giant-step with tables sorted by value", "spffl/units/fp_units.cpp")], technique=D)
prop("C15", "Packed bit vectors and matrices equal their unpacked meaning",
  "Through any sequence of operations on packed bit vectors and matrices of any length and shape, every element equals what plain arrays of bits would hold, padding bits never leak into results, and bad indices or shapes are refused without change. Rank, kernel, echelon form, determinant, inverse and powers of a bit matrix are exact.",
  "lengths 1..200 and shapes around multiples of the word size; operation sequences with aliasing",
  "The tests use a few vectors shorter than one machine word.",
  ["spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/count_bits.cpp"],
  [("packing into machine words with unused bits in the last", "spffl/bits/bit_vector_t.cpp"), ("row operations on whole words", "spffl/bits/bit_matrix_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C16", "Vectors, matrices and stacks are independent values of any element type",
  "Through any sequence of structural and arithmetic operations, a vector, matrix or stack of any element type holds exactly the elements plain arrays would, and changing one never changes another, including when a container or one of its own elements is an operand of its own update. Bad indices and mismatched shapes are refused without change.",
  "all shapes of bounded size, element types with and without heap storage, operation sequences with aliasing",
  "The tests check single operations on a few fixed containers; assignment across sizes and self-aliasing are not sampled.",
  ["spffl/containers/tvector.h", "spffl/containers/tmatrix.h", "spffl/containers/tstack.h"],
  [("owned element arrays copied on assignment", "spffl/containers/tvector.h"), ("scalar operand copied before an update", "spffl/containers/tvector.h")], over=("inputs", "histories"), technique=S)
prop("C17", "Linear algebra over fields is exact",
  "Over every supported field, row echelon form is the unique reduced form of the matrix, rank and determinant are exact, the kernel basis spans exactly the kernel, a solution is found exactly when a unique one exists and satisfies the system, and an inverse is found exactly when the determinant is non-zero. Products distribute, associate and transpose as they should and powers equal repeated products.",
  "matrices up to 10x10, of every rank, over residues, bits, extension fields, towers, rationals and rational functions",
  "The tests reduce a few small full-rank matrices over one field.",
  ["spffl/containers/tmatrix.h"],
  [("Gauss-Jordan elimination with pivoting", "spffl/containers/tmatrix.h"), ("inverse by augmenting with the identity", "spffl/containers/tmatrix.h")], technique=D)
prop("C18", "Matrices of integers and polynomials reduce without leaving the ring",
  "Over the integers and over polynomial rings, the fraction-free determinant is exact, an inverse is found exactly when the determinant is a unit and is the inverse, and fraction-free reduction gives a staircase with the rank and row space of the original. The gcd of a row is the gcd of its elements. Positive matrix powers equal repeated products whenever those fit.",
  "matrices up to 4x4 over Z, F2[x], Fp[x] and F2n[x] whose needed intermediate values fit",
  "The tests never take a fraction-free inverse and use one or two determinants.",
  ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h"],
  [("cross-multiplied elimination divided by row gcds", "spffl/containers/tmatrix.h"), ("numerator and denominator of the scale kept apart", "spffl/containers/tmatrix.h"), ("repeated squaring", "spffl/containers/tmatrix.h")], technique=D)
prop("C19", "Characteristic and minimal polynomials and eigenvalues are exact",
  "The characteristic polynomial of a matrix over the two-element field, a prime field or an extension equals det(tI - A), and the companion matrix of a polynomial has it as characteristic polynomial. The minimal and characteristic polynomials of a field element are the products over its conjugates. A matrix is reported diagonalizable exactly when it is so over its splitting field, whose distinct eigenvalues are all listed.",
  "matrices up to 6x6 of every structure; every element of fields of bounded degree, subfields included",
  "The tests take no characteristic polynomials; repeated eigenvalues, subfield elements and extension fields are never sampled.",
  [L + "f2_linear_algebra.cpp", L + "fp_linear_algebra.cpp", L + "f2_polymod_linear_algebra.cpp", L + "min_char_polys.cpp"],
  [("fraction-free determinant of tI - A", L + "fp_linear_algebra.cpp"), ("kernel of the powers of the element", L + "min_char_polys.cpp"), ("nullity against multiplicity in the splitting field", L + "f2_polymod_linear_algebra.cpp")], technique=D)
prop("C20", "Conversion between field representations is a field embedding",
  "Between two representations of fields of characteristic two an embedding is found exactly when the degree of the first divides that of the second. The converted values of scalars, polynomials and matrices preserve sums, products, zero, one and distinctness, agree with taking the generator to its image, and converting back through an isomorphism gives the original.",
  "pairs of irreducible moduli of bounded degree, every generator, every element",
  "The tests never convert between fields.",
  [L + "f2_polymod_convert.cpp"],
  [("root of the generator's minimal polynomial in the target field", L + "f2_polymod_convert.cpp"), ("conversion by discrete logarithm", L + "f2_polymod_convert.cpp")], technique=D)
prop("C21", "Enumerations list exactly the elements they name, once, in order",
  "Lists of all polynomials of a degree, of all residues, units, non-units, multiples of an element or elements prime to it, of all tuples over a field and of all projective points contain exactly those elements, each once, in counting order. Points are normalised. A list of an unknown kind is refused.",
  "all moduli and degrees with up to a few thousand elements, irreducible or not",
  "The tests list no elements; list sizes depend on totients that only composite moduli exercise.",
  ["spffl/list/list_elements.cpp"],
  [("counting with increment and a gcd filter", "spffl/list/list_elements.cpp"), ("base-q digits of a counter", "spffl/list/list_elements.cpp")], technique=D)
prop("C22", "Random elements have the promised shape and miss nothing",
  "A random polynomial has exactly the degree asked for and every coefficient can take every value the degree allows. A random residue is reduced, has the modulus asked for, and is uniformly drawn from all residues, whether the modulus is prime or not. Impossible degrees and moduli are refused.",
  "all degrees and moduli of bounded size, all generator seeds",
  "The tests cannot judge a distribution from one draw and never check degrees of random values.",
  ["spffl/random/intmod_random.cpp", "spffl/random/f2_poly_random.cpp", "spffl/random/fp_poly_random.cpp", "spffl/random/f2n_poly_random.cpp"],
  [("a random representative of full degree, reduced", "spffl/random/f2_polymod_random.cpp"), ("coefficients drawn one by one, the leading one forced", "spffl/random/fp_poly_random.cpp")], over=("inputs", "histories"), technique="property-based testing with statistical oracles whose false-alarm probability is below 1e-16, seeded generator, ASAN+UBSAN")
prop("C23", "Cyclotomic polynomials and reduction to finite fields are exact",
  "The n-th cyclotomic polynomial over the rationals is exact for every index and in whatever order indices are asked for, and over a finite field it is the reduction of that polynomial. Reducing a rational or a rational polynomial to a finite field takes numerators and denominators to the field and divides, gives a polynomial in canonical form when leading coefficients vanish, and is refused when a denominator vanishes.",
  "all indices up to 600; all rationals with int parts; all supported finite fields",
  "The tests look at no cyclotomic polynomial; vanishing leading coefficients and denominators are never sampled.",
  ["spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/q_cyclotomic/qff.cpp"],
  [("division of x^n - 1 by the lower cyclotomic polynomials, memoised", "spffl/q_cyclotomic/cyclo_poly.cpp"), ("numerator over denominator in the field", "spffl/q_cyclotomic/qff.cpp")], over=("inputs", "histories"), technique=D)
prop("C24", "The text of a value determines it and malformed text is refused",
  "Writing any value gives its one canonical text in the documented notation, and reading that text, alone or in a sequence on a stream, gives the value back. Other spellings of a value are read as that value, reduced and in lowest terms. Text that spells no value is refused with an exception and leaks nothing.",
  "values of fifteen element types with random moduli; spellings and mutations of their texts",
  "The tests read and write a few short values and never malformed text.",
  ["spffl/base/tokenize.cpp", POLY + "f2_poly_t.cpp", POLY + "fp_poly_t.cpp", POLY + "f2_polymod_t.cpp", POLY + "q_poly_t.cpp", "spffl/intmath/intmod_t.cpp", "spffl/intmath/intrat_t.cpp"],
  [("digit strings or comma lists by the size of the characteristic", POLY + "fp_poly_t.cpp"), ("hexadecimal padded to the modulus", POLY + "f2_polymod_t.cpp"), ("scanning numerator and denominator", "spffl/intmath/intrat_t.cpp")], technique=D)
prop("C25", "The text of vectors and matrices determines them",
  "Vectors and matrices of any element type and packed bit vectors and matrices are written with the canonical text of their elements, and streams, files, standard input and bracketed text give the same container back whatever its size, with comments and blank lines skipped and several matrices in one stream kept apart. Ragged rows and malformed elements are refused.",
  "containers of sizes across the readers' internal buffer sizes, all element types, layouts and mutations of their text",
  "The tests read a few small matrices; buffer growth, comments, several matrices a stream and ragged rows are not sampled.",
  ["spffl/containers/tvector.h", "spffl/containers/tmatrix.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_vector_t.cpp", "spffl/base/line_scan.cpp"],
  [("rows collected in a growing buffer", "spffl/containers/tmatrix.h"), ("elements collected in a growing buffer", "spffl/containers/tvector.h"), ("bits packed as the row is read", "spffl/bits/bit_matrix_t.cpp")], technique=D)
CP = "spffl/cli_parser/"
prop("C26", "Scalar expressions on the command line mean what the grammar says",
  "An expression of values, parentheses and operators given to the op command of any element type is evaluated with the documented precedence and associativity, and its value is printed as the exact result. An expression that has no value, be it malformed, mistyped, followed by more text or undefined, is refused with a message and a failure status and prints no result. No expression crashes the program.",
  "expressions of every operator and nesting over all scalar types, and the same with tokens deleted, inserted, swapped and replaced",
  "The regression cases evaluate a few well-formed expressions a type; nesting, precedence mixes and malformed input are not sampled.",
  [CP + "cmd_line_ops.h", "cli/spiff/spiff_main.cpp"],
  [("recursive descent over the argument list", CP + "cmd_line_ops.h"), ("string-to-value conversion in the context of the modulus", CP + "cmd_line_ops.h")], technique=D)
prop("C27", "Matrix and vector expressions on the command line mean what the grammar says",
  "An expression of matrices or vectors, powers and operators given to the mat_op or vec_op command of any element type is evaluated with the documented precedence, and its value, be it matrix, scalar or count, is printed as the exact result. Literals in brackets and in files mean the same. An expression with mismatched shapes, wrong kinds of operand or malformed literals is refused with a message and a failure status.",
  "expressions over fifteen element types, shapes up to 4x4 and vectors up to 12 long, and the same with tokens deleted, inserted, swapped and replaced",
  "The regression cases evaluate a few well-formed matrix expressions; nesting, non-square operands and malformed input are not sampled.",
  [CP + "cmd_line_matrix_ops.h", CP + "cmd_line_vector_ops.h", "cli/spiff/spiff_main.cpp"],
  [("recursive descent over the argument list", CP + "cmd_line_matrix_ops.h"), ("kinds of value checked at each operator", CP + "cmd_line_matrix_ops.h")], technique=D)
prop("C28", "Integer and polynomial commands print the exact results",
  "Each command on integers, cyclotomic polynomials and polynomials over the two-element field, prime fields and their extensions (gcd with or without its combination, lcm, degree, totient, test, find, factor, divisors, list, evaluate, random, companion matrix, reduction of a rational polynomial, period) prints one labelled line for each of its arguments with the exact result in canonical text, and exits with success.",
  "arguments in every accepted spelling, any number of them, over all coefficient fields the command takes",
  "The regression cases run most commands once on fixed arguments; several arguments, options and other characteristics are not sampled.",
  ["cli/spiff/z_handlers.cpp", "cli/spiff/q_handlers.cpp", "cli/spiff/f2_poly_handlers.cpp", "cli/spiff/fp_poly_handlers.cpp", "cli/spiff/f2n_poly_handlers.cpp", "cli/spiff/fpn_poly_handlers.cpp"],
  [("arguments read in a loop, each labelled when there are several", "cli/spiff/f2_poly_handlers.cpp"), ("divisors sorted before they are printed", "cli/spiff/z_handlers.cpp")], technique=D)
prop("C29", "The pseudorandom generator is the documented function of its state",
  "Each output of the generator is the documented hash of the state, one to one, and steps the 64-bit state by one across the 32-bit carry. Caller-owned streams and the global stream with its seedings never influence one another, and fractions lie in [0, 1). Seeding twice with one value gives one sequence.",
  "all 64-bit states; all interleavings of streams and seedings up to 40 steps",
  "The tests run no generator; carries and interleavings are never sampled.",
  ["spffl/bitrand/psdes.cpp"],
  [("four Feistel rounds", "spffl/bitrand/psdes.cpp"), ("counter state with carry", "spffl/bitrand/psdes.cpp")], over=("inputs", "histories"), technique=S)
prop("C30", "Residue, field and matrix commands print the exact results",
  "Each command on residues modulo an integer or a polynomial and on matrices over fields (lists, tables of operations, logarithms and powers, orders, orbits, generators, logarithms, minimal and characteristic polynomials, conversion between fields, linear systems, diagonalization, orders of matrices, random elements and matrices) prints the exact result in canonical text. What has no answer, such as the logarithm of a value outside the group generated or the orbit of a non-unit, is refused with a message and a failure status.",
  "moduli up to a few thousand elements, prime, irreducible or composite; matrices up to 5x5 in files and on standard input",
  "The regression cases run some of the commands once on fixed arguments; composite moduli, subgroups, singular matrices and refusals are not sampled.",
  ["cli/spiff/fp_handlers.cpp", "cli/spiff/f2_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp", "cli/spiff/fp_polymod_handlers.cpp", "cli/spiff/f2n_polymod_handlers.cpp", "cli/spiff/f2_polyrat_handlers.cpp"],
  [("tables over all elements or over the units", "cli/spiff/f2_polymod_handlers.cpp"), ("powers of the matrix until the identity", "cli/spiff/fp_handlers.cpp")], technique=D)
prop("C31", "Nested commands are replaced by their output; what makes no sense is refused",
  "A command in braces among the arguments of another is run first and the words of its output, however many and long, take its place, at any depth and any number of times, its own words reaching it unchanged. Braces that do not match, unknown commands, and missing, surplus or malformed arguments, options, files and input are refused with a message and a failure status; no small argument crashes a command or makes it fail silently. Each listed command exists once.",
  "trees of commands up to four deep, brace placements, words with characters of the shell, lines around 4096 and 8192 characters; junk, omitted and surplus arguments and small values for all 136 commands",
  "The regression cases nest two commands with short output and give well-formed arguments only.",
  [CP + "cmd_interp.cpp", "cli/spiff/spiff_main.cpp", "spffl/base/tokenize.cpp", "cli/spiff/z_handlers.cpp", "cli/spiff/f2_poly_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp", "cli/spiff/fp_handlers.cpp"],
  [("innermost output spliced into the argument list until no brace is left", CP + "cmd_interp.cpp"), ("lookup by name in groups", "cli/spiff/spiff_main.cpp"), ("usage on any argument that does not scan", "cli/spiff/f2_polymod_handlers.cpp")], technique=D)
prop("C32", "Results depend on the arguments alone, not on earlier calls",
  "Every operation of the library that is not asked for a random value gives the same result for the same arguments however often and in whatever order it is called, whatever other calls, with other moduli, indices, generators or fields, come in between. No remembered intermediate result, such as the last totient, cyclotomic polynomial, factorization or logarithm, is ever used for arguments it does not belong to, and no call alters its arguments.",
  "all interleavings of calls on arguments of a small pool, neighbours differing in a single argument",
  "Each test makes its calls once, in one order, in a process of its own.",
  ["spffl/intmath/intmod_t.cpp", "spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/linalg/f2_polymod_convert.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/factorization/f2_poly_factor.cpp"],
  [("the last modulus and its totient kept between inversions", "spffl/intmath/intmod_t.cpp"), ("cyclotomic polynomials memoised by index", "spffl/q_cyclotomic/cyclo_poly.cpp")], over=("inputs", "histories"), technique="stateful property-based testing with a metamorphic oracle (repeated calls agree), shrinking, ASAN+UBSAN")
prop("C33", "Computations give back the memory they take and touch no other",
  "Every operation of the library, whatever it is given, reads and writes only memory that belongs to it and that has been initialised by the time it is used, and has given back every block it took once its results and arguments are gone. That holds for results and refusals alike: an exception raised half-way through a computation, text that does not parse and a singular or ill-shaped argument leave nothing behind.",
  "the histories, algorithm calls and texts of C02 to C25, each generated case repeated with its live memory counted",
  "Tests run without a memory checker and end before anything lost is missed.",
  ["spffl/containers/tmatrix.h", "spffl/bits/bit_matrix_t.cpp", "spffl/polynomials/fp_poly_t.cpp", "spffl/containers/tfacinfo.h", "spffl/containers/tvector.h", "spffl/polynomials/f2_poly_t.cpp"],
  [("arrays owned by values, freed by destructors and before reassignment", "spffl/containers/tmatrix.h"), ("arrays grown by copying to a new block and freeing the old", "spffl/containers/tfacinfo.h")], over=("inputs", "histories"), technique="property-based testing of generated histories and calls with an invariant on live memory, shrinking, ASAN+UBSAN+leak tracking")
