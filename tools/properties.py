"""The properties (source of properties.jsonl and of MANIFEST.json's checks)."""
NOT_APPLICABLE = {}
PROPERTIES = []


def prop(**k):
    PROPERTIES.append(k)


prop(
    id="C01",
    title="Packed linear-algebra kernels compute the linear algebra they stand for",
    statement=(
        "For every admissible shape and every input, executing the circuit that a packed kernel builds "
        "(diagonal matrix-vector product, rotate-and-reduce with or without plaintexts, dot product, "
        "broadcasted reduction, Halevi-Shoup and squat products, bicyclic and tricyclic matrix products, "
        "ciphertext-ciphertext products with baby-step giant-step) on packed vectors yields the mathematically "
        "expected product or reduction in every slot the packing declares valid. This holds whichever "
        "baby/giant-step split, unrolled or looped form, or zero-plaintext elision the kernel chooses."
    ),
    quant="all kernel shapes (powers of two or not, squat or square, coprime triples), all periods and step counts, all plaintext and ciphertext values, unrolled and looped circuits",
    why="The unit tests execute each kernel on one or two fixed small shapes; the index arithmetic of rotations, diagonals and masks depends on the divisibility of every dimension.",
    files=["lib/Kernel/KernelImplementation.h", "lib/Kernel/EvalVisitor.cpp", "lib/Kernel/ArithmeticDag.h", "lib/Utils/RotationUtils.h"],
    mech=[("circuit constructors for every kernel", "lib/Kernel/KernelImplementation.h"), ("literal evaluation of circuits", "lib/Kernel/EvalVisitor.cpp")],
    technique="property-based testing against a matrix/vector reference and an independent circuit interpreter",
    note="Generated shapes up to 24x24 (7 per side for batched products), integer data; each circuit is run by an independent interpreter and by the repository's own evaluator and compared slot by slot with plain loops.",
)
prop(
    id="C02",
    title="Predicted rotation keys and counts match what circuits execute",
    statement=(
        "The set of rotation indices reported for a kernel or linear transform covers exactly the rotations its "
        "circuit performs on ciphertexts, reduced into [0, slots), and excludes zero and plaintext-only rotations. "
        "The reported rotation count of a circuit equals the number of distinct secret rotations an execution performs "
        "with every shared node evaluated once."
    ),
    over=["inputs", "programs"],
    quant="all kernel configurations, all randomly built circuits with shared nodes, loops and mixed secret/plaintext leaves, all slot counts",
    why="Tests compare a handful of hard-coded counts; a missing key is only visible when the exact shape that needs it is run.",
    files=["lib/Utils/RotationUtils.h", "lib/Kernel/RotationCountVisitor.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"],
    mech=[("index prediction", "lib/Utils/RotationUtils.h"), ("rotation counting with memoisation", "lib/Kernel/RotationCountVisitor.cpp"), ("rotation recording during evaluation", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp")],
    technique="property-based testing: instrumented circuit execution as oracle",
    note="Circuits are executed by an independent interpreter that records the shifts performed on secret values; predicted sets and counts are compared for equality.",
)
prop(
    id="C03",
    title="Homomorphic polynomial evaluation computes the polynomial within its depth",
    statement=(
        "The circuits built to evaluate polynomials homomorphically (Horner and Paterson-Stockmeyer in the monomial basis, "
        "Paterson-Stockmeyer in the Chebyshev basis, tables of powers and of Chebyshev polynomials) compute exactly the value "
        "of the polynomial at the input, for every degree and every pattern of zero coefficients. Powers are computed at "
        "multiplicative depth ceil(log2 k), and Paterson-Stockmeyer evaluation stays within its logarithmic depth and "
        "square-root multiplication bounds. The Chebyshev decomposition reassembles to the "
        "input series with digits shorter than the generator; splitting a basis degree into two smaller ones adds up to the degree; "
        "a coefficient threshold changes the value by no more than the dropped terms."
    ),
    quant="all coefficient sequences (any degree, any sparsity, any generator degree), all evaluation points",
    why="The tests evaluate a few fixed polynomials; which quotient/remainder branch, which cached power and which skipped zero term a circuit uses depends on the degree and on the zero pattern.",
    files=["lib/Utils/Polynomial/Horner.h", "lib/Utils/Polynomial/PatersonStockmeyer.h", "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp"],
    mech=[("Paterson-Stockmeyer circuits", "lib/Utils/Polynomial"), ("Chebyshev decomposition", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp")],
    technique="property-based testing: circuit interpretation over exact rationals/reals against direct evaluation",
    note="Degrees up to 130 (quick) or 400 (thorough); the circuit is interpreted over exact integers / long doubles and compared with Horner or Clenshaw evaluation, and its depth is measured.",
)
prop(
    id="C04",
    title="Polynomial objects obey ring arithmetic, composition and basis change",
    statement=(
        "Integer and floating-point polynomials behave as the ring elements they denote: sum, difference, product, "
        "monomial shift, scaling and composition equal the result of the same operation on coefficient maps for every "
        "sparsity pattern including the zero polynomial; terms stay sorted and unique; degree and printing agree with "
        "the terms; a Chebyshev series converts to the monomial basis and composes with other polynomials without "
        "changing its values."
    ),
    quant="all pairs of sparse or dense polynomials, all exponents and coefficients, all Chebyshev series and inner maps",
    why="Tests add and multiply a few fixed polynomials; the merge loops misbehave only for particular exponent interleavings and for empty operands.",
    files=["lib/Utils/Polynomial/Polynomial.h", "lib/Utils/Polynomial/Polynomial.cpp"],
    mech=[("polynomial arithmetic", "lib/Utils/Polynomial/Polynomial.h")],
    technique="property-based testing against a coefficient-map reference model",
    note="Up to ~8 terms, exponents up to 2^20, coefficients up to 64 bits; exact comparison for integers and scaled-error comparison for floats.",
)
prop(
    id="C05",
    title="NTT and RNS arithmetic implement negacyclic polynomial multiplication",
    statement=(
        "The number-theoretic transform and its inverse are mutually inverse for every power-of-two length and every "
        "NTT-friendly prime, evaluate the polynomial at the odd powers of the root, and turn pointwise products into "
        "negacyclic convolutions. Residue-number-system polynomials add, negate, multiply and convert between "
        "coefficient and evaluation form limb by limb exactly as the ring Z_q[X]/(X^n+1) does for every modulus that fits in 64 bits. "
        "Bit reversal is an involution that reverses the bits."
    ),
    quant="all transform lengths, all NTT-friendly primes up to 64 bits, all coefficient vectors, all limb counts",
    why="The tests transform two or three fixed vectors over small primes; wrap-around of butterflies and of modular addition only shows for large moduli and particular values.",
    files=["lib/Utils/Polynomial/NTT.cpp", "lib/Utils/Polynomial/RNSPolynomial.cpp"],
    mech=[("NTT butterflies", "lib/Utils/Polynomial/NTT.cpp"), ("limb-wise arithmetic", "lib/Utils/Polynomial/RNSPolynomial.cpp")],
    technique="property-based testing against schoolbook negacyclic arithmetic",
    note="Lengths up to 256, primes of 5 to 64 bits, up to 4 limbs; every product is compared with a schoolbook product in 128-bit or big-integer arithmetic.",
)
prop(
    id="C06",
    title="Modular arithmetic, primality, factorisation and root finding are correct",
    statement=(
        "Modular exponentiation, inversion and reduction on arbitrary-width integers agree with exact arithmetic; the "
        "primality test accepts exactly the primes; factorisation returns the prime factors; a returned primitive root of unity has "
        "exactly the requested order; the power-of-two, logarithm and divisor helpers return the exact mathematical values; "
        "the inverse error function inverts erf within single-precision accuracy for |a| <= 1 - 2^-24."
    ),
    quant="all operand values and bit widths up to 256, all 64-bit candidates including strong pseudoprimes and Carmichael numbers",
    why="A handful of constants is tested; pseudoprimes, even moduli, operands at the width limit and non-minimal-order roots are not.",
    files=["lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp"],
    mech=[("modular arithmetic on APInt", "lib/Utils/APIntUtils.cpp"), ("number theory and erfinv", "lib/Utils/MathUtils.cpp")],
    technique="property-based testing against big-integer references",
    note="Compared with boost multiprecision and trial division / deterministic Miller-Rabin; erfinv above 1-2^-24 is a recorded known finding.",
)
prop(
    id="C07",
    title="Base-2 logarithmic arithmetic neither overflows nor drops magnitude",
    statement=(
        "Values kept as base-2 logarithms add, multiply, compare and convert exactly like the "
        "non-negative reals they stand for, within rounding, over the entire range of exponents: both operations are commutative, "
        "associative and distributive within rounding, zero is the additive identity and an absorbing factor, one is the "
        "multiplicative identity, and the order is consistent with the values."
    ),
    quant="all pairs of non-negative magnitudes from 2^-1000 to 2^1000 and zero",
    why="Noise bounds span hundreds of bits; the tests use a few moderate numbers, while cancellation and infinities appear only at the extremes.",
    files=["lib/Utils/LogArithmetic.h", "lib/Utils/LogArithmetic.cpp"],
    mech=[("log-domain arithmetic", "lib/Utils/LogArithmetic.h")],
    technique="property-based testing against long-double arithmetic",
    note="Relative comparison in the log domain; 200k (quick) or 4M (thorough) generated pairs.",
)
prop(
    id="C08",
    title="Graph utilities return valid orders, components, shortest paths, colourings",
    statement=(
        "After any history of vertex and edge insertions and edge contractions the graph holds exactly the vertices and "
        "edges of the abstract graph. A topological sort is a linear extension of the edges and fails exactly on cyclic graphs; "
        "strongly connected components partition the vertices by mutual reachability; shortest paths are real paths of minimal length; "
        "longest/critical paths have maximal length in acyclic graphs; a greedy colouring is proper, gives each vertex a colour no larger than its degree, and uses at most two colours on bipartite graphs."
    ),
    over=["inputs", "histories"],
    quant="all directed graphs with cycles, self-loops and disconnected parts, all mutation histories",
    why="The tests use three or four small hand-drawn graphs; wrong relaxations, stale caches and lost edges need specific shapes.",
    files=["lib/Utils/Graph/Graph.h", "lib/Utils/Graph/GraphUtils.h"],
    mech=[("graph container and algorithms", "lib/Utils/Graph/Graph.h")],
    technique="stateful property-based testing against a reference graph model",
    note="Graphs of up to about 12 vertices generated from edge lists or mutation histories; every answer is compared with a brute-force oracle.",
)
prop(
    id="C10",
    title="Ciphertext layouts place every tensor element exactly where the packing says",
    statement=(
        "The relations built for row-major, diagonal, cyclic, bicyclic-diagonal, per-row and replicated packings contain "
        "exactly the (element, ciphertext, slot) triples of the packing formula: every element of the tensor is "
        "assigned at least one slot, no slot of a ciphertext holds two different elements, replication fills exactly the slots congruent to the element's, "
        "and enough ciphertexts are used for tensors of any size. Packing a tensor by its layout and unpacking it again returns the tensor. "
        "The recognisers of known layouts accept a relation exactly when it is the packing they name, however it is presented; "
        "point queries and the conversions to and from ISL return the relation's own points."
    ),
    quant="all tensor shapes, slot counts (powers of two), matrix aspect ratios, replication patterns, tensor contents, and equivalent presentations of a relation",
    why="The tests check a few fixed shapes and slot counts; modulo and floor-division terms of a layout go wrong for shapes that do not divide the slot count, for padding and for large tensors.",
    files=["lib/Utils/Layout/Utils.cpp", "lib/Utils/Layout/Evaluate.h", "lib/Utils/Layout/IslConversion.cpp"],
    mech=[("layout relation constructors and recognisers", "lib/Utils/Layout/Utils.cpp"), ("evaluation of layouts on tensors", "lib/Utils/Layout/Evaluate.h"), ("ISL conversion", "lib/Utils/Layout/IslConversion.cpp")],
    technique="property-based testing: full point-set comparison of integer relations with packing formulas",
    note="Shapes up to a few hundred elements compared point by point; sizes up to 2^40 by membership of sampled points; relations are compared through an independent enumerator.",
)
prop(
    id="C11",
    title="Layout transformations preserve the data each slot holds",
    statement=(
        "Every operation on layouts describes the same data movement as the tensor operation it stands for: fixing or shifting variables, "
        "collapsing and expanding unit dimensions, extracting and inserting slices with any offsets, sizes and strides, padding domains, and "
        "hoisting a layout conversion through a matrix-vector product each produce the relation obtained by composing the original relation with the "
        "index map of that operation, for every point. A folded slot permutation visits the points of the permuted relation. "
        "Requests that cannot be expressed are refused rather than answered with a wrong relation."
    ),
    quant="all relations, all reassociations, all slice offsets/sizes/strides with or without dropped unit dimensions, all paddings and permutations",
    why="The tests check one instance of each transformation; which dimension is renumbered depends on the position of unit dimensions and on stride and offset combinations.",
    files=["lib/Utils/Layout/Utils.cpp", "lib/Utils/Layout/Hoisting.cpp"],
    mech=[("dimension surgery on relations", "lib/Utils/Layout/Utils.cpp"), ("hoisting layouts through operations", "lib/Utils/Layout/Hoisting.cpp")],
    technique="property-based testing against brute-force composition of point sets",
    note="Relations of up to 4+2 dimensions and a few hundred points, randomly presented (redundant constraints, local variables); compared point by point.",
)
prop(
    id="C09",
    title="Convolution layouts turn convolutions into exactly equivalent matrix products",
    statement=(
        "For every filter, data shape, stride, padding and channel count, the relation that expands a convolution filter into a "
        "matrix holds filter element (f, c, fy, fx) at exactly the rows and columns of the output and data elements it multiplies, the "
        "expanded matrix type has one row per output and one column per data element, and diagonalizing it (in one relation or as a "
        "sequence of relations, with or without row interchange) places each matrix element on its diagonal. Row interchange is the pixel-shuffle permutation. "
        "Multiplying the packed filter with packed data and reading the result through the result layout gives the convolution."
    ),
    quant="all filter and data shapes, strides (equal or not), paddings, channel counts, slot counts, 1-D and 2-D, with or without interchange",
    why="The tests check hand-picked shapes; windows that reach into padding, data left over after the last stride and shapes crossing a power of two need other combinations.",
    files=["lib/Utils/Layout/Convolution.cpp", "lib/Utils/Layout/Utils.cpp"],
    mech=[("convolution filter and result relations", "lib/Utils/Layout/Convolution.cpp")],
    technique="property-based testing: point-set comparison with direct convolution indexing, plus end-to-end packed convolution",
    note="Up to 4x2 channels and 6x6 data (12 or 20 in 1-D); large interchange relations are checked at sampled positions; the end-to-end check multiplies with the repository's matrix-vector kernel.",
)
prop(
    id="C12",
    title="Index maps and emitted index expressions address the intended element",
    statement=(
        "Affine layout maps evaluate to their mathematical value at every point; the row-major and squat-diagonal layout maps send "
        "every element of a tensor of any rank to the position the layout names, the recognisers accept no other map, and a mapping is called a "
        "permutation exactly when it is one. Flattened indices, whether computed or emitted as source text (tensor or strided memref, static or "
        "symbolic shapes), equal the row-major or strided position for every shape; an emitted slice copy reads and writes exactly the elements of the "
        "slice; lists of values and types are written in order and fail only when an element cannot be written."
    ),
    quant="all affine expressions and points, all tensor shapes (including more than 2^31 elements), all slice offsets, sizes and strides, static or dynamic",
    why="Backend code generators flatten every tensor access through these helpers, but the tests only look at emitted text for a few shapes of rank two.",
    files=["lib/Utils/AffineMapUtils.cpp", "lib/Utils/TensorUtils.cpp", "lib/Utils/TargetUtils.cpp", "lib/Utils/TargetUtils.h"],
    mech=[("layout maps and static evaluation", "lib/Utils/AffineMapUtils.cpp"), ("flattened indices", "lib/Utils/TensorUtils.cpp"), ("emitted index expressions", "lib/Utils/TargetUtils.cpp")],
    technique="property-based testing: independent evaluation of maps and of the emitted expressions",
    note="Emitted text is executed by a small expression/loop interpreter and compared with direct tensor indexing; maps are evaluated by an independent expression tree.",
)
prop(
    id="C13",
    title="Memory and tensor forwarding passes preserve what programs compute",
    statement=(
        "Forwarding stores to loads, inserts to extracts and slice inserts to slice extracts, and removing buffers that are never read, leave "
        "every program computing the same results and the same final contents of the buffers its caller can see, whatever loops, branches, "
        "copies, calls, aliases through casts and views, dynamic indices and overlapping slices it uses. A load or extract directly after a store or insert at the same "
        "place (same index values) takes the value just written. No affine loads or stores are left by store forwarding, and a local buffer that is only "
        "written to is removed."
    ),
    over=["inputs", "programs"],
    quant="all programs over scalars, buffers and tensors with loops and branches, all inputs on which they are defined",
    why="A forwarding bug only shows when an access that may alias sits between the two ends being joined; the lit tests are single straight-line snippets.",
    files=["lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp", "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp", "lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp"],
    mech=[("store-to-load forwarding", "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp"), ("insert-to-extract forwarding", "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp"), ("removal of unused buffers", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp")],
    technique="property-based testing: random programs executed before and after the pass by an independent interpreter",
    note="Programs of up to 18 operations and nesting 2 over buffers and tensors of up to 3 dimensions; each is run on three inputs before and after the pass (undefined behaviour, such as out-of-bounds accesses, excluded).",
)
prop(
    id="C14",
    title="Loop unrolling and call clean-up keep behaviour and finish their job",
    statement=(
        "Full unrolling of affine loops leaves every program computing the same results and buffer contents and leaves no loop that would run. Removing unused client-helper "
        "calls removes exactly the calls to functions marked as client helpers (encrypt, decrypt, pack, preprocessed, encrypt-zero) whose "
        "results nobody uses; all other calls and all functions remain and the program computes the same."
    ),
    over=["inputs", "programs"],
    quant="all nests of affine loops (any bounds, steps, carried values, nesting), all call graphs and helper markings, all inputs",
    why="The lit tests cover one or two loops and one marking; trip counts that the step does not divide, carried values and nested loops are only met by other shapes.",
    files=["lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp", "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp", "lib/Dialect/ModuleAttributes.cpp"],
    mech=[("unrolling", "lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp"), ("call removal", "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp"), ("client helper markings", "lib/Dialect/ModuleAttributes.cpp")],
    technique="property-based testing: random programs executed before and after the pass by an independent interpreter",
    note="Loop nests up to depth 3 with constant bounds; up to four helper functions with random markings.",
)
prop(
    id="C15",
    title="Shift networks move every slot exactly where the mapping says",
    statement=(
        "For every partial mapping of slots onto slots of a set of ciphertexts (permutations, replications, moves between ciphertexts), the "
        "network of masked power-of-two rotations built from any grouping of the sources in which no two sources of a group ever "
        "meet leaves each target slot holding its source's value and all other slots zero. The shift strategy tracks every slot through "
        "every round, whatever the order of the rotations, and ends with each slot at its target; the search returns groups that partition the sources without such "
        "conflicts, also when one search object answers many queries; a mapping that is offered several sources for a target keeps a closest one."
    ),
    over=["inputs", "histories"],
    quant="all mappings, numbers of ciphertexts, power-of-two slot counts, rotation orders, groupings and sequences of queries",
    why="The tests try a few mappings; collisions in intermediate rounds and wrap-around between ciphertexts depend on the exact mapping.",
    files=["lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.h", "lib/Dialect/TensorExt/Transforms/RotationGroupKernel.h", "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.cpp"],
    mech=[("shift strategy", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"), ("network construction", "lib/Dialect/TensorExt/Transforms/RotationGroupKernel.h"), ("search for rotation groups", "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.cpp")],
    technique="property-based testing: circuits executed by an independent interpreter against the mapping, positions against a model",
    note="Up to 5 ciphertexts of 16 slots; groupings are random conflict-free ones as well as those the search returns.",
)
prop(
    id="C16",
    title="Noise models follow their published formulas and bound real noise",
    statement=(
        "For every ring dimension, modulus chain, digit count, plaintext modulus (up to 60 bits), encryption kind and sequence of operations, each BGV and BFV noise model "
        "(coefficient bound worst case and average case, coefficient variance, canonical embedding) reports for encryption, constants, addition, multiplication, "
        "relinearization and modulus reduction the noise its documented formula gives, with the tracked degree; the bound, total and budget follow from it at "
        "every level; joining two states keeps the larger. In BGV the worst-case bound is never exceeded by the noise of real ciphertexts, and a ciphertext "
        "with budget left decrypts to the value computed in the clear."
    ),
    over=["inputs", "histories"],
    quant="all parameters, all circuits and levels, including noise of thousands of bits and moduli whose square does not fit 64 bits",
    why="Parameter selection and validation rest on these numbers; the only tests look at the messages of a pass for one or two programs.",
    files=["lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp", "lib/Analysis/NoiseAnalysis/Noise.cpp", "lib/Analysis/NoiseAnalysis/Noise.h"],
    mech=[("BGV models", "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp"), ("BFV models", "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp"), ("noise states", "lib/Analysis/NoiseAnalysis/Noise.cpp")],
    technique="property-based testing: reference models in extended precision, and a toy BGV scheme whose measured noise is compared with the bounds",
    note="Formulas are recomputed in the linear domain in long double; circuits of up to 10 operations. The toy scheme has rings of 4 to 16 coefficients, up to 4 moduli and hybrid key switching.",
)
prop(
    id="C17",
    title="Generated encryption parameters are secure, distinct and well-formed",
    statement=(
        "The ring dimension chosen is the smallest standard one that is at least the minimum and whose 128-bit security limit covers log2(QP) (rounded down to a bit). "
        "Concrete BGV and CKKS parameters have as many moduli as asked for, each at least the size asked for (CKKS: within one bit of the scale), "
        "all ciphertext and special moduli are distinct primes that are 1 modulo 2N and differ from the plaintext modulus, the special modulus covers a digit, and the recorded level, "
        "digit count, logarithms, scale and flags agree with them; conservative parameters use 60-bit moduli. Parameters read back from a module attribute are the ones in the attribute."
    ),
    over=["inputs"],
    quant="all moduli sizes, levels, slot counts, plaintext moduli (including ones that collide with a modulus), encryption kinds",
    why="A repeated prime or a dimension below the table breaks decryption or security silently; the tests show two or three parameter sets.",
    files=["lib/Parameters/RLWEParams.cpp", "lib/Parameters/RLWESecurityParams.cpp", "lib/Parameters/BGV/Params.cpp", "lib/Parameters/CKKS/Params.cpp", "lib/Dialect/CKKS/IR/CKKSAttributes.cpp"],
    mech=[("moduli search", "lib/Parameters/RLWEParams.cpp"), ("security table", "lib/Parameters/RLWESecurityParams.cpp"), ("BGV parameters", "lib/Parameters/BGV/Params.cpp"), ("CKKS parameters", "lib/Parameters/CKKS/Params.cpp"), ("CKKS attribute", "lib/Dialect/CKKS/IR/CKKSAttributes.cpp")],
    technique="property-based testing: invariants of the generated parameters checked with independent primality and table look-ups",
    note="OpenFHE's prime generators are replaced by a stand-in with the same selection rules, since OpenFHE is not installed here.",
)
prop(
    id="C18",
    title="Conv-pool fusion and the linalg clean-ups keep every result",
    statement=(
        "A convolution with the fused filter (strides multiplied, no dilation) equals the convolution followed by the sum over each pooling window and the scale, for integers modulo "
        "their width and for floats; a scaling factor is reported only for an operation that multiplies each pooled element by it. Linalg canonicalization leaves every result of a "
        "program unchanged: convolutions and poolings with their initial values and a following scaling, constant fills, transposes, broadcasts and slices, "
        "elementwise generics and maps, and products with a transposed matrix."
    ),
    over=["inputs"],
    quant="all shapes, strides, dilations, windows, scales, element types, constants; operands used in any order, captured scalars, several results, other uses of the intermediate values",
    why="The clean-ups run before layout on every imported model; the tests match the printed output of one program per pattern and the existing fuzz test covers only the float filter.",
    files=["lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp", "lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp"],
    mech=[("filter fusion and scale matching", "lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp"), ("rewrite patterns", "lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp")],
    technique="property-based testing: differential runs of generated linalg programs before and after the pass on a reference interpreter, and a direct convolution reference",
    note="Rank at most 4, dimensions at most 4; dense_resource constants, dynamic shapes and permuted output maps (on which MLIR's own pattern does not converge) are not generated.",
)
prop(
    id="C19",
    title="The Python frontend's MLIR computes what the Python function computes",
    statement=(
        "The MLIR the Python frontend emits for an annotated function is valid, its arguments have the annotated types and shapes and are secret exactly where annotated, and running it gives "
        "what the Python function gives: assignments, literals, + - * & ^ << >> and comparisons on integers, bools and floats of mixed widths (an operation works at the width of its wider operand; "
        "bools are 0 or 1), // and % on non-negative operands, casts, if/else with early returns, for loops over range (start, stop, step) with any number of carried values and use of the index, "
        "and elementwise tensor arithmetic. Code it does not support is rejected, never mistranslated. A cast is also a value plain Python computes with, so the original function still runs."
    ),
    over=["inputs"],
    quant="all functions built from the supported constructs, all argument types and values",
    why="Control flow is rebuilt from bytecode and every operand pair needs its own extension; the tests compile a few functions and look at the printed text.",
    files=["frontend/heir/mlir_emitter.py", "frontend/heir/mlir/types.py", "frontend/heir/numba_nbep1_reverter.py"],
    mech=[("emitter", "frontend/heir/mlir_emitter.py"), ("types and annotations", "frontend/heir/mlir/types.py"), ("typing of integers", "frontend/heir/numba_nbep1_reverter.py")],
    technique="property-based testing: generated functions executed as Python and, once translated, on a reference interpreter of MLIR",
    note="Loops are not nested, ifs are not inside loops, and/or/not are not generated (the frontend rejects them). // and % of negative numbers round towards zero: known finding.",
)
prop(
    id="C20",
    title="A compiled Python function runs its own program with its own keys",
    statement=(
        "Compiling a Python function or an MLIR string passes the program through shape inference, the requested lowering options and the backend, each on the result of the one before, under an "
        "identifier no other function has; the caller's options stay as they are, scratch files are removed unless debugging, and a failing tool or unsupported signature is reported, never taken for a result. "
        "The object made always uses the module of its own program: setup makes a configured context with its keys; encrypt_x encrypts argument x with the context and public key in force or given; eval passes "
        "every argument in its position and rejects an argument encrypted for another one, unencrypted secrets and encrypted public values; decrypt_result uses the secret key; calling does all of it; "
        "using keys before setup is an error; original is the Python function. The cleartext backend computes that function."
    ),
    over=["inputs", "histories"],
    quant="all signatures, programs sharing a name, options, failing tools; all sequences of client operations on several compiled programs",
    why="A swapped argument or a module of an earlier compilation gives a wrong result without any error; the end-to-end tests need the real tools and call each function once.",
    files=["frontend/heir/pipeline.py", "frontend/heir/backends/openfhe/backend.py", "frontend/heir/backends/cleartext.py", "frontend/heir/backends/util/common.py", "frontend/heir/mlir/types.py", "frontend/heir/interfaces.py"],
    mech=[("pipeline", "frontend/heir/pipeline.py"), ("OpenFHE client", "frontend/heir/backends/openfhe/backend.py"), ("cleartext client", "frontend/heir/backends/cleartext.py"), ("argument checks", "frontend/heir/backends/util/common.py")],
    technique="property-based testing: model-based sequences of client operations on real extension modules, with logging stand-ins for heir-opt and heir-translate",
    note="heir-opt, heir-translate and OpenFHE are not built here: stand-ins log their calls and the generated module records what its functions are called with.",
)
prop(
    id="C21",
    title="The Python package finds and calls its tools as documented",
    statement=(
        "heir-opt, heir-translate, abc and the techmaps are taken from their environment variable, else the development build if it exists, else PATH; a missing required tool is an error. "
        "The repository's root is the marker's or the topmost ancestor holding a build. OpenFHE settings from the environment are used whole or refused: colon-separated include directories and libraries "
        "without empty entries, prefixed with the runfiles directory, the parent of an openfhe directory added, the split or single libraries found whatever their letter case; without settings the development build is used. "
        "The C++ compiler (CXX, CC, then PATH) and every tool get exactly the given arguments and input, libraries after the source; a failure raises an error with the tool's output. The installed commands hand through arguments and exit code."
    ),
    over=["inputs"],
    quant="all combinations of environment variables, files present and options, including empty and odd ones",
    why="Each source of configuration can hide another; the tests try one variable at a time and replace the rest with mocks.",
    files=["frontend/heir/heir_cli/heir_cli_config.py", "frontend/heir/heir_cli/heir_cli.py", "frontend/heir/backends/openfhe/config.py", "frontend/heir/backends/util/cpp_compiler.py", "frontend/heir/backends/util/common.py", "frontend/heir/entrypoints.py", "frontend/heir/_extras.py", "frontend/heir/backends/util/pybind_helpers.py"],
    mech=[("tool lookup", "frontend/heir/heir_cli/heir_cli_config.py"), ("tool calls", "frontend/heir/heir_cli/heir_cli.py"), ("OpenFHE configuration", "frontend/heir/backends/openfhe/config.py"), ("compiler calls", "frontend/heir/backends/util/cpp_compiler.py"), ("installed commands", "frontend/heir/entrypoints.py")],
    technique="property-based testing: generated environments and directory trees against a model of the documented order; recording stand-ins for the tools",
    note="An OpenFHE installed under /usr is not simulated, since the prefixes are fixed paths outside the scratch directory.",
)
prop(
    id="C22",
    title="The Rust emitted for tfhe-rs computes what the program computes",
    statement=(
        "For every program in the tfhe_rust or tfhe_rust_bool dialect made of the constructions HEIR's pipelines produce, each tfhe-rs emitter (shortint, shortint with levels, boolean, packed boolean, "
        "high-level API) emits Rust that compiles, and each function run on ciphertexts of any values, with any keys, clear integers, tensors and memrefs, returns what the program computes: "
        "gates, lookup tables, shifts, sums, products, casts and trivial encryptions; clear arithmetic, globals and data files; loops with bounds and steps, loop-carried values; "
        "tensors and memrefs of any rank; calls; one or several results. Levelled operations run after those they depend on, including across loops. Other programs are refused with a diagnostic "
        "or do not compile; they never compute something else, and never crash the emitter."
    ),
    over=["inputs"],
    quant="all programs built from the supported operations, shapes, bounds, constants, and all input values",
    why="The emitters print names, indices, clones and references by hand; the tests compare the text of one program each, and are not run here.",
    files=["lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Target/TfheRust/Utils.cpp", "lib/Utils/TargetUtils.cpp", "lib/Analysis/SelectVariableNames/SelectVariableNames.cpp"],
    mech=[("shortint emitter", "lib/Target/TfheRust/TfheRustEmitter.cpp"), ("boolean emitter", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp"), ("high-level emitter", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp"), ("index expressions", "lib/Utils/TargetUtils.cpp"), ("names", "lib/Analysis/SelectVariableNames/SelectVariableNames.cpp")],
    technique="property-based testing: generated programs emitted, compiled by rustc against stand-ins for the tfhe and rayon crates, run, and compared with the meaning the generator gave them",
    note="tfhe-rs itself is not installed: the stand-in crates hold clear values, and check nothing about keys or noise. Truncation to i1 and arithmetic on constants alone are known findings.",
)
prop(
    id="C23",
    title="The developer scripts produce what they document",
    statement=(
        "lit_to_bazel prints (or runs) the pipeline of a lit test exactly: every word of its RUN lines, continuations, pipes and redirections included, without FileCheck, tools and %s replaced, the file found by path or bazel label; "
        "lit_to_doc shows that command, the input and the output; e2e_to_bazel prints the heir_opt rule's flags, quoted, and source. get_version gives the tag, today's date, or the next unpublished dev release of today. "
        "copy_tblgen_files keeps every pass and dialect section once, sorted, with examples run. disable_mdformat appends its line once to exactly the non-ignored markdown files lacking it. "
        "The templates make every file of a new pass or dialect, rendered, named and flagged as asked, and overwrite nothing unless forced. generate_static_roots lists a primitive 2n-th root for exactly the pairs having one. "
        "author_stats counts every commit of every page that is not excluded; the torch coverage run reports each model's true status, log and shortened error."
    ),
    over=["inputs"],
    quant="all test files, flags, file layouts, labels, release histories, commit histories and options of the documented forms",
    why="The scripts are text manipulation whose mistakes change a command silently; the tests try a few lines each, and several scripts have none.",
    files=["scripts/lit_to_bazel_lib.py", "scripts/e2e_to_bazel_lib.py", "scripts/get_version.py", "scripts/docs/lit_to_doc.py", "scripts/docs/copy_tblgen_files.py", "scripts/disable_mdformat.py", "scripts/templates/templates.py", "scripts/generate_static_roots.py", "scripts/author_stats.py", "scripts/torch_ci/entrypoint.py"],
    mech=[("commands of lit tests", "scripts/lit_to_bazel_lib.py"), ("commands of end-to-end tests", "scripts/e2e_to_bazel_lib.py"), ("versions", "scripts/get_version.py"), ("documentation", "scripts/docs/copy_tblgen_files.py"), ("templates", "scripts/templates/templates.py"), ("coverage run", "scripts/torch_ci/entrypoint.py")],
    technique="property-based testing: generated test files, layouts and histories in scratch directories, against the words and facts the generator put in; stand-ins for bazel, heir-opt, PyPI and GitHub",
    note="Lit tests with several RUN pipelines are not generated (the scripts join them). yaml is not installed: a stand-in reads the front matter.",
)
prop(
    id="C24",
    title="The interfaces emitted for a module declare exactly its functions",
    statement=(
        "For every module of functions over the OpenFHE types, integers, floats, index, tensors and memrefs, with one scheme attribute: the OpenFHE header compiles and declares each function with its C++ parameter and result types "
        "(a struct with fields arg0, arg1, ... when it has several results; a memref is a reference to a std::vector, const when the body neither writes it nor passes it to a call), for each scheme and import style, "
        "with the load_resource helper reading back any data file; the pybind11 module compiles against it and binds each function and each result struct once, with every field; the debug header declares the debug helper once, and nothing else. "
        "Unsupported types, a missing scheme, malformed debug ports and other top-level operations are refused with a diagnostic, never a crash. emit-metadata prints JSON that lists every function with its parameter and result types, in order, or refuses. "
        "emit-c-interface marks exactly the public functions. Sanitized names are identifiers that keep every valid character."
    ),
    over=["inputs"],
    quant="all modules over the supported types, shapes, names and uses, and all data files",
    why="What is emitted is only as good as the C++ compiler finds it; the tests compare a few lines of text and are not run here.",
    files=["lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkeDebugHeaderEmitter.cpp", "lib/Target/OpenFhePke/OpenFheUtils.cpp", "lib/Target/OpenFhePke/OpenFhePkeTemplates.h", "lib/Target/Metadata/MetadataEmitter.cpp", "lib/Analysis/Cpp/ConstQualifierAnalysis.cpp", "lib/Analysis/SelectVariableNames/SelectVariableNames.cpp", "lib/Transforms/EmitCInterface/EmitCInterface.cpp"],
    mech=[("header", "lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.cpp"), ("bindings", "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.cpp"), ("types and signatures", "lib/Target/OpenFhePke/OpenFheUtils.cpp"), ("metadata", "lib/Target/Metadata/MetadataEmitter.cpp"), ("constness", "lib/Analysis/Cpp/ConstQualifierAnalysis.cpp")],
    technique="property-based testing: generated modules; the emitted C++ is compiled with static assertions on every declared type and run against a stand-in for pybind11 that records what is bound",
    note="OpenFHE and pybind11 are stand-ins declaring the types used. The OpenFHE operations do not build against MLIR 20: bodies use memref, affine, scf and func operations only.",
)

prop(
    id="C25",
    title="A module's scheme, backend and target configuration are what was asked",
    statement=(
        "annotate-module and the moduleSet functions leave a module with exactly the scheme and backend attribute last asked for, and every other attribute; an unknown backend is refused. "
        "getTargetConfig returns the facts registered for the module's backend (lattigo: bootstrapping consumes 16 levels, a Chebyshev kernel and no linear-transform kernel; openfhe: 22 levels and the same kernels) overlaid with every override that was persisted, the later replacing the earlier. "
        "apply-config-override accepts key=value for the integer fields, blanks trimmed, value a base-10 64-bit integer; anything else (a missing '=', an unknown key, a malformed value, a module without a backend) fails with a diagnostic, and that override is not persisted. "
        "For every set of target records, the C++ that heir-tblgen generates compiles, registers and finds each target, its override parser, validator and application treat exactly the declared fields, and nothing else changes. "
        "isClientHelper holds exactly for functions with a client attribute."
    ),
    over=["inputs", "histories"],
    quant="all sequences of annotations and overrides, and all target records with the four standard fields and further integer and string fields",
    why="One test file of target records is compared as text; the sequences of annotations and the generated code's behaviour are not run.",
    files=["lib/Tablegen/CompilationTargetEmitter.cpp", "lib/Tablegen/TablegenMain.cpp", "lib/Target/CompilationTarget/CompilationTarget.cpp", "lib/Target/CompilationTarget/RegisterAllBackends.cpp", "lib/Target/Lattigo/TargetConfig.td", "lib/Target/OpenFhePke/TargetConfig.td", "lib/Transforms/AnnotateModule/AnnotateModule.cpp", "lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp", "lib/Dialect/ModuleAttributes.cpp"],
    mech=[("annotation", "lib/Transforms/AnnotateModule/AnnotateModule.cpp"), ("overrides", "lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp"), ("configuration", "lib/Target/CompilationTarget/CompilationTarget.cpp"), ("generator", "lib/Tablegen/CompilationTargetEmitter.cpp"), ("attributes", "lib/Dialect/ModuleAttributes.cpp")],
    technique="stateful property-based testing: annotation histories against a model of the module's attributes; generated target records whose C++ is compiled and run",
    note="Registration hard-codes the four standard fields: values of further fields set by a target record, and string defaults that need escaping, are outside the generated records.",
)

prop(
    id="C26",
    title="Modular arithmetic is exact from mod_arith and RNS to arith",
    statement=(
        "mod_arith add, sub, mul, mac, reduce, constant, encapsulate and standard or centered lift compute the residue of the exact integer result, in [0, q) (centered: [-q/2, q/2)), for every modulus its storage type admits, on scalars, tensors and limb by limb on RNS values. "
        "mod_switch between two moduli keeps the centred integer; into and out of an RNS type of several limbs it is Chinese remaindering. rns.pack, extract_slice and extract_residue select limbs; convert_basis gives the residues of the centred integer, for odd moduli, and refuses even ones. barrett_reduce gives x mod q or that plus q for 0 <= x < q^2; subifge gives x - y if x >= y, else x. "
        "The folders, canonicalizations, convert-to-mac, lower-convert-basis and mod-arith-to-arith keep every result, also under control flow, tensor operations and calls. "
        "Types, attributes and operations are accepted exactly as documented (one spare storage bit; pairwise coprime limbs of equal storage; shapes, widths and moduli matching; indices in range), and print, parse and describe themselves consistently."
    ),
    over=["inputs"],
    quant="all moduli, storage widths, bases, shapes, programs and operand values",
    why="The lit tests compare the text of a handful of lowerings; overflow, boundary residues, unequal widths and folding are reached only by running the arithmetic.",
    files=["lib/Dialect/ModArith/IR/ModArithOps.cpp", "lib/Dialect/ModArith/IR/ModArithTypes.cpp", "lib/Dialect/ModArith/IR/ModArithAttributes.cpp", "lib/Dialect/ModArith/IR/ModArithCanonicalization.td", "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp", "lib/Dialect/ModArith/Transforms/ConvertToMac.cpp", "lib/Dialect/RNS/IR/RNSOps.cpp", "lib/Dialect/RNS/IR/RNSTypes.cpp", "lib/Dialect/RNS/IR/RNSAttributes.cpp", "lib/Dialect/RNS/Transforms/LowerConvertBasis.cpp", "lib/Utils/APIntUtils.cpp"],
    mech=[("folders and verifiers", "lib/Dialect/ModArith/IR/ModArithOps.cpp"), ("lowering", "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp"), ("multiply-accumulate", "lib/Dialect/ModArith/Transforms/ConvertToMac.cpp"), ("residue number systems", "lib/Dialect/RNS/IR/RNSOps.cpp"), ("basis conversion", "lib/Dialect/RNS/Transforms/LowerConvertBasis.cpp"), ("types", "lib/Dialect/RNS/IR/RNSTypes.cpp")],
    technique="property-based testing: generated modular programs interpreted before and after each pass against exact integer arithmetic; generated types and operations against a model of what is accepted",
    note="Not judged: mod_switch at (q-1)/2 of an odd modulus, on tensors, and for one-limb RNS types; rns.constant and arith.select of residues, which have no lowering. The centred lift modulo 2^(N-1)-1 in iN is a known finding.",
)

prop(
    id="C27",
    title="Secret-dependent control flow becomes data-oblivious, results unchanged",
    statement=(
        "convert-if-to-select, convert-secret-extract-to-static-extract, convert-secret-insert-to-static-insert, convert-secret-for-to-static-for (with and without converting all scf.for), convert-secret-while-to-static-for and the pipeline convert-to-data-oblivious keep every result of a program whose loop attributes (lower, upper, max_iter) cover its iterations, end, and leave valid IR; "
        "whatever steps, bounds, carried values, nesting and yields its loops have. "
        "After the pipeline no branch condition, loop trip count or subscript depends on a secret, in secret.generic bodies and in functions with secret.secret arguments, unless an error says that a branch could not be converted. "
        "annotate-secretness (verbose) marks a value secret exactly if it depends on a secret argument through operands, loop-carried values, branch results and regions, and public otherwise, unreachable code aside; operations and results are otherwise unchanged."
    ),
    over=["inputs"],
    quant="all programs with secret conditions, loop bounds and 1-D subscripts, and all their inputs",
    why="The lit tests compare the text of a few programs; that results are kept and nothing secret is left in control flow or addresses can only be seen by running programs on many inputs.",
    files=["lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp", "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp", "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp", "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp", "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h", "lib/Transforms/AnnotateSecretness/AnnotateSecretness.cpp", "lib/Pipelines/PipelineRegistration.cpp"],
    mech=[("branches", "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp"), ("reads", "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp"), ("writes", "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp"), ("counted loops", "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp"), ("while loops", "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp"), ("analysis", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp")],
    technique="property-based testing: generated programs interpreted before and after each pass; non-interference of the recorded branch, trip-count and address trace under changed secrets; a reference taint model for the analysis",
    note="Accesses to tensors of rank other than 1 are documented as unsupported. A loop bound or while condition that a secret branch or loop assigns (implicit flow) is a known finding.",
)

prop(
    id="C28",
    title="Passes over secret.generic keep the program's plaintext meaning",
    statement=(
        "With secret.conceal, reveal and cast read as their plaintext meaning and a secret.generic as its body run on its operands, these keep every result of a program, leave valid IR, and keep the attributes of a generic's operands and results (__argattrs, __resattrs) on the right ones, also through printing and parsing: "
        "canonicalization; secret-distribute-generic (every operation, or every listed one, alone in its generic); secret-capture-generic-ambient-scope (no outside value used in a body); secret-merge-adjacent-generics (no adjacent generics left); secret-generic-absorb-constants (no constant from outside used); secret-extract-generic-body (a body is one call); "
        "secret-forget-secrets (no secret types or operations left; casts between integers and tensors of bits take bits least significant first); "
        "secretize and wrap-generic (exactly the annotated arguments of the chosen function, and all its results, become secret)."
    ),
    over=["inputs"],
    quant="all programs of plain operations, conceals, reveals, casts and generics over scalars and tensors, and all their inputs",
    why="The lit tests compare the text of a few generics; operand order, captured values, loop-carried values, shared constants and attributes that drift are seen only by running many programs.",
    files=["lib/Dialect/Secret/IR/SecretOps.cpp", "lib/Dialect/Secret/IR/SecretPatterns.cpp", "lib/Dialect/Secret/Transforms/DistributeGeneric.cpp", "lib/Dialect/Secret/Transforms/CaptureGenericAmbientScope.cpp", "lib/Dialect/Secret/Transforms/MergeAdjacentGenerics.cpp", "lib/Dialect/Secret/Transforms/GenericAbsorbConstants.cpp", "lib/Dialect/Secret/Transforms/ExtractGenericBody.cpp", "lib/Dialect/Secret/Transforms/ForgetSecrets.cpp", "lib/Transforms/Secretize/Secretize.cpp", "lib/Transforms/Secretize/WrapGeneric.cpp", "lib/Utils/AttributeUtils.cpp", "lib/Utils/TransformUtils.cpp"],
    mech=[("operations and folding", "lib/Dialect/Secret/IR/SecretOps.cpp"), ("patterns", "lib/Dialect/Secret/IR/SecretPatterns.cpp"), ("distribution", "lib/Dialect/Secret/Transforms/DistributeGeneric.cpp"), ("capture", "lib/Dialect/Secret/Transforms/CaptureGenericAmbientScope.cpp"), ("extraction", "lib/Dialect/Secret/Transforms/ExtractGenericBody.cpp"), ("forgetting", "lib/Dialect/Secret/Transforms/ForgetSecrets.cpp"), ("wrapping", "lib/Transforms/Secretize/WrapGeneric.cpp")],
    technique="property-based testing: generated programs with secret.generics interpreted before and after each pass, with a structural postcondition per pass",
    note="Not judged: secret-distribute-generic with loops inside generic bodies, forget-secrets with loops that carry secrets (refused loudly), attributes on results of operations with several results, memrefs.",
)

prop(
    id="C29",
    title="Polynomial approximations are near-best, and lowering evaluates them",
    statement=(
        "Chebyshev points are the extrema in ascending order; interpolation returns the coefficients of the polynomial through the given values, for even and odd values too; the automatic degree is at most the maximum and leaves an error small relative to the largest value. "
        "The Caratheodory-Fejer approximation of degree d of a function on [lower, upper] has degree at most d, an error close to the least possible, and depends only on the function on that interval. "
        "polynomial-approximation replaces each supported math and arith operation on a secret operand (unary; max, min, pow, atan2, copysign with a constant on either side; composite ReLU) by the polynomial of the requested degree and domain (defaults as documented), exp by (1+x/2^k)^(2^k) when the domain lies in [-2^k, 1], fpowi by multiplications; refuses empty domains and functions undefined on the domain with a message; and leaves public operations alone. "
        "lower-polynomial-eval (horner, ps, pscheb, auto) replaces polynomial.eval by operations that compute the polynomial at every input, Chebyshev ones at inputs mapped from the domain to [-1, 1]; a polynomial survives printing and parsing."
    ),
    over=["inputs"],
    quant="all functions, degrees, domains, coefficient lists, scalar and tensor types, operand orders and inputs",
    why="The unit tests approximate a handful of functions at fixed degrees and the lit tests compare text; accuracy over the whole domain and agreement of the lowered code with the polynomial need many functions, degrees and inputs.",
    files=["lib/Utils/Approximation/CaratheodoryFejer.cpp", "lib/Utils/Approximation/Chebyshev.cpp", "lib/Transforms/PolynomialApproximation/PolynomialApproximation.cpp", "lib/Transforms/LowerPolynomialEval/LowerPolynomialEval.cpp", "lib/Transforms/LowerPolynomialEval/Patterns.cpp", "lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp", "lib/Utils/Polynomial/Polynomial.h"],
    mech=[("interpolation", "lib/Utils/Approximation/Chebyshev.cpp"), ("approximation", "lib/Utils/Approximation/CaratheodoryFejer.cpp"), ("replacing operations", "lib/Transforms/PolynomialApproximation/PolynomialApproximation.cpp"), ("lowering", "lib/Transforms/LowerPolynomialEval/Patterns.cpp")],
    technique="property-based testing: generated functions compared with a Remez-style bound on the best error; generated programs lowered and interpreted against the function and against Clenshaw evaluation of the chosen polynomial",
    note="Not judged: erfc (absent from the installed MLIR), functions unbounded on the domain, the kernel.eval_chebyshev path for Lattigo.",
)

prop(
    id="C30",
    title="Rewrites with rotations and masks keep every value",
    statement=(
        "tensor_ext.rotate rotates the last axis left (right for negative shifts), modulo its size. "
        "Canonicalization of rotations (folding constants, normalizing, dropping and combining shifts, moving rotations through additions, subtractions and products, extracting from a rotated tensor), insert-rotate on programs of extracts, scalar arithmetic and inserts, collapse-insertion-chains, and fold-plaintext-masks leave valid programs that compute the same values as before. "
        "RotationAnalysis reports the shifts, modulo the slot count, that the rotations of a program use (and no others, unless of branches not taken), in and out of scf.for loops, with shifts computed from induction variables and carried indices, with arith.divsi, constant tables and scf.if."
    ),
    over=["inputs"],
    quant="all programs of rotations, element-wise arithmetic, constants, extracts, inserts and scf.for loops, all tensor sizes, element types, shifts and inputs",
    why="The lit tests compare the text of a few programs, mostly with power-of-two sizes and shifts in range; equality of values over combinations of rewrites, sizes and negative or large shifts needs many programs.",
    files=["lib/Dialect/TensorExt/IR/TensorExtOps.cpp", "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td", "lib/Dialect/TensorExt/Transforms/InsertRotate.td", "lib/Dialect/TensorExt/Transforms/InsertRotate.cpp", "lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp", "lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp", "lib/Analysis/RotationAnalysis/RotationAnalysis.cpp", "lib/Analysis/RotationAnalysis/DagBuilder.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"],
    mech=[("canonicalization", "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td"), ("alignment", "lib/Dialect/TensorExt/Transforms/InsertRotate.td"), ("chains", "lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp"), ("rotation indices", "lib/Analysis/RotationAnalysis/RotationAnalysis.cpp")],
    technique="property-based testing: generated programs interpreted before and after each rewrite; executed shifts compared with the analysis",
    note="Not judged: insert-rotate on tensors of different shapes, rotate-and-reduce's search for reductions, loops with data-dependent bounds.",
)
