T_ = "lib/Transforms/"
D_ = "lib/Dialect/"
TV = "TLA+ trace conformance (TLC) over generated inputs"
prop("C01", "Packed ciphertexts compute what the program says",
"""For every program of tensor arithmetic the arithmetic pipeline accepts (elementwise operations, matvec, dot, matmul, reductions, convolutions, reshapes, slices, padding,
extraction, insertion, loops), encrypting the arguments with the generated client code, running the generated ciphertext program and decrypting its results gives what the
original program computes, for every argument, every slot count and every packing option, whichever layouts and kernels the compiler chose. Elementwise arithmetic,
matvec, dot, collapse, slice and element extraction, padding and loops over them are accepted.""",
["inputs", "configurations"], "all programs of the supported tensor operations and shapes, all arguments, slot counts, code generation strategies and loop options",
"The tests match printed loops and layouts of single operations, and run a handful of kernels; the layouts of a whole program are never composed and decoded.",
[T_ + "LayoutPropagation", T_ + "LayoutOptimization", T_ + "ConvertToCiphertextSemantics", T_ + "AddClientInterface", T_ + "FoldPlaintextMasks", T_ + "DropUnitDims",
 D_ + "TensorExt", "lib/Utils/Layout", "lib/Kernel", "lib/Pipelines"],
[("layouts", T_ + "LayoutPropagation/LayoutPropagation.cpp"), ("layout choice", T_ + "LayoutOptimization/LayoutOptimization.cpp"),
 ("kernels", T_ + "ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp"), ("client code", T_ + "AddClientInterface/AddClientInterface.cpp"),
 ("pipeline", "lib/Pipelines/ArithmeticPipelineRegistration.cpp")],
"TLA+ abstract machine (HeirMachine.tla, Programs.tla) run by TLC on the program and on the compiled client and server code together", "Random tensor programs go through --mlir-to-secret-arithmetic; the machine runs encrypt, compute and decrypt of the emitted module and TLC compares each result with the original program's.", level="translation_validation")

prop("C02", "Homomorphic kernels compute the linear algebra they implement",
 """Every packed-ciphertext kernel (matrix-vector product by diagonals and by baby-step/giant-step, rotate-and-reduce, dot product,
 broadcasted reduction, bicyclic and tricyclic matrix products), built for any admissible shape, slot count, set of zero diagonals and
 in unrolled or loop form, evaluates slot by slot to the mathematical function it stands for. Evaluating the kernel's operation graph
 gives the value of that graph under the plain meaning of its operations.""",
 ["inputs", "configurations"], "all shapes, slot counts, declared-zero diagonals, loop forms and data; every operation graph built from the public node constructors",
 "The unit tests try a few sizes per kernel with one data set each; shape-dependent index arithmetic (non-square, non-divisible baby step counts, zero diagonals) is not reached.",
 ["lib/Kernel/KernelImplementation.h", "lib/Kernel/KernelImplementation.cpp", "lib/Kernel/EvalVisitor.cpp", "lib/Kernel/ArithmeticDag.h"],
 [("kernel graph builders", "lib/Kernel/KernelImplementation.h"), ("graph evaluator", "lib/Kernel/EvalVisitor.cpp")],
 TV, "Kernel operation graphs are exported from the real builders, given their meaning in ArithDag.tla, and compared by TLC with the function of the kernel (Kernels.tla) and with the real evaluator; random graphs exercise every node kind.",
 observe=["kernel builders and evaluator public functions"])
prop("C03", "Rotation counts and rotation key sets are exactly those of the computation",
 """The set of rotation amounts reported for a kernel is the set of nonzero rotations (reduced by the slot count) its evaluation performs, so that
 exactly the keys needed are generated, and the rotation amounts predicted in advance for rotate-and-reduce and for linear transforms cover them.
 The reported rotation cost is the number of distinct rotations of secret values that the computation executes, loops included.""",
 ["inputs", "configurations"], "all kernels, shapes, loop forms, diagonal sets and operation graphs",
 "The tests fix a handful of (period, steps, diagonals) tuples; a missing or superfluous rotation shows only for other splits.",
 ["lib/Kernel/RotationCountVisitor.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", "lib/Utils/RotationUtils.cpp"],
 [("rotation counting over the operation graph", "lib/Kernel/RotationCountVisitor.cpp"), ("rotation index evaluation", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"), ("closed-form index prediction", "lib/Utils/RotationUtils.cpp")],
 TV, "Counts, index sets and predictions returned by the real analyses are compared by TLC with the rotations of the specified execution of the same exported graph.")
prop("C09", "Arithmetic helpers return the mathematical value at every width",
 """Modular inverse, modular product and power, primality, factorisation, primitive roots, powers of two, conversion between floating point
 formats (nearest, ties to even), log-domain sums and products, row-major, diagonal and one-dimensional layout maps, index flattening and
 reassociation return the exact mathematical result for every argument in their domain, at every word width, without overflow.""",
 ["inputs"], "all operands and word widths, tight words included; all shapes and ranks for index maps",
 "Tests use two or three operand sets per helper; overflow, non-coprime operands, strong pseudoprimes, subnormal or tie rounding and ranks above two are not reached.",
 ["lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/LogArithmetic.cpp", "lib/Utils/AffineMapUtils.cpp", "lib/Utils/TensorUtils.cpp", "lib/Utils/TargetUtils.cpp"],
 [("modular arithmetic and number theory", "lib/Utils/APIntUtils.cpp"), ("primality, factors, float formats", "lib/Utils/MathUtils.cpp"), ("log2 arithmetic", "lib/Utils/LogArithmetic.cpp"), ("layout affine maps", "lib/Utils/AffineMapUtils.cpp")],
 TV, "Answers of the real helpers (small domains completely, large words sampled) are decided by TLC against Arith.tla/BigNat.tla, with number-theoretic witnesses (Pratt trees, quotients) that TLC verifies.")
prop("C10", "Graph algorithms satisfy their definitions on every graph",
 """On every history of vertex, edge, weight, contraction and condensation operations the directed graph holds exactly the specified vertices and edges;
 topological orders exist exactly for acyclic graphs and respect every edge (also in the deterministic variant), levels, strongly connected components,
 shortest and longest paths, and condensation are what the definitions say; greedy colouring of an undirected graph never gives two adjacent vertices one colour.""",
 ["inputs", "histories"], "all graphs and operation sequences, self loops, parallel paths, disconnected and cyclic graphs included",
 "The tests contain a few hand drawn graphs; wrong predecessors, self loops or tie handling show on other topologies only.",
 ["lib/Utils/Graph/Graph.h"],
 [("graph container and algorithms", "lib/Utils/Graph/Graph.h")],
 "TLA+ state machine of the graph; histories replayed into the real container and every observation decided by TLC", "All digraphs up to three vertices (four in thorough) and long random histories are replayed; every observation is checked by TLC against Graphs.tla.",
 observe=["Graph<V> and UndirectedGraph<V> public methods"], state=["vertex and edge sets, weights"])
prop("C07", "Polynomial ring, NTT and RNS arithmetic is exact",
 """Adding, subtracting, multiplying, scaling, shifting, composing and canonicalising polynomials gives the polynomial of the ring, whatever the exponents and
 zero terms. The forward transform evaluates at the odd powers of the root in bit-reversed order and the inverse undoes it, for every power-of-two
 length, prime modulus and word-size operand. RNS polynomial addition, subtraction, scalar and negacyclic multiplication, slicing and conversion between forms
 are exact in every limb, up to 64-bit moduli, and refuse exactly the parameters for which no transform exists.""",
 ["inputs"], "all sparse polynomials; all lengths, moduli, roots and residues",
 "Unit tests add polynomials with few exponent patterns and transform one or two vectors with small moduli.",
 ["lib/Utils/Polynomial/Polynomial.h", "lib/Utils/Polynomial/Polynomial.cpp", "lib/Utils/Polynomial/NTT.cpp", "lib/Utils/Polynomial/RNSPolynomial.cpp"],
 [("polynomial base class", "lib/Utils/Polynomial/Polynomial.h"), ("transform", "lib/Utils/Polynomial/NTT.cpp"), ("RNS polynomials", "lib/Utils/Polynomial/RNSPolynomial.cpp")],
 TV, "Results of the real classes are decided by TLC against Poly.tla: coefficient functions, the transform by its defining sum (all vectors for tiny q^n, 64-bit moduli through BigNat with checked quotients), negacyclic products coefficient by coefficient.")
prop("C08", "Polynomial evaluation and approximation compute the intended polynomial",
 """Horner, Paterson-Stockmeyer (monomial and Chebyshev) and the power and Chebyshev ladders build operation graphs whose value is the given polynomial at every
 point, with constants of the requested tensor shape and with optimal multiplicative depth for the ladders. Decomposition by T_k, change of basis and composition with
 linear maps preserve the polynomial. Chebyshev interpolation reproduces polynomials of smaller degree and interpolates any samples; adaptive approximation
 reaches its accuracy on smooth functions, does not depend on the scale of the function, and Caratheodory-Fejer stays near the truncation error.""",
 ["inputs"], "all degrees, sparsity patterns, coefficient vectors, symmetric and asymmetric sample vectors",
 "Unit tests evaluate a few polynomials and compare a few coefficients; degree-specific splits, symmetric-but-one samples and scaling are not covered.",
 ["lib/Utils/Polynomial", "lib/Utils/Approximation"],
 [("evaluation graphs", "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"), ("monomial evaluation", "lib/Utils/Polynomial/PatersonStockmeyer.h"), ("decomposition", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp"), ("interpolation and chopping", "lib/Utils/Approximation/Chebyshev.cpp")],
 TV, "Exported evaluation graphs run in PolyEval.tla over a prime field at degree+1 points, which decides polynomial identity; depth is computed on the graph; interpolation and approximation results are compared in scaled integers. Floating-point error bounds are sampled on grids.")
prop("C06", "Shift networks realise their slot mapping",
 """For every mapping of ciphertext slots (permutations, replications, partial maps, several ciphertexts) and every order of rotation rounds, the groups chosen by
 the strategy are free of collisions, and the kernel built from them moves exactly the mapped source slot to each target and leaves zero in unmapped
 targets. A cached network is only reused for the mapping it was computed for.""",
 ["inputs", "configurations", "histories"], "all mappings, slot counts, ciphertext counts, rotation orders and sequences of cached queries",
 "The tests check a few permutations of 8 or 16 slots; collisions and cross-ciphertext moves occur only for particular mappings and orders.",
 ["lib/Dialect/TensorExt/Transforms/ShiftScheme.h", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp", "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.cpp"],
 [("shift strategy and groups", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"), ("network construction", "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.cpp")],
 "TLA+ model checking of the shift machine (TLC) and trace conformance of the real networks", "ShiftMachine.tla proves that every collision-free group moves every token to its target in any round order; ShiftNet.tla recomputes rounds, collisions and the value of the real network for all tiny and many random mappings.")
LAY = ["lib/Utils/Layout/Utils.cpp", "lib/Utils/Layout/Utils.h"]
prop("C04", "Packing layouts place every element exactly where they are specified to",
 """Row-major, diagonal, per-row, bicyclic, tricyclic, bicyclic-diagonal and replicated layouts hold exactly the specified (index, ciphertext, slot) points for
 every shape and slot count, so packing puts each element into all of its slots and unpacking returns it. Collapsing, expanding, slicing, inserting, padding,
 shifting and fixing dimensions, folding a permutation into a matrix layout and hoisting a conversion through a matrix-vector product
 transform a layout into exactly the layout of the transformed tensor.""",
 ["inputs", "configurations"], "all shapes, ranks, slot counts, reassociations, slices, paddings and source layouts",
 "Tests check a few points of a few shapes; sizes that do not divide, unit dimensions in several groups and kept unit slice dimensions are not reached.",
 LAY + ["lib/Utils/Layout/Hoisting.cpp", "lib/Utils/Layout/Evaluate.h"],
 [("layout constructors and transformations", "lib/Utils/Layout/Utils.cpp"), ("packing and unpacking", "lib/Utils/Layout/Evaluate.h"), ("hoisting", "lib/Utils/Layout/Hoisting.cpp")],
 TV, "Layout.tla gives every layout expression its set of points; the points, membership and packings of the real relations must be that set.")
prop("C05", "Convolution layouts are the convolution's matrix",
 """The filter relation of a one- or two-dimensional convolution, with any stride, padding and number of channels, places filter element k in row o and column j
 exactly when output o is computed from input j with that element, and has the expanded matrix type it announces. Its diagonalised form, the row
 interchange (pixel shuffle), the step-by-step form and the result layouts agree with each other, so that the packed
 product yields the convolution and unpacks in the right order.""",
 ["inputs", "configurations"], "all filter and data shapes, strides, paddings, channel counts, slot counts, with and without interchange",
 "Tests use one shape per function, mostly square with stride one.",
 ["lib/Utils/Layout/Convolution.cpp", "lib/Utils/Layout/Convolution.h"],
 [("filter, interchange and result relations", "lib/Utils/Layout/Convolution.cpp")],
 TV, "Layout.tla defines the matrix of a convolution, its interchange and diagonals; points of the real relations (for the sequence form, of their composition) must be those.")
prop("C27", "Answers about layout relations are true of their points",
 """Converting a relation to isl and back keeps its points. Enumeration, ranges, single points, sizes, missing ciphertexts and density are exactly those of the
 point set. Two relations reported equal are equal, a relation reported to be row-major, diagonal, per-row, bicyclic, tricyclic, a convolution or a
 permutation is one, and a layout is recognised by its own recogniser. Generated loop nests visit every point of the relation exactly once.""",
 ["inputs"], "all bounded integer relations with equalities, inequalities and modulo constraints, and all layouts",
 "Tests convert and enumerate a few relations; local variables, negative bounds, strided loops and near-misses of a layout are not reached.",
 LAY + ["lib/Utils/Layout/IslConversion.cpp", "lib/Utils/Layout/Codegen.cpp"],
 [("isl conversion", "lib/Utils/Layout/IslConversion.cpp"), ("enumeration, recognition, equality", "lib/Utils/Layout/Utils.cpp"), ("loop generation", "lib/Utils/Layout/Codegen.cpp")],
 TV, "Random relations and layouts have their point sets in Layout.tla; every answer of the real code, and the points visited by the compiled loop nests, are decided against them.")
prop("C13", "Memory and loop rewriting preserve what a program computes",
 """Forwarding stores to loads and insertions to extractions, removing unused memrefs and unused pure calls, expanding copies and globals, extracting loop
 bodies and unrolling loops leave unchanged, on every input for which the program is defined, the values it returns and the memory of its arguments.""",
 ["inputs", "configurations"], "all programs of the affine, memref, scf, tensor and arith fragment these passes accept, and all their inputs",
 "The tests match the text of a few straight-line functions; stores through unknown indices, calls in between and nested regions are not reached.",
 ["lib/Transforms/ForwardStoreToLoad", "lib/Transforms/ForwardInsertToExtract", "lib/Transforms/ForwardInsertSliceToExtractSlice", "lib/Transforms/UnusedMemRef", "lib/Transforms/FullLoopUnroll",
  "lib/Transforms/MemrefToArith", "lib/Transforms/RemoveUnusedPureCall"],
 [("store and insertion forwarding", "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp"), ("unused memrefs", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp"), ("loop unrolling", "lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp"),
  ("memref expansion, loop bodies", "lib/Transforms/MemrefToArith")],
 "TLA+ abstract machine for MLIR (HeirMachine.tla): translation validation of random programs by TLC", "Random programs go through the real passes; TLC executes the program before and after in HeirMachine.tla on many inputs and compares results and argument memory.", level="translation_validation")
NZ = "lib/Analysis/NoiseAnalysis"
prop("C11", "Noise bounds follow the published models and never understate the noise",
 """For every parameter set and history of homomorphic operations, the noise the BGV and BFV models (by coefficient bound, by variance, canonical
 embedding) assign to the result is the one their published formulas give, their arithmetic never over- or underflows, bounds grow monotonically where they must,
 and the remaining budget is what the modulus of the ciphertext's level leaves: a history whose noise may exceed it is never reported to decrypt.""",
 ["inputs", "histories", "configurations"], "all ring dimensions, moduli chains, plaintext moduli, key distributions and sequences of operations",
 "Tests compute the noise of a handful of circuits with one parameter set; wide plaintext moduli, long histories and low levels are not reached.",
 [NZ, "lib/Utils/LogArithmetic.h", "lib/Utils/LogArithmetic.cpp"],
 [("BGV models", NZ + "/BGV"), ("BFV models", NZ + "/BFV"), ("noise arithmetic", NZ + "/Noise.cpp")],
 TV, "Noise.tla computes every step of a history in exact floating point built on big naturals (Flt.tla); the real models replay random histories and must agree at every step.")
prop("C12", "Generated parameters are secure, well-formed and as small as they may be",
 """The ring dimension chosen for a modulus is the smallest that the homomorphic encryption security standard allows at 128 bits and that holds the slots asked for.
 Every modulus in a generated BGV, BFV or CKKS parameter set is a prime, congruent 1 mod 2N, of the size asked for, and used once; the chain
 has one modulus per level, the auxiliary moduli cover each key-switching digit, and the recorded logarithms belong to the moduli.""",
 ["inputs", "configurations"], "all requested sizes, levels, slot counts, plaintext moduli and key kinds",
 "Tests generate two or three sets; sizes at the edge of a ring dimension and primes already taken are not reached.",
 ["lib/Parameters"],
 [("security table", "lib/Parameters/RLWESecurityParams.cpp"), ("chain generation", "lib/Parameters/RLWEParams.cpp"), ("BGV sets", "lib/Parameters/BGV/Params.cpp"), ("CKKS sets", "lib/Parameters/CKKS/Params.cpp")],
 TV, "Params.tla states what a parameter set must satisfy, with the security table of the standard and primality by certificates checked in the specification; every set the code generates is decided by it.")
OBL = "lib/Transforms/ConvertSecret"
prop("C14", "Data-oblivious rewriting hides secrets and keeps results",
 """Converting branches on secrets to selections, reads and writes at secret indices to scans, and loops with secret bounds or conditions to static ones changes no
 result, on any input; and after all conversions neither the branches taken, nor trip counts, nor any accessed index of the program depends on secret
 inputs that are used as data, unless a construct was reported as one that cannot be converted.""",
 ["inputs", "configurations"], "all programs of nested branches, counted and conditional loops, tensor reads and writes over secret and public values, and all inputs, pairs of inputs included",
 "The tests match the text of small functions with one construct each; obliviousness relates pairs of runs and cannot be seen in one, and nested constructs expose stale secretness.",
 [OBL + "ExtractToStaticExtract", OBL + "InsertToStaticInsert", OBL + "ForToStaticFor", OBL + "WhileToStaticFor", "lib/Transforms/ConvertIfToSelect", "lib/Analysis/SecretnessAnalysis"],
 [("branches", "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp"), ("indices", OBL + "ExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp"), ("loops", OBL + "WhileToStaticFor/ConvertSecretWhileToStaticFor.cpp"), ("secretness", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp")],
 "TLA+ abstract machine (HeirMachine.tla): translation validation and noninterference of its observable trace, decided by TLC", "HeirMachine.tla records branches, trip counts and addresses; random nested programs rewritten by the real passes must return the same results, and groups of inputs that agree on the public part must leave the same record. Reported refusals are not counted as conversions.", level="translation_validation")
TX = "lib/Dialect/TensorExt/Transforms"
prop("C26", "SIMD vectorization and rotation rewriting preserve results",
 """Turning scalar code over vector elements into SIMD operations and rotations, aligning, merging and folding rotations, recognising reductions and
 implementing rotate-and-reduce operations, collapsing insertion chains and vectorizing straight-line code leave what a program computes unchanged, for
 every shift (negative, larger than the vector, of any type, not constant), every vector length and shape, and every use of intermediate results.""",
 ["inputs", "configurations"], "all programs of rotations, element accesses, elementwise arithmetic and reductions, over all shapes and shifts, and all inputs",
 "The tests match the text for vectors whose length is a power of two and shifts inside it; mixed shift types, other lengths, forks and shared intermediates are not reached.",
 [TX, "lib/Dialect/TensorExt/IR", "lib/Transforms/StraightLineVectorizer", "lib/Kernel/KernelImplementation.h"],
 [("rotation canonicalization", "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td"), ("SIMD insertion", TX + "/InsertRotate.td"), ("insertion chains", TX + "/CollapseInsertionChains.cpp"),
  ("reductions", TX + "/RotateAndReduce.cpp"), ("straight-line vectorizer", "lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp")],
 "TLA+ abstract machine for MLIR (HeirMachine.tla): translation validation of random programs by TLC", "HeirMachine.tla defines rotations, reductions and elementwise arithmetic; random programs go through the real passes and pipelines, and TLC executes before and after on many inputs and compares results.", level="translation_validation")
prop("C29", "Arithmetic, tensor and linalg rewrites preserve results",
 """Balancing trees of operations, rewriting selections to arithmetic, folding constant tensors, turning tensors into scalars or loops, canonicalizing and
 fusing linear operations (matrix products, convolutions, poolings, broadcasts, transposes, maps, reductions, generics) and dropping unit dimensions leave what a
 program computes unchanged, whatever the shapes, initial values, constants, operand order and number of uses of intermediate results.""",
 ["inputs", "configurations"], "all programs of scalar and tensor arithmetic and of linear-algebra operations, over all shapes and constants, and all inputs",
 "The tests match the text for the shapes of one network each; operand order, initial values that are not zero, transposing maps and shared intermediates are not reached.",
 [T_ + p for p in ("OperationBalancer", "SelectRewrite", "FoldConstantTensors", "TensorToScalars", "ElementwiseToAffine", "ApplyFolders", "LinalgCanonicalizations", "LinalgFuseLinearOps", "DropUnitDims", "ReductionCanonicalizations", "TensorLinalgToAffineLoops")],
 [("balancing", T_ + "OperationBalancer/OperationBalancer.cpp"), ("selection", T_ + "SelectRewrite/SelectRewrite.cpp"), ("constants", T_ + "FoldConstantTensors/FoldConstantTensors.cpp"),
  ("scalars", T_ + "TensorToScalars/TensorToScalars.cpp"), ("linalg patterns", T_ + "LinalgCanonicalizations/LinalgCanonicalizations.cpp"), ("linear fusion", T_ + "LinalgFuseLinearOps/LinalgFuseLinearOps.cpp")],
 "TLA+ abstract machine for MLIR (HeirMachine.tla): translation validation of random programs by TLC", "HeirMachine.tla defines integer, field-valued and tensor arithmetic; linalg operations are expanded to their loop semantics; random programs go through each real pass and TLC executes before and after on many inputs.", level="translation_validation")
prop("C18", "Modular and polynomial arithmetic lowers to the integer arithmetic it denotes",
 """Lowering modular, residue-number-system and polynomial operations (sums, products, powers, lifts, modulus switches, Barrett reduction, basis conversion, Chinese remaindering,
 number theoretic transforms, polynomial products and remainders, monomials, coefficient access) to machine integers, and folding and canonicalizing them, computes
 in every ring exactly the element the operations denote, for all moduli and storage widths, signed constants, and polynomials of any degree and modulus.""",
 ["inputs", "configurations"], "all moduli, storage widths, residue bases, polynomial moduli and roots of unity, all programs over them and all inputs",
 "The tests match the text of one operation each with one modulus; overflow at the storage width, constants outside [0, q), several limbs and products whose order matters are not reached.",
 [D_ + "ModArith", D_ + "RNS", D_ + "Polynomial", D_ + "Arith/Conversions/ArithToModArith"],
 [("modular lowering", D_ + "ModArith/Conversions/ModArithToArith/ModArithToArith.cpp"), ("polynomial lowering", D_ + "Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp"),
  ("polynomial folds", D_ + "Polynomial/IR/PolynomialOps.cpp"), ("modular folds", D_ + "ModArith/IR/ModArithOps.cpp"), ("basis conversion", D_ + "RNS/Transforms"), ("NTT insertion", D_ + "Polynomial/Transforms/PolyMulToNTT.cpp")],
 "TLA+ abstract machine for MLIR (HeirMachine.tla): translation validation of random programs by TLC", "HeirMachine.tla defines residues modulo q, residue number systems and polynomial quotient rings mathematically (transforms as sums of powers of the root); random programs go through the real lowerings, folds and rewrites, and TLC executes before and after on many inputs.", level="translation_validation")
prop("C15", "Moving computations in and out of secret regions changes nothing",
 """Wrapping functions with secret arguments into secret regions, capturing what a region uses, absorbing constants and deallocations, merging adjacent regions, splitting a
 region into one per operation, distributing it through loops and branches, hoisting its plaintext part, extracting its body, canonicalizing it and forgetting secrecy
 altogether never change what the program computes, and give valid programs, whatever is shared, captured, carried by a loop or returned twice.""",
 ["inputs", "configurations"], "all programs of secret regions over scalars, tensors and memories, with loops, branches and calls, and all inputs",
 "The tests match the text for one small region each; values used both in and out of a region, carried twice by a loop, or indexing memory by an expression are not reached.",
 [D_ + "Secret/IR", D_ + "Secret/Transforms", T_ + "Secretize"],
 [("region patterns", D_ + "Secret/IR/SecretPatterns.cpp"), ("region editing", D_ + "Secret/IR/SecretOps.cpp"), ("distribution", D_ + "Secret/Transforms/DistributeGeneric.cpp"),
  ("forgetting", D_ + "Secret/Transforms/ForgetSecrets.cpp"), ("extraction", D_ + "Secret/Transforms/ExtractGenericBody.cpp"), ("wrapping", T_ + "Secretize/WrapGeneric.cpp")],
 "TLA+ abstract machine for MLIR (HeirMachine.tla): translation validation of random programs by TLC", "HeirMachine.tla runs secret regions on the values they protect; random programs of regions go through each real pass, and TLC executes before and after on many inputs and compares results.", level="translation_validation")
prop("C16", "Ciphertext management is consistent",
 """When ciphertext maintenance is inserted for BGV, BFV or CKKS, the operands of every operation agree in level and scale, every rescaling lowers the level by one and divides the
 scale by the prime it drops, what is rotated or returned has been relinearized, products are reduced before they are multiplied again, plaintexts are encoded at the
 level and scale of what they meet, no level is negative, and the program still computes the same. Programs are straight-line code and public branches (BGV and CKKS levels,
 CKKS scales), and single loops (CKKS levels, with bootstrapping).""",
 ["inputs", "configurations"], "all programs of sums, products, rotations, branches and loops over ciphertexts and plaintexts, all placements of reductions and all chains of primes",
 "The tests match the text of a few programs; a wrong level or scale decrypts to a wrong result only when the program runs on a real library, which they do not.",
 [T_ + "SecretInsertMgmt", T_ + "PopulateScale", D_ + "Mgmt", "lib/Analysis/LevelAnalysis", "lib/Analysis/ScaleAnalysis", "lib/Analysis/DimensionAnalysis", "lib/Analysis/MulDepthAnalysis"],
 [("insertion", T_ + "SecretInsertMgmt/SecretInsertMgmtPatterns.cpp"), ("levels", "lib/Analysis/LevelAnalysis/LevelAnalysis.cpp"), ("scales", "lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp"),
  ("scale adjustment", T_ + "PopulateScale/PopulateScale.cpp"), ("dimensions", "lib/Analysis/DimensionAnalysis/DimensionAnalysis.cpp"), ("canonicalization", D_ + "Mgmt/IR/MgmtOps.cpp")],
 "TLA+ type system for ciphertexts (Mgmt.tla) and abstract machine (HeirMachine.tla), decided by TLC", "Mgmt.tla states level, dimension and scale of every result from its operands, for all three schemes; random programs go through the real passes for every option, and TLC checks the annotated result against it and runs it.", level="translation_validation")

prop("C21", "A Python function compiles to what Python computes",
 """For every Python function the frontend accepts (assignments, range loops, conditionals, arithmetic, bitwise operators, shifts, comparisons and casts on annotated integers,
 booleans, floats and tensors), the emitted program returns what Python returns for the same arguments, as long as no intermediate integer leaves the width of its
 operands. // and % round as in Python, True counts as 1, variables have the value of their last assignment after branches and loops, and each parameter keeps its
 annotated secrecy and shape. Functions made of the documented constructs are accepted.""",
 ["inputs"], "all functions of the supported Python subset and all arguments for which no integer overflows",
 "The tests of the frontend compile some ten functions and run each on one or two arguments, most of them non-negative.",
 ["frontend/heir/mlir_emitter.py", "frontend/heir/mlir/types.py", "frontend/heir/numba_nbep1_reverter", "frontend/heir/pipeline.py"],
 [("emitter", "frontend/heir/mlir_emitter.py"), ("annotations", "frontend/heir/mlir/types.py"), ("integer typing", "frontend/heir/numba_nbep1_reverter/builtins.py"),
  ("shape inference", T_ + "ShapeInference/ShapeInference.cpp")],
 "TLA+ interpreter of Python functions (Frontend.tla) and abstract machine (HeirMachine.tla), decided by TLC", "Frontend.tla runs the syntax tree of a random function with Python's meaning of every operator; TLC compares it with CPython's answers and with the emitted MLIR run on the machine.", level="translation_validation")

prop("C17", "Lowered to a scheme and a library, a program computes the same, with its keys",
 """For every program that --mlir-to-bgv, --mlir-to-bfv or --mlir-to-ckks and then --scheme-to-openfhe lower, making the context, generating the keys, encrypting the secret arguments,
 calling the function and decrypting its results with the generated helpers gives what the source program computes, both at the scheme and at the library level, for every option of the
 pipelines. Operands of an operation agree in level, the types state the level and the number of components that result, every rotation and multiplication finds its key in the generated
 context, which has enough levels; plaintexts encoded ahead of time are the ones loaded; and no ciphertext is overwritten in place while another value still needs it.""",
 ["inputs", "configurations"], "all lowered programs, slot counts and pipeline options, and all messages",
 "The tests match the text after one pass at a time; the end-to-end examples need the real library and run a handful of programs on one input.",
 [D_ + "Secret/Conversions", D_ + "LWE/Conversions", D_ + "Openfhe/Transforms", D_ + "BGV/Conversions", D_ + "CKKS/Conversions", "lib/Utils/AllocToInPlaceUtils.h", "lib/Analysis/RotationAnalysis", "lib/Transforms/SplitPreprocessing",
  "lib/Transforms/Halo", "lib/Transforms/AddClientInterface", "lib/Transforms/GenerateParam", "lib/Pipelines"],
 [("secret arithmetic to a scheme", D_ + "Secret/Conversions/SecretToBGV/SecretToBGV.cpp"), ("to the library", D_ + "LWE/Conversions/LWEToOpenfhe/LWEToOpenfhe.cpp"),
  ("context and keys", D_ + "Openfhe/Transforms/ConfigureCryptoContext.cpp"), ("in-place operations", "lib/Utils/AllocToInPlaceUtils.h"),
  ("fast rotations", D_ + "Openfhe/Transforms/FastRotationPrecompute.cpp"), ("pipelines", "lib/Pipelines/ArithmeticPipelineRegistration.cpp")],
 "TLA+ abstract machine with ciphertexts, contexts and keys (HeirMachine.tla), decided by TLC", "The machine keeps ciphertexts in cells (slots, level, components), contexts with their keys and the preprocessing store; random programs go through the real pipelines, and TLC runs the source, the scheme-level and the library-level program with their generated helpers on the same inputs.", level="translation_validation")
