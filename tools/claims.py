NOT = {}
claim("C02", TV, "TLA+ denotational specification of tensor networks; TLC validates recorded canonicalizations",
      "TLC evaluates every recorded input and canonical form under the specified meaning of tensor expressions (exact in GF(46337)) and requires equal values; the recorded forms of all presentations of one network must coincide. Random networks of up to 5 tensors, bounded index ranges; trusts the specification's evaluator and the driver's translation of expressions to JSON.")
claim("C04", MC, "TLA+ specification of expression histories; TLC explores it exhaustively and its behaviours are replayed into the real objects",
      "TLC checks the specification's own invariants exhaustively at a reduced bound and generates thousands of mutation histories over a pool of expressions; a driver performs each on real Constant/Variable/Power/Product/Sum objects and compares contents, pairwise equality and hashes with the specification after every step. Histories are bounded in length and the pool in size.")
claim("C10", MC, "TLA+ specification of default contexts and scopes; TLC explores it exhaustively and its behaviours are replayed into the real code",
      "TLC checks nesting/restoration invariants exhaustively at a reduced bound and generates histories of plain, scoped, reset, clone and registry-changing operations; a driver performs each on the real default contexts and compares everything observable after every step. Bounded history length; single thread.")
claim("C03", TV, "TLA+ denotational specification of expressions; TLC validates recorded expand, flatten, simplify, adjoint and arithmetic results",
      "TLC evaluates every recorded input and result of the rewrites under the specified meaning (exact in GF(46337), operators order-sensitive) and requires equal values and the form promised. Random trees of depth up to 3 over constants, variables, powers, tensors, adjoint tensors and operators; bounded index ranges.")
claim("C01", TV, "TLA+ specification of second-quantized operators acting on occupation states; TLC validates recorded Wick expansions",
      "TLC lets input and result of WickTheorem act on occupation states (fermions, spin-free operators, bosons; physical, single-product and frozen-core vacua) and requires the same operator, vacuum expectation value, or sum over the pairings that respect the required and avoided contractions. Random products and sums of up to 4 normal operators with tensors, one or two orbitals per space; trusts the specification's evaluator and the driver's translation to JSON.")
claim("C07", TV, "TLA+ denotational specification of expressions and a TLA+ game of contraction orders; TLC validates recorded optimizations",
      "TLC evaluates every recorded input and output of optimize, reorder, Fusion, binarize and common-subexpression elimination (definitions substituted) and requires equal values; for every recorded product TLC explores all orders of pairwise contraction under the same costs and requires that none beats the chosen one. Random trees, networks and forests with up to 5 factors per product, small extents; additive costs and peak storage (the roofline tie-breaks and the batched objective are checked for values only).")
claim("C08", MC, "TLA+ specification of the result cache and of evaluation through it; TLC explores cache histories, which are replayed, and validates recorded evaluations of forests",
      "TLC explores a cache's histories exhaustively at a reduced bound and generates longer ones that are replayed into CacheManager (also with colliding hashes); recorded evaluations of random forests through the real caches (repeated use, vetoed and persistent intermediates, volatile inputs, batches, resets) are checked by TLC step by step against the specified cache and evaluator (uses left, results held, operations done, values), and final values against the specified meaning of the expression. The numeric backend is a stand-in written for the check (no TiledArray or BTAS here); batched evaluations are checked for values only.")
claim("C11", MC, "TLA+ specification of index-space registries; TLC explores it exhaustively and its behaviours are replayed into the real registries",
      "TLC checks uniqueness of labels and attributes, the laws of union and intersection, independence of clones and that rejected operations change nothing, exhaustively at a reduced bound; it generates histories of additions, unions, intersections, removals, replacements, settings, masks, copies, assignments, clones and clears over three registries, which a driver performs on real IndexSpaceRegistry objects, comparing every query after every step. Four base states, two quantum-number bits, histories of 20 (thorough 40) operations; extents of unions mirror the code's sum over base spaces.")
claim("C12", MC, "TLA+ specification of operator registries and many-body contexts; TLC explores it exhaustively and its behaviours are replayed into the real code",
      "TLC checks that reserved labels are never registered, that independent registries and contexts do not see each other's changes, that sharing ones do, that rejected operations change nothing and that scopes restore, exhaustively at a reduced bound; it generates histories of additions, removals, hermiticity overrides, purges, copies, clones, assignments, defaults and nested scopes, which a driver performs on real OpRegistry and mbpt::Context objects, comparing every query after every step. Histories of 20 (thorough 40) operations; single thread.")
claim("C14", MC, "TLA+ specification of full binary trees and of their visits; TLC checks it on all small trees and its histories are replayed into FullBinaryNode",
      "TLC checks on every tree of up to 31 nodes (depth 4) that a visit reports each node once in the requested order, that giving up leaves out exactly one subtree, and that folding keeps the leaves; it generates histories of building, copying, moving, grafting, transforming, folding and visiting (any order, any kind of node, from any node, with visitors that give up or change the node), which a driver performs on real FullBinaryNode objects, comparing structure, parents, sizes, equality and the sequence of calls. Trees of up to 15 nodes.")
claim("C13", TV, "TLA+ specification of what can be seen of each object; TLC generates batches of objects that differ in one place and judges what ==, hashes and orders of the real objects say of all pairs and triples",
      "Every batch of 14 objects (spaces, indices, ladder operators, operator strings, normal operators and sequences of them, tensors, constants, variables, powers, products, sums, and mixtures nested two deep) is built in the real code; equality must be 'the same in all that can be seen', equal objects must hash equally, and every order offered (<, full-label, label, type, key, attribute, block orders) must be a strict weak order that does not separate equal objects; index and ladder-operator orders must separate different ones. 1200 (thorough 20000) batches; spaces of one registry; indices all with or all without scratch tags.")
claim("C15", MC, "TLA+ specifications of index replacement and queries and of fresh-index sources; TLC checks them exhaustively at reduced bounds and their behaviours are replayed into the real code",
      "TLC checks that replacements are simultaneous, change only what they report, and that temporary, factory-made and user-named indices never clash, exhaustively at reduced bounds; it generates histories of replacements (chains, swaps, identities, proto-indices, protected indices, repeated until stable, over whole products, and substitution of factors), of draws from 1 to 8 threads, context changes, resets and validators, which drivers perform on real tensors, operators, products, counters and factories, comparing indices, tags, used/uncontracted/external indices, equality and hashes after every step. Products of three factors, two proto-indices; thread schedules are whatever the machine does.")

claim("C05", MC, "TLA+ specification of the text form: a character-level parser with the meaning of what it reads, a generator of trees and of their spellings and of texts with mistakes; TLC checks the parser against a declarative grammar on all short texts; cases are replayed into from_string/to_string",
      "spec/Syntax.tla reads texts character by character and says what each means or that it is rejected; spec/Texts.tla draws expressions, result expressions, spellings of them (blanks, both index notations, abbreviated symmetries, signs, parentheses, fractions, decimals) and damaged texts. Complex scalars and abstract hermiticity letters are not part of the written form (documented) and not claimed.")

claim("C16", MC, "TLA+ specifications of exact scalars and powers, of asymptotic costs, and of permutations, signs and factorials; TLC checks their laws and their behaviours are replayed into the real code",
      "spec/Scalars.tla follows numbers of any size modulo four primes (registers of constants, complex rationals, powers, conversions to machine numbers, text); Costs.tla the ordered semiring of polynomial costs with an infinite element; Combinatorics.tla permutations (parity, cycles, sorting), factorials from several threads, bit sets. Every step's complete observation is compared.")

claim("C09", TV, "TLA+ specification of a machine that runs exported programs over a denotational specification of expressions; TLC runs recorded programs on it",
      "spec/Program.tla is a machine with memory and disk whose statements are those of generators (declare, index, create, load, zero, compute, unload, destroy, persist, sections and expressions). Random expressions (several per export, shared intermediates, inputs, results used by later expressions, batching, accumulation into results) are exported through every generator: a recording one with random traits, optimized by GenerationOptimizer, and the text, NumPy, PyTorch, Julia TensorOperations/TensorKit/ITensor and ITF generators whose texts are parsed. TLC runs each program and requires: declared before use, created or loaded before use, never twice, nothing used after release, at the end every result stored with the value of the expression (exact in GF(46337)) and all else released. Real fields; trusts the parser of the texts; documented refusals of generators are skipped; one known finding about ITensor.")

claim("C06", TV, "TLA+ denotational specification of expressions over spin orbitals and over spatial orbitals; TLC validates recorded spin tracing and symmetrizer expansions",
      "spec/SpinValue.tla evaluates the spin-orbital expression (antisymmetric tensors as antisymmetrized spin-conserving ones, symmetrizers as operators) and what expand_antisymm, expand_A_op, symmetrize_expr, expand_P_op, S_maps, spintrace, closed_shell_spintrace, open_shell_spintrace, open_shell_CC_spintrace and the ResultExpr forms make of it, for sampled external orbitals and all spins of the externals, exact in GF(46337), and requires equality. Ranks up to 3, up to 3 tensors per term, 2 spatial orbitals per space; the biorthogonal closed_shell_CC_spintrace needs a library that is absent and is not covered.")

claim("C17", TV, "TLA+ specification of many-body operators as maps of Fock space; TLC validates recorded operators, averages, commutator series, rewritings and equations of the real code",
      "spec/OperatorMap.tla gives each operator-level expression the operator it stands for on occupation states (ranks, projectors, general and (de)excitation operators, ladder counts, named batches) and requires the same map from its tensor form, the same expectation value with vacuum and multiconfigurational references from vac_av/ref_av with and without screening, that the quantum numbers an operator declares contain what it does, that operators deemed commuting commute, that lst/sim_tr/commutator series are the series, that simplification of operator products keeps the map, and that coupled-cluster amplitude, energy, density, perturbed and equation-of-motion equations equal the projections of the similarity-transformed operators. One or two orbitals per space, products of up to 4 operators of rank 2 (3 for some); equations with doubles mostly with screening on.")

claim("C18", MC, "TLA+ specifications of what threads share and of computations over the terms of a sum; TLC checks all interleavings at reduced bounds, its behaviours are replayed with real threads held at gates, and recorded parallel results are judged",
      "spec/Parallel.tla: parallel loops and reductions (which tasks run, in which order they begin, failures), values computed once (memoize), single objects (Singleton) and default contexts, with every order of entries and exits of up to about 10 threads; TLC generates behaviours whose steps a driver forces on real threads by keeping them inside tasks, computations and constructors. spec/Schedules.tla: workers over the terms of a sum lose nothing and give the same result in all interleavings; canonicalize, simplify, optimize, Wick's theorem (full and partial), averages and commutator series are run with 1, 2, 3 and 8 threads several times and must give the same terms. Schedules within a task are whatever the machine does.")
