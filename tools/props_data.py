"""the properties, in one place; tools/build_meta.py writes properties.jsonl and MANIFEST.json"""

C, L, S, D, R, G, U = ("src/ff/ff_combinatorics.py", "src/ff/ff_lib.py", "src/ff/ff_random_states.py",
                       "src/ff/ff_distance_measures.py", "src/ff/ff_random_states.py", "src/ff/ff_graph_theory.py", "src/ff/ff_utils.py")


def w(f, *names):
    return [{"name": n.split("@")[0], "where": "%s:%s" % (f, n.split("@")[-1])} for n in names]


PROPS = []


def P(id, title, statement, over, text, why, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=sorted({m["where"].split(":")[0] for m in mech}), mechanism=mech)))


P("C01", "Permutation sign is the parity homomorphism",
  "The sign of a sequence of distinct integers is +1 or -1, is +1 on an increasing sequence, and flips whenever two of its entries are exchanged. "
  "Consequently the sign of a composition of permutations is the product of their signs.",
  ["inputs"], "all sequences of distinct integers (bounded length), all pairs of permutations",
  "the tests sample a few named permutations; parity is a statement about every permutation and every pair", w(C, "sgn"))
P("C02", "Pfaffian obeys its defining identities",
  "For every antisymmetric matrix the Pfaffian squares to the determinant, is the signed sum over perfect pairings, is multiplicative over direct sums, "
  "transforms by det(B) under congruence and reduces to a determinant on bipartite blocks. It is zero for odd order, equals 1 for the empty matrix if that is accepted, and is the same for integer and real input.",
  ["inputs"], "all antisymmetric (real, complex, integer) matrices of bounded order; all congruences",
  "tests evaluate a handful of numeric matrices; the identities are polynomial identities in all entries", w(C, "pf"))
P("C03", "Hafnian and permanent obey their expansions",
  "The hafnian of a symmetric matrix is the sum over perfect pairings of products of entries, the permanent is the unsigned sum over permutations, "
  "and the hafnian of a bipartite block matrix is the permanent of its block. Both are exact on integer input and scale as products under diagonal scaling.",
  ["inputs"], "all square matrices (real, complex, integer) of bounded order",
  "tests evaluate a handful of numeric matrices; the identities are polynomial identities in all entries", w(C, "hf", "pt"))
P("C04", "Both determinants agree with the Leibniz determinant",
  "The permutation-sum determinant is the signed sum over all permutations and is multiplicative over products; the spectral determinant gives the same value on every square matrix. "
  "Both give the value for real, complex and integer entries.",
  ["inputs"], "all square matrices of bounded order, all pairs for multiplicativity",
  "tests use a few numeric matrices; agreement is a polynomial identity over all entries", w(C, "dt", "dt_eigen"))
P("C05", "Ladder operators satisfy the canonical anticommutation relations",
  "The 2n Jordan-Wigner operators are n lowering operators followed by their adjoints (in the documented order), satisfy the canonical anticommutation relations for every linear combination, "
  "and act on every state vector as fermionic removal and insertion with the parity-of-preceding-sites sign.",
  ["inputs"], "all pairs of complex linear combinations of the operators and all state vectors, n bounded",
  "tests check fixed pairs at small n against tolerances; the relation is bilinear in all coefficients", w(L, "jordan_wigner_lowering", "jordan_wigner_alphas"))
P("C06", "Majorana operators are Hermitian, anticommuting, and built from ladder operators",
  "The 2n Majorana operators are Hermitian, satisfy the Clifford relations with their documented normalisation for every linear combination, "
  "and are the documented real combinations of lowering and raising operators.",
  ["inputs"], "all complex linear combinations of the Majorana operators, n bounded",
  "tests look at fixed pairs; the relations are bilinear in all coefficients", w(L, "jordan_wigner_majoranas"))
P("C07", "The Pauli group enumeration is a complete ordered operator basis",
  "The n-qubit Pauli list has 4^n elements in lexicographic order starting at the identity, and every 2^n x 2^n matrix is recovered from its Pauli expectation values. "
  "Non-positive or non-integer qubit counts are rejected.",
  ["inputs"], "every complex 2^n x 2^n matrix, every list index, all rejected n in a range",
  "tests check a few elements; completeness quantifies over every matrix", w(L, "pauli_matrices", "generate_pauli_group"))
P("C08", "Rotating operators applies the coefficient matrix linearly on the chosen side",
  "Rotating a list of operators by a coefficient matrix yields exactly the linear combinations given by its rows (or columns when acting from the left), so that rotating by C and then D equals rotating by the product, "
  "and a symplectic-unitary rotation preserves the anticommutation relations. Incompatible shapes are reported rather than silently truncated.",
  ["inputs"], "all complex coefficient matrices and operators of bounded size",
  "tests use identity or one random rotation; linearity quantifies over all coefficients and both sides", w(L, "rotate_operators", "_perform_rotation"))
P("C09", "Coefficient-matrix builders place every block as documented",
  "Hamiltonian and V-form builders place A, its conjugate, B and its conjugate exactly in their documented blocks, so that Hermitian A and antisymmetric B give a Hermitian canonical matrix; "
  "the Kitaev chain is that builder applied to its documented nearest-neighbour matrices and random generators always have the canonical structure.",
  ["inputs", "configurations"], "all complex blocks, all chain parameters, every sequence of random draws, n bounded",
  "tests check shapes and a few entries of fixed matrices", w(L, "build_V", "build_H", "kitaev_chain", "random_H_generator"))
P("C10", "The many-body lift is the quadratic form it names",
  "Lifting a coefficient matrix gives exactly sum_ij R_ij a_i^dagger a_j (or without the adjoint when requested), linearly in R, for any operator list, "
  "and the commutators of lifted canonical Hamiltonians with the ladder operators are the linear ones their coefficients prescribe.",
  ["inputs"], "all coefficient matrices of bounded size, ladder and Majorana operator lists",
  "tests lift a few matrices and check Hermiticity or shape", w(L, "build_op"))
P("C11", "Basis-change and permutation matrices do what their names say on every vector",
  "The Dirac-Majorana, ordering and canonical-to-standard transformations are unitary and map every vector (and canonical spectrum) to the documented form; a permutation list becomes the matching permutation matrix and a list that is not a permutation is refused; "
  "the direct sum of two matrices of any shapes has them on the diagonal and zeros elsewhere.",
  ["inputs"], "all vectors, spectra, permutations, non-permutations and block shapes within bounds",
  "tests check unitarity at fixed n and one permutation", w(L, "build_Omega", "build_reordering_xx_to_xp", "build_K", "permutation_to_matrix") + w(U, "kron_plus"))
P("C12", "Structural predicates accept exactly their class",
  "The symplecticity, canonical-form and matchgate predicates return true on every member of their class and false on every matrix that violates it by more than their tolerance, "
  "including wrong shapes, which give false rather than an error.",
  ["inputs"], "all members and all violators (beyond a margin) at bounded size",
  "tests try one accepted and one rejected matrix", w(L, "is_symp", "check_canonical_form", "is_matchgate"))
P("C13", "Symplectic and Majorana diagonalisations reconstruct their input",
  "For every quadratic Hamiltonian, including degenerate ones with zero modes, the returned eigenvectors are unitary (orthogonal in Majorana form) with the documented block structure, the returned eigenvalue matrix is in the documented form with the spectrum of the input, and together they rebuild the input; the phases of the symplectic eigenvectors are fixed by a real non-negative diagonal. "
  "Without pairing, the spectrum is listed in the order of the particle-conserving block's eigenvalues.",
  ["inputs"], "all quadratic Hamiltonians and Majorana generators of bounded size, all placements of zero modes",
  "tests diagonalise a few random or fixed Hamiltonians, which are never degenerate", w(L, "eigh_sp", "eigv_sp", "eigm_sp_can", "eigm_sp"))
P("C14", "Gaussian states are the normalised exponential of their parent Hamiltonian",
  "The Gaussian state of a quadratic parent is exp(-H)/Tr exp(-H) for its many-body lift, whether the parent is given as a coefficient matrix or as an operator (any number of modes), so it has unit trace, is Hermitian positive and commutes with the lift. "
  "A parent of any other size yields no state.",
  ["inputs", "configurations"], "all parents of bounded size, both input forms, custom operator lists",
  "tests check trace and Hermiticity of one or two states", w(L, "generate_gaussian_state"))
P("C15", "Two-point functions are the stated expectation values for every state",
  "Correlation matrices are Tr[rho a_i a_j] with the adjoint on neither, second or first operator as requested, and covariance matrices their antisymmetric part, for every state and every operator list; "
  "omitted arguments mean the Jordan-Wigner operators and the site count implied by the state.",
  ["inputs", "configurations"], "every density matrix (indeed every matrix) of bounded size, each conjugation setting, default and custom operators",
  "tests use a few pure or random states at one setting", w(L, "compute_cov_matrix", "correlation_matrix", "compute_2corr_matrix"))
P("C16", "The algebra matrix records the anticommutators",
  "For operators whose anticommutators are multiples of the identity the algebra matrix has exactly those multiples as entries; "
  "for rotated ladder operators it is the congruence of the original by the rotation, for every rotation.",
  ["inputs"], "all linear combinations of ladder or Majorana operators at bounded size",
  "tests compute it for the unrotated operators", w(L, "compute_algebra_S"))
P("C17", "Casting accepts exactly states and distributions and keeps their content",
  "A normalised vector becomes its projector, a probability vector the diagonal matrix of its entries, and a density matrix is returned unchanged; casting to a distribution returns the diagonal. "
  "Anything unnormalised, non-Hermitian, negative or non-square is rejected.",
  ["inputs"], "all vectors and matrices of bounded size, accepted and (beyond a margin) rejected",
  "tests cast a few examples of each kind", w(U, "cast_to_pdf", "cast_to_density_matrix"))
P("C18", "Partial traces trace out exactly the named factor",
  "Each partial trace is linear, preserves the trace, returns Tr(B) A or Tr(A) B on product operators, and equals the index-sum definition on every matrix; dimensions that do not divide are rejected.",
  ["inputs"], "every matrix of bounded dimensions, every factorisation listed",
  "tests use a few product or Bell states, mostly of equal dimensions", w(U, "partial_trace_diagblocksum", "partial_trace_blockTr"))
P("C19", "Cleaning and formatting change only what is below threshold",
  "Cleaning removes real or imaginary parts below the threshold and leaves larger ones as they are up to the threshold's precision, element-wise for arrays and lists; "
  "formatting shows the value at the requested precision, and printing restores the caller's print options.",
  ["inputs", "histories"], "all real and complex numbers in a box, listed thresholds and precisions, any prior print options",
  "tests clean a few literals", w(U, "clean", "formatted_output", "print_custom", "_print"))
P("C20", "Distances and divergences between distributions have their defining values",
  "Total variation distance, Bhattacharyya coefficient, relative entropy and Jensen-Shannon divergence equal their definitions on every pair of distributions, whether given as distributions, wavefunctions or density matrices; "
  "the distances are symmetric, lie in their documented ranges and vanish on equal arguments.",
  ["inputs"], "all pairs of distributions of bounded length, including ones with zero entries; all input forms",
  "tests evaluate fixed examples", w(D, "total_variation_distance", "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence"))
P("C21", "Entropies equal their definitions at every order",
  "Renyi entropies at any non-negative order, including the limits 0, 1 and infinity, and the linear entropy equal their definitions on every distribution, are non-negative, vanish on point distributions and are maximal on the uniform one; "
  "Renyi entropy does not increase with its order.",
  ["inputs", "configurations"], "all distributions of bounded length, orders listed",
  "tests evaluate uniform and point distributions", w(D, "renyi_entropy", "linear_entropy"))
P("C22", "Trace distance is the half trace norm, a metric bounded by one",
  "The trace distance of two states is half the sum of absolute eigenvalues of their difference: symmetric, zero on equal states, one on orthogonal pure states, sqrt(1-|overlap|^2) on pure states and equal to total variation on distributions.",
  ["inputs"], "all pairs of states of bounded dimension",
  "tests evaluate fixed pairs", w(D, "trace_distance"))
P("C23", "The stabilizer distribution and stabilizer entropy have their defining values",
  "For every state the stabilizer distribution lists the squared Pauli expectation values over dimension times purity in Pauli-list order, so it is a probability distribution; "
  "the stabilizer Renyi entropy is its Renyi entropy minus log of the dimension, and is zero on stabilizer states and on the completely mixed state.",
  ["inputs"], "all states (pure and mixed) of bounded dimension, orders listed",
  "tests evaluate a few stabilizer and T states", w(D, "stabilizer_distribution", "SRE"))
P("C24", "Covariance distribution and anti-flatness vanish exactly on free-fermion states",
  "The covariance distribution of every state lists the squared canonical weights of its Majorana covariance matrix and the fermionic anti-flatness of order k is the site count minus the sum of their k-th powers; "
  "it is zero on every pure free-fermion state and lies between zero and the site count on one-site states and occupation mixtures.",
  ["inputs"], "all states of bounded size, pure free-fermion states, orders listed",
  "tests evaluate a few states", w(D, "cov_distribution", "FAF"))
P("C25", "Random rotations and states are always valid free-fermion objects",
  "Whatever the random source yields, random rotations are unitary, keep the parity and rotate the ladder operators by the symplectic orbital rotation they are drawn from, random pure states are normalised, a random stabilizer state is the state of the tableau drawn, random mixed states are density matrices diagonalised by the objects they return, "
  "and a returned generator generates the returned state.",
  ["inputs", "configurations"], "every outcome of the random source (all rotations, draws, orders of draws) at bounded size",
  "tests sample a few seeds", w(L, "random_FF_rotation", "random_FF_state") + w(R, "random_qubit_state", "random_qubit_pure_state", "random_CHP_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN"))
P("C26", "A seed determines the random object and nothing else does",
  "Every seeded generator returns the same object when called again with the same seed, whatever random draws happened before, for every seed including zero; without a seed (random bit strings take none) the draws continue the global stream, so seeding it determines them.",
  ["inputs", "histories"], "every outcome of the generator at every symbolic seed, every prior state of the global stream",
  "tests call with one seed twice in a row from a fresh state", w(L, "random_FF_rotation", "random_FF_state", "random_H_generator") + w(R, "random_qubit_state", "random_FF_state_randH") + w(G, "generate_random_planar_graph") + w(U, "generate_random_bitstring"))
P("C27", "Random generators refuse invalid sizes",
  "Every random-state generator raises a type error for a non-integer size and a value error for a non-positive one, before consuming randomness or reseeding, and refuses particle numbers that are not integers in the possible range.",
  ["inputs"], "all integers in a range, other types",
  "tests try -1, 0 and a float", w(R, "random_qubit_state", "random_qubit_pure_state", "random_CHP_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN"))
P("C28", "Brute-force matching enumeration is exact",
  "For every graph within the supported size the enumeration returns each perfect matching exactly once, as edges of the graph covering each node once, and nothing else; odd order gives none.",
  ["inputs"], "all graphs on a bounded number of nodes (edge presence symbolic)",
  "tests use a few named graphs", w(G, "find_perfect_matchings_brute"))
P("C29", "Planar matching counts equal the weighted number of perfect matchings",
  "For every planar graph, whatever its node labels, insertion order, connectivity or edge weights, the planar count equals the sum over perfect matchings of the product of their weights; the Pfaffian orientation signs every edge antisymmetrically. "
  "The general count, on graphs that are not planar too, equals the same weighted sum as the brute-force enumeration.",
  ["inputs", "configurations"], "listed planar graph families with relabelings and symbolic positive weights",
  "tests use a few named unweighted graphs with labels 0..n-1", w(G, "count_perfect_matchings", "count_perfect_matchings_planar", "pfo_algorithm"))
P("C30", "Faces, dual graph and face completion are consistent with the embedding",
  "Face tracing returns every directed edge exactly once, with the number of faces given by Euler's formula; the dual graph joins exactly the faces that share a non-tree edge; "
  "completing a face assigns only its one unassigned edge so that the face's orientation condition holds. The depth of a tree is the greatest distance from its first node, and a graph that is not a tree is refused.",
  ["inputs"], "listed planar graphs with every orientation of the other edges",
  "tests use triangles and squares", w(G, "faces", "dual_graph_H", "complete_face", "compute_tree_depth"))
P("C31", "Paths between states stay normalised and connect the right end points",
  "For every pair of non-zero vectors both path constructions start at the normalised first vector, end at the normalised second one and stay normalised in between; "
  "the orthogonal completion of a vector is an orthonormal basis whose first column is that vector normalised. The unitary path is one unitary evolution: the overlap of two of its points depends only on the parameter elapsed between them, also beyond the end points.",
  ["inputs"], "all pairs of vectors of bounded dimension, every parameter value",
  "tests evaluate a few vectors at t=0, 0.5 and 1", w(R, "build_linear_path", "build_unitary_path", "get_orthogonal_vectors"))
P("C32", "Random combinatorial objects have the requested shape",
  "A random bit string has the requested length and weight for every outcome of the random source and an impossible weight gives none; "
  "a random planar graph is planar, connected and has the requested number of nodes.",
  ["inputs"], "every outcome of the random source; all sizes and weights in a range",
  "tests sample a few seeds", w(U, "generate_random_bitstring") + w(G, "generate_random_planar_graph"))
P("C33", "Library calls leave their arguments unchanged and keep no hidden state",
  "No public numerical function modifies the arrays, operator lists or graphs passed to it (complete_face, whose purpose is to update, excepted). "
  "A call repeated with equal arguments gives the same answer, whatever the caller did to the first answer in the meantime; the operators a rotation returns are new arrays; a path between states does not change when its end points are later overwritten.",
  ["inputs", "histories"], "all contents of the arguments at bounded size; the history call, edit result, call again",
  "tests never compare arguments before and after", w(L, "build_op", "rotate_operators", "eigh_sp") + w(U, "clean", "cast_to_density_matrix", "partial_trace_blockTr") + w(D, "stabilizer_distribution") + w(G, "count_perfect_matchings_planar"))
P("C34", "Plots show the object they are given",
  "The weighted graph that is plotted and returned has one node per row and one edge per non-zero entry (between different nodes, if undirected), is undirected exactly when the matrix is symmetric, and labels each edge with its entry rounded to four places; a graph given instead of a matrix stands for its adjacency matrix. "
  "A given matching, and nothing else, is highlighted. A plotted Pfaffian orientation has one arrow for each edge whose entry is not zero, from the smaller end to the larger where the entry is negative and back where it is positive. "
  "The population analysis plots the populations of the state and its eigenvalues, largest first, to six places, and refuses empty inputs and inputs that are not arrays or lists.",
  ["inputs"], "all matrices of bounded order, all orientations of listed graphs, all one-qubit states",
  "tests only check that the plotting calls return", w(G, "plot_graph_with_edge_weights", "plot_planar_embedding") + w(U, "analyze_pdf"))
