"""hand-written per-property notes for DESIGN.md: how it is decided, and why tests cannot"""
N = {}
N["C01"] = "`sgn` runs on lists of symbolic integers; comparisons fork, so every relative order is a path. Oracle: exchanging two entries flips the sign, sorted gives +1, product over compositions. These three laws determine the sign, so no other parity computation is trusted."
N["C02"] = "All entries are symbolic, so each identity is a polynomial identity in all of them. Oracles: signed sum over pairings written in the harness, the Leibniz determinant, `pf(BAB^T)=det B pf A`. Integer dtype is a separate logical type."
N["C03"] = "As C02, with the unsigned sums and the bipartite and scaling laws; integer results must be exact integers."
N["C04"] = "`dt` against Leibniz and multiplicativity. `dt_eigen` calls an eigenvalue routine: the stub returns the roots of the characteristic polynomial as unknowns tied by the elementary symmetric functions, so the product is decided for every matrix."
N["C05"] = "CAR is bilinear: checked once for arbitrary coefficient vectors u, v. Action on an arbitrary symbolic state against operators written from bit action fixes order, string sign and vacuum."
N["C06"] = "As C05: Clifford relation for arbitrary complex combinations, and identity with the ladder combinations (site count up to 6)."
N["C07"] = "Arbitrary matrix expanded in the returned list; arbitrary vector acted on by element k against the base-4 digits of k; rejected counts are symbolic integers or listed types."
N["C08"] = "Arbitrary complex coefficients; both sides, both argument orders, verbose; composition law; arbitrary operators. A rotation of another size is refused (rectangular ones with one matching side included), except that a larger square one is reported by a message and cut to its leading block, as the code documents by its guard."
N["C09"] = "Arbitrary blocks against the documented layout; structure for symbolic Hermitian/antisymmetric blocks; Kitaev chain for all couplings, also lifted to the many-body operator; random generators for every draw."
N["C10"] = "Arbitrary coefficient matrices; reference sum written with bit-action operators; Heisenberg equations `[H, a_k] = -2 sum H_kl a_l` for every canonical H; linearity; Majorana operator lists."
N["C11"] = "Arbitrary vectors through each transformation; canonical spectra; permutations and non-permutations as symbolic integer lists; block shapes and dtype combinations of the direct sum."
N["C12"] = "Acceptance on parametrised members (all rotations, unitaries, sheared matchgates), refusal on everything off by more than the tolerance (a disjunction over entries that the solver must not satisfy with a True answer)."
N["C13"] = "Every antisymmetric real matrix is `O Lc O^T`; `O` is symbolic (products of rotations), `Lc` symbolic weights with a given number of zeros; the Schur stub returns the ghost form in the order the sort function demands, with any signs within blocks. Zero modes in any position and odd chains at three modes; ordering for diagonal A; eigenvector phases."
N["C14"] = "Every canonical H (n=1 complete, n=2 with gap), the exponential by closed form on blocks or as an opaque positive matrix; trace, Hermiticity, positivity as a sum of squares, commutation, and that the generator lifted is the argument (own operator lists too)."
N["C15"] = "The state is an arbitrary complex matrix: all two-point functions are linear in it. Custom operators are arbitrary matrices."
N["C16"] = "Scaled and rotated operators; entries recorded against the bilinear anticommutator."
N["C17"] = "Accepts: unit vectors on the sphere, simplex points, density matrices by rank factorisation `A A^dag`; refuses: everything violating one condition by the stated margin."
N["C18"] = "Index-sum definition on arbitrary complex matrices, products, rectangular factor dimensions, refusals."
N["C19"] = "Real and imaginary parts and threshold relations symbolic: below → removed, above → kept within the threshold's digits; formatted strings are tokens carrying value and format; print options symbolic before the call."
N["C20"] = "Distributions are simplex points with listed zero patterns; logarithms are atoms with monotonicity and concavity lemmas; wavefunction and density-matrix forms."
N["C21"] = "As C20; orders listed, limits included; monotonicity needs `log` lemmas and is checked for pairs of orders."
N["C22"] = "2×2 closed form, commuting states through any unitary (Hadamard-type mixing), pure states by overlap, classical states."
N["C23"] = "Pauli expectation values of arbitrary states; entropy as Rényi minus log; stabilizer states; Bloch vectors near the centre; additivity."
N["C24"] = "Covariance of arbitrary states; canonical weights from the ghost spectrum or 2×2 closed forms; all pure states of definite parity up to three sites are free-fermion states, giving exact zero; odd chains."
N["C25"] = "Each draw is symbolic: rotations as products of symbolic rotations with opaque logarithm, normals, exponentials, simplex points. Relations between the returned objects are decided for every outcome."
N["C26"] = "Streams as functions of (seed, position): equality of results after arbitrary interleavings is decided for a symbolic seed. Non-vacuity: different seeds and consecutive calls can differ (a sat query)."
N["C27"] = "Symbolic integers in the refused range, other types; the stream position and state after the refusal must be untouched."
N["C28"] = "Edge presence bits are symbolic: all graphs on four nodes, subgraphs of hosts up to 14 nodes; labels of several kinds."
N["C29"] = "Weights symbolic; every maximum spanning tree the weights admit is a path; the expected count is the sum over matchings; labels and insertion orders vary."
N["C30"] = "Concrete and symbolic edge sets for faces (darts once, Euler), every spanning tree for the dual (symbolic membership), symbolic signs around the completed face, every rooted tree for depth."
N["C31"] = "Vectors are sphere points times scales; completion by its QR contract; the path evaluated at symbolic parameters."
N["C32"] = "Symbolic weight and every outcome of choice/permutation; every random graph on up to four (five) nodes."
N["C33"] = "Each public numerical function runs on fully symbolic arguments; afterwards the arguments must equal their copies, and a second call after vandalising the first result must agree. Dtype-dependent aliasing is real because arrays are real numpy arrays."
N["C34"] = "The drawing libraries are replaced by recorders; the data handed to them is compared with the definition, for every content of the inputs."
