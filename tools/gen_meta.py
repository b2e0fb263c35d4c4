"""Writes properties.jsonl and MANIFEST.json from the table below (only checks whose module exists are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Operator strings are values: equality, hash, print and parse agree',
     'Two operator strings compare equal exactly when they have the same type, orbital operators, labels and prefactor, '
     'however they were constructed or parsed. Equal strings hash and print alike and are interchangeable as dictionary keys, '
     'different strings are never confused, and parsing the printed form gives back an equal string. '
     'A string does not change when the lists or arrays it was built from are changed afterwards.',
     ['inputs'], 'all Pauli, Majorana and Fermion strings over any labels, and every documented way of writing them',
     'Tests compare a handful of fixed strings; equality, hashing and printing must agree for every pair of strings and every construction route.',
     ['qosy/operatorstring.py', 'qosy/config.py'],
     [('construction and name', 'OperatorString.__init__'), ('equality and hash', 'OperatorString.__eq__, __hash__'), ('parser', 'opstring')],
     'Hypothesis: generated strings/pairs/sets, round-trip and model oracle',
     'Random search over strings of up to 16 operators and labels up to 10^18; trusts the generators to stay inside the documented string forms.')
prop('C02', 'Pauli and Majorana strings are Hermitian, unitary and orthonormal',
     'Every operator string is Hermitian by construction, with the prefactor of a Majorana string chosen automatically. '
     'Every Pauli and Majorana string squares to the identity, is traceless unless it is the identity, and distinct ones are orthogonal '
     'in the Hilbert-Schmidt inner product, so the norm reported for an operator made of them is its Hilbert-Schmidt norm.',
     ['inputs'], 'all Pauli, Majorana and Fermion strings and all operators that combine them',
     'Hermiticity depends on the number of fermionic operators modulo four and on their positions; tests look at a few short strings.',
     ['qosy/operatorstring.py', 'qosy/algebra.py', 'qosy/basis.py'],
     [('prefactor of Majorana strings', 'OperatorString.__init__'), ('self-product', '_operation_opstring'), ('norm', 'Operator.norm')],
     'Hypothesis: exact bit-mask algebra and dense matrices as oracle',
     'Random search, strings of up to 8 operators; exact arithmetic oracle.')
prop('C03', 'Products, commutators and anticommutators are exact',
     'The product, commutator and anticommutator of two Pauli or Majorana strings, or of two operators with complex coefficients, '
     'equal those of the operators they represent, including every sign, phase and factor of two, and vanish exactly when they should. '
     'The result is again in canonical form (sorted unique labels, each string listed once) and the operands are unchanged.',
     ['inputs'], 'all pairs of strings and operators of one type, with arbitrary overlap of their supports',
     'Tests check tens of products on a few labels; the sign rules must hold for every overlap pattern, support size and label set.',
     ['qosy/algebra.py', 'qosy/tools.py', 'qosy/config.py'],
     [('string operation', '_operation_opstring'), ('operator operation', '_operation_operator'), ('reordering sign', 'sort_sign'), ('product table', 'PRODUCT_DICT')],
     'Hypothesis: differential against exact bit-mask algebra, matrices, algebraic laws',
     'Random search, up to 9 operators per string and 8 terms per operator, labels up to 1100.')
prop('C04', 'Operator arithmetic is exact vector-space arithmetic without aliasing',
     'Through any history of additions, subtractions (also in place), scalings, negations, normalisations, zero removals and vectorisations, '
     'an operator holds exactly the linear combination that the operations define, with each string once, in order of first appearance and with one '
     'coefficient per string. No operation changes any other operator, the lists or arrays it was built from, or a basis it was given; operators of different types cannot be added.',
     ['histories', 'inputs'], 'all sequences of operations over several operators of one type',
     'Tests add and scale a few fixed operators; aliasing and padding errors only appear in longer histories.',
     ['qosy/basis.py'],
     [('addition and in-place addition', 'Operator.__add__, __iadd__'), ('scaling', 'Operator.__mul__, __rmul__, normalize'), ('vector form', 'Operator.to_vector'), ('zeros', 'Operator.remove_zeros')],
     'Hypothesis: generated operation histories against an ordered-dictionary model',
     'Random search over histories of up to 14 (quick) or 22 (thorough) steps on four operators.')
prop('C05', 'A basis is an ordered set of operator strings',
     'Through any history of constructions and additions (also in place and of itself), a basis contains each string once, in order of first insertion, '
     'and its length, iteration, indexing, index lookup, membership, printing and equality all describe that same sequence. '
     'Growing one basis never changes another basis or the list it was built from; looking up an absent string, repeating a string at construction and adding something else raise an error.',
     ['histories', 'inputs'], 'all sequences of operations over several bases',
     'Tests build a few bases; agreement between the list and the index dictionary must survive every history.',
     ['qosy/basis.py'],
     [('construction', 'Basis.__init__'), ('growth', 'Basis.__add__, __iadd__'), ('lookup', 'Basis.index, __contains__, __getitem__')],
     'Hypothesis: generated operation histories against an ordered-set model',
     'Random search over histories of up to 16 (quick) or 26 (thorough) steps on four bases.')
prop('C06', 'Structure constants and Liouvillian matrices reproduce the algebra',
     'For any bases, operator and operation mode, the structure constants, the Liouvillian matrix and the commutant matrix, read together with the returned extended basis, '
     'give back exactly the product, commutator or anticommutator of every basis element with the operator; the commutant matrix is the Gram matrix of the Liouvillian. '
     'This holds equally for a basis of strings and for a list of operators, and the extended basis contains no string twice.',
     ['inputs'], 'all bases or lists of operators, all operators of the same type (also outside of the span of the basis), all modes and output formats',
     'Tests check two fixed bases; the matrices must be right for all shapes, overlaps and modes.',
     ['qosy/algebra.py'],
     [('structure constants', 'structure_constants'), ('string basis', '_liouvillian_matrix_opstrings'), ('operator basis', '_liouvillian_matrix_operators'), ('commutant', 'commutant_matrix')],
     'Hypothesis: differential against exact bit-mask algebra',
     'Random search, bases of up to 30 strings.')
prop('C07', 'Generated Lie algebras are closed, minimal and contain the generators',
     'The Lie algebra generated from a basis of strings or a list of Hermitian operators contains the generators first and unchanged, is closed under commutators (up to scalars) '
     'and has exactly the dimension of the smallest such space, with linearly independent elements beyond the generators.',
     ['inputs'], 'all sets of Pauli or Majorana strings and all lists of Hermitian operators, including linearly dependent ones',
     'Tests generate one or two known algebras; closure and minimality must hold for every generating set.',
     ['qosy/algebra.py', 'qosy/tools.py'],
     [('closure loop', 'generate_lie_algebra'), ('projection', 'gram_schmidt')],
     'Hypothesis: closure and brute-force dimension oracle',
     'Random search over algebras of dimension up to about 60.')
prop('C08', 'Conversion between string types preserves the operator',
     'Converting a string or operator between Pauli, Majorana and Fermion strings gives an operator with the same matrix in the documented conventions (a = c + c^dagger, b = -i(c - c^dagger), '
     'd = 1 - 2 n, standard Jordan-Wigner ordering), except that the identity string of the result may be dropped unless it is requested (and is dropped when Fermion strings are involved). With the identity requested it is exact, real coefficients stay real, and converting back recovers the operator.',
     ['inputs'], 'all operators of each type, all pairs of types, with and without the identity',
     'Tests check a few strings; the signs depend on the order and number of all fermionic operators.',
     ['qosy/conversion.py', 'qosy/tools.py'],
     [('fermion to Majorana', '_convert_fermion_string'), ('Majorana to fermion', '_convert_majorana_string'), ('Jordan-Wigner', '_jordan_wigner')],
     'Hypothesis: differential against exact algebra and Fock-space matrices, round trip',
     'Random search over strings of up to 6 operators (8 for Majorana).')
prop('C09', 'Conversion matrices represent the basis change',
     'For any two bases of different types that span the same operators (up to the identity), the conversion matrix maps the coefficient vector of every operator in the first basis to the coefficient vector of the same operator in the second. '
     'The matrices of the two directions are inverse to each other, and bases that cannot hold a converted string are rejected.',
     ['inputs'], 'all cluster bases over any labels and every pair of types that spans the same space, in any order of the basis strings',
     'Tests use one or two small bases in construction order.',
     ['qosy/conversion.py', 'qosy/basis.py'],
     [('matrix assembly', 'conversion_matrix'), ('string conversion', '_convert_operator_string')],
     'Hypothesis: differential against per-operator exact values, inverse relation',
     'Random search over bases of up to about 250 strings.')
prop('C10', 'Cluster bases contain exactly the allowed operator strings',
     'A cluster basis contains every operator string of the requested type supported on the allowed numbers of the given orbitals (for Fermion strings: with an allowed number of creation operators, in the documented normal-ordered form) exactly once and nothing else, and the identity exactly when requested. '
     'Its elements are linearly independent Hermitian operators spanning the full space of such operators, whatever the order in which the labels were given, and the given labels are left unchanged.',
     ['inputs', 'configurations'], 'all label sets in any order, all numbers or lists of numbers of orbitals, all types',
     'Tests count or list the strings for a few sizes.',
     ['qosy/basis.py'],
     [('enumeration', 'cluster_basis')],
     'Hypothesis: brute-force enumeration and rank oracle',
     'Random search over up to 6 labels (4 for fermions).')
prop('C11', 'Distance bases contain exactly the spatially local strings',
     'A distance basis contains exactly once every operator string supported on allowed orbitals that are pairwise within the given distance of each other on the lattice, with an allowed number of orbitals (creation operators for Fermion strings), and nothing else. '
     'The identity is included exactly when requested.',
     ['inputs', 'configurations'], 'all lattices with any boundary conditions, distances, sets of allowed orbitals, types and sizes',
     'Tests check one chain; the clique search must be right for every neighbourhood graph.',
     ['qosy/basis.py', 'qosy/tools.py', 'qosy/lattice.py'],
     [('cluster search', 'distance_basis'), ('cliques', 'maximal_cliques'), ('distances', 'Lattice.distance')],
     'Hypothesis: brute-force subset enumeration over independent distances',
     'Random search over lattices of up to 12 orbitals.')
prop('C12', 'Lattices index every orbital exactly once, with periodic wrapping',
     'A lattice has one orbital per cell, atom and orbital name, at the position given by its cell coordinates, and looking up the position and name of any orbital returns its own index. '
     'Positions displaced by any multiple of the full period in the periodic directions find the same orbital, and positions or names without an orbital, or displaced along open directions, find none. Printing a lattice lists its orbitals in order, one per line, with position and name.',
     ['inputs', 'configurations'], 'all unit cells, lattice vectors, numbers of cells, boundary conditions and displacements',
     'Tests look up orbitals on a few lattices.',
     ['qosy/lattice.py'],
     [('construction', 'Lattice.__init__'), ('lookup with wrapping', 'Lattice.index')],
     'Hypothesis: brute-force geometric model',
     'Random search over 1-3 dimensional lattices of up to about 60 orbitals.')
prop('C13', 'Lattice distance is the shortest distance over periodic images',
     'The distance between two orbitals (given by index or position) is the smallest Euclidean distance between them over all translations by full periods of the periodic directions. '
     'It is symmetric, zero exactly for coinciding positions, satisfies the triangle inequality, and is unchanged by periodic translations of the lattice.',
     ['inputs', 'configurations'], 'all lattices, boundary conditions and pairs of positions',
     'Tests check a few pairs on short chains and squares.',
     ['qosy/lattice.py'],
     [('minimum image', 'Lattice.distance')],
     'Hypothesis: brute-force minimum over many images, metric laws',
     'Random search; the brute-force oracle minimises over all images that can matter.')
prop('C14', 'Symmetry transformations act as (anti)automorphisms of the algebra',
     'Time reversal, particle-hole, label permutations and spinful time reversal act on strings and operators as conjugation by a fixed unitary or antiunitary operator with the documented action on single orbitals: '
     'they preserve products (with complex conjugation of phases when antiunitary), Hermiticity and norms. Products and powers of transformations act as the composition in the documented order, and each transformation has its documented order.',
     ['inputs'], 'all strings and Hermitian operators of the supported types, all permutations, all compositions and powers',
     'Tests apply the transformations to a few strings; signs depend on the reordering of all fermionic operators.',
     ['qosy/transformation.py', 'qosy/tools.py'],
     [('rules', '_permutation_rule, _time_reversal_rule, _particle_hole_rule, _sz_rule'), ('composition', 'Transformation._product_rule, __mul__, __pow__')],
     'Hypothesis: automorphism laws and exact action on generators as oracle',
     'Random search over strings of up to 7 operators and words of up to 4 transformations.')
prop('C15', 'Lattice symmetries move orbitals where geometry says',
     'A space-group symmetry moves the operators on every orbital to the orbital at the transformed position with the same name, a spin-flip symmetry exchanges the up and down orbitals at each position, and the spin-parity symmetry '
     'changes the sign of strings with an odd number of fermionic operators on down orbitals. Maps that do not take the lattice to itself are rejected with an error.',
     ['inputs', 'configurations'], 'all lattices with named orbitals, boundary conditions, point-group matrices and displacements',
     'Tests use a few symmetries of one or two lattices.',
     ['qosy/transformation.py', 'qosy/lattice.py', 'qosy/tools.py'],
     [('space group', 'space_group_symmetry'), ('spin flip', 'spin_flip_symmetry'), ('spin parity', 'spin_parity_symmetry')],
     'Hypothesis: brute-force geometric model composed with an exact relabelling oracle',
     'Random search over lattices of up to 12 orbitals.')
prop('C16', 'Symmetry matrices represent the action of a transformation',
     'The symmetry matrix of a transformation in a basis of strings or a list of independent operators has as its columns the coefficients of the transformed basis elements, with components outside of the basis dropped. '
     'On a space closed under the transformations it is unitary for an orthonormal basis, and the matrix of a product of transformations is the product of their matrices.',
     ['inputs'], 'all bases, independent operator lists and transformations',
     'Tests check the matrices of two symmetries on one basis.',
     ['qosy/transformation.py'],
     [('string basis', '_symmetry_matrix_opstrings'), ('operator basis', '_symmetry_matrix_operators')],
     'Hypothesis: differential against the independent action on each element',
     'Random search over bases of up to about 60 strings.')
prop('C17', 'Commuting operators found are sound and complete',
     'The vectors returned for an operator are an orthonormal basis of exactly the space of operators in the given basis (of strings or of independent operators) that commute, or anticommute when requested, with it: '
     'every returned combination does so, and no independent one is missing. The returned superoperator, eigenvalues and eigenvectors belong to each other. With a fixed number of vectors requested, that many orthonormal eigenpairs of the same superoperator are returned, and the vectors reported as solutions are solutions.',
     ['inputs'], 'all bases or lists of independent operators and all Hermitian operators of the same type',
     'Tests check a few known symmetries; soundness and completeness must hold for every operator and basis.',
     ['qosy/core.py', 'qosy/algebra.py'],
     [('null space', 'commuting_operators'), ('superoperator', 'liouvillian_matrix')],
     'Hypothesis: exact commutators and brute-force null-space dimension as oracle',
     'Random search over bases of up to about 60 strings with well-conditioned coefficients.')
prop('C18', 'Invariant operators found are sound and complete',
     'The vectors returned for a transformation form an independent set spanning exactly the operators in the given basis (of strings, closed or not, or of independent operators) that are left invariant, or change sign when requested, by it. '
     'The returned superoperator annihilates exactly the returned space, and with a fixed number of vectors requested the vectors reported as solutions are orthonormal solutions.',
     ['inputs'], 'all bases or lists of independent operators and all transformations of their type',
     'Tests check a few known symmetries on one basis.',
     ['qosy/core.py', 'qosy/transformation.py'],
     [('eigenspace', 'invariant_operators'), ('symmetry matrix', 'symmetry_matrix')],
     'Hypothesis: exact action of the transformation and brute-force null-space dimension as oracle',
     'Random search over bases of up to about 60 strings.')
prop('C19', 'The symmetric operator generator returns exactly the common solutions',
     'For any sequence of symmetries (operators and transformations, commuting or anticommuting) the n-th projected output spans exactly the operators in the starting basis that satisfy the first n requirements, '
     'in cumulative and non-cumulative mode and with any combination of sparsification and orthogonalisation, also when more symmetries are added and the generator is run again. Outputs have unit norm, are linearly independent, and the final space does not depend on mode or on the order in which the symmetries were added. The superoperators, eigenvalues and eigenvectors kept beside the results belong to them. A symmetry added with a number of vectors limits its own output (to some of the solutions) and no other.',
     ['histories', 'inputs', 'configurations'], 'all bases, all sequences of symmetries, modes and post-processing options',
     'Tests run one generator per mode on one Hamiltonian family.',
     ['qosy/core.py', 'qosy/tools.py'],
     [('cumulative mode', 'SymmetricOperatorGenerator._generate_cumulative'), ('non-cumulative mode', 'SymmetricOperatorGenerator._generate_noncumulative'), ('span operations', 'intersection, sparsify, gram_schmidt')],
     'Hypothesis: brute-force null space of the stacked exact constraints as oracle',
     'Random search over sequences of up to 4 symmetries and bases of up to about 40 strings.')
prop('C20', 'Symmetrised bases are complete sets of invariant orbits',
     'Symmetrising a basis under a group generated by orbital permutations returns normalised operators that are each invariant under every generator, that are linearly independent with disjoint supports, '
     'and that span exactly the group averages of the strings in the basis; strings whose average vanishes contribute nothing.',
     ['inputs'], 'all bases of Pauli or Majorana strings and all lists of permutation generators, including redundant ones',
     'Tests symmetrise one chain basis.',
     ['qosy/symmetrization.py', 'qosy/transformation.py'],
     [('group closure', 'symmetrize_basis'), ('group average', '_symmetrize_opstring')],
     'Hypothesis: brute-force group closure and exact averages as oracle',
     'Random search over groups of up to 120 elements on up to 6 orbitals.')
prop('C21', 'Matrix and vector forms of operators are faithful',
     'The sparse matrix of a Pauli string or operator is its matrix in the tensor-product basis with the first orbital most significant, so that sums, scalings, products and Hermitian conjugation of operators and matrices correspond. '
     'Expanding a matrix in a basis of Pauli strings gives back the coefficients, and rebuilding the operator from them recovers the original.',
     ['inputs'], 'all Pauli operators with complex coefficients on any number of orbitals',
     'Tests compare a few small matrices.',
     ['qosy/diagonalization.py'],
     [('bit action', '_apply_opstring'), ('matrix', 'to_matrix'), ('expansion', 'to_vector, to_operator')],
     'Hypothesis: Kronecker-product matrices as oracle, homomorphism and round trip',
     'Random search on up to 6 orbitals.')
prop('C22', 'Diagonalisation gives the spectrum of the many-body operator',
     'Diagonalising a Hermitian operator of any type returns its eigenvalues in ascending order, up to a constant shift for the identity component of non-Pauli operators, with orthonormal eigenvectors that satisfy the eigenvalue equation in the stated matrix conventions. '
     'Requesting a number of vectors returns that many lowest eigenpairs of the same spectrum, and the general mode handles non-Hermitian operators.',
     ['inputs', 'configurations'], 'all operators on up to a few orbitals, all modes',
     'Tests diagonalise a few model Hamiltonians.',
     ['qosy/diagonalization.py', 'qosy/conversion.py'],
     [('dense and sparse solvers', 'diagonalize'), ('matrix', 'to_matrix')],
     'Hypothesis: dense Fock-space matrices as oracle',
     'Random search on up to 6 orbitals.')
prop('C23', 'Free-fermion solvers agree with the many-body spectrum',
     'For every quadratic fermionic Hamiltonian, in Fermion or Majorana form, the single-particle energies of the quadratic, Bogoliubov-de Gennes and tight-binding solvers reproduce, through occupation of independent modes, the full many-body spectrum, '
     'including degenerate and zero modes. The returned modes are orthonormal and diagonalise the Hamiltonian.',
     ['inputs'], 'all quadratic Hamiltonians with hopping, on-site and pairing terms and real or complex amplitudes',
     'Tests check one or two chains.',
     ['qosy/diagonalization.py'],
     [('Majorana solver', 'diagonalize_quadratic'), ('BdG solver', 'diagonalize_bdg'), ('tight binding', 'diagonalize_quadratic_tightbinding')],
     'Hypothesis: exact many-body diagonalisation of Fock-space matrices as oracle',
     'Random search on up to 5 modes.')
prop('C24', 'State permutations, reduced density matrices and entropies are exact',
     'Permuting the orbitals of a state is the unitary that carries every Pauli operator to its relabelled one. The reduced density matrix of a state gives all expectation values of operators on the remaining orbitals (matrix elements between two states for a pair), '
     'is Hermitian, positive and of unit trace for a normalised state, and the Renyi entropy of it is that of its eigenvalues and equal for a subsystem and its complement.',
     ['inputs'], 'all states, subsystems in any order and permutations on up to a few orbitals',
     'Tests check product and Bell-like states.',
     ['qosy/diagonalization.py'],
     [('permutation', 'apply_transformation, apply_transformation_conf'), ('partial trace', 'reduced_density_matrix'), ('entropy', 'renyi_entropy')],
     'Hypothesis: tensor-reshape and expectation-value oracle',
     'Random search on up to 6 orbitals.')
prop('C25', 'Span tools preserve vector spaces',
     'Orthonormalising columns gives orthonormal columns with the same span, prefix by prefix, dropping only dependent columns when a tolerance is given; sparsifying gives unit columns with the same span, orthonormal when requested; '
     'and intersecting two spaces given by orthonormal columns gives unit, independent columns spanning exactly their intersection. Dense and sparse inputs agree and inputs are not modified.',
     ['inputs'], 'all real and complex matrices with well-separated singular values, including zero, dependent, single and empty column sets',
     'Tests try a few small matrices.',
     ['qosy/tools.py'],
     [('orthonormalisation', 'gram_schmidt'), ('sparsification', 'sparsify'), ('intersection', 'intersection')],
     'Hypothesis: rank and projection oracle',
     'Random search over matrices of up to 9 rows with entries on a coarse grid.')
prop('C26', 'Combinatorial tools compute what they state',
     'The sign of a permutation is its determinant and is multiplicative; sorting with sign sorts stably and reports the parity; lexicographic comparison is a total order by length and then entries; the maximal cliques and connected components of an undirected graph are exactly those of the graph. '
     'Duplicates are removed keeping first occurrences, swapping and simultaneous replacement of names act on every occurrence at once, and permutations compose right to left.',
     ['inputs'], 'all permutations, label lists, graphs, strings and object lists',
     'Tests check a few graphs and permutations.',
     ['qosy/tools.py'],
     [('parity', 'sign, sort_sign'), ('order', 'compare, cmp_to_key, argsort'), ('graphs', 'maximal_cliques, connected_components'), ('names and lists', 'swap, replace, remove_duplicates, compose_permutations')],
     'Hypothesis: brute-force definitions as oracle',
     'Random search; graphs of up to 8 nodes by subset enumeration.')
prop('C27', 'Selected-CI searches report true commutator norms of real operators',
     'Starting from any operator, the selected-CI searches return normalised operators whose reported figure of merit is the squared norm of their commutator with the given Hamiltonian and, without further constraints, the smallest one in their basis, over histories of expansions and truncations. '
     'The basis explored step by step, its extension and the Liouvillian matrix agree with a direct computation also when exploration data is re-used; each step keeps exactly the largest terms within the size limit and threshold and adds only strings from repeated commutators (the largest ones in the greedy searches), and the best operator found is returned.',
     ['histories', 'inputs'], 'all Hamiltonians and starting strings of one type, all numbers and sizes of exploration, expansion and truncation steps',
     'Tests check one exploration; the search history is cached and incremental.',
     ['qosy/algorithms.py'],
     [('exploration', '_explore'), ('truncation', '_truncate_basis'), ('searches', 'selected_ci, selected_ci_simple, selected_ci_sweep, selected_ci_greedy*')],
     'Hypothesis: direct exact commutators as oracle over generated search histories',
     'Random search over small Hamiltonians.')
prop('C28', 'Symmetrised lattices are invariant and contain the original atoms',
     'Symmetrising a lattice under point-group generators gives a unit cell in which every atom (position and orbital names, modulo the new lattice vectors) is carried to an atom by every element of the generated group, every atom of the enlarged original cell is kept, '
     'and no atom is duplicated. The input lattice is left unchanged.',
     ['inputs', 'configurations'], 'all periodic lattices whose lattice vectors are compatible with the point group, and all generating sets',
     'No test symmetrises a lattice.',
     ['qosy/symmetrization.py'],
     [('expansion', '_expand_lattice'), ('group closure', 'symmetrize_lattice'), ('deduplication', '_symmetrize_atoms, _remove_duplicate_atoms')],
     'Hypothesis: brute-force group orbit modulo translations as oracle',
     'Random search over 1-3 dimensional unit cells.')
prop('C29', 'Ladder operators found satisfy the eigenvalue equation',
     'Every raising operator found in a basis for an operator satisfies the commutation relation with its reported positive eigenvalue, has unit norm and lies in the basis; all independent raising operators of complete bases are found. '
     'Conversely the inverse search returns a normalised operator that has the given ladder operator as an eigenoperator together with exactly the operators commuting with it.',
     ['inputs'], 'all Hermitian operators and bases in which the search is defined',
     'Tests check one su(2) example.',
     ['qosy/core.py'],
     [('ladder search', '_ladder_operators'), ('inverse search', '_inverse_ladder_operators')],
     'Hypothesis: exact commutators and brute-force eigenspaces as oracle',
     'Random search over small bases.')
prop('C30', 'Printing and relabelling show exactly the given operators',
     'Printing operators or coefficient vectors lists exactly the strings whose coefficients exceed the threshold, with coefficients and orbital labels that can be read back to the same operator, normalised as requested, in the order given. '
     'Relabelling with lattice coordinates and names is one to one on orbitals.',
     ['inputs'], 'all operators, coefficient vectors, thresholds, normalisations and lattices',
     'No test reads the printed form back.',
     ['qosy/visualization.py', 'qosy/basis.py'],
     [('printing', 'print_operators, print_vectors'), ('relabelling', 'relabel_orbitals'), ('string form', 'Operator.__str__, Basis.__str__')],
     'Hypothesis: parse-back round trip',
     'Random search over operators of up to 6 terms.')
prop('C31', 'Inconsistent inputs are rejected rather than computed on',
     'Calls whose arguments contradict each other (mixed operator types, wrong prefactors, unequal numbers of operators and labels, repeated strings, unknown operation modes, invalid permutations, unsupported types or objects) '
     'raise an error instead of returning a result, and leave their arguments unchanged.',
     ['inputs'], 'all combinations of well-formed objects with one contradiction',
     'Tests check almost no error paths.',
     ['qosy/operatorstring.py', 'qosy/basis.py', 'qosy/algebra.py', 'qosy/conversion.py', 'qosy/transformation.py', 'qosy/core.py', 'qosy/diagonalization.py', 'qosy/tools.py'],
     [('validation', 'constructors, product/commutator/anticommutator, convert, symmetry_matrix, invariant_operators, to_matrix, diagonalize_*')],
     'Hypothesis: generated contradictory calls, expected error',
     'Random search over the documented error conditions.')

prop('C32', 'Plots show the lattice and the operator where they are',
     'plot draws one marker at the position of every orbital of a lattice of one to three dimensions and, if asked, the orbital labels, the atoms of the unit cell, the lattice vectors and (in two dimensions) the '
     'Wigner-Seitz cell, i.e., the points closer to the origin than to any other lattice point. plot_operator and plot_opstring draw, with opacity and width proportional to the coefficient relative to the largest one, '
     'a marker in the color of each operator for one-orbital strings, two such markers and a blue (positive) or red line for two-orbital strings, and a polygon through exactly the positions for longer ones, '
     'leave out strings longer than distance_cutoff and identities, and warn if an imaginary part is dropped.',
     ['visualization'], 'all lattices, options and operators on them', 'There are no tests of plots.',
     ['qosy/visualization.py'],
     [('visualization', 'plot, plot_opstring, plot_operator')],
     'Hypothesis: artists read back against a geometric model',
     'Random search over lattices of up to 16 orbitals and operators of up to 5 terms; the artists are inspected, not pixels.')

prop('C33', 'Calls have no memory and no side effects',
     'The result of every public function depends only on the values of its arguments: not on the calls made before, on other objects, on what was done to results returned earlier, on which of two equal '
     'objects is given, or on the process (the hash seed) it runs in. Except for the operations documented to work in place, no call changes its arguments, the tables of the module or the settings of the process (random state, warning filters, print options), and '
     'operators, bases, arrays and lists that are returned can be changed without changing the arguments or any later result.',
     ['histories', 'inputs', 'processes'], 'all sequences of calls over a shared pool of objects, in every process',
     'Tests call each function once or twice on fresh objects; state that leaks through caches, shared storage or set ordering only shows in a sequence of calls or in another process.',
     ['qosy/basis.py', 'qosy/algebra.py', 'qosy/core.py', 'qosy/lattice.py', 'qosy/transformation.py', 'qosy/tools.py', 'qosy/conversion.py', 'qosy/diagonalization.py', 'qosy/symmetrization.py', 'qosy/visualization.py'],
     [('all exported functions', 'qosy.*'), ('shared storage', 'Operator, Basis'), ('orderings', 'cluster_basis, distance_basis, structure_constants, symmetrize_basis')],
     'Hypothesis: generated call histories; snapshots, overwritten results, repetition, reordering and other processes as oracle',
     'Random search over histories of up to 9 of 68 kinds of calls on small objects (three orbitals); results that are defined up to a basis are compared by their span.')

NOT_APPLICABLE = {}

lines, checks, na = [], [], []
for p in P:
    mod = os.path.join(V, 'harness', 'props', p['pid'].lower() + '.py')
    lines.append(json.dumps(dict(id=p['pid'], title=p['title'], statement=p['statement'],
                                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))))
    assert len(p['title']) <= 80, p['title']
    if os.path.exists(mod):
        checks.append(dict(property=p['pid'], quick_cmd='./run.sh ' + p['pid'], thorough_cmd='./run.sh ' + p['pid'],
                           technique=p['technique'], level='exploration', level_note=p['note'],
                           evidence_file='evidence/{}.json'.format(p['pid'])))
    else:
        na.append(dict(property=p['pid'], reason=NOT_APPLICABLE.get(p['pid'], 'check not built yet')))
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           notes='Property-based testing with Hypothesis; run.sh <ID> decides one property, run.sh <ID> --replay FILE replays a case. No hooks.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
