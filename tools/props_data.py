NA = {}
prop("S01", "Equality, order and hash of states are one consistent total order",
     "Two states (one atom, atom pair, artificial or symmetry label) are equal exactly when all their identifying data are equal, the comparison operators form one strict total order compatible with that equality, and equal states have equal hashes whichever constructor made them.",
     ["inputs"], "for all pairs and triples of states and symmetries, by every constructor",
     "tests compare a handful of states; basis bookkeeping relies on the laws for every pair, and a broken law only corrupts some basis later",
     ["State.cpp", "State.hpp", "StateOld.cpp", "StateOld.hpp", "Symmetry.hpp"],
     [("comparison operators and hash of one-atom and pair states", "State.cpp"), ("symmetry order and hash", "Symmetry.hpp")],
     note="all comparison operators, hashes and constructors proved for all field values; strings are points of a total order")
prop("S02", "Wildcard patterns match exactly the states agreeing on all fixed fields",
     "A state matches a pattern exactly when it agrees with the pattern in every quantum number that is not the wildcard, pair patterns match atom by atom, and a state is reported as generalized exactly when it contains a wildcard. Reflection negates the magnetic quantum numbers only and is its own inverse; the spin of a species is read from its trailing digit.",
     ["inputs"], "for all states and patterns", "tests use few patterns; every filter and overlap uses the match",
     ["State.cpp", "StateOld.cpp"], [("pattern match operator, generalized flag, reflection, species analysis", "State.cpp")],
     note="proved for all field values; parsing of the species string is decided on the bounded harness")
prop("S03", "Selection rules accept exactly the pairs allowed by angular momentum and parity",
     "A multipole or momentum transition is accepted exactly when the orbital, total and magnetic quantum numbers satisfy the triangle, parity and projection conditions of its rank; without a given projection it is accepted exactly when some projection is. Pairs that are rejected have vanishing matrix elements.",
     ["inputs"], "for all pairs of fine-structure states, all ranks and projections",
     "no test calls the rules; a rule that is too strict silently removes couplings from every Hamiltonian",
     ["MatrixElementCache.cpp", "MatrixElements.cpp"], [("selection rule functions, new and legacy", "MatrixElementCache.cpp")],
     note="proved for spins 1/2..3/2, kappa<=1000; zeros of Wigner symbols are assumed library facts")
prop("S04", "A matrix element depends only on the two states, not on their order or the past",
     "Every electric, magnetic, diamagnetic or radial matrix element that is returned equals the closed formula of the two given states, in whichever order the pair was asked for first. Elements between different species are refused.",
     ["inputs", "histories"], "for all pairs of fine-structure states, ranks, methods and request orders",
     "the code is not compiled by the tests here at all; one stored value serves both orders, so a sign can be wrong for one order only",
     ["MatrixElementCache.cpp", "MatrixElementCache.hpp"],
     [("canonical keys with a sign", "MatrixElementCache.cpp"), ("assembly of the element from its factors", "MatrixElementCache.cpp")],
     note="proved against Wigner symmetry axioms and real arithmetic; numeric agreement with GSL-computed symbols on the harness")
prop("S05", "Stored matrix elements stay right through every history of requests",
     "Whatever was precalculated, requested, switched, loaded from the shared cache file or refused before, each stored element in memory and in the file holds the value belonging to its own key, including the integration method it was requested with. A failing request leaves nothing behind that makes later valid requests fail.",
     ["histories", "fault_sequences"], "for all sequences of requests, precalculations, method and database switches, failures and reopened caches",
     "needs multi-step histories with failures and several cache objects on one file; no test compiles this class here",
     ["MatrixElementCache.cpp", "MatrixElementCache.hpp"],
     [("update of missing elements and database synchronisation", "MatrixElementCache.cpp"), ("precalculation", "MatrixElementCache.cpp")],
     note="update() verified with loop invariants and a ghost model of the SQL statements' texts; loading of CSV files is bounded")
prop("S07", "The shared cache behaves like one map under concurrent use",
     "A stored value is returned unchanged by every later lookup until the cache is cleared, a key is never overwritten (a second save is refused), lookups find exactly the stored keys, and no operation gets through while another thread is inside the cache.",
     ["histories", "schedules"], "for all sequences of operations from any number of threads",
     "tests use one thread and one key; a missing lock corrupts memory only under a particular interleaving",
     ["Cache.hpp"], [("save, restore and clear under the mutex", "Cache.hpp")],
     note="proved per operation over a map; exclusion follows from the proved lock-held condition at every access to the map and mutual exclusion of std::mutex")
prop("S06", "Quantum defects follow from the rows of the database that was asked for",
     "The effective quantum number, the energy and the model potential parameters of a level are the Rydberg-Ritz formula of the rows of the named database, with l and j capped at the largest ones the database has; levels without rows and databases that cannot be read are refused. The answer does not depend on which levels of which databases were asked before or concurrently by other threads, and copies keep their own values.",
     ["inputs", "histories", "schedules"], "for all databases, levels, request orders and thread interleavings",
     "tests ask one database from one thread; the lookups share a static cache whose owner database changes between calls",
     ["QuantumDefect.cpp", "QuantumDefect.hpp"],
     [("database lookup, capping and formula", "QuantumDefect.cpp"), ("shared cache tied to one database name", "QuantumDefect.cpp")],
     note="setup proved against row functions of arbitrary databases with the shared state havocked at lock acquisition; SQLite and file reading are assumed contracts, exercised by the harness")
prop("S08", "A configuration is a map of texts that survives saving and merging",
     "What is written under a key is read back unchanged (texts exactly, integers exactly, floating-point numbers to the six digits they are written with); count, find and the constant [] see exactly the keys that are present; += takes every entry of the right-hand side and leaves the other entries alone; == holds exactly for the same keys with the same values; a configuration saved to JSON and loaded again has exactly the same keys and values, whatever characters they contain, and loading replaces only the keys in the file.",
     ["inputs", "histories"], "for all keys and values (valid UTF-8 for the file), all configurations",
     "tests use a few short alphabetic keys", ["ConfParser.hpp", "ConfParser.cpp"],
     [("values, +=, ==", "ConfParser.hpp"), ("JSON files", "ConfParser.cpp")],
     note="proved over maps of texts with loop invariants for += and for both JSON loops; std::map, stream formatting of integers and the boost JSON writer/reader are assumed contracts, exercised by the harness")
prop("S09", "The SQLite wrapper steps through exactly the rows of a query and never hides an error",
     "Stepping a prepared statement returns true once per row of its query, in order, then false; stepping further, or stepping a query that was not prepared since it was set, throws and does not touch the database; every SQLite error from preparing, stepping, binding, resetting, executing or opening is thrown; the range-based for loop runs its body exactly once per row for any number of rows (zero included); bound values and texts reach the query and are read back unchanged (temporaries are copied); and after a connection was moved, its busy handler belongs to the living object and waits instead of failing.",
     ["inputs", "histories"], "for all queries, row counts, values and operation orders",
     "the only tested loop has exactly two rows, and the only statement is used in one order", ["SQLite.hpp"],
     [("statement state machine and iterator", "SQLite.hpp"), ("connection and busy handler", "SQLite.hpp")],
     note="proved over a ghost cursor with the documented behaviour of the SQLite C functions as assumed contracts; row loop by invariant for any number of rows")
prop("S10", "Radial wavefunctions and radial matrix elements obey their equations",
     "The model potential is the published parametric potential with core polarisation and, below l=4, spin-orbit coupling; the Numerov wavefunction obeys Numerov's recurrence for that potential at every grid point, has the sign fixed by n-l and unit norm on the square-root grid; the Whittaker wavefunction is the Coulomb function of the level; both grids cover the documented interval; the search for a grid point ends, never leaves the grid and finds every point of the grid; a radial matrix element is the sum over the common points of the two grids with the right volume element and power, zero without overlap, and does not depend on the order of the two states.",
     ["inputs"], "for all levels (n up to 1000), powers and grids",
     "the tests compare three grid values with constants computed by the same code", ["Wavefunction.cpp", "Wavefunction.hpp"],
     [("model potential, Numerov integration, Coulomb functions", "Wavefunction.cpp"), ("grid search and integration", "Wavefunction.hpp")],
     note="proved in real arithmetic with loop invariants for every loop; rounding (grid points of different grids are not bit-identical), GSL's hypergeometric function and agreement with closed forms of hydrogen are covered by the harness (bounded)")
prop("S11", "Wigner rotation matrices represent the rotation group",
     "For every spin, projections and Euler angles the value is exp(-i m alpha) d(j,m,m',beta) exp(-i m' gamma) with Wigner's d matrix in the convention d(1/2,1/2,-1/2) = -sin(beta/2): the matrices are unitary, compose (d(b1) d(b2) = d(b1+b2)), are the identity for no rotation and (-1)^(2j) for a full turn, and are continuous through the right angle, where another formula is used; no argument leaves the domain of the binomial coefficients and factorials.",
     ["inputs"], "for all spins up to 85, projections and angles (closed formula: all angles, spins up to 4)",
     "no test calls WignerD", ["WignerD.cpp", "WignerD.hpp"],
     [("phases, Fourier sum, right-angle formula", "WignerD.cpp")],
     note="phases, Fourier sum and right-angle formula proved for all arguments with loop invariants; equality with Wigner's closed formula proved for all angles for spins 1/2 to 4, from which unitarity and composition follow for these spins; larger spins and rounding by the harness (bounded)")
prop("S12", "Green tensors are the derivatives of the potential of a charge and its mirror image",
     "For every separation the dipole-dipole, dipole-quadrupole and quadrupole-dipole tensors of free space are (minus) the second and third derivatives of 1/|rA-rB| along the coordinates of the two atoms; with a perfectly conducting surface the derivatives of the potential of the mirror image are added; a tensor always belongs to the current geometry, in whatever order tensors are asked for and a surface is added; a surface is refused exactly when the atoms leave the xz-plane or an atom would be inside the plate.",
     ["inputs", "histories"], "for all separations, surface distances and call orders",
     "no test of the build calls GreenTensor, and the Python tests compare whole Hamiltonians at single geometries", ["GreenTensor.cpp", "GreenTensor.hpp"],
     [("tensors, surface, lazily computed members", "GreenTensor.cpp")],
     note="every entry of the six tensors proved equal to the symbolic derivative in real arithmetic; lazily stored tensors by an object invariant; Eigen's fixed-size operations are assumed contracts, exercised by the harness against numerical derivatives")

prop("S13", "A Hamiltonian does not depend on the history of its system",
     "For all sequences of setting fields, distances and angles, of building the basis, interaction or Hamiltonian, of diagonalizing, returning to the canonical basis and rotating, the Hamiltonian of a system (as an operator on its states) is the one of a fresh system given the final parameters: basis vectors stay orthonormal, the Hamiltonian after diagonalize() is diagonal, Hermitian and the same operator, canonicalize() gives the canonical basis, rotating a system equals rotating its fields; a system that refuses to build its basis keeps its restrictions.",
     ["histories", "inputs"], "for all sequences of operations and all parameter values, real and complex, one and two atoms",
     "the caches, the unperturbed copies and the is-new-required flags interact over histories of several operations; the tests of the build call no system at all", ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"],
     [("buildHamiltonian, buildInteraction, diagonalize, canonicalize, rotate, onParameterChange", "SystemBase.cpp")],
     note="an invariant over the basis, the Hamiltonian, the stored unperturbed copies and the interaction (symbolic non-commuting matrices) is proved for every operation of SystemBase; the random histories of the harness are bounded")

prop("S14", "Entries, overlaps and choices of basis vectors mean what they say",
     "For every system whose basis vectors are orthonormal: getHamiltonianEntry is <row|H|col>; setHamiltonianEntry makes that entry (and its conjugate) the value given and addHamiltonianEntry adds it, keeping all other entries and Hermiticity; getOverlap is the squared modulus of the overlap of the (rotated) state with each basis vector, summed over generalized quantum numbers; getMainStates is the state with the largest weight; getStateIndex is the position of a state and getBasisvectorIndex the basis vector it dominates, refused for unknown states; constrainBasisvectors keeps exactly the chosen columns and forgetStatemixing exactly the diagonal; applySchriefferWolffTransformation yields an orthonormal basis of the unperturbed space.",
     ["inputs"], "for all systems, states, entries, choices and rotations",
     "no test of the build calls a system; an entry of a complex Hamiltonian or a choice of basis vectors is checked nowhere", ["SystemBase.cpp", "SystemBase.hpp"],
     [("getHamiltonianEntry, getOverlap, getStateIndex, constrainBasisvectors, forgetStatemixing", "SystemBase.cpp")],
     note="symbolic matrices with rewrite rules for unitary basis vectors, and sparse matrices by entry, with loop invariants for any size; lists of basis vector indices, connections, unitarize and add are bounded (harness)")

prop("S15", "The Hamiltonian of an atom is that of the fields and the ion it was given",
     "For every basis of fine-structure states, all electric and magnetic fields (given by components, by rotated axes or by Euler angles), with and without diamagnetism and with an ion of any charge, order and distance, the Hamiltonian is H0 - d.E - mu.B + (e r x B)^2/(8m) - sum_k charge k e^2 r^k P_k(cos)/R^(k+1) in the space of the states, with the library's radial integrals; it is Hermitian; states that are artificial get no interaction; a field along y is refused by a real system and leaves no trace; systems are combined only if their species, fields, diamagnetism and ion agree.",
     ["inputs"], "for all fields, ions, bases, real and complex",
     "no test of the build constructs a system; signs, prefactors and components of four spherical tensors only show in combinations of fields", ["SystemOne.cpp", "SystemOne.hpp"],
     [("fields, diamagnetic terms, interaction, combination", "SystemOne.cpp")],
     note="spherical components, diamagnetic coefficients, the sum of all terms (any order of the ion's expansion, by a loop invariant) and the equality with the Cartesian Hamiltonian are proved; so is the filling of the interaction matrices with the matrix elements, for an arbitrary entry, and their change of basis; that those matrix elements are the Cartesian operators is bounded (harness, against operators built without Wigner symbols)")

prop("S16", "The interaction of two atoms is the Coulomb energy of their charges, to the given order",
     "For every pair basis, distance vector, order, and with or without a conducting surface, the Hamiltonian of a pair is H1 + H2 plus the multipole expansion of the Coulomb energy between the two atoms, all terms up to 1/R^order (image charges included if there is a surface), in the space of the states, with the library's radial integrals; it is Hermitian; below order 3 and at infinite distance there is none; whatever approach computes it (multipole operators along z, dipoles at an angle, Green tensor) gives the same; geometries an approach cannot describe are refused; a refused parameter leaves no trace; pairs of atoms are combined only if species, geometry, order, surface and approach agree.",
     ["inputs"], "for all geometries, orders, surfaces and bases, real and complex",
     "no test of the build constructs a pair of atoms; signs of odd orders, the order of indices of tensors and the direction of the axis show only in particular geometries", ["SystemTwo.cpp", "SystemTwo.hpp"],
     [("geometry, interaction, combination", "SystemTwo.cpp")],
     note="geometry, refusals and the coefficient of every interaction matrix in the sum (all three approaches) are proved with loop invariants; the change of basis of the stored matrices and their filling without the Green tensor too; the filling with the Green tensor and that the multipole series equals the Coulomb expansion are bounded (harness, against Legendre polynomials in Cartesian coordinates)")

prop("S17", "A basis contains exactly the states asked for; symmetrized bases are orthonormal and make up complete sectors",
     "A basis of one atom consists of exactly the states with physical momenta (triangle inequality, whole steps) in the ranges of n, l, j, m and energy, plus the states added by the user, each once; with rotation symmetry only the momenta asked for; with reflection symmetry one normalized eigenvector of the reflection for each pair m, -m. A basis of pairs is spanned by the products of the vectors of the atoms in the energy range, projected on the asked symmetry (permutation, inversion, reflection, rotation): orthonormal vectors, eigenvectors of the symmetry with the asked parity; the sectors of a symmetry together make up the full space. Later restrictions leave exactly the vectors in range. Added states that are there already, of a wrong species, or without their symmetry partners are refused; so are infinite bases.",
     ["inputs"], "for all ranges, energies, symmetries, added states and species",
     "no test of the build constructs a basis of pairs; a missing or doubled state shows only for particular ranges and symmetries", ["SystemBase.cpp", "SystemBase.hpp", "SystemOne.cpp", "SystemTwo.cpp"],
     [("restrictions, removal, update of a basis", "SystemBase.cpp"), ("basis of one atom", "SystemOne.cpp"), ("basis of pairs", "SystemTwo.cpp")],
     note="restrictions, the whole construction of the basis of one atom (loops over sets with invariants, for an arbitrary state), symmetrized vectors, entries of pair vectors and the restriction of existing bases are proved; the products and projections of SystemTwo::initializeBasis are bounded (harness); one known finding: reflection and rotation symmetry of pairs combined")

prop("S18", "C3 and C6 are the dipole-dipole interaction of two atoms in first and second order",
     "For all pair states, angles and ranges deltaN: getC3 of two pair states is R^3 times the matrix element of the dipole-dipole interaction between them, zero if it changes a momentum by more than a dipole can (or, without an angle, the total momentum); getC6 of a state is the sum over all physical pair states connected by the dipole operator with principal quantum numbers within deltaN, each once, of the squared element over the difference of the energies; getC6 of a list of states is the matrix of the effective Hamiltonian of second order in the space of the states, over all intermediate states not in the list; the matrices are symmetric and getEnergy is their diagonal of unperturbed energies.",
     ["inputs"], "for all states, angles, deltaN and lists of states",
     "no test of the build compiles the perturbation theory; missing intermediate states change results by a few per cent for particular species only", ["PerturbativeInteraction.cpp", "PerturbativeInteraction.hpp"],
     [("angle terms, C3, C6, energies", "PerturbativeInteraction.cpp")],
     note="all functions are proved for an arbitrary entry and an arbitrary virtual state (ghost sum and ghost count through eleven nested loops); the dipole elements and energies are functions of the quantum numbers; rounding is bounded (harness)")

prop("S22", "What was saved and loaded is the same, and behaves the same",
     "For all states, cache keys, caches of matrix elements, systems of one and two atoms (real and complex) and matrices: loading what was saved gives an object whose every data member equals the one of the saved object (lists of states in order, matrices entry by entry, the cache of a system by value, its database reopened), saving changes nothing, and every sequence of later operations gives the same results on both.",
     ["inputs", "histories"], "for all objects in all states, all numbers of states and entries, both scalar types, binary and text archives",
     "no test of the build saves anything; a data member left out of serialize keeps its default value in the loaded object and shows only for systems that use that feature", ["SystemBase.hpp", "SystemOne.hpp", "SystemTwo.hpp", "MatrixElementCache.hpp", "State.hpp", "StateOld.hpp", "serialization_eigen.hpp"],
     [("serialize of all classes, save/load of lists of states", "SystemBase.hpp"), ("serialize of matrices, ArrayData", "serialization_eigen.hpp")],
     note="every data member of every serialized class is proved to be read back, list and array transfers by loop invariants; cereal itself is assumed; later behaviour additionally bounded (harness)")

prop("S19", "Hamiltonian matrices carry their basis along, and keep it in files",
     "For all Hamiltonian matrices (entries with the basis they refer to, real or complex): sums, differences and multiples act on the entries and keep the basis; a change of basis is the product of matrices; keeping vectors (below a cutoff, with enough weight in given states, or the vectors of a block) or states keeps exactly those, in order, with their entries and coefficients; serialized bytes always describe the matrix as it is now, never as it was; what is read back from bytes or a file is the matrix that was written, of any size and sparsity; equal matrices have equal hashes.",
     ["inputs", "histories"], "for all matrices, sizes, sparsity patterns, selections and sequences of operations, both scalar types",
     "no test of the build compiles these matrices; wrong columns and stale bytes show only for particular patterns of entries or orders of operations", ["Hamiltonianmatrix.cpp", "Hamiltonianmatrix.hpp", "Serializable.hpp"],
     [("matrices with their basis", "Hamiltonianmatrix.cpp"), ("bytes", "Serializable.hpp")],
     note="arithmetic, change of basis, access, filling, blocks and all selections are proved with loop invariants for any size (each function drops the bytes of the former matrix); bytes and files are bounded (harness)")
