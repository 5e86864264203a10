"""What DESIGN.md says of each property beyond the statement: (specified and proved, bounded beside it, reach)"""
D = {}
D["S01"] = ("`operator==`, `<`, the hash functors and constructors of StateOne, StateTwo and the legacy states, run on symbolic states: equivalence, strict total order, agreement of order and equality, equal hashes of equal states, getters return what was given.",
            "parsing of species strings; random states including -0.0, labels and mixed species.", "5 s")
D["S02"] = ("`operator^`, `getReflected`, constructors from species strings: a pattern matches exactly if every field that is not the wildcard agrees.", "random patterns.", "4 s")
D["S03"] = ("the four selection rules of MatrixElementCache.cpp and the legacy ones against triangle inequality, parity and projection, for all quantum numbers; a rejected element vanishes.", "comparison with Wigner symbols from GSL.", "5 s")
D["S04"] = ("cache keys (what is part of them, hash agrees with equality, both orders of the two states give one key) and that stored factor times the sign of the key is the factor of the request, against the symmetries of 3j and 6j symbols.", "whole elements against the closed formula; order of requests.", "17 s")
D["S05"] = ("every public request and `update()` with loop invariants: missing sets empty afterwards (also when it throws), no stored value changed, every missing element stored under its own key with its value; SQL texts are read by `engine/sqlmodel.py` as statements on ghost tables.", "histories of requests, two caches sharing a file, CSV databases.", "17 s")
D["S06"] = ("`QuantumDefect::setup` and constructors against row functions of arbitrary databases; the shared state is havocked whenever the lock is taken (lock hooks), so an interleaving with any other thread is covered; reference members of copies point into the copy.", "random databases, threads.", "4 s")
D["S07"] = ("`Cache` save, restore, clear: the map is touched only with the lock held, every path releases it, a restored value is the saved one, a different value for a known key is refused.", "threads under ThreadSanitizer-free stress.", "4 s")
D["S08"] = ("`Configuration`: put/get per type, `operator+=`, `operator==`, saving and loading with loop invariants over all keys.", "texts with special characters through files.", "3 s")
D["S09"] = ("`sqlite::statement` and `handle` over a ghost cursor: rows are delivered once each, in order, every error code throws, bindings go to their index, iteration visits each row once. Not claimed: `reset()` after a failed step rethrows the old error, `set()` after exhaustion needs a reset, texts with NUL are truncated.", "random tables.", "3 s")
D["S10"] = ("model potential, grids, Numerov recursion (every grid point satisfies the recursion, by loop invariant), Whittaker functions, index search, and the overlap sum of the radial element.", "rounding of grids, hydrogen closed forms.", "5 s")
D["S11"] = ("phases, Fourier sum and right-angle formula by loop invariants; the closed formula for spins 1/2 to 4 as polynomial identities in cos and sin of half the angle, decided by `engine/ring.py` (normal form modulo c^2+s^2=1 and square roots).", "unitarity and composition for spins up to 20 (rounding).", "24 s")
D["S12"] = ("every entry of the six tensors as a rational function of x, y, z with the square root of their norm, equal to the symbolic derivative (ring back end); the lazily computed members by an object invariant (a tensor that is present belongs to the current geometry).", "numerical derivatives.", "9 s")
D["S13"] = ("every operation of SystemBase keeps an invariant over symbolic non-commuting matrices: basisvectors = B0 Q, hamiltonian = Q'(H0 + X)Q, unperturbed copies and flags in agreement. Rewrite rules express unitarity.", "random histories on real systems.", "35 s")
D["S14"] = ("entries, overlaps and choices over a model of sparse matrices by stored entries (ghost row/slot functions), with loop invariants for any size.", "lists of indices, connections, unitarize, add.", "35 s")
D["S15"] = ("setters, combination, the sum of all terms and its equality with the Cartesian Hamiltonian; initializeInteraction for an arbitrary entry of an arbitrary operator of each kind (18 loops with invariants: which operators are made, the sum of the triplets at that entry, the change of basis, the operators of the opposite sign); transformInteraction for every stored operator.", "operators built from solid harmonics in Cartesian coordinates, without Wigner symbols.", "40 s")
D["S16"] = ("setters, refusals, combination, the sum of all terms of the three approaches; transformInteraction for every stored matrix; initializeInteraction without the Green tensor for an arbitrary entry of an arbitrary operator (refused geometries, which operators are made, the coefficients of the direction, the dipole pairs and the sum over all multipoles of both atoms, mirroring and change of basis).", "Legendre expansion of the Coulomb energy in Cartesian monomials, image charges; filling of the matrices of the Green tensor.", "40 s")

D["S17"] = ("restrict* and range, validity of states and energies, SystemOne::initializeBasis for an arbitrary state (sound and complete, each once), symmetrized vectors of one atom, addBasisvectors of both, removeRestrictedStates, updateEverything.", "SystemTwo::initializeBasis (pairs, products, projections, refusals).", "40 s")
D["S18"] = ("the nine angle terms equal the Cartesian dipole-dipole interaction; C3, C6 of a state, the C6 matrix and the energies for an arbitrary entry: the code's sum equals a ghost sum over the virtual states it evaluates, and an arbitrary virtual state is evaluated exactly once if the dipole operator connects it, it is physical, in the range of n and not in the list, never otherwise. Nested loops have invariants relative to their entry.", "sums over all pair states with Cartesian operators; the Hamiltonian of SystemTwo.", "90 s")

D["S22"] = ("for StateOne, StateTwo, the legacy states, enumerated states, the four cache keys, MatrixElementCache, four SystemBase, two SystemOne and two SystemTwo instantiations, serialize is run symbolically on an arbitrary object with a saving archive and on an arbitrary other object with a loading archive: names and order agree and each data member listed by the compiler for the class (so a member added later is included) equals the saved one; the list of states is written and read element by element (two loop invariants over a ghost tape); sparse matrices are compressed before their sizes are taken and all three arrays are transferred at full length, dense ones likewise; ArrayData transfers every entry (text, loop invariant) or every byte (binary); the database of a loaded cache is the saved one. Four members of three classes were missing (fixed)", "random histories of systems before and after a JSON or binary round trip, compared as operators; caches, states, matrices", "25 s / 60 s")

D["S19"] = ("arithmetic, change of basis, access and filling over symbolic matrices; applyCutoff, removeUnnecessaryStates, both removeUnnecessaryBasisvectors, findUnnecessaryStates and getBlock for any size: the triplets of the transformation are exactly one unit entry for each wanted index, in order (arbitrary index, loop invariants with a ghost count and ghost weights), and the result is the product with it; every function that changes the matrix empties the cached bytes.", "serialization to bytes and files, hashes, diagonalize, against dense matrices.", "10 s")
