#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  Run: python3 tools/mkprops.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, oracle=None, na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, technique=' '.join(technique.split()),
                  note=' '.join(note.split()), na=na))


E = 'edpyt/'
PBT = 'property-based testing: '

prop('C01', 'Sector bases are complete, ordered and searchable',
     """For every number of levels and particles the basis of a sector lists every bit pattern with that particle
     number exactly once in increasing order, and the reported sector dimension is its exact size. Looking a pattern up
     returns its position, or a clear 'absent' answer for a pattern outside the basis. Over all particle numbers the
     sectors partition the whole state space.""",
     ['inputs'], 'all 1 <= n <= 32 levels, 0 <= p <= n particles (bases enumerated up to a few thousand states, dimensions for all), present and absent probes',
     'tests/test_sector.py and test_lookup.py look at one or two small sectors; the 32-bit pattern arithmetic and the floating-point binomials only go wrong at specific (n, p).',
     [E + 'sector.py', E + 'lookup.py', E + 'espace.py'],
     [('bit-permutation generator', 'edpyt/sector.py:permutations/generate_states'), ('binomial dimension', 'edpyt/sector.py:get_sector_dim'), ('binary search', 'edpyt/lookup.py:binsearch'), ('empty sector', 'edpyt/espace.py:build_empty_sector')],
     PBT + 'generated (n, p) and probe patterns against an itertools enumeration and exact integer binomials',
     'bases of up to 32 levels with few particles or holes, all bases up to 10 levels, every dimension up to 32 levels')

prop('C02', 'Quantum-number and index maps are exact inverses',
     """The maps between a pair of spin occupations and its sector number, and between a many-body basis index and its
     (up, down) index pair, are bijections that undo each other, with the up index running fastest. A bit pattern
     written as text or digits shows level 0 first and converts back to the same pattern. Adding or removing a particle
     of a given spin gives the neighbouring sector, an out-of-space error when there is none and a usage error for an unknown spin,
     and the table of eigenstates to compute lists every sector's dimension (clipped at the requested maximum) for both supported symmetries.""",
     ['inputs'], 'n up to 16 levels, all sector pairs, all basis indices of sectors up to 5000 states, patterns of up to 32 bits, any clip value',
     'The tests use these maps at a handful of points; a swapped axis or an off-by-one only shows for unequal occupations or at the border of the space.',
     [E + 'lookup.py', E + 'sector.py', E + 'espace.py'],
     [('index maps', 'edpyt/lookup.py:get_spin_indices/get_state_index/get_sector_index/get_num_spins'), ('pattern text', 'edpyt/lookup.py:binrep/intrep'), ('neighbour sectors', 'edpyt/sector.py:get_c_sector/get_cdg_sector'), ('eigenstate table', 'edpyt/espace.py:get_espace_dim')],
     PBT + 'round trips and an independent arithmetic model of every map', 'exhaustive within each generated sector')

prop('C03', 'Fermionic operators obey the canonical anticommutation relations',
     """Creation and annihilation operators acting on occupation patterns anticommute exactly as fermions do, for every
     pair of levels, with one consistent sign convention. The combined hop operator equals annihilation followed by creation, including its sign,
     and occupation tests report the level's bit. Creating on an occupied level or annihilating on an empty one is refused.""",
     ['inputs'], 'all patterns of n <= 32 levels and all ordered pairs of levels',
     'tests/test_operators.py checks a few patterns; sign errors depend on the number of particles between two levels.',
     [E + 'operators.py'],
     [('flip and sign', 'edpyt/operators.py:flip/fsgn/get_parity'), ('operators', 'edpyt/operators.py:c/cdg/cdgc/check_full/check_empty')],
     PBT + 'algebraic relations ({c_i,c_j+}=delta_ij, {c_i,c_j}=0, c+c) composed from the real operators on generated patterns',
     'n <= 8 exhaustive over patterns per case, up to 32 levels sampled')

prop('C04', 'Sector Hamiltonian equals the second-quantised Hubbard operator',
     """In every sector of fixed up and down occupation the sparse Hamiltonian equals, element by element and including signs, the
     second-quantised operator with the given (optionally spin-dependent) level energies and symmetric hoppings,
     on-site repulsion, inter-site density interaction, chemical-potential shift and particle-hole-symmetric mode with its reference density.
     It is real symmetric and applying it to a vector agrees with its dense form. Building it leaves the caller's Hamiltonian matrix
     unchanged and writable.""",
     ['inputs', 'configurations', 'schedules'], 'n <= 4 levels, all sectors, and up to 24 levels with few particles or holes; symmetric H shared or per spin, arbitrary density-density V, hfmode on/off, any mu and z; generated interleavings of the parallel loops',
     'tests/test_build_mb_ham.py compares hard-coded small matrices; wrong signs, transposed spin channels or lost terms show only for asymmetric parameter choices and certain fillings.',
     [E + 'build_mb_ham.py', E + 'ham_local.py', E + 'ham_hopping.py', E + 'matvec_product.py'],
     [('diagonal part', 'edpyt/ham_local.py:_build_ham_local'), ('hopping', 'edpyt/ham_hopping.py:build_ham_hopping'), ('assembly', 'edpyt/build_mb_ham.py:build_mb_ham')],
     PBT + 'generated parameters and sectors against an independent Fock-space construction, compared elementwise up to a fixed fermion-ordering gauge',
     'all sectors for n <= 5, few-particle sectors (up to 120 states) for n <= 24; parallel loops under simulated schedules of 1-5 threads with statement-level switching')

prop('C05', 'Exchange, pair hopping and charge-symmetric Hamiltonians are exact',
     """With spin-exchange and pair-hopping interactions (symmetric matrices, given separately or together with the
     density interaction) the sector Hamiltonian equals the second-quantised operator in both the up/down and the
     total-charge classification. In the total-charge classification hopping is discarded with a warning and the level
     energies of both spins, the density interaction and the reference densities are kept. The matrices passed in are left unchanged.""",
     ['inputs', 'configurations'], 'n <= 4 levels, all sectors of both classifications, any subset of {U, Jx, Jp}',
     'tests/test_exchange_exact.py covers one two-level model; missing terms and sign errors depend on which levels are doubly occupied.',
     [E + 'ham_non_local.py', E + 'ham_local.py', E + 'build_mb_ham.py'],
     [('exchange and pair hopping', 'edpyt/ham_non_local.py'), ('charge-symmetric diagonal', 'edpyt/ham_local.py:_N_build_ham_local')],
     PBT + 'generated parameters and sectors against an independent Fock-space construction', 'all sectors for n <= 4, few-particle sectors for n <= 16; parallel loops under simulated schedules')

prop('C06', 'Sparse products equal dense linear algebra',
     """The compiled kernels that apply a sparse matrix to a vector, to its up index or to its down index add exactly
     the product to the output and touch nothing else, for any sparsity, shape and thread count. The Hamiltonian operator
     applied to a vector equals the dense matrix product, is linear, does not modify its input, honours a supplied output vector
     and is repeatable.""",
     ['inputs', 'schedules'], 'random CSR matrices (empty rows, duplicate entries, explicit zeros), random vectors, dup x dwn shapes including 1, thread counts 1..8',
     'tests/test_psparse.py multiplies one random matrix; index errors at empty rows, non-square spin shapes and races between threads need many shapes.',
     [E + 'psparse.pyx', E + 'matvec_product.py', E + 'cs_gaxpy.c', E + 'ham_hopping.py', E + 'ham_local.py'],
     [('kernels', 'edpyt/psparse.pyx:UPmultiply/DWmultiply/Multiply'), ('operator', 'edpyt/matvec_product.py:matvec_operator/todense')],
     PBT + 'differential test of the compiled kernels against numpy, with guard words around outputs and several OpenMP thread counts',
     'dimensions up to 40 x 40 per spin; schedules sampled by the OS')

prop('C07', 'Solved eigenspaces contain true, orthonormal, lowest eigenpairs',
     """Every solved sector holds ascending eigenvalues with orthonormal eigenvectors satisfying the eigenvalue equation
     of the sector Hamiltonian, and the requested number of lowest states; sectors requested with zero states are absent.
     The reported ground-state energy is the lowest over all kept sectors, and for both
     classifications the spectrum is the true many-body one. The non-interacting shortcut gives the spectrum of
     independent particles.""",
     ['inputs', 'configurations'], 'n <= 4 levels, arbitrary symmetric H and interactions, per-sector counts from 0 to full, both symmetries',
     'tests/test_espace_exact.py checks one model; truncation, degenerate spectra and the bookkeeping of per-sector counts are not covered.',
     [E + 'espace.py'],
     [('sector loop', 'edpyt/espace.py:build_espace'), ('solver choice', 'edpyt/espace.py:solve_sector'), ('free particles', 'edpyt/espace.py:build_non_interacting_espace')],
     PBT + 'residual, orthonormality and full reference-spectrum comparison', 'n <= 4; iterative branch is covered by C08')

prop('C08', 'Iterative eigensolver finds the lowest states',
     """For any real symmetric operator given only as a matrix-vector product, the iterative solver returns the
     requested number of algebraically lowest eigenvalues in ascending order (fewer only when a tight cluster exhausts the iteration limit), with orthonormal eigenvectors of small
     residual, with or without a starting vector, and large sectors solved with it agree with full diagonalisation.""",
     ['inputs'], 'dimension 5..700, 1 <= k <= 10, spectra with gaps, clusters, degeneracies, negative and positive shifts',
     'tests/test_eigh_arpack.py uses one matrix; wrong end of the spectrum, workspace slicing or ordering bugs depend on size and k.',
     [E + 'eigh_arpack.py', E + 'espace.py'], [('reverse communication loop', 'edpyt/eigh_arpack.py:eigsh'), ('sector branch', 'edpyt/espace.py:_solve_arpack')],
     PBT + 'generated spectra and rotations against dense diagonalisation', 'dims up to 200 quick, 700+ for the many-body branch')

prop('C09', 'Screening and adaptive state counts keep what matters over any history',
     """Screening keeps exactly the eigenstates whose Boltzmann factor exceeds the cutoff, with matching eigenvectors,
     drops sectors left empty and never loses the ground state. After each round the per-sector request grows by one where
     the whole request was used (never above the sector size), shrinks by one where fewer states survived or the sector is absent (never
     below one) and is otherwise unchanged. Repeating solve, screen and adjust over any number of rounds keeps these
     invariants and the ground-state energy.""",
     ['histories', 'inputs'], 'histories of up to 8 rounds with changing parameters, temperatures and cutoffs, n <= 4; synthetic spaces up to n = 6',
     'tests/test_adjust_neigsector.py checks one single step; the counters only misbehave over sequences or with absent sectors at the start or end.',
     [E + 'espace.py'], [('screening', 'edpyt/espace.py:screen_espace'), ('adjustment', 'edpyt/espace.py:adjust_neigsector')],
     PBT + 'model-based histories against a reference implementation of the rules', 'histories up to 8 rounds')

prop('C10', 'Exact Green\'s function equals the spectral (Lehmann) sum',
     """For any model, temperature, level and spin, the finite-temperature Green's function from full diagonalisation
     equals the thermal spectral sum over all transitions at every complex frequency. It is causal, decays as 1/z with unit total weight, and for
     non-interacting electrons it is the resolvent of the one-body matrix.""",
     ['inputs', 'configurations'], 'n <= 3 levels, arbitrary symmetric H and U, every site and both spins, beta from 0.1 to 1000, any energy offset',
     'tests/test_gf_exact.py plots or compares a single chain; spin mix-ups or missing sectors need spin-dependent models and thermal occupation.',
     [E + 'gf_exact.py'], [('projection', 'edpyt/gf_exact.py:project_exact_up/project_exact_dw'), ('assembly', 'edpyt/gf_exact.py:build_gf_exact')],
     PBT + 'differential against an independent Fock-space Lehmann sum; sum rule and resolvent', 'n <= 3')

prop('C11', 'Lanczos Green\'s function agrees with the exact one',
     """For any screened eigenspace the Krylov Green's function, in its pole and continued-fraction forms and in its separate
     particle and hole parts, equals the spectral sum over the kept thermal states, for every site and spin. It is causal and
     carries unit weight, and computing it leaves the eigenspace unchanged so repeated evaluation agrees.""",
     ['inputs', 'configurations', 'histories'], 'n <= 4 levels, any interaction, both kernels, combined and separate, degenerate and thermal ground states',
     'tests/test_gf_lanc_*.py compare one chain; breakdown of the recursion, sectors at the border of the space and degenerate ground states are not covered.',
     [E + 'gf_lanczos.py'], [('projection', 'edpyt/gf_lanczos.py:project_up/project_dw'), ('kernels', 'edpyt/gf_lanczos.py'), ('assembly', 'edpyt/gf_lanczos.py:build_gf_lanczos')],
     PBT + 'differential against an independent spectral sum over the same kept states', 'n <= 4')

prop('C12', 'Matrix Green\'s functions are consistent between all routes',
     """The matrix Green's function between several sites equals the spectral sum in every element for the exact route and,
     over the kept thermal states, for the Krylov route that combines excitations; its particle and hole parts agree whether returned together or separately. The matrix is
     symmetric for real Hamiltonians, and its diagonal equals the single-site function.""",
     ['inputs', 'configurations'], 'n <= 4 levels, any set of up to 3 distinct sites, both spins, any temperature for the exact route',
     'No stable test evaluates a matrix Green\'s function; swapped site indices or lost hole contributions show only off the diagonal.',
     [E + 'gf2_exact.py', E + 'gf2_lanczos.py', E + 'gf_lanczos.py'], [('exact matrix', 'edpyt/gf2_exact.py'), ('Krylov matrix', 'edpyt/gf2_lanczos.py')],
     PBT + 'differential against an independent matrix Lehmann sum', 'n <= 4')

prop('C13', 'Thermal occupations equal exact thermal averages',
     """Site and spin occupations computed from an eigenspace equal the exact thermal expectation of the number operators,
     for row- and column-ordered eigenvectors alike, lie between zero and one for each spin and add up to the particle number of each
     sector. Weighted and unweighted per-state occupations agree with direct counting and the inputs keep their values.""",
     ['inputs', 'configurations'], 'n <= 4, arbitrary eigenvectors and weights, any temperature',
     'tests/test_observs.py uses one model; memory-order handling and spin mapping are only visible with unequal spins.',
     [E + 'observs.py', E + 'dedlib.py'], [('state counting', 'edpyt/observs.py:_get_evecs_occupation'), ('thermal average', 'edpyt/observs.py:get_occupation'), ('impurity count', 'edpyt/dedlib.py:get_occupation')],
     PBT + 'direct summation over generated vectors and reference thermal averages', 'n <= 5')

prop('C14', 'Lanczos recursion yields the Krylov projection of the operator',
     """Starting from any vector, the simple recursion returns coefficients whose tridiagonal matrix is the projection of
     the operator on the Krylov space: the lowest coefficients reproduce the leading moments and its extreme eigenvalue converges to the
     lowest one reachable from the start: it ends only when that level has settled over the window of iterations, the space is exhausted or the
     limit is reached, wherever the zero of energy is. The first off-diagonal entry is the norm of the start vector, a zero start vector is reported as such, and
     the second pass returns the Ritz vectors of that matrix.""",
     ['inputs'], 'dimension 1..60, arbitrary spectra including degenerate ones, start vectors inside invariant subspaces, iteration limits 2..60; spectra of up to 1500 levels around energies up to 2e4',
     'tests/test_lanczos.py runs one random matrix; premature stopping, breakdown and normalisation errors need invariant subspaces.',
     [E + 'lanczos.py'], [('step', 'edpyt/lanczos.py:_sl_step'), ('recursion', 'edpyt/lanczos.py:build_sl_tridiag'), ('second pass', 'edpyt/lanczos.py:sl_solve')],
     PBT + 'moment identities and dense Krylov reference', 'dim <= 1500')

prop('C15', 'Block Lanczos and orthogonalisation keep the spanned space',
     """From several start vectors the block recursion returns the projection of the operator on the joint Krylov space:
     its eigenvalues are those of the operator in the reachable subspace once the space is exhausted, also when start vectors are linearly dependent. The
     orthogonalisation helpers return orthonormal vectors spanning the same nested subspaces.""",
     ['inputs'], '1..4 start vectors, dimension 2..40, dependent and invariant start vectors, arbitrary spectra',
     'No stable test covers the block recursion; deflation only happens for special start vectors.',
     [E + 'lanczos.py'], [('block recursion', 'edpyt/lanczos.py:build_bd_tridiag'), ('Gram-Schmidt', 'edpyt/lanczos.py:gram_schmidt_rows/gram_schmidt_columns')],
     PBT + 'dense reference of the reachable subspace', 'dim <= 40')

prop('C16', 'Tridiagonal eigensolvers return correct eigenpairs',
     """For any real symmetric tridiagonal matrix the full and the index-range solvers return ascending
     eigenvalues that agree with dense diagonalisation, with orthonormal eigenvectors of small residual when
     requested, and the ground-state helpers return the lowest pair. Inputs are not modified.""",
     ['inputs'], 'size 1..60, zero, tiny, huge and equal entries, every valid index range',
     'The solvers are only exercised through Lanczos; index ranges and split matrices are not sampled.',
     [E + 'tridiag.py'], [('full', 'edpyt/tridiag.py:_solve_full'), ('range', 'edpyt/tridiag.py:_solve_partial')],
     PBT + 'differential against dense diagonalisation', 'size <= 60')

prop('C17', 'Compiled continued fraction equals the resolvent it represents',
     """For any coefficients and any scalar or array of complex frequencies, the compiled continued fraction equals the
     corresponding resolvent element of the tridiagonal matrix times the leading numerator, for any thread count and
     any length from one. Scalars give a scalar value and inputs are not modified.""",
     ['inputs', 'schedules'], 'length 1..80, up to 200 frequencies, thread counts 1..8',
     'tests/test_continued_fraction.py uses one short fraction.',
     [E + 'continued_fraction.pyx'], [('recursion', 'edpyt/continued_fraction.pyx:calc')],
     PBT + 'differential against dense linear solves', 'length <= 80')

prop('C18', 'Contour integration of a Green\'s function gives its occupation',
     """Integrating any causal Green's function with the finite-temperature contour returns the Fermi-weighted sum over
     its poles, per component, at the requested chemical potential and temperature, for one chemical potential or one per component.
     The Fermi-function poles and residues used are those of a convergent expansion of the Fermi function.""",
     ['inputs', 'configurations'], 'pole sums with up to 6 poles, mu within the band, T from 100 K to 5000 K, scalar, vector and matrix-valued functions',
     'tests/test_integrate_gf.py integrates one function.',
     [E + 'integrate_gf.py'], [('poles', 'edpyt/integrate_gf.py:zero_fermi'), ('integral', 'edpyt/integrate_gf.py:integrate_gf')],
     PBT + 'closed-form Fermi sums for generated pole sets', 'errors bounded by the truncation of the expansion')

prop('C19', 'Matsubara summation gives the density of a Green\'s function',
     """Summing over Matsubara frequencies with the analytic tail returns the Fermi-weighted pole sum of the Green's
     function at the requested chemical potential, component by component and for any array shape. The chemical
     potential stored in the object is the same afterwards.""",
     ['inputs', 'configurations'], 'pole sums with up to 6 poles, beta 5..100, mu in the band, 1..3 leading dimensions',
     'No stable test covers it.',
     [E + 'integrate_gf.py'], [('tail-corrected sum', 'edpyt/integrate_gf.py:matsum_gf')],
     PBT + 'closed-form Fermi sums for generated pole sets', 'tolerance from the truncated tail')

prop('C20', 'Cotunneling integrals equal the integrals they stand for',
     """The closed-form lead integrals for one, two and four amplitude terms equal the energy integral of the squared
     amplitude weighted with the occupied and empty lead Fermi functions, up to the usual regularisation of the double pole, at any
     bias including zero bias, and vary continuously with it. Forward and backward integrals obey detailed balance.""",
     ['inputs'], 'couplings and energies on both sides of the bias window, beta 1..300, bias from 0 to several units including tiny ones',
     'tests/test_cotunneling.py only draws one curve; small-bias branches are never evaluated by a test.',
     [E + 'integrals.py'], [('single pole', 'edpyt/integrals.py:I1'), ('two poles', 'edpyt/integrals.py:I2'), ('sums', 'edpyt/integrals.py:Gamma1/Gamma2/Gamma4')],
     PBT + 'numerical quadrature of the regularised integral and detailed-balance relations', 'energies on and off degeneracy, bias down to 1e-17 kT')

prop('C21', 'Stationary solution of a rate equation is its steady state',
     """For any rate matrix with a unique steady state the returned populations are finite, non-negative, sum to one
     and are left unchanged by the rates, whatever the overall scale of the rates.""",
     ['inputs'], 'irreducible rate matrices of size 2..8 with rates over many orders of magnitude, any global scale',
     'No stable test runs it; a two-level example cannot expose picking the wrong eigenvector.',
     [E + 'rates.py'], [('null vector', 'edpyt/rates.py:stationary_solution')],
     PBT + 'invariants and scale metamorphic relation on generated rate matrices', 'condition-limited tolerances')

prop('C22', 'Sequential tunneling rates follow Fermi\'s golden rule',
     """Every transition between neighbouring charge states carries the exact matrix element of the added or removed electron and the
     correct addition or removal energy, and electron and hole transitions between the same two states are conjugate. Rate matrices
     conserve probability, have non-negative off-diagonal entries, satisfy detailed balance at equal chemical potentials, and the current matrix
     counts electrons and holes with opposite sign. Energy screening keeps exactly the transitions within the cutoff.""",
     ['inputs', 'configurations'], 'n <= 3, arbitrary H and U, both spins, two leads with arbitrary couplings, mu and beta',
     'tests/test_sqtunneling.py compares one molecule; sign and spin mistakes need asymmetric couplings.',
     [E + 'sqtunneling.py', E + 'rates.py'], [('elements', 'edpyt/sqtunneling.py:project_add/project_sub'), ('rates', 'edpyt/sqtunneling.py:build_rate_matrix/build_transition_matrix')],
     PBT + 'independent golden-rule reference in Fock space', 'n <= 3')

prop('C23', 'Charge-sector sequential tunneling covers all neighbouring states',
     """In the total-charge classification the transition set from a charge state contains every electron
     addition and removal that exists for that charge, including to and from the empty and the full system, with exact matrix elements and energies.
     Rate and current matrices conserve probability, are non-negative off the diagonal and obey detailed balance.""",
     ['inputs', 'configurations'], 'n <= 3 levels, every charge N from 0 to 2n, arbitrary interactions including exchange, two leads',
     'tests/test_sqtnl.py runs one model at one charge; the border charges are never reached.',
     [E + 'sqtnl.py'], [('elements', 'edpyt/sqtnl.py:build_transition_elements'), ('rates', 'edpyt/sqtnl.py')],
     PBT + 'independent golden-rule reference in Fock space', 'n <= 3')

prop('C24', 'Cotunneling rates follow second-order perturbation theory',
     """Second-order amplitudes between states of one sector equal the sum over all virtual electron and hole states of
     products of matrix elements over energy denominators, at every energy, for every pair of leads. Rate matrices conserve probability with
     non-negative off-diagonal rates; the approximate, closed-form and numerical integrations agree where all apply, and at zero bias nothing flows.""",
     ['inputs', 'configurations'], 'n <= 3, arbitrary H and U, any sector with neighbours, two leads, any bias within the blockade',
     'tests/test_cotunneling.py draws one stability diagram.',
     [E + 'cotunneling.py', E + 'cotools.py'], [('amplitudes', 'edpyt/cotunneling.py'), ('rates', 'edpyt/cotunneling.py')],
     PBT + 'independent second-order reference in Fock space', 'n <= 3')

prop('C25', 'Charge-sector cotunneling is complete and consistent',
     """In the total-charge classification second-order amplitudes contain every virtual electron and hole process that exists for the given
     charge, with exact matrix elements and denominators. The rate matrix conserves probability with non-negative rates, the
     closed-form and numerical integrations agree, and screening removes only negligible processes.""",
     ['inputs', 'configurations'], 'n <= 2..3, every charge, arbitrary interactions, two leads, bias within the blockade',
     'No stable test imports the module.',
     [E + 'cotnl.py', E + 'cotools.py'], [('amplitudes', 'edpyt/cotnl.py:build_transition_elements'), ('integration', 'edpyt/cotnl.py:Sigma')],
     PBT + 'independent second-order reference in Fock space', 'n <= 3')

prop('C26', 'Sampled baths reproduce the sampled Green\'s function',
     """Sampled poles are ascending, lie within the sampling limits and follow the given density; the discrete impurity model fitted to them has
     the same non-interacting Green's function as the poles at every frequency. The assembled single- and
     multi-orbital Hamiltonians are symmetric and their impurity element of the resolvent is that Green's function.""",
     ['inputs', 'configurations'], 'pole sets of 2..8 with gaps from 1e-3 to 5, arbitrary densities, 1..3 orbitals',
     'No stable test covers the sampling or the fit.',
     [E + 'dedlib.py'], [('sampler', 'edpyt/dedlib.py:RandomSampler'), ('fit', 'edpyt/dedlib.py:Gfimp.fit'), ('assembly', 'edpyt/dedlib.py:build_siam/build_moam')],
     PBT + 'resolvent identity between poles, fitted bath and assembled matrix; distribution test', 'gaps >= 1e-3')

prop('C27', 'Distributional solver averages satisfy exact limits',
     """Without interaction the sampled self-energy vanishes and both occupations agree; with interaction the self-energy equals the
     average over accepted samples of the difference of inverse Green's functions and is reproducible for a given random stream.
     Impurity occupations are those of the ground state, the entropy is the thermal one minus that of the bath, and smoothing a
     self-energy is linear, preserves constants, passes low frequencies and gives zero outside the given energies.""",
     ['inputs', 'configurations', 'histories'], '2..4 poles, U from 0 to 5, several temperatures, random streams, 1..4 accepted samples',
     'No stable test runs the solver.',
     [E + 'dedlib.py'], [('solver', 'edpyt/dedlib.py:siam_solve/moam_solve'), ('entropy', 'edpyt/dedlib.py:get_entropy')],
     PBT + 'replayed random streams against an independent many-body reference', '<= 4 poles')

prop('C28', 'Bath fit reproduces representable hybridisations and never gets worse',
     """The discrete hybridisation, its parameter derivatives, the distance and its gradient equal their mathematical definitions. Fitting never
     increases the distance between model and target on the Matsubara axis and recovers a hybridisation that the bath can represent when started near it.
     Initial baths are finite, span the requested bandwidth and, with two or more levels, are symmetric about zero.""",
     ['inputs'], '1..8 bath levels, arbitrary parameters and targets, beta 5..100, 1..300 frequencies',
     'Only the C version has stable tests and these evaluate one semicircle.',
     [E + 'fit_cg.py'], [('model', 'edpyt/fit_cg.py:_delta/_ddelta'), ('distance', 'edpyt/fit_cg.py:Chi2/dChi2'), ('minimisation', 'edpyt/fit_cg.py:fit_hybrid')],
     PBT + 'definitions, finite differences and monotonicity on generated targets', 'small baths')

prop('C29', 'Compiled bath fit is memory-safe, finite and agrees with the definition',
     """The compiled fit returns finite parameters for any number of bath levels, frequencies and temperature, never worse than its starting bath, and the
     value it reports is the distance of the returned bath. Its model, gradient and initial bath agree with the definition and
     with the interpreted version, and it reads and writes only the arrays it was given and always returns control to the caller.""",
     ['inputs'], '1..12 bath levels, 1..300 frequencies, beta 1..200, targets from semicircles, discrete baths and noise',
     'The stable C tests run one semicircle with eight levels.',
     ['edpyt_backend/bath.c', 'edpyt_backend/fit.c', 'edpyt_backend/frprmn.c', 'edpyt_backend/dlinmin.c', 'edpyt_backend/mnbrak.c', 'edpyt_backend/dbrent.c', 'edpyt_backend/util.c', 'edpyt_backend/fit_wrap.py', E + 'fit_cffi.py'],
     [('initial bath', 'edpyt_backend/bath.c'), ('minimiser', 'edpyt_backend/frprmn.c'), ('entry', 'edpyt_backend/fit.c:fit')],
     PBT + 'differential and sanitizer-instrumented fuzzing of the compiled fit', 'AddressSanitizer and UBSan builds of the same sources')

prop('C31', 'Mean-field impurity and lattice objects satisfy their defining equations',
     """The lattice functions satisfy their defining equations at every frequency: Bethe and Hilbert-transform functions equal the integral over the density of
     states, Weiss field, hybridisation and self-energy are related by Dyson's equation, and spin-resolved objects act channel by channel. Changing the
     chemical potential shifts the levels accordingly, and after a solve the impurity self-energy vanishes without interaction.""",
     ['inputs', 'histories'], 'arbitrary baths with 1..3 levels, U 0..4, mu, complex frequencies, spin-resolved and spin-free',
     'No stable test imports the mean-field module.',
     [E + 'dmft.py'], [('impurity', 'edpyt/dmft.py:Gfimp'), ('lattice', 'edpyt/dmft.py:Gfloc'), ('spin', 'edpyt/dmft.py:SpinGfimp')],
     PBT + 'defining equations evaluated on generated baths and frequencies', 'small baths')

prop('C32', 'Self-consistency loop stops only at true convergence and hits its filling',
     """The loop signals convergence only when the hybridisation reproduces itself within the tolerance, and failure once the iteration limit is exceeded, for any
     order of calls. Chemical-potential adjustment returns a value at which the lattice filling equals the goal, and magnetic seeding shifts
     the two spins in opposite directions. Initialising starts, or starts again, from a fresh bath and the given interaction, self-energy and chemical potential.""",
     ['histories', 'inputs'], 'call histories of up to 8 steps, fillings 0.2..1.8, tolerances and limits, impurity doubles and real impurities',
     'No stable test imports the mean-field module.',
     [E + 'dmft.py'], [('loop', 'edpyt/dmft.py:DMFT'), ('filling', 'edpyt/dmft.py:adjust_mu')],
     PBT + 'model-based histories with a controllable impurity stand-in', 'histories <= 8')

prop('C33', 'Nanostructure lattice functions satisfy Dyson\'s equation',
     """For any Hamiltonian, overlap, lead hybridisation and grouping of equivalent sites, the local Green's function equals the
     selected diagonal of the inverse of the full matrix with each site's self-energy, and Weiss field and hybridisation obey Dyson's equation. Collections of
     impurities act element by element, and occupations are expanded to all equivalent sites.""",
     ['inputs', 'configurations'], '2..6 sites, any grouping, scalar or array frequencies, spin-free self-energies',
     'No stable test covers it.',
     [E + 'nano_dmft.py'], [('lattice', 'edpyt/nano_dmft.py:Gfloc'), ('impurities', 'edpyt/nano_dmft.py:Gfimp')],
     PBT + 'dense reference for generated structures', '<= 6 sites')

prop('C34', 'Distributed transposition is a permutation that undoes itself',
     """Redistributing a block-distributed vector from up to down ordering gives every process the transposed slab of the global array, and
     the reverse operation restores the original, for any number of processes dividing the dimension. Unequal dimensions are refused.""",
     ['inputs', 'configurations', 'schedules'], '1..6 processes, any block size, any numeric content and dtype',
     'tests/test_transpose.py runs on a single process, where the operation is almost trivial.',
     [E + 'vector_transpose.py'], [('transposition', 'edpyt/vector_transpose.py:collect_dw/collect_up')],
     PBT + 'threaded communicator simulation against numpy transposition, and a sample on real MPI processes', '1..6 processes')

prop('C35', 'Distributed solvers agree with the serial ones',
     """With the vector space divided over any admissible number of processes, the Hamiltonian product, the Lanczos recursion and the occupation counts
     equal their serial results on every process. Dimensions that cannot be divided are refused with an error.""",
     ['inputs', 'configurations', 'schedules'], '1..6 processes, sectors with equal up and down dimension, n <= 4',
     'The tests run on a single process.',
     [E + 'matvec_product.py', E + 'lanczos.py', E + 'observs.py', E + 'build_mb_ham.py'], [('distributed product', 'edpyt/matvec_product.py:_matvec_operator_mpi'), ('distributed step', 'edpyt/lanczos.py:_sl_step_mpi'), ('distributed counts', 'edpyt/observs.py:_get_evecs_occupation_mpi')],
     PBT + 'threaded communicator simulation, differential against the serial code, and a sample on real MPI processes', '1..6 processes')

prop('C36', 'Printed states name the right occupations',
     """The printed form of a many-body state shows for every level exactly the spins occupying it, in level order, and distinct states print differently.
     The printed eigenspace lists every eigenstate once, sorted by energy, with each coefficient next to the basis state it belongs to, for both classifications,
     and the charge diagram draws every eigenvalue at the charge of its sector.""",
     ['inputs'], 'n <= 31 levels for single states; eigenspaces of n <= 3 in both classifications',
     'No test covers the display.',
     [E + 'eshow.py'], [('state text', 'edpyt/eshow.py:fock'), ('listing', 'edpyt/eshow.py:eprint'), ('diagram', 'edpyt/eshow.py:pdisplay')],
     PBT + 'parsing the printed text back', 'n <= 8')

prop('C37', 'Results transform with the symmetries of the model',
     """Relabelling levels, flipping signs of level orbitals, exchanging the spins, exchanging particles and holes (density interactions), changing the unit of
     energy (with temperature and frequencies), or writing the half-filling form as explicit one-body terms changes sector spectra, occupations and the exact and Lanczos
     Green's functions (single-level and matrix) exactly as the symmetry prescribes. Two systems that are not coupled give together, with levels interleaved in any
     order, what each gives alone. Tunneling rates (sequential, approximate cotunneling) summed over the states of a pair of sectors obey the same symmetries, the exchange of
     the leads, and agree between spin-resolved and charge sectors for diagonal one-body Hamiltonians.""",
     ['inputs'], 'models of 1-3 levels (cotunneling: 1-2) with density and, except for particle-hole exchange, exchange interactions; random level permutations and signs',
     'Tests fix one arrangement of levels and spins; a symmetry has to hold for all of them at once.',
     [E + 'espace.py', E + 'build_mb_ham.py', E + 'observs.py', E + 'gf_exact.py', E + 'gf2_exact.py', E + 'gf_lanczos.py', E + 'gf2_lanczos.py', E + 'sqtunneling.py', E + 'cotunneling.py', E + 'sqtnl.py', E + 'cotnl.py'],
     [('Hamiltonian', 'edpyt/build_mb_ham.py:build_mb_ham'), ('exact functions', 'edpyt/gf_exact.py:build_gf_exact'), ('Krylov functions', 'edpyt/gf_lanczos.py:build_gf_lanczos'),
      ('rates', 'edpyt/sqtunneling.py:project_sector'), ('charge rates', 'edpyt/sqtnl.py:build_transition_elements')],
     PBT + 'metamorphic relations: the code on a transformed model against the transformed result of the code', 'n <= 3; rates next to a resonance of the approximate formula are skipped')

prop('C38', 'Observables obey the sum rules that link them',
     """For any model and any kept set of thermal states the independently computed observables agree: electron and hole parts of the Green's function carry the weights
     1 - n and n of the thermal occupation and add up to the identity matrix, their first moments give the one-body Hamiltonian plus mean field (density
     interactions) and, with the one-body part, the thermal energy; contour and Matsubara integrals of a solved system's function give its occupation; the occupation is the
     derivative of the thermodynamic potential with respect to the level; and leads at one chemical potential drive the system, by sequential tunneling, into its
     grand-canonical equilibrium with detailed balance.""",
     ['inputs'], 'models of 1-3 levels, density and exchange interactions, complete or clipped kept states, temperatures of 0.1-50 (T = 300-10000 K for the integrals)',
     'Sum rules connect modules no test runs together, and hold for every Hamiltonian.',
     [E + 'observs.py', E + 'gf_exact.py', E + 'gf2_exact.py', E + 'gf_lanczos.py', E + 'gf2_lanczos.py', E + 'integrate_gf.py', E + 'sqtunneling.py', E + 'rates.py'],
     [('occupation', 'edpyt/observs.py:get_occupation'), ('Krylov matrix function', 'edpyt/gf2_lanczos.py:build_gf2_lanczos'), ('contour', 'edpyt/integrate_gf.py:integrate_gf'),
      ('Matsubara', 'edpyt/integrate_gf.py:matsum_gf'), ('steady state', 'edpyt/rates.py:stationary_solution')],
     PBT + 'sum rules; moments are taken by the trapezoidal rule on a circle around all poles (exponentially accurate)', 'n <= 3')

prop('C39', 'Analyses of a system do not disturb each other',
     """In any sequence of analyses (exact and Lanczos Green's functions, occupations, Hamiltonian operators and matrices, diagonalisation, printing, sequential and
     cotunneling rates) on one or several systems kept in memory, every analysis returns what it returns alone on a fresh copy, functions, operators and
     transition elements built earlier still give the right values at the end for the same and for other arguments, and the Hamiltonian, interaction, eigenspaces and
     frequencies passed in are unchanged. This includes models whose arrays are changed in place and solved again between analyses, and data that is read-only.""",
     ['histories'], 'sequences of 2-9 analyses and in-place changes of the model from a pool of 1-10 on one or two systems of 1-3 levels in both classifications, complete or clipped spaces',
     'The order of calls in a session is open; tests run every function once on fresh data.',
     [E + 'espace.py', E + 'observs.py', E + 'gf_exact.py', E + 'gf2_exact.py', E + 'gf_lanczos.py', E + 'gf2_lanczos.py', E + 'matvec_product.py', E + 'sqtunneling.py', E + 'cotunneling.py', E + 'sqtnl.py', E + 'cotnl.py', E + 'eshow.py'],
     [('shared eigenspace', 'edpyt/espace.py:build_espace'), ('operators', 'edpyt/matvec_product.py:matvec_operator'), ('functions', 'edpyt/gf_lanczos.py:build_gf_lanczos')],
     PBT + 'stateful: generated sequences on shared objects against each step alone on a fresh system', 'n <= 3, sequences of up to 9 steps')

prop('C40', 'Drawings show the molecule, orbital or state they are given',
     """In the plane asked for, every pair of bonded atoms is drawn as one line between them; an orbital as one circle on each atom of the subset, in its order, of size
     scale times the square of its coefficient and a colour for its sign; a many-body state by black (spin up) and gray (spin down) circles of the size of the occupation
     of each level, whatever the form of the eigenvector. Given axes are used, the data is unchanged, and an orbital of another size than the atoms is refused.""",
     ['inputs'], 'molecules of 1-9 atoms in chains, rings and clouds in any order, all planes, subsets by list, mask and slice, states of up to 4 levels in any sector',
     'No test draws; pictures are only looked at.',
     [E + 'cotools.py'],
     [('bonds', 'edpyt/cotools.py:draw_skeleton'), ('orbitals', 'edpyt/cotools.py:draw_feynman_dyson_orbital'), ('states', 'edpyt/cotools.py:draw_spin_density')],
     PBT + 'oracle: distances, squares and occupations by definition, against lines and circles recorded by a stand-in plot', 'up to 9 atoms')


def main():
    have = set()
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
            have.add(p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                     anchors=dict(files=p['files'],
                                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m vf.build psparse cf fit', checks=[], not_applicable=[],
               notes='See DESIGN.md.  No hooks are added to /repo: checks run the unmodified sources in a PyPy worker.')
    for p in P:
        if p['id'] in have:
            man['checks'].append(dict(property=p['id'], quick_cmd='python3-vt -m vf.run %s' % p['id'],
                                      thorough_cmd='python3-vt -m vf.run %s --tier thorough' % p['id'],
                                      technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'check under construction'))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    import re
    for p in P:
        assert len(p['title']) <= 80, p['id']
        n = len(re.findall(r'[.;]\s|\.$', p['statement'].replace('i.e.', '')))
        if len(re.findall(r'\.(\s|$)', p['statement'])) > 3:
            print('too many sentences', p['id'])


if __name__ == '__main__':
    main()
