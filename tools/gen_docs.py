#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

Run by hand after editing the table; the checks never run it.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QS = "quantum_systems/"
BS = QS + "basis_set.py"
SY = QS + "system.py"
GO = QS + "general_orbital_system.py"
SO = QS + "spatial_orbital_system.py"
SH = QS + "system_helper.py"
TE = QS + "time_evolution_operators/operator.py"
OD = QS + "quantum_dots/one_dim/one_dim_qd.py"
OP = QS + "quantum_dots/one_dim/one_dim_potentials.py"
DV = QS + "sinc_dvr/one_dim/sinc_dvr.py"
TH = QS + "quantum_dots/two_dim/two_dim_helper.py"
TD = QS + "quantum_dots/two_dim/two_dim_ho.py"
CE = QS + "quantum_dots/two_dim/coulomb_elements.py"
CS = QS + "custom_system.py"
RB = QS + "random_basis.py"
SA = QS + "sampler.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
            files=files, mech=mech, observe=observe, technique=technique, note=note,
        )
    )


prop(
    "C01",
    "A change of basis transforms every stored element consistently",
    "After any sequence of basis changes, with arbitrary (square or rectangular, real or complex) ket "
    "coefficients and with bra coefficients either given or defaulting to the Hermitian conjugate, every quantity "
    "the basis holds (one-body, overlap, dipole, spin one-body and two-body, Coulomb elements, ket and bra "
    "single-particle functions) equals the original contracted index by index with the accumulated coefficients: "
    "bra indices with the bra coefficients, ket indices with the ket coefficients. "
    "The number of basis functions and the occupied/virtual partition follow the new size, quantities that were never "
    "set stay unset, the stand-alone transformation helpers give the same numbers, and neither the coefficient "
    "matrices nor arrays the caller still holds are modified.",
    ["inputs", "histories"],
    "all basis sizes, dimensions, dtypes, combinations of stored elements and sequences of (rectangular, non-unitary, "
    "bi-orthogonal) coefficient matrices, through the basis set and through both kinds of system",
    "The tests apply one random change of basis at one size and look only at the one-body and Coulomb elements; no "
    "test looks at spin operators, dipoles, overlap, bra functions, given bra coefficients, or repeated changes.",
    [BS, SY],
    [("BasisSet.change_basis and its per-quantity helpers", BS), ("BasisSet.transform_* helpers", BS),
     ("QuantumSystem.change_basis / set_system_size", SY)],
    ["matrix-element and spf properties of BasisSet and QuantumSystem after change_basis",
     "transform_one_body_elements, transform_two_body_elements, get_transformed_h/u"],
    "property-based testing: generated histories of basis changes against a naive einsum model",
    "Search over generated histories with a naive per-index einsum model as oracle; whole histories l<=14, stand-alone helpers l<=28. "
    "Trusts numpy.einsum.",
)
prop(
    "C02",
    "Spin doubling duplicates every spatial element into both spin channels",
    "Turning a spatial-orbital basis or system into a general-orbital one yields, for every spatial system and every "
    "orthonormal pair of spin functions, spin-orbitals ordered as (orbital 0 up, orbital 0 down, orbital 1 up, ...) "
    "whose one-body, overlap and dipole elements are the spatial ones times the spin delta, whose two-body elements "
    "are the spatial ones times a spin delta for each particle (then antisymmetrised if requested), and whose ket and "
    "bra functions repeat each spatial function twice, all as complex numbers. "
    "The particle number, nuclear repulsion energy and spatial dimension carry over, a second doubling changes nothing, "
    "and building a general-orbital system from a spatial-orbital system leaves the latter untouched. The stand-alone spin delta follows the same ordering.",
    ["inputs", "histories"],
    "all spatial bases (sizes, real/complex, non-symmetric and non-orthonormal elements, with or without dipole and "
    "single-particle functions, with default, cached or explicitly set bra functions), all orthonormal spin bases, both "
    "antisymmetrisation choices and all three public routes",
    "The tests check the static helpers on one real random array and the spin default (1,0),(0,1); dipoles, overlap, "
    "bra functions, complex data, other spin bases and the untouched original are never compared.",
    [BS, GO, SO, SH, QS + "sinc_dvr/one_dim/sinc_dvr.py"],
    [("BasisSet.change_to_general_orbital_basis", BS), ("add_spin_* helpers", BS), ("spin_delta", SH),
     ("SpatialOrbitalSystem.construct_general_orbital_system", SO), ("GeneralOrbitalSystem.__init__", GO)],
    ["all element properties of the doubled basis/system and of the original"],
    "property-based testing: index-by-index reference model over generated spatial bases",
    "Reference model written as index arithmetic (p//2, p%2); sizes l<=15 (stand-alone helpers 18).",
)
prop(
    "C03",
    "Two-body elements are antisymmetrised exactly once, and only on request",
    "Whatever the order and number of antisymmetrisation requests, wrappings in a general-orbital system, copies and basis changes "
    "(and spin doublings before the first such request), the two-body elements (Coulomb and two-body spin-squared) equal either the plain elements "
    "in the current basis, if antisymmetrisation was never requested, or exactly plain(p,q,r,s) - plain(p,q,s,r), "
    "if it was requested at least once, and the antisymmetrised flag says which. "
    "A basis declared as already antisymmetrised is never antisymmetrised again.",
    ["histories", "inputs"],
    "all histories of antisymmetrise / double / wrap / copy / change-basis operations on all bases",
    "The tests antisymmetrise one array once with the static helper; no test repeats a request, mixes it with other "
    "operations, or looks at the flag or at the two-body spin operator.",
    [BS, GO, SO],
    [("BasisSet.anti_symmetrize_two_body_elements and its flag", BS), ("GeneralOrbitalSystem.__init__", GO)],
    ["BasisSet.u, BasisSet.spin_2_tb, BasisSet.anti_symmetrized_u, QuantumSystem.u"],
    "model-based property testing: generated operation histories against a reference model",
    "Histories of up to 12 operations on bases of up to 10 spatial orbitals.",
)
prop(
    "C04",
    "Spin operators describe spin one-half particles in every basis",
    "For every orthonormal pair of spin functions and every (also non-orthonormal) overlap, the spin matrices of a doubled "
    "basis are one half of overlap times the Pauli matrices in that spin basis, the one-body part of spin squared is three "
    "quarters of the overlap, and the two-body part is the sum over directions of products of spin matrices "
    "(antisymmetrised together with the Coulomb elements). "
    "In any orthonormal basis reached by basis changes the spin matrices therefore obey the angular-momentum "
    "commutators, the many-body operator assembled from the one- and two-body parts equals Sx^2+Sy^2+Sz^2 on the "
    "whole Fock space, and a closed-shell reference determinant has spin zero.",
    ["inputs", "histories"],
    "all spin bases (complex, rotated), all positive-definite overlaps, all orthonormalising and spin-mixing basis changes",
    "The tests use the spin basis (1,0),(0,1), one orthonormal He basis for spin squared, and never change basis after "
    "doubling; a TODO in the tests admits that non-orthonormal bases are not covered.",
    [BS, GO],
    [("setup_pauli_matrices", BS), ("setup_spin_squared_operator", BS), ("_change_basis_one_body_elements", BS)],
    ["spin_x, spin_y, spin_z, spin_2, spin_2_tb of BasisSet and GeneralOrbitalSystem"],
    "property-based testing: exact Fock-space second-quantisation oracle",
    "Fock-space matrices for up to 6 spin-orbitals, algebraic identities up to 28 spin-orbitals.",
)
prop(
    "C05",
    "Reference energy and Fock matrix equal their many-body definitions",
    "For every system the reference energy is the expectation value of the second-quantised Hamiltonian in the determinant "
    "that fills the first orbitals (doubly for spatial systems), so it agrees between a spatial system and its "
    "general-orbital counterpart and does not change under unitary mixing within the occupied or the virtual orbitals. "
    "The Fock matrix built from any given one- and two-body elements is the corresponding mean-field operator: the "
    "spatial one, doubled in spin, equals the general-orbital one, a supplied output array is overwritten whatever it "
    "contained and returned, and the inputs are left untouched.",
    ["inputs"],
    "all Hamiltonians (real, complex, non-symmetric orbitals), all numbers of occupied orbitals including none and all, all "
    "system sizes, both system kinds, elements taken from the system or passed in",
    "One test compares the He reference energy of one system (two particles, one occupied orbital); the Fock matrix is "
    "not tested at all.",
    [GO, SO],
    [("compute_reference_energy", GO), ("construct_fock_matrix", GO), ("compute_reference_energy", SO),
     ("construct_fock_matrix", SO)],
    ["compute_reference_energy(), construct_fock_matrix(h, u, f)"],
    "property-based testing: exact Fock-space expectation-value oracle and metamorphic rotations",
    "Fock-space oracle for up to 6 spin-orbitals, index-sum oracle and spatial/general agreement up to 28.",
)
prop(
    "C06",
    "Particle density is the one-body density matrix in real space",
    "For every density matrix the returned density at each grid point is the sum over p,q of bra_p * rho[q,p] * ket_q, "
    "with the functions optionally transformed by given coefficients (bra coefficients defaulting to the Hermitian "
    "conjugate) exactly as if the basis itself had been changed, and computing it changes nothing. "
    "Consequently it is linear in the density matrix, integrates to its trace in an orthonormal grid basis, is real "
    "for Hermitian density matrices, and for a spin-diagonal density matrix of a spin-doubled system equals the spin-summed spatial density.",
    ["inputs", "histories"],
    "all grids of dimension 1-3, real and complex functions and density matrices, all (rectangular) coefficient pairs, "
    "before and after basis changes and spin doubling, through basis sets and systems",
    "No test calls the particle density.",
    [SH, BS, SY],
    [("compute_particle_density", SH), ("BasisSet.compute_particle_density", BS)],
    ["compute_particle_density of BasisSet and of systems"],
    "property-based testing: pointwise reference sum and metamorphic relations",
    "Grids of 1 to 3 dimensions up to a few hundred points, l<=14.",
)
prop(
    "C07",
    "The time-dependent Hamiltonian is the current Hamiltonian plus the driving term",
    "At every time the one-body Hamiltonian equals the current one-body elements plus pulse(t) times the polarisation(t)-weighted "
    "dipole (laser; polarised along the first axis unless told otherwise) or plus weight(t) times the given matrix (custom), and the "
    "two-body Hamiltonian equals switching(t) times the current two-body elements (adiabatic switching), whether parameters are "
    "constants or functions of time; parts an operator does not drive, and systems without operator, return the static elements, and the one-/two-body flags say "
    "which part is driven. "
    "This holds however often and in whatever order times are evaluated, and after basis changes, operator replacement, copying "
    "the system, and converting a laser-driven or switched spatial system to a general-orbital one; evaluation never alters the stored elements.",
    ["inputs", "histories"],
    "all pulses, weights, polarisations, times and all histories of set / evaluate / change basis / copy / convert",
    "No test touches time evolution operators.",
    [TE, SY, SO],
    [("LaserField.h_t, AdiabaticSwitching.u_t, CustomOneBodyOperator.h_t", TE), ("QuantumSystem.h_t/u_t/set_time_evolution_operator", SY),
     ("construct_general_orbital_system carries the operator over", SO)],
    ["h_t(t), u_t(t), has_one_body_time_evolution_operator, has_two_body_time_evolution_operator"],
    "model-based property testing: generated histories against a closed-form model",
    "Histories of up to 14 operations on systems of up to 9 orbitals.",
)
prop(
    "C08",
    "Copies are complete and fully independent",
    "Copying a basis set or a system, or deriving a general-orbital system from a spatial one, succeeds for every kind of basis and "
    "potential, reproduces every element, size, flag, grid and time-evolution operator, and leaves the original as usable as before. "
    "Afterwards no operation on one of the two (in-place edits of any array, basis changes, spin doubling, antisymmetrisation, "
    "evaluating the time-dependent Hamiltonian) is visible in the other. "
    "Bases built separately are just as independent of each other.",
    ["inputs", "histories"],
    "all basis families (custom, random, 1D quantum dot with every potential, 1D oscillator, sinc-DVR in both representations, 2D "
    "oscillator, double well, magnetic field), both system kinds, with and without operators, and all later operations",
    "One test copies one default 1D system, and edits one element of its one-body matrix.",
    [BS, SY, SO],
    [("BasisSet.copy_basis", BS), ("QuantumSystem.copy_system", SY), ("construct_general_orbital_system", SO)],
    ["all properties of original and copy after generated operations on either"],
    "model-based property testing: aliasing and equality invariants over generated operations",
    "Every basis family, histories of up to 5 later operations.",
)
prop(
    "C09",
    "1D quantum dots: orbitals and elements are those of the discretised Hamiltonian",
    "For every confining potential, grid and basis size the one-dimensional quantum dot holds the lowest eigenstates of the "
    "three-point finite-difference Hamiltonian with hard walls at the grid ends: energies ascending on the diagonal of the "
    "one-body matrix, orbitals orthonormal on the grid and zero at its ends, unit overlap. "
    "Its two-body elements are the trapezoidal double integrals of the shielded Coulomb interaction alpha/sqrt((x1-x2)^2+a^2) in physicists' "
    "order, and its dipole the trapezoidal integral of x + beta*x^2, over exactly those orbitals.",
    ["inputs", "configurations"],
    "all potentials (the shipped families and arbitrary functions, or none: the oscillator with frequency 0.25), grid lengths, odd and even grid sizes, basis sizes, and "
    "interaction parameters a, alpha, beta",
    "The tests compare four systems of ten orbitals on one grid with stored arrays, all with default a, alpha and beta and real orbitals.",
    [OD, OP],
    [("ODQD.setup_basis / construct_dipole_moment", OD), ("inner and outer trapezoidal integrals", OD)],
    ["grid, h, s, u, dipole_moment, spf, eigen_energies of ODQD"],
    "property-based testing: eigen-residual validity predicate and vectorised quadrature oracle",
    "l<=16 and up to 301 grid points; pairs of neighbouring configurations evaluated in one process.",
)
prop(
    "C10",
    "1D harmonic-oscillator basis equals the analytic oscillator",
    "For every frequency, grid and basis size the oscillator basis has energies omega*(n+1/2), unit overlap, the normalised Hermite functions "
    "on the grid, position matrix elements sqrt((n+1)/(2*omega)) between neighbours and zero elsewhere, and two-body elements equal to "
    "the trapezoidal double integral of the shielded Coulomb interaction over those functions.",
    ["inputs", "configurations"],
    "all frequencies, grids, basis sizes, and interaction parameters",
    "One doctest looks at a single diagonal element; no other test constructs this basis.",
    [OD],
    [("ODHO.setup_basis, ho_function, normalization, construct_dipole_moment", OD)],
    ["h, s, u, dipole_moment, spf of ODHO"],
    "property-based testing: independent Hermite recurrence and quadrature oracle",
    "l<=45, grids up to 400 points; pairs of neighbouring configurations in one process.",
)
prop(
    "C11",
    "1D potentials match their formulas, and derivatives match the potentials",
    "Every shipped one-dimensional potential (harmonic, double well, smooth double well, symmetric and asymmetric polynomial double wells, "
    "Gaussian with and without hard wall, soft-Coulomb atomic) evaluates, for all parameters, to its defining formula at scalars and at arrays alike (the hard-wall one at arrays). "
    "Where a derivative is offered it is the derivative of that same potential at every point where it exists.",
    ["inputs"],
    "all parameters and all real positions, scalar or array",
    "Derivatives are never tested; values are only tested indirectly for four parameter choices.",
    [OP],
    [("__call__ and derivative of each potential class", OP)],
    ["potential(x), potential.derivative(x)"],
    "property-based testing: closed-form and numerical-differentiation oracles",
    "Positions up to |x|=20 and parameters in physically sensible ranges.",
)
prop(
    "C12",
    "Sinc-DVR elements are exact and its 2D and 4D two-body forms are equivalent",
    "For every grid, potential and interaction the sinc-DVR basis has the exact sinc kinetic matrix plus the potential on the diagonal, unit "
    "overlap, cardinal functions on the grid, a diagonal dipole x + beta*x^2 and a two-body interaction diagonal in both particles. "
    "The compact (2D) and full (4D) two-body forms stay interchangeable: switching the representation of the diagonal interaction and back loses nothing, and basis changes, "
    "transformation helpers (with or without their antisymmetrisation option), copies and general-orbital systems "
    "give the same elements whichever form was used.",
    ["inputs", "histories", "configurations"],
    "all grids, sizes, potentials, interaction parameters, coefficient matrices, and sequences of representation switch / basis change / spin doubling / copy",
    "No test constructs a sinc-DVR basis.",
    [DV, BS, GO],
    [("ODSincDVR.setup_basis / construct_coulomb_elements", DV), ("set_u_repr", DV), ("transform_two_body_elements, add_spin_two_body, anti_symmetrize_u overrides", DV),
     ("change_to_general_orbital_basis override", DV)],
    ["h, s, u, dipole_moment, spf of ODSincDVR and of systems built from it"],
    "property-based testing: closed-form oracle and 2D/4D differential testing over histories",
    "l<=24 (histories l<=10).",
)
prop(
    "C13",
    "2D oscillator orbital numbering is a shell-ordered bijection, energies included",
    "For every orbital index the two-dimensional oscillator assigns a unique pair of radial and angular quantum numbers, the inverse map returns the same index, "
    "indices run through complete shells of increasing energy, and within a shell through increasing angular momentum. "
    "The one-body matrix of any size, at any frequency, is diagonal with omega*(2n+|m|+1) in that order.",
    ["inputs"],
    "all orbital indices, all quantum-number pairs, all basis sizes and frequencies",
    "The tests compare a stored table of low indices, and 36 one-body elements at frequency one.",
    [TH, TD],
    [("get_indices_nm / get_index_p", TH), ("get_one_body_elements, get_shell_energy", TH), ("TwoDimensionalHarmonicOscillator.setup_basis", TD)],
    ["get_indices_nm, get_index_p, get_one_body_elements, TwoDimensionalHarmonicOscillator.h"],
    "property-based testing: independent enumeration oracle and inverse-map round trip",
    "Indices up to 200000, one-body matrices up to l=1200.",
)
prop(
    "C14",
    "2D Coulomb elements equal the Coulomb integrals over the oscillator orbitals",
    "For every basis size (up to 36 orbitals, where the series is accurate in double precision), frequency and mass each two-body element of the two-dimensional oscillator equals the integral of "
    "1/|r1-r2| over the four oscillator orbitals in physicists' order, so the elements scale with sqrt(mass*omega), are real, vanish "
    "unless total angular momentum is conserved, and are symmetric under particle exchange and under swapping bras with kets. "
    "An element does not depend on the size of the basis it is requested for.",
    ["inputs", "configurations"],
    "all quadruples of the first 36 orbitals, basis sizes, frequencies and masses",
    "The tests compare the elements of the first 36 orbitals with a six-digit table at unit frequency and mass, and symmetry for 12 orbitals.",
    [CE, TH, TD],
    [("coulomb_ho", CE), ("get_coulomb_elements", TH), ("scaling in TwoDimensionalHarmonicOscillator.setup_basis", TD)],
    ["get_coulomb_elements(l), TwoDimensionalHarmonicOscillator.u"],
    "property-based testing: independent momentum-space quadrature oracle",
    "Whole arrays up to l=21, single elements among the first 36 orbitals.",
)
prop(
    "C15",
    "2D oscillator functions and dipole elements are those of the oscillator orbitals",
    "For every frequency, mass, grid and basis size, the functions on the polar grid are the normalised two-dimensional oscillator "
    "eigenfunctions of the matching quantum numbers, orthonormal with respect to the area element. "
    "The dipole elements are the x and y position integrals over exactly these functions, Hermitian, and non-zero only between "
    "angular momenta differing by one.",
    ["inputs", "configurations"],
    "all frequencies, masses, grid radii and sizes, and basis sizes",
    "One test compares 15 functions at unit frequency and mass with stored tables; dipole elements are only checked through stored files that are missing.",
    [TH, TD],
    [("spf_state, spf_norm, spf_radial", TH), ("construct_dipole_moment, radial_integral, theta_*_integral", TD)],
    ["spf, dipole_moment of TwoDimensionalHarmonicOscillator"],
    "property-based testing: explicit-series and Gauss-quadrature oracle",
    "l<=20 for dipoles, l<=66 for functions.",
)
prop(
    "C16",
    "2D double-well one-body elements are those of the stated Hamiltonian",
    "For every barrier strength b, frequency, mass, basis size and barrier axis the double-well one-body matrix holds the oscillator-basis "
    "elements of the oscillator Hamiltonian plus omega^2/2*(b^2/4 - b*|x|) (|y| for axis 1), so it is Hermitian, becomes the oscillator for b = 0, "
    "and has the same spectrum for both axes. "
    "Overlap, Coulomb and dipole elements and orbitals are those of the plain oscillator.",
    ["inputs", "configurations"],
    "all barrier strengths, frequencies, masses, axes and basis sizes",
    "The tests check the angular integrals, a zero barrier, and six energies for one parameter set.",
    [TH, TD],
    [("get_double_well_one_body_elements, theta_*_tilde_integral, radial_integral", TH), ("TwoDimensionalDoubleWell.setup_basis", TD)],
    ["h, s, u, dipole_moment, spf of TwoDimensionalDoubleWell"],
    "property-based testing: two-dimensional quadrature oracle and differential against the oscillator",
    "l<=10.",
)
prop(
    "C17",
    "2D magnetic-field basis holds the lowest Fock-Darwin states, consistently",
    "For every confinement, magnetic-field strength (either sign), mass and basis size the basis consists of distinct quantum-number pairs whose "
    "Fock-Darwin energies sqrt(omega^2+omega_c^2/4)*(2n+|m|+1) - omega_c*m/2 are the lowest ones available, in ascending order on the diagonal of the one-body matrix. "
    "Coulomb and dipole elements and orbitals belong to exactly those quantum numbers at the effective frequency, and at zero field everything equals the plain oscillator.",
    ["inputs", "configurations"],
    "all field strengths and signs, confinement frequencies, masses and basis sizes",
    "One test compares Coulomb elements with the oscillator at zero field; the finite-field test lacks its data file.",
    [TH, TD],
    [("construct_dataframe, get_shell_energy_B, get_one_body_elements_B, get_coulomb_elements_B", TH), ("TwoDimHarmonicOscB", TD)],
    ["h, s, u, dipole_moment, spf, get_indices_nm of TwoDimHarmonicOscB"],
    "property-based testing: independent state enumeration, quadrature oracle, zero-field differential",
    "l<=10 for whole bases, l<=18 for states and energies, |omega_c|<=20.",
)
prop(
    "C18",
    "The Coulomb-element cache never changes results",
    "With the cache switched on or off, for every sequence of requests for different sizes, cache removals and failed or interrupted cache writes, every request that returns gives the "
    "same elements as an uncached computation; a request whose cache write fails may report that failure, but leaves behind nothing that a later request would load. "
    "With the cache switched off no file is read or written; with it on, and without failures, exactly one file per requested size appears in the storage directory, and repeated requests are served from it.",
    ["histories", "fault_sequences", "crash_points"],
    "all histories of requests, cache toggles, deletions and write failures at arbitrary byte positions",
    "One test requests one size twice with the cache on, and no write ever fails.",
    [TH],
    [("get_coulomb_elements", TH)],
    ["return values of get_coulomb_elements, directory contents of the storage directory"],
    "model-based fuzzing with injected write failures: histories against uncached recomputation",
    "Write failures injected with RLIMIT_FSIZE at generated byte offsets; sizes l<=13.",
)
prop(
    "C19",
    "Molecular systems reproduce the ab-initio integrals and the RHF energy",
    "For every closed-shell molecule, geometry, charge and basis the atomic-orbital system holds the kinetic-plus-nuclear one-body, overlap, "
    "electron-repulsion (physicists' order) and position integrals, the nuclear repulsion energy and the electron number, in bohr. "
    "The RHF system holds the same operators (position relative to the centre of nuclear charge) in an orthonormal basis where the reference energy plus nuclear repulsion is the RHF energy and the Fock "
    "matrix is diagonal with the orbital energies; requesting spin doubling, with or without antisymmetrisation, gives the doubled version of the same system, and "
    "rigid motions of the molecule change no energy.",
    ["inputs", "configurations"],
    "all closed-shell molecules, geometries, charges, basis sets, and option combinations",
    "The tests look at one He reference energy, and the electron count of Be; atoms have no nuclear repulsion and trivial geometry.",
    [CS],
    [("construct_pyscf_system_ao", CS), ("construct_pyscf_system_rhf", CS)],
    ["all element properties, n, l, nuclear_repulsion_energy, compute_reference_energy and Fock matrix of the returned systems"],
    "property-based testing: independent integral evaluation, basis-invariant quantities and metamorphic rigid motions",
    "Small molecules (at most 14 electrons, 28 orbitals); trusts PySCF's integrals and SCF.",
)
prop(
    "C20",
    "Random basis sets have the symmetries of second-quantised elements",
    "For every size and dimension and every state of the random generator a random basis set has Hermitian one-body, overlap and dipole matrices, two-body elements "
    "symmetric under particle exchange, one dipole matrix per dimension, complex entries of the requested shapes and a real nuclear repulsion energy. "
    "The symmetrisation helpers are projections: they return symmetric input unchanged and keep the symmetric part of any input.",
    ["inputs"],
    "all sizes, dimensions and random-generator states",
    "A doctest checks one dipole shape; the symmetry that other tests rely on is never verified.",
    [RB],
    [("RandomBasisSet.setup_basis, make_hermitian, make_two_body_symmetry, make_dipole_moment_hermitian", RB)],
    ["h, s, u, dipole_moment, nuclear_repulsion_energy of RandomBasisSet"],
    "property-based testing: symmetry predicates over generated sizes and generator states",
    "l<=14, dim<=4.",
)
prop(
    "C21",
    "Sample collection calls every sampler in order and dumps all samples losslessly",
    "For every collection of samplers and every sequence of steps each sampler is called exactly once per step with that step, in the given order, and dumping "
    "threads one dictionary through all samplers and returns it with everything that was added before. "
    "When saving is requested the file at the requested path and name (default name from the class; missing directories created) loads back to the same "
    "dictionary, also after repeated dumps; when it is not, nothing is written; an existing directory is refused only if asked for.",
    ["histories", "inputs"],
    "all sampler collections (any iterable), step sequences, sample values, path and name choices",
    "No test touches the sampler module.",
    [SA],
    [("SampleCollector.sample / dump / add_sample", SA)],
    ["calls seen by stub samplers, the returned dictionary, and the saved file"],
    "model-based property testing: generated histories with stub samplers and file round trip",
    "Histories of up to 12 operations in a scratch directory.",
)
prop(
    "C22",
    "System sizes partition the basis and ill-shaped input is rejected",
    "For every valid particle number the occupied and virtual slices split the basis functions without gap or overlap (a spatial system fills half as many functions as it has particles), and the counts n, m, l agree with every "
    "stored array, at construction, after resizing and after basis changes. "
    "More particles than functions, an odd particle number or a spin-dependent basis for a spatial system, elements, functions or coefficients whose axes do not match "
    "the basis size or dimension, spin elements on a spinless basis, and spin functions that are not orthonormal are refused; a refused assignment, resizing, change of basis, "
    "spin doubling or construction leaves everything stored as it was.",
    ["inputs", "histories"],
    "all particle numbers, basis sizes and array shapes",
    "No test passes invalid input; sizes are compared for two systems.",
    [SY, SO, GO, BS],
    [("QuantumSystem.__init__ / set_system_size", SY), ("SpatialOrbitalSystem.__init__", SO), ("BasisSet setters", BS)],
    ["n, l, m, o, v of systems; exceptions raised by setters and constructors"],
    "property-based testing: generated valid and invalid sizes and shapes against an acceptance predicate",
    "Sizes up to 14; any exception counts as refusal.",
)
prop(
    "C23",
    "Every basis family works through the whole life cycle with invariant physics",
    "Every public basis family can be constructed, wrapped in a spatial or general-orbital system, copied, spin-doubled, basis-changed and asked for energies, Fock matrices and densities, in any order "
    "(the compact two-body form of the sinc-DVR basis is asked for energies and Fock matrices once expanded or basis-changed). "
    "Along the way physics is invariant: total energy of the reference state, one-body spectrum, and the expectation values of overlap, dipole and spin are "
    "unchanged by copying, by unitary mixing of occupied orbitals, and by conversion between spatial and general orbitals.",
    ["histories", "configurations"],
    "all basis families with generated parameters and all histories of life-cycle operations",
    "The tests combine three families with one or two operations each, and never compare physics before and after.",
    [BS, SY, GO, SO, OD, DV, TD, CS, RB],
    [("construct / wrap / convert / copy / change_basis entry points", SY)],
    ["reference energy, spectrum of h, traces of s, dipole and spin over the reference state"],
    "model-based property testing: generated life-cycle histories with conserved-quantity oracle",
    "Histories of up to 5 operations over all families; one known finding (smooth 2D double well cannot be constructed).",
)
prop(
    "C24",
    "Switching array module or casting to complex preserves every value",
    "Making a basis or molecular system with another array module gives the same elements as with the default one. Changing the array module of a basis or system, and casting to complex numbers, leave every stored element numerically unchanged and every unset element unset, "
    "for every combination of stored elements. "
    "Afterwards the basis or system reports and uses the new module, a cast basis holds only complex elements, and all further operations give the same results as before.",
    ["inputs", "histories"],
    "all combinations of stored elements and dtypes, all positions of the switch within a history of operations",
    "No test changes the module or casts explicitly.",
    [BS, SY],
    [("BasisSet.change_module, cast_to_complex", BS), ("QuantumSystem.change_module", SY)],
    ["all element properties and the np attribute before and after"],
    "property-based testing: numpy-delegating stand-in module, value-preservation oracle",
    "The only other module available offline is a stand-in that delegates to numpy.",
)

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["qtext"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f[1:3].isdigit()} if os.path.isdir(os.path.join(HERE, "checks")) else set()
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in P
            if p["id"] in built
        ],
        "not_applicable": NOT_APPLICABLE
        + [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in built],
        "notes": "No hooks are needed in /repo: every check drives the public Python API of the working tree.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        if len(p["title"]) > 80:
            sys.exit(f"title too long: {p['id']} {len(p['title'])}")


main()
