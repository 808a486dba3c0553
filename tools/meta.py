"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, qtext, why, files, mech, technique, note, over=("inputs",), observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


QHF = "openms/mqed/qedhf.py"
BOS = "openms/lib/boson.py"
SC = "openms/mqed/scqedhf.py"
VT = "openms/mqed/vtqedhf.py"
TRI = "openms/qmc/trial.py"
EST = "openms/qmc/estimators.py"
PRO = "openms/qmc/propagators.py"
WAL = "openms/qmc/generic_walkers.py"
AFQ = "openms/qmc/afqmc.py"
QMC = "openms/qmc/qmc.py"
TOO = "openms/qmc/tools.py"

prop("P01", "QED-HF energy and Fock matrix are exact for the Pauli-Fierz Hamiltonian",
     "For every closed-shell molecule, density matrix and set of cavity modes, the QED-HF total energy equals the expectation value of "
     "the dipole-gauge Pauli-Fierz Hamiltonian (bare electrons, bilinear coupling, dipole self-energy, photons) in the product of that "
     "determinant with the photon state, and the Fock matrix is its exact derivative with respect to the density. "
     "This holds for coherent-state displacements, fixed displacements and photon-number bases of every mode, with or without self-energy term, nuclear "
     "dipole, origin shift, coupling factors, and with complete or resolved second-moment integrals. "
     "Every energy an SCF run reports, in every cycle and at the end, is the energy of the density of that cycle, and a converged run, "
     "with or without level shift and damping, is stationary under all orbital rotations.",
     "all closed-shell densities, couplings, frequencies, mode numbers, photon-space sizes and options; every SCF cycle",
     "the tests compare a handful of converged energies with stored numbers for fixed molecules; they never check an unconverged density, "
     "a derivative, a multi-mode or multi-option combination",
     [QHF, BOS],
     [("energy and Fock assembly", f"{QHF}: get_hcore, get_veff, get_jk, energy_tot, kernel"),
      ("coupling and self-energy integrals", f"{BOS}: get_gmatao, add_oei_ao, get_dse_jk, update_cs, update_boson_coeff")],
     "online monitors on SCF callbacks and evaluations, independent Pauli-Fierz mean-field oracle",
     "random and converged densities, up to 3 modes and 13 basis functions; PySCF bare integrals are trusted", over=("inputs", "configurations"))

prop("P02", "Cavity mean-field energies obey the physical invariances and limits",
     "The converged QED-HF, SC-QED-HF and VT-QED-HF energies are unchanged by rotating or translating molecule and polarization "
     "together, by reversing a polarization vector, and by expressing the coupling through a factor or through the length of the vector; "
     "QED-HF is also unchanged by reordering the modes, splitting one mode into parallel ones, rotating the modes among each other, "
     "moving the dipole origin and (with the coherent displacement) by the frequencies. "
     "With vanishing coupling all methods give the bare Hartree-Fock result, the cavity never lowers the QED-HF energy, and a stronger "
     "coupling never gives a lower one.",
     "all molecules, orientations, origins, mode orders, coupling strengths",
     "each is a relation between two runs for every system; the tests pin single energies of fixed systems",
     [QHF, SC, VT, BOS],
     [("dipole coupling and self energy", f"{BOS}: get_gmatao, get_dse_jk, get_dse_hcore"), ("SCF drivers", f"{QHF}: kernel; {SC}: kernel")],
     "metamorphic monitors over pairs of complete SCF runs",
     "pairs start on the same SCF branch; runs that do not report convergence are not judged", over=("inputs", "configurations"))

prop("P03", "Photon subspace: ground states, density matrices and number distributions",
     "For every number of modes and of photon states per mode, the photon Hamiltonian is block diagonal with the matrix elements of a "
     "driven oscillator, each mode is in the normalised ground state of its own block, the reported photon energy is the expectation value "
     "of the field energy in those states, and the photon density matrices have unit trace and are positive. "
     "The photon-number distribution of a coherent-state solution in the original frame is the Poisson distribution of its "
     "displacement, and packed symmetric storage is lossless.",
     "all mode numbers, photon-space sizes, couplings, displacements, densities",
     "tests cover one mode with a fixed size; multi-mode blocks, unequal sizes and distributions are never checked",
     [BOS, QHF],
     [("mode Hamiltonian", f"{BOS}: get_bosonic_Ham, update_boson_coeff, pack/unpack_symmetric"), ("photon density matrices", f"{QHF}: make_rdm1_org")],
     "state monitors on the photon subspace against truncated-oscillator matrices",
     "no squeezing in the off-diagonal photon Hamiltonian (documented as unfinished)", over=("inputs", "configurations"))

prop("P04", "SC-QED-HF energy, Fock matrix and displacement gradients are exact",
     "For every closed-shell density and every set of orbital displacement parameters, the SC-QED-HF energy is the expectation value of "
     "the coherently transformed Pauli-Fierz Hamiltonian in the determinant times the photon vacuum, and the Fock matrix and the "
     "displacement gradient are its exact derivatives. "
     "Stored-integral and Cholesky routes give the same values, a converged run is stationary in orbitals and displacements with the "
     "energy of its final state, and the density in the original frame damps coherences by the overlap of the displaced photon vacua.",
     "all densities, displacement parameters, couplings, geometries; both integral routes",
     "tests pin four converged energies; gradients and Fock matrices away from convergence are never compared with the energy",
     [SC, BOS],
     [("dressed integrals and gradients", f"{SC}: get_h1e_DO, get_hcore, get_veff, FC_factor, get_eta_gradient, get_cholesky"), ("driver", f"{SC}: kernel")],
     "differential monitors against a determinant-by-determinant evaluation of the transformed Hamiltonian",
     "one mode, photon vacuum, up to 6 orbitals", over=("inputs", "configurations"))

prop("P05", "VT-/VSQ-QED-HF energy and gradients are exact and have the right limits",
     "For every density, displacement, transformation strength and squeezing parameter the VT/VSQ-QED-HF energy equals the expectation "
     "value of the partially transformed, squeezed Pauli-Fierz Hamiltonian, and the Fock matrix and the gradients in all variational "
     "parameters are its exact derivatives, with stored integrals and with Cholesky vectors alike. "
     "Full transformation reproduces SC-QED-HF and no transformation QED-HF. "
     "A converged run keeps parameters that the user fixed, is stationary in all others, and reports the energy of its final state; "
     "the density in the original frame damps coherences by the overlap of the displaced squeezed photon vacua.",
     "all densities and variational parameters, couplings and geometries; both integral routes",
     "tests check one gradient and a few energies of one molecule; the parameter space is continuous",
     [VT, SC, BOS],
     [("gradients", f"{VT}: grad_var_params, get_vsq_gradient, gaussian_derivative_*"), ("residual coupling", f"{BOS}: add_oei_ao, get_dse_jk, update_couplings")],
     "differential monitors against a determinant-by-determinant evaluation of the transformed Hamiltonian",
     "one mode, photon vacuum in the transformed frame, coherent displacement, up to 6 orbitals", over=("inputs", "configurations"))

prop("P06", "Displacement-operator factors and derivatives are exact oscillator elements",
     "For every displacement and photon-space size, the displacement matrix elements and expectation values equal those of the "
     "displacement operator of a harmonic oscillator, including the identity at zero displacement and the two-electron and shifted forms. "
     "For photon states of definite parity the derivatives with respect to displacement, transformation strength and squeezing are the "
     "exact derivatives of those values.",
     "all displacements, photon-space sizes, photon density matrices",
     "tests compare converged energies only; elements beyond the vacuum and their derivatives are not checked",
     [BOS, SC, VT],
     [("matrix elements", f"{BOS}: displacement_matrix, displacement_exp_val, displacement_deriv_*"), ("Gaussian factors", f"{SC}: FC_factor; {VT}: gaussian_derivative_*")],
     "value monitors against matrix exponentials in a large truncated oscillator",
     "displacements up to 3, up to 8 photon states; one known finding for neighbouring-state coherences")

prop("P13", "Walker overlaps and Green's functions are those of the Slater determinants",
     "For every trial wave function (single determinant restricted/unrestricted, multi-determinant, electron-boson) and every set of "
     "walkers, the overlap equals the inner product of the antisymmetrised many-body states, and the one-particle Green's function is "
     "the mixed transition density of trial and walker. "
     "Overlaps transform with the determinant and Green's functions are unchanged when a walker's orbitals are recombined or rescaled.",
     "all walker matrices, trial states, electron numbers and basis sizes, walker counts",
     "tests check energies of a few fixed walkers; no test builds the many-body states",
     [TRI, EST, "openms/qmc/trial_boson.py"],
     [("overlap and Green's function", f"{TRI}: ovlp_with_walkers, ovlp_with_walkers_gf, get_vbias"), ("boson part", "openms/qmc/trial_boson.py")],
     "monitors comparing with explicit many-body vectors (full CI expansion)",
     "up to 6 orbitals, random complex walkers with overlaps bounded away from zero")

prop("P14", "Electronic local energies equal the exact mixed estimator of the Hamiltonian",
     "For every Hamiltonian, trial and walker ensemble, the local energy of each walker equals <trial|H|walker>/<trial|walker> evaluated "
     "with the many-body states, for every evaluation route (half-rotated and full tensors, restricted, unrestricted and "
     "multi-determinant trials, compiled and interpreted kernels). "
     "It does not depend on the norm or the internal orbital rotation of the walker, and with the reference determinant as walker it is the "
     "energy of the reference.",
     "all Hamiltonians, walkers, trials and evaluation routes",
     "tests compare the routes with each other or with stored numbers for a few systems",
     [EST, AFQ, TRI],
     [("local energy kernels", f"{EST}: local_eng_elec, exx/ecoul kernels"), ("drivers", f"{AFQ}: local_energy")],
     "differential monitors against full-CI matrix elements, metamorphic monitors",
     "up to 6 orbitals; walkers with overlaps bounded away from zero", over=("inputs", "configurations"))

prop("P19", "Population control conserves the walker ensemble",
     "Every population-control method keeps the number of walkers, preserves the total weight, returns non-negative weights and only "
     "produces walkers that are exact copies of existing ones with all their attributes (orbitals, bosons, overlaps, energies) moved together. "
     "Each walker survives with an expected weight equal to its weight before the step, and zero-weight walkers never spread.",
     "all weight distributions, walker numbers, methods and random streams",
     "tests do not exercise branching with skewed, zero or dominating weights, nor check expectation values",
     ["openms/qmc/population_control.py", WAL],
     [("branching", "openms/qmc/population_control.py"), ("weight control", f"{WAL}: weight_control")],
     "conservation monitors over tagged walkers, statistical monitor of expected weights",
     "statistical monitor at 7 sigma; non-negative weights", over=("inputs", "histories"))

FCI = "openms/mqed/qedfci.py"

prop("P07", "Dressed integrals handed to post-HF methods are those of the Hamiltonian",
     "For every closed-shell molecule, set of modes, density and reference orbitals, the dipole, second-moment, bilinear-coupling and "
     "dipole-self-energy matrices built by the photon object are the operators of the dipole gauge in that basis, for every nuclear-dipole and "
     "origin option. "
     "The spin-orbital coupling blocks, the mean-field shift, the Fock blocks and the antisymmetrised interaction that post-Hartree-Fock "
     "methods receive are those operators in the reference orbitals, asking for them twice gives the same values, and neither the mean field "
     "nor the molecule is changed.",
     "all molecules, densities, orbitals, couplings, mode numbers and options",
     "tests only see these blocks through a few converged coupled-cluster style energies; single blocks and repeated calls are never compared",
     [BOS, QHF],
     [("integral blocks", f"{BOS}: gint, g_fock, get_I, mfG, kernel"), ("AO pieces", f"{BOS}: get_dipole_ao, get_quadrupole_ao, get_gmatao, get_dse_jk")],
     "value monitors on every block against independently transformed integrals; repeated-call monitor",
     "closed shell, up to 13 basis functions", over=("inputs", "configurations", "histories"))

prop("P08", "QED-FCI contractions are the second-quantised electron-boson operators",
     "For every number of orbitals, electrons of each spin, modes and boson states per mode, each QED-FCI contraction (one-body, two-body, "
     "spin-resolved two-body, Hubbard, bilinear electron-boson, boson-boson, absorbed one-body) applied to any vector gives the action of the "
     "second-quantised operator in the truncated space; the total Hamiltonian action is Hermitian. "
     "The integrals generated for FCI from a molecule and its modes are the Pauli-Fierz ones.",
     "all spaces, vectors, Hamiltonians, also spin-polarised and with unequal boson spaces",
     "tests solve for a few ground-state energies with one mode; signs and bosonic factors for several modes and polarised spaces are not seen",
     [FCI, BOS],
     [("contractions", f"{FCI}: contract_1e, contract_2e, contract_eb, contract_bb, absorb_h1e"), ("integrals", f"{BOS}: get_integrals4fci")],
     "differential monitors against dense matrices built from elementary ladder operators",
     "up to 4 orbitals, 3 modes, spaces up to 1500")

prop("P09", "QED-FCI returns the exact ground state and its density matrices",
     "For every molecular Hamiltonian with cavity modes, QED-FCI returns the lowest eigenvalue and eigenvector of the Pauli-Fierz matrix in "
     "the truncated space, a larger photon space never raises the energy, and the inputs are not changed. "
     "One-body, two-body and boson density matrices of any state are the expectation values of the corresponding operators, and the "
     "coherent-state frame is the Hamiltonian displaced by the given shift.",
     "all molecules, couplings, mode numbers, photon spaces and CI vectors",
     "tests pin a few energies; eigenvectors, density matrices and multi-mode spaces are never compared with a reference",
     [FCI, BOS],
     [("solver", f"{FCI}: kernel"), ("density matrices", f"{FCI}: make_rdm1e, make_rdm12e, make_rdm1p")],
     "result monitors against dense diagonalisation",
     "near-degenerate ground states are not judged; spaces up to 2000", over=("inputs", "configurations"))

CC = [f"openms/mqed/{x}.py" for x in ("qedcc_equations", "myqedcc_equations", "myqedcc_equations_opt")]

prop("P10", "QED coupled-cluster amplitude equations are the projected Schroedinger equation",
     "For all real amplitudes, Fock and interaction blocks with a real symmetric bilinear coupling (coherent-state basis), the "
     "singles, doubles, one-photon, two-photon and electron-photon-singles residuals of the three implementations of QED-CCSD (reference, "
     "rewritten and optimised) equal the projections of exp(-T) H exp(T) on the corresponding excited states, for any number of modes and "
     "any numbers of occupied and virtual orbitals. The coupled electron-doubles/photon residual is likewise exact when the electron-photon "
     "amplitudes carry one photon, as is the reference implementation's residual of singles with two photons.",
     "all amplitudes, orbital numbers, mode numbers and excitation levels (up to two photons)",
     "tests converge one or two molecules with one mode; a wrong term that is small or vanishes for one mode or equal dimensions is invisible",
     CC,
     [("residual equations", CC[0] + ": qedccsd_sn_u2n; " + CC[1] + ", " + CC[2] + ": new_qedccsd_sn_u2n")],
     "evaluation monitors against a dense similarity-transformed Hamiltonian",
     "random amplitudes on 1-3 occupied and virtual spin orbitals and up to 3 modes; two-photon doubles excluded",
     over=("inputs", "configurations"))

prop("P11", "Cholesky factors and AFQMC integrals reproduce the Hamiltonian",
     "For every molecule, basis set and threshold, the factors of the full, the given-integral and the blocked Cholesky decomposition "
     "(with and without cavity coupling) reproduce the two-electron interaction within the threshold, are symmetric matrices, respect the "
     "requested number of vectors and leave their inputs unchanged. "
     "The one-body, two-body, and bilinear operators an AFQMC calculation builds from them, in orthogonalised atomic or molecular orbitals, "
     "restricted or unrestricted, and for every decoupling option, are the operators of the original Hamiltonian; the integrals read "
     "from an FCIDUMP file are those the file states; the matrix decompositions return factors whose product is the matrix.",
     "all molecules, basis sets, thresholds, coupling options, mode numbers",
     "tests use a few fixed molecules and compare energies, not operators",
     [TOO, QMC, "openms/qmc/afqmc.py"],
     [("factorisation", f"{TOO}: chols_full, chols_blocked, chols_given"), ("Hamiltonian", f"{QMC}: get_integrals, initialize_system")],
     "reconstruction monitors against directly computed integrals",
     "thresholds 1e-3 to 1e-10; up to about 40 basis functions", over=("inputs", "configurations"))

prop("P12", "Reduced-cost forms of the interaction equal the exact one",
     "For all real symmetric Cholesky factors, the exchange energies of the mixed low-rank and banded form, of the compiled kernels and of the "
     "chunked forms equal the direct contraction for every orbital number, bandwidth and rank, and the factors they are built from reproduce the "
     "original vectors. "
     "The stochastic resolution of the identity is reproducible with its seed, projects and averages as stated, and the decoupling of the "
     "bilinear electron-boson term (schemes 1 and 2) reproduces the term exactly as a combination of squares.",
     "all factors, ranks, bandwidths, orbital numbers, schemes",
     "tests compare two methods on one molecule, where every vector falls into the same class",
     [TOO, EST],
     [("low-rank plan", f"{TOO}: get_blksize and the svd helpers"), ("exchange kernels", f"{EST}: exx_*, ecoul_*")],
     "evaluation monitors against direct contractions",
     "random factors up to 24 orbitals and 6 vectors", over=("inputs",))

prop("P15", "Electron-boson local energies are the exact mixed estimator",
     "For every trial (restricted, unrestricted or configuration expansion), walker ensemble, complex bosonic walker state and set of modes, the one-body, "
     "two-body, boson and coupling energies reported for a coupled electron-boson walker equal the mixed expectation value of the respective "
     "operator, term by term and as the weighted total, and evaluating them does not change the walkers. "
     "The bosonic density matrices and mean displacements are those of the mixed state, and a mode list of the wrong length is refused.",
     "all walkers, trials, mode numbers, Fock spaces and couplings",
     "tests only check energies of short single-mode runs",
     [EST, TRI, WAL],
     [("local energy", f"{EST}: local_eng_eboson, local_eng_boson, local_energy_eb; {TRI}: get_boson_onebody_dm")],
     "per-walker monitors against full configuration-space expectation values",
     "up to 5 orbitals, 3 modes in the one-block-per-mode representation", over=("inputs", "configurations"))

prop("P16", "A propagation step applies exactly the operators of the Hamiltonian",
     "For every Hamiltonian and set of auxiliary fields, the one-body propagator of an AFQMC step is the exponential of the one-body "
     "Hamiltonian with exactly the mean-field and normal-ordering shifts, the field propagator is the Taylor exponential of the sum of the field operators, bosons "
     "are propagated by their free and coupled Hamiltonian, and the sum of the pieces is the full Hamiltonian. "
     "Compiled and plain kernels act alike, neither changes other walkers nor the integrals.",
     "all integrals, field values, walker numbers, Taylor orders, time steps and modes",
     "tests pin energies of short runs; a wrong shift or sign partially cancels within statistical scatter",
     [PRO, AFQ, QMC],
     [("propagators", f"{PRO}: build, propagate_walkers_onebody, propagate_walkers_twobody, propagate_bosons, kernels")],
     "operator monitors on build results and single steps, against matrix exponentials",
     "up to 5 orbitals where many-electron operators are compared", over=("inputs", "configurations"))

prop("P17", "The field average of a weighted AFQMC step is the imaginary-time evolution",
     "For every trial, walker, force bias and time step, the average over the auxiliary fields of the weighted, shifted step (hybrid importance "
     "function times the propagated walker divided by its overlap) equals the unshifted Hubbard-Stratonovich average, so force bias, its bound and extra "
     "inert fields do not change the evolution; one step agrees with exp(-dt H) to second order in the time step, also with explicitly coupled bosons.",
     "all walkers, trials, couplings, time steps",
     "a bias in the weight or shift is a statistical effect that a seeded regression test freezes rather than detects",
     [PRO, AFQ],
     [("two-body step and importance function", f"{PRO}: propagate_walkers_twobody, propagate_walkers; update_weight")],
     "step monitors with quadrature nodes fed in place of the random fields, oracle: exact exponentials",
     "exact up to quadrature error; decoupled bilinear coupling excluded; the complex weight is taken from the reported hybrid energy, before the phaseless projection", over=("inputs", "histories"))

prop("P18", "Walker weights follow the phaseless importance-sampling rule",
     "For every step, each walker's weight is multiplied by the real, non-negative phaseless factor given by its overlap ratio, hybrid or local energy and energy "
     "shift; energies are bounded as documented, walkers rotated by more than a right angle are dropped, and weights never become negative. "
     "Over a run the energy shift is the weighted mean hybrid energy of the walkers, the weights are capped, and after population control the total weight is restored.",
     "all overlaps, energies, shifts, weights and random streams",
     "branches for large phases, zero weights and capped energies are rarely visited by seeded runs",
     [PRO, AFQ, WAL],
     [("weights", f"{PRO}: update_weight, propagate_walkers; {AFQ}: kernel; {WAL}: weight_control")],
     "step and run monitors recomputing every weight from recorded fields",
     "fields are recorded from numpy's global generator", over=("inputs", "histories"))

prop("P20", "Re-orthogonalisation changes the representation of walkers, not their state",
     "For every ensemble of electronic and electron-boson walkers, re-orthogonalisation yields orthonormal orbitals spanning the same space, the same "
     "determinant up to the recorded positive volume, the same bosonic state including the relative signs of its amplitudes, and untouched weights and energies. "
     "The energies and weights of a seeded run do not depend on how often it is done.",
     "all walkers, spins, modes and frequencies of re-orthogonalisation",
     "tests fix one frequency; lost signs or spans change energies only slightly",
     [WAL, QMC],
     [("orthogonalisation", f"{WAL}: orthogonalization; {QMC}: qr_ortho, qr_ortho_batch")],
     "state monitors before and after; paired-run monitor over frequencies",
     "whole-run comparison without active bosons", over=("inputs", "histories"))

prop("P21", "AFQMC runs are reproducible, isolated, and exact in the known limits",
     "Two runs with the same seed give identical energies and walkers, whatever was run before in the same process; a different seed gives others; the mean field, "
     "integrals and trial of the caller are not changed. Energies are reported at the requested steps and each is the weighted mixed estimator of the walkers at that step. "
     "An exact one-electron trial gives the exact energy at every time, switched-off or uncoupled bosons give the bare-electron run, and two-electron runs reach "
     "the exact ground-state energy within their error.",
     "all systems, seeds, options and histories of runs in one process",
     "tests compare short seeded runs with stored numbers and never two runs with each other",
     [AFQ, QMC, EST, PRO],
     [("run driver", f"{AFQ}: kernel; {QMC}: build, get_integrals"), ("estimator", f"{EST}")],
     "paired-run and per-measurement monitors, exact-diagonalisation oracle",
     "statistical comparison at 10 millihartree", over=("inputs", "configurations", "histories"))

prop("P24", "AFQMC over several ranks samples one ensemble and reports its energies",
     "For every number of ranks, the requested walkers are distributed over the ranks, all ranks take part in the same collective operations in the same order, "
     "agree on the reported energies, and these are the weighted estimator over the walkers of all ranks, for bare and electron-boson systems. Population control restores the total weight, "
     "ranks draw different random fields, and a parallel run is reproducible with its seed. In the debugging mode a parallel run equals the serial one.",
     "all rank numbers, walker numbers, options",
     "the tests run on one process without MPI",
     [QMC, AFQ, EST, WAL, "openms/qmc/population_control.py"],
     [("collectives", f"{QMC}, {EST}, {WAL}: comm.* calls")],
     "multi-process event-log monitor with a stand-in communicator",
     "2-4 forked ranks; real MPI transport out of reach", over=("inputs", "schedules", "configurations"))

prop("P22", "Trial states are the states they are named after, in every representation",
     "Every trial wavefunction the library builds represents the state it is named after: Hartree-Fock trials are orthonormal and reproduce the "
     "determinant, density and energy of the mean field in orthogonal-orbital and MO representations, half rotation is contraction with the trial "
     "orbitals, and multi-determinant trials keep the selected configurations, frozen core and coefficients. "
     "Coherent-state bosonic trials have the exact number-state amplitudes exp(-|z|^2/2) z^n/sqrt(n!) per mode, phases included and for any number "
     "of states, and the overlaps that follow from them. First-quantised Gaussian trials have the overlap, gradient, Laplacian and local energy of the Gaussian.",
     "all molecules, spins, representations, coherent amplitudes, numbers of modes and states, CI expansions",
     "the tests use a few fixed trials and only compare derived energies",
     [TRI, "openms/qmc/trial_boson.py"],
     [("trial construction", f"{TRI}: TrialHF, make_trial, half_rotate_integrals, multiCI"), ("boson trials", "openms/qmc/trial_boson.py")],
     "differential monitor against explicitly built states",
     "coherent amplitudes up to |z|~2, up to 30 number states; product determinants in explicit CI spaces")

HUB = ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/lib/ov_blocks.py"]

prop("P23", "Statistical analysis of sampled energies reports correct means and errors",
     "For every sampled series, the average over the equilibrated tail and its deviation, the autocorrelation at every lag, the self-consistently windowed "
     "autocorrelation time, and the blocked mean and error are the quantities of those names, independent of the scale of the data, and the series is not modified. "
     "The outlier filters keep exactly the samples inside the stated z-score or interquartile window, and constant or very short series give zero error instead of failing. "
     "For correlated data with known statistics the reported autocorrelation time, mean and error agree with the truth.",
     "all series: lengths, correlations, scales, constant and short data",
     "no test calls the analysis with data of known statistics",
     [TOO],
     [("analysis", f"{TOO}: analysis_autocorr, autocorr, get_mean_std, data_analysis_remove_outliers")],
     "differential monitor against direct sums; statistical monitor on processes of known correlation time",
     "the autocorrelation time of anticorrelated data and the unnormalised autocorrelation are not judged", over=("inputs",))

prop("P25", "Hubbard and Hubbard-Holstein models are the lattice models they name",
     "For every chain or ring, filling and parameters, the hopping, repulsion, phonon frequencies and coupling, the Fock matrix, mean-field energy, phonon "
     "displacement and orbital energies are those of the Hubbard(-Holstein) Hamiltonian for the given orbitals, and self-consistent orbitals are orthonormal and stationary. "
     "Every occupied/virtual integral block, spin-orbital or spin-resolved, antisymmetrised or not, is the block of that Hamiltonian in the molecular orbitals, also for empty and full spin channels.",
     "all lattice sizes, fillings, boundary conditions, couplings and orbitals",
     "there are no tests of the lattice models",
     HUB,
     [("models", "openms/models/hubbard.py: Hubbard1D; openms/models/hh_model.py: HHModel"), ("blocks", "openms/lib/ov_blocks.py")],
     "differential monitor against Jordan-Wigner Fock-space matrices",
     "periodic Hubbard rings of one or two sites are a convention and not judged; the exact solver needs a missing module", over=("inputs", "configurations"))

prop("P26", "Exciton states and spectra of disordered aggregates are exact",
     "For every chain length, hopping, disorder and number of requested states, the molecular aggregate returns the lowest orthonormal eigenstates of its "
     "site-energy and nearest-neighbour hopping matrix, transition dipoles that are the sums of the state amplitudes and obey the sum rule, and linear and two-dimensional "
     "spectra that are the Lorentzian sums of those states. Each disorder realisation has independent Gaussian site energies of the requested mean and width and "
     "replaces all quantities of the earlier one.",
     "all chain lengths, disorder realisations, states, spectral grids, repeated realisations",
     "there are no tests of the aggregates",
     ["openms/models/aggregates.py"],
     [("aggregate", "openms/models/aggregates.py: DMA")],
     "differential and statistical monitors against explicit diagonalisation and sums",
     "hopping disorder and state classification are not implemented and not judged", over=("inputs", "histories"))

prop("P27", "Tiled block-sparse matrices and products are the dense ones they stand for",
     "For every partition of the indices, tiles cover each index once; a tiled matrix built from, filled with or converted to dense data holds the values of that matrix "
     "up to the stated threshold, keeps its own copies, and rejects blocks that do not fit. "
     "Products of tiled matrices equal the dense products for all strategies and slices, leave the operands untouched, and are refused for operands that are tiled differently along the contracted index.",
     "all partitions, sparsities, thresholds and data types",
     "there are no tests of the tiled tensors",
     ["utilities/pytiles.py"],
     [("tiles", "utilities/pytiles.py")],
     "differential monitor against dense arrays",
     "storing a vanishing block over an existing one is documented as no-op and not judged", over=("inputs", "programs"))

FD = "openms/lib/fdtd/"
prop("P28", "Time-domain fields follow Maxwell's equations on every kind of grid",
     "For every grid (uniform or graded, open, mirrored, Bloch-periodic, mixed or triangular), material distribution, absorbing layer, dispersive metal and source, "
     "the time-domain library advances the fields exactly as the leap-frog discretisation of Maxwell's equations prescribes. "
     "Closed lossless domains conserve energy, absorbing layers absorb, mirrored runs equal the unfolded run, Bloch runs equal the supercell run, and a second run repeats the first. "
     "No memory access is out of bounds, leaks or reads uninitialised data.",
     "all grids, boundary conditions, media, metals, sources and numbers of steps",
     "no test touches the C library: it is not even compiled by the test suite",
     [FD + "timeupdate.c", FD + "source.c", FD + "sigma.c", FD + "parameter.c", FD + "memory.c"],
     [("time step", FD + "timeupdate.c"), ("sources", FD + "source.c"), ("absorbing layers", FD + "sigma.c"), ("grid constants", FD + "parameter.c")],
     "address, undefined-behaviour and memory sanitizers on the compiled library with a reference-stepper monitor on dumped fields",
     "the molecular update and the convolutional layer are unfinished and not exercised; the absolute amplitude unit of Lorentzian line sources and the unit of plane-wave vectors are conventions not judged",
     over=("inputs", "configurations"))

prop("P29", "Structures placed on the time-domain grid have the shape and material asked for",
     "For every set of dielectric and metallic objects (blocks, spheres, ellipsoids, rods, cones, donuts, contours, rotated and random ones), their order, the grid and its layers, "
     "each grid sample carries the permittivity averaged over its cell and each node the metal of the last object covering it; untouched places keep the background. "
     "Layers of graded grids keep their thickness and height, defining structures again starts afresh, and no memory access is out of bounds or uninitialised.",
     "all object sets, orders, orientations and grids",
     "no test touches the C library",
     [FD + "input.c", FD + "metalobj.c", FD + "global.c"],
     [("objects", FD + "input.c"), ("metals", FD + "metalobj.c"), ("layer map", FD + "global.c")],
     "address, undefined-behaviour and memory sanitizers with a geometric monitor on the dumped material arrays",
     "samples whose cell boundary lies on an object surface within rounding are not judged; random radii in non-cubic lattices are not judged",
     over=("inputs", "configurations"))

prop("P30", "Recorded fields, energies and fluxes are those of the simulated fields",
     "For every state of the fields and every component, position, plane, block or layer asked for, the recorded values, images, averages, time series and surface projections are those of the fields on the grid, "
     "including the unfolding of mirrors and the phase of periodic images. "
     "Energies and losses are the sums over the block or the interior of the domain, fluxes are the surface sums of the Poynting vector, and physical units are converted consistently.",
     "all components, positions, planes, blocks, layers, grids and field states; domain sums and fluxes in open or mirrored domains",
     "no test touches the C library",
     [FD + "output.c", FD + "energy.c", FD + "parameter.c"],
     [("values and images", FD + "output.c"), ("energies and fluxes", FD + "energy.c")],
     "address, undefined-behaviour and memory sanitizers with an observable monitor recomputing every record from dumped fields",
     "domain sums in periodic domains and current densities on mirror planes are not judged",
     over=("inputs", "configurations"))

prop("P31", "Orthonormal bases, dependent functions and DIIS extrapolation are exact",
     "For every overlap matrix, also a linearly dependent one, the Cholesky and eigenvalue based orthogonalisations return linearly independent orthonormal functions that reproduce the overlap, "
     "the orbitals and the coupling operators diagonalised in them are those of the generalised eigenproblem, and the caller's matrices are not changed. "
     "The initial guesses are densities of the right number of electrons. The commutator errors of the extrapolation vanish exactly at stationary densities, and the extrapolated matrices "
     "and variational parameters are the error-minimising combinations of the stored ones.",
     "all overlap matrices, ranks, thresholds, densities, numbers of stored iterations, with and without variational parameters",
     "the tests only run full calculations in well-conditioned bases",
     ["openms/lib/mathlib.py", "openms/lib/scipy_helper.py", "openms/mqed/diis.py", "openms/mqed/scqedhf.py"],
     [("orthogonalisation", "openms/lib/mathlib.py, openms/lib/scipy_helper.py"), ("extrapolation", "openms/mqed/diis.py"), ("guesses", "openms/mqed/scqedhf.py")],
     "differential monitor against linear-algebra identities and constrained minimisation",
     "restarting the extrapolation (rollback) is not judged", over=("inputs", "histories"))

prop("P32", "Dynamics steps, kinetics and the output of runs are right and repeatable",
     "The Runge-Kutta step agrees with the exact flow to fourth order and leaves its input alone, the Verlet steps are time reversible and conserve energy to second order, "
     "velocities, kinetic energies and temperatures are those of the masses and numbers of atoms, and molecules and electronic states of a run are independent of each other. "
     "Starting runs never destroys the output of earlier ones, the final geometry is written as reached, and seeded runs repeat.",
     "all systems of ordinary differential equations, molecules, time steps, sequences of runs and restarts in one directory",
     "the stable tests do not run any dynamics",
     ["openms/qmd/propagator.py", "openms/qmd/bomd.py", "openms/lib/misc.py", "openms/qmd/__init__.py"],
     [("integrators", "openms/qmd/propagator.py: rk4; openms/qmd/bomd.py"), ("output", "openms/qmd/bomd.py: directories and geometries")],
     "differential monitor against exact flows; file-system history monitor in scratch directories",
     "the complete trajectory drivers lack methods of their own and cannot run; their steps are monitored one by one", over=("inputs", "histories"))

prop("P33", "Optical conductivities and spin tensors follow the material models",
     "For every density, mass, damping and interband parameter, plasma frequencies and the frequency dependence of the free-electron and interband conductivities are those of the Drude and interband formulas, "
     "component by component, with absorption only above the interband frequency of that component. Zero-field splitting tensors are diagonal, traceless and have the given D and E, or are the full tensor given; "
     "g factors given as a number, axis values or a tensor stand for that tensor, and the library of measured tensors and its matrix reader return the written numbers.",
     "all material parameters, frequencies, splitting parameters and orientations, all library entries",
     "there are no tests of these modules",
     ["openms/maxwell/hyperbolic.py", "openms/spindy/spin.py", "openms/spindy/gtensorlibs.py"],
     [("conductivity", "openms/maxwell/hyperbolic.py"), ("spins", "openms/spindy/spin.py, openms/spindy/gtensorlibs.py")],
     "differential monitor against the closed formulas",
     "the amplitude unit of the free-electron term is a convention and not judged", over=("inputs", "configurations"))

prop("P34", "Cavity set-ups mean what was asked for, evaluations do not depend on history",
     "For every way of writing them (numbers, lists, integer or real arrays), frequencies, polarizations, coupling strengths, photon-number spaces, displacements and transformation strengths of a cavity object "
     "are those of its arguments; meaningless arguments are refused with an error. Neither construction nor calculation changes the caller's arrays, so calculations that share arguments equal separate ones. "
     "The energy and Fock matrix of a density do not depend on what the object evaluated before, also when it is moved to another molecule, and repeating a run gives the same result.",
     "all argument forms, numbers of modes, series of calculations and sequences of evaluations on one object",
     "the tests build each object once from fresh arrays",
     [BOS, QHF, SC, VT],
     [("construction", f"{BOS}: Boson"), ("mean fields", f"{QHF}: RHF")],
     "argument snapshots and history monitor comparing with fresh objects",
     "histories of up to eight evaluations", over=("inputs", "histories", "configurations"))

prop("P35", "Subspace eigensolver: bounded, honest about convergence, lowest states",
     "For every Hermitian operator (real or complex, any weighted inner product), the Davidson eigensolver's values are upper bounds to the lowest exact eigenvalues at every cycle and never rise; "
     "each is the expectation value of its vector, and the vectors are orthonormal. What it flags as converged is an eigenpair to the requested tolerance, and the lowest ones whenever the starting vectors lie below the first level not asked for, "
     "for any number of roots and (possibly linearly dependent) starting vectors, any preconditioner, restart size and storage mode. Without preconditioner and restart each cycle gives the exact Ritz value of the Krylov space; starting vectors and diagonals stay unchanged.",
     "all Hermitian matrices, weighted inner products, starting vectors, numbers of roots, preconditioners, subspace sizes, restarts, storage modes and filters",
     "no test calls the eigensolver",
     ["openms/solvers/linalg.py"],
     [("eigensolver", "openms/solvers/linalg.py: davidson, davidson1, _fill_heff"), ("preconditioner", "openms/solvers/linalg.py: make_diag_precond")],
     "per-cycle bound monitor on the solver's callback, dense diagonalisation and Krylov oracles",
     "dimensions up to 60; up to 5 roots; states restored by follow_state are only judged when flagged converged")

prop("P36", "Far-field patterns are those of the recorded near fields",
     "The running Fourier sums kept at a detection plane are at every update the sums of the sampled fields times the cosine and sine of each frequency, and the amplitude and phase, "
     "the real and imaginary and the zero-padded files hold them at their places. "
     "The momentum-space intensities, radiation patterns and radiated powers are those of the two-dimensional Fourier transform of the tangential fields for the frequency and the refractive index, "
     "so that an upward plane wave appears in its own direction and polarization only. "
     "Polar maps hold the interpolated pattern of the direction of each pixel, sums over frequencies add them, and none of these routines reads or writes outside its arrays, uses unset values or leaks memory.",
     "all detection planes, frequencies, field histories, window and array sizes, refractive indices and directions",
     "no test touches the C library",
     [FD + "farfield.c", FD + "transmap.c", FD + "output.c"],
     [("momentum-space patterns and polar maps", FD + "farfield.c"), ("running sums and near-field files", FD + "transmap.c")],
     "address, undefined-behaviour and memory sanitizers with an independent Fourier oracle over recorded near fields",
     "the light-cone window must fit into the padded array; pixels within 0.02 radians of the centre of a polar map other than the centre are not judged",
     over=("inputs", "histories", "configurations"))

# MORE


def main():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        json.load(f)
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "checks", p["pid"].lower() + ".py"))]
    have.sort(key=lambda p: p["pid"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            d = dict(id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=[dict(property=p["pid"], quick_cmd=f"./run.sh {p['pid']} --tier quick",
                          thorough_cmd=f"./run.sh {p['pid']} --tier thorough", evidence_file=f"evidence/{p['pid']}.json",
                          technique="runtime monitoring: " + p["technique"], level="exploration", level_note=p["note"]) for p in have],
             not_applicable=NA,
             notes="No hooks were needed in /repo: the monitors attach from outside (callbacks, wrapped methods, patched random sources). "
                   "See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


NA = []

if __name__ == "__main__":
    main()
