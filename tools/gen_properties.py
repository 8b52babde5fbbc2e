"""Writes properties.jsonl (kept as code so that the text stays in one readable place)."""
import json
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=["tbplas/" + f for f in files],
                               mechanism=[dict(name=n, where="tbplas/" + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Lattice vectors and coordinate conversion are consistent",
     "Converting positions from fractional to Cartesian coordinates and back (with any origin) returns the input, and each conversion is the stated linear map. "
     "Reciprocal vectors satisfy a_i.b_j = 2*pi*delta_ij, volumes and areas equal the triple and cross products, and vectors generated from lengths and angles have exactly these lengths and angles. "
     "Rotating coordinates about an axis and a centre is the rigid rotation by that angle.",
     ["inputs"], "all real lattice vectors with non-zero volume, all coordinates, origins, angles and centres",
     "tests compare a few fixed lattices with tabulated numbers",
     ["base/lattice.py"], [("gen_lattice_vectors, gen_reciprocal_vectors, frac2cart, cart2frac, rotate_coord", "base/lattice.py")])
prop("C02", "K-paths and k-meshes sample exactly the requested points",
     "A k-path visits every requested high-symmetry point at the reported node index, divides each segment uniformly into the requested number of steps and joins consecutive segments without gap or duplicate. "
     "A regular k-mesh contains every node of the uniform grid exactly once in row-major order, and path distances are the cumulative Cartesian lengths in reciprocal space.",
     ["inputs", "configurations"], "all node coordinates and lattices (symbolic reals), segment and grid sizes within the bounds of the check",
     "tests use one path and one mesh",
     ["base/kpoints.py"], [("gen_kpath, gen_kdist, gen_kmesh", "base/kpoints.py")])
prop("C03", "Hopping terms read back as written, up to Hermitian conjugation",
     "After any sequence of additions, overwrites and removals, reading a hopping term in either direction returns the last value written for that pair of orbitals, conjugated when read in the reversed direction, and reports absence when it was removed or never written. "
     "A pair and its Hermitian conjugate are never both stored, diagonal terms are rejected, and the exported arrays list every stored term exactly once.",
     ["histories", "inputs"], "all sequences of operations up to the bounded length, all cell indices and orbital indices in the bounded range, all complex energies",
     "tests replay a few fixed sequences",
     ["builder/base.py"], [("IntraHopping, InterHopping, SuperCell HopModifier containers", "builder/base.py")])
prop("C04", "Editing a primitive cell keeps orbitals, hoppings and arrays in step",
     "After any sequence of edits of a primitive cell, the exported position, energy and hopping arrays describe exactly the current orbitals and hopping terms, never a stale state. "
     "Removing orbitals removes exactly the hopping terms attached to them and renumbers the rest consistently, positions keep their Cartesian meaning when units are converted, and a rejected edit (invalid index, locked cell) changes nothing.",
     ["histories", "inputs"], "all edit sequences up to the bounded length with symbolic energies and positions and all orbital indices",
     "tests perform one edit each and inspect one array",
     ["builder/primitive.py", "builder/base.py"], [("PrimitiveCell.add_*/set_*/remove_*, sync_orb, sync_hop, lock", "builder/primitive.py")])
prop("C05", "The Bloch Hamiltonian is the Hermitian sum over all hopping terms",
     "For every primitive cell and k-point the dense and sparse Bloch Hamiltonians agree with each other and with on-site energies plus the sum of t*exp(i k.R) (or k.(R+tau_j-tau_i) in the atomic-position convention) and its conjugate over all terms. "
     "The matrix is Hermitian, periodic in k in the lattice convention, and the two conventions differ only by the diagonal phase transformation exp(i k.tau). The formulas printed for the Hamiltonian evaluate to the same matrix.",
     ["inputs", "configurations"], "all on-site energies, complex hopping energies, cell indices, positions and k-points, for every hopping pattern within the size bound",
     "tests compare eigenvalues of a handful of cells with stored data",
     ["builder/primitive.py", "cython/primitive.pyx", "builder/overlap.py", "diagonal/base.py"], [("set_ham_dense/csr, build_hop_csr", "cython/primitive.pyx"), ("PrimitiveCell.set_ham_dense/set_ham_csr", "builder/primitive.py")])
prop("C06", "Extending, reshaping, merging and trimming keep the model",
     "Extending or reshaping a primitive cell yields a cell whose orbitals tile the larger lattice exactly once and whose hopping terms are exactly the images of the original ones, so its Bloch Hamiltonian is the folding of the original one. "
     "Merging cells gives the block-diagonal model plus exactly the requested inter-cell terms; making a direction open removes exactly the terms that cross it; trimming removes exactly the orbitals with at most one bond; changing the lattice basis, rotating or shifting a cell leaves distances and energies unchanged.",
     ["inputs", "configurations"], "all energies, hopping values and positions, for the lattices, hopping patterns and transformations within the bounds",
     "tests check plots and a few eigenvalues",
     ["builder/advanced.py", "builder/primitive.py"], [("extend_prim_cell, reshape_prim_cell, merge_prim_cell, apply_pbc, trim_prim_cell, reset_lattice, spiral_prim_cell", "builder/advanced.py")])
prop("C07", "Super-cell orbital numbering is a bijection that skips vacancies",
     "For every super-cell size, number of orbitals and set of vacancies, converting a (cell, orbital) index to its serial index and back returns the original, serial indices cover 0..n-1 exactly once, and vacancies have none. "
     "Scalar and array conversions, in all index formats and with or without periodic wrapping, agree with each other and report the documented error for out-of-range or vacant indices.",
     ["inputs", "configurations", "histories"], "all dimensions, orbital counts, vacancy sets and indices within the bounds; any history of vacancy changes",
     "tests probe one super cell with a fixed vacancy list",
     ["builder/super.py", "cython/super.pyx"], [("OrbitalSet.orb_id_pc2sc/sc2pc and array versions", "builder/super.py"), ("id_pc2sc, id_sc2pc, id2array ...", "cython/super.pyx")])
prop("C08", "A super cell contains exactly the tiled orbitals and hopping terms",
     "On-site energies, positions, hopping terms and displacement vectors of a super cell are exactly those obtained by replicating the primitive cell over the requested dimensions, wrapping terms across periodic boundaries, dropping terms across open ones, and removing everything attached to vacancies. "
     "Each physical term appears once, its displacement equals the difference of the (image) positions, and user modifications add to or overwrite exactly the designated terms.",
     ["inputs", "configurations"], "all energies, hopping values, lattice vectors and positions; all dimensions, boundary conditions, vacancies, hopping patterns and modifications within the bounds",
     "tests compare numbers of terms for one super cell",
     ["builder/super.py", "cython/super.pyx"], [("SuperCell.get_orb_pos/get_orb_eng/get_hop/get_dr", "builder/super.py"), ("build_hop, build_hop_fast, build_hop_gen ...", "cython/super.pyx")])
prop("C09", "A sample is the union of its super cells and inter-cell hoppings",
     "Arrays of a sample are the concatenation of those of its super cells with consistently offset indices followed by the inter-super-cell terms, whatever the number of components. "
     "The sparse Hamiltonian built by any of the available algorithms and the dense one agree entry by entry, are Hermitian, and the current operators hold i*t*dx and i*t*dy (with opposite displacement for the conjugate) for exactly the stored terms.",
     ["inputs", "configurations"], "all energies, hopping values and displacements; all component and orbital counts and hopping patterns within the bounds",
     "tests compare plots and a few sums",
     ["builder/sample.py", "cython/sample.pyx", "builder/super.py"], [("Sample.init_*, build_ham_csr, build_ham_dense", "builder/sample.py"), ("build_ham_csr*, build_dxy_csr*", "cython/sample.pyx")])
prop("C10", "Rescaling maps the spectrum into the Chebyshev interval, reversibly",
     "The automatically determined rescaling factor bounds every row sum of |H|, so the rescaled spectrum lies within [-1, 1] for every Hamiltonian. "
     "Rescaling divides all on-site energies and hopping terms by the recorded factor, repeated calls do not compound, and physical energies are recovered by multiplying with that factor.",
     ["inputs", "histories"], "all on-site energies (of any sign) and complex hopping terms; all patterns within the bounds; any sequence of rescaling calls up to the bound",
     "tests run one graphene sample, where on-site energies vanish",
     ["builder/sample.py", "cython/sample.pyx"], [("Sample.rescale_ham", "builder/sample.py"), ("get_rescale", "cython/sample.pyx")])
prop("C11", "Magnetic fields enter through gauge-invariant Peierls phases",
     "Applying a magnetic field multiplies each hopping term by a pure phase, keeps on-site energies, moduli and Hermiticity, and is reversed by the opposite field. "
     "For every supported gauge the phase accumulated around any closed loop of orbitals (through terms that do not wrap around a periodic boundary) equals 2*pi times the enclosed flux B*area in units of the flux quantum, so all gauges give the same physics.",
     ["inputs", "configurations"], "all positions, hopping values, field strengths and all gauges; closed loops of up to the bounded number of sites",
     "no test compares gauges",
     ["cython/sample.pyx", "builder/sample.py"], [("set_mag_field", "cython/sample.pyx"), ("Sample.set_magnetic_field", "builder/sample.py")])
prop("C12", "Slater-Koster hopping integrals obey rotation and exchange symmetry",
     "For every direction and every set of real bond parameters, hopping integrals between s, p and d orbitals equal the two-centre projections, i.e. transform covariantly under rotations of the bond. "
     "Exchanging the orbitals and reversing the bond gives the same value, and the result does not depend on the length of the bond vector.",
     ["inputs"], "all unit directions (symbolic), all bond integrals, all pairs of the nine orbitals",
     "tests compare with stored numbers for one direction",
     ["builder/advanced.py"], [("SK.eval", "builder/advanced.py")])
prop("C13", "Spin-orbit matrix elements are those of L.S",
     "Spin-orbit matrix elements between all s, p and d orbitals and spins equal <l1 s1|L.S|l2 s2>: Hermitian, invariant under time reversal and rotations about z, satisfying the angular-momentum algebra and (L.S)^2 identities of each shell. "
     "The tabulated and the operator-evaluated implementations agree.",
     ["inputs", "configurations"], "all pairs of orbital labels and spin directions",
     "tests check a few elements",
     ["builder/advanced.py"], [("SOC, SOCTable, SOCTable2", "builder/advanced.py")])
prop("C14", "Neighbour search finds every pair within the cutoff exactly once",
     "For every cell, searching for neighbours within a cutoff radius returns each pair of orbitals (up to reversal) whose separation does not exceed the cutoff and lies within the search range, with the correct separation vector and distance, and no others. "
     "The result is sorted by distance.",
     ["inputs", "configurations"], "all orbital positions (symbolic), lattices and cutoffs within bounds",
     "tests use one lattice",
     ["builder/advanced.py"], [("find_neighbors", "builder/advanced.py")])
prop("C15", "Response functions are the documented sums over bands and k-points",
     "Dynamic polarisation on and off the k-mesh, dielectric function and optical conductivity equal the Lindhard and Kubo formulas in terms of the given eigenvalues, eigenvectors, Fermi function, velocity operators and broadening. "
     "The compiled implementations of each quantity (Cython and Fortran) agree with each other.",
     ["inputs", "configurations"], "all eigenvalues, eigenvectors, frequencies, chemical potentials, temperatures and broadenings (symbolic); bounded numbers of bands, k-points and frequencies",
     "tests compare two materials with stored curves by plotting",
     ["diagonal/lindhard.py", "cython/lindhard.pyx", "fortran/lindhard.f90", "diagonal/base.py"], [("Lindhard", "diagonal/lindhard.py"), ("prod_dp, dyn_pol, ac_cond kernels", "fortran/lindhard.f90"), ("build_vel_mat, prod_dp, dyn_pol_*", "cython/lindhard.pyx")])
prop("C16", "Parallel distribution does not change results",
     "Splitting work over MPI processes assigns every item to exactly one process for every item count and process count, balanced to within one item. "
     "Band energies, densities of states, polarisation and conductivity are the same for any number of processes.",
     ["schedules", "inputs", "configurations"], "all process counts and item counts within the bound; symbolic data",
     "tests run with a single process",
     ["parallel.py", "diagonal/base.py", "diagonal/lindhard.py", "tbpm/solver.py"], [("split_range, split_list, MPIEnv.dist_*, all_reduce, average", "parallel.py")])
prop("C17", "Densities of states are normalised broadened histograms of the levels",
     "The density of states equals the average over k-points and sum over levels of the Gaussian or Lorentzian of unit area, on the uniform grid of floor((e_max-e_min)/e_step) steps from e_min to e_max. "
     "Local densities of states weight each level with the modulus squared of the eigenvector component, and sum to the total over all orbitals. Energies, states and densities of states always belong to the model as it is when they are calculated, also after it was edited.",
     ["inputs", "configurations"], "all eigenvalues, eigenvectors, broadenings and energy windows; bounded numbers of levels, k-points and grid points",
     "tests plot curves",
     ["diagonal/base.py"], [("DiagSolver.calc_dos, calc_ldos, gaussian, lorentzian", "diagonal/base.py")])
prop("C18", "Sparse operators and Chebyshev propagation evaluate the stated operators",
     "Products, scalar products and norms with sparse operators equal their dense definitions for every matrix and vector. "
     "A time step evaluates sum_n c_n T_n(H) psi with the Chebyshev recursion, the Fermi operator and the Haydock recursion evaluate their documented series, and a time step with opposite time step inverts it term by term.",
     ["inputs"], "all sparse matrices, vectors and coefficients (symbolic complex), bounded dimension and number of terms",
     "tests plot final curves",
     ["fortran/propagation.f90", "fortran/math.F90", "fortran/csr.F90", "fortran/funcs.f90"], [("cheb_wf_timestep, Fermi, haydock", "fortran/propagation.f90"), ("amv, csr_mv, vector algebra", "fortran/csr.F90")])
prop("C19", "TBPM correlation functions follow their definitions",
     "For every Hamiltonian, current operator, and initial state, the correlation functions returned by the compiled routines equal <psi(0)|psi(t)>, the local version, the current-current and density-density correlations with Fermi-projected states, and quasi-eigenstates their windowed time integrals, averaged over random samples. "
     "The number of time steps and random samples is exactly the requested one.",
     ["inputs", "configurations"], "all sparse operators, initial states and coefficients (symbolic); bounded dimension, time steps and samples",
     "tests plot one realisation of random states",
     ["fortran/tbpm.f90", "tbpm/solver.py"], [("tbpm_dos, tbpm_ldos, tbpm_accond, tbpm_dyn_pol, tbpm_dccond, tbpm_eigenstates ...", "fortran/tbpm.f90")])
prop("C20", "TBPM analysis turns correlation functions into the documented spectra",
     "DOS, LDOS, optical conductivity, dynamic polarisation, dielectric function, DC conductivity, diffusion coefficient and Hall conductivity are the windowed Fourier-type sums of the correlation functions with the documented prefactors, energy grids and normalisation, for every input correlation. "
     "Spectra are linear in the correlation function and their grids are in physical units.",
     ["inputs", "configurations"], "all correlation values, rescale factors, temperatures and areas (symbolic), bounded numbers of time steps",
     "tests plot curves",
     ["tbpm/analysis.py", "fortran/analysis.f90", "fortran/kpm.f90", "fortran/fft.F90"], [("Analyzer", "tbpm/analysis.py"), ("cond_from_trace", "fortran/analysis.f90")])
prop("C21", "Spin texture and Z2 bookkeeping are exact",
     "Expectation values of sigma_x, sigma_y and sigma_z computed for given states equal <psi|sigma|psi> for either spin ordering, on exactly the requested k-grid. "
     "Wannier-centre phases are those of the Wilson loop of the occupied states of the model as it currently is; they are reordered to follow the closest continuation modulo 2*pi and crossings are counted with the correct parity.",
     ["inputs", "configurations"], "all eigenvectors and phases (symbolic), bounded numbers of bands and k-points",
     "not covered by tests",
     ["diagonal/magnetic.py", "diagonal/z2.py"], [("SpinTexture.eval", "diagonal/magnetic.py"), ("Z2.reorder_phases, count_crossing", "diagonal/z2.py")])
prop("C22", "Wannier90 files define the imported model",
     "A model imported from Wannier90 output has the lattice, Wannier centres, and H(R) matrix elements of the files, so its Bloch Hamiltonian equals the sum of exp(i k.R) H(R) / ndegen(R) over all tabulated lattice vectors. "
     "Exactly the terms whose modulus is at least the energy cutoff are kept, and a correction file that distributes a term over several lattice vectors shares it among them.",
     ["inputs", "configurations"], "all numeric contents (symbolic) of files with bounded numbers of vectors and orbitals",
     "no test reads Wannier90 files",
     ["adapter/wannier90.py"], [("wan2pc", "adapter/wannier90.py")])
prop("C23", "Predefined materials are self-consistent models",
     "Every predefined material has a Hermitian Hamiltonian respecting its symmetry: alternative constructions of the same material (from scratch, by reshaping, rectangular or primitive cells) have identical spectra at every k-point, spinful ones are time-reversal symmetric, and user parameters reach every term they should.",
     ["inputs", "configurations"], "all k-points and all tunable parameters (symbolic)",
     "tests compare plots at default parameters",
     ["materials/graphene.py", "materials/phosphorene.py", "materials/antimonene.py", "materials/xs2.py"], [("make_graphene_*, make_black_phosphorus, make_antimonene, make_mos2_soc, make_tmdc", "materials/graphene.py")])
prop("C24", "Results do not depend on OpenMP thread scheduling",
     "Every calculation gives the same result (up to rounding of sums) for every number of OpenMP threads and every order in which the iterations of its parallel loops run: no two iterations of a parallel loop touch the same memory unless both only read it, "
     "apart from private and reduction variables.",
     ["schedules", "inputs"], "all pairs of different iterations of every OpenMP loop, all loop lengths, array sizes and index-array contents",
     "a test runs one schedule; races show up rarely",
     ["fortran/lindhard.f90", "fortran/tbpm.f90", "fortran/csr.F90", "fortran/math.F90", "fortran/fft.F90", "fortran/funcs.f90", "fortran/kpm.f90", "fortran/analysis.f90", "fortran/random.f90"],
     [("OpenMP PARALLEL DO loops", "fortran/lindhard.f90"), ("csr_mv, amxpy, amxpby", "fortran/csr.F90")])
prop("C25", "Real-space wave functions and figures show the state they are given",
     "A cube file written for a state holds the real part, imaginary part or squared modulus of the sum over orbitals and periodic images of coefficient times Bloch phase times normalised hydrogen-like orbital (real spherical harmonics), at the grid points, lengths and atoms of its header. "
     "Figures draw every value at the position of its orbital, k-point or energy, and hopping terms as lines between the orbitals they connect. Drawings of cells and samples show every orbital, every hopping term above the cutoff and every cell at its place in the chosen view.",
     ["inputs", "configurations"], "all coefficients, k-points, orbital positions and grids; all orbitals up to n = 4, l = 3",
     "tests only look at pictures",
     ["visual.py", "cython/atom.pyx", "builder/visual.py"], [("Visualizer.plot_wfc3d, plot_scalar, plot_vector, plot_bands, plot_phases", "visual.py"), ("set_cube", "cython/atom.pyx")])
prop("C26", "Parameter fitting minimises the weighted difference of bands",
     "For every reference, model, set of weights and parameters, the fitting tool minimises the sum over k-points and bands of the squared difference between reference and model bands, "
     "each band weighted with the modulus of its weight relative to the sum of all moduli (equally without weights). It returns the parameters found by the minimiser, reports its failure as an error, and leaves the reference, the weights and the model bands unchanged.",
     ["inputs", "configurations"], "all band energies, weights of either sign and parameters, for bounded numbers of bands and k-points",
     "not covered by tests",
     ["builder/advanced.py"], [("ParamFit.estimate_error, fit", "builder/advanced.py")])
if __name__ == "__main__":
    import os
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
