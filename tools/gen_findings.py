"""Writes known_findings.json: the defects found in /repo. 'fixed' entries suppress nothing."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C03", "4e56648", "hopping containers whose hashes collide (-1 and -2) were treated as unchanged, so arrays kept stale values"),
    ("C04", "4e56648", "orbital edits whose hashes collide (energy -1.0 to -2.0) did not reach the arrays of the primitive cell"),
    ("C01", "207f6fc", "frac2cart raised AttributeError for coordinates given as lists, unlike cart2frac"),
    ("C01", "a6add1c", "rotate_coord truncated the rotated coordinates to integers for integer input"),
    ("C04", "d666fdb", "remove_orbitals removed some orbitals before raising for an invalid index"),
    ("C07", "b1a180b", "set_vacancies() without vacancies raised TypeError"),
    ("C08", "abe9b3c", "hop_modifier that only overwrites existing terms turned hopping indices into floats"),
    ("C10", "8632e6a", "rescale_ham() called twice without a factor rescaled by a factor of the already rescaled Hamiltonian"),
    ("C11", "8c701b8", "the symmetric gauge (gauge=2) applied a Peierls phase that is not equivalent to the Landau gauges"),
    ("C10", "a240c19", "get_rescale used signed on-site energies, so negative energies could leave the spectrum outside [-1, 1]"),
    ("C06", "b4a1d6a", "reshape_prim_cell lost orbitals near corners of strongly skewed three-dimensional cells"),
    ("C06", "bb753ff", "merge_prim_cell kept the extended attribute of the first cell when a later one had a smaller value"),
    ("C15", "5403b5c", "Lindhard.calc_epsilon raised AttributeError for a list of q-points (e.g. [(0.1, 0, 0)]), unlike the other methods"),
    ("C16", "19921b3", "Lindhard.calc_dyn_pol_arbitrary/regular: the all-reduce inside the loop over q-points multiplied the polarization of all but the last q-point by the number of MPI processes per later q-point"),
    ("C16", "47be703", "MPIEnv.dist_bound with more processes than items gave bounds of a wrong (non-empty or invalid) range to the idle processes"),
    ("C21", "85f10e5", "SpinTexture kept the states of the previous k-grid when the hashes of two grids collided (coordinates -1 and -2)"),
    ("C18", "f1542e2", "the Chebyshev expansion of the propagator read past the end of the coefficients when a very short time step needs fewer than 3 Bessel terms"),
    ("C19", "55862aa", "the AC current correlation function at the first time step was computed but not stored, so it was returned as zero"),
    ("C22", "3ada33f", "the Wannier90 importer ignored the Wigner-Seitz degeneracies of wannier90_hr.dat and overwrote terms that the correction file maps onto the same hopping"),
    ("C23", "07a7a65", "make_graphene_rect(from_scratch=False) ignored the cell thickness c"),
    ("C25", "40676da", "Visualizer.plot_wfc3d without rn_max raised TypeError"),
    ("C25", "72ad7c4", "Visualizer.plot_scalar scrambled the interpolated image when num_grid differs in x and y"),
    ("C25", "1b538b2", "cube files had zero instead of the maximum of s orbitals at grid points on a nucleus"),
]
KNOWN = []
out = [dict(property=p, status="fixed", commit=c, what=w, text=f"fixed: property={p} {c} {w}") for p, c, w in FIXED] + KNOWN
with open(V + "/known_findings.json", "w") as f:
    json.dump(out, f, indent=1)
