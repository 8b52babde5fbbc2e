"""Runs calculations of one group on the package given as argv[1]; saves the results (argv[3])."""
import os
import sys

pkg, group, out, rep = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
sys.path.insert(0, pkg)
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import tbplas as tb

res = {}


def cell(disorder=0):
    p = tb.make_graphene_diamond()
    if disorder:
        p = tb.extend_prim_cell(p, dim=(disorder, disorder, 1))
        for i in range(p.num_orb):
            p.set_orbital(i, energy=0.3 * ((i * 7) % 5 - 2) + 0.01)
    return p


def sample(n):
    s = tb.Sample(tb.SuperCell(cell(2), dim=(n, n, 1), pbc=(True, True, False)))
    s.rescale_ham(10.0)
    return s


def solver(s, **kw):
    cfg = tb.Config()
    cfg.generic.update(nr_time_steps=4, nr_random_samples=1, nr_Fermi_fft_steps=4096, beta=5.0, mu=0.2, wfn_check_steps=999)
    cfg.quasi_eigenstates["energies"] = [0.2, 1.0]
    cfg.LDOS.update(site_indices=[5, 9, 11], recursion_depth=12, delta=0.1)
    cfg.dyn_pol["q_points"] = [[0.5, 0.2, 0.0], [1.0, 0.3, 0.1]]
    cfg.DC_conductivity["energy_limits"] = (-2.6, 0.1)
    cfg.dckb.update(n_kernel=48, ne_integral=64, energies=[x * 0.1 for x in range(-12, 12)])
    return tb.Solver(s, cfg, echo_details=False, directory="sim", prefix="p"), tb.Analyzer(s, cfg), cfg


if group == "lindhard":
    p = tb.extend_prim_cell(cell(2), dim=(1, 2, 1))
    far = cell()
    for i in range(-9, 10):
        for j in range(1, 10):
            far.add_hopping((i, j, 0), 0, 1, 0.3 / (i * i + j * j + 1))
            far.add_hopping((i, j, 0), 0, 0, 0.2 / (i * i + j * j + 1))
    for r in range(rep):
        lin = tb.Lindhard(far, energy_max=8, energy_step=64, kmesh_size=(24, 24, 1), mu=0.1, temperature=1500, g_s=2, dimension=2)
        res[f"far{r}"] = lin.calc_ac_cond(component="xy", use_fortran=True)[1]
        lin = tb.Lindhard(p, energy_max=8, energy_step=256, kmesh_size=(16, 12, 1), mu=0.1, temperature=1500, g_s=2, dimension=2)
        for fort in (True,):
            res[f"dp{fort}{r}"] = lin.calc_dyn_pol_regular([(1, 2, 0), (3, 1, 0)], use_fortran=fort)[1]
            res[f"da{fort}{r}"] = lin.calc_dyn_pol_arbitrary([(0.31, 0.22, 0.0)], use_fortran=fort)[1]
            res[f"ac{fort}{r}"] = lin.calc_ac_cond(component="xy", use_fortran=fort)[1]
            res[f"xx{fort}{r}"] = lin.calc_ac_cond(component="xx", use_fortran=fort)[1]
elif group == "kpm":
    s = sample(4)
    for r in range(rep):
        rng = np.random.RandomState(1)
        so, an, cfg = solver(s)
        mu = rng.rand(48, 48) + 1j * rng.rand(48, 48)
        res[f"hall{r}"] = an.calc_hall_cond(mu)[1]
else:
    s = sample(24)
    for r in range(rep):
        so, an, cfg = solver(s)
        for calc in ("calc_corr_dos", "calc_corr_ldos", "calc_corr_ac_cond", "calc_corr_dyn_pol", "calc_corr_dc_cond", "calc_quasi_eigenstates", "calc_hall_mu",
                     "calc_ldos_haydock"):
            v = getattr(so, calc)()
            for i, x in enumerate(v if isinstance(v, tuple) else (v,)):
                res[f"{calc}{i}_{r}"] = np.asarray(x)
        w = np.exp(1j * np.arange(len(s.orb_eng)))
        res[f"psi{r}"] = so.calc_psi_t(w, [1, 3])
np.savez(out, **{k: np.asarray(v) for k, v in res.items()})
