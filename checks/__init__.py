PROPS = {
    "C01": "lattice", "C02": "kpoints", "C03": "hoppings", "C04": "primitive", "C05": "hamiltonian", "C06": "transform", "C07": "superindex", "C08": "supercell", "C09": "samples", "C10": "rescale", "C11": "magfield", "C12": "slater", "C13": "soc", "C14": "neighbors", "C15": "response", "C16": "parallel", "C17": "dos", "C18": "propagation", "C19": "tbpm", "C20": "analysis", "C21": "topology", "C22": "wannier", "C23": "materials", "C24": "threads", "C25": "realspace", "C26": "fitting",
}
