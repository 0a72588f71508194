"""Worlds written to the files a user hands to a configuration (CIF, events, local-barrier model)."""
import os

import numpy as np

import cifs
import worlds as W


def as_loaded(spec):
    """The same world with its sites listed in the order the CIF loader lists them (by electronegativity, stable)."""
    from pymatgen.core import Element

    perm = sorted(range(len(spec["sites"])), key=lambda k: Element(spec["sites"][k][0]).X)
    table = {k: v for k, v in spec["mapping"]}
    cells = int(np.prod(spec["shape"]))
    old = [k for k in range(len(spec["sites"])) if len(table[spec["sites"][k][0]]) > 1]
    new = [k for k in perm if len(table[spec["sites"][k][0]]) > 1]
    where = {}
    for pos, k in enumerate(new):
        for c in range(cells):
            where[old.index(k) * cells + c] = pos * cells + c
    out = dict(spec)
    out["sites"] = [spec["sites"][k] for k in perm]
    out["events"] = [[where[i], where[j], [where[e] for e in env]] for i, j, env in spec["events"]]
    out["occ"] = [0] * len(spec["occ"])
    for k, v in enumerate(spec["occ"]):
        out["occ"][where[k]] = v
    return out


def write_cif(spec, path, rows=None):
    rows = rows or [[el, f"{el}{k}", f] for k, (el, f) in enumerate(spec["sites"])]
    with open(path, "w") as fh:
        fh.write(cifs.p1_cif(spec["lattice"], rows))


def barrier_model(spec):
    from kmcpy.models.local_barrier_model import LocalBarrierModel

    model = LocalBarrierModel(default_barrier=float(spec["rates"]["base"]))
    for k, wgt in enumerate(spec["rates"]["w"]):
        model.add_state_count_rule(name=f"r{k}", barrier=float(max(1, spec["rates"]["base"] + wgt)),
                                   state=k % 2, count=k, sites="local_env")
    return model


class Files:
    """A world on disk; `settings` are the keyword arguments of its configuration."""

    def __init__(self, spec, folder, deps=True):
        self.folder = folder
        self.world = W.World(spec)
        self.cif = os.path.join(folder, "structure.cif")
        self.events = os.path.join(folder, "events.json")
        self.model = os.path.join(folder, "model.json")
        write_cif(spec, self.cif)
        self.world.event_lib(deps=deps).to(self.events)
        barrier_model(spec).to(self.model)
        self.settings = dict(
            structure_file=self.cif, model_file=self.model, event_file=self.events,
            mobile_ion_specie=spec["mobile"], mobile_ion_charge=1.0, elementary_hop_distance=2.5,
            supercell_shape=list(spec["shape"]), site_mapping={k: list(v) for k, v in spec["mapping"]}, dimension=3,
            temperature=float(spec["T"]), attempt_frequency=float(spec["v"]), equilibration_passes=0, kmc_passes=1,
            random_seed=11, name="w", initial_occupations=list(spec["occ"]), model_type="local_barrier")
