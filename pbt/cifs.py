"""CIF text for generated crystals, and an independent expansion of symmetry-reduced rows."""
import numpy as np


def p1_cif(lattice, rows, name="gen", type_symbol=True):
    """rows: [element, label, frac].  A plain P1 CIF with one row per site."""
    return _cif(lattice, rows, ["x, y, z"], "P 1", 1, name, type_symbol)


def _cif(lattice, rows, ops, sg, number, name, type_symbol=True, occupancy=True):
    a, b, c, al, be, ga = lattice
    out = [f"data_{name}", f"_symmetry_space_group_name_H-M   '{sg}'",
           f"_cell_length_a   {a:.8f}", f"_cell_length_b   {b:.8f}", f"_cell_length_c   {c:.8f}",
           f"_cell_angle_alpha   {al:.8f}", f"_cell_angle_beta   {be:.8f}", f"_cell_angle_gamma   {ga:.8f}",
           f"_symmetry_Int_Tables_number   {number}", "loop_", " _symmetry_equiv_pos_site_id",
           " _symmetry_equiv_pos_as_xyz"]
    out += [f"  {k}  '{op}'" for k, op in enumerate(ops, 1)]
    out += ["loop_"]
    if type_symbol:
        out += [" _atom_site_type_symbol"]
    out += [" _atom_site_label", " _atom_site_symmetry_multiplicity", " _atom_site_fract_x",
            " _atom_site_fract_y", " _atom_site_fract_z"]
    if occupancy:
        out += [" _atom_site_occupancy"]
    for el, label, f in rows:
        line = "  " + (f"{el}  " if type_symbol else "") + f"{label}  1  " + "  ".join(f"{x:.8f}" for x in f)
        out.append(line + ("  1" if occupancy else ""))
    return "\n".join(out) + "\n"


def same_mod1(a, b, tol=1e-4):
    d = np.asarray(a, float) - np.asarray(b, float)
    return bool(np.all(np.abs(d - np.round(d)) < tol))
