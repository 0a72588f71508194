"""C14: the compact active-site order against a position-based reference."""
import itertools
import json

import numpy as np
from hypothesis import strategies as st

import cifs
import worlds as W
from harness import Sub, require

ID = "C14"
RULE = ("Cases are primitive crystals with mixed fixed/mutable sites, site mappings and supercell shapes, probed with "
        "full and active value vectors, complete, shuffled, shifted and partly vacant structures, serialization and "
        "altered site spaces; sites are identified by position. Non-trivial: some site is fixed and the supercell "
        "has at least two cells.")
TECHNIQUE = ("property-based testing: generated structures and site mappings against a position-based reference of "
             "the active index space; metamorphic alterations must change the fingerprint")

SHAPES = [list(s) for s in itertools.product((1, 2, 3), repeat=3) if np.prod(s) <= 12]


@st.composite
def cases(draw):
    mobile, kinds = draw(W.palettes())
    n = draw(st.integers(1, 5))
    letters = draw(st.permutations(["A"] + [draw(st.sampled_from(sorted(kinds) + ["D", "D"])) for _ in range(n - 1)]))
    spec = {
        "lattice": draw(W.lattices()),
        "sites": [[kinds[l][0], f] for l, f in zip(letters, draw(W.frac_positions(n)))],
        "mapping": [[kinds[l][0], list(kinds[l][1])] for l in draw(st.permutations(sorted(set(letters))))],
        "shape": draw(st.sampled_from(SHAPES)),
        "scalar_fixed": draw(st.booleans()),
        "oxidation": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "drop": draw(st.sampled_from([0, 10, 50, 100])),
        "images": draw(st.booleans()),
        "wiggle": draw(st.sampled_from([0.0, 0.003])),
        "alter": draw(st.sampled_from(["shape", "shape-perm", "mapping-order", "mapping-more", "fixed-species",
                                       "mapping-fewer", "site-order", "extra-site"])),
    }
    return spec


def build(spec, shape=None):
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    mapping = {k: (v[0] if len(v) == 1 and spec["scalar_fixed"] else list(v)) for k, v in spec["mapping"]}
    prim = W.primitive_structure(spec)
    return prim, mapping, ActiveSiteOrder.from_structure_and_mapping(
        prim, mapping, supercell_shape=shape or spec["shape"])


def check_order(spec, case):
    import random

    from pymatgen.core import Structure
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    from kmcpy.structure.lattice_structure import LatticeStructure

    table = {k: v for k, v in spec["mapping"]}
    prim, mapping, order = build(spec)
    shape = np.array(spec["shape"])
    cells = int(np.prod(shape))
    active = [i for i, (el, _) in enumerate(spec["sites"]) if len(table[el]) > 1]
    pos = np.array([f for _, f in spec["sites"]], float)

    require(order.active_site_count == len(active) * cells, "wrong number of active sites",
            got=order.active_site_count, want=len(active) * cells)
    require(order.original_site_count == len(spec["sites"]) * cells, "wrong number of sites")

    def locate(frac_super):
        """(primitive site, cell) of a fractional supercell position."""
        f = np.array(frac_super) * shape
        hits = [i for i in range(len(pos)) if cifs.same_mod1(f, pos[i], 1e-5)]
        require(len(hits) == 1, "a site is not at a primitive position plus a lattice translation", frac=list(f))
        return hits[0], tuple(int(x) for x in np.round(f - pos[hits[0]]).astype(int) % shape)

    full = order.full_structure_with_properties()
    act = order.active_structure()
    require(len(full) == order.original_site_count and len(act) == order.active_site_count, "wrong structure size")
    require(np.allclose(full.lattice.matrix, prim.lattice.matrix * shape[:, None]), "wrong supercell lattice")
    require(np.allclose(act.lattice.matrix, full.lattice.matrix), "active structure has another lattice")
    where_full = [locate(s.frac_coords) for s in full]
    where = [locate(s.frac_coords) for s in act]
    require(len(set(where_full)) == len(where_full), "two sites share a position")
    require(set(where) == {w for w in where_full if w[0] in active}, "the active sites are not the mutable sites")
    require([s.specie.symbol for s in full] == [spec["sites"][w[0]][0] for w in where_full], "species moved")
    require([w[0] for w in where] == list(order.active_to_primitive), "active_to_primitive is wrong")
    require([where_full[k] for k in order.active_to_original] == where, "active_to_original is wrong")
    require(sorted(list(order.active_to_original) + list(order.fixed_original_indices)) == list(range(len(full))),
            "active and fixed sites do not partition the sites")
    require(all(order.original_to_active[o] == a for a, o in enumerate(order.active_to_original)),
            "original_to_active is not the inverse")
    for k, w in enumerate(where):
        require([("X" if a in W.VACANCY_WORDS else a) for a in table[spec["sites"][w[0]][0]]]
                == list(order.allowed_species_by_primitive_site[w[0]]), "allowed species of an active site", site=k)

    # value vectors
    tags = [f"{w}" for w in where_full]
    require(list(order.select_active_values(tags)) == [f"{w}" for w in where], "full values selected in another order")
    require(list(order.select_active_values([str(w) for w in where])) == [str(w) for w in where],
            "active values were changed")
    for bad in {len(full) + 1, order.active_site_count - 1, len(full) * 2} - {len(full), order.active_site_count}:
        try:
            order.select_active_values([0] * bad)
        except ValueError:
            continue
        require(False, "values of a wrong length accepted", length=bad)
    for idx in (-1, order.active_site_count, order.active_site_count + 5):
        try:
            order.validate_active_indices([0, idx])
        except IndexError:
            continue
        require(False, "an index outside the active range accepted", index=idx)
    order.validate_active_indices(range(order.active_site_count))

    # filtering shuffled, shifted, partly vacant structures
    rng = random.Random(spec["seed"])
    keep = [k for k in range(len(full)) if rng.random() * 100 >= spec["drop"] or spec["drop"] == 0]
    rng.shuffle(keep)
    if keep:
        coords = []
        for k in keep:
            f = np.array(full[k].frac_coords)
            if spec["images"]:
                f = f + np.array([rng.randint(-2, 2) for _ in range(3)])
            if spec["wiggle"]:
                step = np.array([rng.uniform(-1, 1) for _ in range(3)])
                step *= spec["wiggle"] / max(1e-9, np.linalg.norm(step))
                f = f + full.lattice.get_fractional_coords(step)
            coords.append(f)
        probe = Structure(full.lattice, [full[k].specie for k in keep], coords, site_properties={"tag": list(keep)})
        want = [where_full.index(w) for w in where if where_full.index(w) in keep]
        got = [int(s.properties["tag"]) for s in order.filter_active_structure(probe)]
        require(got == want, "filtering a structure gives other sites or another order", got=got[:8], want=want[:8],
                listed=keep[:8])
        case.label("partial structure", len(keep) < len(full))
        case.label("shuffled complete structure", len(keep) == len(full) and keep != sorted(keep))

    if 1 < len(keep) < len(full):
        base = [np.array(full[k].frac_coords) for k in keep]
        species = [full[k].specie for k in keep]
        for why, at, other in (("an atom away from every site", None, species[0]),
                               ("two atoms on one active site", rng.random(), full[order.active_to_original[0]].specie),
                               ("two different atoms on one active site", rng.random(), "Kr")):
            where_to = [k for k in keep if k in order.original_to_active]
            coords2, species2 = list(base), list(species)
            if at is None:
                step = np.array([rng.uniform(-1, 1) for _ in range(3)])
                step *= 0.06 / max(1e-9, np.linalg.norm(step))
                moved = base[0] + full.lattice.get_fractional_coords(step)
                if full.lattice.get_all_distances([moved], full.frac_coords).min() < 0.03:
                    continue
                coords2[0] = moved
            elif where_to and len(keep) + 1 < len(full):
                coords2.append(np.array(full[where_to[int(at * len(where_to))]].frac_coords))
                species2.append(other)
            else:
                continue
            try:
                order.filter_active_structure(Structure(full.lattice, species2, coords2))
            except ValueError:
                case.label(why)
            else:
                require(False, "a structure that does not fit the sites was filtered: " + why, kept=keep)

    # the lattice-level view uses the same order
    lat = LatticeStructure(prim, mapping)
    sub = lat.get_active_lattice_structure(supercell_shape=spec["shape"])
    require([locate(s.frac_coords) for s in sub.template_structure] == where, "active lattice structure has another order")
    require(ActiveSiteOrder.from_lattice_structure(lat, supercell_shape=spec["shape"]).fingerprint == order.fingerprint,
            "the lattice-structure route gives another site space")

    # serialization
    data = json.loads(json.dumps(order.as_dict()))
    back = ActiveSiteOrder.from_dict(data)
    require(back == order and back.fingerprint == order.fingerprint, "serialized order differs")
    require(back.as_dict() == order.as_dict(), "serialized order is written differently")
    order.assert_same_order(data)
    order.assert_same_order(back)
    back.assert_same_order(order)
    require(list(back.select_active_values(tags)) == [f"{w}" for w in where], "the restored order selects other sites")
    if spec["oxidation"]:
        charged = prim.copy()
        charged.add_oxidation_state_by_element({el: 1 for el in {s[0] for s in spec["sites"]}})
        order.assert_same_order(ActiveSiteOrder.from_structure_and_mapping(charged, mapping, spec["shape"]))

    # another site space is told apart
    other = altered(spec, table)
    if other is not None:
        case.label("altered " + spec["alter"])
        try:
            second = build(other)[2]
            order.assert_same_order(second)
        except ValueError:
            pass
        else:
            require(False, "a different site space passes as the same", change=spec["alter"])
        try:
            order.assert_same_order(json.loads(json.dumps(second.as_dict())))
        except ValueError:
            pass
        else:
            require(False, "different serialized metadata passes as the same", change=spec["alter"])
    case.nontrivial(len(active) < len(spec["sites"]) and cells > 1)


def altered(spec, table):
    other = json.loads(json.dumps(spec))
    how = spec["alter"]
    if how == "shape":
        other["shape"][spec["seed"] % 3] += 1
    elif how == "shape-perm":
        other["shape"] = other["shape"][1:] + other["shape"][:1]
        if other["shape"] == spec["shape"]:
            return None
    elif how in ("mapping-order", "mapping-more", "mapping-fewer"):
        rows = [r for r in other["mapping"] if len(r[1]) > 1 and any(s[0] == r[0] for s in spec["sites"])]
        row = rows[spec["seed"] % len(rows)]
        if how == "mapping-order":
            row[1] = row[1][1:] + row[1][:1]
        elif how == "mapping-more":
            row[1] = row[1] + ["Ar"]
        else:
            row[1] = row[1][:1]
            if len(rows) == 1:
                return None
    elif how == "fixed-species":
        if not any(s[0] == "O" for s in spec["sites"]):
            return None
        other["sites"] = [["S" if el == "O" else el, f] for el, f in other["sites"]]
        other["mapping"] = [["S", ["S"]] if k == "O" else [k, v] for k, v in other["mapping"]]
    elif how == "site-order":
        els = [s[0] for s in spec["sites"]]
        if els[::-1] == els:
            return None
        other["sites"] = other["sites"][::-1]
    elif how == "extra-site":
        other["sites"] = other["sites"] + [[spec["sites"][0][0], [0.4321, 0.1234, 0.777]]]
    return other


SUBS = [Sub("order", cases, check_order, quick=600, thorough=8000, budget=60)]
