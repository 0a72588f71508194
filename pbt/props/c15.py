"""C15: occupation vectors <-> structures, against a by-position reference."""
import random

import numpy as np
from hypothesis import strategies as st

import cifs
import worlds as W
from harness import Sub, require

ID = "C15"
RULE = ("Cases are lattice templates, site mappings, both bases, diagonal and skewed supercell matrices, occupation "
        "vectors, and decorated structures with shuffled, image-shifted and slightly displaced atoms or one defect "
        "(foreign species, doubled atom, stray atom, wrong lattice). Non-trivial: supercell of at least two cells or "
        "a shuffled structure, with at least two different states present.")
TECHNIQUE = ("property-based testing: round trip occupation -> structure -> occupation, and generated decorated "
             "structures against a by-position reference; generated defects must be rejected")

MATRICES = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 3, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 1], [0, -1, 1]], [[2, 1, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
]


@st.composite
def cases(draw):
    basis = draw(st.sampled_from(["chebyshev", "chebyshev", "occupation"]))
    mobile, kinds = draw(W.palettes(multi=basis == "chebyshev"))
    if basis == "occupation":
        kinds["C"][1] = kinds["C"][1][:2]
    n = draw(st.integers(1, 4))
    letters = draw(st.permutations(["A"] + [draw(st.sampled_from(sorted(kinds))) for _ in range(n - 1)]))
    m = draw(st.sampled_from(MATRICES))
    cells = int(round(abs(np.linalg.det(np.array(m)))))
    spec = {
        "basis": basis, "lattice": draw(W.lattices()),
        "sites": [[kinds[l][0], f] for l, f in zip(letters, draw(W.frac_positions(n, grid=6)))],
        "mapping": [[kinds[l][0], list(kinds[l][1])] for l in draw(st.permutations(sorted(set(letters))))],
        "matrix": m, "give_matrix": draw(st.booleans()), "explicit": draw(st.integers(0, 4)) == 0,
        "states": draw(st.lists(st.integers(0, 5), min_size=n * cells, max_size=n * cells)),
        "seed": draw(st.integers(0, 10**6)), "shuffle": draw(st.booleans()), "images": draw(st.booleans()),
        "wiggle": draw(st.sampled_from([0.0, 0.01, 0.03])), "drop": draw(st.sampled_from([0, 30])),
        "charges": draw(st.booleans()), "nudge": draw(st.sampled_from([0.003, 0.008, 0.02])),
        "defect": draw(st.sampled_from([None, None, "foreign", "double", "stray", "lattice", "length"])),
    }
    return spec


def check_roundtrip(spec, case):
    from pymatgen.core import Structure
    from kmcpy.structure.basis import Occupation
    from kmcpy.structure.lattice_structure import LatticeStructure

    table = {k: v for k, v in spec["mapping"]}
    lat = LatticeStructure(W.primitive_structure(spec), table, basis_type=spec["basis"])
    matrix = np.array(spec["matrix"])
    cells = int(round(abs(np.linalg.det(matrix))))
    before = lat.template_structure.copy()
    base = np.array(before.lattice.matrix)
    big = matrix @ base
    n = len(spec["sites"]) * cells

    def code(state, allowed):
        return state if spec["basis"] == "chebyshev" else (1 if state == 0 else 0)

    # the template's supercell, site order read from the code's own empty/full decoration: identify by position
    template = before.copy()
    template.make_supercell(matrix)
    require_sites = []
    for s in template:
        f = s.coords @ np.linalg.inv(base)
        hits = [i for i, (_, p) in enumerate(spec["sites"]) if cifs.same_mod1(f, p)]
        assert len(hits) == 1
        require_sites.append(hits[0])
    allowed = [table[spec["sites"][i][0]] for i in require_sites]
    states = [s % len(a) for s, a in zip(spec["states"], allowed)]
    labels = [a[s] for s, a in zip(states, allowed)]
    vector = [code(s, a) for s, a in zip(states, allowed)]

    # occupation -> structure: every site carries the species of its state, vacant sites are absent
    occ = Occupation(vector, basis=lat.basis)
    decorated = lat.get_structure_from_occ(occ, sc_matrix=spec["matrix"] if cells > 1 or spec["give_matrix"] else None)
    require(np.allclose(decorated.lattice.matrix, big, atol=1e-6), "decorated structure has another lattice")
    want = [(template[k].frac_coords, l) for k, l in enumerate(labels) if l not in W.VACANCY_WORDS]
    require(len(decorated) == len(want), "wrong number of atoms", got=len(decorated), want=len(want))
    for f, l in want:
        here = [s.specie.symbol for s in decorated if cifs.same_mod1(s.frac_coords, f)]
        require(here == [l], "wrong species on a site", got=here, want=l)
    require(lat.template_structure == before and len(lat.allowed_species) == len(before), "converting changed the lattice")

    # and back
    kw = {"sc_matrix": matrix} if spec["give_matrix"] else {}
    again = lat.get_occ_from_structure(decorated, **kw)
    require(again.values == vector, "occupation changed in a round trip", got=again.values, want=vector)
    require(again == occ, "round-tripped occupation is not equal to the original")

    # a structure written by hand: any atom order, images, small displacements, missing atoms
    rng = random.Random(spec["seed"])
    rows = []
    expect = []
    for k, l in enumerate(labels):
        vac = [s for s, x in enumerate(allowed[k]) if x in W.VACANCY_WORDS]
        if l in W.VACANCY_WORDS:
            expect.append(vector[k])
            continue
        if vac and rng.random() * 100 < spec["drop"]:
            expect.append(code(vac[0], allowed[k]))
            continue
        expect.append(vector[k])
        rows.append((k, l))
    if spec["shuffle"]:
        rng.shuffle(rows)
    if not rows:
        return
    coords, species = [], []
    for k, l in rows:
        f = np.array(template[k].frac_coords)
        f = f + np.array([rng.uniform(-1, 1) for _ in range(3)]) * spec["wiggle"] / 2
        if spec["images"]:
            f = f + np.array([rng.randint(-2, 2) for _ in range(3)])
        coords.append(f)
        species.append(l + "+" if spec["charges"] else l)
    probe = Structure(big, species, coords)
    if spec["explicit"]:
        kw["structure_site_mapping"] = [k for k, _ in rows]
    got = lat.get_occ_from_structure(probe, **kw)
    require(got.values == expect, "wrong states for a decorated structure", got=got.values, want=expect,
            atoms=[(k, l) for k, l in rows][:8])
    case.nontrivial((cells > 1 or spec["shuffle"]) and len(set(labels)) > 1)
    case.label("skewed supercell", not np.array_equal(matrix, np.diag(np.diag(matrix))))
    case.label("multi-state", max(len(a) for a in allowed) > 2)
    case.label(spec["basis"])

    if not spec["explicit"]:
        # the tolerance that is asked for decides: an atom displaced by less is mapped, by more is refused
        step = np.array([rng.uniform(-1, 1) for _ in range(3)])
        step *= spec["nudge"] / np.linalg.norm(step)
        pick = rng.randrange(len(rows))
        moved = Structure(big, species, [np.array(template[k].frac_coords) + (step if r == pick else 0)
                                         for r, (k, _) in enumerate(rows)])
        loose = lat.get_occ_from_structure(moved, tol=spec["nudge"] * 1.5, **kw)
        require(loose.values == expect, "wrong states with a displacement below the given tolerance", got=loose.values,
                want=expect, displacement=spec["nudge"])
        try:
            tight = lat.get_occ_from_structure(moved, tol=spec["nudge"] * 0.6, **kw)
        except ValueError:
            pass
        else:
            require(False, "an atom further away than the given tolerance was mapped", displacement=spec["nudge"],
                    tol=spec["nudge"] * 0.6, got=tight.values)
    bad = None
    if spec["defect"] == "foreign":
        bad = probe.copy()
        bad.replace(rng.randrange(len(bad)), "Ne")
    elif spec["defect"] == "double":
        pick = rng.randrange(len(rows))
        bad = Structure(big, species + [species[pick]], coords + [np.array(template[rows[pick][0]].frac_coords) + 0.001])
        if spec["explicit"]:
            kw["structure_site_mapping"] = kw["structure_site_mapping"] + [rows[pick][0]]
    elif spec["defect"] == "stray" and not spec["explicit"]:
        for _ in range(200):
            f = np.array([rng.random() for _ in range(3)])
            d = np.array(template.frac_coords) - f
            d -= np.round(d)
            if np.linalg.norm(d, axis=1).min() > 0.15:
                bad = Structure(big, species + [species[0]], coords + [f])
                break
    elif spec["defect"] == "stray":  # a given site mapping that names no site, or not every atom
        mapping = kw["structure_site_mapping"]
        pick = rng.randrange(len(mapping))
        kw["structure_site_mapping"] = rng.choice([
            [-1 - x if k == pick else x for k, x in enumerate(mapping)],
            [n + x if k == pick else x for k, x in enumerate(mapping)],
            mapping[:pick] + mapping[pick + 1:], mapping + [n - 1]])
        bad = probe
    elif spec["defect"] == "lattice":
        stretch = np.eye(3)
        # without a matrix the cell itself has to be recognised, to about one per cent
        small = not spec["give_matrix"] and rng.random() < .6
        stretch[0, 0] = rng.choice([1.08, 0.92] if small else [1.35, 0.6])
        bad = Structure(big @ stretch if rng.random() < .5 else big * rng.choice([1.08, 0.92] if small else [1.3, 0.7]),
                        species, coords)
        if not spec["give_matrix"] and is_supercell(np.array(bad.lattice.matrix), base):
            bad = None
    elif spec["defect"] == "length":
        for wrong in (vector + [vector[0]], vector[:-1]):
            try:
                lat.get_structure_from_occ(Occupation(wrong, basis=lat.basis), sc_matrix=spec["matrix"])
            except ValueError:
                continue
            require(False, "an occupation of the wrong length was decorated", length=len(wrong), sites=n)
    if bad is not None:
        case.label("defect " + spec["defect"])
        try:
            got = lat.get_occ_from_structure(bad, **kw)
        except (ValueError, IndexError):
            return
        require(False, "a structure that cannot be mapped was accepted", defect=spec["defect"], got=got.values)


def is_supercell(matrix, base):
    m = matrix @ np.linalg.inv(base)
    return np.allclose(m, np.round(m), atol=0.06)


SUBS = [Sub("roundtrip", cases, check_roundtrip, quick=800, thorough=10000, budget=60)]
