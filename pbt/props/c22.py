"""C22: labelled CIF loading against an independent exact expansion of the rows by the symmetry operations."""
import gzip
import os
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from harness import Sub, require

ID = "C22"
RULE = ("Cases are CIF files written from generated rows (element, label, position, occupancy) with explicit symmetry "
        "operations or a space-group symbol; the oracle expands the rows in exact rational arithmetic. Non-trivial: "
        "a symmetry operation creates further sites and at least two rows are present.")
TECHNIQUE = ("property-based testing: generated CIF files (18 groups, general and special positions, mixed and zero "
             "occupancies, offsets, uncertainties, several data blocks) against an exact symmetry expansion")

E3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
INV = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]
M2Z = [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]
M2Y = [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]
MY = [[1, 0, 0], [0, -1, 0], [0, 0, 1]]
C4 = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
C3 = [[0, -1, 0], [1, -1, 0], [0, 0, 1]]
C6 = [[1, -1, 0], [1, 0, 0], [0, 0, 1]]
C3D = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]
S110 = [[0, 1, 0], [1, 0, 0], [0, 0, -1]]
GLIDE_R = [[0, -1, 0], [-1, 0, 0], [0, 0, 1]]
h, t = F(1, 2), F(1, 3)
Z = (0, 0, 0)
CEN = {"C": [(E3, (h, h, 0))], "I": [(E3, (h, h, h))], "F": [(E3, (0, h, h)), (E3, (h, 0, h))],
       "R": [(E3, (2 * t, t, t))]}
# symbol, number, generators, lattice system
GROUPS = [
    ("P 1", 1, [], "any"), ("P -1", 2, [(INV, Z)], "any"),
    ("P 2", 3, [(M2Y, Z)], "mono"), ("P 21", 4, [(M2Y, (0, h, 0))], "mono"), ("P m", 6, [(MY, Z)], "mono"),
    ("P 21/c", 14, [(M2Y, (0, h, h)), (INV, Z)], "mono"), ("C 2", 5, [(M2Y, Z)] + CEN["C"], "mono"),
    ("P 2 2 2", 16, [(M2Z, Z), (M2Y, Z)], "ortho"), ("P m m m", 47, [(M2Z, Z), (M2Y, Z), (INV, Z)], "ortho"),
    ("I m m m", 71, [(M2Z, Z), (M2Y, Z), (INV, Z)] + CEN["I"], "ortho"),
    ("F m m m", 69, [(M2Z, Z), (M2Y, Z), (INV, Z)] + CEN["F"], "ortho"),
    ("P 4", 75, [(C4, Z)], "tetra"), ("P 4/m m m", 123, [(C4, Z), (M2Y, Z), (INV, Z)], "tetra"),
    ("P 3", 143, [(C3, Z)], "hex"), ("P 6", 168, [(C6, Z)], "hex"),
    ("R -3 c", 167, [(C3, Z), (INV, Z), (GLIDE_R, (0, 0, h))] + CEN["R"], "hex"),
    ("P m -3 m", 221, [(C4, Z), (C3D, Z), (INV, Z)], "cubic"), ("F m -3 m", 225, [(C4, Z), (C3D, Z), (INV, Z)] + CEN["F"], "cubic"),
]
BY_SYMBOL = {1, 2, 3, 4, 14, 47, 123, 221, 225, 69, 71, 75, 168}
ELEMENTS = ["Na", "Li", "O", "S", "Si", "P", "Zr", "K", "F", "Fe", "C", "Ca"]


def mul(a, b):
    (ra, ta), (rb, tb) = a, b
    r = tuple(tuple(sum(ra[i][k] * rb[k][j] for k in range(3)) for j in range(3)) for i in range(3))
    s = tuple((sum(ra[i][k] * tb[k] for k in range(3)) + ta[i]) % 1 for i in range(3))
    return r, s


_CLOSED = {}


def closure(number, gens):
    if number not in _CLOSED:
        one = (tuple(map(tuple, E3)), (F(0), F(0), F(0)))
        gens = [(tuple(map(tuple, r)), tuple(F(x) % 1 for x in s)) for r, s in gens]
        seen, todo = [one], [one]
        while todo:
            new = []
            for x in todo:
                for g in gens:
                    y = mul(x, g)
                    if y not in seen:
                        seen.append(y)
                        new.append(y)
            todo = new
        _CLOSED[number] = seen
    return _CLOSED[number]


def xyz(op, style):
    r, s = op
    parts = []
    for i in range(3):
        txt = ""
        for j, name in enumerate("xyz"):
            if r[i][j]:
                txt += ("-" if r[i][j] < 0 else ("+" if txt else "")) + name
        if s[i]:
            txt = f"{txt}+{s[i]}" if style % 2 == 0 else f"{s[i]}{'' if txt.startswith('-') else '+'}{txt}"
        parts.append(txt.upper() if style == 2 else txt)
    return (", " if style != 3 else ",").join(parts)


def orbit(pos, ops):
    out = []
    for r, s in ops:
        p = tuple((sum(r[i][j] * pos[j] for j in range(3)) + s[i]) % 1 for i in range(3))
        if p not in out:
            out.append(p)
    return out


def gap(p, q):
    return max(float(min((a - b) % 1, (b - a) % 1)) for a, b in zip(p, q))


def lattice_of(system, v):
    a, b, c, al, be, ga = v
    return {"any": [a, b, c, al, be, ga], "mono": [a, b, c, 90.0, be, 90.0], "ortho": [a, b, c, 90.0, 90.0, 90.0],
            "tetra": [a, a, c, 90.0, 90.0, 90.0], "hex": [a, a, c, 90.0, 90.0, 120.0],
            "cubic": [a, a, a, 90.0, 90.0, 90.0]}[system]


@st.composite
def blocks(draw, k=0, grid_only=False):
    idx = draw(st.integers(0, len(GROUPS) - 1))
    system = GROUPS[idx][3]
    cell = [draw(st.integers(40, 90)) / 10 for _ in range(3)] + [float(draw(st.integers(70, 110))) for _ in range(3)]
    rows = []
    type_symbol = draw(st.booleans())
    few = draw(st.sampled_from([ELEMENTS, ELEMENTS, ELEMENTS[:1], ELEMENTS[:2]]))
    for i in range(draw(st.integers(1, 5))):
        el = draw(st.sampled_from(few))
        if draw(st.integers(0, 2)) == 0 or grid_only:
            g = 8 if grid_only else draw(st.sampled_from([4, 6, 12, 24]))
            pos = [[draw(st.integers(0, g - 1)), g] for _ in range(3)]
        else:
            pos = [[draw(st.integers(0, 999)), 1000] for _ in range(3)]
        rows.append({"el": el, "suffix": draw(st.sampled_from(["num", "num", "letter", "same", "long", "longer"])), "pos": pos,
                     "shift": [draw(st.sampled_from([0, 0, 0, -1, 1])) for _ in range(3)],
                     "esd": draw(st.integers(0, 4)) == 0,
                     "occ": draw(st.sampled_from(["1", "1", "1", "1.0", "0.5", "0.25(2)", "0"])),
                     # a second row on the same orbit: [element, occupancy, which image]
                     "mix": [draw(st.sampled_from(ELEMENTS)), draw(st.sampled_from(["0.25", "0.5"])),
                             draw(st.integers(0, 50))] if draw(st.integers(0, 5)) == 0 else None})
    return {"group": idx, "cell": lattice_of(system, cell), "rows": rows, "type_symbol": type_symbol,
            "oxidation": type_symbol and draw(st.integers(0, 3)) == 0,
            "occupancy": draw(st.integers(0, 3)) > 0, "ops": draw(st.sampled_from(["pos", "symop", "symbol", "number"])),
            "style": draw(st.integers(0, 3)), "order": draw(st.integers(0, 10**6))}


@st.composite
def cases(draw):
    return {"blocks": draw(st.lists(blocks(), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2, 3])))),
            "gz": draw(st.integers(0, 5)) == 0,
            "shape": draw(st.one_of(st.lists(st.integers(1, 3), min_size=3, max_size=3), st.sampled_from(
                [[[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[2, 1, 0], [0, 1, 0], [0, 0, 2]]])))}


OX = {"Na": 1, "Li": 1, "O": -2, "S": -2, "Si": 4, "P": 5, "Zr": 4, "K": 1, "F": -1, "Fe": 3, "C": 4, "Ca": 2}


def describe(block, ops):
    """Rows that will be written, and the orbits with (labels, composition) they describe."""
    import random
    rng = random.Random(block["order"])
    rows, orbits = [], []
    labels = set()
    for n, r in enumerate(block["rows"]):
        pos = tuple(F(a, b) for a, b in r["pos"])
        orb = orbit(pos, ops)
        if any(gap(orb[0], q) < 0.012 for q in orb[1:]):
            continue        # too close to a special position for the loader's tolerance to be unambiguous
        if any(gap(p, q) < 0.02 for o in orbits for p in o["points"] for q in orb[:1]):
            continue
        label = r["el"] + {"num": str(n + 1), "letter": chr(65 + n) if block["type_symbol"] else str(n + 1),
                           "same": "1", "long": "1" + str(5 - n), "longer": str(9 - n) * 2}[r["suffix"]]
        occ = r["occ"] if block["occupancy"] else "1"
        mix = r["mix"] if block["occupancy"] and r["occ"] in ("0.5", "0.25(2)") else None
        rows.append([r["el"], label, pos, occ, r["shift"], r["esd"]])
        occ_value = {"1": 1.0, "1.0": 1.0, "0.5": 0.5, "0.25(2)": 0.25, "0": 0.0}[occ]
        o = {"points": orb, "labels": [label], "comp": {r["el"]: occ_value}}
        if mix:
            label2 = mix[0] + str(n + 11)
            rows.append([mix[0], label2, orb[mix[2] % len(orb)], mix[1], [0, 0, 0], False])
            o["labels"].append(label2)
            o["comp"][mix[0]] = o["comp"].get(mix[0], 0.0) + float(mix[1])
        if occ_value > 0:
            orbits.append(o)
    return rows, orbits


def number_text(x, shift, esd):
    v = x + shift
    if esd:
        return f"{float(v):.6f}(3)"
    if v == F(1, 3):
        return "0.3333"
    if v == F(2, 3):
        return "0.6667"
    return f"{float(v):.8f}"


def write(block, rows, ops, name):
    sym, number, gens, _ = GROUPS[block["group"]]
    a, b, c, al, be, ga = block["cell"]
    out = [f"data_{name}", f"_symmetry_space_group_name_H-M   '{sym}'", f"_cell_length_a   {a:.6f}",
           f"_cell_length_b   {b:.6f}", f"_cell_length_c   {c:.6f}(1)", f"_cell_angle_alpha   {al:.6f}",
           f"_cell_angle_beta   {be:.6f}", f"_cell_angle_gamma   {ga:.6f}"]
    how = block["ops"]
    if how in ("symbol", "number") and number not in BY_SYMBOL:
        how = "pos"
    if how == "number":
        out = [l for l in out if "H-M" not in l]
    if how in ("symbol", "number"):
        out.append(f"_symmetry_Int_Tables_number   {number}")
    elif how == "pos":
        out += ["loop_", " _symmetry_equiv_pos_site_id", " _symmetry_equiv_pos_as_xyz"]
        out += [f"  {k}  '{xyz(op, block['style'])}'" for k, op in enumerate(ops, 1)]
    else:
        out += ["loop_", " _space_group_symop_operation_xyz"]
        out += [f"  '{xyz(op, block['style'])}'" for op in ops]
    charged = (lambda el: f"{el}{abs(OX[el])}{'+' if OX[el] > 0 else '-'}") if block["oxidation"] else (lambda el: el)
    if block["oxidation"]:
        out += ["loop_", " _atom_type_symbol", " _atom_type_oxidation_number"]
        out += [f"  {charged(el)}  {OX[el]}" for el in sorted({r[0] for r in rows})]
    out += ["loop_"] + ([" _atom_site_type_symbol"] if block["type_symbol"] else []) + [" _atom_site_label"]
    out += [" _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z"]
    out += [" _atom_site_occupancy"] if block["occupancy"] else []
    for el, label, pos, occ, shift, esd in rows:
        out.append("  " + (f"{charged(el)}  " if block["type_symbol"] else "") + label + "  " + "  ".join(
            number_text(x, s, esd) for x, s in zip(pos, shift)) + (f"  {occ}" if block["occupancy"] else ""))
    return "\n".join(out) + "\n"


def plain(species):
    out = {}
    for sp, amount in species.items():
        sym = getattr(sp, "symbol", str(sp))
        out[sym] = out.get(sym, 0.0) + float(amount)
    return out


def check_structure(structure, block, orbits, where):
    """Every described site exactly once, with its row's label, composition and a distinct index."""
    a = structure.lattice.parameters
    require(np.allclose(a, block["cell"], atol=1e-4), "wrong cell " + where, got=a, want=block["cell"])
    total = sum(len(o["points"]) for o in orbits)
    require(len(structure) == total, "wrong number of sites " + where, got=len(structure), want=total)
    pts = [(k, p) for k, o in enumerate(orbits) for p in o["points"]]
    ref = np.array([[float(x) for x in p] for _, p in pts])
    used, per_row = set(), {}
    for n, site in enumerate(structure):
        d = np.asarray(site.frac_coords) - ref
        d = np.abs(d - np.round(d)).max(axis=1)
        j = int(d.argmin())
        require(d[j] < 2e-4, "a site at a position the file does not describe " + where, frac=list(site.frac_coords))
        require(j not in used, "a described position occurs twice " + where, frac=list(site.frac_coords))
        used.add(j)
        o = orbits[pts[j][0]]
        label = site.properties.get("label")
        require(label == "".join(o["labels"]), "a site carries another row's label " + where, got=label,
                want=o["labels"], frac=list(site.frac_coords))
        got = plain(site.species)
        require(set(got) == set(o["comp"]) and all(abs(got[e] - v) < 1e-6 for e, v in o["comp"].items()),
                "a site carries another row's species " + where, got=got, want=o["comp"])
        require(all(-1e-9 <= x < 1 + 1e-9 for x in site.frac_coords), "coordinates outside the cell " + where)
        per_row.setdefault(pts[j][0], []).append(site.properties["wyckoff_sequence"])
    require(len({s.properties["local_index"] for s in structure}) == len(structure), "indices are not distinct " + where)
    for k, seq in per_row.items():
        require(sorted(seq) == list(range(len(seq))), "the sites of a row are not numbered one by one " + where, got=seq)


def check_load(spec, case):
    from kmcpy.io import cif as kc
    from kmcpy.structure import sites as ks

    tmp = case.tmp()
    texts, wants = [], []
    for n, block in enumerate(spec["blocks"]):
        ops = closure(GROUPS[block["group"]][1], GROUPS[block["group"]][2])
        rows, orbits = describe(block, ops)
        if not orbits:
            return
        wants.append((block, orbits))
        texts.append(write(block, rows, ops, f"gen{n}"))
    text = "\n".join(texts)
    path = os.path.join(tmp, "crystal.cif" + (".gz" if spec["gz"] else ""))
    with (gzip.open(path, "wt") if spec["gz"] else open(path, "w")) as fh:
        fh.write(text)
    loaded = kc.load_labeled_structures_from_cif(path)
    require(len(loaded) == len(wants), "not every data block is loaded", got=len(loaded), want=len(wants))
    for structure, (block, orbits) in zip(loaded, wants):
        check_structure(structure, block, orbits, "(all blocks)")
    block, orbits = wants[0]
    first = kc.load_labeled_structure_from_cif(path)
    check_structure(first, block, orbits, "(first block)")
    check_structure(kc.load_labeled_structure_from_string(text), block, orbits, "(from text)")
    sym = kc.load_labeled_structure_from_string(text, symmetrized=True)
    check_structure(sym, block, orbits, "(symmetrized)")
    groups = sorted(sorted(g) for g in sym.equivalent_indices)
    by_row = {}
    owner = [k for k, o in enumerate(orbits) for _ in o["points"]]
    flat = np.array([[float(x) for x in p] for o in orbits for p in o["points"]])
    for n, site in enumerate(sym):
        d = np.asarray(site.frac_coords) - flat
        by_row.setdefault(owner[int(np.abs(d - np.round(d)).max(axis=1).argmin())], []).append(n)
    require(groups == sorted(sorted(g) for g in by_row.values()), "equivalent sites are not the sites of one row")

    # looking a site up by its label and number
    names = [(s.properties["label"], s.properties["wyckoff_sequence"]) for s in first]
    for n in range(0, len(names), max(1, len(names) // 24)):
        site = ks.find_site_by_wyckoff_sequence_and_label(first, names[n][1], names[n][0])
        same = [k for k, key in enumerate(names) if key == names[n]]
        require(any(np.array_equal(site.frac_coords, first[k].frac_coords) for k in same),
                "looking up a labelled site returns another one")
    for label, seq in ((names[0][0], 10**6), ("Nope", 0)):
        try:
            ks.find_site_by_wyckoff_sequence_and_label(first, seq, label)
        except ValueError:
            continue
        require(False, "looking up an absent site returns one")

    # supercells
    scale = np.array(spec["shape"])
    matrix = scale if scale.shape == (3, 3) else np.diag(scale)
    cells = int(round(abs(np.linalg.det(matrix))))
    if len(first) * cells <= 800:
        big = ks.make_kmc_supercell(first, spec["shape"])
        require(len(big) == len(first) * cells, "wrong supercell size")
        require(np.allclose(big.lattice.matrix, matrix @ first.lattice.matrix), "wrong supercell lattice")
        origin = {s.properties["local_index"]: s for s in first}
        seen = set()
        for site in big:
            p = site.properties
            base = origin[p["local_index"]]
            for key in ("label", "wyckoff_sequence"):
                require(p[key] == base.properties[key], "a supercell site has another " + key)
            require(plain(site.species) == plain(base.species), "a supercell site has another species")
            shift = np.asarray(site.frac_coords) @ matrix - np.asarray(base.frac_coords) - np.array(p["supercell"])
            back = shift @ np.linalg.inv(matrix)
            require(np.allclose(back, np.round(back), atol=1e-5),
                    "a supercell site is not at its primitive site plus its cell", cell=p["supercell"])
            require(np.all(np.asarray(site.frac_coords) > -1e-6) and np.all(np.asarray(site.frac_coords) < 1 + 1e-6),
                    "supercell coordinates outside the cell")
            k = np.array(p["supercell"]) @ np.linalg.inv(matrix)
            seen.add((p["local_index"],) + tuple(np.round((k - np.floor(k + 1e-6)) * 1000).astype(int)))
        require(len(seen) == len(big), "a translated site occurs twice")
        index = ks.build_site_index(big, skip_check=False)
        require(sorted(index.values()) == list(range(len(big))), "the site index does not list every site once")
        for key, n in index.items():
            p = big[n].properties
            require(key == (*p["supercell"], p["label"], p["local_index"]), "the site index points to another site")
        if len(set(names)) == len(names):
            for n in range(0, len(big), max(1, len(big) // 40)):
                p = big[n].properties
                require(ks.find_site_by_wyckoff_sequence_label_and_supercell(
                    big, p["wyckoff_sequence"], p["label"], p["supercell"]) == n, "supercell look-up returns another site")
        case.label("supercell", cells > 1)
    case.label("mixed occupancy", any(len(o["labels"]) > 1 for _, os_ in wants for o in os_))
    case.label("group " + GROUPS[block["group"]][0])
    case.nontrivial(any(len(o["points"]) > 1 for o in orbits) and len(orbits) > 1)


@st.composite
def prim_cases(draw):
    b = draw(blocks(grid_only=True).filter(lambda b: GROUPS[b["group"]][0][0] in "CIFR"))
    for r in b["rows"]:
        r["mix"], r["occ"] = None, "1"
    return {"block": b}


def check_primitive(spec, case):
    """primitive=True keeps the crystal: every site still sits where a site of that row sits."""
    from kmcpy.io import cif as kc
    block = spec["block"]
    ops = closure(GROUPS[block["group"]][1], GROUPS[block["group"]][2])
    rows, orbits = describe(block, ops)
    if not orbits:
        return
    text = write(block, rows, ops, "gen")
    full = kc.load_labeled_structure_from_string(text)
    prim = kc.load_labeled_structure_from_string(text, primitive=True)
    ratio = full.lattice.volume / prim.lattice.volume
    require(abs(ratio - round(ratio)) < 1e-3 and abs(len(full) - len(prim) * ratio) < 1e-3,
            "the primitive cell holds another density", ratio=ratio, sites=[len(full), len(prim)])
    require(len({s.properties["local_index"] for s in prim}) == len(prim), "indices are not distinct")
    # distances between labelled sites are the same crystal: compare nearest-neighbour label shells per site
    for site in prim:
        same = [s for s in full if s.properties["local_index"] == site.properties["local_index"]]
        require(len(same) == 1 and same[0].properties["label"] == site.properties["label"]
                and plain(same[0].species) == plain(site.species), "a primitive site carries another row's label")
    case.label("reduced", round(ratio) > 1)
    case.nontrivial(round(ratio) > 1 and len(orbits) > 1)


SUBS = [Sub("load", cases, check_load, quick=500, thorough=6000, budget=120),
        Sub("primitive", prim_cases, check_primitive, quick=80, thorough=800, budget=40)]
