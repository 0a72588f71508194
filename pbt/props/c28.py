"""C28: the barriers of generated events follow the geometry of the crystal."""
import itertools
import math
import os
import random

import numpy as np
from hypothesis import assume, strategies as st

import cifs
import lce as L
import worlds as W
from harness import Sub, require
from props.c12 import PROTOTYPES, Reference, congruent_exists, pick

ID = "C28"
TECHNIQUE = ("property-based testing: generated crystals taken through event generation, model building and simulation, "
             "against rates computed from positions alone")
RULE = ("Cases are crystals with equivalent start sites (nine symmetry groups and cubic prototypes, general and special "
        "positions, ordered and disordered hosts), any supercell, event generation and cluster expansions built around "
        "the first start site in the generator's site order, written to files and simulated. The oracle enumerates the "
        "clusters around each start site from the positions and knows no site order. Non-trivial: at least two "
        "differently oriented start sites or six neighbours, and several different rates.")

# lattice system and fractional operations (rotation rows, translation)
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
GROUPS = {
    "1": ("tri", [(I3, [0, 0, 0])]),
    "-1": ("tri", [(I3, [0, 0, 0]), ([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, 0, 0])]),
    "2": ("mono", [(I3, [0, 0, 0]), ([[-1, 0, 0], [0, 1, 0], [0, 0, -1]], [0, 0, 0])]),
    "2_1": ("mono", [(I3, [0, 0, 0]), ([[-1, 0, 0], [0, 1, 0], [0, 0, -1]], [0, .5, 0])]),
    "m": ("mono", [(I3, [0, 0, 0]), ([[1, 0, 0], [0, -1, 0], [0, 0, 1]], [0, 0, 0])]),
    "222": ("ortho", [([[a, 0, 0], [0, b, 0], [0, 0, a * b]], [0, 0, 0]) for a in (1, -1) for b in (1, -1)]),
    "mm2": ("ortho", [([[a, 0, 0], [0, b, 0], [0, 0, 1]], [0, 0, 0]) for a in (1, -1) for b in (1, -1)]),
    "4": ("tetra", [(I3, [0, 0, 0]), ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], [0, 0, 0]),
                    ([[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [0, 0, 0]), ([[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [0, 0, 0])]),
    "3": ("hexa", [(I3, [0, 0, 0]), ([[0, -1, 0], [1, -1, 0], [0, 0, 1]], [0, 0, 0]),
                   ([[-1, 1, 0], [-1, 0, 0], [0, 0, 1]], [0, 0, 0])]),
}
SHAPES = [[1, 1, 1], [2, 1, 1], [1, 1, 2], [2, 2, 1], [1, 3, 1], [2, 1, 3]]


def orbit(group, f):
    out = []
    for rot, shift in GROUPS[group][1]:
        g = (np.array(rot) @ np.array(f, float) + np.array(shift)) % 1
        if not any(cifs.same_mod1(g, h) for h in out):
            out.append(g)
    return [[float(x) for x in g] for g in out]


@st.composite
def crystals(draw):
    mobile = draw(st.sampled_from(["Na", "Li"]))
    host = draw(st.sampled_from([["Si", ["Si", "P"]], ["P", ["Si", "P"]], ["Cl", ["Br", "Cl"]], ["Zr", ["Zr", "Y"]]]))
    cell = [draw(st.integers(42, 75)) / 10 for _ in range(3)]
    angles = [float(draw(st.integers(78, 102))) for _ in range(3)]
    rows = []
    if draw(st.integers(0, 4)) == 0:
        group = draw(st.sampled_from(["sc", "bcc", "fcc", "edge", "a15"]))
        lattice = [cell[0]] * 3 + [90.0] * 3
        rows += [[mobile, mobile + "1", [float(x) for x in f]] for f in PROTOTYPES[group]]
        if draw(st.booleans()):
            rows.append([host[0], host[0] + "1", {"sc": [.5, .5, .5], "bcc": [.5, 0., 0.], "fcc": [.5, .5, .5],
                                                  "edge": [0., 0., 0.], "a15": [0., 0., 0.]}[group]])
        second = False
    else:
        group = draw(st.sampled_from(sorted(GROUPS)))
        system = GROUPS[group][0]
        if system in ("tetra", "hexa"):
            cell[1] = cell[0]
        if system == "mono":
            angles = [90.0, angles[1], 90.0]
        elif system in ("ortho", "tetra"):
            angles = [90.0] * 3
        elif system == "hexa":
            angles = [90.0, 90.0, 120.0]
        lattice = cell + angles
        place = st.one_of(st.integers(0, 47).map(lambda k: k / 48), st.sampled_from([0.0, 0.5, 0.25]))
        rows += [[mobile, mobile + "1", f] for f in orbit(group, [draw(place) for _ in range(3)])]
        second = draw(st.integers(0, 2)) == 0
        if second:
            rows += [[mobile, mobile + "2", f] for f in orbit(group, [draw(place) for _ in range(3)])]
        for k in range(draw(st.integers(0, 2))):
            rows += [[host[0], host[0] + str(k + 1), f] for f in orbit(group, [draw(place) for _ in range(3)])]
    shift = [draw(st.integers(0, 7)) / 8 + 0.0 for _ in range(3)] if draw(st.booleans()) else [0.0] * 3
    rows = [[e, l, [float((x + s) % 1) for x, s in zip(f, shift)]] for e, l, f in draw(st.permutations(rows))]
    if draw(st.integers(0, 2)) == 0:
        rows.append(["O", "O1", [draw(st.integers(0, 47)) / 48 for _ in range(3)]])
    for k, (_, _, f) in enumerate(rows):
        for _, _, g in rows[:k]:
            d = np.array(f) - np.array(g)
            assume(np.linalg.norm(d - np.round(d)) > 0.06)
    mapping = {mobile: draw(st.permutations([mobile, "X"])), host[0]: draw(st.permutations(host[1])), "O": ["O"]}
    spec = {"mobile": mobile, "sites": rows, "lattice": L.roomy(lattice, [r[2] for r in rows]),
            "mapping": [[k, list(v)] for k, v in mapping.items() if any(r[0] == k for r in rows)]}
    spec["ids"] = [mobile + "1", mobile + draw(st.sampled_from(["1", "2"]))] if second else draw(
        st.sampled_from([None, [mobile, mobile], [mobile + "1", mobile + "1"]]))
    spec["shape"] = draw(st.sampled_from(SHAPES))
    spec["percent"] = draw(st.sampled_from([100, 70, 40]))
    spec["basis"] = draw(st.sampled_from(["chebyshev", "chebyshev", "chebyshev", "occupation"]))
    spec["cuts"] = [[draw(st.sampled_from([100, 60, 80, 45, 20, 0])) for _ in range(3)] for _ in range(2)]
    spec["site"] = draw(st.booleans())
    spec["seed"] = draw(st.integers(0, 10**6))
    spec["T"] = draw(st.sampled_from([300, 575, 900]))
    spec["steps"] = draw(st.integers(1, 6))
    return spec


class Around:
    """The neighbours of one primitive start site: elements, positions and (site, image)."""

    def __init__(self, ref, i, near):
        self.where = [(j, image) for j, image, _ in near]
        self.geo = L.Geometry([ref.spec["sites"][j][0] for j, _, _ in near],
                              [(ref.frac[j] - ref.frac[i] + np.array(image)) @ ref.matrix for j, image, _ in near])

    def kind(self, steps, c):
        """What a cluster looks like, without any site order."""
        g = self.geo
        best = None
        for p in itertools.permutations(c):
            s = tuple(g.elements[x] for x in p) + tuple(
                int(np.searchsorted(steps, g.d[p[a], p[b]])) for a in range(len(p)) for b in range(a))
            if best is None or s < best:
                best = s
        return best


def expansion(lls, geo, ranks, steps, rng, scale):
    """A cluster expansion whose coefficients depend on what a cluster looks like."""
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

    model = LocalClusterExpansion()
    cuts = [geo.cutoff(r) for r in ranks]
    model.build(lls, cutoff_cluster=cuts)
    view = Around.__new__(Around)
    view.geo = geo
    values = {}
    keci = []
    for o in model.orbits:
        k = view.kind(steps, [int(x) for x in o.clusters[0].site_indices])
        keci.append(values.setdefault(k, rng.uniform(-scale, scale)))
    const = rng.uniform(100, 300)
    model.set_parameters({"keci": keci, "empty_cluster": const, "orbit_fingerprints": model.get_orbit_fingerprints(),
                          "local_environment_hash": model.local_environment_hash})
    return model, values, const, {1: 10.0, 2: cuts[0], 3: cuts[1], 4: cuts[2]}


def check_pipeline(spec, case):
    from kmcpy.event.generators import EventGenerator
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

    tmp = case.tmp()
    cif = os.path.join(tmp, "p.cif")
    with open(cif, "w") as fh:
        fh.write(cifs.p1_cif(spec["lattice"], spec["sites"]))
    ref = Reference(spec)
    dist = np.linalg.norm([(a - b + np.array(t)) @ ref.matrix for k, a in enumerate(ref.frac) for b in ref.frac[:k]
                           for t in itertools.product((-1, 0, 1), repeat=3)] or [[9, 9, 9]], axis=1)
    assume(dist.min() > 0.9)
    # one cutoff for hops and environments, in a clear gap
    span = 1.2 * float(np.linalg.norm(ref.matrix, axis=1).min())
    near = {i: sorted(ref.neighbours(i, span), key=lambda n: n[2]) for i in ref.start}
    pool = sorted({round(n[2], 6) for v in near.values() for n in v})
    cut = None
    for percent in range(spec["percent"], -1, -5):
        cut = pick(pool, percent)
        if cut is None or max(sum(n[2] < cut for n in v) for v in near.values()) <= 8:
            break
        cut = None
    assume(cut is not None)
    around = {i: Around(ref, i, [n for n in near[i] if n[2] < cut]) for i in ref.start}
    assume(any(j in ref.target for a in around.values() for j, _ in a.where))
    structure = load_labeled_structure_from_cif(cif)
    order = [next(k for k, r in enumerate(spec["sites"]) if r[0] == s.specie.symbol
                  and cifs.same_mod1(r[2], s.frac_coords)) for s in structure]
    first = next(k for k, i in enumerate(order) if i in ref.start)  # the generator's reference environment
    lead = around[order[first]]
    assume(not lead.geo.ambiguous() and len(lead.where) >= 1)
    # every start site must look like the first one, well inside the matching tolerance
    for a in around.values():
        assume(sorted(a.geo.elements) == sorted(lead.geo.elements))
        assume(congruent_exists(lead.geo.elements, lead.geo.d, a.geo.elements, a.geo.d))
    values = np.array(sorted(lead.geo.distances()))
    steps = [(x + y) / 2 for x, y in zip(values, values[1:]) if y - x > 1e-3]

    EventGenerator().generate_events(
        structure_file=cif, mobile_ion_identifiers=None if spec["ids"] is None else tuple(spec["ids"]),
        supercell_shape=list(spec["shape"]), event_file=tmp + "/events.json", site_mapping=ref.mapping,
        local_env_cutoff=cut, convert_to_primitive_cell=False, find_nearest_if_fail=False)
    lls = LocalLatticeStructure(structure, first, cut, site_mapping=ref.mapping, basis_type=spec["basis"],
                                local_site_order="nasicon_nat_commun_2022")
    require(len(lls.site_indices) == len(lead.where), "size of the model's environment", got=len(lls.site_indices),
            want=len(lead.where))
    geo = L.Geometry([s.species_string for s in lls.structure], [s.coords for s in lls.structure])
    rng = random.Random(spec["seed"])
    kra, kra_values, kra_const, kra_cuts = expansion(lls, geo, spec["cuts"][0], steps, rng, 40)
    parts = {"kra_model": kra}
    if spec["site"]:
        site, site_values, site_const, site_cuts = expansion(lls, geo, spec["cuts"][1], steps, rng, 60)
        parts["site_model"] = site
    CompositeLCEModel(**parts).to(tmp + "/model.json")

    cells = int(np.prod(spec["shape"]))
    active = [i for i in order if i in ref.active]
    n = len(active) * cells
    states = [rng.randrange(2) for _ in range(n)]
    config = Configuration(
        structure_file=cif, model_file=tmp + "/model.json", event_file=tmp + "/events.json",
        mobile_ion_specie=spec["mobile"], mobile_ion_charge=1.0, elementary_hop_distance=2.5,
        supercell_shape=tuple(spec["shape"]), site_mapping=ref.mapping, temperature=float(spec["T"]),
        attempt_frequency=1e13, initial_occupations=states, random_seed=3)
    kmc = KMC.from_config(config)
    shape = np.array(spec["shape"])
    home, index = [], {}
    for k, f in enumerate(np.array(kmc.structure.frac_coords) * shape):
        i = next(i for i in ref.active if cifs.same_mod1(f, ref.frac[i]))
        home.append((i, tuple(int(x) for x in np.round(f - ref.frac[i]).astype(int) % shape)))
        index[home[-1]] = k
    require(len(index) == n, "active sites of the simulation")

    def value(k, occ):
        if spec["basis"] == "occupation":
            return 1.0 if occ[k] == 0 else 0.0
        return L.cheb(2, occ[k], 0)

    plans = {}

    def energy(name, i, cell, occ, coefs, const, cuts):
        if (name, i) not in plans:
            g = around[i].geo
            plan = []
            for size in (1, 2, 3, 4):
                for c in itertools.combinations(range(len(g.elements)), size):
                    if max([g.d[a, b] for a, b in itertools.combinations(c, 2)], default=0.0) < cuts[size]:
                        plan.append((c, coefs.get(around[i].kind(steps, c))))
            require(all(v is not None for _, v in plan), "the model lacks a cluster of its environment")
            plans[(name, i)] = plan
        sigma = [value(index[(j, tuple(int(x) for x in (np.array(cell) + np.array(im)) % shape))], occ)
                 for j, im in around[i].where]
        return const + sum(v * math.prod(sigma[x] for x in c) for c, v in plans[(name, i)])

    table = ref.mapping[spec["mobile"]]
    atom, hole = table.index(spec["mobile"]), table.index("X")
    seen = set()

    def compare(when):
        occ = [int(x) for x in kmc.simulation_state.occupations]
        for event, rate in zip(kmc.event_lib.events, kmc.prob_list):
            i, j = map(int, event.mobile_ion_indices)
            sign = 1 if (occ[i], occ[j]) == (atom, hole) else -1 if (occ[i], occ[j]) == (hole, atom) else 0
            if sign == 0 or i == j:
                require(rate == 0, "an impossible hop has a rate", when=when)
                continue
            p, cell = home[i]
            barrier = energy("kra", p, cell, occ, kra_values, kra_const, kra_cuts)
            if spec["site"]:
                barrier += sign * energy("site", p, cell, occ, site_values, site_const, site_cuts) / 2
            want = math.log(1e13) - barrier / (W.KB * spec["T"])
            require(rate > 0 and abs(math.log(rate) - want) < 1e-7 * (1 + abs(want)),
                    "rate of an event differs from that of the surroundings of its start site", when=when,
                    event=[i, j], got=float(rate), log_want=want, start=list(map(str, home[i])))
            seen.add(round(want, 6))

    compare("at the start")
    for step in range(spec["steps"]):
        live = [k for k, r in enumerate(kmc.prob_list) if r > 0]
        if not live:
            break
        event = kmc.event_lib.events[rng.choice(live)]
        kmc.update(event, dt=1e-9)
        compare(f"after {step + 1} hops")
    turned = len({tuple(np.round(np.sort(a.geo.coords @ np.array([1.0, 1.7, 2.9])), 3)) for a in around.values()})
    case.nontrivial((turned > 1 or len(lead.where) >= 6) and len(seen) > 1)
    case.label("several orientations", turned > 1)
    case.label("basis:" + spec["basis"])
    case.label("site energies", spec["site"])
    case.label("self images", any(index[(j, tuple(int(x) for x in np.array(im) % shape))] == index[(i, (0, 0, 0))]
                                  for i, a in around.items() for j, im in a.where))


SUBS = [Sub("pipeline", crystals, check_pipeline, quick=220, thorough=4000, budget=120)]
