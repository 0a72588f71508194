"""C12: generated event libraries against a brute-force periodic neighbour search in the supercell."""
import collections
import itertools
import os
import re

import numpy as np
from hypothesis import strategies as st

import cifs
import worlds as W
from harness import Sub, require

ID = "C12"
RULE = ("Cases are labelled crystals (random and high-symmetry prototypes, P1 CIF), site mappings, uniform or "
        "pairwise cutoffs, species/label endpoint selections and supercells; the generated file is compared with a "
        "brute-force periodic neighbour search. Non-trivial: at least two events and some neighbour reached through "
        "a periodic image.")
TECHNIQUE = ("property-based testing: generated crystals; differential check of the event file against brute-force "
             "periodic neighbour search, metamorphic translation and congruence checks")

PROTOTYPES = {
    "sc": [[0, 0, 0]],
    "bcc": [[0, 0, 0], [.5, .5, .5]],
    "fcc": [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
    "edge": [[.5, 0, 0], [0, .5, 0], [0, 0, .5]],            # perovskite anion net: rotated equivalents
    "a15": [[.25, 0, .5], [.75, 0, .5], [.5, .25, 0], [.5, .75, 0], [0, .5, .25], [0, .5, .75]],
}
SHAPES = [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [2, 1, 3], [1, 3, 1], [2, 2, 2], [3, 3, 1], [3, 3, 3]]


@st.composite
def crystals(draw, alike=False):
    mobile, kinds = draw(W.palettes())
    spec = {"mobile": mobile}
    if alike or draw(st.booleans()):
        proto = draw(st.sampled_from(["bcc", "fcc", "edge", "a15"] if alike else sorted(PROTOTYPES)))
        frac = [list(map(float, f)) for f in PROTOTYPES[proto]]
        letters = ["A"] * len(frac)
        extra = draw(st.sampled_from([None, "C", "D"]))
        if extra:
            frac.append({"sc": [.5, .5, .5], "bcc": [.5, 0, 0], "fcc": [.5, .5, .5], "edge": [0., 0, 0],
                         "a15": [0., 0, 0]}[proto])
            letters.append(extra)
        a = draw(st.integers(40, 90)) / draw(st.sampled_from([10, 10, 10, 30]))
        lattice = [a, a, a, 90.0, 90.0, 90.0]
        spec["limit"] = 14
        shift = draw(st.sampled_from([0.0, 0.0, 0.1]))
        frac = [[(x + shift) % 1 for x in f] for f in frac]
        spec["reduce"] = draw(st.integers(0, 3)) == 0
    else:
        n = draw(st.integers(1, 4))
        letters = draw(st.permutations(["A"] + [draw(st.sampled_from(sorted(kinds))) for _ in range(n - 1)]))
        frac = draw(W.frac_positions(n))
        lattice = draw(W.lattices(lo=3.0, hi=8.0))
        spec["limit"] = 6
        if draw(st.integers(0, 2)) == 0:
            # chains along a short axis: neighbours several primitive cells (and supercells) away
            letters, frac = letters[:2] if "A" in letters[:2] else ["A"], frac[:2]
            frac = frac[:len(letters)]
            axis = draw(st.integers(0, 2))
            lengths = [draw(st.integers(80, 99)) / 10 for _ in range(3)]
            lengths[axis] = draw(st.integers(22, 30)) / 10
            lattice = lengths + [float(draw(st.integers(85, 95))) for _ in range(3)]
            spec["reach"] = draw(st.sampled_from([3.3, 4.3]))
            spec["limit"] = 7
    groups = {}
    sites = []
    for letter, f in zip(letters, frac):
        el = kinds[letter][0]
        groups.setdefault(el, 0)
        if groups[el] == 0 or (not spec.get("reduce") and draw(st.integers(0, 2)) == 0):
            groups[el] += 1
        label = f"{el}{groups[el]}"
        sites.append([el, label, f])
    used = sorted(set(letters))
    spec.update(lattice=lattice, sites=sites, mapping=[[kinds[l][0], list(kinds[l][1])] for l in draw(st.permutations(used))])
    spec["shape"] = draw(st.sampled_from(SHAPES[:6] if alike or "reach" in spec else SHAPES))
    movable = sorted({s[0] for s, l in zip(sites, letters) if l in "AB"})
    labels = sorted({s[1] for s, l in zip(sites, letters) if l in "AB"})
    if draw(st.integers(0, 3)) == 0:
        spec["mobile_species"] = draw(st.lists(st.sampled_from(movable), min_size=1, unique=True))
        movable = sorted(spec["mobile_species"])
        labels = sorted({s[1] for s in sites if s[0] in movable})
    how = draw(st.sampled_from(["default"] if alike else ["default", "species", "species", "label", "label", "mixed-list", "stray"]))
    spec["charged"] = draw(st.integers(0, 3))
    if how == "default":
        spec["ids"] = None
    elif how == "species":
        spec["ids"] = [draw(st.sampled_from(movable)), draw(st.sampled_from(movable))]
    elif how == "label":
        spec["ids"] = [draw(st.sampled_from(labels)), draw(st.sampled_from(labels))]
    elif how == "mixed-list":
        spec["ids"] = [draw(st.lists(st.sampled_from(labels + movable), min_size=1, max_size=2, unique=True)),
                       draw(st.sampled_from(labels))]
    else:  # an endpoint that names no site: a species among labels, another case, a longer name
        wrong = draw(st.sampled_from([movable[0], labels[0].upper() + "x", labels[0].swapcase(), labels[0] + "0",
                                      labels[0][:-1] + "77"]))
        spec["ids"] = draw(st.permutations([wrong, draw(st.sampled_from(labels))]))
    if alike or draw(st.booleans()):
        spec["match"] = {"strict": draw(st.booleans()) or (alike and draw(st.booleans())), "rtol": draw(st.sampled_from([0.0, 0.002] if alike else [None, 0.0, 0.002])),
                         "atol": draw(st.sampled_from([0.003, 0.02, 0.5] if alike else [None, 0.003, 0.3]))}
        if draw(st.integers(0, 3 if alike else 1)) > 0:
            spec["nudge"] = [draw(st.integers(0, len(sites) - 1)), draw(st.sampled_from([0.2, 0.06])),
                             [draw(st.integers(-3, 3)) for _ in range(3)]]
            if not spec["match"]["strict"]:
                spec["limit"] = min(spec["limit"], 7)  # unlike environments are then compared by trying every permutation
    spec["cut"] = draw(st.sampled_from(["uniform", "uniform", "dict"]))
    spec["rank"] = [draw(st.integers(0, 100)) for _ in range(6)]
    if "reach" in spec or alike:
        spec["rank"] = [draw(st.sampled_from([100, 60, 30, 80])) for _ in range(5)] + [spec["rank"][5]]
    return spec


def flat(ids):
    return ([ids[0]] if isinstance(ids[0], str) else list(ids[0])) + [ids[1]]


class Reference:
    """Everything computed from the spec alone."""

    def __init__(self, spec, matrix=None):
        from pymatgen.core import Lattice
        self.spec = spec
        self.mapping = {k: list(v) for k, v in spec["mapping"]}
        self.active = [i for i, s in enumerate(spec["sites"]) if len(self.mapping[s[0]]) > 1]
        self.matrix = matrix if matrix is not None else np.array(Lattice.from_parameters(*spec["lattice"]).matrix)
        self.frac = np.array([s[2] for s in spec["sites"]], float)
        self.start = [i for i in self.active if self.matches(i, 0)]
        self.target = [i for i in self.active if self.matches(i, 1)]

    def movable(self, el):
        if self.spec.get("mobile_species"):
            return el in self.spec["mobile_species"]
        return any(x in W.VACANCY_WORDS for x in self.mapping[el])

    def matches(self, i, which):
        el, label, _ = self.spec["sites"][i]
        ids = self.spec["ids"]
        if ids is None:
            return self.movable(el)
        tokens = [ids[0]] if isinstance(ids[0], str) else list(ids[0])
        species = all(self.mapping.get(t) and self.movable(t) for t in tokens + [ids[1]])
        wanted = tokens if which == 0 else [ids[1]]
        return (el if species else label) in wanted

    def neighbours(self, i, rmax):
        """All (primitive site, image, distance) of active sites closer than rmax to primitive site i."""
        inv = np.linalg.inv(self.matrix)
        reach = np.ceil(rmax * np.linalg.norm(inv, axis=0) + 1).astype(int)
        shifts = np.array(list(itertools.product(*[range(-n, n + 1) for n in reach])), float)
        out = []
        for j in self.active:
            d = np.linalg.norm((self.frac[j] - self.frac[i] + shifts) @ self.matrix, axis=1)
            for k in np.nonzero((d < rmax) & (d > 1e-6))[0]:
                out.append((j, tuple(int(x) for x in shifts[k]), float(d[k])))
        return out


def pick(distances, percent, gap=0.02):
    """A cutoff inside a clear gap, keeping about percent of the distances."""
    distances = sorted(distances)
    edges = [0.5 * (a + b) for a, b in zip(distances, distances[1:]) if b - a > gap]
    if not edges:
        return None
    return edges[min(len(edges) - 1, percent * len(edges) // 101)]


def check_library(spec, case):
    from kmcpy.event import EventLib
    from kmcpy.event.generators import EventGenerator
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    tmp = case.tmp()
    if spec.get("nudge") and any(spec["nudge"][2]):
        which, size, way = spec["nudge"]
        sites = [list(s) for s in spec["sites"]]
        step = np.array(way, float) / np.linalg.norm(way) * size / np.array(spec["lattice"][:3])
        sites[which][2] = [float(x) for x in (np.array(sites[which][2]) + step) % 1]
        spec = dict(spec, sites=sites)
    cif = os.path.join(tmp, "p.cif")
    with open(cif, "w") as fh:
        fh.write(cifs.p1_cif(spec["lattice"], spec["sites"]))
    reduce = bool(spec.get("reduce"))
    matrix = None
    if reduce:  # the primitive cell is whatever the loader gives; the library must fit that cell
        small = load_labeled_structure_from_cif(cif, primitive=True)
        matrix = np.array(small.lattice.matrix)
        spec = dict(spec, sites=[[s.specie.symbol, s.properties["label"], list(s.frac_coords)] for s in small])
    ref = Reference(spec, matrix)
    charges = None
    if spec["ids"] is not None and spec["charged"] and not any(t not in ref.mapping for t in flat(spec["ids"])):
        full = load_labeled_structure_from_cif(cif, primitive=reduce)
        full.add_oxidation_state_by_guess()
        charges = {s.specie.symbol: s.species_string for s in full}
        if not all(re.fullmatch(r"[A-Z][a-z]?\d*[+-]", charges.get(t, "")) for t in flat(spec["ids"])):
            charges = None
    if not ref.start or not ref.target:
        refused = None
        span = spec.get("reach", 1.1) * float(np.linalg.norm(ref.matrix, axis=1).min())
        around = [sorted(n[2] for n in ref.neighbours(i, span)) for i in ref.active]
        steps = sorted({round(d + 0.01, 6) for v in around for d in v}, reverse=True)
        cut = next((c for c in steps if max(sum(d < c for d in v) for v in around) <= min(spec["limit"], 12)), None)
        if cut is None:
            return
        try:
            EventGenerator().generate_events(
                structure_file=cif, mobile_ion_identifiers=tuple(spec["ids"]), supercell_shape=list(spec["shape"]),
                event_file=os.path.join(tmp, "none.json"), site_mapping=ref.mapping, convert_to_primitive_cell=reduce,
                mobile_species=spec.get("mobile_species"), local_env_cutoff=cut)
        except ValueError as exc:
            refused = exc
        require(refused is not None and not os.path.exists(os.path.join(tmp, "none.json")),
                "endpoints that name no site gave an event library", ids=spec["ids"])
        case.label("no such endpoint")
        return

    # cutoffs, chosen in clear gaps so that no neighbour sits on the boundary
    span = spec.get("reach", 1.1) * float(np.linalg.norm(ref.matrix, axis=1).min())
    near = {i: sorted(ref.neighbours(i, span), key=lambda n: n[2]) for i in ref.start}
    if max((len(v) for v in near.values()), default=0) > 400:
        return
    elements = sorted({spec["sites"][i][0] for i in ref.active})
    kwargs = {}
    limit = spec["limit"]
    gap = 0.5 if spec.get("nudge") else 0.02  # a nudge must not move a site across the cutoff
    if spec["cut"] == "uniform":
        pool = sorted({round(n[2], 6) for v in near.values() for n in v})
        cut = None
        for percent in range(spec["rank"][0], -1, -5):
            c = pick(pool, percent, gap)
            if c is not None and max(sum(n[2] < c for n in v) for v in near.values()) <= limit:
                cut = c
                break
        # the documented default of 4 Angstrom, where no neighbour is near that boundary
        default = span > 4.0 + gap and spec["rank"][1] % 3 == 0 and all(abs(d - 4.0) > gap / 2 for d in pool) and max(
            sum(n[2] < 4.0 for n in v) for v in near.values()) <= limit
        if default:
            cut = 4.0
            case.label("default cutoff")
        if cut is None:
            return
        cutoff = {(a, b): cut for a in elements for b in elements}
        if not default:
            kwargs["local_env_cutoff"] = cut
    else:
        full = load_labeled_structure_from_cif(cif, primitive=reduce)
        full.add_oxidation_state_by_guess()
        names = {s.specie.symbol: s.species_string for s in full}
        cutoff, given = {}, {}
        pairs = [(a, b) for a in elements for b in elements if a <= b
                 and (a in {spec["sites"][i][0] for i in ref.start} or b in {spec["sites"][i][0] for i in ref.start})]
        for k, (a, b) in enumerate(pairs):
            pool = sorted({round(n[2], 6) for i, v in near.items() for n in v
                           if {spec["sites"][i][0], spec["sites"][n[0]][0]} == {a, b}})
            for percent in range(spec["rank"][k % 6], -1, -5):
                c = pick(pool, percent, gap)
                if c is None:
                    break
                trial = dict(cutoff)
                trial[(a, b)] = trial[(b, a)] = c
                sizes = [sum(n[2] < trial.get((spec["sites"][i][0], spec["sites"][n[0]][0]), 0) for n in v)
                         for i, v in near.items()]
                if max(sizes) <= limit:
                    cutoff = trial
                    given[(names[a], names[b]) if spec["rank"][5] % 2 else (names[b], names[a])] = c
                    break
        if not given:
            return
        kwargs["local_env_cutoff_dict"] = given
    env = {i: [n for n in near[i] if n[2] < cutoff.get((spec["sites"][i][0], spec["sites"][n[0]][0]), 0)]
           for i in ref.start}
    hops = {i: [n for n in env[i] if n[0] in ref.target] for i in ref.start}

    events_file = os.path.join(tmp, "events.json")
    gen = EventGenerator()
    ids = given_ids = spec["ids"]
    if charges is not None:  # the same endpoints, one or both written with their charge
        given_ids = [charges[t] if spec["charged"] >> k & 1 else t for k, t in enumerate(flat(ids))]
        case.label("charged endpoints")
    match = spec.get("match") or {}
    for key in ("rtol", "atol"):
        if match.get(key) is not None:
            kwargs[key if spec["rank"][5] % 3 else "distance_matrix_" + key] = match[key]
    if spec.get("mobile_species"):
        kwargs["mobile_species"] = list(spec["mobile_species"])
        case.label("explicit mobile species")
    tolerance = (0.01 if match.get("rtol") is None else match["rtol"], 0.01 if match.get("atol") is None else match["atol"])
    call = dict(structure_file=cif, mobile_ion_identifiers=None if ids is None else tuple(given_ids),
                supercell_shape=list(spec["shape"]), event_file=events_file, site_mapping=ref.mapping,
                convert_to_primitive_cell=reduce, **kwargs)
    if list(spec["shape"]) == [2, 1, 1] and spec["rank"][2] % 2:
        del call["supercell_shape"]
        case.label("default supercell")
    if match.get("strict"):
        call["find_nearest_if_fail"] = False
        verdicts = [fits(ref, env, tolerance, first, i) for first, i in same_kinds(ref, env)]
        if None in verdicts:
            return
        if False in verdicts:
            refused = None
            try:
                gen.generate_events(**call)
            except ValueError as exc:
                refused = exc
            require(refused is not None, "unlike environments were matched with find_nearest_if_fail=False")
            case.nontrivial(True)
            case.label("unlike environments refused")
            return
        case.label("strictly matched", len(verdicts) > 0)
    if not any(hops.values()):
        try:
            gen.generate_events(**call)
        except ValueError:
            case.label("no events")
            return
        require(False, "generated events although no hop is within the cutoff")
    gen.generate_events(**call)
    lib = EventLib.from_file(events_file)

    order = ActiveSiteOrder.from_structure_and_mapping(load_labeled_structure_from_cif(cif, primitive=reduce), ref.mapping,
                                                       supercell_shape=spec["shape"])
    lib.validate_index_metadata(order)
    shape = np.array(spec["shape"])
    frac = np.array(order.active_structure().frac_coords) * shape
    index, home = {}, {}
    for k, f in enumerate(frac):
        hits = [i for i in ref.active if cifs.same_mod1(f, ref.frac[i])]
        require(len(hits) == 1, "an active site is not on any site of the crystal", site=k)
        cell = tuple(int(x) for x in np.round(f - ref.frac[hits[0]]).astype(int) % shape)
        require((hits[0], cell) not in index, "two active sites at one place")
        index[(hits[0], cell)] = k
        home[k] = (hits[0], cell)
    require(len(index) == len(ref.active) * int(np.prod(shape)), "missing active sites")

    def go(cell, image):
        return tuple(int(x) for x in (np.array(cell) + np.array(image)) % shape)

    want = collections.Counter()
    envs = {}
    for k, (i, cell) in home.items():
        if i not in ref.start:
            continue
        envs[k] = sorted(index[(j, go(cell, im))] for j, im, _ in env[i])
        for j, im, _ in hops[i]:
            want[(k, index[(j, go(cell, im))])] += 1
    got = collections.Counter(tuple(int(x) for x in e.mobile_ion_indices) for e in lib.events)
    require(got == want, "the events are not the hops within the cutoff",
            missing=list((want - got).items())[:4], extra=list((got - want).items())[:4])
    listed = {}
    for e in lib.events:
        k = int(e.mobile_ion_indices[0])
        require(sorted(int(x) for x in e.local_env_indices) == envs[k],
                "a local environment is not the set of neighbours within the cutoffs", event=e.mobile_ion_indices)
        listed.setdefault(k, tuple(int(x) for x in e.local_env_indices))
        require(listed[k] == tuple(int(x) for x in e.local_env_indices), "one start site has two environment orders")

    # translation: the library maps onto itself, environment order included
    every = collections.Counter((tuple(map(int, e.mobile_ion_indices)), tuple(map(int, e.local_env_indices)))
                                for e in lib.events)
    for axis in range(3):
        if shape[axis] == 1:
            continue
        step = [0, 0, 0]
        step[axis] = 1
        perm = {k: index[(i, go(cell, step))] for k, (i, cell) in home.items()}
        moved = collections.Counter()
        for ((a, b), e), count in every.items():
            moved[((perm[a], perm[b]), tuple(perm[x] for x in e))] += count
        require(moved == every, "translating by a lattice vector changes the event library", axis=axis)

    # congruence: equivalent start sites list their neighbours in corresponding order
    vectors = {}
    for i in ref.start:
        k = next((s for s, h in home.items() if h[0] == i and s in listed), None)
        if k is None or len(set(envs[k])) != len(envs[k]):
            vectors = {}  # positions cannot be read off the indices for the site that may be the reference
            break
        place = {index[(j, go(home[k][1], im))]: (ref.frac[j] + np.array(im) - ref.frac[i]) @ ref.matrix
                 for j, im, _ in env[i]}
        els = [spec["sites"][home[s][0]][0] for s in listed[k]]
        vectors[i] = (els, np.array([place[s] for s in listed[k]]))
    reference = {}
    for i in sorted(vectors, key=lambda q: next(s for s in home if home[s][0] == q)):
        els, vec = vectors[i]
        dist = np.linalg.norm(vec[:, None] - vec[None], axis=-1)
        key = tuple(sorted(collections.Counter(els).items()))
        if key not in reference:
            reference[key] = (els, dist)
            continue
        rels, rdist = reference[key]
        if not congruent_exists(rels, rdist, els, dist):
            continue
        case.label("congruent environments compared")
        require(els == rels and np.all(np.abs(dist - rdist) <= tolerance[1] + tolerance[0] * dist + 1e-4),
                "equivalent start sites list their environments in different order", site=i)
    case.nontrivial(len(lib) >= 2 and any(any(im != (0, 0, 0) for _, im, _ in v) for v in hops.values()))
    case.label("primitive cell", reduce)
    case.label(spec["cut"])
    case.label("species endpoints" if ids is None or str(ids[0]) in ref.mapping else "label endpoints")
    case.label("duplicate images", any(c > 1 for c in want.values()))
    case.label("fixed sites", len(ref.active) < len(spec["sites"]))


def environment(ref, env, i):
    els = [ref.spec["sites"][j][0] for j, _, _ in env[i]]
    vec = np.array([(ref.frac[j] + np.array(im) - ref.frac[i]) @ ref.matrix for j, im, _ in env[i]]).reshape(-1, 3)
    return els, np.linalg.norm(vec[:, None] - vec[None], axis=-1)


def same_kinds(ref, env):
    """Pairs (first start site with this neighbour composition, later start site with the same)."""
    first, pairs = {}, []
    for i in ref.start:
        key = tuple(sorted(collections.Counter(environment(ref, env, i)[0]).items()))
        if key in first:
            pairs.append((first[key], i))
        else:
            first[key] = i
    return pairs


def fits(ref, env, tolerance, first, i):
    """True: congruent well inside the tolerance; False: clearly not congruent; None: undecided."""
    a, b = environment(ref, env, first), environment(ref, env, i)
    if congruent_exists(*a, *b, tol=0.4 * tolerance[1]):
        return True
    wide = 2.5 * tolerance[1] + 2.5 * tolerance[0] * float(max(b[1].max(initial=0), a[1].max(initial=0)))
    return False if congruent_exists(*a, *b, tol=wide, unknown=True) is False else None


def congruent_exists(rels, rdist, els, dist, tol=1e-4, unknown=False):
    """Is there an order-free congruence (exact, well inside the generator's tolerance)?"""
    n = len(rels)
    assign = [None] * n
    used = set()
    budget = [20000]

    def go(k):
        if k == n:
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return unknown  # gave up
        for c in range(n):
            if c in used or els[c] != rels[k]:
                continue
            if all(abs(rdist[k][m] - dist[c][assign[m]]) < tol for m in range(k)):
                assign[k] = c
                used.add(c)
                if go(k + 1):
                    return True
                used.discard(c)
        return False

    return go(0)


@st.composite
def searches(draw):
    """Direct use of the neighbour helpers: several species, fixed and ranged pair cutoffs."""
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(["Na", "N", "Na+", "O2-", "O", "X", "Si"]), min_size=1, max_size=3, unique=True))
    spec = {"lattice": draw(W.lattices(lo=3.0, hi=8.0)), "frac": draw(W.frac_positions(n)),
            "species": [draw(st.sampled_from(names)) for _ in range(n)],
            "pairs": [], "metadata": draw(st.booleans()), "site": draw(st.integers(0, n - 1)),
            "ranged": draw(st.booleans())}
    both = list(itertools.combinations_with_replacement(names, 2))
    for a, b in draw(st.lists(st.sampled_from(both), max_size=len(both), unique=True)):
        a, b = (b, a) if draw(st.booleans()) else (a, b)
        spec["pairs"].append([a, b, draw(st.integers(0, 100)), draw(st.integers(0, 100))])
    return spec


def check_search(spec, case):
    from pymatgen.core import Lattice, Structure
    from kmcpy.structure import neighbors as N

    structure = Structure(Lattice.from_parameters(*spec["lattice"]), spec["species"], spec["frac"])
    if spec["metadata"]:
        for i, site in enumerate(structure):
            site.properties.update(wyckoff_sequence=f"w{i}", local_index=10 + i, label=f"L{i}", supercell=(i, 0, 0))
    matrix = np.array(structure.lattice.matrix)
    frac = structure.frac_coords
    i = spec["site"]
    near = 7.0
    reach = np.ceil(near * np.linalg.norm(np.linalg.inv(matrix), axis=0) + 1).astype(int)
    shifts = np.array(list(itertools.product(*[range(-m, m + 1) for m in reach])), float)
    table = []
    for j in range(len(frac)):
        d = np.linalg.norm((frac[j] - frac[i] + shifts) @ matrix, axis=1)
        for k in np.nonzero((d < near) & (d > 1e-6))[0]:
            table.append((j, tuple(int(x) for x in shifts[k]), float(d[k])))
    distances = sorted({round(t[2], 6) for t in table})
    gaps = [(a + b) / 2 for a, b in zip(distances, distances[1:]) if b - a > 1e-3]
    if not gaps:
        case.label("no clear cutoff")
        return
    cutoffs, want_of = {}, {}
    for a, b, lo, hi in spec["pairs"]:
        low, high = sorted([gaps[lo * (len(gaps) - 1) // 100], gaps[hi * (len(gaps) - 1) // 100]])
        cutoffs[(a, b)] = (low, high) if spec["ranged"] else high
        want_of[frozenset((a, b))] = (low if spec["ranged"] else 0.0, high)
    if spec["ranged"]:
        found = N.get_range_cutoff_neighbor_info(structure, i, N.prepare_range_cutoff_neighbor_lookup(cutoffs))
    else:
        found = N.get_cutoff_neighbor_info(structure, i, N.prepare_cutoff_neighbor_lookup(cutoffs))
    name = [site.species_string for site in structure]
    want = []
    for j, image, d in table:
        low, high = want_of.get(frozenset((name[i], name[j])), (0.0, 0.0))
        if low < d < high:
            want.append((j, image))
    got = [(int(f["site_index"]), tuple(int(round(x)) for x in f["image"])) for f in found]
    require(sorted(got) == sorted(want), "neighbours within the pair cutoffs", got=sorted(got), want=sorted(want),
            species=name, cutoffs={str(k): v for k, v in cutoffs.items()})
    by = {(j, image): d for j, image, d in table}
    for f, key in zip(found, got):
        require(abs(float(f["weight"]) - by[key]) < 1e-6, "distance of a neighbour", got=float(f["weight"]), want=by[key])
        where = (np.array(frac[key[0]]) + key[1]) @ matrix
        require(np.allclose(f["site"].coords, where, atol=1e-6), "position of a neighbour", got=list(f["site"].coords))
        if spec["metadata"]:
            j = key[0]
            require((f["wyckoff_sequence"], f["local_index"], f["label"], tuple(f["supercell"]))
                    == (f"w{j}", 10 + j, f"L{j}", (j, 0, 0)), "site metadata of a neighbour", got=str(f))
    case.nontrivial(len(want) >= 2 and len(want) < len(table))
    case.label("ranged" if spec["ranged"] else "fixed")


SUBS = [Sub("library", crystals, check_library, quick=160, thorough=2500, budget=60),
        Sub("matching", lambda: crystals(alike=True), check_library, quick=80, thorough=1200, budget=30),
        Sub("search", searches, check_search, quick=200, thorough=4000, budget=30)]
