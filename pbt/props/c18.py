"""C18: matching of labelled point clusters and local environments."""
import itertools
import math

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
import worlds as W
from harness import Sub, require

ID = "C18"
RULE = ("labelled clusters of 1-9 sites on an integer grid (so congruence is decided exactly in integers) against "
        "permuted, rotated, reflected, translated, renumbered and slightly perturbed copies, and against altered ones "
        "(label changed, site moved, mirror image, homometric pair); local environments of generated crystals "
        "against the same crystal rotated with its sites reordered; non-trivial when there are at least three "
        "sites and the candidate is not the identical list")
ASSUMPTIONS = ["distances either coincide within 3e-4 or differ by far more than the matching tolerance of 1e-3"]

SPECIES = ["Na", "Zr", "Si4+", "O2-"]
HOMOMETRIC = ([0, 1, 4, 10, 12, 17], [0, 1, 8, 11, 13, 17])


@st.composite
def clouds(draw, max_sites=9):
    grid = draw(st.sampled_from([1, 2, 3]))
    n = draw(st.integers(1, max_sites))
    n = min(n, 8) if grid == 1 else n
    pts = draw(st.lists(st.tuples(*[st.integers(0, grid)] * 3).map(list), min_size=n, max_size=n, unique_by=tuple))
    kinds = draw(st.sampled_from([1, 1, 2, 3]))
    roles = draw(st.sampled_from([[""], ["", "edge"]]))
    labels = [[draw(st.sampled_from(SPECIES[:kinds])), draw(st.sampled_from(roles))] for _ in pts]
    return pts, labels


def motions():
    return st.fixed_dictionaries({
        "q": st.lists(st.integers(-9, 9), min_size=4, max_size=4).filter(lambda q: any(q)),
        "mirror": st.booleans(),
        "t": st.lists(st.integers(-50, 50), min_size=3, max_size=3),
    })


@st.composite
def cases(draw, max_sites=9):
    kind = draw(st.sampled_from(["copy", "copy", "copy", "label", "role", "move", "move", "homometric", "swap", "drop"]))
    if kind == "homometric":
        ref = [[x, 0, 0] for x in HOMOMETRIC[0]]
        cand = [[x, 0, 0] for x in HOMOMETRIC[1]]
        labels = [["Na", ""] for _ in ref]
        clabels = [list(l) for l in labels]
    else:
        ref, labels = draw(clouds(max_sites))
        cand, clabels = [list(p) for p in ref], [list(l) for l in labels]
        k = draw(st.integers(0, len(ref) - 1))
        if kind == "label":
            clabels[k][0] = draw(st.sampled_from(SPECIES))
        elif kind == "role":
            clabels[k][1] = draw(st.sampled_from(["", "edge", "other"]))
        elif kind == "swap":
            j = draw(st.integers(0, len(ref) - 1))
            clabels[k], clabels[j] = clabels[j], clabels[k]
        elif kind == "drop" and len(ref) > 1:
            cand, clabels = cand[:-1], clabels[:-1]
        elif kind == "move":
            p = draw(st.tuples(*[st.integers(0, 3)] * 3).map(list))
            assume(p not in cand)
            cand[k] = p
    n = len(cand)
    perm = draw(st.permutations(range(n)))
    spec = {
        "kind": kind, "ref": ref, "labels": labels,
        "cand": [cand[i] for i in perm], "clabels": [clabels[i] for i in perm],
        "motion": draw(motions()), "scale": draw(st.sampled_from([1.0, 1.37, 2.5])),
        "noise": draw(st.sampled_from([0.0, 0.0, 1e-4])),
        "numbers": draw(st.permutations(range(n))), "offset": draw(st.integers(0, 40)),
        "noise_dirs": draw(st.lists(st.integers(-2, 2), min_size=3 * n, max_size=3 * n)),
    }
    return spec


def rotation(q):
    w, x, y, z = np.array(q, float) / math.sqrt(sum(v * v for v in q))
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def moved(points, motion, scale):
    m = rotation(motion["q"])
    if motion["mirror"]:
        m = m @ np.diag([1.0, 1.0, -1.0])
    return np.array(points, float) * scale @ m.T + np.array(motion["t"], float) / 7


def sq(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


def count_matches(ref, labels, cand, clabels, limit=2):
    """Number (up to limit) of label- and distance-preserving bijections, exact in integers."""
    n = len(ref)
    if n != len(cand):
        return 0
    used, assign, total = [False] * n, [], 0

    def walk(i):
        nonlocal total
        if total >= limit:
            return
        if i == n:
            total += 1
            return
        for j in range(n):
            if used[j] or labels[i] != clabels[j]:
                continue
            if all(sq(ref[i], ref[k]) == sq(cand[j], cand[assign[k]]) for k in range(i)):
                used[j] = True
                assign.append(j)
                walk(i + 1)
                assign.pop()
                used[j] = False

    walk(0)
    return total


def make(points, labels, numbers):
    from kmcpy.structure.cluster import Cluster

    return Cluster(site_indices=numbers, species=[l[0] for l in labels], coords=np.array(points, float),
                   roles=[l[1] for l in labels])


def check_mapping(match, spec, ref_xyz, cand_xyz, tol):
    n = len(spec["ref"])
    r2c, c2r = list(match.reference_to_candidate), list(match.candidate_to_reference)
    require(sorted(r2c) == list(range(n)), "the assignment is not one-to-one", got=r2c)
    require(all(c2r[c] == r for r, c in enumerate(r2c)) and len(c2r) == n, "inverse assignment", r2c=r2c, c2r=c2r)
    numbers = [spec["offset"] + v for v in spec["numbers"]]
    require(list(match.ordered_candidate_indices) == [numbers[c] for c in r2c], "ordered site indices",
            got=list(match.ordered_candidate_indices), r2c=r2c, numbers=numbers)
    require(all(spec["labels"][r] == spec["clabels"][c] for r, c in enumerate(r2c)), "labels not preserved", r2c=r2c)
    for a, b in itertools.combinations(range(n), 2):
        da = np.linalg.norm(ref_xyz[a] - ref_xyz[b])
        db = np.linalg.norm(cand_xyz[r2c[a]] - cand_xyz[r2c[b]])
        require(abs(da - db) <= tol, "distances not preserved by the reported match", pair=[a, b], ref=da, cand=db)


def build(spec):
    ref_xyz = np.array(spec["ref"], float) * spec["scale"]
    cand_xyz = moved(spec["cand"], spec["motion"], spec["scale"])
    cand_xyz = cand_xyz + spec["noise"] * np.array(spec["noise_dirs"], float).reshape(-1, 3) / 4
    ref = make(ref_xyz, spec["labels"], list(range(len(spec["ref"]))))
    cand = make(cand_xyz, spec["clabels"], [spec["offset"] + v for v in spec["numbers"]])
    return ref, cand, ref_xyz, cand_xyz


def attempt(fn):
    try:
        return fn(), None
    except ValueError as exc:
        return None, exc


def check_match(spec, case):
    from kmcpy.structure.cluster import ClusterMatcher, match_clusters

    ref, cand, ref_xyz, cand_xyz = build(spec)
    n = len(spec["ref"])
    count = count_matches(spec["ref"], spec["labels"], spec["cand"], spec["clabels"])
    case.nontrivial(n >= 3 and (spec["cand"] != spec["ref"] or any(spec["motion"]["q"][1:])))
    case.label("match" if count else "no-match")
    case.label("symmetric", count > 1)
    case.label("unique", count == 1 and n > 2)
    match, err = attempt(lambda: ClusterMatcher(ref).match(cand))
    if count == 0:
        require(match is None, "clusters without a correspondence were reported as matching", kind=spec["kind"])
        require(not (ref == cand) and not (cand == ref), "clusters without a correspondence compare equal")
        require(ref != cand, "clusters without a correspondence: != is false")
    else:
        require(match is not None, "a congruent cluster was not matched", error=str(err), kind=spec["kind"])
        check_mapping(match, spec, ref_xyz, cand_xyz, 1e-3)
        require(bool(match.is_unique) == (count == 1), "uniqueness flag", got=match.is_unique, matches=count)
        require(ref == cand and cand == ref and not (ref != cand), "congruent clusters compare unequal")
        strict, _ = attempt(lambda: match_clusters(ref, cand, require_unique=True))
        require((strict is not None) == (count == 1), "require_unique", accepted=strict is not None, matches=count)
        order = ClusterMatcher(ref).ordered_candidate_indices(cand)
        require(list(order) == list(match.ordered_candidate_indices), "ordered_candidate_indices")
    # geometry only
    require(ref == ref, "a cluster differs from itself")
    require((sorted(map(tuple, spec["labels"])) == sorted(map(tuple, spec["clabels"])))
            == (ref.signature == cand.signature), "signature is not the label count")
    want = sorted(math.sqrt(sq(p, q)) * spec["scale"] for p, q in itertools.combinations(spec["ref"], 2))
    require(np.allclose(list(ref.bond_distances), want, atol=1e-9), "bond distances", got=list(ref.bond_distances))
    require(abs(ref.max_length - max(want, default=0)) < 1e-9, "max_length", got=ref.max_length)
    require(abs(ref.min_length - min(want, default=0)) < 1e-9, "min_length", got=ref.min_length)
    names = {1: "point", 2: "pair", 3: "triplet", 4: "quadruplet"}
    if n in names:
        require(ref.type == names[n], "cluster type", got=ref.type)
    if len(spec["ref"]) == len(spec["cand"]):
        apart = spec["labels"] != spec["clabels"] or any(
            sq(spec["ref"][a], spec["ref"][b]) != sq(spec["cand"][a], spec["cand"][b])
            for a, b in itertools.combinations(range(n), 2))
        require(not apart or ref.fingerprint != cand.fingerprint, "two different ordered clusters share a fingerprint")
    near = make(ref_xyz * 1.013, spec["labels"], list(range(n)))
    require(n < 2 or near.fingerprint != ref.fingerprint, "a stretched cluster has the same fingerprint")
    if n >= 2:
        # the tolerances that are asked for decide
        width = 0.013 * max(want)
        loose, _ = attempt(lambda: ClusterMatcher(ref, rtol=0.0, atol=width * 1.01).match(near))
        require(loose is not None, "a stretched cluster is refused at a tolerance above the stretch")
        tight, _ = attempt(lambda: ClusterMatcher(ref, rtol=0.0, atol=width * 1e-3).match(near))
        require(tight is None, "a stretched cluster matches at a tolerance below the stretch")
        # the same through the function, and with a relative tolerance
        for settings, fits in (({"rtol": 0.0, "atol": width * 1.01}, True), ({"rtol": 0.014, "atol": 0.0}, True),
                               ({"rtol": 0.0, "atol": width * 1e-3}, False), ({"rtol": 1e-4, "atol": 0.0}, False)):
            for how, run in (("match_clusters", lambda: match_clusters(ref, near, **settings)),
                             ("ClusterMatcher", lambda: ClusterMatcher(ref, **settings).match(near))):
                got, _ = attempt(run)
                require((got is not None) == fits, "tolerances asked for do not decide: " + how, settings=settings,
                        matched=got is not None)
    back = type(ref).from_dict(ref.as_dict())
    require(back == ref and list(back.site_indices) == list(ref.site_indices) and list(back.labels) == list(ref.labels),
            "cluster changed by as_dict/from_dict")
    require(np.allclose(back.distance_matrix, ref.distance_matrix, atol=1e-9), "distances after from_dict")


def check_nearest(spec, case):
    from kmcpy.structure.cluster import ClusterMatcher

    ref, cand, ref_xyz, cand_xyz = build(spec)
    count = count_matches(spec["ref"], spec["labels"], spec["cand"], spec["clabels"])
    same_labels = sorted(map(tuple, spec["labels"])) == sorted(map(tuple, spec["clabels"]))
    match, err = attempt(lambda: ClusterMatcher(ref).match(cand, find_nearest_if_fail=True))
    if not same_labels:
        require(match is None, "nearest match accepted a different composition")
        return
    require(match is not None, "nearest match refused equal compositions", error=str(err))
    n = len(spec["ref"])
    if count:
        check_mapping(match, spec, ref_xyz, cand_xyz, 1e-3)
        case.label("exact")
        return
    check_mapping(match, spec, ref_xyz, cand_xyz, float("inf"))
    case.nontrivial(n >= 3)
    case.label("nearest")
    dr = np.linalg.norm(ref_xyz[:, None] - ref_xyz[None], axis=2)
    dc = np.linalg.norm(cand_xyz[:, None] - cand_xyz[None], axis=2)

    def score(p):
        return float(np.abs(dr - dc[np.ix_(p, p)]).sum())

    best = min(score(p) for p in itertools.permutations(range(n))
               if all(spec["labels"][r] == spec["clabels"][c] for r, c in enumerate(p)))
    got = score(list(match.reference_to_candidate))
    require(abs(got - best) < 1e-6, "the nearest match is not the nearest", got=got, best=best)
    require(abs(match.score - got) < 1e-6, "reported score", got=match.score, want=got)


# ---- local environments of crystals ------------------------------------------------------------

@st.composite
def env_cases(draw):
    spec = draw(L.local_envs(max_env=7))
    n = len(spec["sites"])
    spec["perm"] = draw(st.permutations(range(n)))
    spec["motion"] = draw(motions())
    spec["order2"] = draw(st.sampled_from(["kmcpy_default", {"name": "zs", "sort_keys": ["species", "cartesian_z"]},
                                           {"name": "d", "sort_keys": ["species", "cartesian_y"]}]))
    if L.center_tolerance(spec) > 1e-3 and isinstance(spec["order2"], dict):
        spec["order2"] = {**spec["order2"], "center_match_tolerance": L.center_tolerance(spec)}
    elif L.center_tolerance(spec) > 1e-3:
        spec["order2"] = {"name": "kmcpy_default", "center_match_tolerance": L.center_tolerance(spec)}
    spec["shift"] = [draw(st.integers(0, 11)) / 12 for _ in range(3)]
    spec["tamper"] = draw(st.sampled_from([False, True]))
    spec["tamper_by"] = draw(st.sampled_from([0.06, -0.05, 0.11]))
    return spec


def check_env(spec, case):
    from pymatgen.core import Lattice, Structure
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

    env = L.LocalEnv(spec)
    assume(env.cutoff is not None)
    ref = env.build()
    geo = L.Geometry([s.species_string for s in ref.structure], [s.coords for s in ref.structure])
    assume(not geo.ambiguous())
    m = rotation(spec["motion"]["q"])
    if spec["motion"]["mirror"]:
        m = m @ np.diag([1.0, 1.0, -1.0])
    matrix = np.array(env.template().lattice.matrix) @ m.T
    sites = [list(s) for s in spec["sites"]]
    center = spec["center"]
    if spec["tamper"] and len(sites) > 1:
        hit = [env.active[r[1]] for r in env.sites if env.active[r[1]] != center]
        if hit:
            k = hit[0]
            sites[k] = [sites[k][0], [(sites[k][1][0] + spec["tamper_by"]) % 1.0] + list(sites[k][1][1:])]
    shift = np.array(spec["shift"])
    perm = spec["perm"]
    other = Structure(Lattice(matrix), [sites[i][0] for i in perm],
                      [np.array(sites[i][1], float) + shift for i in perm])
    c2 = perm.index(center) if isinstance(center, int) else list(np.array(center, float) + shift)
    cand, err = attempt(lambda: LocalLatticeStructure(
        other, c2, env.cutoff, site_mapping=env.mapping, local_site_order=spec["order2"],
        basis_type=spec.get("basis", "chebyshev"),
        exclude_center_site=L.excludes_center(spec)))
    if cand is None:
        # the moved site may have been the only one inside the sphere
        require(spec["tamper"], "the environment of the rotated crystal was refused", error=str(err))
        return
    cgeo = L.Geometry([s.species_string for s in cand.structure], [s.coords for s in cand.structure])
    both = L.Geometry(geo.elements + cgeo.elements, list(geo.coords) + list(cgeo.coords))
    n = len(geo.elements)
    a, b = list(range(n)), list(range(n, n + len(cgeo.elements)))
    values = np.array(sorted(geo.distances() + cgeo.distances()))
    gaps = np.diff(values) if len(values) > 1 else np.zeros(0)
    assume(not np.any((gaps > 1e-5) & (gaps < 0.02)))
    want = both.congruent(a, b) if n <= 7 else None
    if not spec["tamper"]:
        require(want is not False, "the environment of the rotated crystal has other sites",
                ref=[len(a)], cand=[len(b)])
    before = (list(cand.site_indices), [list(s.coords) for s in cand.structure])
    got = bool(cand.is_equivalent_to(ref))
    require(got == bool(want), "is_equivalent_to", got=got, want=want)
    require(bool(ref.is_equivalent_to(cand)) == got, "is_equivalent_to is not symmetric")
    same_labels = sorted(geo.elements) == sorted(cgeo.elements)
    require(bool(cand.is_equivalent_to(ref, rtol=0.0, atol=100.0)) == same_labels,
            "is_equivalent_to with a tolerance beyond every distance")
    wide, _ = attempt(lambda: cand.match_with_reference(ref, rtol=0.0, atol=100.0))
    require((wide is not None) == same_labels, "match_with_reference with a tolerance beyond every distance")
    if same_labels:
        nearest, err = attempt(lambda: cand.match_with_reference(ref, find_nearest_if_fail=True))
        require(nearest is not None, "the nearest match was refused", error=str(err))
        require(sorted(map(int, nearest.site_indices)) == sorted(map(int, cand.site_indices)), "sites of the nearest match")
    case.nontrivial(n >= 3)
    case.label("equivalent" if want else "different")
    out, err = attempt(lambda: cand.match_with_reference(ref))
    if not want:
        require(out is None, "match_with_reference matched a different environment")
        return
    require(out is not None, "match_with_reference refused an equivalent environment", error=str(err))
    require([s.species_string for s in out.structure] == geo.elements, "species order after matching")
    ogeo = L.Geometry(geo.elements, [s.coords for s in out.structure])
    require(out.local_environment_hash == out.get_ordered_site_hash(), "hash of the matched environment")
    require(np.allclose(ogeo.d, geo.d, atol=1e-3), "distances after matching differ from the reference")
    pairs = {(int(i), tuple(np.round(s.coords, 5) + 0.0)) for i, s in zip(cand.site_indices, cand.structure)}
    got_pairs = {(int(i), tuple(np.round(s.coords, 5) + 0.0)) for i, s in zip(out.site_indices, out.structure)}
    require(pairs == got_pairs, "matching detached site indices from their sites")
    require(before == (list(cand.site_indices), [list(s.coords) for s in cand.structure]),
            "matching changed the candidate environment")


SUBS = [
    Sub("match", lambda: cases(9), check_match, quick=450, thorough=12000),
    Sub("nearest", lambda: cases(6), check_nearest, quick=150, thorough=2500),
    Sub("environment", env_cases, check_env, quick=120, thorough=3000),
]
TECHNIQUE = ("property-based testing (Hypothesis): ClusterMatcher and LocalLatticeStructure matching against exact "
             "integer congruence search and brute-force nearest assignment")
