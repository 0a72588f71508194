"""Generated local environments and an independent reference for local cluster expansions.

The reference works from the spec alone: which active sites lie in the sphere, which clusters are within the
cutoffs, which clusters are congruent, the Chebyshev site values (cos k*acos x) and the explicit cluster sum.
"""
import itertools
import math

import numpy as np
from hypothesis import assume, strategies as st

import worlds as W


def roomy(lattice, fracs, least=0.9):
    """The lattice, scaled up when two atoms would be closer than any real ones (and than symmetry tolerances)."""
    from pymatgen.core import Lattice
    if len(fracs) < 2:
        return lattice
    matrix = np.array(Lattice.from_parameters(*lattice).matrix)
    images = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    gap = min(float(np.linalg.norm((np.subtract(a, b) + images) @ matrix, axis=1).min())
              for a, b in itertools.combinations(fracs, 2))
    if gap >= least:
        return lattice
    return [math.ceil(10 * x * least / gap) / 10 for x in lattice[:3]] + list(lattice[3:])


@st.composite
def local_envs(draw, max_env=6, max_prim=4, excl=None):
    """Primitive cell, centre and how many sites the sphere should hold."""
    basis = draw(st.sampled_from(["chebyshev"] * 5 + ["occupation"]))
    mobile, kinds = draw(W.palettes())
    if basis == "occupation":  # the 0/1 basis of sites with two states
        kinds["C"][1] = list(kinds["C"][1])[:2]
        kinds.pop("B", None)
    n_prim = draw(st.integers(1, max_prim))
    rich = basis == "chebyshev" and draw(st.integers(0, 3)) == 0  # nearly every site has three or four states
    if rich and draw(st.booleans()):
        kinds["B"][1] = draw(st.permutations(list(kinds["B"][1]) + ["Rb"]))
    letters = ["B" if rich else "A"] + [draw(st.sampled_from(["B", "C"] if rich else sorted(kinds)))
                                        for _ in range(n_prim - 1)]
    letters = draw(st.permutations(letters))
    used = sorted(set(letters))
    spec = {
        "lattice": draw(W.lattices(lo=3.5, hi=7.0)),
        "sites": [[kinds[l][0], f] for l, f in zip(letters, draw(W.frac_positions(len(letters))))],
        "mapping": [[kinds[l][0], list(kinds[l][1])] for l in draw(st.permutations(used))],
        "mobile": mobile,
        "shape": draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 3]])),
    }
    spec["lattice"] = roomy(spec["lattice"], [f for _, f in spec["sites"]])
    if basis != "chebyshev":
        spec["basis"] = basis
    table = dict((k, v) for k, v in spec["mapping"])
    active = [i for i, (el, _) in enumerate(spec["sites"]) if len(table[el]) > 1]
    beside = False
    if draw(st.integers(0, 3)) == 0:
        spec["center"] = [draw(st.integers(0, 23)) / 24 for _ in range(3)]
        beside = draw(st.integers(0, 2)) == 0
        if beside:  # a point next to an active site
            near = spec["sites"][draw(st.sampled_from(active))][1]
            spec["center"] = [round(x + 0.03 * draw(st.integers(-1, 1)), 6) for x in near]
    else:
        spec["center"] = draw(st.sampled_from(active))
    spec["env"] = draw(st.sampled_from(sorted({1, max_env // 2, max_env - 1, max_env})[::-1]))
    spec["order"] = draw(st.sampled_from(
        [None, "kmcpy_default", "nasicon_nat_commun_2022", {"name": "mine", "sort_keys": ["species", "cartesian_z"]}]))
    if beside:
        spec["order"] = {"name": "wide", "sort_keys": ["species", "cartesian_y"],
                         "center_match_tolerance": draw(st.sampled_from([0.45, 0.45, 0.15, 0.001])),
                         "exclude_center_site": draw(st.booleans())}
    spec["exclude"] = draw(st.sampled_from([None, True, True, False])) if excl is None else excl
    spec["cuts"] = [draw(st.sampled_from([100, 60, 80, 45, 20, 0])) for _ in range(3)]
    return spec


def excludes_center(spec):
    if spec["exclude"] is not None:
        return spec["exclude"]
    if isinstance(spec["order"], dict):
        return spec["order"].get("exclude_center_site", False)
    return spec["order"] == "nasicon_nat_commun_2022"


def center_tolerance(spec):
    """How near a site counts as the centre itself."""
    return spec["order"].get("center_match_tolerance", 1e-3) if isinstance(spec["order"], dict) else 1e-3


class LocalEnv:
    """Reference view of the sphere around the centre."""

    def __init__(self, spec):
        self.spec = spec
        self.mapping = {k: list(v) for k, v in spec["mapping"]}
        from pymatgen.core import Lattice
        self.matrix = np.array(Lattice.from_parameters(*spec["lattice"]).matrix)
        self.active = [i for i, (el, _) in enumerate(spec["sites"]) if len(self.mapping[el]) > 1]
        frac = np.array([spec["sites"][i][1] for i in self.active], float)
        c = spec["center"]
        center = np.array(spec["sites"][c][1] if isinstance(c, int) else c, float)
        rows = []
        reach = 3
        for k, i in enumerate(self.active):
            for t in itertools.product(range(-reach, reach + 1), repeat=3):
                rel = (frac[k] + np.array(t) - center) @ self.matrix
                rows.append((float(np.linalg.norm(rel)), k, tuple(np.round(rel, 6))))
        rows.sort()
        if excludes_center(spec):
            tol = center_tolerance(spec)
            assume(all(abs(r[0] - tol) > 0.2 * tol for r in rows[:4]) and sum(r[0] <= tol for r in rows) <= 1)
            rows = [r for r in rows if r[0] > tol]
        self.rows = rows
        self.cutoff = None
        # widest usable radius with at most `env` sites and a clear gap behind it
        for n in range(min(spec["env"], len(rows) - 1), 0, -1):
            if rows[n][0] - rows[n - 1][0] > 0.02 and rows[n][0] < 2.5 * min(
                    1 / np.linalg.norm(np.linalg.inv(self.matrix), axis=0)):
                self.cutoff = (rows[n][0] + rows[n - 1][0]) / 2
                self.sites = rows[:n]
                break

    def template(self):
        return W.primitive_structure(self.spec)

    def build(self):
        from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

        c = self.spec["center"]
        return LocalLatticeStructure(
            self.template(), c if isinstance(c, int) else list(c), self.cutoff, site_mapping=self.mapping,
            basis_type=self.spec.get("basis", "chebyshev"), local_site_order=self.spec["order"], exclude_center_site=self.spec["exclude"])

    def allowed(self, active_index):
        return self.mapping[self.spec["sites"][self.active[active_index]][0]]

    def element(self, active_index):
        return self.spec["sites"][self.active[active_index]][0]


def cheb(n_states, state, k):
    """T_{k+1} at the state's point of [-1, 1], by the trigonometric definition."""
    x = -1 + 2 * state / (n_states - 1)
    return math.cos((k + 1) * math.acos(max(-1.0, min(1.0, x))))


class Geometry:
    """Clusters and orbits of an ordered list of (element, cartesian) sites."""

    def __init__(self, elements, coords):
        self.elements = list(elements)
        self.coords = np.array(coords, float)
        n = len(self.elements)
        self.d = np.linalg.norm(self.coords[:, None] - self.coords[None, :], axis=2) if n else np.zeros((0, 0))

    def distances(self):
        n = len(self.elements)
        return sorted(self.d[i, j] for i in range(n) for j in range(i))

    def ambiguous(self):
        """Some distances differ by an amount near the matching tolerance."""
        values = np.array(self.distances())
        gaps = np.diff(values) if len(values) > 1 else np.zeros(0)
        return bool(np.any((gaps > 1e-5) & (gaps < 0.03)))

    def cutoff(self, rank):
        """A cutoff lying clearly between two distances."""
        values = [0.5] + self.distances()
        values = [v for k, v in enumerate(values) if k == 0 or v - values[k - 1] > 1e-4]
        k = (rank * (len(values) - 1)) // 100  # rank: percent of the distinct distances to keep
        nxt = values[k + 1] if k + 1 < len(values) else values[k] + 1.0
        return (values[k] + nxt) / 2

    def clusters(self, cuts):
        n = len(self.elements)
        limits = {1: 10.0, 2: cuts[0], 3: cuts[1], 4: cuts[2]}
        out = []
        for size in (1, 2, 3, 4):
            for c in itertools.combinations(range(n), size):
                longest = max([self.d[i, j] for i, j in itertools.combinations(c, 2)], default=0.0)
                if longest < limits[size]:
                    out.append(c)
        return out

    def congruent(self, a, b):
        if len(a) != len(b):
            return False
        if sorted(self.elements[i] for i in a) != sorted(self.elements[i] for i in b):
            return False
        for perm in itertools.permutations(b):
            if all(self.elements[x] == self.elements[y] for x, y in zip(a, perm)) and all(
                    abs(self.d[a[i], a[j]] - self.d[perm[i], perm[j]]) < 2e-4
                    for i, j in itertools.combinations(range(len(a)), 2)):
                return True
        return False

    def orbits(self, cuts):
        groups = []
        for c in self.clusters(cuts):
            for g in groups:
                if self.congruent(g[0], c):
                    g.append(c)
                    break
            else:
                groups.append([c])
        return groups


def features(orbits, counts):
    """(clusters, basis indices) of every correlation feature, orbit by orbit."""
    out = []
    for clusters in orbits:
        size = len(clusters[0])
        limits = [min(counts[c[p]] - 1 for c in clusters) for p in range(size)]
        for deco in itertools.product(*[range(k) for k in limits]):
            out.append((clusters, deco))
    return out


def correlations(feats, counts, states, spec=None):
    """Explicit cluster sums; states are species-state indices in either basis."""
    if spec and spec.get("basis") == "occupation":
        def value(s, k):
            return 1.0 if states[s] == 0 else 0.0
    else:
        def value(s, k):
            return cheb(counts[s], states[s], k)
    return np.array([sum(math.prod(value(s, k) for s, k in zip(c, deco)) for c in clusters)
                     for clusters, deco in feats])


def codes(states, spec):
    """How the lattice model writes the states down."""
    return [1 - s for s in states] if spec.get("basis") == "occupation" else list(states)
