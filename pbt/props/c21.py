"""C21: enumeration of local environments and migration endpoint pairs."""
import itertools
import zlib
from collections import Counter

import numpy as np
from hypothesis import assume, strategies as st

import worlds as W
from harness import Sub, require

ID = "C21"
RULE = ("generated cells of 2-7 sites (binary, ternary, fixed; both bases), centres on a site or at a point, cutoffs "
        "between distances (beyond periodic images too), species choices, explicit variable sites, exact "
        "compositions, base structures and result limits, against the explicit product of choices; endpoint pairs "
        "for generated environments and hops; non-trivial when at least 3 decorations are expected (enumeration) or "
        "at least two other sites are occupied (pairs)")
ASSUMPTIONS = []


@st.composite
def cells(draw, lo=2, hi=6):
    basis = draw(st.sampled_from(["chebyshev", "chebyshev", "occupation"]))
    mobile, kinds = draw(W.palettes(multi=basis == "chebyshev"))
    if basis == "occupation":
        kinds["C"][1] = kinds["C"][1][:2]
    n = draw(st.integers(lo, hi))
    letters = draw(st.permutations(["A"] + [draw(st.sampled_from(sorted(kinds))) for _ in range(n - 1)]))
    spec = {
        "basis": basis, "mobile": mobile, "lattice": draw(W.lattices(lo=3.0, hi=7.0)),
        "sites": [[kinds[l][0], f] for l, f in zip(letters, draw(W.frac_positions(n)))],
        "mapping": [[kinds[l][0], list(kinds[l][1])] for l in draw(st.permutations(sorted(set(letters))))],
        "states": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
    }
    return spec


class Cell:
    def __init__(self, spec):
        from pymatgen.core import Lattice
        from kmcpy.structure.lattice_structure import LatticeStructure

        self.spec = spec
        self.table = {k: list(v) for k, v in spec["mapping"]}
        self.sites = spec["sites"]
        self.active = [i for i, (el, _) in enumerate(self.sites) if len(self.table[el]) > 1]
        self.allowed = [[self.norm(x) for x in self.table[self.sites[i][0]]] for i in self.active]
        self.frac = np.array([self.sites[i][1] for i in self.active], float)
        self.matrix = np.array(Lattice.from_parameters(*spec["lattice"]).matrix)
        self.lattice = LatticeStructure(W.primitive_structure(spec), self.table, basis_type=spec["basis"])
        self.base = [0] * len(self.active)

    norm = staticmethod(W.World.norm)

    def code(self, state):
        return state if self.spec["basis"] == "chebyshev" else (1 if state == 0 else 0)

    def state(self, code):
        return int(code) if self.spec["basis"] == "chebyshev" else {1: 0, 0: 1}[int(code)]

    def species(self, states):
        """(species, position) of every atom."""
        out = []
        for i, (el, f) in enumerate(self.sites):
            label = el if i not in self.active else self.allowed[self.active.index(i)][states[self.active.index(i)]]
            if label != "X":
                out.append((label, tuple(np.round(np.array(f) % 1.0, 5) % 1.0)))
        return sorted(out)

    def structure(self, states, seed, nudge=0.0):
        from pymatgen.core import Lattice, Structure

        atoms = []
        for i, (el, f) in enumerate(self.sites):
            label = el if i not in self.active else self.allowed[self.active.index(i)][states[self.active.index(i)]]
            if label != "X":
                atoms.append((label, f))
        atoms = sorted(atoms, key=lambda a: zlib.crc32(f"{seed}{a}".encode()) if seed else 0)
        if nudge:  # a relaxed structure: every atom off its site by `nudge` angstrom, below the tolerance
            inverse = np.linalg.inv(self.matrix)
            for k, (label, f) in enumerate(atoms):
                step = np.array([(seed + 3 * k + 2 * d) % 5 - 1.9 for d in range(3)])
                atoms[k] = (label, np.array(f) + nudge * step / np.linalg.norm(step) @ inverse)
        return Structure(Lattice(self.matrix), [a[0] for a in atoms], [a[1] for a in atoms])

    def rows(self, center):
        """Distance and active index of every periodic image near the centre."""
        c = self.frac[center] if isinstance(center, int) else np.array(center, float)
        out = []
        for k, f in enumerate(self.frac):
            d = f - c
            d = d - np.floor(d)
            for t in itertools.product(range(-4, 4), repeat=3):
                out.append((float(np.linalg.norm((d + np.array(t)) @ self.matrix)), k))
        return sorted(out)


def atoms_of(structure):
    return sorted((str(getattr(s.specie, "symbol", s.specie)), tuple(np.round(np.array(s.frac_coords) % 1.0, 5) % 1.0))
                  for s in structure)


@st.composite
def enumerations(draw):
    spec = draw(cells())
    n_active = sum(1 for el, _ in spec["sites"] if len(dict((k, v) for k, v in spec["mapping"])[el]) > 1)
    spec["center"] = draw(st.one_of(st.integers(0, n_active - 1),
                                    st.lists(st.integers(0, 11).map(lambda x: x / 12), min_size=3, max_size=3)))
    spec["reach"] = draw(st.integers(1, 14))
    spec["exclude"] = draw(st.sampled_from([None, True, False]))
    spec["order"] = draw(st.sampled_from([None, "kmcpy_default", "nasicon_nat_commun_2022"]))
    labels = sorted({W.World.norm(x) for _, v in spec["mapping"] if len(v) > 1 for x in v})
    spec["choices"] = draw(st.one_of(st.none(), st.sets(st.sampled_from(labels), min_size=1).map(sorted)))
    spec["word"] = draw(st.sampled_from(["X", "Vacancy", "Va"]))
    spec["pick"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=0, max_size=4)))
    spec["counts"] = draw(st.sampled_from([None, "like", "like", "zero", "sum"]))
    spec["like"] = draw(st.integers(0, 10000))
    spec["based"] = draw(st.booleans())
    spec["limit"] = draw(st.sampled_from([None, None, None, 1, 3, 10]))
    spec["transform"] = draw(st.integers(0, 2)) == 0
    spec["entries"] = draw(st.sampled_from(["dict", "dict", "plain", "one"]))
    spec["ranked"] = draw(st.sampled_from([None, True, False, 5]))
    spec["nudge"] = draw(st.sampled_from([0.0, 0.0, 0.03, 0.08]))
    spec["outside"] = draw(st.integers(0, 5)) == 0
    return spec


class Chosen:
    """A transformation that returns structures made elsewhere."""

    def __init__(self, entries):
        self.entries = entries
        self.given = None

    def apply_transformation(self, structure, return_ranked_list=False):
        self.given = structure
        self.ranked = return_ranked_list
        return self.entries


def check_enumeration(spec, case):
    from kmcpy.structure import enumerate_local_environments

    c = Cell(spec)
    rows = c.rows(spec["center"])
    excluded = spec["exclude"] if spec["exclude"] is not None else spec["order"] == "nasicon_nat_commun_2022"
    distances = [d for d, _ in rows]
    k = min(spec["reach"], len(rows) - 1)
    while k < len(rows) - 1 and distances[k + 1] - distances[k] < 0.02:
        k += 1
    assume(k < len(rows) - 1)
    cutoff = (distances[k] + distances[k + 1]) / 2
    # the generated images reach at least this far
    assume(cutoff < 3 * min(1 / np.linalg.norm(np.linalg.inv(c.matrix), axis=0)))
    inside = rows[:k + 1]
    center = spec["center"]
    if excluded:
        assume(not any(1e-4 < r[0] < 1e-2 for r in inside))
        gone = {r[1] for r in inside if r[0] <= 1e-3}
        inside = [r for r in inside if r[0] > 1e-3]  # images of the centre are neighbours like any other
        case.label("image of an excluded centre", any(r[1] in gone for r in inside))
    local = [r[1] for r in inside]
    tokens = None
    if spec["choices"] is not None:
        tokens = [spec["word"] if x == "X" else x for x in spec["choices"]]

    def options(site):
        return [x for x in c.allowed[site] if spec["choices"] is None or x in spec["choices"]]

    variable = None
    if spec["pick"] is not None and local:
        pool = sorted(set(local))
        variable = list(dict.fromkeys(pool[p % len(pool)] for p in spec["pick"]))
        assume(all(options(s) for s in variable))
        sites = variable
    else:
        sites = [s for s in dict.fromkeys(local) if len(options(s)) > 1]
    base = c.base
    kwargs = {}
    if spec["based"]:
        base = [x % len(a) for x, a in zip(spec["states"], c.allowed)]
        structure = c.structure(base, spec["like"], spec["nudge"])
        assume(len(structure))
        kwargs["base_structure"] = structure
    total = 1
    for s in sites:
        total *= len(options(s))
    assume(total <= 600)
    want = []
    for labels in itertools.product(*[options(s) for s in sites]):
        states = list(base)
        for s, x in zip(sites, labels):
            states[s] = c.allowed[s].index(x)
        want.append((tuple(states), labels))
    counts = None
    if spec["counts"] and want:
        counts = dict(Counter(want[spec["like"] % len(want)][1]))
        if spec["counts"] == "zero":
            for x in {y for s in sites for y in options(s)}:
                counts.setdefault(x, 0)
        if spec["counts"] == "sum":
            first = sorted(counts)[0] if counts else "Na"
            counts[first] = counts.get(first, 0) + 1
        kept = {k: v for k, v in counts.items() if v}
        want = [w for w in want if dict(Counter(w[1])) == kept]
        kwargs["species_counts"] = {spec["word"] if k == "X" else k: v for k, v in counts.items()}
    if spec["limit"]:
        kwargs["max_results"] = spec["limit"]

    def call(**more):
        args = dict(variable_species=tokens, variable_site_indices=variable, local_site_order=spec["order"],
                    exclude_center_site=spec["exclude"], **kwargs)
        args.update(more)
        return enumerate_local_environments(c.lattice, center, cutoff, **args)

    outside = [s for s in range(len(c.active)) if s not in local and options(s)]
    if spec.get("outside") and outside and spec["counts"] is None:
        try:
            call(variable_site_indices=[outside[0]] + sites[:1])
        except ValueError:
            case.label("variable site outside the environment")
        else:
            require(False, "a variable site outside the local environment is accepted", site=outside[0], local=local)

    if spec["counts"] == "sum":
        try:
            call()
        except ValueError:
            case.label("impossible composition")
            return
        require(False, "a composition that cannot fit the variable sites is accepted", counts=counts, sites=sites)
    got = call()
    seen = []
    for r in got:
        states = [c.state(x) for x in r.full_occupation]
        require(len(states) == len(c.active), "length of the occupation")
        seen.append(tuple(states))
        require(sorted(r.local_site_indices) == sorted(local), "sites of the local environment",
                got=sorted(r.local_site_indices), want=sorted(local), cutoff=cutoff)
        require(sorted(r.variable_site_indices) == sorted(sites), "variable sites", got=r.variable_site_indices,
                want=sites)
        require([c.state(x) for x in r.local_occupation] == [states[s] for s in r.local_site_indices],
                "local occupation")
        labels = {s: c.allowed[s][states[s]] for s in sites}
        require({int(k): v for k, v in r.species_by_site.items()} == labels, "species by site",
                got=r.species_by_site, want=labels)
        require(atoms_of(r.structure) == c.species(states), "structure of an environment",
                got=atoms_of(r.structure), want=c.species(states))
    expected = [w[0] for w in want]
    twice = [s for s, k in Counter(seen).items() if k > 1]
    require(not twice, "an environment is listed twice", states=twice[:2], sites=sites, local=local)
    extra = [s for s in seen if s not in set(expected)]
    require(not extra, "an environment violates the constraints", states=extra[:2], base=base, sites=sites)
    if spec["limit"]:
        require(len(seen) == min(spec["limit"], len(expected)), "number of environments", got=len(seen),
                want=min(spec["limit"], len(expected)))
    else:
        missing = sorted(set(expected) - set(seen))
        require(not missing, "an environment is missing", states=missing[:2], sites=sites, base=base)
    require(len({r.label for r in got}) == len(got), "two environments share a label")
    case.nontrivial(len(expected) >= 3)
    case.label("periodic images", len(set(local)) < len(local))
    case.label("composition", counts is not None)
    case.label("none", not expected)

    if spec["transform"] and all(any(x != "X" for x in options(s)) for s in sites):
        # the same results through a (pymatgen-style) transformation object that supplies the orderings
        from pymatgen.core import Lattice, Structure
        full = list(itertools.product(*[options(s) for s in sites]))[:12]
        entries, states_of = [], []
        for labels in full:
            states = list(base)
            for s, x in zip(sites, labels):
                states[s] = c.allowed[s].index(x)
            atoms = [(c.allowed[k][states[k]], c.frac[k]) for k in range(len(states)) if c.allowed[k][states[k]] != "X"]
            atoms.reverse()
            if not atoms:
                continue
            made = Structure(Lattice(c.matrix), [a[0] for a in atoms], [a[1] for a in atoms])
            if spec["entries"] == "dict":
                made = {"structure": made, "energy": float(len(entries)), "tag": ["x", len(entries)]}
            entries.append(made)
            if spec["entries"] == "one" and len(entries) > 1:
                break
            if counts is None or dict(Counter(labels)) == {k: v for k, v in counts.items() if v}:
                states_of.append((tuple(states), len(entries) - 1))
        if any(len(a) == 2 and "X" not in a for a in c.allowed) or not entries:
            return
        chosen = Chosen(entries[0] if spec["entries"] == "one" else entries)
        got = call(transformation=chosen, **({} if spec["ranked"] is None else {"return_ranked_list": spec["ranked"]}))
        if spec["ranked"] is False or type(spec["ranked"]) is int:
            require(chosen.ranked is spec["ranked"] or chosen.ranked == spec["ranked"],
                    "ranked list asked of the transformation", got=chosen.ranked, want=spec["ranked"])
        # what the transformation was asked to order: variable sites share their choices, the rest is the base
        asked = sorted([(tuple(np.round(np.array(s.frac_coords) % 1.0, 5) % 1.0),
                        {str(getattr(e, "symbol", e)): round(float(x), 6) for e, x in s.species.items()})
                        for s in chosen.given], key=lambda t: t[0]) if chosen.given is not None else None
        wanted = []
        for k in range(len(base)):
            place = tuple(np.round(c.frac[k] % 1.0, 5) % 1.0)
            if k in sites:
                real = [x for x in options(k) if x != "X"]
                wanted.append((place, {x: round(1.0 / len(options(k)), 6) for x in real}))
            elif c.allowed[k][base[k]] != "X":
                wanted.append((place, {c.allowed[k][base[k]]: 1.0}))
        require(asked == sorted(wanted, key=lambda t: t[0]), "structure handed to the transformation", got=asked,
                want=wanted)
        limit = kwargs.get("max_results")
        states_of = states_of[:limit] if limit else states_of
        require([tuple(c.state(x) for x in r.full_occupation) for r in got] == [s for s, _ in states_of],
                "environments supplied by a transformation", got=[list(r.full_occupation) for r in got],
                want=states_of)
        for r, (states, at) in zip(got, states_of):
            require(atoms_of(r.structure) == c.species(states), "structure of a transformed environment")
            if spec["entries"] == "dict":
                require(r.metadata.get("energy") == float(at) and r.metadata.get("tag") == ["x", at],
                        "metadata of a transformed environment", got=r.metadata, at=at)
        case.label("transformation")


@st.composite
def hops(draw):
    spec = draw(cells(lo=2, hi=7))
    # the first hop sites must list the mobile ion first (documented); other orders must be refused
    spec["first"] = draw(st.sampled_from([True, True, True, False]))
    if spec["first"]:
        for row in spec["mapping"]:
            if spec["mobile"] in row[1] and len(row[1]) > 1:
                row[1].remove(spec["mobile"])
                row[1].insert(0, spec["mobile"])
    spec["pair"] = [draw(st.integers(0, 50)), draw(st.integers(0, 50))]
    spec["as"] = draw(st.sampled_from(["list", "occupation", "enumeration", "all pairs"]))
    spec["event"] = draw(st.booleans())
    spec["steer"] = draw(st.sampled_from([True, True, False]))
    return spec


def possible(c, i, j):
    a, b = c.allowed[i], c.allowed[j]
    return i != j and a[0] == b[0] != "X" and "X" in a and "X" in b


def check_pairs(spec, case):
    from kmcpy.event import Event
    from kmcpy.structure import (enumerate_local_environments, enumerate_neb_endpoint_pairs,
                                 generate_neb_endpoint_pair)
    from kmcpy.structure.basis import Occupation

    c = Cell(spec)
    n = len(c.active)
    assume(n >= 2)
    i, j = spec["pair"][0] % n, spec["pair"][1] % n
    if spec["steer"]:
        good = [(a, b) for a in range(n) for b in range(n) if possible(c, a, b)]
        if good:
            i, j = good[(spec["pair"][0] + 51 * spec["pair"][1]) % len(good)]
    states = [x % len(a) for x, a in zip(spec["states"], c.allowed)]
    codes = [c.code(s) for s in states]
    hop = (i, j)
    if spec["event"] and i != j:
        hop = Event(mobile_ion_indices=(i, j), local_env_indices=())
    valid = possible(c, i, j)
    environment = codes
    many = None
    if spec["as"] == "occupation":
        environment = Occupation(np.array(codes), basis=c.lattice.basis, validate=True)
    elif spec["as"] in ("enumeration", "all pairs"):
        base = c.structure(states, 0)
        assume(len(base))
        at = j if sum(spec["states"]) % 2 and spec["as"] == "all pairs" else i  # where the environment is centred
        near = min(d for d, k in c.rows(at) if d > 1e-3)
        sites = [s for s in range(n) if s not in (i, j)][:2]
        reach = {s: min(d for d, k in c.rows(at) if k == s) for s in sites}
        cutoff = max(list(reach.values()) + [near]) + 0.01
        kw = dict(cutoff=cutoff, variable_site_indices=sites, base_structure=base)
        envs = enumerate_local_environments(c.lattice, at, **kw)
        environment = envs[spec["pair"][1] % len(envs)]
        states = [c.state(x) for x in environment.full_occupation]
        if spec["as"] == "all pairs":
            many = (envs, kw if at == i else dict(kw, center=at))
    def go():
        if many:
            return enumerate_neb_endpoint_pairs(c.lattice, hop, **many[1])
        return [generate_neb_endpoint_pair(c.lattice, environment, hop)]

    if not valid:
        try:
            pairs = go()
        except (ValueError, IndexError):
            case.label("refused")
            return
        require(False, "an impossible hop gives an endpoint pair", hop=(i, j), allowed=[c.allowed[i], c.allowed[j]],
                initial=[c.state(x) for x in pairs[0].initial_occupation] if pairs else None)
    pairs = go()
    wanted = [[c.state(x) for x in e.full_occupation] for e in many[0]] if many else [states]
    require(len(pairs) == len(wanted), "number of endpoint pairs", got=len(pairs), want=len(wanted))
    for k, (pair, states) in enumerate(zip(pairs, wanted)):
        judge(c, pair, states, i, j)
        require(tuple(pair.metadata.get("mobile_ion_indices", ())) == (i, j), "hop in the metadata of a pair",
                got=str(pair.metadata))
        if many:
            e, m = many[0][k], pair.metadata
            require(m.get("local_environment_index") == k and m.get("local_environment_label") == e.label
                    and tuple(m.get("local_site_indices", ())) == tuple(e.local_site_indices)
                    and tuple(m.get("variable_site_indices", ())) == tuple(e.variable_site_indices)
                    and m.get("species_by_site") == e.species_by_site,
                    "metadata of a pair names another environment", at=k, got=str(m))
    if not many and not isinstance(environment, (list, Occupation)):
        require([c.state(x) for x in environment.full_occupation] == wanted[0], "the environment was changed")
    case.nontrivial(sum(1 for k, s in enumerate(states) if k not in (i, j) and c.allowed[k][s] != "X") >= 1 or n == 2)
    case.label("as:" + spec["as"])
    case.label("three states", len(c.allowed[i]) > 2)


def judge(c, pair, states, i, j):
    mob = [a.index(c.allowed[i][0]) if c.allowed[i][0] in a else None for a in c.allowed]
    vac = [a.index("X") if "X" in a else None for a in c.allowed]
    start, end = list(states), list(states)
    start[i], start[j] = mob[i], vac[j]
    end[i], end[j] = vac[i], mob[j]
    require([c.state(x) for x in pair.initial_occupation] == start, "occupation of the initial endpoint",
            got=[c.state(x) for x in pair.initial_occupation], want=start)
    require([c.state(x) for x in pair.final_occupation] == end, "occupation of the final endpoint",
            got=[c.state(x) for x in pair.final_occupation], want=end)
    require(tuple(pair.mobile_ion_indices) == (i, j), "endpoints named by the pair")
    require(atoms_of(pair.initial) == c.species(start), "initial structure", got=atoms_of(pair.initial),
            want=c.species(start))
    require(atoms_of(pair.final) == c.species(end), "final structure", got=atoms_of(pair.final), want=c.species(end))
    moved = []
    for k, (a, b) in enumerate(zip(pair.initial, pair.final)):
        require(a.specie == b.specie, "the two endpoints list their atoms in different orders", at=k)
        d = np.array(a.frac_coords) - np.array(b.frac_coords)
        if np.abs(d - np.round(d)).max() > 1e-6:
            moved.append((a, b))
    require(len(moved) == 1, "number of atoms that differ between the endpoints", got=len(moved))
    a, b = moved[0]
    for site, k in ((a, i), (b, j)):
        d = np.array(site.frac_coords) - c.frac[k]
        require(np.abs(d - np.round(d)).max() < 1e-5, "the moving ion is not at the endpoints of the hop")


SUBS = [
    Sub("enumeration", enumerations, check_enumeration, quick=700, thorough=8000, budget=90),
    Sub("endpoints", hops, check_pairs, quick=500, thorough=8000, budget=60),
]
