"""C09: local environments, clusters, orbits and cluster-expansion energies."""
import itertools

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
import worlds as W
from harness import Sub, require

ID = "C09"
RULE = ("primitive cells of 1-4 sites (binary, ternary and fixed) in orthogonal to triclinic lattices, a centre on "
        "an active site or at an abstract point, spheres of 1-6 sites, three cluster cutoffs placed between "
        "distances, random coefficients, states and events; non-trivial when the model has a pair or larger "
        "cluster and at least two features")
ASSUMPTIONS = ["local environments whose distances differ by less than the documented matching tolerance times "
               "ten, without coinciding, are not generated (the grouping is ambiguous there)",
               "site orders sort by species first, as both built-in orders do"]


@st.composite
def cases(draw, max_env=6, max_prim=4):
    spec = draw(L.local_envs(max_env=max_env, max_prim=max_prim))
    spec["keci"] = draw(st.lists(st.integers(-300, 300), min_size=1, max_size=12))
    spec["const"] = draw(st.integers(-500, 500))
    spec["pick"] = draw(st.lists(st.integers(0, 40), min_size=8, max_size=16))
    spec["states"] = draw(st.lists(st.lists(st.integers(0, 5), min_size=6, max_size=12), min_size=2, max_size=4))
    return spec


def prepare(spec):
    env = L.LocalEnv(spec)
    assume(env.cutoff is not None)
    return env


def check_environment(spec, case):
    env = prepare(spec)
    template = env.template()
    before = template.as_dict()
    lls = env.build()
    require(template.as_dict() == before, "building the local environment changed the template structure")
    got = []
    for site, index in zip(lls.structure, lls.site_indices):
        got.append((int(index), tuple(np.round(np.array(site.coords) + 0.0, 4))))
    want = [(k, tuple(np.round(np.array(rel) + 0.0, 4))) for _, k, rel in env.sites]
    require(len(got) == len(want), "number of sites in the local environment", got=len(got), want=len(want),
            cutoff=env.cutoff)
    left = list(want)
    for k, xyz in got:
        hit = [w for w in left if w[0] == k and np.allclose(w[1], xyz, atol=2e-3)]
        require(hit, "a listed site is not a site within the cutoff", site=k, at=list(xyz))
        left.remove(hit[0])
    for site, index in zip(lls.structure, lls.site_indices):
        require(site.species_string == env.element(int(index)), "element of a listed site")
    # documented order
    species = [s.species_string for s in lls.structure]
    groups = [k for k, _ in itertools.groupby(species)]
    require(len(groups) == len(set(groups)), "sites are not grouped by species", got=species)
    order = spec["order"]
    if order in (None, "kmcpy_default"):
        require(species == sorted(species), "sites are not sorted by species name", got=species)
    else:
        axis = 0 if order == "nasicon_nat_commun_2022" else 1 if order["name"] == "wide" else 2
        for name in groups:
            run = [s.coords[axis] for s in lls.structure if s.species_string == name]
            require(all(b >= a - 1e-5 for a, b in zip(run, run[1:])),
                    "sites of one species are not sorted by the coordinate of the order", got=run)
    from kmcpy.structure import LatticeStructure
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

    # the same environment taken out of a lattice, with the lattice's mapping or a given one
    c = spec["center"]
    basis = spec.get("basis", "chebyshev")
    lattice = LatticeStructure(env.template(), env.mapping, basis_type=basis)
    for extra in ({}, {"site_mapping": env.mapping}):
        other = LocalLatticeStructure.from_lattice_structure(
            lattice, c if isinstance(c, int) else list(c), env.cutoff, basis_type=basis,
            local_site_order=spec["order"], exclude_center_site=spec["exclude"], **extra)
        require(list(other.site_indices) == list(lls.site_indices)
                and other.get_ordered_site_hash() == lls.get_ordered_site_hash()
                and [list(a) for a in other.allowed_species] == [list(a) for a in lls.allowed_species]
                and type(other.basis) is type(lls.basis), "environment taken out of a lattice",
                got=list(other.site_indices), want=list(lls.site_indices))
    case.nontrivial(len(got) >= 2)
    case.label("images of the centre", isinstance(spec["center"], int) and any(
        env.active[k] == spec["center"] for _, k, _ in env.sites))
    case.label("abstract centre", not isinstance(spec["center"], int))
    case.label("site next to the centre removed", L.excludes_center(spec) and L.center_tolerance(spec) > 0.1)


def build_model(env, lls, cuts):
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

    model = LocalClusterExpansion()
    model.build(lls, cutoff_cluster=list(cuts))
    return model


def event_and_occupation(spec, env, counts, indices, states):
    """An event in the supercell whose environment sites are of the right kind, plus occupations there."""
    from kmcpy.event import Event

    cells = int(np.prod(spec["shape"]))
    n = len(env.active) * cells
    kinds = [k for k in range(len(env.active)) for _ in range(cells)]
    local = []
    for pos, k in enumerate(indices):
        pool = [s for s in range(n) if kinds[s] == k]
        local.append(pool[spec["pick"][pos % len(spec["pick"])] % len(pool)])
    occ = [states[s % len(states)] % len(env.allowed(kinds[s])) for s in range(n)]
    other = [s for s in range(n) if s not in local]
    pair = (0, n - 1) if n > 1 else (0, 0)
    return Event(mobile_ion_indices=pair, local_env_indices=tuple(local)), occ, local, other, kinds


def check_energy(spec, case):
    from kmcpy.simulator.state import State

    env = prepare(spec)
    lls = env.build()
    require(len(lls.structure) == len(env.sites), "number of sites in the local environment")
    geo = L.Geometry([s.species_string for s in lls.structure], [s.coords for s in lls.structure])
    assume(not geo.ambiguous())
    cuts = [geo.cutoff(r) for r in spec["cuts"]]
    model = build_model(env, lls, cuts)

    # clusters and their grouping
    want = {frozenset(g) for g in map(tuple, geo.orbits(cuts))}
    real = [tuple(tuple(sorted(int(i) for i in c.site_indices)) for c in o.clusters) for o in model.orbits]
    got = {frozenset(o) for o in real}
    require(set().union(*got) == set().union(*want) if got and want else got == want,
            "clusters of the expansion", extra=sorted(set().union(*got) - set().union(*want))[:4] if got else None,
            missing=sorted(set().union(*want) - set().union(*got))[:4] if want else None, cutoffs=cuts)
    require(got == want, "grouping of clusters into orbits", got=sorted(map(sorted, got)),
            want=sorted(map(sorted, want)))
    require(len(real) == len(want) and sum(len(o) for o in real) == len(geo.clusters(cuts)),
            "a cluster is listed twice")
    for o, clusters in zip(model.orbits, real):
        require(int(o.multiplicity) == len(clusters), "multiplicity of an orbit")
    require(len(set(model.get_orbit_fingerprints())) == len(model.get_orbit_fingerprints()),
            "two features share a fingerprint")

    # energies
    indices = [int(i) for i in lls.site_indices]
    counts = [len(env.allowed(k)) for k in indices]
    feats = L.features([[tuple(int(i) for i in c.site_indices) for c in o.clusters] for o in model.orbits], counts)
    names = model.get_orbit_fingerprints()
    require(len(names) == len(feats), "number of correlation features", got=len(names), want=len(feats))
    keci = [spec["keci"][k % len(spec["keci"])] / (1 + k % 3) for k in range(len(feats))]
    const = spec["const"] / 3
    model.set_parameters({"keci": keci, "empty_cluster": const, "orbit_fingerprints": names,
                          "local_environment_hash": model.local_environment_hash})
    for states in spec["states"]:
        event, occ, local, other, kinds = event_and_occupation(spec, env, counts, indices, states)
        value = model.compute(simulation_state=State(occupations=list(occ)), event=event)
        corr = L.correlations(feats, counts, [occ[s] for s in local], spec)
        ref = const + float(np.dot(corr, keci))
        scale = 1 + float(np.sum(np.abs(corr) * np.abs(keci)))
        require(abs(value - ref) < 1e-9 * scale, "value differs from the explicit cluster sum", got=float(value),
                want=ref)
        raw = [float(1 + (3 * s + states[s % len(states)]) % 4) for s in range(len(indices))]
        for o, clusters in zip(model.orbits, real):
            mean = sum(np.prod([raw[i] for i in c]) for c in clusters) / len(clusters)
            require(abs(o.get_cluster_function(raw) - mean) < 1e-9 * (1 + mean), "orbit average of the cluster function",
                    got=float(o.get_cluster_function(raw)), want=mean)
        changed = list(occ)
        for s in other:
            changed[s] = (changed[s] + 1) % len(env.allowed(kinds[s]))
        again = model.compute(simulation_state=State(occupations=changed), event=event)
        require(again == value, "value depends on a site outside the local environment", before=float(value),
                after=float(again))
    case.nontrivial(len(feats) >= 2 and any(len(o[0]) > 1 for o in real))
    case.label("basis:" + spec.get("basis", "chebyshev"))
    case.label("quadruplets", any(len(o[0]) == 4 for o in real))
    case.label("multicomponent", any(c > 2 for c in counts))
    case.label("orbit with several clusters", any(len(o) > 1 and len(o[0]) > 1 for o in real))

    # correlation of a decorated structure
    for states in spec["states"][:2]:
        prim = [states[k % len(states)] % len(env.allowed(k)) for k in range(len(env.active))]
        structure = decorated(spec, env, prim, states)
        occ, corr = model.get_occ_corr_from_structure(structure)
        require([int(x) for x in occ] == L.codes(prim, spec), "occupation read from a structure",
                got=[int(x) for x in occ], want=L.codes(prim, spec))
        ref = L.correlations(feats, counts, [prim[k] for k in indices], spec)
        require(len(corr) == len(ref) and np.allclose(corr, ref, rtol=1e-9, atol=1e-9),
                "correlation vector of a structure", got=list(map(float, corr))[:8], want=list(map(float, ref))[:8])
        only = model.get_corr_from_structure(structure)
        require(np.array_equal(only, corr), "get_corr_from_structure differs from get_occ_corr_from_structure")


def decorated(spec, env, prim, states):
    """The primitive cell with the given states; the atoms come in a generated order."""
    from pymatgen.core import Structure

    atoms = []
    for i, (el, frac) in enumerate(spec["sites"]):
        label = el
        if i in env.active:
            k = env.active.index(i)
            label = env.allowed(k)[prim[k]]
        if label not in W.VACANCY_WORDS:
            atoms.append((label, frac))
    if states[0] % 2 == 0:
        atoms.sort(key=lambda a: (a[0], a[1]))
    return Structure(env.template().lattice, [a[0] for a in atoms], [a[1] for a in atoms])


SUBS = [
    Sub("environment", lambda: cases(max_env=20, max_prim=8), check_environment, quick=120, thorough=3000),
    Sub("energy", cases, check_energy, quick=220, thorough=2500, budget=100),
]
