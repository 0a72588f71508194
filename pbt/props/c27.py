"""C27: training data hold one faithful row per migration structure."""
import json
import os
import random

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
import worlds as W
from harness import Sub, require
from props.c09 import build_model, cases as lce_cases, prepare

ID = "C27"
TECHNIQUE = "stateful property-based testing: generated histories of a data loader against a list of reference rows"
RULE = ("Cases are cluster expansions of generated local environments with histories of up to 9 operations on a data "
        "loader: structures added in memory or from files, with shuffled, shifted, charged and slightly displaced "
        "atoms, structures and calls that have to be refused (foreign species, doubled or stray atom, other lattice, "
        "supercell, model or reference environment of another size, lists of different lengths), and reading or writing the "
        "data in between; the model is the built one or one read from its file with the reference environment given. Non-trivial: at least two different rows and one refusal.")
BAD = ["foreign", "double", "stray", "far", "lattice", "supercell", "model", "length", "entry", "weights", "reference",
       "no reference"]


@st.composite
def histories(draw):
    spec = draw(lce_cases())
    spec["ops"] = [[draw(st.sampled_from(["add", "add", "add", "many", "bad", "bad", "read", "write", "save", "again"])),
                    draw(st.integers(0, 10**6)), draw(st.sampled_from(BAD))]
                   for _ in range(draw(st.integers(3, 9)))]
    return spec


class World:
    def __init__(self, spec):
        self.spec = spec
        self.env = prepare(spec)
        self.lls = self.env.build()
        geo = L.Geometry([s.species_string for s in self.lls.structure], [s.coords for s in self.lls.structure])
        assume(not geo.ambiguous())
        self.model = build_model(self.env, self.lls, [geo.cutoff(r) for r in spec["cuts"]])
        self.indices = [int(i) for i in self.lls.site_indices]
        self.counts = [len(self.env.allowed(k)) for k in self.indices]
        self.feats = L.features([[tuple(int(i) for i in c.site_indices) for c in o.clusters]
                                 for o in self.model.orbits], self.counts)
        assume(self.feats)

    def atoms(self, rng):
        """States of the active sites, the atoms [label, frac, active index] in some order."""
        env = self.env
        prim = [rng.randrange(len(env.allowed(k))) for k in range(len(env.active))]
        atoms = []
        for i, (el, frac) in enumerate(self.spec["sites"]):
            k = env.active.index(i) if i in env.active else None
            label = el if k is None else env.allowed(k)[prim[k]]
            if label not in W.VACANCY_WORDS:
                atoms.append([label, np.array(frac, float), k])
        if rng.random() < .5:
            rng.shuffle(atoms)
        return prim, atoms

    def structure(self, atoms, rng, plain=False):
        from pymatgen.core import Structure

        charge = "+" if not plain and rng.random() < .3 else ""
        images = not plain and rng.random() < .4
        wiggle = 0.004 if not plain and rng.random() < .4 else 0.0
        rows = []
        for label, f, _ in atoms:
            step = np.array([rng.uniform(-1, 1) for _ in range(3)]) * wiggle
            shift = np.array([rng.randint(-1, 1) for _ in range(3)]) if images else 0
            rows.append((label + charge, f + shift + step @ np.linalg.inv(self.env.matrix)))
        return Structure(self.env.template().lattice, [r[0] for r in rows], [r[1] for r in rows])

    def row(self, prim):
        return L.correlations(self.feats, self.counts, [prim[k] for k in self.indices], self.spec)


def refused(what, call, **more):
    try:
        call()
    except (ValueError, TypeError):
        return
    require(False, "accepted: " + what, **more)


def check_history(spec, case):
    from kmcpy.io.neb import NEBDataLoader, NEBEntry
    from pymatgen.core import Structure

    w = World(spec)
    folder = case.tmp()
    given = spec["ops"][0][1] % 4
    always = {}
    if given == 0:
        loader, use = NEBDataLoader(), {"model": w.model}
    elif given == 1:
        loader, use = NEBDataLoader(model=w.model), {}
    else:  # a model read from its file, with the reference environment given separately
        w.model.to(folder + "/model.json")
        w.model = type(w.model).from_file(folder + "/model.json")
        reference = {"reference_local_lattice_structure": w.lls}
        if given == 2:
            loader, use = NEBDataLoader(model=w.model, **reference), {}
        else:
            loader, use, always = NEBDataLoader(model=w.model), {}, reference
    direct = {"reference_local_lattice_structure": w.lls} if given > 1 else {}
    rows = []  # the reference: states, value, metadata
    for getter in ("get_correlation_matrix", "get_occupation_matrix", "get_properties"):
        refused("reading an empty data set", getattr(loader, getter))
    refused("saving an empty data set", lambda: loader.to(folder + "/empty"))
    refused("writing an empty data set", lambda: loader.write_fitting_inputs(folder + "/empty"))
    n_bad = 0

    def add(rng, tag):
        prim, atoms = w.atoms(rng)
        if not atoms:
            return
        s = w.structure(atoms, rng)
        before = s.as_dict()
        value = rng.choice([rng.uniform(-900, 900), rng.randint(-5, 900), 1e-9, 123456.789012345])
        meta = rng.choice([None, {"tag": tag, "of": ["neb", tag]}])
        route = rng.choice(["file", "structure", "entry"])
        if route == "file":
            path = f"{folder}/{tag}.json"
            s.to(filename=path)
            got = loader.add_structure(rng.choice([str, lambda p: p])(path), value, metadata=meta, **use, **always)
            meta = dict(meta or {}, structure_file=path)
        elif route == "structure":
            got = loader.add_structure(s, value, metadata=meta, **use, **always)
        else:
            got = NEBEntry.from_structure(s, value, metadata=meta)
            loader.add(got, **use, **always)
        use.clear()  # the loader keeps the model from now on
        rows.append((prim, float(value), dict(meta or {})))
        require(s.as_dict() == before, "adding a structure changed it")
        require(got.property_value == float(value) and np.allclose(got.correlation, w.row(prim), rtol=1e-9, atol=1e-9),
                "entry of an added structure", got=list(map(float, got.correlation))[:6])
        occ, corr = w.model.get_occ_corr_from_structure(s, **direct)
        require([int(x) for x in occ] == L.codes(prim, spec) and np.array_equal(corr, got.correlation),
                "row of a structure taken directly from the model")

    def many(rng, tag):
        batch, values, metas, states = [], [], [], []
        for k in range(rng.randint(1, 3)):
            prim, atoms = w.atoms(rng)
            if atoms:
                batch.append(w.structure(atoms, rng))
                values.append(rng.uniform(-9, 9))
                metas.append({"batch": [tag, k]})
                states.append(prim)
        if not batch:
            return
        loader.add_structures(batch, values, metadata=metas, **use, **always)
        use.clear()
        rows.extend(zip(states, values, metas))

    def bad(rng, kind, tag):
        nonlocal n_bad
        prim, atoms = w.atoms(rng)
        movable = [a for a in atoms if a[2] is not None]
        if not movable:
            return
        s = None
        call = None
        if kind == "foreign":
            rng.choice(movable)[0] = "Ne"
        elif kind == "double":
            pick = rng.choice(movable)
            atoms.append([pick[0], pick[1] + 1e-4, pick[2]])
        elif kind == "stray":
            for _ in range(100):
                f = np.array([rng.random() for _ in range(3)])
                d = np.array([x for _, x in spec["sites"]], float) - f
                d -= np.round(d)
                if np.linalg.norm(d @ w.env.matrix, axis=1).min() > 0.4 and np.linalg.norm(d, axis=1).min() > 0.06:
                    atoms.append([movable[0][0], f, None])
                    break
            else:
                return
        elif kind == "far":
            rng.choice(movable)[1][rng.randrange(3)] += 0.06
        elif kind == "lattice":
            s = w.structure(atoms, rng, plain=True)
            s.apply_strain([0.0, 0.0, rng.choice([0.08, -0.08])])
        elif kind == "supercell":
            s = w.structure(atoms, rng, plain=True)
            s.make_supercell(rng.choice([[2, 1, 1], [1, 2, 1], [1, 1, 3]]))
            for k in sorted(rng.sample(range(len(s)), rng.randint(0, len(s) - 1)), reverse=True):
                s.remove_sites([k])
        elif kind == "model":
            other = build_model(w.env, w.lls, [100.0, 0.0, 0.0] if len(w.feats) > len(w.counts) else [100.0, 100.0, 0.0])
            if not rows or len(other.get_orbit_fingerprints()) == len(w.feats):
                return
            good = w.structure(atoms, rng)
            entry = rng.choice(loader.neb_entries)
            call = rng.choice([lambda: loader.add_structure(good, 1.0, model=other, **always),
                               lambda: loader.add(entry, model=other, **always)])
        elif kind == "length":
            good = w.structure(atoms, rng)
            call = rng.choice([lambda: loader.add_structures([good, good], [1.0], **use, **always),
                               lambda: loader.add_structures([good], [1.0, 2.0], **use, **always),
                               lambda: loader.add_structures([good], [1.0], metadata=[{}, {}], **use, **always)])
        elif kind == "entry":
            good = w.structure(atoms, rng)
            call = rng.choice([lambda: loader.add(good, **use, **always),
                               lambda: loader.add({"structure": good}, **use, **always)])
        elif kind == "reference":  # an environment with another number of sites
            from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

            good = w.structure(atoms, rng)
            c = rng.choice(w.env.active)
            try:
                other = LocalLatticeStructure(
                    w.env.template(), c, w.env.cutoff * rng.choice([0.8, 1.0, 1.25]), site_mapping=w.env.mapping,
                    basis_type=spec.get("basis", "chebyshev"), local_site_order=spec["order"],
                    exclude_center_site=rng.random() < .5)
            except ValueError:  # no site at all
                return
            if len(other.site_indices) == len(w.indices):
                return
            call = lambda: loader.add_structure(good, 1.0, reference_local_lattice_structure=other, **use)
        elif kind == "no reference":
            if given < 2:
                return
            good = w.structure(atoms, rng)
            call = lambda: NEBDataLoader(model=w.model).add_structure(good, 1.0)
        elif kind == "weights":
            if not rows:
                return
            call = lambda: loader.write_fitting_inputs(folder + "/no", weight=[1.0] * (len(rows) + rng.choice([-1, 1])))
        if call is None:
            if s is None:
                s = w.structure(atoms, rng, plain=True)
            call = lambda: loader.add_structure(s, 5.0, **use, **always)
        refused(kind, call, atoms=[[a[0], list(map(float, a[1]))] for a in atoms][:6])
        n_bad += 1
        case.label("refused " + kind)

    def again(rng):
        """Entries of this data set used with another model as well, in a data set of its own."""
        other = build_model(w.env, w.lls, rng.choice([[100.0, 0.0, 0.0], [100.0, 100.0, 0.0], [0.0, 0.0, 0.0]]))
        feats = L.features([[tuple(int(i) for i in c.site_indices) for c in o.clusters] for o in other.orbits], w.counts)
        if not feats:
            return
        second = NEBDataLoader(model=other)
        picks = [rng.randrange(len(rows)) for _ in range(rng.randint(1, 3))]
        for k in picks:
            second.add(loader.neb_entries[k])
        want = np.array([L.correlations(feats, w.counts, [rows[k][0][x] for x in w.indices], spec) for k in picks])
        got = second.get_correlation_matrix()
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9),
                "rows of entries used with a second model", got=got.tolist()[:2], want=want.tolist()[:2])
        case.label("second data set")

    def verify():
        require(len(loader) == len(rows), "number of entries", got=len(loader), want=len(rows))
        if not rows:
            return
        want = np.array([w.row(p) for p, _, _ in rows])
        x = loader.get_correlation_matrix()
        require(x.shape == want.shape and np.allclose(x, want, rtol=1e-9, atol=1e-9), "correlation matrix")
        occ = loader.get_occupation_matrix()
        require([list(map(int, r)) for r in occ] == [L.codes(p, spec) for p, _, _ in rows], "occupation matrix")
        y = loader.get_properties()
        require(y.tolist() == [v for _, v, _ in rows], "values of the entries", got=y.tolist())
        require([e.metadata or {} for e in loader.neb_entries] == [m for _, _, m in rows], "metadata of the entries")
        return x, occ, y

    for n, (kind, seed, defect) in enumerate(spec["ops"]):
        rng = random.Random(seed)
        if kind == "add":
            add(rng, f"s{n}")
        elif kind == "many":
            many(rng, f"b{n}")
        elif kind == "bad":
            bad(rng, defect, f"x{n}")
        elif rows:
            x, occ, y = verify()
            if kind == "again":
                again(rng)
            if kind == "read":
                for a in (x, occ, y):  # what was handed out is the caller's
                    a[...] = 7
            elif kind == "save":
                path = loader.to(f"{folder}/d{n}", prefix="mine")
                require(os.path.samefile(path, f"{folder}/d{n}/mine.json"), "name of the data file", got=path)
                with open(path) as fh:
                    saved = json.load(fh)
                require(saved["correlation_matrix"] == x.tolist() and saved["occupation_matrix"] == occ.tolist()
                        and saved["properties"] == y.tolist() and saved["n_structures"] == len(rows)
                        and saved["metadata"] == [m for _, _, m in rows]
                        and saved["model_name"] == w.model.name, "saved training data",
                        got={k: saved[k] for k in ("n_structures", "model_name", "metadata")})
            elif kind == "write":
                weight = rng.choice([1.0, 3, [rng.uniform(0, 2) for _ in rows]])
                names = loader.write_fitting_inputs(f"{folder}/d{n}/deep", weight=weight, **rng.choice(
                    [{}, {"corr_fname": "c", "ekra_fname": "e", "weight_fname": "w"}]))
                back = {k: np.loadtxt(v, ndmin=2 if k == "corr_fname" else 1) for k, v in names.items()}
                require(np.array_equal(back["corr_fname"].reshape(x.shape), x), "correlation file")
                require(back["ekra_fname"].tolist() == y.tolist(), "energy file", got=back["ekra_fname"].tolist())
                require(back["weight_fname"].tolist() == (list(weight) if isinstance(weight, list)
                                                          else [float(weight)] * len(rows)), "weight file",
                        got=back["weight_fname"].tolist(), want=weight)
                case.label("written")
        verify()
    case.nontrivial(n_bad > 0 and len({tuple(p) for p, _, _ in rows}) > 1)
    case.label("rows", len(rows) > 0)


def check_enumerated(spec, case):
    """Environments enumerated around the model's centre are rows of that model, site for site."""
    from kmcpy.io.neb import NEBDataLoader
    from kmcpy.structure import LatticeStructure, enumerate_local_environments

    w = World(spec)
    env = w.env
    rng = random.Random(spec["ops"][0][1])
    lattice = LatticeStructure(env.template(), env.mapping, basis_type=spec.get("basis", "chebyshev"))
    prim, atoms = w.atoms(rng)
    c = spec["center"]
    kw = {}
    if atoms:
        kw["base_structure"] = w.structure(atoms, rng, plain=True)
    else:
        return
    pool = sorted(set(w.indices))
    sites = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
    envs = enumerate_local_environments(
        lattice, env.active.index(c) if isinstance(c, int) else list(c), cutoff=env.cutoff,
        variable_site_indices=sites, local_site_order=spec["order"], exclude_center_site=spec["exclude"], **kw)
    require(len(envs) == int(np.prod([len(env.allowed(k)) for k in sites])), "number of enumerated environments",
            got=len(envs))
    seen = set()
    for e in envs:
        require(list(e.local_site_indices) == w.indices, "sites of an enumerated environment are not the model's",
                got=list(e.local_site_indices), want=w.indices)
        codes = [int(x) for x in e.full_occupation]
        require([int(x) for x in e.local_occupation] == [codes[k] for k in w.indices],
                "local occupation of an enumerated environment")
        states = [1 - x for x in codes] if spec.get("basis") == "occupation" else codes
        require(all(states[k] == prim[k] for k in range(len(prim)) if k not in sites), "a fixed site was changed")
        seen.add(tuple(states))
        if len(e.structure):
            occ, corr = w.model.get_occ_corr_from_structure(e.structure)
            require([int(x) for x in occ] == codes and np.allclose(corr, w.row(states), rtol=1e-9, atol=1e-9),
                    "row of an enumerated environment", got=[int(x) for x in occ], want=codes)
    require(len(seen) == len(envs), "an environment was listed twice")
    full = [e for e in envs if len(e.structure)]
    if full:
        loader = NEBDataLoader.from_structures([e.structure for e in full], list(range(len(full))), model=w.model)
        require([list(map(int, r)) for r in loader.get_occupation_matrix()]
                == [[int(x) for x in e.full_occupation] for e in full], "data set of the enumerated environments")
    case.nontrivial(len(envs) > 1 and len(w.feats) > 1)
    case.label("image of the centre", isinstance(c, int) and env.active.index(c) in w.indices)


SUBS = [Sub("enumerated", histories, check_enumerated, quick=200, thorough=3000, budget=60),
        Sub("loader", histories, check_history, quick=400, thorough=4000, budget=100)]
