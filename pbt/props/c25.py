"""C25: mismatching inputs are refused, matching inputs accepted."""
import copy
import json
import os

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
import onfile
import worlds as W
from harness import Sub, require
from props.c08 import Setup, cases as composite_cases

ID = "C25"
RULE = ("Cases are complete input sets written to files (structure, events, model, occupations) in which one input is "
        "replaced by that of another site space, supercell, length or index range, with harmless changes as controls; "
        "and fitted coefficients moved between cluster expansions that differ in cutoffs, environment, species or "
        "order. Non-trivial: the replaced input is well-formed on its own (it would be accepted in its own set).")
TECHNIQUE = ("property-based testing: generated matching input sets with one well-formed mismatching part (must be "
             "refused) or a harmless change (must be accepted)")
ASSUMPTIONS = ["a different cell metric or different coordinates with the same sites, elements, allowed species and "
               "supercell is not a different site space (the index record does not contain coordinates)"]

ALTER = ["shape", "shape-perm", "mapping-order", "mapping-more", "mapping-fewer", "fixed-species", "extra-site",
         "fewer-sites", "swap-kinds"]
HARMLESS = ["none", "full-occupations", "unused-mapping", "state-file", "state-file-full", "site-positions",
            "mapping-key-order", "no-dependencies", "checkpoint"]
BROKEN = ["occ-short", "occ-long", "occ-empty", "state-short", "no-metadata", "index-high", "index-negative", "env-high",
          "no-mapping", "no-occupations", "checkpoint-long", "state-undefined", "state-undefined"]


@st.composite
def starts(draw):
    spec = draw(W.worlds(max_events=5, max_cells=4))
    return {"world": spec, "how": draw(st.sampled_from(
        ["alter", "alter", "alter", "harmless", "broken"])), "alter": draw(st.sampled_from(ALTER)),
        "harmless": draw(st.sampled_from(HARMLESS)), "broken": draw(st.sampled_from(BROKEN)),
        "side": draw(st.sampled_from(["config", "events"])), "pick": draw(st.integers(0, 5000)),
        "events": draw(st.booleans())}


def altered(spec, how, pick):
    """Another site space; events/occupations are made valid for it. None when the change is not possible."""
    out = copy.deepcopy(spec)
    table = dict((k, v) for k, v in out["mapping"])
    used = {s[0] for s in out["sites"]}
    rows = [r for r in out["mapping"] if len(r[1]) > 1 and r[0] in used]
    if how == "shape":
        out["shape"][pick % 3] += 1
    elif how == "shape-perm":
        out["shape"] = out["shape"][1:] + out["shape"][:1]
        if out["shape"] == spec["shape"]:
            return None
    elif how == "mapping-order":
        row = rows[pick % len(rows)]
        row[1] = row[1][1:] + row[1][:1]
    elif how == "mapping-more":
        row = rows[pick % len(rows)]
        row[1] = row[1] + ["Ar"]
    elif how == "mapping-fewer":
        row = rows[pick % len(rows)]
        row[1] = row[1][:-1]
        if not any(spec["mobile"] in r[1] and W.vacancy_code(r[1]) is not None for r in rows):
            return None
    elif how == "fixed-species":
        if "O" not in used:
            return None
        out["sites"] = [["S" if el == "O" else el, f] for el, f in out["sites"]]
        out["mapping"] = [["S", ["S"]] if k == "O" else [k, v] for k, v in out["mapping"]]
    elif how == "extra-site":
        out["sites"] = out["sites"] + [[out["sites"][pick % len(out["sites"])][0], [0.43, 0.12, 0.77]]]
    elif how == "fewer-sites":
        if len(out["sites"]) < 2:
            return None
        out["sites"].pop(pick % len(out["sites"]))
    elif how == "swap-kinds":
        # one site becomes a site of another kind that is present
        k = pick % len(out["sites"])
        others = sorted(e for e in table if e != out["sites"][k][0])
        if not others:
            return None
        out["sites"][k] = [others[pick % len(others)], out["sites"][k][1]]
    allowed = W.active_allowed(out)
    host = [s for s, a in enumerate(allowed) if out["mobile"] in a and W.vacancy_code(a) is not None]
    if len(host) < 2:
        return None
    n = len(allowed)
    events = []
    for i, j, env in out["events"]:
        a, b = host[i % len(host)], host[j % len(host)]
        if a == b:
            b = host[(host.index(a) + 1) % len(host)]
        events.append([a, b, sorted({e % n for e in env})])
    out["events"] = events
    out["occ"] = [(out["occ"][s % len(out["occ"])]) % len(allowed[s]) for s in range(n)]
    i, j, _ = events[0]
    out["occ"][i], out["occ"][j] = allowed[i].index(out["mobile"]), W.vacancy_code(allowed[j])
    out["rates"].update(blocked=[], gate=None)
    return out


def site_space(spec):
    table = dict((k, v) for k, v in spec["mapping"])
    loaded = onfile.as_loaded(spec)
    return json.dumps([[el, [W.World.norm(a) for a in table[el]]] for el, _ in loaded["sites"]] + [spec["shape"]])


def start(settings):
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC

    return KMC.from_config(Configuration(**settings))


def refused(settings, why, **info):
    try:
        start(settings)
    except Exception:  # noqa: BLE001 - any error is a refusal
        return
    require(False, "a simulation started from mismatching inputs: " + why, **info)


def check_start(spec, case):
    world = onfile.as_loaded(spec["world"])
    files = onfile.Files(world, case.tmp(), deps=not (spec["how"] == "harmless" and spec["harmless"] == "no-dependencies"))
    good = files.settings
    occ = list(world["occ"])
    table = dict((k, v) for k, v in world["mapping"])
    cells = int(np.prod(world["shape"]))
    full = []
    k = 0
    for el, _ in world["sites"]:
        if len(table[el]) > 1:
            full += occ[k:k + cells]
            k += cells
        else:
            full += [0] * cells
    if spec["how"] != "harmless":
        start(good)  # the unmodified set is fine
    if spec["how"] == "harmless":
        what = spec["harmless"]
        settings = dict(good)
        if what == "full-occupations":
            settings["initial_occupations"] = full
        elif what == "unused-mapping":
            settings["site_mapping"] = {**good["site_mapping"], "Au": ["Au", "X"], "Pt": "Pt"}
        elif what in ("state-file", "state-file-full"):
            settings["initial_occupations"] = None
            settings["initial_state_file"] = os.path.join(files.folder, "state.json")
            with open(settings["initial_state_file"], "w") as fh:
                json.dump({"occupation": occ if what == "state-file" else full}, fh)
        elif what == "checkpoint":
            from kmcpy.simulator.state import State
            settings["initial_occupations"] = None
            settings["initial_state_file"] = os.path.join(files.folder, "state.json")
            State(occ, time=0.5, step=3).save_checkpoint(settings["initial_state_file"])
        elif what == "site-positions":
            moved = dict(world, sites=[[el, [round(x + 0.001, 6) for x in f]] for el, f in world["sites"]])
            onfile.write_cif(moved, files.cif)
        elif what == "mapping-key-order":
            settings["site_mapping"] = dict(reversed(list(good["site_mapping"].items())))
        kmc = start(settings)
        require([int(x) for x in kmc.simulation_state.occupations] == occ, "the simulation starts from other occupations",
                got=list(kmc.simulation_state.occupations), want=occ, how=what)
        require(len(kmc.event_lib) == len(world["events"]), "events were lost")
        case.label("accepted: " + what)
        case.nontrivial()
        return
    if spec["how"] == "broken":
        what = spec["broken"]
        settings = dict(good)
        if what in ("occ-short", "occ-long", "occ-empty"):
            new = {"occ-short": occ[:-1], "occ-long": occ + [0] * (1 + spec["pick"] % 4), "occ-empty": []}[what]
            if len(new) in (len(occ), len(full)):
                return
            settings["initial_occupations"] = new
        elif what in ("state-short", "checkpoint-long"):
            settings["initial_occupations"] = None
            settings["initial_state_file"] = os.path.join(files.folder, "state.json")
            new = occ[:-1] if what == "state-short" else occ + [0]
            if len(new) in (len(occ), len(full)):
                return
            with open(settings["initial_state_file"], "w") as fh:
                json.dump({"occupation": new} if what == "state-short" else
                          {"occupations": new, "time": 0.0, "step": 0}, fh)
        elif what == "state-undefined":  # the right number of values, one of them no state of its site
            k = spec["pick"] % len(occ)
            actives = [n for n, (el, _) in enumerate(world["sites"]) if len(table[el]) > 1]
            q = len(table[world["sites"][actives[k // cells]][0]])
            value = [q, q + 3, -1, -2][spec["pick"] // 7 % 4]
            if spec["pick"] // 28 % 2:  # in the form that lists all sites
                new = list(full)
                new[actives[k // cells] * cells + k % cells] = value
            else:
                new = list(occ)
                new[k] = value
            if spec["pick"] // 56 % 3:
                settings["initial_occupations"] = None
                settings["initial_state_file"] = os.path.join(files.folder, "state.json")
                with open(settings["initial_state_file"], "w") as fh:
                    json.dump({"occupation": new} if spec["pick"] // 56 % 3 == 1 else
                              {"occupations": new, "time": 0.0, "step": 0}, fh)
            else:
                settings["initial_occupations"] = new
        elif what == "no-mapping":
            settings["site_mapping"] = None
        elif what == "no-occupations":
            settings["initial_occupations"] = None
        else:
            with open(files.events) as fh:
                data = json.load(fh)
            ev = data["events"][spec["pick"] % len(data["events"])]
            if what == "no-metadata":
                data["index_metadata"] = None
                if spec["pick"] % 2:
                    del data["index_metadata"]
            elif what == "index-high":
                ev["mobile_ion_indices"] = [ev["mobile_ion_indices"][0], len(occ) + spec["pick"] % 3]
            elif what == "index-negative":
                ev["mobile_ion_indices"] = [-1 - spec["pick"] % 3, ev["mobile_ion_indices"][1]]
            else:
                ev["local_env_indices"] = list(ev["local_env_indices"]) + [
                    len(occ) + spec["pick"] % 3 if spec["pick"] % 2 else -1]
            with open(files.events, "w") as fh:
                json.dump(data, fh)
        refused(settings, what, occupations=len(occ), full=len(full))
        case.label("refused: " + what)
        case.nontrivial()
        return
    other_raw = altered(spec["world"], spec["alter"], spec["pick"])
    if other_raw is None or site_space(other_raw) == site_space(spec["world"]):
        return
    other = onfile.as_loaded(other_raw)
    try:
        second = onfile.Files(other, case.tmp())
    except ValueError:
        return
    start(second.settings)
    settings = dict(good if spec["side"] == "config" else second.settings)
    settings["event_file"] = second.events if spec["side"] == "config" else files.events
    if spec["events"] and spec["side"] == "config":
        # a library of one event that fits into both site spaces
        n = min(len(occ), len(other["occ"]))
        if n >= 2:
            with open(second.events) as fh:
                data = json.load(fh)
            data["events"] = [{**data["events"][0], "mobile_ion_indices": [0, 1], "local_env_indices": []}]
            data["event_dependencies"] = [[0]]
            data["site_to_events"] = {"0": [0], "1": [0]}
            with open(second.events, "w") as fh:
                json.dump(data, fh)
    refused(settings, spec["alter"], side=spec["side"], shapes=[world["shape"], other["shape"]])
    case.label("refused: " + spec["alter"])
    case.nontrivial()


# -------------------------------------------------------------------------------- coefficients
@st.composite
def coefficient_cases(draw):
    spec = draw(composite_cases())
    return {"base": spec, "change": draw(st.sampled_from(["none", "cut", "radius", "kind", "order", "move", "stretch", "stretch", "rename", "shorter",
                                                          "longer", "swap-names", "no-names", "no-hash", "empty"])),
            "drop": draw(st.sampled_from([None, None, "names", "hash"])),
            "cuts": [draw(st.sampled_from([100, 80, 60, 45, 20, 0])) for _ in range(3)], "pick": draw(st.integers(0, 50)),
            "as_file": draw(st.sampled_from(["dict", "object", "json", "yaml", "composite", "composite-site", "own"]))}


def model_of(spec):
    """(model, ordered environment [(element, xyz)], orbits as sets of clusters, constant)."""
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

    env = L.LocalEnv(spec)
    assume(env.cutoff is not None)
    lls = env.build()
    assume(len(lls.structure) == len(env.sites))
    geo = L.Geometry([s.species_string for s in lls.structure], [s.coords for s in lls.structure])
    assume(not geo.ambiguous())
    cuts = [geo.cutoff(r) for r in spec["cuts"]]
    model = LocalClusterExpansion()
    model.build(lls, cutoff_cluster=cuts)
    counts = [len(env.allowed(int(k))) for k in lls.site_indices]
    orbits = geo.orbits(cuts)
    feats = L.features(orbits, counts)
    return model, geo, orbits, feats, counts


def check_coefficients(spec, case):
    from kmcpy.models.parameters import LCEModelParameters

    base = spec["base"]
    model, geo, orbits, feats, counts = model_of(base)
    names = model.get_orbit_fingerprints()
    assume(len(names) == len(feats) and names)
    source = copy.deepcopy(base)
    change = spec["change"]
    if change == "cut":
        source["cuts"] = spec["cuts"]
    elif change == "radius":
        source["env"] = 1 + (base["env"] + spec["pick"]) % 5
    elif change == "kind":
        k = spec["pick"] % len(source["sites"])
        table = sorted(dict((a, b) for a, b in source["mapping"]))
        source["sites"][k] = [table[(table.index(source["sites"][k][0]) + 1) % len(table)], source["sites"][k][1]]
        if isinstance(source["center"], int) and len(dict(
                (a, b) for a, b in source["mapping"])[source["sites"][source["center"]][0]]) < 2:
            return
    elif change == "order":
        source["order"] = {"name": "mine", "sort_keys": ["species", "cartesian_x", "cartesian_y"]} \
            if base["order"] != {"name": "mine"} else None
        source["exclude"] = L.excludes_center(base)
    elif change == "move":
        k = spec["pick"] % len(source["sites"])
        source["sites"][k] = [source["sites"][k][0], [round(x + 0.06, 6) for x in source["sites"][k][1]]]
    elif change == "rename":
        # another element with the same first letter
        old = source["sites"][spec["pick"] % len(source["sites"])][0]
        new = {"K": "Kr", "Na": "Ni", "Li": "Lu", "F": "Fr", "Fe": "Fm", "Si": "Sc", "Cl": "Cs", "O": "Os"}.get(old)
        if new is None or any(new in [a] + list(b) for a, b in source["mapping"]):
            return
        source["sites"] = [[new if el == old else el, f] for el, f in source["sites"]]
        source["mapping"] = [[new if a == old else a, [new if x == old else x for x in b]]
                             for a, b in source["mapping"]]
    elif change == "stretch":
        factor = [1.004, 1.02, 0.985][spec["pick"] % 3]
        source["lattice"] = [round(x * factor, 6) for x in base["lattice"][:3]] + list(base["lattice"][3:])
    m2, g2, o2, f2, c2 = model_of(source)
    assume(len(m2.get_orbit_fingerprints()) == len(f2))
    keci = [1.0 + 0.5 * k for k in range(len(f2))]
    payload = {"keci": keci, "empty_cluster": 2.0, "orbit_fingerprints": list(m2.get_orbit_fingerprints()),
               "local_environment_hash": m2.local_environment_hash}
    expect = "accept"
    same_env = geo.elements == g2.elements and geo.coords.shape == g2.coords.shape and np.allclose(
        geo.coords, g2.coords, atol=1e-7)
    if same_env and geo.coords.tobytes() != g2.coords.tobytes():
        return  # the same environment up to rounding (for example a shifted crystal): outside the claim
    if not same_env:
        if geo.elements == g2.elements and np.allclose(geo.coords, g2.coords, atol=1e-2):
            return  # nearly the same environment: outside the claim
        expect = "refuse"
    elif [sorted(o) for o in orbits] != [sorted(o) for o in o2] or [f[1] for f in feats] != [f[1] for f in f2]:
        expect = "refuse"
    if spec.get("drop") and change in ("cut", "radius", "kind", "order", "move", "stretch", "rename"):
        # only one of the two identities is stored, so only what it names can be told apart
        if spec["drop"] == "names":
            payload.pop("orbit_fingerprints")
            if same_env and len(feats) != len(f2):
                expect = "refuse"
            elif same_env:
                return
        else:
            payload.pop("local_environment_hash")
            terms = [sorted((c, tuple(geo.elements[i] for i in c)) for c in o) for o in orbits]
            t2 = [sorted((c, tuple(g2.elements[i] for i in c)) for c in o) for o in o2]
            if terms == t2 and [f[1] for f in feats] == [f[1] for f in f2] and counts == c2:
                gaps = [abs(geo.d[a, b] - g2.d[a, b]) for o in orbits for c in o for a in c for b in c]
                if max(gaps, default=0.0) < 5e-3:
                    return  # the same terms, up to rounding
            expect = "refuse"
    if change == "shorter":
        payload["keci"], expect = keci[:-1], "refuse"
        if spec["pick"] % 2:
            payload.pop("orbit_fingerprints")
        elif spec["pick"] % 3 == 0:
            payload["orbit_fingerprints"] = payload["orbit_fingerprints"][:-1]
    elif change == "longer":
        payload["keci"], expect = keci + [3.0], "refuse"
        if spec["pick"] % 2:
            payload.pop("orbit_fingerprints")
    elif change == "empty":
        payload["keci"], expect = [], "refuse"
    elif change == "swap-names":
        f = payload["orbit_fingerprints"]
        if len(set(f)) < 2:
            return
        a = spec["pick"] % len(f)
        b = next(k for k in range(len(f)) if f[k] != f[a])
        f[a], f[b] = f[b], f[a]
        expect = "refuse"
    elif change == "no-names":
        payload.pop("orbit_fingerprints")
    elif change == "no-hash":
        payload.pop("local_environment_hash")

    def attempt(target):
        if spec["as_file"].startswith("composite"):
            # the parameters inside a file of a composite model
            from kmcpy.models.composite_lce_model import CompositeLCEModel
            fine = {"keci": [0.25] * len(feats), "empty_cluster": 1.0, "orbit_fingerprints": list(names),
                    "local_environment_hash": model.local_environment_hash}
            parts = {"kra_model": model}
            model.set_parameters(fine)
            slot = "kra"
            if spec["as_file"] == "composite-site":
                parts["site_model"] = model_of(base)[0]
                parts["site_model"].set_parameters(fine)
                slot = "site"
            path = os.path.join(case.tmp(), "composite.json")
            CompositeLCEModel(**parts).to(path)
            with open(path) as fh:
                data = json.load(fh)
            data[slot]["parameters"] = copy.deepcopy(payload)
            with open(path, "w") as fh:
                json.dump(data, fh)
            loaded = CompositeLCEModel.from_file(path)
            return loaded.site_model if slot == "site" else loaded.kra_model
        set_directly(target)
        return target

    def set_directly(target):
        if spec["as_file"] in ("dict", "own"):
            target.set_parameters(copy.deepcopy(payload))
            return
        record = LCEModelParameters(cluster_site_indices=[], weight=[1.0], alpha=0.1, time_stamp=1.0, time="now", rmse=0.0,
                                    loocv=0.0, **copy.deepcopy(payload))
        if spec["as_file"] == "object":
            target.set_parameters(record)
            return
        path = os.path.join(case.tmp(), "p." + spec["as_file"])
        record.to(path)
        target.load_parameters_from_file(path)

    if spec["as_file"] == "own" and payload.get("orbit_fingerprints"):
        # the model's own file with the feature names of the other model
        path = os.path.join(case.tmp(), "own.json")
        model.to(path)
        with open(path) as fh:
            data = json.load(fh)
        require(data["orbit_fingerprints"] == list(names), "feature names in the model file")
        data["orbit_fingerprints"] = payload["orbit_fingerprints"]
        with open(path, "w") as fh:
            json.dump(data, fh)
        try:
            type(model).from_file(path)
            fine = True
        except Exception:  # noqa: BLE001
            fine = False
        require(fine == (payload["orbit_fingerprints"] == list(names)),
                "a model file whose feature names " + ("do not belong to its clusters was accepted" if fine else
                                                       "belong to its clusters was refused"), change=change)
        case.label("own file")
    if expect == "accept":
        model = attempt(model)
        require(list(model.keci) == list(payload["keci"]) and model.empty_cluster == 2.0, "accepted coefficients changed")
    else:
        try:
            attempt(model)
        except Exception:  # noqa: BLE001
            pass
        else:
            require(False, "coefficients of another model were accepted", change=change, features=[len(feats), len(f2)])
    case.label(f"{expect}: {change}")
    case.nontrivial(len(feats) > 1)


# ---------------------------------------------------------------------- environments of events
@st.composite
def env_cases(draw):
    spec = draw(composite_cases())
    spec["delta"] = draw(st.sampled_from([-3, -2, -1, -1, 1, 2]))
    spec["beyond"] = [draw(st.integers(0, 20)), draw(st.sampled_from([0, 0, 0, 1, 2, -1]))]
    return spec


def check_environment(spec, case):
    """An environment of another size than the expansion's, or with states it does not define, is refused."""
    from kmcpy.event import Event
    from kmcpy.simulator.state import State

    s = Setup(spec)
    model, reference = s.lce(spec["cuts"], spec["keci"], spec["const"])
    for event in s.events():
        local = list(event.local_env_indices)
        raw = spec["states"][0]
        state = State([raw[x % len(raw)] % len(s.allowed[x]) for x in range(s.n)])
        model.compute(simulation_state=state, event=event)
        if spec.get("beyond") and spec.get("basis", "chebyshev") == "chebyshev":
            where, step = local[spec["beyond"][0] % len(local)], spec["beyond"][1]
            odd = list(state.occupations)
            odd[where] = -1 if step < 0 else len(s.allowed[where]) + step
            try:
                value = model.compute(simulation_state=State(odd), event=event)
            except Exception:  # noqa: BLE001
                case.label("state the model does not define")
            else:
                require(False, "a state the model does not define was evaluated", site=where, state=odd[where],
                        states=len(s.allowed[where]), value=value)
        new = local[:len(local) + spec["delta"]] if spec["delta"] < 0 else local + local[:1] * spec["delta"]
        if len(new) == len(local):
            continue
        bad = Event(mobile_ion_indices=tuple(event.mobile_ion_indices), local_env_indices=tuple(new))
        try:
            value = model.compute(simulation_state=state, event=bad)
        except Exception:  # noqa: BLE001
            case.nontrivial()
            continue
        require(False, "an event with another environment size was evaluated", model=len(local), event=len(new), value=value)


SUBS = [Sub("start", starts, check_start, quick=300, thorough=4000, budget=60),
        Sub("coefficients", coefficient_cases, check_coefficients, quick=200, thorough=3000, budget=60),
        Sub("environment", env_cases, check_environment, quick=60, thorough=1000, budget=30)]
