"""C11: saved models give the same energies and rates when loaded again."""
import json
import math

import numpy as np
from hypothesis import assume, strategies as st

import rules as R
from harness import Sub, require
from props.c08 import Setup, cases as composite_cases
from props.c10 import cases as barrier_cases, same_answers
from worlds import World

ID = "C11"
RULE = ("generated cluster expansions, composite models (no site part, site expansion, mapped SiteEnergyModel), "
        "local-barrier tables, fitted parameters and parameter histories, written to JSON (parameters also YAML) and "
        "loaded directly and through a configuration; non-trivial when two events/states gave different non-zero "
        "values (models) or the record has coefficients (parameters)")
ASSUMPTIONS = ["HDF5 parameter files are not exercised: h5py is not installed here"]


def canon(value):
    return json.dumps(value, sort_keys=True, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o))


def close(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-300)


def site_model(spec, s):
    from kmcpy.models.site_energy import SiteEnergyModel

    ext = spec["ext"]
    perm = sorted(range(s.n), key=lambda k: (ext["perm"][k % len(ext["perm"])] * 7919 + k * 104729) % 1009)
    kwargs = {}
    if ext["map"]:
        kwargs["site_mapping"] = {k: perm[k] + ext["pad"] for k in range(s.n)} if ext["map"] == 1 else [
            p + ext["pad"] for p in perm]
        kwargs["external_size"] = s.n + ext["pad"] + ext["tail"]
        kwargs["external_fill_value"] = ext["fill"]
    if ext["states"] == 1:
        kwargs["state_mapping"] = {0: 5, 1: -1, 2: 3, 3: 8}
    elif ext["states"] == 2:
        kwargs["state_mapping_by_site"] = {k: {0: k % 3, 1: 7, 2: 4 - k % 2, 3: 9 + k % 2} for k in range(s.n)}
    if ext["runtime"]:
        kwargs["runtime_ref"] = "sitefns:make_runtime"
        kwargs["runtime_kwargs"] = {"factor": 0 if ext["runtime"] == "zero" else ext["runtime"]}
        kwargs["apply_ref"] = "sitefns.applied"
        kwargs["apply_kwargs"] = {"tag": ext.get("tag", "t")}
    if ext["order"]:
        kwargs["active_site_order"] = s.order
    return SiteEnergyModel(compute_ref="sitefns:delta", compute_kwargs={"scale": ext["scale"], "shift": ext.get("shift", 0.25)},
                           units=spec["units"], name="site", **kwargs)


@st.composite
def composites(draw):
    spec = draw(composite_cases())
    spec["site"] = draw(st.sampled_from(["none", "lce", "energy", "energy"]))
    spec["ext"] = {"perm": draw(st.lists(st.integers(0, 50), min_size=4, max_size=8)), "map": draw(st.integers(0, 2)),
                   "pad": draw(st.integers(0, 2)), "tail": draw(st.integers(0, 2)), "fill": draw(st.integers(0, 2)),
                   "states": draw(st.integers(0, 2)), "runtime": draw(st.sampled_from([0, 0, 2.0, 0.5, 2.0, "zero"])),
                   "order": draw(st.booleans()),
                   "scale": draw(st.one_of(st.sampled_from([0, 0.0]), st.integers(-30, 30).map(lambda k: k / 1000),
                                           st.integers(-30, 30).map(lambda k: k / 1000))),
                   "shift": draw(st.sampled_from([0.25, 0, -0.125])), "tag": draw(st.sampled_from(["t", "", 0, False, None]))}
    spec["meta"] = draw(st.sampled_from([None, {"time_stamp": 1.5, "time": "now", "rmse": 2}]))
    spec["meta2"] = draw(st.sampled_from([None, {"time_stamp": 7.25, "time": "then", "loocv": 3.5}]))
    return spec


def states_of(spec, s, events):
    out = []
    for raw in spec["states"]:
        base = [raw[x % len(raw)] % len(s.allowed[x]) for x in range(s.n)]
        for e in events:
            i, j = e.mobile_ion_indices
            for a, b in ((s.mobile[i], s.vacant[j]), (s.vacant[i], s.mobile[j])):
                occ = list(base)
                occ[i], occ[j] = a, b
                out.append(occ)
    return out


def rates_of(model, events, states, rc, stateful=False):
    from kmcpy.simulator.state import State

    out = []
    for occ in states:
        state = State(occupations=list(occ))
        if stateful:
            model.initialize_state(simulation_state=state)
        for e in events:
            out.append(float(model.compute_probability(event=e, runtime_config=rc, simulation_state=state)))
    return out


def applied_of(model, s, events, states, rc):
    """What the external runtime is told when hops are accepted, and the rates after each."""
    from kmcpy.simulator.state import State

    told, rates = [], []
    for n, occ in enumerate(states[:6]):
        state = State(occupations=list(occ))
        model.initialize_state(simulation_state=state)
        for e in events:
            i, j = e.mobile_ion_indices
            occ = s.hop(list(state.occupations), i, j)
            if model.compute_probability(event=e, runtime_config=rc, simulation_state=state) <= 0:
                continue
            state = State(occupations=occ)
            model.apply_event(event=e, simulation_state=state)
            rates.append(float(model.compute_probability(event=events[n % len(events)], runtime_config=rc,
                                                         simulation_state=state)))
    runtime = model.site_model.runtime
    if runtime is not None:
        told = [[c[0], [list(map(float, x)) for x in c[1]], list(map(float, c[2]))] for c in runtime.calls]
        del runtime.calls[:]
    return told, rates


def check_composite(spec, case):
    from kmcpy.models.base import BaseModel
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.simulator.config import Configuration, RuntimeConfig

    s = Setup(spec)
    kra, _ = s.lce(spec["cuts"], spec["keci"], spec["const"])
    site = None
    if spec["site"] == "lce":
        site, _ = s.lce(spec["cuts2"], spec["keci2"], spec["const2"])
    elif spec["site"] == "energy":
        site = site_model(spec, s)
    model = CompositeLCEModel(site_model=site, kra_model=kra, kra_fit_metadata=spec["meta"],
                              site_fit_metadata=spec["meta2"])
    events = s.events()
    assume(events)
    states = states_of(spec, s, events)
    rc = RuntimeConfig(temperature=float(spec["T"]), attempt_frequency=float(spec["v"]))
    stateful = spec["site"] == "energy"
    before = rates_of(model, events, states, rc, stateful)
    told = applied_of(model, s, events, states, rc) if stateful else None
    folder = case.tmp()
    path = folder + "/model.json"
    model.to(path)
    config = Configuration(
        structure_file="x.cif", model_file=path, event_file="e.json", mobile_ion_specie=spec["mobile"],
        mobile_ion_charge=1.0, elementary_hop_distance=2.5, supercell_shape=tuple(spec["shape"]),
        site_mapping=s.env.mapping, temperature=float(spec["T"]), attempt_frequency=float(spec["v"]))
    loaded = {"from_file": CompositeLCEModel.from_file(path), "from_config": BaseModel.from_config(config),
              "from_dict": CompositeLCEModel.from_dict(json.loads(canon(model.as_dict())))}
    if stateful:  # the site part in a file of its own
        part = folder + "/site.json"
        site.to(part)
        loaded["site part from_file"] = CompositeLCEModel(
            site_model=type(site).from_file(part), kra_model=kra, kra_fit_metadata=spec["meta"],
            site_fit_metadata=spec["meta2"])
    for how, other in loaded.items():
        require(type(other) is CompositeLCEModel, "kind of model loaded by " + how, got=type(other).__name__)
        require(type(other.site_model) is type(model.site_model), "kind of the site part loaded by " + how,
                got=type(other.site_model).__name__)
        after = rates_of(other, events, states, rc, stateful)
        require(all(close(a, b) for a, b in zip(before, after)), "rates changed by saving and loading: " + how,
                before=before[:6], after=after[:6])
        if stateful:
            got = applied_of(other, s, events, states, rc)
            require(got[0] == told[0], "what the external runtime is told changed by saving and loading: " + how,
                    before=told[0][:2], after=got[0][:2])
            require(len(got[1]) == len(told[1]) and all(close(a, b) for a, b in zip(got[1], told[1])),
                    "rates after accepted hops changed by saving and loading: " + how, before=told[1][:6],
                    after=got[1][:6])
        require(json.loads(canon(other.as_dict())) == json.loads(canon(model.as_dict())),
                "saving the loaded model gives another content: " + how)
        for part, meta in (("kra_fit_metadata", spec["meta"]), ("site_fit_metadata", spec["meta2"])):
            if meta and (part == "kra_fit_metadata" or spec["site"] == "lce"):
                got = getattr(other, part) or {}
                require(all(got.get(k) == v for k, v in meta.items()), "fit metadata after loading: " + how, part=part,
                        got=got, want=meta)
    require(rates_of(model, events, states, rc, stateful) == before, "saving changed the model")
    case.nontrivial(len({r for r in before if r > 0}) >= 2)
    case.label("site:" + spec["site"])


def check_lce(spec, case):
    from kmcpy.models.base import BaseModel
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
    from kmcpy.models.parameters import LCEModelParameters
    from kmcpy.simulator.state import State

    s = Setup(spec)
    model, _ = s.lce(spec["cuts"], spec["keci"], spec["const"])
    events = s.events()
    assume(events)
    states = states_of(spec, s, events)
    folder = case.tmp()
    path = folder + "/lce.json"
    model.to(path)
    params = LCEModelParameters(
        keci=[float(x) for x in model.keci], empty_cluster=float(spec["const"]), cluster_site_indices=[],
        weight=[1.0], alpha=0.5, time_stamp=1.0, time="t", rmse=0.1, loocv=0.2,
        orbit_fingerprints=list(model.get_orbit_fingerprints()),
        local_environment_hash=model.local_environment_hash, local_site_order=model.local_site_order.as_dict())
    ppath = folder + "/params.json"
    params.to(ppath)
    before = [float(model.compute(simulation_state=State(occupations=list(o)), event=e)) for o in states for e in events]
    for how in ("from_file", "from_config"):
        class Config:
            model_file = path
        other = (LocalClusterExpansion if how == "from_file" else BaseModel)
        other = other.from_file(path) if how == "from_file" else other.from_config(Config)
        require(type(other) is LocalClusterExpansion, "kind of model loaded by " + how)
        other.load_parameters_from_file(ppath)
        after = [float(other.compute(simulation_state=State(occupations=list(o)), event=e)) for o in states
                 for e in events]
        require(all(close(a, b) for a, b in zip(before, after)), "energies changed by saving and loading",
                before=before[:6], after=after[:6])
        require(json.loads(canon(other.as_dict())) == json.loads(canon(model.as_dict())),
                "saving the loaded expansion gives another content")
        require([sorted(o.cluster_site_indices) for o in other.orbits]
                == [sorted(o.cluster_site_indices) for o in model.orbits], "orbits changed")
        require(other.local_site_order == model.local_site_order, "local site order changed",
                got=str(other.local_site_order), want=str(model.local_site_order))
    case.nontrivial(len(set(before)) >= 2)


def check_barrier(spec, case):
    from kmcpy.models import LocalBarrierModel
    from kmcpy.models.base import BaseModel

    w = World(spec)
    model = R.build_model(spec["table"])
    path = case.tmp() + "/m.json"
    model.to(path)
    other = BaseModel.from_config(w.config(model_file=path))
    require(type(other) is LocalBarrierModel, "kind of model loaded from a configuration", got=type(other).__name__)
    seen = same_answers(w, spec, model, other, "loaded through a configuration")
    require(json.loads(canon(other.as_dict())) == json.loads(canon(model.as_dict())), "saving the loaded model gives another content")
    case.nontrivial(len(seen) >= 2)


FLOATS = st.floats(allow_nan=False, allow_infinity=False, width=64)
TEXT = st.text(alphabet="abcdef0123456789 -:.e", max_size=12)


@st.composite
def records(draw):
    one = {
        "keci": draw(st.lists(FLOATS, max_size=6)), "empty_cluster": draw(FLOATS),
        "cluster_site_indices": draw(st.sampled_from([[], [0, 1, 2], [[0], [1, 2]]])),
        "weight": draw(st.lists(FLOATS, max_size=4)), "alpha": draw(FLOATS), "time_stamp": draw(FLOATS),
        "time": draw(TEXT), "rmse": draw(FLOATS), "loocv": draw(FLOATS), "normalize": draw(st.booleans()),
        "orbit_fingerprints": draw(st.one_of(st.none(), st.lists(TEXT, max_size=4))),
        "local_environment_hash": draw(st.one_of(st.none(), TEXT)),
        "local_site_order": draw(st.one_of(st.none(), st.just({"name": "kmcpy_default", "sort_keys": ["species"],
                                                               "exclude_center_site": True}))),
    }
    return one


@st.composite
def histories(draw):
    return {"records": draw(st.lists(records(), min_size=1, max_size=12)),
            "suffix": draw(st.sampled_from([".json", ".json", ".yaml", ".yml", ".json.gz"]))}


def check_parameters(spec, case):
    from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters

    items = [LCEModelParameters(**r) for r in spec["records"]]
    folder = case.tmp()
    for n, (item, rec) in enumerate(zip(items, spec["records"])):
        path = f"{folder}/p{n}{spec['suffix']}"
        item.to(path)
        back = LCEModelParameters.from_file(path)
        for key, value in rec.items():
            got = getattr(back, key)
            require(got == value, "a field changed in the parameter file", field=key, got=got, want=value)
        require(LCEModelParameters.from_dict(item.as_dict()) == item, "as_dict/from_dict of fitted parameters")
    history = LCEModelParamHistory()
    for item in items:
        history.append(item)
    path = f"{folder}/h{spec['suffix']}"
    history.to(path)
    back = LCEModelParamHistory.from_file(path)
    require(back.history == items, "parameter history changed", n=len(back.history), want=len(items))
    require(json.loads(canon(back.as_dict())) == json.loads(canon(history.as_dict())), "saving the history again gives another content")
    case.nontrivial(any(r["keci"] for r in spec["records"]))
    case.label(spec["suffix"])


SUBS = [
    Sub("composite", composites, check_composite, quick=130, thorough=2000, budget=90),
    Sub("lce", composite_cases, check_lce, quick=60, thorough=1000, budget=60),
    Sub("barrier", lambda: barrier_cases(default=True), check_barrier, quick=100, thorough=3000),
    Sub("parameters", histories, check_parameters, quick=80, thorough=2000),
]
