"""C06: seeded reproducibility, no perturbation by observation, inputs left alone."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import rules
from harness import Sub, require
from worlds import RecordingModel, World, worlds

ID = "C06"
RULE = ("pairs of runs of one generated system, identical or differing only in observation (schedules, "
        "callbacks that query, checkpoint or run another simulation, disabled fields, use of global random numbers, "
        "another process); non-trivial when at least "
        "4 hops were made with at least 2 competing outcomes")
FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
          "correlation_factor"]


@st.composite
def observers(draw):
    return {
        "interval": draw(st.one_of(st.none(), st.integers(1, 5))),
        "time_interval": draw(st.one_of(st.none(), st.sampled_from([1e-13, 1e-11, 1e-9]))),
        "disabled": sorted(draw(st.sets(st.sampled_from(FIELDS), max_size=6))),
        "callbacks": draw(st.lists(st.sampled_from(["noop", "np_random", "py_random", "reseed", "copy", "fail",
                                                     "query", "checkpoint", "other_run"]), max_size=3)),
        "label": draw(st.sampled_from(["a", "b", None])),
        "warmup": draw(st.sampled_from(["none", "np", "py", "other_run"])),
    }


@st.composite
def pairs(draw):
    spec = draw(worlds(max_events=12, max_cells=6, min_events=3))
    spec["cfg"] = {"equilibration_passes": draw(st.integers(0, 2)), "kmc_passes": draw(st.integers(1, 5)),
                   "random_seed": draw(st.sampled_from([0, 1, 42, 2**32 - 1]))}
    if draw(st.booleans()):
        spec["cfg"]["random_seed"] = draw(st.integers(0, 2**32 - 1))
    spec["a"] = draw(observers())
    spec["b"] = draw(observers())
    spec["same"] = draw(st.integers(0, 3)) == 0
    if spec["same"]:
        spec["b"] = copy.deepcopy(spec["a"])
    return spec


def attach(kmc, names, other):
    def noop(state, step, time):
        return None

    def np_random(state, step, time):
        return float(np.random.random())

    def py_random(state, step, time):
        return random.random()

    def reseed(state, step, time):
        np.random.seed(5)
        random.seed(5)
        return 0

    def copying(state, step, time):
        return len(state.copy().occupations)

    def fail(state, step, time):
        raise ValueError("generated failure")

    def query(state, step, time):
        kmc.show_project_info()
        return [kmc.list_attachments(), str(kmc.list_property_calculations()), len(state.as_dict()["occupations"])]

    def checkpoint(state, step, time):
        name = f"checkpoint{step}.json"
        state.save_checkpoint(name)
        return State.from_file(name).step

    def other_run(state, step, time):
        """Another simulation with objects of its own, run in the middle of this one."""
        if step % 3 == 0:
            other()

    from kmcpy.simulator.state import State

    table = {"query": query, "checkpoint": checkpoint, "other_run": other_run,
             "noop": noop, "np_random": np_random, "py_random": py_random, "reseed": reseed, "copy": copying,
             "fail": fail}
    for k, name in enumerate(names):
        kmc.attach(table[name], interval=1 + k, name=f"{name}{k}",
                   on_error=lambda exc, *a: str(exc) == "generated failure")


def fingerprint(kmc, tracker):
    return {
        "hops": [(h["event"], h["occ"], h["time"], h["step"]) for h in kmc.model.hops],
        "final": [[int(x) for x in kmc.simulation_state.occupations], kmc.simulation_state.time,
                  kmc.simulation_state.step],
        "disp": np.asarray(tracker.displacement).tolist(),
        "counter": [int(x) for x in tracker.hop_counter],
        "sites": [int(x) for x in tracker.mobile_ion_specie_locations],
    }


def samples(tracker):
    return json.dumps({k: [repr(float(v)) for v in col] for k, col in tracker.results.items()}, sort_keys=True)


def observe(w, spec, how, seed="cfg"):
    cfg = dict(spec["cfg"])
    if seed != "cfg":
        cfg["random_seed"] = seed
    if how["interval"] is not None:
        cfg["property_sampling_interval"] = how["interval"]
    if how["time_interval"] is not None:
        cfg["property_sampling_time_interval"] = how["time_interval"]
    cfg["builtin_property_enabled"] = {n: False for n in how["disabled"]}
    config = w.config(**cfg)
    lib = w.event_lib()
    before = json.dumps(config.as_dict(), sort_keys=True, default=str)
    lib_before = json.dumps([[list(e.mobile_ion_indices), list(e.local_env_indices)] for e in lib.events])
    structure_before = w.structure.as_dict()
    order_before = w.order.as_dict()
    np.random.seed(123)
    random.seed(123)
    if how["warmup"] == "np":
        np.random.random(7)
    elif how["warmup"] == "py":
        random.random()
    elif how["warmup"] == "other_run":
        w.kmc(**dict(spec["cfg"], random_seed=99)).run(label="warm")
    kmc = w.kmc(config=config, lib=lib, model=RecordingModel(w))

    def other():
        World(spec).kmc(**dict(spec["cfg"], kmc_passes=1, random_seed=7)).run(label="other")

    if how["warmup"] == "between":
        other()
    attach(kmc, how["callbacks"], other)
    tracker = kmc.run(label=how["label"])
    require(json.dumps(config.as_dict(), sort_keys=True, default=str) == before, "the run changed its configuration")
    require(json.dumps([[list(e.mobile_ion_indices), list(e.local_env_indices)] for e in lib.events]) == lib_before,
            "the run changed the event library")
    require(w.structure.as_dict() == structure_before, "the run changed the structure")
    require(w.order.as_dict() == order_before, "the run changed the active-site order")
    return kmc, tracker


def check_pairs(spec, case):
    w = World(spec)
    kmc_a, tr_a = observe(w, spec, spec["a"])
    kmc_b, tr_b = observe(w, spec, spec["b"])
    fa, fb = fingerprint(kmc_a, tr_a), fingerprint(kmc_b, tr_b)
    for key in fa:
        require(fa[key] == fb[key], "two runs with the same inputs and seed differ", part=key,
                a=spec["a"], b=spec["b"])
    sampling = ("interval", "time_interval", "disabled")
    if all(spec["a"][k] == spec["b"][k] for k in sampling):
        require(samples(tr_a) == samples(tr_b), "two runs with the same sampling report different samples")
    rows = dict(zip(tr_a.results["time"], range(len(tr_a.results["time"]))))
    shared = 0
    for rb, t in enumerate(tr_b.results["time"]):
        if t in rows:
            for name in FIELDS:
                if name in spec["a"]["disabled"] or name in spec["b"]["disabled"]:
                    continue
                va, vb = float(tr_a.results[name][rows[t]]), float(tr_b.results[name][rb])
                require(va == vb or (va != va and vb != vb), "samples at the same moment differ", field=name,
                        time=t, a=va, b=vb)
            shared += 1
    outcomes = len({tuple(h["event"]) for h in kmc_a.model.hops})
    case.nontrivial(len(kmc_a.model.hops) >= 4 and outcomes >= 2)
    case.label("shared_samples", shared > 0)
    case.label("differently_observed", spec["a"] != spec["b"])


@st.composite
def seeds(draw):
    spec = draw(worlds(max_events=8, max_cells=4))
    spec["cfg"] = {"equilibration_passes": 0, "kmc_passes": draw(st.integers(1, 3))}
    spec["seeds"] = draw(st.lists(st.one_of(st.none(), st.integers(0, 2**32 - 1)), min_size=2, max_size=2))
    return spec


def check_seeds(spec, case):
    """Different seeds, or none, give different clocks (the waiting times are continuous)."""
    w = World(spec)
    how = {"interval": None, "time_interval": None, "disabled": [], "callbacks": [], "label": "s",
           "warmup": "none"}
    a, b = spec["seeds"]
    kmc_a, _ = observe(w, spec, how, a)
    kmc_b, _ = observe(w, spec, how, b)
    same = kmc_a.model.hops == kmc_b.model.hops
    if a is not None and a == b:
        require(same, "same seed, different runs")
    else:
        require(kmc_a.simulation_state.time != kmc_b.simulation_state.time,
                "runs with different or no seeds are identical", seeds=spec["seeds"])
    case.nontrivial(a is None or b is None or a != b)
    case.label("unseeded", a is None or b is None)


@st.composite
def batches(draw):
    batch = []
    for _ in range(6):
        spec = draw(worlds(max_events=8, max_cells=4, max_env=3))
        spec["rules"] = draw(rules.rule_tables(spec))
        spec["cfg"] = {"equilibration_passes": 1, "kmc_passes": 3, "random_seed": draw(st.integers(0, 2**32 - 1))}
        batch.append(spec)
    return {"batch": batch, "hashseed": draw(st.integers(1, 4000))}


def batch_digest(batch):
    out = []
    for spec in batch:
        w = World(spec)
        model = rules.build_model(spec["rules"])
        kmc = w.kmc(lib=w.event_lib(), model=model, **spec["cfg"])
        trace = []
        kmc.attach(lambda s, step, time: trace.append([step, repr(time), [int(x) for x in s.occupations]]),
                   interval=1, name="probe", store=False)
        tracker = kmc.run(label="c06p")
        text = json.dumps([trace, samples(tracker), np.asarray(tracker.displacement).tolist()])
        out.append(hashlib.sha1(text.encode()).hexdigest())
    return out


def check_process(spec, case):
    """The same inputs in another process (other hash seed, other working directory)."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mine = batch_digest(spec["batch"])
    folder = case.tmp()
    with open(os.path.join(folder, "batch.json"), "w") as fh:
        json.dump(spec["batch"], fh)
    code = ("import sys, json, os, logging; sys.path[:0] = ['/repo', sys.argv[1]];\n"
            "import deps; deps.ensure(); logging.disable(50)\n"
            "from props import c06\n"
            "print('DIGEST ' + json.dumps(c06.batch_digest(json.load(open('batch.json')))))")
    env = dict(os.environ, PYTHONHASHSEED=str(spec["hashseed"]))
    proc = subprocess.run([sys.executable, "-W", "ignore", "-c", code, here], cwd=folder, env=env,
                          capture_output=True, text=True, timeout=300)
    lines = [l for l in proc.stdout.splitlines() if l.startswith("DIGEST ")]
    if not lines:
        raise RuntimeError("child process failed: " + proc.stderr[-2000:])
    other = json.loads(lines[0][7:])
    for k, (a, b) in enumerate(zip(mine, other)):
        require(a == b, "the same inputs and seed give a different run in another process", world=k)
    case.nontrivial()


SUBS = [
    Sub("observation", pairs, check_pairs, quick=100, thorough=900),
    Sub("seeds", seeds, check_seeds, quick=60, thorough=500),
    Sub("process", batches, check_process, quick=2, thorough=12, shrink=False),
]
