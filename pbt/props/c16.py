"""C16: simulation state through checkpoints, copies, initial-state files and continued runs."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import worlds as W
from harness import Sub, require

ID = "C16"
RULE = ("Cases are generated systems with a hop history interleaved with copies, dictionary and file checkpoints, plus "
        "initial-state files in every accepted form; a pure-Python model of (occupations, time, step) is the oracle. "
        "Non-trivial: at least one hop happens after a snapshot was taken, or the full-supercell form is longer than "
        "the active form.")
TECHNIQUE = ("property-based testing: stateful histories of hops and snapshots against a reference state, round trips "
             "and continued-run equivalence")


@st.composite
def histories(draw):
    spec = draw(W.worlds(max_events=8))
    spec["t0"] = draw(st.sampled_from([0.0, 1e-12, 0.1, 123456.789, 1e30]))
    spec["s0"] = draw(st.sampled_from([0, 1, 7, 10**12]))
    spec["numpy"] = draw(st.booleans())
    spec["ops"] = draw(st.lists(st.one_of(
        st.tuples(st.just("hop"), st.integers(0, 50), st.floats(1e-300, 1e6, allow_nan=False)),
        st.tuples(st.sampled_from(["copy", "file", "file-order", "dict", "overwrite"]), st.just(0), st.just(0.0)),
    ), min_size=2, max_size=14))
    return spec


def same(state, model, what):
    require([int(x) for x in state.occupations] == model[0], f"occupations differ: {what}",
            got=[int(x) for x in state.occupations], want=model[0])
    require(state.time == model[1], f"time differs: {what}", got=state.time, want=model[1])
    require(state.step == model[2] and isinstance(state.step, int), f"step differs: {what}", got=state.step,
            want=model[2])


def check_history(spec, case):
    from kmcpy.simulator.state import State

    w = W.World(spec)
    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    given = np.array(spec["occ"]) if spec["numpy"] else list(spec["occ"])
    state = State(occupations=given, time=spec["t0"], step=spec["s0"])
    model = [list(spec["occ"]), float(spec["t0"]), int(spec["s0"])]
    shots = []
    tmp = case.tmp()
    name = os.path.join(tmp, "over.json")
    hops = 0
    for k, (op, pick, dt) in enumerate(spec["ops"]):
        if op == "hop":
            ready = [e for e, (i, j, _) in enumerate(w.events) if w.direction(model[0], i, j) != 0]
            if not ready:
                continue
            e = ready[pick % len(ready)]
            i, j, _ = w.events[e]
            state.apply_event(lib[e], dt)
            model = [w.hop(model[0], i, j), model[1] + dt, model[2] + 1]
            hops += bool(shots)
        elif op == "copy":
            shots.append((state.copy(), list(model), "copy"))
        elif op == "dict":
            data = json.loads(json.dumps(state.as_dict(), default=lambda v: v.item()))
            shots.append((State.from_dict(data), list(model), "dictionary"))
        elif op == "file":
            path = os.path.join(tmp, f"c{k}.json")
            state.save_checkpoint(path)
            shots.append((State.load_checkpoint(path), list(model), "checkpoint"))
        elif op == "file-order":
            path = os.path.join(tmp, f"c{k}.json")
            state.save_checkpoint(path)
            shots.append((State.from_file(path, active_site_order=w.order), list(model), "checkpoint with site order"))
        else:  # the same checkpoint file is reused; only the newest state counts
            state.save_checkpoint(name)
            shots.append((State.from_file(name), list(model), "overwritten checkpoint"))
        same(state, model, f"after {op}")
        for snap, was, kind in shots:
            same(snap, was, f"snapshot by {kind} after later {op}")
    require([int(x) for x in given] == list(spec["occ"]), "the caller's occupation list was modified")
    if shots:  # mutating a snapshot does not reach back either
        snap = shots[-1][0]
        snap.occupations[0] = 99
        snap.time = -1.0
        same(state, model, "after editing a snapshot")
    case.nontrivial(hops > 0)
    for _, _, kind in shots:
        case.label(kind)


@st.composite
def files(draw):
    spec = draw(W.worlds(max_events=1, max_prim=5, max_cells=9))
    spec["form"] = draw(st.sampled_from(["occupations", "occupation"]))
    spec["size"] = draw(st.sampled_from(["active", "full", "full", "full", "wrong", "short", "between"]))
    spec["fixed"] = draw(st.integers(0, 9))
    spec["time"] = draw(st.sampled_from([None, 0.25, 1e-9, 0.0]))
    spec["defaults"] = draw(st.sampled_from([None, [3.5, 41], [0.0, 0]]))
    return spec


def check_file(spec, case):
    from kmcpy.simulator.state import State

    w = W.World(spec)
    order = w.order
    full = [spec["fixed"]] * order.original_site_count
    for k, o in enumerate(order.active_to_original):
        full[o] = spec["occ"][k]
    active = list(spec["occ"])
    between = (active + full[len(active):])[:(len(active) + len(full) + 1) // 2]
    values = {"active": active, "full": full, "wrong": active + [0] * (len(full) + 1 - len(active)),
              "short": active[:-1], "between": between}[spec["size"]]
    payload = {spec["form"]: values}
    if spec["time"] is not None and spec["form"] == "occupations":
        payload.update(time=spec["time"], step=17 if spec["time"] else 0)
    path = os.path.join(case.tmp(), "init.json")
    with open(path, "w") as fh:
        json.dump(payload, fh)
    if len(values) not in (len(active), len(full)):
        try:
            State.from_file(path, supercell_shape=spec["shape"], active_site_order=order)
        except ValueError:
            case.label("wrong length rejected")
            return
        require(False, "an initial state of the wrong length was loaded", length=len(values))
    start = {} if spec["defaults"] is None else {"time": spec["defaults"][0], "step": spec["defaults"][1]}
    state = State.from_file(path, supercell_shape=spec["shape"], active_site_order=order, **start)
    # the stored clock counts; the given one is for files that have none
    want = [list(spec["occ"]), float(payload.get("time", start.get("time", 0.0))),
            int(payload.get("step", start.get("step", 0)))]
    same(state, want, "initial-state file")
    same(State.from_occupations(values, active_site_order=order), [want[0], 0.0, 0], "from_occupations")
    if spec["size"] == "full" and spec["form"] == "occupation":
        chosen = State.from_file(path, supercell_shape=spec["shape"],
                                 select_sites=list(order.primitive_active_indices))
        same(chosen, [want[0], 0.0, 0], "select_sites form")
    case.nontrivial(order.original_site_count > order.active_site_count and spec["size"] == "full")
    case.label(spec["form"] + " " + spec["size"])


@st.composite
def runs(draw):
    spec = draw(W.worlds(max_events=8, max_prim=3, max_cells=4))
    spec["first"] = draw(st.integers(1, 3))
    spec["second"] = draw(st.integers(1, 3))
    spec["seeds"] = [draw(st.integers(0, 2**32 - 1)), draw(st.integers(0, 2**32 - 1))]
    return spec


def check_continue(spec, case):
    from kmcpy.simulator.state import State

    w = W.World(spec)
    tmp = case.tmp()
    here = os.getcwd()
    os.chdir(tmp)
    try:
        one = w.kmc(kmc_passes=spec["first"], random_seed=spec["seeds"][0])
        mid = os.path.join(tmp, "mid.json")
        at = {}

        def snap(state, step, time):
            if "step" not in at or step <= max(1, w.pass_length() // 2):
                state.save_checkpoint(mid)
                at.update(step=int(step), time=float(time), occ=[int(x) for x in state.occupations])

        one.attach(snap, interval=1, name="snap", store=False)
        one.run(label="one")
        end = one.simulation_state
        path = os.path.join(tmp, "end.json")
        end.save_checkpoint(path)
        same(State.load_checkpoint(mid), [at["occ"], at["time"], at["step"]], "checkpoint written during a run")
        results = []
        for state in (end.copy(), State.load_checkpoint(path), State.from_file(path, active_site_order=w.order)):
            kmc = w.kmc(state=state, kmc_passes=spec["second"], random_seed=spec["seeds"][1])
            tracker, trace = W.trace_run(kmc, label="two")
            results.append((trace, [int(x) for x in kmc.simulation_state.occupations], kmc.simulation_state.time,
                            kmc.simulation_state.step, tracker.displacement.tolist(), tracker.hop_counter.tolist()))
        require(results[0] == results[1] == results[2], "a run continued from a checkpoint differs")
        require(results[0][3] == end.step + len(results[0][0]), "the step count does not continue",
                got=results[0][3], want=end.step + len(results[0][0]))
        times = [t[1] for t in results[0][0]]
        require(all(b >= a for a, b in zip([end.time] + times, times)), "time does not continue from the checkpoint")
        case.nontrivial(len(set(map(tuple, (t[2] for t in results[0][0])))) > 1)
    finally:
        os.chdir(here)


SUBS = [Sub("history", histories, check_history, quick=250, thorough=5000, budget=40),
        Sub("file", files, check_file, quick=250, thorough=5000, budget=40),
        Sub("continue", runs, check_continue, quick=60, thorough=800, budget=60)]
