"""C03: what an accepted hop does to the state."""
import numpy as np
from hypothesis import strategies as st

from harness import Sub, require
from worlds import RecordingModel, World, moved_sites, worlds

ID = "C03"
RULE = ("worlds with mixed site kinds (any per-site species order, 1-3 states, framework species) and hop "
        "histories made by KMC.run, KMC.update or State.apply_event; non-trivial when at least 3 hops were "
        "made and they include both event directions or two sites with different species lists")


@st.composite
def runs(draw):
    spec = draw(worlds(max_events=12))
    spec["eq"] = draw(st.integers(0, 3))
    spec["passes"] = draw(st.integers(1, 5))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    return spec


def check_hop(w, before, after, pair):
    i, j = pair
    d = w.direction(before, i, j)
    require(d != 0, "a hop was accepted although it was impossible", event=pair, occ=before)
    want = w.hop(before, i, j)
    require(list(after) == want, "the hop did not move exactly one mobile ion into the vacant endpoint",
            event=pair, before=before, after=list(after), want=want,
            species_before=w.labels(before)[i] + "->" + w.labels(before)[j])
    return d


def summarize(w, case, pairs, directions):
    mixed = any(w.allowed[i] != w.allowed[j] for i, j in pairs)
    case.nontrivial(len(pairs) >= 3 and (len(set(directions)) == 2 or mixed))
    case.label("both_directions", len(set(directions)) == 2)
    case.label("different_site_kinds", mixed)


def check_run(spec, case):
    w = World(spec)
    model = RecordingModel(w)
    kmc = w.kmc(model=model, equilibration_passes=spec["eq"], kmc_passes=spec["passes"],
                random_seed=spec["seed"])
    kmc.run(label="c03")
    require(len(model.hops) % (spec["eq"] + spec["passes"]) == 0 and model.hops,
            "passes of unequal length", hops=len(model.hops), passes=[spec["eq"], spec["passes"]])
    n_eq = spec["eq"] * (len(model.hops) // (spec["eq"] + spec["passes"]))
    occ, time, step = list(spec["occ"]), 0.0, 0
    directions, pairs = [], []
    counts = sorted(w.labels(occ))
    for k, hop in enumerate(model.hops):
        directions.append(check_hop(w, occ, hop["occ"], hop["event"]))
        pairs.append(hop["event"])
        require(hop["step"] == step + 1, "step counter after a hop", got=hop["step"], want=step + 1)
        if k < n_eq:
            require(hop["time"] == time, "an equilibration hop advanced the clock", hop=k, time=hop["time"])
        else:
            unresolved = 1.0 / float(np.sum(w.rates(occ))) < 1e-8 * time
            require((hop["time"] > time or (unresolved and hop["time"] == time)) and np.isfinite(hop["time"]),
                    "a production hop did not advance the clock", hop=k, before=time, after=hop["time"])
        require(sorted(w.labels(hop["occ"])) == counts, "species numbers not conserved", hop=k)
        occ, time, step = hop["occ"], hop["time"], hop["step"]
    final = kmc.simulation_state
    require([int(x) for x in final.occupations] == occ and final.step == step and final.time == time,
            "final state is not the state after the last hop")
    summarize(w, case, pairs, directions)


@st.composite
def updates(draw):
    spec = draw(worlds(max_events=12))
    spec["picks"] = draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 50)), min_size=3, max_size=14))
    spec["via"] = draw(st.sampled_from(["kmc", "state"]))
    spec["numpy"] = draw(st.booleans())
    return spec


def check_updates(spec, case):
    from kmcpy.simulator.state import State

    w = World(spec)
    start = np.array(spec["occ"]) if spec["numpy"] else list(spec["occ"])
    state = State(occupations=start, time=0.5, step=7)
    kmc = w.kmc(state=state)
    occ, time, step = list(spec["occ"]), 0.5, 7
    pairs, directions = [], []
    for pick, dt in spec["picks"]:
        possible = w.possible(occ)
        if not possible:
            break
        k = possible[pick % len(possible)]
        i, j, _ = w.events[k]
        event = kmc.event_lib.events[k]
        dt = dt / 16.0
        if spec["via"] == "kmc":
            kmc.update(event, dt=dt)
        else:
            state.apply_event(event, dt)
        after = [int(x) for x in state.occupations]
        directions.append(check_hop(w, occ, after, (i, j)))
        pairs.append((i, j))
        require(state.step == step + 1, "step counter after a hop", got=state.step, want=step + 1)
        require(state.time == time + dt, "clock after a hop", got=state.time, want=time + dt)
        occ, time, step = after, state.time, state.step
    summarize(w, case, pairs, directions)


@st.composite
def there_and_back(draw):
    spec = draw(worlds(max_events=12))
    return spec


def check_back(spec, case):
    """Making the same event twice in a row restores the occupations."""
    w = World(spec)
    kmc = w.kmc()
    n = 0
    for k, (i, j, _) in enumerate(w.events):
        if w.direction(spec["occ"], i, j) == 0:
            continue
        event = kmc.event_lib.events[k]
        kmc.update(event, dt=1.0)
        kmc.update(event, dt=1.0)
        require([int(x) for x in kmc.simulation_state.occupations] == list(spec["occ"]),
                "a hop followed by its reverse did not restore the occupations", event=(i, j))
        n += 1
    case.nontrivial(n >= 2)


SUBS = [
    Sub("run", runs, check_run, quick=120, thorough=900),
    Sub("update", updates, check_updates, quick=300, thorough=2500),
    Sub("there_and_back", there_and_back, check_back, quick=150, thorough=1200),
]
