"""C13: event dependencies, site lookup and round trips of event libraries, over editing histories."""
import json
import os

from hypothesis import strategies as st

import worlds as W
from harness import Sub, require

ID = "C13"
RULE = ("Cases are event libraries over generated site spaces, edited by a random history of additions, dependency "
        "generation, saving and reloading (with or without stored dependencies); after each step the library is "
        "compared with set-intersection definitions. Non-trivial: at least three events, some dependent and some "
        "independent pair.")
TECHNIQUE = ("property-based testing: stateful generation of event libraries against a set-intersection reference "
             "model and save/load round trips")


@st.composite
def histories(draw):
    spec = draw(W.worlds(max_events=12, max_env=4, max_cells=12))
    n = len(W.active_allowed(spec))
    steps = []
    left = list(range(len(spec["events"])))
    while left:
        k = draw(st.integers(1, len(left)))
        steps.append(["add", k])
        left = left[k:]
        steps += [[op] for op in draw(st.lists(st.sampled_from(
            ["deps", "file", "file-nodeps", "dict", "clear"]), max_size=3))]
    steps.append(["deps"])
    steps.append([draw(st.sampled_from(["file", "file-nodeps", "dict"]))])
    spec["steps"] = steps
    spec["repeat_endpoint"] = draw(st.booleans())  # generated libraries list the target inside the environment
    spec["repeat_env"] = draw(st.sampled_from([0, 0, 1, 2]))  # periodic images of one site in a small cell
    spec["call_clear"] = draw(st.booleans())
    spec["n"] = n
    return spec


def check_history(spec, case):
    from kmcpy.event import Event, EventLib

    w = W.World(spec)
    events = [(i, j, (j,) + tuple(e for e in env if e != j) if spec["repeat_endpoint"] else env)
              for i, j, env in w.events]
    again = spec.get("repeat_env", 0)
    events = [(i, j, tuple(env) + tuple(env[:again])) for i, j, env in events]
    lib = EventLib()
    lib.set_index_metadata(w.order)
    model = []
    fresh = False  # do the stored dependencies describe the current events?
    tmp = case.tmp()
    pos = 0
    for k, step in enumerate(spec["steps"]):
        op = step[0]
        if op == "add":
            for i, j, env in events[pos:pos + step[1]]:
                lib.add_event(Event(mobile_ion_indices=(i, j), local_env_indices=tuple(env)))
                model.append((i, j, tuple(env)))
            pos += step[1]
            if spec.get("call_clear", True):
                lib.clear_event_dependencies()
            fresh = False
        elif op == "deps":
            lib.generate_event_dependencies()
            fresh = True
        elif op == "clear":
            lib.clear_event_dependencies()
            fresh = False
        elif op == "dict":
            lib = EventLib.from_dict(json.loads(json.dumps(lib.as_dict())))
        else:
            name = os.path.join(tmp, f"events{k}.json")
            lib.to(name)
            if op == "file-nodeps":
                data = json.load(open(name))
                data["event_dependencies"] = None
                json.dump(data, open(name, "w"))
            lib = EventLib.from_file(name)
            fresh = True
        compare(lib, model, w, fresh, case, op)
    lib.validate_index_metadata(w.order)
    sets = [set(m[:2]) | set(m[2]) for m in model]
    pairs = [bool(a & b) for x, a in enumerate(sets) for y, b in enumerate(sets) if x < y]
    case.nontrivial(len(model) >= 3 and any(pairs) and not all(pairs))


def compare(lib, model, w, fresh, case, op):
    require(len(lib) == len(model), "the library lost or gained events", after=op)
    for k, (i, j, env) in enumerate(model):
        for e in (lib[k], lib.get_event(k)):
            require(tuple(int(x) for x in e.mobile_ion_indices) == (i, j)
                    and tuple(int(x) for x in e.local_env_indices) == tuple(env), "an event changed", event=k, after=op)
    sets = [set(m[:2]) | set(m[2]) for m in model]
    for site in range(w.n):
        want = [k for k, s in enumerate(sets) if site in s]
        got = sorted({int(x) for x in lib.get_events_involving_site(site)})
        require(got == want, "site lookup is wrong", site=site, got=got, want=want, after=op)
    require(lib.has_event_dependencies() == fresh, "dependencies are present when they should not be or vice versa",
            after=op)
    if fresh:
        total = 0
        for k, s in enumerate(sets):
            want = [m for m, t in enumerate(sets) if s & t]
            got = [int(x) for x in lib.get_dependent_events(k)]
            require(sorted(got) == want, "wrong dependencies", event=k, got=got, want=want, after=op)
            require(k in got, "an event does not depend on itself", event=k)
            total += len(want)
        stats = lib.get_dependency_statistics()
        require(stats["total_events"] == len(model) and stats["total_dependencies"] == total,
                "dependency statistics are wrong", stats=stats)
    require(json.loads(json.dumps(lib.index_metadata)) == json.loads(json.dumps(w.order.as_dict())),
            "index metadata changed", after=op)


@st.composite
def large(draw):
    spec = draw(W.worlds(max_events=1, max_env=1, max_prim=2, max_cells=1))
    spec["shape"] = draw(st.sampled_from([[5, 5, 4], [3, 7, 2], [8, 4, 4]]))
    spec["seed"] = draw(st.integers(0, 2**31))
    spec["many"] = draw(st.sampled_from([40, 150, 300]))
    spec["env"] = draw(st.sampled_from([0, 2, 6, 12, 60, 200]))
    spec["hub"] = draw(st.sampled_from(["none", "endpoint", "environment", "tail"]))
    if spec["env"] == 0 and draw(st.integers(0, 2)) == 0:
        spec["many"] = 1100
    if spec["env"] >= 60:
        spec["many"] = 40
    if spec["hub"] == "tail":
        spec["shape"], spec["many"] = [8, 9, 10], 4
        spec["env"] = draw(st.sampled_from([140, 170]))
    spec["repeat_endpoint"] = draw(st.booleans())
    spec["steps"] = [["add", spec["many"]], ["deps"], [draw(st.sampled_from(["file", "file-nodeps", "dict"]))]]
    return spec


def check_large(spec, case):
    import random
    rng = random.Random(spec["seed"])
    allowed = W.active_allowed(spec)
    mob = [i for i, a in enumerate(allowed) if spec["mobile"] in a]
    spec["events"] = []
    for _ in range(spec["many"]):
        i, j = rng.sample(mob, 2)
        env = rng.sample(range(len(allowed)), min(spec["env"], len(allowed)))
        if spec["hub"] == "endpoint" and i != mob[0]:  # one site takes part in everything
            j = mob[0]
        elif spec["hub"] == "environment":
            env = env[:-1] + [mob[0]] if rng.random() < 0.8 and mob[0] not in env else env
        elif spec["hub"] == "tail":
            # sites of their own, and one shared site far down the list of some
            k = len(spec["events"])
            i, j = mob[2 * k:2 * k + 2]
            rest = [s for s in range(len(allowed)) if s not in mob[:8]]
            env = rest[k * spec["env"]:(k + 1) * spec["env"]]
            if k and rng.random() < 0.7:
                env[rng.randrange(130, len(env))] = rng.choice(sorted(set(sum(spec["events"][rng.randrange(k)][2:], []))))
        spec["events"].append([i, j, env])
    spec["rates"].update(blocked=[], gate=None)
    check_history(spec, case)


SUBS = [Sub("large", large, check_large, quick=25, thorough=600, budget=40),
        Sub("history", histories, check_history, quick=250, thorough=6000, budget=60)]
