"""C01: held rates always equal a from-scratch evaluation on the current occupations."""
import os

import numpy as np
from hypothesis import strategies as st

import rules
from harness import Sub, require
from worlds import RefRateModel, World, trace_run, worlds

ID = "C01"
RULE = ("worlds (random cells, site mappings with any state order, hand-built overlapping events) plus a "
        "hop history; a case is non-trivial when at least 2 hops were applied and some event's rate "
        "changed through a site other than its own endpoints or through a multi-event overlap")
ASSUMPTIONS = ["a user-written rate model reads only the event's endpoint and environment sites",
               "hops are applied through KMC.update or KMC.run"]


@st.composite
def histories(draw):
    spec = draw(worlds())
    spec["picks"] = draw(st.lists(st.integers(0, 60), min_size=3, max_size=14))
    spec["lib"] = draw(st.sampled_from(["memory", "file", "file_nodeps", "memory_nodeps", "memory_late"]))
    return spec


def make_lib(w, how, case):
    from kmcpy.event import EventLib
    from monty.serialization import dumpfn, loadfn

    if how == "memory":
        return w.event_lib()
    if how == "memory_nodeps":
        return w.event_lib(deps=False)
    if how == "memory_late":
        # dependencies generated before the last events were added
        from kmcpy.event import Event

        lib = EventLib()
        for k, (i, j, env) in enumerate(w.events):
            if k == max(1, len(w.events) // 2):
                lib.generate_event_dependencies()
            lib.add_event(Event(mobile_ion_indices=(i, j), local_env_indices=tuple(env)))
        lib.set_index_metadata(w.order)
        return lib
    path = os.path.join(case.tmp(), "events.json")
    w.event_lib().to(path)
    if how == "file_nodeps":
        data = loadfn(path, cls=None)
        data["event_dependencies"] = None
        dumpfn(data, path)
    return EventLib.from_file(path)


def same(got, want, what, **kw):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=0.0), what,
            got=got.tolist(), want=want.tolist(), **kw)


def check_tables(kmc, want, **kw):
    same(kmc.prob_list, want, "held rates differ from a from-scratch evaluation", **kw)
    total = float(np.sum(want))
    cum = np.asarray(kmc.prob_cum_list, float)
    require(cum.shape == want.shape and np.allclose(cum, np.cumsum(want), rtol=1e-9, atol=1e-12 * total),
            "cumulative rates are not the running sums of the rates", got=cum.tolist(),
            want=np.cumsum(want).tolist(), **kw)


def check_history(spec, case):
    w = World(spec)
    kmc = w.kmc(lib=make_lib(w, spec["lib"], case))
    occ = list(spec["occ"])
    before = w.rates(occ)
    check_tables(kmc, before, hops=0)
    hops = 0
    indirect = False
    for pick in spec["picks"]:
        possible = w.possible(occ)
        if not possible:
            break
        k = possible[pick % len(possible)]
        i, j, _ = w.events[k]
        kmc.update(kmc.event_lib.events[k], dt=1e-9)
        occ = [int(x) for x in kmc.simulation_state.occupations]
        hops += 1
        after = w.rates(occ)
        for e, (a, b) in enumerate(zip(before, after)):
            if a != b and not ({i, j} & set(w.events[e][:2])):
                indirect = True
        check_tables(kmc, after, hops=hops, event=w.events[k])
        before = after
    case.nontrivial(hops >= 2 and indirect)
    case.label("indirect_rate_change", indirect)
    case.label("lib_" + spec["lib"])


@st.composite
def runs(draw):
    spec = draw(worlds(max_events=10))
    spec["eq"] = draw(st.integers(0, 2))
    spec["passes"] = draw(st.integers(1, 4))
    spec["seed"] = draw(st.integers(0, 2**31))
    spec["twice"] = draw(st.booleans())
    return spec


def check_run(spec, case):
    w = World(spec)
    kmc = w.kmc(equilibration_passes=spec["eq"], kmc_passes=spec["passes"], random_seed=spec["seed"])
    steps = []

    def probe(state, step, time):
        check_tables(kmc, w.rates([int(x) for x in state.occupations]), step=step)
        steps.append(step)

    def reraise(exc, state, step, time):
        raise exc

    seen = []

    def guarded(state, step, time):
        try:
            probe(state, step, time)
        except Exception as exc:  # noqa: BLE001 - report after the run
            seen.append(exc)

    kmc.attach(guarded, interval=1, name="probe", store=False)
    for _ in range(2 if spec["twice"] else 1):
        kmc.run(label="c01")
        if seen:
            raise seen[0]
    case.nontrivial(len(steps) >= 2)
    case.label("rerun", spec["twice"])


@st.composite
def rule_histories(draw):
    spec = draw(worlds(max_events=8, max_env=3, max_cells=8))
    spec["rules"] = draw(rules.rule_tables(spec))
    if draw(st.booleans()):
        # a rule that watches sites some other event moves an ion through
        i, j, _ = spec["events"][draw(st.integers(0, len(spec["events"]) - 1))]
        watch = draw(st.sampled_from([[i], [j], [i, j]]))
        rule = {"name": "watch", "barrier": draw(st.integers(20, 700)), "sites": watch}
        if draw(st.booleans()):
            rule["pattern"] = [draw(st.integers(0, 2)) for _ in watch]
        else:
            rule["species"] = spec["mobile"]
            rule["count"] = draw(st.integers(0, len(watch)))
        spec["rules"]["rules"].insert(0, rule)
    spec["picks"] = draw(st.lists(st.integers(0, 60), min_size=3, max_size=10))
    return spec


def check_rules(spec, case):
    from kmcpy.simulator.state import State

    w = World(spec)
    model = rules.build_model(spec["rules"])
    kmc = w.kmc(model=model)
    occ = list(spec["occ"])
    hops = 0
    far = False
    for pick in [None] + spec["picks"]:
        if pick is not None:
            possible = [k for k, (i, j, _) in enumerate(w.events) if w.direction(occ, i, j) != 0]
            if not possible:
                break
            k = possible[pick % len(possible)]
            kmc.update(kmc.event_lib.events[k], dt=1e-9)
            occ = [int(x) for x in kmc.simulation_state.occupations]
            hops += 1
        want = np.array([rules.ref_rate(spec["rules"], w, occ, e, spec["T"], spec["v"]) for e in w.events])
        check_tables(kmc, want, hops=hops, occ=occ)
    for rule in spec["rules"]["rules"]:
        far = far or rule.get("sites") == "all" or isinstance(rule.get("sites"), list)
    case.nontrivial(hops >= 2 and len(spec["rules"]["rules"]) >= 1)
    case.label("non_local_rule", far)


SUBS = [
    Sub("history", histories, check_history, quick=350, thorough=4000),
    Sub("run", runs, check_run, quick=80, thorough=700),
    Sub("local_barrier", rule_histories, check_rules, quick=250, thorough=2500),
]
