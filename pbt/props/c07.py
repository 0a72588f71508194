"""C07: sampling schedule and record keeping."""
import math

import numpy as np
from hypothesis import strategies as st

import sitefns
from harness import Sub, require
from worlds import World, worlds

ID = "C07"
RULE = ("worlds run with random global and per-property schedules (step and time intervals, or the default), "
        "enabled flags, storage limits and failing callbacks; the schedule is recomputed from the recorded "
        "(step, time) history; callbacks that attach, detach, replace and toggle callbacks during the run against a "
        "step-by-step model; non-trivial when some property is due on some but not all of >= 4 steps")
BUILTINS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
            "correlation_factor"]


@st.composite
def schedules(draw, allow_none=True):
    which = draw(st.integers(0 if allow_none else 1, 3))
    return [draw(st.integers(1, 7)) if which in (1, 3) else None,
            draw(st.integers(1, 48)) / 8.0 if which in (2, 3) else None]


@st.composite
def plans(draw):
    spec = draw(worlds(max_events=8, max_cells=4))
    spec["eq"] = draw(st.integers(0, 2))
    spec["passes"] = draw(st.integers(1, 6))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["global"] = draw(schedules())
    spec["global_via"] = draw(st.sampled_from(["config", "method"]))
    spec["disabled"] = sorted(draw(st.sets(st.sampled_from(BUILTINS), max_size=3)))
    spec["callbacks"] = []
    for k in range(draw(st.integers(1, 4))):
        sched = draw(schedules())
        spec["callbacks"].append({
            "interval": sched[0], "time_interval": sched[1],
            "store": draw(st.booleans()) or draw(st.booleans()),
            "max_records": draw(st.one_of(st.none(), st.integers(1, 4))),
            "enabled": draw(st.integers(0, 4)) > 0,
            "fail_every": draw(st.sampled_from([0, 0, 2, 3])),
            "via": draw(st.sampled_from(["attach", "attach", "config"])),
        })
        if spec["callbacks"][-1]["via"] == "config":
            spec["callbacks"][-1]["fail_every"] = 0  # no error handler can be given in a configuration
    spec["start"] = [draw(st.sampled_from([0, 0, 3, 11])), draw(st.sampled_from([0.0, 0.0, 2.5]))]
    # waiting times of exactly representable length, so that "at least the interval" is decided on the boundary too
    spec["exact"] = draw(st.lists(st.integers(1, 24), min_size=1, max_size=7)) if draw(st.booleans()) else None
    return spec


def due(step, time, interval, time_interval, last):
    if interval is not None and step % interval == 0:
        return True
    if time_interval is not None:
        return time - (0.0 if last is None else last) >= time_interval
    return False


def expected(history, interval, time_interval):
    """Indices of the history entries the schedule selects."""
    out = []
    last = None
    for k, (step, time) in enumerate(history):
        if due(step, time, interval, time_interval, last):
            out.append(k)
            last = time
    return out


def fragile(history, interval, time_interval):
    """A time comparison too close to call in floating point."""
    if time_interval is None:
        return False
    last = None
    for step, time in history:
        if abs(time - (last or 0.0) - time_interval) < 1e-9 * max(1.0, abs(time)):
            return True
        if due(step, time, interval, time_interval, last):
            last = time
    return False


def mean_dt(w, occ):
    total = float(np.sum(w.rates(occ)))
    return 1.0 / total


def check_plan(spec, case):
    from kmcpy.simulator.state import State

    from kmcpy.simulator.kmc import KMC

    class ExactKMC(KMC):
        turn = 0

        def propose(self, events):
            event, _ = super().propose(events)
            self.turn += 1
            return event, spec["exact"][self.turn % len(spec["exact"])] / 8.0

    w = World(spec)
    exact = bool(spec["exact"])
    unit = 1.0 if exact else mean_dt(w, spec["occ"])
    scale = (lambda t: None if t is None else t * unit)
    cfg = dict(equilibration_passes=spec["eq"], kmc_passes=spec["passes"], random_seed=spec["seed"])
    g_int, g_time = spec["global"][0], scale(spec["global"][1])
    if spec["global_via"] == "config":
        if g_int is not None:
            cfg["property_sampling_interval"] = g_int
        if g_time is not None:
            cfg["property_sampling_time_interval"] = g_time
        cfg["builtin_property_enabled"] = {name: False for name in spec["disabled"]}
    from_config = []
    for k, cb in enumerate(spec["callbacks"]):
        if cb["via"] == "config":
            entry = {"callable": sitefns.REFS[k], "name": f"cb{k}"}
            for key, value, default in [("interval", cb["interval"], None), ("store", cb["store"], True),
                                        ("time_interval", scale(cb["time_interval"]), None),
                                        ("max_records", cb["max_records"], None), ("enabled", cb["enabled"], True)]:
                if value != default:
                    entry[key] = value
            from_config.append(entry)
    if from_config:
        cfg["property_callbacks"] = from_config
    state = State(occupations=list(spec["occ"]), step=spec["start"][0], time=scale(spec["start"][1]))
    kmc = w.kmc(state=state, kind=ExactKMC if exact else None, **cfg)
    if spec["global_via"] == "method":
        if g_int is not None or g_time is not None:
            kmc.set_property_frequency(interval=g_int, time_interval=g_time)
        for name in spec["disabled"]:
            kmc.set_property_enabled(name, False)
    history = []

    def probe(state, step, time):
        require((step, time) == (state.step, state.time), "callback got a step or time other than the state's",
                got=(step, time), want=(state.step, state.time))
        history.append((int(step), float(time), [int(x) for x in state.occupations]))

    kmc.attach(probe, interval=1, name="probe", store=False)
    calls = {}
    handled = {}
    for k, cb in enumerate(spec["callbacks"]):
        calls[k] = []
        handled[k] = []

        def func(state, step, time, k=k, cb=cb):
            calls[k].append((int(step), float(time), [int(x) for x in state.occupations]))
            if cb["fail_every"] and len(calls[k]) % cb["fail_every"] == 0:
                raise ValueError("generated failure")
            return {"n": len(calls[k]), "k": k}

        def on_error(exc, state, step, time, k=k):
            require(isinstance(exc, ValueError) and str(exc) == "generated failure",
                    "error handler got a different exception", got=repr(exc))
            handled[k].append((int(step), float(time)))
            return True

        if cb["via"] == "config":
            sitefns.HANDLERS[k] = func
            case.label("callback_from_config")
            continue
        kmc.attach(func, interval=cb["interval"], time_interval=scale(cb["time_interval"]), name=f"cb{k}",
                   store=cb["store"], max_records=cb["max_records"], enabled=cb["enabled"], on_error=on_error)
    tracker = kmc.run(label="c07")

    length = w.pass_length()
    require(len(history) == spec["passes"] * length, "number of production steps", got=len(history),
            want=spec["passes"] * length)
    first = spec["start"][0] + spec["eq"] * length
    require([h[0] for h in history] == list(range(first + 1, first + 1 + len(history))),
            "steps seen by an every-step callback", got=[h[0] for h in history][:8], want=first + 1)
    if g_int is None and g_time is None:
        g_int = max(length, 1)
    times = [(h[0], h[1]) for h in history]
    # all sums and differences of such times are exact in floating point
    exact = exact and all(t * 8 == int(t * 8) for _, t in times)
    case.label("exact_times", exact)

    if exact or not fragile(times, g_int, g_time):
        want = expected(times, g_int, g_time)
        rows = [float(t) for t in tracker.results["time"]]
        require(rows == [times[k][1] for k in want], "built-in summaries were not sampled on schedule",
                got=rows, want=[times[k] for k in want], interval=g_int, time_interval=g_time)
        case.nontrivial(len(times) >= 4 and 0 < len(want) < len(times))
        for name in BUILTINS:
            col = tracker.results[name]
            require(len(col) == len(rows), "a summary column has a different length", column=name)
            if name in spec["disabled"]:
                require(all(math.isnan(v) for v in col), "a disabled built-in has values", column=name)

    records = tracker.get_property_records()
    for name, rows in records.items():
        require(tracker.get_property_records(name) == rows, "records asked for by name", name=name)
    refused(ValueError, lambda: tracker.get_property_records("nobody"), "records of an unknown property")
    for k, cb in enumerate(spec["callbacks"]):
        interval = cb["interval"] if cb["interval"] is not None else g_int
        time_interval = scale(cb["time_interval"]) if cb["time_interval"] is not None else g_time
        if not exact and fragile(times, interval, time_interval):
            case.label("too_close_to_call")
            continue
        want = expected(times, interval, time_interval) if cb["enabled"] else []
        require(calls[k] == [history[i] for i in want], "a callback was not called exactly on schedule",
                callback=cb, got=[c[:2] for c in calls[k]], want=[times[i] for i in want], interval=interval,
                time_interval=time_interval)
        case.nontrivial(len(times) >= 4 and 0 < len(want) < len(times))
        fails = [n for n in range(1, len(want) + 1) if cb["fail_every"] and n % cb["fail_every"] == 0]
        require(handled[k] == [times[want[n - 1]] for n in fails], "error handler calls", got=handled[k])
        case.label("handled_failure", bool(fails))
        good = [(times[want[n - 1]], {"n": n, "k": k}) for n in range(1, len(want) + 1) if n not in fails]
        if not cb["store"]:
            good = []
        if cb["max_records"] is not None:
            good = good[-cb["max_records"]:]
        got = [((r["step"], r["time"]), r["value"]) for r in records.get(f"cb{k}", [])]
        require(got == good, "stored records", callback=cb, got=got, want=good)


@st.composite
def failing(draw):
    spec = draw(worlds(max_events=8, max_cells=4))
    spec["passes"] = draw(st.integers(2, 5))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["interval"] = draw(st.integers(1, 3))
    spec["fail_at"] = draw(st.integers(1, 3))
    spec["handler"] = draw(st.sampled_from(["none", "false", "raises"]))
    return spec


def check_failing(spec, case):
    """A failure nobody accepts stops the run at that step."""
    from kmcpy.simulator.tracker import CallbackExecutionError

    w = World(spec)
    kmc = w.kmc(kmc_passes=spec["passes"], random_seed=spec["seed"])
    calls = []

    def func(state, step, time):
        calls.append(step)
        if len(calls) == spec["fail_at"]:
            raise ValueError("generated failure")

    def no(exc, state, step, time):
        return False

    def bad(exc, state, step, time):
        raise RuntimeError("handler failure")

    kmc.attach(func, interval=spec["interval"], name="f",
               on_error={"none": None, "false": no, "raises": bad}[spec["handler"]])
    total = spec["passes"] * w.pass_length()
    fails = spec["fail_at"] * spec["interval"] <= total
    try:
        kmc.run(label="c07f")
        require(not fails, "a failing callback did not stop the run", calls=calls)
    except CallbackExecutionError:
        require(fails, "the run stopped although no callback failed", calls=calls)
        require(kmc.simulation_state.step == spec["fail_at"] * spec["interval"],
                "the run went on after the failure", step=kmc.simulation_state.step)
    case.nontrivial(fails)


@st.composite
def registrations(draw):
    spec = draw(worlds(max_events=4, max_cells=2))
    spec["ops"] = draw(st.lists(st.one_of(
        st.tuples(st.just("attach"), st.integers(0, 3)),
        st.tuples(st.just("attach_bad"), st.sampled_from(["builtin", "interval0", "interval_f", "time0", "func",
                                                         "max0", "negative"])),
        st.tuples(st.just("detach"), st.integers(0, 3)),
        st.tuples(st.just("enable"), st.integers(0, 3), st.booleans()),
        st.tuples(st.just("builtin"), st.sampled_from(BUILTINS + ["nonsense"]), st.booleans()),
        st.tuples(st.just("clear")),
        st.tuples(st.just("run")),
    ), min_size=2, max_size=12))
    spec["ops"] = [list(o) for o in spec["ops"]] + [["run"]]
    return spec


def refused(kinds, func, what):
    try:
        func()
    except kinds:
        return
    require(False, f"not refused: {what}")


def check_registry(spec, case):
    """attach/detach/enable histories against a dictionary model."""
    w = World(spec)
    kmc = w.kmc(kmc_passes=1, random_seed=3)
    counter = {}
    model = {}
    builtin = {b: True for b in BUILTINS}
    runs = 0
    for op in spec["ops"]:
        if op[0] == "attach":
            name = f"cb{op[1]}"

            def func(state, step, time, name=name):
                counter[name] = counter.get(name, 0) + 1
                return step

            if name in model:
                refused(ValueError, lambda: kmc.attach(func, interval=1, name=name), "duplicate name")
            else:
                require(kmc.attach(func, interval=1, name=name) == name, "attach returned another name")
                model[name] = True
        elif op[0] == "attach_bad":
            f = (lambda s, t, u: None)
            bad = {
                "builtin": lambda: kmc.attach(f, interval=1, name="msd"),
                "interval0": lambda: kmc.attach(f, interval=0, name="zz"),
                "interval_f": lambda: kmc.attach(f, interval=1.5, name="zz"),
                "time0": lambda: kmc.attach(f, time_interval=0.0, name="zz"),
                "func": lambda: kmc.attach("not callable", interval=1, name="zz"),
                "max0": lambda: kmc.attach(f, interval=1, max_records=0, name="zz"),
                "negative": lambda: kmc.set_property_frequency(interval=-2),
            }[op[1]]
            refused((ValueError, TypeError), bad, op[1])
        elif op[0] == "detach":
            name = f"cb{op[1]}"
            if name in model:
                kmc.detach(name)
                del model[name]
            else:
                refused(ValueError, lambda: kmc.detach(name), "detaching an unknown callback")
        elif op[0] == "enable":
            name = f"cb{op[1]}"
            if name in model:
                kmc.set_property_enabled(name, op[2])
                model[name] = op[2]
            else:
                refused(ValueError, lambda: kmc.set_property_enabled(name, op[2]), "unknown property")
        elif op[0] == "builtin":
            if op[1] == "nonsense":
                refused(ValueError, lambda: kmc.set_property_enabled(op[1], op[2]), "unknown property")
            else:
                kmc.set_property_enabled(op[1], op[2])
                builtin[op[1]] = op[2]
        elif op[0] == "clear":
            kmc.clear_attachments()
            model.clear()
        elif op[0] == "run":
            counter.clear()
            step0 = kmc.simulation_state.step
            tracker = kmc.run(label="c07r")
            runs += 1
            n = w.pass_length()
            require(kmc.simulation_state.step == step0 + n, "steps made by one pass")
            for name in [f"cb{i}" for i in range(4)]:
                want = n if model.get(name) else 0
                require(counter.get(name, 0) == want, "calls of a callback during a run", name=name,
                        got=counter.get(name, 0), want=want)
            records = tracker.get_property_records()
            for name, on in model.items():
                want = list(range(step0 + 1, step0 + n + 1)) if on else []
                require([r["value"] for r in records.get(name, [])] == want, "records of a run", name=name)
            require(all(r in model or not v for r, v in records.items()), "records of a detached callback")
        require(sorted(kmc.list_attachments()) == sorted(model), "list of attachments",
                got=kmc.list_attachments(), want=sorted(model))
        info = kmc.list_property_calculations()
        require(sorted(info["attached_enabled"]) == sorted(k for k, v in model.items() if v)
                and sorted(info["attached_disabled"]) == sorted(k for k, v in model.items() if not v)
                and sorted(info["built_in_enabled"]) == sorted(k for k, v in builtin.items() if v)
                and sorted(info["built_in_disabled"]) == sorted(k for k, v in builtin.items() if not v),
                "list of property calculations", got=info, want=[model, builtin])
    case.nontrivial(len(spec["ops"]) >= 4 and runs >= 1 and bool(model))


@st.composite
def midruns(draw):
    spec = draw(worlds(max_events=8, max_cells=4))
    spec["passes"] = draw(st.integers(1, 5))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["eq"] = draw(st.integers(0, 1))
    spec["callbacks"] = []
    for k in range(draw(st.integers(1, 4))):
        acts = draw(st.lists(st.tuples(
            st.integers(1, 5), st.sampled_from(["detach", "detach", "enable", "disable", "attach", "replace", "clear",
                                                "frequency", "frequency"]),
            st.integers(0, 3)), max_size=3))
        spec["callbacks"].append({"interval": draw(st.sampled_from([1, 1, 2, 3, None])), "enabled": draw(st.integers(0, 4)) > 0,
                                  "max_records": draw(st.one_of(st.none(), st.integers(1, 3))),
                                  "store": draw(st.integers(0, 3)) > 0, "fails": draw(st.integers(0, 3)) == 0,
                                  "acts": [list(a) for a in acts]})
    spec["runs"] = draw(st.integers(1, 2))
    spec["global"] = draw(st.sampled_from([None, 1, 2, 3]))
    return spec


def midrun_model(spec, steps, attached, frequency):
    """Calls (step, callback, n-th call) and records of one run; attached: name -> entry, in order, is updated."""
    defs = spec["callbacks"]
    calls, changed, rows = [], False, []
    for me in attached.values():
        me["kept"] = []
    for step in steps:
        if step % frequency[0] == 0:
            rows.append(step)
        for name, me in list(attached.items()):
            cb = defs[me["k"]]
            if attached.get(name) is not me or not me["enabled"] or step % (cb["interval"] or frequency[0]):
                continue
            me["n"] += 1
            calls.append((step, me["k"], me["n"]))
            for act, other in acts_due(cb, me["n"]):
                before = (list(attached.items()), [m["enabled"] for m in attached.values()], list(frequency))
                if act == "frequency":
                    frequency[0] = other + 1
                if act in ("detach", "replace"):
                    attached.pop(f"cb{other}", None)
                if act in ("attach", "replace") and other < len(defs) and f"cb{other}" not in attached:
                    attached[f"cb{other}"] = {"k": other, "n": 0, "kept": [], "enabled": defs[other]["enabled"]}
                if act in ("enable", "disable") and f"cb{other}" in attached:
                    attached[f"cb{other}"]["enabled"] = act == "enable"
                if act == "clear":
                    attached.clear()
                changed |= before != (list(attached.items()), [m["enabled"] for m in attached.values()],
                                      list(frequency))
            if cb["fails"] and me["n"] % 2 == 0:
                continue
            if cb["store"] and attached.get(name) is me:
                me["kept"].append((step, me["n"]))
                if cb["max_records"] is not None:
                    me["kept"] = me["kept"][-cb["max_records"]:]
    return calls, changed, rows


def acts_due(cb, n):
    return [(act, other) for turn, act, other in cb["acts"] if turn == n]


def check_midrun(spec, case):
    """Callbacks that attach, detach, enable and disable callbacks while the run goes on."""
    w = World(spec)
    kmc = w.kmc(kmc_passes=spec["passes"], equilibration_passes=spec["eq"], random_seed=spec["seed"])
    defs = spec["callbacks"]
    log = []

    def register(k):
        cb = defs[k]
        count = [0]

        def func(state, step, time):
            count[0] += 1
            log.append((int(step), k, count[0]))
            for act, other in acts_due(cb, count[0]):
                name = f"cb{other}"
                known = name in kmc.list_attachments()
                if act in ("detach", "replace") and known:
                    kmc.detach(name)
                    known = False
                if act in ("attach", "replace") and other < len(defs) and not known:
                    register(other)
                if act in ("enable", "disable") and known:
                    kmc.set_property_enabled(name, act == "enable")
                if act == "clear":
                    kmc.clear_attachments()
                if act == "frequency":
                    kmc.set_property_frequency(interval=other + 1)
            if cb["fails"] and count[0] % 2 == 0:
                raise ValueError("generated failure")
            return count[0]

        kmc.attach(func, interval=cb["interval"], name=f"cb{k}", enabled=cb["enabled"], store=cb["store"],
                   max_records=cb["max_records"], on_error=lambda *a: True)

    attached = {}
    for k in range(len(defs)):
        register(k)
        attached[f"cb{k}"] = {"k": k, "n": 0, "kept": [], "enabled": defs[k]["enabled"]}
    length = w.pass_length()
    start = 0
    frequency = [max(length, 1)]
    if spec["global"] is not None:
        kmc.set_property_frequency(interval=spec["global"])
        frequency = [spec["global"]]
    for _ in range(spec["runs"]):
        log.clear()
        first = start + spec["eq"] * length
        start = first + spec["passes"] * length
        tracker = kmc.run(label="c07m")
        want, changed, rows = midrun_model(spec, range(first + 1, start + 1), attached, frequency)
        require(log == want, "calls of callbacks that are attached, detached or disabled during the run",
                got=log[:40], want=want[:40])
        require(sorted(kmc.list_attachments()) == sorted(attached), "list of attachments",
                got=kmc.list_attachments(), want=sorted(attached))
        require(len(tracker.results["time"]) == len(rows), "number of built-in summaries",
                got=len(tracker.results["time"]), want=rows)
        records = tracker.get_property_records()
        got = {name: [(r["step"], r["value"]) for r in records.get(name, [])] for name in attached}
        require(got == {name: me["kept"] for name, me in attached.items()}, "stored records", got=got,
                want={name: me["kept"] for name, me in attached.items()})
        require(all(name in attached or not rows for name, rows in records.items()), "records of a detached callback",
                got=sorted(records), want=sorted(attached))
        case.nontrivial(changed)
        case.label("changed_mid_run", changed)


SUBS = [
    Sub("schedule", plans, check_plan, quick=220, thorough=1800),
    Sub("failure", failing, check_failing, quick=60, thorough=400),
    Sub("registry", registrations, check_registry, quick=120, thorough=900),
    Sub("midrun", midruns, check_midrun, quick=120, thorough=1000),
]
