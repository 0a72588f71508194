"""C10: local-barrier rule selection and rates."""
import copy
import json
import math

from hypothesis import strategies as st

import rules as R
from harness import Sub, require
from worlds import KB, World, active_allowed, worlds

ID = "C10"
RULE = ("worlds with rule tables of 0-6 constant/state-count/species-count/pattern/exact rules over every documented "
        "site selection, state names and count limits, with and without a default, evaluated for every event over "
        "several generated states; non-trivial when at least two different rules (or a rule and the default) were "
        "selected")
ASSUMPTIONS = ["a pattern rule has as many entries as it selects sites for every event it is evaluated on"]


@st.composite
def cases(draw, default=False):
    spec = draw(worlds(max_events=6, max_cells=3, max_env=5))
    n = len(active_allowed(spec))
    if draw(st.integers(0, 2)) == 0:  # in small supercells an environment lists a site once per periodic image
        spec["events"] = [[i, j, list(env) + list(env)[:2] + list(env)[-1:]] for i, j, env in spec["events"]]
    spec["table"] = draw(R.rule_tables(spec, max_rules=6, default=default, min_rules=0))
    spec["states"] = draw(st.lists(st.lists(st.integers(0, 5), min_size=n, max_size=n), min_size=2, max_size=6))
    return spec


def states_of(w):
    out = [list(w.spec["occ"])]
    for raw in w.spec["states"]:
        out.append([x % len(a) for x, a in zip(raw, w.allowed)])
    return out


def runtime(spec):
    from kmcpy.simulator.config import RuntimeConfig

    return RuntimeConfig(temperature=float(spec["T"]), attempt_frequency=float(spec["v"]))


def answer(model, event, state):
    try:
        return model.compute(simulation_state=state, event=event)
    except KeyError:
        return None


def check_selection(spec, case):
    from kmcpy.simulator.state import State

    w = World(spec)
    table = spec["table"]
    given = copy.deepcopy(table)
    model = R.build_model(table)
    require(table == given, "building the model changed the rule dictionaries")
    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    rc = runtime(spec)
    picked = set()
    for occ in states_of(w):
        state = State(occupations=list(occ))
        for event, ref in zip(lib.events, w.events):
            try:
                barrier, which = R.ref_barrier(table, occ, ref)
            except R.NoMatch:
                require(answer(model, event, state) is None, "no rule matches and there is no default, but a barrier "
                        "is returned", event=ref, occ=occ)
                case.label("no match")
                continue
            got = answer(model, event, state)
            require(got is not None and abs(got - barrier) < 1e-9, "selected barrier", got=got, want=barrier,
                    rule=which, event=ref, occ=occ)
            picked.add(which)
            if which is not None:
                extra = table["rules"][which].get("properties", {}).get("extra")
                if extra is not None:
                    require(model.compute(simulation_state=state, event=event, property_name="extra") == extra,
                            "another property of the selected rule")
            rate = model.compute_probability(event=event, runtime_config=rc, simulation_state=state)
            want = R.ref_rate(table, w, occ, ref, spec["T"], spec["v"])
            require(math.isclose(rate, want, rel_tol=1e-9, abs_tol=0.0), "rate of an event", got=rate, want=want,
                    event=ref, occ=occ)
            case.label("possible hop", want > 0)
        require([int(x) for x in state.occupations] == occ, "evaluating rules changed the state")
    case.nontrivial(len(picked) >= 2)
    for k in picked:
        case.label("kind:" + (R.kind_of(table["rules"][k]) if k is not None else "default"))


def same_answers(w, spec, one, two, what):
    from kmcpy.simulator.state import State

    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    rc = runtime(spec)
    seen = set()
    for occ in states_of(w):
        for event in lib.events:
            state = State(occupations=list(occ))
            a, b = answer(one, event, state), answer(two, event, state)
            require(a == b, what + ": barrier", before=a, after=b)
            if a is None:
                continue
            seen.add(a)
            a = one.compute_probability(event=event, runtime_config=rc, simulation_state=state)
            b = two.compute_probability(event=event, runtime_config=rc, simulation_state=state)
            require(a == b, what + ": rate", before=a, after=b)
    return seen


def check_roundtrip(spec, case):
    from kmcpy.models import LocalBarrierModel
    from kmcpy.models.base import MODEL_FILETYPE

    w = World(spec)
    model = R.build_model(spec["table"])
    folder = case.tmp()
    path = folder + "/model.json"
    model.to(path)
    again = LocalBarrierModel.from_file(path)
    seen = same_answers(w, spec, model, again, "saved and reloaded")
    require(json.dumps(model.as_dict(), sort_keys=True) == json.dumps(again.as_dict(), sort_keys=True),
            "saving again gives another content")
    same_answers(w, spec, model, LocalBarrierModel.from_dict(json.loads(json.dumps(model.as_dict()))),
                 "as_dict/from_dict")
    with open(folder + "/envelope.json", "w") as fh:
        json.dump({"filetype": MODEL_FILETYPE, "model_type": "local_barrier", "local_barrier": model.as_dict()}, fh)
    same_answers(w, spec, model, LocalBarrierModel.from_file(folder + "/envelope.json"), "model-file envelope")
    case.nontrivial(len(seen) >= 2)


def check_builders(spec, case):
    """The add_* helpers and exact-entry constructors mean the same as the rule dictionaries."""
    from kmcpy.models import LocalBarrierModel
    from kmcpy.simulator.state import State

    w = World(spec)
    table = dict(spec["table"], prop=None)
    reference = R.build_model(table)
    model = LocalBarrierModel(default_barrier=table.get("default_barrier"), site_species=table["site_species"])
    helped = 0
    for rule in table["rules"]:
        kind = R.kind_of(rule)
        keys = set(rule) - {"type", "name", "barrier", "properties"}
        args = {k: rule[k] for k in ("name", "barrier", "properties") if k in rule}
        if kind in ("state_count", "species_count") and keys <= {"sites", "state", "species", "count", "min_count",
                                                               "max_count"}:
            name = getattr(model, f"add_{kind}_rule")(**args, **{k: rule[k] for k in keys})
        elif kind == "pattern" and keys <= {"sites", "pattern"}:
            name = model.add_pattern_rule(**args, **{k: rule[k] for k in keys})
        elif kind == "exact":
            name = model.add_exact_rule(**args, **{k: rule[k] for k in keys})
        else:
            model.add_rule(dict(rule))
            continue
        helped += 1
        require(name == rule["name"], "name returned by the helper", got=name, want=rule["name"])
    seen = same_answers(w, spec, reference, model, "rules added through helper methods")
    # snapshots turned into exact entries reproduce themselves and nothing else
    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    entries, want = [], {}
    for n, occ in enumerate(states_of(w)):
        event, ref = lib.events[n % len(lib.events)], w.events[n % len(lib.events)]
        key = (ref[0], ref[1], tuple(R.canonical(ref)), tuple(occ[s] for s in R.canonical(ref)))
        if key in want:
            continue
        want[key] = 100.0 + n
        entries.append(LocalBarrierModel.entry_from_event_state(event, State(occupations=list(occ)),
                                                                {"barrier": 100.0 + n},
                                                                **({"name": f"entry{n}"} if n % 2 else {})))
    flat = LocalBarrierModel.constant_barrier(150.0 + spec["T"] % 7)
    for occ in states_of(w):
        for event, ref in zip(lib.events, w.events):
            got = answer(flat, event, State(occupations=list(occ)))
            require(got == 150.0 + spec["T"] % 7, "barrier of a constant-barrier model", got=got)
            rate = flat.compute_probability(event=event, runtime_config=runtime(spec),
                                            simulation_state=State(occupations=list(occ)))
            expected = R.ref_rate({"rules": [], "default_barrier": 150.0 + spec["T"] % 7}, w, occ, ref, spec["T"],
                                  spec["v"])
            require(math.isclose(rate, expected, rel_tol=1e-9, abs_tol=0.0), "rate of a constant-barrier model",
                    got=rate, want=expected)
    settings = {}
    if spec["T"] % 2:  # with a default under another name
        settings = {"default_barrier": 7.5, "default_property": "high", "probability_property": "high",
                    "site_species": spec["table"]["site_species"], "name": "mine"}
        entries = [dict(e, properties={"barrier": 1.0, "high": e["properties"]["barrier"]}) for e in entries]
        settings["default_properties"] = {"high": 9000.0}
    exact = LocalBarrierModel.from_exact_entries(entries, **settings)
    if settings:
        require(exact.name == "mine" and exact.default_properties == {"high": 9000.0, "barrier": 7.5}
                and exact.probability_property == "high", "settings of an exact-entry model")
    for occ in states_of(w):
        for event, ref in zip(lib.events, w.events):
            key = (ref[0], ref[1], tuple(R.canonical(ref)), tuple(occ[s] for s in R.canonical(ref)))
            got = answer(exact, event, State(occupations=list(occ)))
            if key not in want:
                require(got == (9000.0 if settings else None), "an exact entry matched another event or occupation",
                        got=got)
            elif (got is not None and not settings) or [e for e in entries if list(e["local_env_indices"]) == list(ref[2])
                                     and list(e["mobile_ion_indices"]) == [ref[0], ref[1]]
                                     and list(e["occupations"]) == list(key[3])]:
                require(got == want[key], "an exact entry does not reproduce its snapshot", got=got, want=want[key])
    case.nontrivial(helped > 0 and len(seen) >= 2)


@st.composite
def incomplete(draw):
    spec = draw(cases(default=True))
    species = spec["table"]["site_species"]
    for pick in draw(st.lists(st.integers(0, 60), min_size=1, max_size=3)):
        site = sorted(species)[pick % len(species)] if species else None
        if site is None:
            break
        if draw(st.integers(0, 3)) == 0:
            species.pop(site)
        elif species[site]:
            species[site].pop(sorted(species[site])[pick % len(species[site])])
    labels = sorted({l for a in species.values() for l in a.values()} | {"Na"})
    where = draw(st.sampled_from(["local_env", "all", "canonical", "mobile_ion"]))
    spec["table"]["rules"].insert(draw(st.integers(0, 1)), dict(
        {"type": "species_count", "name": "counted", "barrier": 77, "sites": where,
         "species": draw(st.sampled_from(labels))}, **draw(R.count_constraints())))
    if draw(st.integers(0, 2)) == 0:
        spec["table"]["rules"].insert(draw(st.integers(0, 2)), {
            "type": "pattern", "name": "long", "barrier": 78, "sites": draw(st.sampled_from(["local_env", "canonical"])),
            "pattern": draw(st.lists(st.one_of(st.just("*"), st.just("*"), R.state_token()), min_size=1, max_size=5))})
    return spec


def check_incomplete(spec, case):
    """Counting a species where none is declared, or comparing a pattern of another length, is an error."""
    from kmcpy.simulator.state import State

    w = World(spec)
    model = R.build_model(spec["table"])
    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    for occ in states_of(w):
        for event, ref in zip(lib.events, w.events):
            try:
                want = R.ref_barrier(spec["table"], occ, ref)[0]
            except R.Unknown:
                want = None
            try:
                got = model.compute(simulation_state=State(occupations=list(occ)), event=event)
            except Exception as exc:  # noqa: BLE001
                require(want is None, "a barrier that is defined is refused", error=repr(exc), want=want)
                case.nontrivial()
                continue
            require(want is not None, "a rule that has no meaning here was evaluated", got=got, occ=occ,
                    event=ref)
            require(abs(got - want) < 1e-9, "selected barrier", got=got, want=want)


BAD = [
    ("negative count", {"count": -1}), ("negative min_count", {"min_count": -2, "count": None}),
    ("fractional count", {"count": 1.5}), ("count and min_count", {"count": 1, "min_count": 1}),
    ("no count", {"count": None}), ("unknown selector", {"sites": "nearby"}), ("empty sites", {"sites": []}),
    ("sites not indices", {"sites": ["a"]}), ("negative site", {"sites": [0, -1]}), ("negative state", {"state": -1}),
    ("unknown state", {"state": "half"}), ("boolean state", {"state": True}), ("no barrier", {"barrier": None}),
    ("text barrier", {"barrier": "300"}), ("unknown type", {"type": "distance"}),
    ("boolean count", {"count": True}), ("negative endpoint", {"mobile_ion_indices": [0, -1]}),
    ("endpoint not a list", {"mobile_ion_indices": "01"}),
    ("fractional site", {"sites": [0, 1.5]}), ("boolean site", {"sites": [True]}), ("text site", {"sites": ["1"]}),
    ("fractional endpoint", {"mobile_ion_indices": [0, 0.5]}), ("negative max_count", {"max_count": -1, "count": None}),
    ("count and max_count", {"max_count": 2}), ("fractional max_count", {"max_count": 0.5, "count": None}),
    ("fractional environment", {"local_env_indices": [1.5]}), ("negative environment", {"local_env_indices": [-2]}),
    ("boolean barrier", {"barrier": True}), ("text property", {"properties": {"barrier": "12"}}),
    ("boolean property", {"properties": {"barrier": False}}), ("blank property name", {"properties": {" ": 3.0}}),
    ("fractional state", {"state": 0.5}),
    ("negative state in text", {"state": "-1"}), ("type not text", {"type": 3}), ("blank type", {"type": " "}),
]
BAD_OTHER = [
    ("empty pattern", {"type": "pattern", "pattern": [], "barrier": 1.0}),
    ("pattern with unknown token", {"type": "pattern", "pattern": ["*", "?"], "barrier": 1.0}),
    ("no species", {"type": "species_count", "count": 1, "barrier": 1.0}),
    ("empty species list", {"type": "species_count", "species": [], "count": 1, "barrier": 1.0}),
    ("exact without environment", {"type": "exact", "mobile_ion_indices": [0, 1], "occupations": [0, 1],
                                   "barrier": 1.0}),
    ("exact too short", {"type": "exact", "mobile_ion_indices": [0, 1], "local_env_indices": [2],
                         "occupations": [0, 1], "barrier": 1.0}),
    ("exact too long", {"type": "exact", "mobile_ion_indices": [0, 1], "local_env_indices": [1],
                        "occupations": [0, 1, 1], "barrier": 1.0}),
    ("blank species in a list", {"type": "species_count", "species": ["Na", " "], "count": 1, "barrier": 1.0}),
    ("species not text", {"type": "species_count", "species": [11], "count": 1, "barrier": 1.0}),
    ("species neither text nor list", {"type": "species_count", "species": 11, "count": 1, "barrier": 1.0}),
    ("species count without limits", {"type": "species_count", "species": "Na", "barrier": 1.0}),
    ("pattern not a list", {"type": "pattern", "pattern": "**", "barrier": 1.0}),
    ("pattern with negative state", {"type": "pattern", "pattern": ["*", -1], "barrier": 1.0}),
    ("exact with negative state", {"type": "exact", "mobile_ion_indices": [0, 1], "local_env_indices": [],
                                   "occupations": [0, -1], "barrier": 1.0}),
    ("exact without endpoints", {"type": "exact", "local_env_indices": [2], "occupations": [0], "barrier": 1.0}),
    ("constant without barrier", {"type": "constant"}),
    ("rule not an object", ["constant", 300.0]),
]
BAD_MODEL = [
    ("text default barrier", {"default_barrier": "300"}), ("boolean default barrier", {"default_barrier": True}),
    ("empty default properties", {"default_properties": {}}),
    ("text default property", {"default_properties": {"barrier": "300"}}),
    ("blank default property name", {"default_properties": {"": 3.0}}),
    ("rules not a list", {"rules": {"0": {"barrier": 3.0}}}), ("unknown mode", {"probability_mode": "tunnel"}),
    ("site species not a mapping", {"site_species": [["Na"]]}),
    ("site species by name", {"site_species": {"first": {0: "Na"}}}),
    ("site species without states", {"site_species": {0: ["Na", "X"]}}),
    ("blank site species", {"site_species": {0: {0: " "}}}),
    ("site species of a negative state", {"site_species": {0: {-1: "Na"}}}),
]


@st.composite
def invalid(draw):
    spec = draw(cases(default=True))
    good = {"type": "state_count", "state": draw(R.state_token()), "count": draw(st.integers(0, 3)),
            "barrier": draw(st.integers(10, 500)), "sites": draw(st.sampled_from(["local_env", "all", [0]]))}
    spec["bad"] = []
    for pick in draw(st.lists(st.integers(0, len(BAD) + len(BAD_OTHER) - 1), min_size=2, max_size=5, unique=True)):
        if pick < len(BAD):
            why, change = BAD[pick]
            rule = dict(good)
            rule.update(change)
            spec["bad"].append([why, {k: v for k, v in rule.items() if v is not None}])
        else:
            spec["bad"].append(list(BAD_OTHER[pick - len(BAD)]))
    spec["bad_model"] = list(draw(st.sampled_from(BAD_MODEL)))
    spec["where"] = draw(st.integers(0, 6))
    return spec


def check_invalid(spec, case):
    from kmcpy.models import LocalBarrierModel

    w = World(spec)
    model = R.build_model(spec["table"])
    for why, bad in spec["bad"]:
        try:
            model.add_rule(copy.deepcopy(bad))
        except (ValueError, TypeError, KeyError):
            pass
        else:
            require(False, "an invalid rule was accepted: " + why, rule=bad)
        rules = [dict(r) for r in spec["table"]["rules"]]
        rules.insert(spec["where"] % (len(rules) + 1), copy.deepcopy(bad))
        try:
            LocalBarrierModel(rules=rules, default_barrier=100.0, site_species=spec["table"]["site_species"])
        except (ValueError, TypeError, KeyError):
            pass
        else:
            require(False, "a table with an invalid rule was accepted: " + why, rule=bad)
    same_answers(w, spec, R.build_model(spec["table"]), model, "after a rejected rule")
    why, change = spec["bad_model"]
    settings = dict({"rules": [dict(r) for r in spec["table"]["rules"]], "default_barrier": 100.0,
                     "site_species": spec["table"]["site_species"]}, **copy.deepcopy(change))
    try:
        LocalBarrierModel(**settings)
    except (ValueError, TypeError, KeyError):
        pass
    else:
        require(False, "an invalid table was accepted: " + why, change=repr(change))
    exact = [r for r in spec["table"]["rules"] if r.get("type") == "exact"]
    if exact:
        try:
            R.build_model({"rules": spec["table"]["rules"] + [dict(exact[0], name="twin")],
                           "site_species": spec["table"]["site_species"]})
        except ValueError:
            pass
        else:
            require(False, "a duplicate exact rule was accepted")
    case.nontrivial()
    for why, _ in spec["bad"]:
        case.label(why)
    case.label(spec["bad_model"][0])


SUBS = [
    Sub("selection", cases, check_selection, quick=400, thorough=12000),
    Sub("roundtrip", lambda: cases(default=True), check_roundtrip, quick=120, thorough=4000),
    Sub("builders", lambda: cases(default=True), check_builders, quick=120, thorough=4000),
    Sub("incomplete", incomplete, check_incomplete, quick=120, thorough=2500),
    Sub("invalid", invalid, check_invalid, quick=120, thorough=2500),
]
