"""Random LocalBarrierModel rule tables and a reference interpreter for the documented semantics."""
import json
import math
import os
import tempfile

from hypothesis import strategies as st

from worlds import KB, VACANCY_WORDS, active_allowed

ALIASES = {"occupied": 0, "match": 0, "template": 0, "vacant": 1, "vacancy": 1, "mismatch": 1, "other": 1}


class NoMatch(Exception):
    pass


class Unknown(Exception):
    """The rule has no meaning here: undeclared species, or a pattern of another length than the selection."""


def state_tokens(value):
    names = [k for k, v in ALIASES.items() if v == value]
    return [value, str(value)] + names


@st.composite
def state_token(draw, hi=2):
    value = draw(st.integers(0, hi))
    return draw(st.sampled_from(state_tokens(value)))


def token_value(token):
    if isinstance(token, str):
        token = token.strip().lower()
        return ALIASES[token] if token in ALIASES else int(token)
    return token


@st.composite
def count_constraints(draw):
    if draw(st.booleans()):
        return {"count": draw(st.sampled_from([1, 2, 0, 3, 4]))}
    out = {}
    which = draw(st.integers(0, 2))
    if which in (0, 2):
        out["min_count"] = draw(st.integers(0, 4))
    if which in (1, 2):
        out["max_count"] = draw(st.integers(0, 5))
    return out


def canonical(event):
    i, j, env = event
    return list(dict.fromkeys([i, j] + list(env)))


def selected(sites, event, n):
    i, j, env = event
    if isinstance(sites, (list, tuple)):
        return list(sites)
    return {"canonical": canonical(event), "local_env": list(env), "mobile_ion": [i, j], "from": [i],
            "to": [j], "all": list(range(n))}[sites]


@st.composite
def rule_tables(draw, world, max_rules=5, default=True, min_rules=1):
    allowed = active_allowed(world)
    n = len(allowed)
    events = [tuple(e) for e in world["events"]]
    labels = sorted({"X" if l in VACANCY_WORDS else l for a in allowed for l in a})
    rules = []
    exact_keys = set()
    for k in range(draw(st.integers(min_rules, max_rules))):
        kind = draw(st.sampled_from(["state_count", "species_count", "pattern", "exact", "state_count",
                                     "species_count", "constant"]))
        rule = {"type": kind, "name": f"r{k}"}
        if draw(st.booleans()):
            rule["barrier"] = draw(st.integers(50, 600))
        else:
            rule["properties"] = {"barrier": draw(st.integers(50, 600)) / 2, "extra": draw(st.integers(0, 9))}
        ev = draw(st.sampled_from(events))
        restrict = draw(st.integers(0, 3))
        if kind == "constant" or restrict == 0:
            rule["mobile_ion_indices"] = [ev[0], ev[1]]
            if draw(st.booleans()):
                rule["local_env_indices"] = list(ev[2])
        sel = draw(st.sampled_from(["local_env", "canonical", "mobile_ion", "from", "to", "all", "explicit",
                                    "explicit", "default"]))
        if kind in ("state_count", "species_count"):
            if sel == "explicit":
                rule["sites"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True))
            elif sel != "default":
                rule["sites"] = sel
            rule.update(draw(count_constraints()))
            if kind == "state_count":
                key = draw(st.sampled_from(["state", "state", "occupation"]))
                rule[key] = draw(state_token())
            else:
                rule["species"] = draw(st.one_of(
                    st.sampled_from(labels),
                    st.lists(st.sampled_from(labels), min_size=1, max_size=3)))
        elif kind == "pattern":
            # a pattern needs a fixed number of selected sites for every event it meets
            if sel in ("mobile_ion", "from", "to"):
                rule["sites"] = sel
                length = 2 if sel == "mobile_ion" else 1
            elif sel == "all":
                rule["sites"] = "all"
                length = n
            elif sel in ("explicit",):
                rule["sites"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True))
                length = len(rule["sites"])
            else:
                rule["mobile_ion_indices"] = [ev[0], ev[1]]
                rule["local_env_indices"] = list(ev[2])
                if sel == "local_env" and ev[2]:
                    rule["sites"] = "local_env"
                    length = len(ev[2])
                else:
                    if sel == "canonical":
                        rule["sites"] = "canonical"
                    length = len(canonical(ev))
            rule["pattern"] = [draw(st.one_of(st.just("*"), state_token())) for _ in range(length)]
        elif kind == "exact":
            rule["mobile_ion_indices"] = [ev[0], ev[1]]
            rule["local_env_indices"] = list(ev[2])
            can = canonical(ev)
            rule["occupations"] = [draw(st.integers(0, len(allowed[s]) - 1)) for s in can]
            if draw(st.booleans()):
                # aim at the state the world starts in
                rule["occupations"] = [world["occ"][s] for s in can]
            key = (ev[0], ev[1], tuple(can), tuple(rule["occupations"]))
            if key in exact_keys:
                continue
            exact_keys.add(key)
        if draw(st.integers(0, 3)) == 0:
            rule.pop("type")  # documented: the type may be inferred from the keys
        rules.append(rule)
    table = {"rules": rules,
             "site_species": {str(s): {str(k): ("X" if l in VACANCY_WORDS else l) for k, l in enumerate(a)}
                              for s, a in enumerate(allowed)}}
    if default or draw(st.booleans()):
        table["default_barrier"] = draw(st.integers(50, 600))
    table["how"] = draw(st.sampled_from(["init", "init", "build", "defaults", "dict", "file"]))
    table["prop"] = draw(st.sampled_from([None, None, "alt"]))
    return table


def build_model(table):
    from kmcpy.models import LocalBarrierModel

    rules = [dict(r) for r in table["rules"]]
    default, prop, how = table.get("default_barrier"), table.get("prop"), table.get("how", "init")
    args = {"rules": rules, "site_species": table["site_species"]}
    if prop:  # the barrier sits under another name; "barrier" is a decoy
        for k, rule in enumerate(rules):
            value = rule_barrier(rule)
            rule.pop("barrier", None)
            rule["properties"] = dict(rule.get("properties", {}), barrier=5000.0 + k, **{prop: value})
        args.update(default_property=prop, probability_property=prop)
        if default is not None:
            args["default_properties"] = {"barrier": 6000.0, prop: default}
    elif default is not None:
        if how in ("defaults", "build"):
            args["default_properties"] = {"barrier": default, "other": 1.0}
        else:
            args["default_barrier"] = default
    if how == "build":  # replaces an older table
        model = LocalBarrierModel(rules=[{"type": "constant", "mobile_ion_indices": list(r["mobile_ion_indices"]),
                                          "barrier": 7000.0} for r in rules if "mobile_ion_indices" in r])
        model.build(**args)
        return model
    if how == "dict":
        return LocalBarrierModel.from_dict(json.loads(json.dumps(args)))
    if how == "file":
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "table.json")
            with open(path, "w") as fh:
                json.dump(args, fh)
            return LocalBarrierModel.from_file(path)
    return LocalBarrierModel(**args)


def kind_of(rule):
    if "type" in rule:
        return rule["type"]
    if "occupations" in rule:
        return "exact"
    if "pattern" in rule:
        return "pattern"
    if "species" in rule:
        return "species_count"
    if "state" in rule or "occupation" in rule:
        return "state_count"
    return "constant"


def rule_barrier(rule):
    props = rule.get("properties", {})
    return float(props.get("barrier", rule.get("barrier")))


def matches(rule, table, occ, event):
    i, j, env = event
    if "mobile_ion_indices" in rule and list(rule["mobile_ion_indices"]) != [i, j]:
        return False
    if "local_env_indices" in rule and list(rule["local_env_indices"]) != list(env):
        return False
    kind = kind_of(rule)
    if kind == "constant":
        return True
    if kind == "exact":
        return [token_value(t) for t in rule["occupations"]] == [occ[s] for s in canonical(event)]
    default = "canonical" if kind == "pattern" else "local_env"
    sites = selected(rule.get("sites", default), event, len(occ))
    if kind == "pattern":
        if len(rule["pattern"]) != len(sites):
            raise Unknown()
        return all(t == "*" or token_value(t) == occ[s] for t, s in zip(rule["pattern"], sites))
    if kind == "state_count":
        want = token_value(rule["occupation"] if "occupation" in rule else rule["state"])
        count = sum(1 for s in sites if occ[s] == want)
    else:
        species = rule["species"]
        species = {species} if isinstance(species, str) else set(species)
        if any(str(occ[s]) not in table["site_species"].get(str(s), {}) for s in sites):
            raise Unknown()
        count = sum(1 for s in sites if table["site_species"][str(s)][str(occ[s])] in species)
    if "count" in rule:
        return count == rule["count"]
    return rule.get("min_count", 0) <= count <= rule.get("max_count", 10**9)


def ref_barrier(table, occ, event):
    """(barrier, index of the matching rule or None for the default); NoMatch if nothing applies."""
    for k, rule in enumerate(table["rules"]):
        if matches(rule, table, occ, event):
            return rule_barrier(rule), k
    if table.get("default_barrier") is not None:
        return float(table["default_barrier"]), None
    raise NoMatch()


def ref_rate(table, w, occ, event, T, v):
    if w.direction(occ, event[0], event[1]) == 0:
        return 0.0
    barrier, _ = ref_barrier(table, occ, event)
    return v * math.exp(-barrier / (KB * T))
