"""C19: external site-energy evaluators stay synchronized with the simulation."""
import math

import numpy as np
from hypothesis import strategies as st

import sitefns
from harness import Sub, require
from worlds import KB, World, active_allowed, worlds

ID = "C19"
RULE = ("worlds with a generated injective site mapping into a larger external space (none, list, dict, dict with "
        "string keys), global/per-site/absent state mappings onto ints, floats or strings, fill values, initial "
        "external occupations, declared dtypes and units, simulated by the real KMC through CompositeLCEModel and by "
        "direct compute/apply_event calls; every callback call is compared with the mapped image of the current "
        "occupations; non-trivial when at least 3 hops were accepted and evaluated")
ASSUMPTIONS = ["a declared external dtype can represent the mapped values"]

VALUES = {
    "int": [3, -1, 7, 0, 12, 1, 2, -9, 25, 4],
    "float": [0.5, -1.25, 2.0, 3.75, 0.0, 1.5, -0.75, 7.125, 11.0, 0.25],
    "mixed": [1, 0.5, 2, -1.25, 0, 3, 2.5, -4, 9, 0.125],
    "str": ["Li", "X", "Na", "Vacancy", "a", "Cobalt-3+", "", "O", "zz", "vac"],
}


@st.composite
def externals(draw, allowed):
    n = len(allowed)
    kind = draw(st.sampled_from(["int", "int", "float", "mixed", "str"]))
    pool = draw(st.permutations(VALUES[kind]))
    width = max(len(a) for a in allowed)
    ext = {"map": draw(st.sampled_from(["none", "list", "dict", "dict", "strdict"])), "kind": kind}
    pad = draw(st.integers(0, 3))
    targets = draw(st.permutations(range(n + pad))) if ext["map"] != "none" else list(range(n))
    ext["targets"] = list(targets)[:n]
    ext["states"] = draw(st.sampled_from(["none", "list", "dict", "by_site", "by_site_list", "some_sites"]))
    if ext["states"] in ("list", "dict"):
        ext["table"] = list(pool[:width])
    elif ext["states"] in ("by_site", "by_site_list", "some_sites"):
        ext["table"] = list(pool[:width])
        rows = []
        for s in range(n):
            if ext["states"] == "some_sites" and draw(st.booleans()):
                rows.append(None)
                continue
            shift = draw(st.integers(0, len(pool) - 1))
            rows.append([pool[(shift + k) % len(pool)] for k in range(width)])
        ext["rows"] = rows
        ext["global"] = ext["states"] == "some_sites" and draw(st.booleans())
    ext["size"] = draw(st.sampled_from(["none", "exact", "more"]))
    ext["fill"] = draw(st.sampled_from([0, 0, -1, 0.5, "X", None]))
    ext["initial"] = draw(st.sampled_from(["none", "none", "list", "array"]))
    ext["extra"] = draw(st.integers(0, 3))
    ext["dtype"] = draw(st.booleans())
    ext["units"] = draw(st.sampled_from(["eV", "meV", "ev", "MEV", None]))
    ext["takes"] = draw(st.sampled_from(["all", "kwargs", "few", "changes", "state"]))
    ext["apply"] = draw(st.booleans())
    ext["runtime"] = draw(st.sampled_from(["none", "object", "reference", "reference"]))
    ext["coef"] = draw(st.lists(st.integers(-40, 40), min_size=2, max_size=5))
    ext["order"] = draw(st.booleans())
    return ext


@st.composite
def cases(draw):
    spec = draw(worlds(max_events=8, max_cells=4, max_env=4, min_events=2))
    spec["ext"] = draw(externals(active_allowed(spec)))
    spec["cfg"] = {"equilibration_passes": draw(st.integers(0, 2)), "kmc_passes": draw(st.integers(1, 4)),
                   "random_seed": draw(st.integers(0, 2**31))}
    spec["again"] = draw(st.booleans())
    return spec


class Mapping:
    """Reference image of the occupations in external coordinates."""

    def __init__(self, ext, n):
        self.ext, self.n = ext, n
        top = max(ext["targets"], default=-1) + 1
        if ext["initial"] != "none":
            self.size = top + ext["extra"]
            pool = VALUES[ext["kind"]] if ext["states"] != "none" else VALUES["int"]
            self.background = [pool[k % len(pool)] for k in range(self.size)]
        else:
            self.size = {"none": top, "exact": top, "more": top + ext["extra"]}[ext["size"]]
            self.background = [ext["fill"]] * self.size

    def value(self, site, state):
        ext = self.ext
        if ext["states"] == "none":
            return state
        if ext["states"] in ("list", "dict"):
            return ext["table"][state]
        row = ext["rows"][site]
        if row is not None:
            return row[state]
        return ext["table"][state] if ext["global"] else state

    def image(self, occ):
        out = list(self.background)
        for site, state in enumerate(occ):
            out[self.ext["targets"][site]] = self.value(site, state)
        return out

    def changes(self, before, after, pair):
        out = []
        for s in pair:
            old, new = self.value(s, before[s]), self.value(s, after[s])
            if old != new:
                out.append((s, self.ext["targets"][s], before[s], after[s], old, new))
        return out

    def kwargs(self, order):
        ext, kw = self.ext, {}
        if ext["map"] == "list":
            kw["site_mapping"] = list(ext["targets"])
        elif ext["map"] == "dict":
            kw["site_mapping"] = {k: t for k, t in reversed(list(enumerate(ext["targets"])))}
        elif ext["map"] == "strdict":
            kw["site_mapping"] = {str(k): t for k, t in enumerate(ext["targets"])}
        if ext["states"] == "list":
            kw["state_mapping"] = list(ext["table"])
        elif ext["states"] == "dict":
            kw["state_mapping"] = dict(reversed(list(enumerate(ext["table"]))))
        elif ext["states"] == "by_site":
            kw["state_mapping_by_site"] = {str(s): dict(enumerate(r)) for s, r in enumerate(ext["rows"])}
        elif ext["states"] == "by_site_list":
            kw["state_mapping_by_site"] = [list(r) for r in ext["rows"]]
        elif ext["states"] == "some_sites":
            kw["state_mapping_by_site"] = {s: dict(enumerate(r)) for s, r in enumerate(ext["rows"]) if r is not None}
            if ext["global"]:
                kw["state_mapping"] = dict(enumerate(ext["table"]))
        if ext["initial"] != "none":
            kw["initial_occupation"] = (list(self.background) if ext["initial"] == "list"
                                        else np.array(self.background))
        else:
            if ext["size"] != "none":
                kw["external_size"] = self.size
            kw["external_fill_value"] = ext["fill"]
        if ext["dtype"]:
            values = self.background + [self.value(s, k) for s in range(self.n) for k in range(len(VALUES["int"]))
                                        if ext["states"] == "none" or k < len(ext["table"])]
            if all(isinstance(v, int) for v in values):
                kw["external_dtype"] = "int32"
            elif all(isinstance(v, (int, float)) for v in values):
                kw["external_dtype"] = "float64"
            else:
                kw["external_dtype"] = "object"
        if ext["order"]:
            kw["active_site_order"] = order
        if ext["units"] is not None:
            kw["units"] = ext["units"]
        return kw


def number(value):
    if isinstance(value, str):
        return sum(ord(c) for c in value) % 23
    return 0.0 if value is None else float(value)


def raw_energy(coef, occupation, changes):
    """An energy difference that depends on the whole external occupation and on the changes."""
    total = 0.0
    for k, v in enumerate(occupation):
        total += coef[k % len(coef)] * number(v) * (1 + k % 3)
    for _, site, _, _, old, new in changes:
        total += coef[site % len(coef)] * (number(new) - 2 * number(old))
    return math.fmod(total, 90.0)


def same_list(got, want):
    got = list(got)
    return len(got) == len(want) and all(type(a) in (str, np.str_) and a == b if isinstance(b, str) else
                                         not isinstance(a, str) and a == b for a, b in zip(got, want))


def as_tuples(changes):
    out = []
    for c in changes:
        require(c.as_flip() == (c.external_site, c.new_value), "as_flip of a change")
        require(c.as_system_change_tuple() == (c.external_site, c.old_value, c.new_value), "change tuple")
        out.append((c.kmcpy_site, c.external_site, c.old_state, c.new_state, c.old_value, c.new_value))
    return out


class Probe:
    """The user's callables; every call is compared with the reference image."""

    def __init__(self, w, ext, spec):
        self.w, self.ext, self.spec = w, ext, spec
        self.m = Mapping(ext, w.n)
        self.computed = self.applied = 0
        self.runtime = object() if ext["runtime"] == "object" else None
        self.made = len(sitefns.MADE)
        self.scale = {"mev": 1.0, "ev": 1e-3, None: 1e-3}[ext["units"].lower() if ext["units"] else None]
        self.factor = {"mev": 1.0}.get(ext["units"].lower() if ext["units"] else None, 1000.0)

    def expected(self, event, occ):
        """(external image, changes, raw value) of a proposed hop; None when the hop is impossible."""
        i, j = (int(x) for x in event.mobile_ion_indices)
        if self.w.direction(occ, i, j) == 0:
            return None
        after = self.w.hop(occ, i, j)
        image = self.m.image(occ)
        changes = self.m.changes(occ, after, (i, j))
        full = self.ext["takes"] in ("all", "kwargs", "few")
        raw = raw_energy(self.ext["coef"], image if full else [], changes if self.ext["takes"] != "state" else [])
        if self.ext["takes"] == "state":
            raw = raw_energy(self.ext["coef"], list(occ), [])
        return image, changes, raw * self.scale

    def check(self, event, simulation_state, external_occupation=None, changes=None):
        occ = [int(x) for x in simulation_state.occupations]
        found = self.expected(event, occ)
        if found is None:
            return occ, None
        image, want, raw = found
        if external_occupation is not None:
            require(same_list(external_occupation, image), "external occupation during evaluation",
                    got=list(external_occupation), want=image, occ=occ)
        if changes is not None:
            require(as_tuples(changes) == want, "announced changes", got=as_tuples(changes), want=want)
        self.computed += 1
        return occ, raw

    def mine(self, runtime):
        """The object given, or the one object made by the configured factory."""
        if self.ext["runtime"] == "reference":
            require(len(sitefns.MADE) == self.made + 1, "runtime objects made by the factory",
                    made=len(sitefns.MADE) - self.made)
            self.runtime = sitefns.MADE[self.made]
            require(self.runtime.factor == 2.5, "keywords of the runtime factory")
        return runtime is self.runtime

    def callable(self):
        coef, scale = self.ext["coef"], self.scale

        def all_of(runtime, external_occupation, changes, event, simulation_state, tag):
            require(self.mine(runtime) and tag == "t", "runtime and user keywords")
            self.check(event, simulation_state, external_occupation, changes)
            return raw_energy(coef, list(external_occupation), as_tuples(changes)) * scale

        def kwargs(**kw):
            require(set(kw) == {"runtime", "external_occupation", "changes", "event", "simulation_state", "tag"},
                    "keywords handed to the callable", got=sorted(kw))
            return all_of(**kw)

        def few(changes, external_occupation, *, event, tag="t"):
            return raw_energy(coef, list(external_occupation), as_tuples(changes)) * scale

        def only_changes(changes, tag=None):
            return np.float64(raw_energy(coef, [], as_tuples(changes)) * scale)

        def only_state(event, simulation_state, tag=None):
            self.check(event, simulation_state)
            return raw_energy(coef, [int(x) for x in simulation_state.occupations], []) * scale

        return {"all": all_of, "kwargs": kwargs, "few": few, "changes": only_changes,
                "state": only_state}[self.ext["takes"]]

    def apply(self, runtime, external_occupation, changes, event, simulation_state, note):
        """Called after the simulation state changed and before the cached external occupation does."""
        require(self.mine(runtime) and note == 5, "runtime and user keywords of apply_fn")
        after = [int(x) for x in simulation_state.occupations]
        i, j = (int(x) for x in event.mobile_ion_indices)
        before = self.w.hop(after, i, j)
        require(same_list(external_occupation, self.m.image(before)), "external occupation handed to apply_fn",
                got=list(external_occupation), want=self.m.image(before))
        require(as_tuples(changes) == self.m.changes(before, after, (i, j)), "changes handed to apply_fn")
        self.applied += 1

    def model(self):
        from kmcpy.models.site_energy import SiteEnergyModel

        kw = self.m.kwargs(self.w.order)
        if self.ext["apply"]:
            kw.update(apply_fn=self.apply, apply_kwargs={"note": 5})
        if self.ext["runtime"] == "reference":
            kw.update(runtime_ref="sitefns:counted_runtime", runtime_kwargs={"factor": 2.5})
        model = SiteEnergyModel(compute_fn=self.callable(), compute_kwargs={"tag": "t"}, runtime=self.runtime, **kw)
        self.given = kw.get("initial_occupation")
        if self.given is not None and self.ext["extra"] % 2:  # what the caller does with its own array later
            self.given[:] = self.given[::-1]
            self.given = None
        return model

    def untouched(self):
        if self.given is not None:
            require(same_list(self.given, self.m.background), "the caller's initial occupation was written to",
                    got=list(self.given), want=self.m.background)


def composite(w, site, takes=0):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

    class FixedBarrier(LocalClusterExpansion):
        """A barrier part that follows the state by itself and must be told about every change of it."""
        mine = None

        def started(self, simulation_state, order):
            self.mine = [int(x) for x in simulation_state.occupations]
            require(order is not None and order.fingerprint == w.order.fingerprint,
                    "active-site order handed to a stateful barrier model")

        if takes == 0:  # a barrier part asks for the order by name, takes everything, or does not know it
            def initialize_state(self, *, simulation_state, event_lib=None, structure=None, config=None,
                                 active_site_order=None):
                self.started(simulation_state, active_site_order)
        elif takes == 1:
            def initialize_state(self, **kwargs):
                self.started(kwargs["simulation_state"], kwargs.get("active_site_order"))
        else:
            def initialize_state(self, simulation_state, event_lib, structure, config):
                self.started(simulation_state, w.order)

        def apply_event(self, *, event, simulation_state):
            self.mine = w.hop(self.mine, *(int(x) for x in event.mobile_ion_indices))

        def compute(self, simulation_state, event):
            require(self.mine == [int(x) for x in simulation_state.occupations],
                    "a stateful barrier model was not told about the state", mine=self.mine)
            return 200.0

    class Recording(CompositeLCEModel):
        """Notes every accepted hop; the reference is rebuilt from the notes."""

        def apply_event(self, *, event, simulation_state):
            super().apply_event(event=event, simulation_state=simulation_state)
            self.on_hop(event, simulation_state)

    return Recording(site_model=site, kra_model=FixedBarrier())


def expected_rates(p, w, occ):
    out = []
    for i, j, env in w.events:
        class E:
            mobile_ion_indices = (i, j)
        found = p.expected(E, occ)
        if found is None:
            out.append(0.0)
            continue
        image, changes, raw = found
        delta = raw * p.factor if changes else 0.0
        out.append(w.spec["v"] * math.exp(-(200.0 + delta / 2) / (KB * w.spec["T"])))
    return out


def check_run(spec, case):
    w = World(spec)
    p = Probe(w, spec["ext"], spec)
    site = p.model()
    hops = []
    # Evaluations see the whole external occupation, so every event depends on every other one.
    for e in spec["events"]:
        e[2] = list(range(w.n))
    w = p.w = World(spec)

    def on_hop(event, state):
        occ = [int(x) for x in state.occupations]
        require(same_list(site.external_occupation, p.m.image(occ)), "external occupation after an accepted hop",
                got=list(site.external_occupation), want=p.m.image(occ))
        hops.append(occ)

    for round_ in range(2 if spec["again"] else 1):
        model = composite(w, site, (round_ + spec["cfg"].get("random_seed", 0)) % 3)
        model.on_hop = on_hop
        occ = list(spec["occ"])
        if round_:  # the same model object in a new simulation of another state
            occ = hops[len(hops) // 2] if hops else occ
        kmc = w.kmc(model=model, occ=occ, **spec["cfg"])
        require(same_list(site.external_occupation, p.m.image(occ)), "external occupation at the start",
                got=list(site.external_occupation), want=p.m.image(occ))
        start = expected_rates(p, w, occ)
        require(np.allclose(kmc.prob_list, start, rtol=1e-9), "rates at the start", got=kmc.prob_list.tolist(),
                want=start)
        kmc.run(label="c19")
        occ = [int(x) for x in kmc.simulation_state.occupations]
        require(same_list(site.external_occupation, p.m.image(occ)), "external occupation after the run")
        final = expected_rates(p, w, occ)
        require(np.allclose(kmc.prob_list, final, rtol=1e-9), "rates after the run", got=kmc.prob_list.tolist(),
                want=final)
    p.untouched()
    if spec["ext"]["apply"]:
        silent = sum(1 for _ in hops) - p.applied
        require(silent >= 0, "apply_fn called more often than hops were made")
        changing = all(p.m.value(s, p.w.mob_code[s]) != p.m.value(s, p.w.vac_code[s])
                       for e in w.events for s in e[:2] if w.mob_code[s] is not None and w.vac_code[s] is not None)
        if changing:
            require(silent == 0, "apply_fn not called for every accepted hop", hops=len(hops), calls=p.applied)
    case.nontrivial(len(hops) >= 3)
    case.label("kind:" + spec["ext"]["kind"])
    case.label("states:" + spec["ext"]["states"])


def check_direct(spec, case):
    """compute() and apply_event() driven by hand, both hop directions, including impossible events."""
    from kmcpy.simulator.state import State

    w = World(spec)
    p = Probe(w, spec["ext"], spec)
    site = p.model()
    lib = w.event_lib(deps=False)
    w.lookup.annotate_event_lib(lib)
    state = State(occupations=list(spec["occ"]))
    site.initialize_state(simulation_state=state, event_lib=lib, active_site_order=w.order)
    made = 0
    for turn in range(8):
        occ = [int(x) for x in state.occupations]
        options = []
        for k, event in enumerate(lib.events):
            found = p.expected(event, occ)
            got = site.compute(event=event, simulation_state=state)
            if found is None:
                continue
            options.append(k)
            image, changes, raw = found
            want = raw * p.factor if changes else 0.0
            require(type(got) is float and abs(got - want) <= 1e-9 * max(1.0, abs(want)), "energy difference in meV",
                    got=got, want=want)
            require(same_list(site.external_occupation, image), "compute() changed the external occupation")
        require([int(x) for x in state.occupations] == occ, "compute() changed the state")
        if not options:
            break
        event = lib.events[options[(spec["cfg"]["random_seed"] + turn * 7) % len(options)]]
        state.apply_event(event, 0.0)
        site.apply_event(event=event, simulation_state=state)
        made += 1
        now = [int(x) for x in state.occupations]
        require(same_list(site.external_occupation, p.m.image(now)), "external occupation after apply_event",
                got=list(site.external_occupation), want=p.m.image(now))
    p.untouched()
    case.nontrivial(made >= 3)


@st.composite
def broken(draw):
    spec = draw(worlds(max_events=6, max_cells=4, max_env=3))
    n = len(active_allowed(spec))
    spec["fault"] = draw(st.sampled_from(["missing site", "negative", "outside size", "outside initial", "duplicate",
                                          "short initial", "missing state", "missing state by site",
                                          "missing later state", "missing later state", "units",
                                          "hash", "hash alone", "stored hash", "state size", "keyword", "returned", "reference",
                                          "order", "list too short", "nothing"]))
    spec["pick"] = draw(st.integers(0, 1000))
    spec["through"] = draw(st.sampled_from(["kmc", "direct"]))
    spec["by_site"] = draw(st.booleans())
    return spec


def check_broken(spec, case):
    from kmcpy.models.site_energy import SiteEnergyModel
    from kmcpy.simulator.state import State
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    w = World(spec)
    n, fault, pick = w.n, spec["fault"], spec["pick"]
    mapping = {k: (k * 1) + 2 for k in range(n)}
    width = max(len(a) for a in w.allowed)
    kw = {"site_mapping": mapping, "external_size": n + 4}
    by_site = {s: {k: 10 * s + k for k in range(len(w.allowed[s]))} for s in range(n)}
    if spec["by_site"]:
        kw["state_mapping_by_site"] = by_site
    at = pick % n
    if fault == "missing site":
        del mapping[at]
    elif fault == "negative":
        mapping[at] = -1
    elif fault == "outside size":
        mapping[at] = n + 4 + pick % 3
    elif fault == "outside initial":
        kw["initial_occupation"] = [0] * (n + 2)
        mapping[at] = n + 2 + pick % 3
    elif fault == "duplicate":
        if n < 2:
            return
        mapping[at] = mapping[(at + 1) % n]
    elif fault == "short initial":
        kw["site_mapping"] = None
        kw["initial_occupation"] = [0] * (n - 1)
        del kw["external_size"]
    elif fault == "list too short":
        kw["site_mapping"] = list(range(n - 1))
    elif fault == "missing later state":
        # the state an event writes into a site that it cannot hop into or out of yet
        needed = []
        for i, j, _ in w.events:
            if None in (w.mob_code[i], w.mob_code[j], w.vac_code[i], w.vac_code[j]) or w.direction(spec["occ"], i, j):
                continue
            needed += [(s, c) for s, c in ((i, w.mob_code[i]), (i, w.vac_code[i]), (j, w.mob_code[j]),
                                           (j, w.vac_code[j])) if spec["occ"][s] != c]
        if not needed:
            return
        s, code = needed[pick % len(needed)]
        del by_site[s][code]
        kw["state_mapping_by_site"] = by_site
    elif fault in ("missing state", "missing state by site"):
        # a state needed now by some site, or by a hop of some event
        needed = [(s, spec["occ"][s]) for s in range(n)]
        for i, j, _ in w.events:
            if None not in (w.mob_code[i], w.mob_code[j], w.vac_code[i], w.vac_code[j]):
                needed += [(i, w.mob_code[i]), (i, w.vac_code[i]), (j, w.mob_code[j]), (j, w.vac_code[j])] * 3
        s, code = needed[pick % len(needed)]
        if fault == "missing state":
            kw.pop("state_mapping_by_site", None)
            kw["state_mapping"] = {k: 5 + k for k in range(width) if k != code}
        else:
            del by_site[s][code]
            kw["state_mapping_by_site"] = by_site
    elif fault == "units":
        kw["units"] = ["J", "kJ/mol", "", "e V", "milli"][pick % 5]
    elif fault == "order":
        shape = list(spec["shape"])
        shape[pick % 3] += 1
        kw["active_site_order"] = ActiveSiteOrder.from_structure_and_mapping(w.primitive, w.mapping,
                                                                            supercell_shape=shape)

    if fault == "hash":
        kw["active_site_order"], kw["active_site_order_hash"] = w.order, w.order.fingerprint[:-1] + "x"
    elif fault == "hash alone":
        kw["active_site_order_hash"] = w.order.fingerprint[::-1] + "x"
    elif fault == "state size":
        kw.pop("site_mapping")
        kw.pop("state_mapping_by_site", None)
        kw["active_site_order"], kw["external_size"] = w.order, n + 9
    elif fault in ("keyword", "returned", "reference"):
        return check_call(w, spec, kw, case)

    def start():
        if fault == "stored hash":
            stored = SiteEnergyModel(compute_ref="sitefns:delta", **kw).as_dict()
            require(SiteEnergyModel.from_dict(stored).as_dict() == stored, "saved site-energy model changed by loading")
            if pick % 3 == 0:
                digest = stored["external_site_order_hash"]
                stored["external_site_order_hash"] = digest[:-1] + ("0" if digest[-1] != "0" else "1")
            elif pick % 3 == 1:
                stored["external_size"] += 1
            else:
                stored["site_mapping"] = {k: n + 3 if int(k) == at else v for k, v in stored["site_mapping"].items()}
            SiteEnergyModel.from_dict(stored)
        site = SiteEnergyModel(compute_fn=lambda changes: 0.01, **kw)
        if fault == "state size":
            grown = list(spec["occ"]) + [0] * (1 + pick % 2) if pick % 4 < 2 or n < 2 else list(spec["occ"])[:-1]
            site.initialize_state(simulation_state=State(occupations=grown))
        if spec["through"] == "kmc":
            return w.kmc(model=composite(w, site)), site
        lib = w.event_lib()
        w.lookup.annotate_event_lib(lib)
        site.initialize_state(simulation_state=State(occupations=list(spec["occ"])), event_lib=lib,
                              active_site_order=w.order)
        return None, site

    if fault == "nothing":
        start()
        case.label("accepted")
        return
    try:
        start()
    except (ValueError, TypeError):
        case.nontrivial()
        case.label(fault)
        return
    require(False, "a faulty mapping is accepted when the simulation starts: " + fault, kwargs=str(kw)[:600])


def check_call(w, spec, kw, case):
    """A callable that cannot be called as configured, or returns no number, stops the evaluation."""
    from kmcpy.models.site_energy import SiteEnergyModel
    from kmcpy.simulator.state import State

    returned = ["0.01", None, True, [0.01], np.array([0.01, 0.2]), {"delta": 0.1}, np.bool_(True)][spec["pick"] % 7]
    value = returned if spec["fault"] == "returned" else 0.01
    call = {"compute_fn": lambda changes: value}
    if spec["fault"] == "keyword":
        call["compute_kwargs"] = {["scale", "changed", "Runtime"][spec["pick"] % 3]: 1}
    elif spec["fault"] == "reference":
        call = {"compute_ref": ["kmcpy:__name__", "kmcpy.models.site_energy:nothing_here", "no_such_module_x:f",
                                "nodots", "kmcpy.models.site_energy:"][spec["pick"] % 5]}
    lib = w.event_lib()
    w.lookup.annotate_event_lib(lib)
    state = State(occupations=list(spec["occ"]))
    hops = [e for e in lib.events if w.direction(spec["occ"], *(int(x) for x in e.mobile_ion_indices))]
    if not hops:
        return
    try:
        site = SiteEnergyModel(**call, **kw)
        if spec["through"] == "kmc":
            w.kmc(model=composite(w, site))
        else:
            site.initialize_state(simulation_state=state, event_lib=lib, active_site_order=w.order)
            got = site.compute(event=hops[0], simulation_state=state)
    except (ValueError, TypeError, AttributeError, ImportError):
        case.nontrivial()
        case.label(spec["fault"])
        return
    require(False, "an unusable energy callable is accepted", call=str(call), returned=str(value))


SUBS = [
    Sub("run", cases, check_run, quick=150, thorough=3000),
    Sub("direct", cases, check_direct, quick=200, thorough=4000),
    Sub("rejected", broken, check_broken, quick=250, thorough=3000),
]
