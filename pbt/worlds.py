"""Generated kMC systems ("worlds") and an independent reference semantics for them.

A world spec is plain JSON.  `World(spec)` builds real kMCpy objects from it; the reference methods
(`direction`, `hop`, `species_counts`) only use the spec.
"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

VACANCY_WORDS = ("X", "Va", "Vacancy", "vacancy", "VA")
KB = 8.617333262145e-2  # meV/K, as documented in the units page


# ----------------------------------------------------------------------------------- generators
@st.composite
def lattices(draw, skew=True, lo=4.0, hi=9.0):
    lengths = [draw(st.integers(int(lo * 10), int(hi * 10))) / 10 for _ in range(3)]
    if not skew or draw(st.integers(0, 3)) == 0:
        return lengths + [90.0, 90.0, 90.0]
    kind = draw(st.integers(0, 2))
    if kind == 0:
        return [lengths[0], lengths[0], lengths[2], 90.0, 90.0, draw(st.sampled_from([60.0, 120.0]))]
    if kind == 1:
        angle = float(draw(st.integers(55, 115)))
        return [lengths[0]] * 3 + [angle] * 3
    angles = [float(draw(st.integers(65, 115))) for _ in range(3)]
    return lengths + angles


@st.composite
def frac_positions(draw, n, grid=12):
    """n distinct fractional positions on a grid, optionally shifted off it by a tiny generic amount."""
    cells = draw(st.lists(st.tuples(*[st.integers(0, grid - 1)] * 3), min_size=n, max_size=n, unique=True))
    wobble = draw(st.sampled_from([0.0, 0.0, 0.013]))
    out = []
    for k, cell in enumerate(cells):
        out.append([round(c / grid + wobble * ((k * 7 + i * 3) % 5 - 2) / 2.0, 6) for i, c in enumerate(cell)])
    return out


@st.composite
def palettes(draw, multi=True):
    """Site kinds: (template element, allowed labels in some order)."""
    mobile = draw(st.sampled_from(["Na", "Na", "Li", "F"]))
    vac = draw(st.sampled_from(VACANCY_WORDS)) if draw(st.booleans()) else "X"
    # "F" is a prefix of "Fe": a matcher that looks for substrings confuses the two.
    fe_host = mobile == "F" and draw(st.booleans())
    frame = "Si" if fe_host else "Fe" if mobile == "F" else draw(st.sampled_from(["Si", "Fe"]))
    other = {"Si": ["P", "Ge"], "Fe": ["Co", "Ni"]}[frame]
    host = "Fe" if fe_host else "Cl" if mobile == "F" else "K"
    kinds = {"A": [mobile, draw(st.permutations([mobile, vac]))]}
    if multi:
        allowed = [host, mobile, vac]
        kinds["B"] = [host, draw(st.permutations(allowed))]
    kinds["C"] = [frame, draw(st.permutations([frame] + other[: draw(st.integers(1, 2))]))]
    kinds["D"] = ["O", ["O"]]
    return mobile, kinds


@st.composite
def worlds(draw, max_prim=4, max_cells=6, max_events=14, multi=True, skew=True, max_env=5, min_active=3,
           min_events=1):
    mobile, kinds = draw(palettes(multi=multi))
    shape = draw(st.sampled_from([s for s in itertools.product((1, 2, 3), repeat=3)
                                  if np.prod(s) <= max_cells]))
    shape = list(shape)
    cells = int(np.prod(shape))
    n_prim = draw(st.integers(1, max_prim))
    letters = ["A"] + [draw(st.sampled_from(sorted(kinds))) for _ in range(n_prim - 1)]
    movable = [l for l in letters if l in "AB"]
    need = max(0, math.ceil(min_active / cells) - len(movable))
    letters += ["A"] * need
    letters = draw(st.permutations(letters))
    frac = draw(frac_positions(len(letters)))
    used = sorted(set(letters))
    order = draw(st.permutations(used))
    mapping = [[kinds[l][0], list(kinds[l][1])] for l in order]
    sites = [[kinds[l][0], f] for l, f in zip(letters, frac)]
    spec = {
        "lattice": draw(lattices(skew=skew)), "sites": sites, "mapping": mapping, "shape": shape,
        "mobile": mobile,
    }
    allowed = active_allowed(spec)
    n = len(allowed)
    mob = [i for i in range(n) if mobile in allowed[i]]
    occ = [draw(st.integers(0, len(a) - 1)) for a in allowed]
    n_events = draw(st.integers(min_events, max_events))
    events = []
    for _ in range(n_events):
        i = draw(st.sampled_from(mob))
        j = draw(st.sampled_from([m for m in mob if m != i]))
        env = draw(st.lists(st.integers(0, n - 1), max_size=min(max_env, n), unique=True))
        events.append([i, j, env])
        if draw(st.integers(0, 5)) == 0:
            events.append([j, i, list(env)])  # the generator lists both directions of a pair
    # make the first event possible so that a run can start
    i, j, _ = events[0]
    occ[i] = allowed[i].index(mobile)
    occ[j] = vacancy_code(allowed[j])
    spec["events"] = events
    spec["occ"] = occ
    spec["rates"] = {
        "base": draw(st.integers(50, 400)),
        "w": draw(st.lists(st.integers(-60, 60), min_size=1, max_size=5)),
        "blocked": sorted(draw(st.sets(st.integers(1, max(1, len(events) - 1)), max_size=2))) if len(events) > 1 else [],
        # environments that close an event altogether (rate zero although the hop is possible)
        "gate": draw(st.sampled_from([None, None, [2, 0], [2, 1], [3, 1]])),
    }
    spec["T"] = draw(st.integers(150, 1500))
    spec["v"] = draw(st.sampled_from([1e13, 5e12, 2.5e11]))
    return spec


def active_allowed(spec):
    """Allowed labels of every active site, in the documented order (primitive-site-major)."""
    table = {k: v for k, v in spec["mapping"]}
    out = []
    for el, _ in spec["sites"]:
        if len(table[el]) > 1:
            out.extend([list(table[el])] * int(np.prod(spec["shape"])))
    return out


def vacancy_code(allowed):
    for k, label in enumerate(allowed):
        if label in VACANCY_WORDS:
            return k
    return None


# ----------------------------------------------------------------------------------- real objects
def primitive_structure(spec):
    from pymatgen.core import Lattice, Structure

    return Structure(Lattice.from_parameters(*spec["lattice"]), [s[0] for s in spec["sites"]],
                     [s[1] for s in spec["sites"]])


class RefRateModel:
    """A user-written rate model (docs: custom_model): any object with compute_probability."""

    def __init__(self, world):
        self.world = world
        self.calls = 0
        self.memo = {}

    def compute_probability(self, event, runtime_config, simulation_state):
        self.calls += 1
        occ = simulation_state.occupations
        pair, env = tuple(event.mobile_ion_indices), tuple(event.local_env_indices)
        key = (pair, env, runtime_config.temperature, runtime_config.attempt_frequency,
               tuple(int(occ[s]) for s in pair + env))
        if key not in self.memo:
            self.memo[key] = self.world.rate(occ, list(pair), list(env), runtime_config.temperature,
                                             runtime_config.attempt_frequency)
        return self.memo[key]


class World:
    def __init__(self, spec, build=True):
        self.spec = spec
        self.allowed = active_allowed(spec)
        self.n = len(self.allowed)
        self.mobile = spec["mobile"]
        self.mob_code = [a.index(self.mobile) if self.mobile in a else None for a in self.allowed]
        self.vac_code = [vacancy_code(a) for a in self.allowed]
        self.events = [(int(i), int(j), tuple(int(e) for e in env)) for i, j, env in spec["events"]]
        self.blocked = {(self.events[k][0], self.events[k][1]) for k in spec["rates"]["blocked"]
                        if (self.events[k][0], self.events[k][1]) != self.events[0][:2]}
        self.gate = spec["rates"].get("gate")
        self.mapping = {k: list(v) for k, v in spec["mapping"]}
        if build:
            self.build()

    # reference semantics ------------------------------------------------------------------
    def direction(self, occ, i, j):
        if None in (self.mob_code[i], self.mob_code[j], self.vac_code[i], self.vac_code[j]):
            return 0
        if occ[i] == self.mob_code[i] and occ[j] == self.vac_code[j]:
            return 1
        if occ[i] == self.vac_code[i] and occ[j] == self.mob_code[j]:
            return -1
        return 0

    def hop(self, occ, i, j):
        d = self.direction(occ, i, j)
        assert d != 0
        src, dst = (i, j) if d == 1 else (j, i)
        out = list(occ)
        out[src] = self.vac_code[src]
        out[dst] = self.mob_code[dst]
        return out

    def energy(self, occ, i, j, env):
        w = self.spec["rates"]["w"]
        e = self.spec["rates"]["base"]
        for pos, site in enumerate([i, j] + list(env)):
            e += w[pos % len(w)] * ((occ[site] * (pos + 2)) % 3)
        return max(1.0, float(e))

    def rate(self, occ, pair, env, T, v):
        i, j = pair
        if self.direction(occ, i, j) == 0 or self.closed(occ, i, j, env):
            return 0.0
        return v * math.exp(-self.energy(occ, i, j, env) / (KB * T))

    def closed(self, occ, i, j, env):
        """Rate zero by the user's model: never for the first event's pair, and not changed by the hop itself."""
        if (i, j) in self.blocked:
            return True
        rest = [int(occ[s]) for s in env if s not in (i, j)]
        if not self.gate or not rest or (i, j) == self.events[0][:2]:
            return False
        return sum(rest) % self.gate[0] == self.gate[1]

    def rates(self, occ):
        return np.array([self.rate(occ, (i, j), env, self.spec["T"], self.spec["v"])
                         for i, j, env in self.events])

    def possible(self, occ):
        return [k for k, (i, j, env) in enumerate(self.events)
                if self.direction(occ, i, j) != 0 and not self.closed(occ, i, j, env)]

    def labels(self, occ):
        return [self.norm(self.allowed[s][c]) for s, c in enumerate(occ)]

    @staticmethod
    def norm(label):
        return "X" if label in VACANCY_WORDS else label

    # real objects ---------------------------------------------------------------------------
    def build(self):
        from kmcpy.event import HopStateLookup
        from kmcpy.structure.active_site_order import ActiveSiteOrder

        self.primitive = primitive_structure(self.spec)
        self.order = ActiveSiteOrder.from_structure_and_mapping(
            self.primitive, self.mapping, supercell_shape=self.spec["shape"])
        self.structure = self.order.active_structure()
        self.lookup = HopStateLookup.from_active_site_order(self.order, self.mobile)
        self.matrix = np.array(self.structure.lattice.matrix)
        self.frac = np.array(self.structure.frac_coords)

    def event_lib(self, deps=True):
        from kmcpy.event import Event, EventLib

        lib = EventLib()
        for i, j, env in self.events:
            lib.add_event(Event(mobile_ion_indices=(i, j), local_env_indices=tuple(env)))
        lib.set_index_metadata(self.order)
        if deps:
            lib.generate_event_dependencies()
        return lib

    def config(self, **kw):
        from kmcpy.simulator.config import Configuration

        base = dict(
            structure_file="unused.cif", model_file="unused.json", event_file="unused-events.json",
            mobile_ion_specie=self.mobile, mobile_ion_charge=1.0, elementary_hop_distance=2.5,
            supercell_shape=tuple(self.spec["shape"]), site_mapping=self.mapping, dimension=3,
            temperature=float(self.spec["T"]), attempt_frequency=float(self.spec["v"]),
            equilibration_passes=0, kmc_passes=1, random_seed=12345, name="w",
        )
        base.update(kw)
        return Configuration(**base)

    def kmc(self, config=None, lib=None, model=None, occ=None, state=None, kind=None, **cfg):
        from kmcpy.simulator.kmc import KMC
        from kmcpy.simulator.state import State

        return (kind or KMC)(
            structure=self.structure, model=model or RefRateModel(self),
            event_lib=lib if lib is not None else self.event_lib(),
            config=config or self.config(**cfg),
            simulation_state=state or State(occupations=list(occ if occ is not None else self.spec["occ"])),
            hop_state_lookup=self.lookup, active_site_order=self.order,
        )

    def pass_length(self):
        cells = int(np.prod(self.spec["shape"]))
        return sum(cells for el, _ in self.spec["sites"]
                   if el == self.mobile and len(self.mapping[el]) > 1)

    def min_image(self, a, b):
        """Shortest vectors from site a to site b: (length, list of candidates within 1e-6)."""
        d = self.frac[b] - self.frac[a]
        d = d - np.round(d)
        reach = np.linalg.norm(d @ self.matrix) * np.linalg.norm(np.linalg.inv(self.matrix), axis=0)
        shifts = np.array(list(itertools.product(*[range(-n, n + 1) for n in (np.ceil(reach) + 1).astype(int)])),
                          float)
        vecs = (d + shifts) @ self.matrix
        lens = np.linalg.norm(vecs, axis=1)
        best = lens.min()
        return best, vecs[lens < best + 1e-5]


def trace_run(kmc, label="t", extra=None):
    """Run and record (step, time, occupations) after every step through the public callback API."""
    trace = []

    def probe(state, step, time):
        trace.append((int(step), float(time), [int(x) for x in state.occupations]))
        return None

    kmc.attach(probe, interval=1, name="verif_probe", store=False)
    tracker = kmc.run(label=label)
    return tracker, trace


class RecordingModel(RefRateModel):
    """RefRateModel that notes every accepted hop (equilibration included) through the documented
    apply_event hook for stateful models."""

    def __init__(self, world):
        super().__init__(world)
        self.hops = []

    def apply_event(self, event, simulation_state):
        self.hops.append({
            "event": tuple(int(x) for x in event.mobile_ion_indices),
            "occ": [int(x) for x in simulation_state.occupations],
            "time": float(simulation_state.time), "step": int(simulation_state.step),
        })


def moved_sites(before, after):
    return [s for s, (a, b) in enumerate(zip(before, after)) if a != b]


def recorded_run(w, label="t", **cfg):
    """Run the world; returns (kmc, tracker, equilibration hops, production hops)."""
    model = RecordingModel(w)
    kmc = w.kmc(model=model, **cfg)
    tracker = kmc.run(label=label)
    n_eq = kmc.config.equilibration_passes * w.pass_length()
    return kmc, tracker, model.hops[:n_eq], model.hops[n_eq:]
