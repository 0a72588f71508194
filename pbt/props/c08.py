"""C08: Arrhenius rates and detailed balance of the composite model."""
import math

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
import worlds as W
from harness import Sub, require

ID = "C08"
RULE = ("composite models with a generated barrier expansion and a site part that is absent, a generated expansion, "
        "a SiteEnergyModel or a user object, over supercells of binary/ternary sites, all endpoint pairs in random "
        "states, temperatures and attempt frequencies; non-trivial when a hop was possible and the two directions "
        "have different rates or there is no site part")
ASSUMPTIONS = ["detailed balance is compared for events whose local environment does not contain the endpoints, so "
               "that E_KRA is the same before and after the hop"]


@st.composite
def cases(draw):
    spec = draw(L.local_envs(max_env=4, max_prim=3))
    spec["shape"] = draw(st.sampled_from([[2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 3], [3, 1, 2]]))
    spec["site"] = draw(st.sampled_from(["lce", "lce", "energy", "object", "none"]))
    spec["cuts2"] = [draw(st.sampled_from([100, 60, 0])) for _ in range(3)]
    spec["keci"] = draw(st.lists(st.integers(-90, 90), min_size=1, max_size=8))
    spec["keci2"] = draw(st.lists(st.integers(-90, 90), min_size=1, max_size=8))
    spec["const"] = draw(st.integers(100, 600))
    spec["const2"] = draw(st.integers(-200, 200))
    spec["units"] = draw(st.sampled_from(["eV", "meV"]))
    spec["w"] = draw(st.lists(st.integers(-150, 150), min_size=3, max_size=7))
    spec["T"] = draw(st.integers(150, 1500))
    spec["v"] = draw(st.sampled_from([1e13, 5e12, 2.5e11]))
    spec["pairs"] = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=4))
    spec["pick"] = draw(st.lists(st.integers(0, 40), min_size=6, max_size=12))
    spec["avoid"] = draw(st.booleans())
    spec["states"] = draw(st.lists(st.lists(st.integers(0, 5), min_size=6, max_size=12), min_size=2, max_size=4))
    return spec


class Setup:
    def __init__(self, spec):
        from kmcpy.event import HopStateLookup
        from kmcpy.structure.active_site_order import ActiveSiteOrder

        self.spec = spec
        self.env = env = L.LocalEnv(spec)
        assume(env.cutoff is not None)
        self.lls = env.build()
        assume(len(self.lls.structure) == len(env.sites))  # C09 decides that
        geo = L.Geometry([s.species_string for s in self.lls.structure], [s.coords for s in self.lls.structure])
        assume(not geo.ambiguous())
        self.indices = [int(i) for i in self.lls.site_indices]
        self.counts = [len(env.allowed(k)) for k in self.indices]
        self.cells = int(np.prod(spec["shape"]))
        self.kinds = [k for k in range(len(env.active)) for _ in range(self.cells)]
        self.n = len(self.kinds)
        self.allowed = [env.allowed(k) for k in self.kinds]
        self.mobile = [a.index(spec["mobile"]) if spec["mobile"] in a else None for a in self.allowed]
        self.vacant = [W.vacancy_code(a) for a in self.allowed]
        self.geo = geo
        self.order = ActiveSiteOrder.from_structure_and_mapping(env.template(), env.mapping,
                                                                supercell_shape=spec["shape"])
        self.lookup = HopStateLookup.from_active_site_order(self.order, spec["mobile"])

    def lce(self, ranks, keci, const):
        from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

        model = LocalClusterExpansion()
        model.build(self.lls, cutoff_cluster=[self.geo.cutoff(r) for r in ranks])
        feats = L.features([[tuple(int(i) for i in c.site_indices) for c in o.clusters] for o in model.orbits],
                           self.counts)
        names = model.get_orbit_fingerprints()
        assume(len(names) == len(feats))
        values = [keci[k % len(keci)] / (1 + k) for k in range(len(feats))]
        model.set_parameters({"keci": values, "empty_cluster": float(const), "orbit_fingerprints": names,
                              "local_environment_hash": model.local_environment_hash})

        def reference(occ, local):
            return const + float(np.dot(L.correlations(feats, self.counts, [occ[s] for s in local], self.spec), values))
        return model, reference

    def events(self):
        from kmcpy.event import Event

        hosts = [s for s in range(self.n) if self.mobile[s] is not None]
        out = []
        for a, b in self.spec["pairs"]:
            i = hosts[a % len(hosts)]
            rest = [h for h in hosts if h != i]
            if not rest:
                continue
            j = rest[b % len(rest)]
            local = []
            for pos, k in enumerate(self.indices):
                pool = [s for s in range(self.n) if self.kinds[s] == k]
                if self.spec["avoid"]:
                    pool = [s for s in pool if s not in (i, j)] or pool
                local.append(pool[self.spec["pick"][pos % len(self.spec["pick"])] % len(pool)])
            event = Event(mobile_ion_indices=(i, j), local_env_indices=tuple(local))
            self.lookup.annotate_event(event)
            out.append(event)
        return out

    def direction(self, occ, i, j):
        if occ[i] == self.mobile[i] and occ[j] == self.vacant[j]:
            return 1
        if occ[i] == self.vacant[i] and occ[j] == self.mobile[j]:
            return -1
        return 0

    def hop(self, occ, i, j):
        out = list(occ)
        if self.direction(occ, i, j) == 1:
            out[i], out[j] = self.vacant[i], self.mobile[j]
        else:
            out[i], out[j] = self.mobile[i], self.vacant[j]
        return out

    def energy(self, occ):
        """A configurational energy in meV used by the external site models."""
        w = self.spec["w"]
        return sum(w[(s * 5 + occ[s] * 3) % len(w)] for s in range(self.n)) + sum(
            w[s % len(w)] * occ[s] * occ[(s + 1) % self.n] / 4 for s in range(self.n))


class UserSiteModel:
    """A user object with the documented compute(event=, simulation_state=) interface."""

    def __init__(self, setup):
        self.setup = setup

    def compute(self, event, simulation_state):
        occ = [int(x) for x in simulation_state.occupations]
        i, j = event.mobile_ion_indices
        return self.setup.energy(self.setup.hop(occ, i, j)) - self.setup.energy(occ)


def check_rates(spec, case):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.site_energy import SiteEnergyModel
    from kmcpy.simulator.config import RuntimeConfig
    from kmcpy.simulator.state import State

    s = Setup(spec)
    kra, kra_ref = s.lce(spec["cuts"], spec["keci"], spec["const"])
    site = site_ref = None
    if spec["site"] == "lce":
        site, site_ref = s.lce(spec["cuts2"], spec["keci2"], spec["const2"])
    elif spec["site"] == "object":
        site = UserSiteModel(s)
    elif spec["site"] == "energy":
        user = UserSiteModel(s)
        factor = 1.0 if spec["units"] == "meV" else 1000.0

        def compute_fn(event, simulation_state):
            return user.compute(event, simulation_state) / factor
        site = SiteEnergyModel(compute_fn=compute_fn, units=spec["units"])
    model = CompositeLCEModel(site_model=site, kra_model=kra)
    runtime = RuntimeConfig(temperature=float(spec["T"]), attempt_frequency=float(spec["v"]))
    kt = W.KB * spec["T"]
    used = False
    events = s.events()
    for states in spec["states"]:
        base = [states[x % len(states)] % len(s.allowed[x]) for x in range(s.n)]
        for event in events:
            i, j = event.mobile_ion_indices
            for a, b in ((s.mobile[i], s.vacant[j]), (s.vacant[i], s.mobile[j]), (base[i], base[j])):
                occ = list(base)
                occ[i], occ[j] = a, b
                d = s.direction(occ, i, j)
                state = State(occupations=list(occ))
                rate = float(model.compute_probability(event=event, runtime_config=runtime, simulation_state=state))
                require([int(x) for x in state.occupations] == occ, "computing a rate changed the state")
                if d == 0:
                    require(rate == 0.0, "an impossible hop has a rate", rate=rate, occ=occ, pair=(i, j))
                    continue
                local = list(event.local_env_indices)
                after = s.hop(occ, i, j)
                if site is None:
                    de = 0.0
                elif site_ref is not None:
                    de = d * site_ref(occ, local)
                else:
                    de = s.energy(after) - s.energy(occ)
                want = math.log(spec["v"]) - (kra_ref(occ, local) + de / 2) / kt
                if abs(want) > 600:
                    continue
                require(rate > 0 and abs(math.log(rate) - want) < 1e-7 * (1 + abs(want)),
                        "rate differs from v exp(-(E_KRA + dE/2)/kT)", got=rate, log_want=want, direction=d)
                if i not in local and j not in local:
                    # every hop can be undone, at the rate detailed balance demands
                    back = float(model.compute_probability(event=event, runtime_config=runtime,
                                                           simulation_state=State(occupations=list(after))))
                    require(back > 0 and abs(math.log(rate) - math.log(back) + de / kt) < 1e-7 * (1 + abs(de / kt)),
                            "forward and reverse rates violate detailed balance", forward=rate, reverse=back, dE=de,
                            kT=kt)
                    used = used or de != 0 or site is None
                    case.label("detailed balance")
    case.nontrivial(used)
    case.label("site:" + spec["site"])


SUBS = [Sub("rates", cases, check_rates, quick=300, thorough=5000, budget=110)]
