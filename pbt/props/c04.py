"""C04: tracked ion positions, hop counts and displacements."""
import numpy as np
from hypothesis import strategies as st

from harness import Sub, require
from worlds import World, lattices, moved_sites, recorded_run, worlds

ID = "C04"
RULE = ("worlds in orthogonal, hexagonal, rhombohedral and triclinic cells of 1-12 primitive cells, tracked "
        "through hop histories; non-trivial when at least 3 hops were made, one of them across a periodic "
        "boundary")
ASSUMPTIONS = ["where two periodic images are equally near either one is accepted"]


@st.composite
def histories(draw):
    spec = draw(worlds(max_events=14, max_cells=12))
    spec["picks"] = draw(st.lists(st.integers(0, 60), min_size=4, max_size=20))
    return spec


def crossing(w, a, b):
    return bool(np.any(np.abs(w.frac[b] - w.frac[a]) > 0.5))


def lattice_vector(w, vec):
    f = np.asarray(vec) @ np.linalg.inv(w.matrix)
    return bool(np.allclose(f, np.round(f), atol=1e-6))


class RefIons:
    """Reference bookkeeping: which ion sits where, from the occupations alone."""

    def __init__(self, w, occ):
        self.w = w
        self.sites = [s for s in range(w.n) if w.mob_code[s] is not None and occ[s] == w.mob_code[s]]
        self.start = list(self.sites)
        self.hops = [0] * len(self.sites)

    def move(self, before, after):
        changed = moved_sites(before, after)
        src = [s for s in changed if before[s] == self.w.mob_code[s]]
        dst = [s for s in changed if after[s] == self.w.mob_code[s]]
        assert len(src) == 1 and len(dst) == 1
        ion = self.sites.index(src[0])
        self.sites[ion] = dst[0]
        self.hops[ion] += 1
        return ion, src[0], dst[0]


def check_static(w, tracker, ref):
    order = list(ref.start)
    require(len(tracker.mobile_ion_specie_locations) == len(order), "number of tracked ions",
            got=len(tracker.mobile_ion_specie_locations), want=len(order))
    require(np.asarray(tracker.displacement).shape == (len(order), 3), "displacement table shape")




def check_stepwise(spec, case):
    from kmcpy.simulator.tracker import Tracker

    w = World(spec)
    kmc = w.kmc()
    tracker = Tracker(config=kmc.config, structure=w.structure, initial_state=kmc.simulation_state,
                      hop_state_lookup=w.lookup)
    occ = list(spec["occ"])
    ref = RefIons(w, occ)
    check_static(w, tracker, ref)
    rows = {site: k for k, site in enumerate(int(x) for x in tracker.mobile_ion_specie_locations)}
    require(sorted(rows) == sorted(ref.start), "tracked ions do not start on the occupied mobile sites",
            got=sorted(rows), want=sorted(ref.start))
    row_of = [rows[s] for s in ref.start]
    across = 0
    n = 0
    for pick in spec["picks"]:
        possible = w.possible(occ)
        if not possible:
            break
        k = possible[pick % len(possible)]
        event = kmc.event_lib.events[k]
        before = np.array(tracker.displacement)
        tracker.update(event, 1e-9)
        kmc.update(event, dt=1e-9)
        after = [int(x) for x in kmc.simulation_state.occupations]
        ion, src, dst = ref.move(occ, w.hop(occ, *w.events[k][:2]))
        occ = w.hop(occ, *w.events[k][:2])
        require(after == occ, "occupations after the hop", got=after, want=occ)
        delta = np.array(tracker.displacement) - before
        row = row_of[ion]
        others = np.delete(delta, row, axis=0)
        require(not np.any(others), "the displacement of an ion that did not hop changed")
        best, candidates = w.min_image(src, dst)
        good = any(np.allclose(delta[row], c, atol=1e-6) for c in candidates)
        require(good, "displacement of the hop is not the minimum-image vector from source to destination",
                got=delta[row].tolist(), want=candidates.tolist(), source=src, destination=dst,
                lattice=spec["lattice"], shape=spec["shape"])
        across += crossing(w, src, dst)
        n += 1
        sites = [int(x) for x in tracker.mobile_ion_specie_locations]
        require([sites[row_of[a]] for a in range(len(ref.sites))] == ref.sites,
                "tracked ion sites differ from the real ones", got=sites, want=ref.sites)
        counts = [int(x) for x in tracker.hop_counter]
        require([counts[row_of[a]] for a in range(len(ref.sites))] == ref.hops, "hop counts", got=counts,
                want=ref.hops)
        for a, (s0, s1) in enumerate(zip(ref.start, ref.sites)):
            gap = (w.frac[s0] - w.frac[s1]) @ w.matrix + tracker.displacement[row_of[a]]
            require(lattice_vector(w, gap), "start plus displacement is not the current position", ion=a)
    case.nontrivial(n >= 3 and across >= 1)
    case.label("boundary_crossing", across > 0)
    case.label("oblique", spec["lattice"][3:] != [90.0] * 3)


@st.composite
def runs(draw):
    spec = draw(worlds(max_events=12, max_cells=8))
    spec["eq"] = draw(st.integers(0, 3))
    spec["passes"] = draw(st.integers(1, 6))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["twice"] = draw(st.booleans())
    return spec


def check_final(w, tracker, start, hops, case):
    ref = RefIons(w, start)
    check_static(w, tracker, ref)
    moves = [[] for _ in ref.start]
    occ = list(start)
    across = 0
    for hop in hops:
        ion, src, dst = ref.move(occ, hop["occ"])
        moves[ion].append((src, dst))
        across += crossing(w, src, dst)
        occ = hop["occ"]
    got_sites = [int(x) for x in tracker.mobile_ion_specie_locations]
    got_hops = [int(x) for x in tracker.hop_counter]
    disp = np.array(tracker.displacement)
    # a row belongs to the ion that ended on the site it reports (final sites are unique)
    require(sorted(got_sites) == sorted(ref.sites), "tracked ion sites differ from the real ones",
            got=sorted(got_sites), want=sorted(ref.sites))
    for ion, site in enumerate(ref.sites):
        row = got_sites.index(site)
        require(got_hops[row] == ref.hops[ion], "hop count", got=got_hops[row], want=ref.hops[ion])
        total, ambiguous = np.zeros(3), False
        for src, dst in moves[ion]:
            _, candidates = w.min_image(src, dst)
            ambiguous = ambiguous or len(candidates) > 1
            total += candidates[0]
        gap = (w.frac[ref.start[ion]] - w.frac[site]) @ w.matrix + disp[row]
        require(lattice_vector(w, gap), "start plus displacement is not the current position", ion=ion)
        if not ambiguous:
            require(np.allclose(disp[row], total, atol=1e-6 * (1 + len(moves[ion]))),
                    "displacement is not the sum of the hop vectors", got=disp[row].tolist(),
                    want=total.tolist(), hops=moves[ion])
    case.nontrivial(len(hops) >= 3 and across >= 1)


def check_run(spec, case):
    w = World(spec)
    kmc, tracker, eq, prod = recorded_run(w, label="c04", equilibration_passes=spec["eq"],
                                          kmc_passes=spec["passes"], random_seed=spec["seed"])
    start = eq[-1]["occ"] if eq else list(spec["occ"])
    check_final(w, tracker, start, prod, case)
    if spec["twice"]:
        seen = len(kmc.model.hops)
        tracker2 = kmc.run(label="c04b")
        hops = kmc.model.hops[seen:]
        n_eq = spec["eq"] * w.pass_length()
        start = hops[n_eq - 1]["occ"] if n_eq else prod[-1]["occ"]
        check_final(w, tracker2, start, hops[n_eq:], case)
        case.label("rerun")


@st.composite
def marathons(draw):
    """A few ions in a small cell, for tens of thousands of hops."""
    cells = draw(st.sampled_from([[3, 1, 1], [2, 2, 1], [1, 1, 4], [5, 1, 1]]))
    n = int(np.prod(cells))
    allowed = draw(st.sampled_from([["Na", "X"], ["X", "Na"]]))
    ions = draw(st.integers(1, 2))
    return {
        "lattice": draw(lattices(lo=3.0, hi=6.0)), "sites": [["Na", [0.1, 0.2, 0.3]]], "mapping": [["Na", allowed]],
        "shape": cells, "mobile": "Na", "T": 600, "v": 1e13,
        "events": [[i, j, []] for i in range(n) for j in range(i)],
        "occ": [allowed.index("Na")] * ions + [allowed.index("X")] * (n - ions),
        "rates": {"base": 100, "w": [draw(st.integers(0, 20))], "blocked": []},
        "eq": draw(st.integers(0, 2)), "hops": draw(st.integers(66000, 72000)), "seed": draw(st.integers(0, 10**6)),
    }


def check_marathon(spec, case):
    w = World(spec)
    passes = spec["hops"] // w.pass_length()
    kmc, tracker, eq, prod = recorded_run(w, label="c04m", equilibration_passes=spec["eq"], kmc_passes=passes,
                                          random_seed=spec["seed"], property_sampling_interval=10**9)
    require(len(prod) == passes * w.pass_length(), "number of hops made", got=len(prod))
    start = eq[-1]["occ"] if eq else list(spec["occ"])
    vectors = {(a, b): w.min_image(a, b)[1] for a in range(w.n) for b in range(w.n) if a != b}
    ref = RefIons(w, start)
    total = [np.zeros(3) for _ in ref.sites]
    ambiguous = any(len(v) > 1 for v in vectors.values())
    occ = start
    for hop in prod:
        ion, src, dst = ref.move(occ, hop["occ"])
        total[ion] += vectors[src, dst][0]
        occ = hop["occ"]
    got = [int(x) for x in tracker.mobile_ion_specie_locations]
    require(sorted(got) == sorted(ref.sites), "tracked ion sites differ from the real ones", got=got, want=ref.sites)
    for ion, site in enumerate(ref.sites):
        row = got.index(site)
        require(int(tracker.hop_counter[row]) == ref.hops[ion], "hop count after a long run",
                got=int(tracker.hop_counter[row]), want=ref.hops[ion])
        gap = (w.frac[ref.start[ion]] - w.frac[site]) @ w.matrix + tracker.displacement[row]
        f = gap @ np.linalg.inv(w.matrix)
        require(np.allclose(f, np.round(f), atol=1e-5), "start plus displacement is not the current position", off=f.tolist())
        if not ambiguous:
            require(np.allclose(tracker.displacement[row], total[ion], atol=1e-4),
                    "displacement is not the sum of the hop vectors", got=list(tracker.displacement[row]),
                    want=total[ion].tolist())
    case.nontrivial(max(ref.hops) > 32767)


SUBS = [
    Sub("marathon", marathons, check_marathon, quick=2, thorough=10, shrink=False),
    Sub("stepwise", histories, check_stepwise, quick=350, thorough=3000),
    Sub("run", runs, check_run, quick=120, thorough=900),
]
