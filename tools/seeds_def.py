"""Planted bugs: edits to original lines of kMCpy, with a demonstration each."""
COMMON = '''import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import logging; logging.disable(logging.CRITICAL)
import numpy as np
scratch = tempfile.mkdtemp(prefix="demo-"); os.chdir(scratch)
import atexit; atexit.register(lambda: (os.chdir("/"), shutil.rmtree(scratch, ignore_errors=True)))


def system(n=(4, 1, 1), allowed=("Na", "X"), occ=None, events=None, rate=None, name="d", **cfg):
    """A row of Na sites with nearest-neighbour hops and a constant user rate model."""
    from pymatgen.core import Lattice, Structure
    from kmcpy.event import Event, EventLib, HopStateLookup
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC
    from kmcpy.simulator.state import State
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    s = Structure(Lattice.orthorhombic(4, 7, 7), ["Na", "O"], [[0, 0, 0], [0.5, 0.5, 0.5]])
    mapping = {"Na": list(allowed), "O": ["O"]}
    order = ActiveSiteOrder.from_structure_and_mapping(s, mapping, supercell_shape=list(n))
    size = order.active_site_count
    lib = EventLib()
    for pair, env in (events or [((k, (k + 1) % size), ()) for k in range(size)]):
        lib.add_event(Event(mobile_ion_indices=pair, local_env_indices=env))
    lib.set_index_metadata(order)
    lib.generate_event_dependencies()

    class Model:
        def compute_probability(self, event, runtime_config, simulation_state):
            occ = simulation_state.occupations
            i, j = event.mobile_ion_indices
            m, v = allowed.index("Na"), 1 - allowed.index("Na")
            if sorted((occ[i], occ[j])) != sorted((m, v)):
                return 0.0
            return 1e12 if rate is None else rate(event, occ)

    base = dict(structure_file="a.cif", model_file="b.json", event_file="c.json", mobile_ion_specie="Na",
                mobile_ion_charge=1.0, elementary_hop_distance=4.0, supercell_shape=tuple(n), site_mapping=mapping,
                temperature=300.0, attempt_frequency=1e13, equilibration_passes=0, kmc_passes=2, random_seed=3,
                name=name)
    base.update(cfg)
    return KMC(structure=order.active_structure(), model=Model(), event_lib=lib, config=Configuration(**base),
               simulation_state=State(occupations=list(occ if occ is not None else [0] + [1] * (size - 1))),
               hop_state_lookup=HopStateLookup.from_active_site_order(order, "Na"), active_site_order=order)


'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("dep-touching-ranges", "C13",
     [("kmcpy/event/base.py", '''    i, j = 0, 0
    len1, len2 = len(arr1), len(arr2)
''', '''    i, j = 0, 0
    len1, len2 = len(arr1), len(arr2)

    # Disjoint ranges need no merge.
    if len1 > 1 and len2 > 1 and (arr1[-1] <= arr2[0] or arr2[-1] <= arr1[0]):
        return False
''')],
     '''from kmcpy.event import Event, EventLib
lib = EventLib()
for pair, env in [((0, 1), (2, 3)), ((3, 4), (5, 6)), ((7, 8), (9,))]:
    lib.add_event(Event(mobile_ion_indices=pair, local_env_indices=env))
lib.generate_event_dependencies()
assert list(lib.get_dependent_events(0)) == [0, 1], list(lib.get_dependent_events(0))
''',
     "two events whose site sets share a single site that is the largest of one and the smallest of the other",
     "the dependency between the two events is missing, so rates go stale after a hop")

seed("checkpoint-time-rounded", "C16",
     [("kmcpy/simulator/state.py", '''            "time": float(self.time),
            "step": int(self.step),
        }
''', '''            "time": round(float(self.time), 15),
            "step": int(self.step),
        }
''')],
     '''from kmcpy.simulator.state import State
s = State([0, 1, 1], time=3.123456789e-11, step=7)
s.save_checkpoint("c.json")
assert State.load_checkpoint("c.json").time == 3.123456789e-11
''',
     "a checkpoint taken at a realistic (sub-nanosecond) simulation time",
     "the simulation time restored from a checkpoint differs from the saved one")

seed("supercell-image-single-wrap", "C12",
     [("kmcpy/event/generators.py", '''    supercell = np.mod(supercell, supercell_shape)
''', '''    shape = np.array(supercell_shape)
    supercell = np.where(supercell < 0, supercell + shape, supercell)
    supercell = np.where(supercell >= shape, supercell - shape, supercell)
''')],
     '''from kmcpy.event.generators import normalize_supercell_tuple
for shape in ([1, 1, 1], [2, 3, 1]):
    for image in ((-2, 0, 0), (0, 2, -2), (3, -4, 1)):
        got = normalize_supercell_tuple([0, 0, 0], image, shape)
        assert tuple(got) == tuple(a % b for a, b in zip(image, shape)), (shape, image, got)
''',
     "a neighbour more than one supercell period away (cutoff longer than a small supercell)",
     "event generation fails or assigns the wrong site for far periodic images")

seed("hop-counter-overflow", "C04",
     [("kmcpy/simulator/tracker.py", "self.hop_counter = np.zeros(self.n_mobile_ion_specie, dtype=np.int64)",
       "self.hop_counter = np.zeros(self.n_mobile_ion_specie, dtype=np.int16)")],
     '''k = system(n=(4, 1, 1), kmc_passes=9000, property_sampling_interval=10**9)
t = k.run(label="x")
assert int(t.hop_counter.sum()) == 36000, t.hop_counter
''',
     "a single ion making more than 32767 hops",
     "the hop count of an ion wraps around to negative numbers")

seed("results-short-floats", "C23",
     [("kmcpy/simulator/results.py", '''pd.DataFrame(results).to_csv(results_file, compression="gzip", index=False)''',
       '''pd.DataFrame(results).to_csv(results_file, compression="gzip", index=False, float_format="%.10g")''')],
     '''import csv, gzip
k = system(kmc_passes=5)
t = k.run(label="x")
rows = list(csv.DictReader(gzip.open("results_x.csv.gz", "rt")))
assert [float(r["time"]) for r in rows] == [float(v) for v in t.results["time"]]
''',
     "values with more than ten significant digits", "result files lose precision")

seed("time-trigger-drift", "C07",
     [("kmcpy/simulator/tracker.py", '''                    step=step,
                    sim_time=sim_time,
                    value=value,
''', '''                    step=step,
                    # Keep the sampling grid anchored to the requested spacing.
                    sim_time=sim_time
                    if spec.time_interval is None or spec.last_trigger_time is None
                    else max(sim_time, spec.last_trigger_time + spec.time_interval),
                    value=value,
''')],
     '''k = system(kmc_passes=12)
seen = []
k.attach(lambda s, step, time: seen.append(time), interval=1, time_interval=5e-12, name="p")
t = k.run(label="x")
rec = t.get_property_records("p")
assert [r["time"] for r in rec] == seen
''',
     "a callback with both a step and a time interval", "records carry a later time than the state they describe")


# ---------------------------------------------------------------------------------------- second batch
seed("seed-zero-unseeded", "C06",
     [("kmcpy/simulator/kmc.py", "        if config.random_seed is not None:\n", "        if config.random_seed:\n")],
     '''
def final():
    k = system((6, 1, 1), occ=[0, 1, 0, 1, 1, 0], random_seed=0, kmc_passes=5)
    k.run()
    return k.simulation_state.time
assert final() == final()
''', "the random seed is 0", "a run seeded with 0 is not reproducible")

seed("handled-error-keeps-clock", "C07",
     [("kmcpy/simulator/tracker.py", '''                self._handle_callback_error(spec=spec, exc=exc, step=step, sim_time=sim_time)
                spec.last_trigger_step = step
                spec.last_trigger_time = sim_time
                continue
''', '''                self._handle_callback_error(spec=spec, exc=exc, step=step, sim_time=sim_time)
                continue
''')],
     '''
calls = []
def bad(state, step, time):
    calls.append(time)
    raise RuntimeError("no value")
k = system((6, 1, 1), occ=[0, 1, 0, 1, 1, 0], kmc_passes=40)
k.attach(bad, time_interval=1e-11, interval=10**9, on_error=lambda *a: True)
k.run()
assert len(calls) > 3
last = 0.0
for t in calls:
    assert t - last >= 1e-11, (t, last)
    last = t
''', "a time-scheduled callback fails and its error handler continues the run",
     "after a handled failure the callback is evaluated at every step instead of on its schedule")

seed("negative-barrier-clamped", "C08",
     [("kmcpy/models/composite_lce_model.py", "        e_barrier = e_kra + delta_e_site / 2\n",
       "        e_barrier = max(e_kra + delta_e_site / 2, 0.0)\n")],
     '''
from types import SimpleNamespace as N
from kmcpy.models.composite_lce_model import CompositeLCEModel
from kmcpy.event import Event
m = CompositeLCEModel()
m.kra_model = N(compute=lambda simulation_state, event: 20.0)
m.site_model = N(compute=lambda simulation_state, event: -100.0)
p = m.compute_probability(Event((0, 1), ()), N(temperature=300.0, attempt_frequency=1e13), N(occupations=[0, 1]))
from kmcpy.units import BOLTZMANN_CONSTANT_MEV_PER_K as k
assert abs(p / (1e13 * np.exp(30.0 / (k * 300.0))) - 1) < 1e-9, p
''', "a strongly downhill hop with a small kinetic barrier", "detailed balance fails once E_KRA + dE/2 is negative")

seed("site-energy-falsy-kwargs", "C11",
     [("kmcpy/models/site_energy.py", '            "compute_kwargs": dict(self.compute_kwargs),\n',
       '            "compute_kwargs": {k: v for k, v in self.compute_kwargs.items() if v},\n')],
     '''
open("userfn.py", "w").write("def e(event=None, simulation_state=None, scale=3.0):\\n    return scale\\n")
sys.path.insert(0, scratch)
from types import SimpleNamespace as N
from kmcpy.event import Event
from kmcpy.models.site_energy import SiteEnergyModel
m = SiteEnergyModel(compute_ref="userfn:e", compute_kwargs={"scale": 0.0}, units="meV")
b = SiteEnergyModel.from_dict(m.as_dict())
st = N(occupations=[0, 1])
assert m.compute(event=Event((0, 1), ()), simulation_state=st) == b.compute(event=Event((0, 1), ()), simulation_state=st)
''', "a compute keyword with a false value (0, empty) whose default in the callable differs",
     "keywords with false values are lost when the model is saved")

seed("count-range-open-end", "C10",
     [("kmcpy/models/local_barrier_model.py", "    if \"max_count\" in constraints and count > constraints[\"max_count\"]:\n",
       "    if constraints.get(\"max_count\") and count > constraints[\"max_count\"]:\n")],
     '''
from types import SimpleNamespace as N
from kmcpy.event import Event
from kmcpy.models.local_barrier_model import LocalBarrierModel
m = LocalBarrierModel(default_barrier=500.0)
m.add_state_count_rule(state=0, barrier=100.0, max_count=0)
assert m.compute(N(occupations=[0, 1, 0, 0]), Event((0, 1), (2, 3))) == 500.0
''', "a count rule with max_count 0 (none of the sites in that state)", "a rule for none matches any number")

LCE = '''
from pymatgen.core import Lattice, Structure
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
T = Structure(Lattice.orthorhombic(4.0, 5.0, 6.0), ["Na", "Si", "Si"], [[0, 0, 0], [0.5, 0.5, 0.2], [0.5, 0.0, 0.6]])
MAP = {"Na": ["Na", "X"], "Si": ["Si", "P"]}


def expansion(cuts):
    m = LocalClusterExpansion()
    m.build(LocalLatticeStructure(T, 0, 4.2, site_mapping=MAP, basis_type="chebyshev", exclude_center_site=True),
            cutoff_cluster=cuts)
    return m


'''

seed("neb-entry-cached", "C27",
     [("kmcpy/io/neb/data.py", '''            self.occupation, self.correlation = model.get_occ_corr_from_structure(
                self.structure,
                reference_local_lattice_structure=reference,
                exclude_species=exclude_species,
                tol=tol,
                angle_tol=angle_tol,
            )
''', '''            if self.occupation is None or self.correlation is None:
                self.occupation, self.correlation = model.get_occ_corr_from_structure(
                    self.structure,
                    reference_local_lattice_structure=reference,
                    exclude_species=exclude_species,
                    tol=tol,
                    angle_tol=angle_tol,
                )
''')],
     LCE + '''from kmcpy.io.neb import NEBDataLoader, NEBEntry
small, large = expansion([0.0, 0.0, 0.0]), expansion([5.0, 0.0, 0.0])
entry = NEBEntry.from_structure(T.copy(), 300.0)
for model in (small, large):
    loader = NEBDataLoader(model=model)
    loader.add(entry)
    want = model.get_corr_from_structure(T.copy())
    got = np.array(loader.get_correlation_matrix())[0]
    assert got.shape == np.shape(want) and np.allclose(got, want), (got, want)
''', "one entry object used in the data sets of two models", "the second data set holds the first model's correlations")

seed("gen-match-inverse", "C12",
     [("kmcpy/event/generators.py", "            for index in match.reference_to_candidate\n",
       "            for index in match.candidate_to_reference\n")],
     '''
import itertools
from kmcpy.event import EventLib
from kmcpy.event.generators import EventGenerator
R = [np.eye(3, dtype=int), np.array([[0, -1, 0], [1, -1, 0], [0, 0, 1]]), np.array([[-1, 1, 0], [-1, 0, 0], [0, 0, 1]])]
base = [("Na", (0.41, 0.13, 0.0)), ("Si", (0.30, 0.22, 0.31)), ("Si", (0.17, 0.05, 0.62)), ("Si", (0.55, 0.34, 0.18))]
rows = [(e, tuple((r @ np.array(f)) % 1)) for e, f in base for r in R]
a, c = 7.1, 8.3
cif = f"""data_p
_cell_length_a {a}
_cell_length_b {a}
_cell_length_c {c}
_cell_angle_alpha 90
_cell_angle_beta 90
_cell_angle_gamma 120
_symmetry_space_group_name_H-M 'P 1'
_symmetry_Int_Tables_number 1
loop_
_symmetry_equiv_pos_as_xyz
'x, y, z'
loop_
_atom_site_label
_atom_site_type_symbol
_atom_site_fract_x
_atom_site_fract_y
_atom_site_fract_z
_atom_site_occupancy
"""
for k, (e, f) in enumerate(rows):
    cif += f"{e}{1} {e} {f[0]:.8f} {f[1]:.8f} {f[2]:.8f} 1\\n"
open("p.cif", "w").write(cif)
EventGenerator().generate_events(structure_file="p.cif", mobile_ion_identifiers=("Na", "Na"), supercell_shape=[3, 3, 3],
                                 event_file="e.json", site_mapping={"Na": ["Na", "X"], "Si": ["Si", "P"]},
                                 local_env_cutoff=4.6, convert_to_primitive_cell=False, export_local_env_structure=False)
from kmcpy.structure.active_site_order import ActiveSiteOrder
from kmcpy.io.cif import load_labeled_structure_from_cif
order = ActiveSiteOrder.from_structure_and_mapping(load_labeled_structure_from_cif("p.cif"), {"Na": ["Na", "X"], "Si": ["Si", "P"]},
                                                   supercell_shape=[3, 3, 3])
s = order.active_structure()
frames = set()
for ev in EventLib.from_file("e.json").events:
    sites = [ev.mobile_ion_indices[0]] + list(ev.local_env_indices)
    frames.add(tuple(round(s.get_distance(i, j), 2) for i, j in itertools.combinations(sites, 2)))
assert len(frames) == 1, len(frames)
''', "start sites related by a rotation whose matching permutation is not its own inverse (three-fold axes)",
     "equivalent start sites list their neighbours in different orders, so their barriers are those of permuted surroundings")

seed("stale-initial-occupation", "C19",
     [("kmcpy/models/site_energy.py", '''        for kmcpy_site, mapped_value in enumerate(mapped_values):
            external[int(self._site_lookup[kmcpy_site])] = mapped_value
''', '''        for kmcpy_site, mapped_value in enumerate(mapped_values):
            external_site = int(self._site_lookup[kmcpy_site])
            external[external_site] = mapped_value or external[external_site]
''')],
     '''
from types import SimpleNamespace as N
from kmcpy.event import Event
from kmcpy.models.site_energy import SiteEnergyModel
seen = []
m = SiteEnergyModel(compute_fn=lambda external_occupation, **kw: seen.append(list(external_occupation)) or 0.0,
                    site_mapping=[2, 0], state_mapping={0: 1, 1: 0}, initial_occupation=[1, 7, 1])
m.initialize_state(simulation_state=N(occupations=[0, 1]))
m.compute(event=Event((0, 1), ()), simulation_state=N(occupations=[0, 1]))
assert seen == [[0, 7, 1]], seen
''', "an initial external occupation that differs from the simulation at a site whose mapped value is zero",
     "the user's energy callable sees a stale occupation")

seed("single-choice-varied", "C21",
     [("kmcpy/structure/local_environment_enumerator.py", "        if len(choices) > 1:\n            resolved_sites.append(index)",
       "        if choices:\n            resolved_sites.append(index)")],
     '''
from pymatgen.core import Lattice, Structure
from kmcpy.structure.lattice_structure import LatticeStructure
from kmcpy.structure.local_environment_enumerator import enumerate_local_environments
s = Structure(Lattice.cubic(6.0), ["Na", "Si", "Na"], [[0, 0, 0], [0.4, 0, 0], [0, 0.4, 0]])
lat = LatticeStructure(s, {"Na": ["Na", "X"], "Si": ["Si", "P"]}, "chebyshev")
out = enumerate_local_environments(lat, 0, 2.6, variable_species=["Na", "X", "P"], exclude_center_site=True)
assert sorted(list(e.full_occupation) for e in out) == [[0, 0, 0], [0, 0, 1]], [list(e.full_occupation) for e in out]
''', "a list of variable species that leaves some site a single choice other than its present species",
     "sites that do not vary are overwritten")
